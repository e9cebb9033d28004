------------------------------ MODULE AdaptersTrace ------------------------------
EXTENDS Adapters, Json, IOUtils
CONSTANT Chk
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tid].cfg)
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
             /\ Ok(Chk, s, e) = TRUE
             /\ s' = Nxt(s, e)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Traces[tid].ev)) => PrintT(<<"ACC", tid>>)
=============================================================================
