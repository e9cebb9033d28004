----------------------------- MODULE CodecsModel -----------------------------
(* A quoted-printable generator working on one byte at a time (column, and a space which is held back until the next
   byte is known), against the meaning and the legality of Codecs.tla: every input up to MaxLen over the bytes that
   matter, every line length in Mls. *)
EXTENDS Codecs, Json
CONSTANTS MaxLen, HoldSpace, GenScripts
B == {CR, LF, SP, EQ, 46, 97, 233, 95}
Mls == {0, 4, 7}
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Esc(c) == <<EQ, HexD(c \div 16), HexD(c % 16)>>
VARIABLES x, out, col, held, text, rfc, ml
vars == <<x, out, col, held, text, rfc, ml>>
Init == /\ x = <<>> /\ out = <<>> /\ col = 0 /\ held = FALSE
        /\ text \in BOOLEAN /\ rfc \in BOOLEAN /\ ~(text /\ rfc) /\ ml \in Mls
Put(o, c, w) == \* add w at column c, cutting the line first when it (and the "=" of a cut) would not fit
  IF ml > 0 /\ c + Len(w) > ml - 1 /\ c > 0 THEN <<o \o <<EQ, CR, LF>> \o w, Len(w)>> ELSE <<o \o w, c + Len(w)>>
Write(oc, b) ==
  LET o == oc[1] c == oc[2] IN
  IF rfc THEN (IF b = SP THEN <<Append(o, 95), c + 1>> ELSE IF b \in QpWord \ {EQ, 95} THEN <<Append(o, b), c + 1>> ELSE <<o \o Esc(b), c + 3>>)
  ELSE IF text /\ b \in {CR, LF} THEN <<Append(o, b), 0>>
  ELSE IF b = 46 /\ c = 0 THEN Put(o, c, Esc(b))
  ELSE IF b \in 33..126 /\ b # EQ THEN Put(o, c, <<b>>)
  ELSE Put(o, c, Esc(b))
Step(b) ==
  /\ Len(x) < MaxLen /\ x' = Append(x, b) /\ UNCHANGED <<text, rfc, ml>>
  /\ LET oc == IF ~held THEN <<out, col>>
               ELSE IF b \in {CR, LF} \/ ~HoldSpace THEN (IF HoldSpace THEN Write(<<out, col>>, SP) ELSE Put(out, col, <<SP>>))
               ELSE Put(out, col, <<SP>>)
     IN IF b = SP /\ ~rfc THEN out' = oc[1] /\ col' = oc[2] /\ held' = TRUE
        ELSE LET w == Write(oc, b) IN out' = w[1] /\ col' = w[2] /\ held' = FALSE
Next ==
  \/ \E b \in B : Step(b)
  \/ /\ GenScripts /\ ml = 0 /\ ~text /\ ~rfc /\ x # <<>> /\ PrintT("SCRIPT " \o ToJson([x |-> x])) /\ FALSE /\ UNCHANGED vars
Final == IF held THEN Write(<<out, col>>, SP)[1] ELSE out
Sound == /\ QpLegal(Final, text, rfc, IF ml = 0 THEN 0 ELSE ml + 2)
         /\ QpDec(Final, rfc) = x
=============================================================================
