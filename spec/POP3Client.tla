------------------------------ MODULE POP3Client ------------------------------
(* The POP3 store, one folder object and its message handles as an algorithm, against a server which may
   refuse, drop the connection or stay silent at any command.  Explored exhaustively: Sound says that every
   event it produces is allowed by POP3.tla; its behaviours are replayed against the real client. *)
EXTENDS POP3, Json
CONSTANTS MaxBad, MaxOps, GenScripts,
          CloseAfterLost      \* FALSE: a client which keeps using a connection whose reply it gave up (must be rejected)
VARIABLES s, ok, nops, ops, log, bads, up, fo, hnd, dead, stale, end
vars == <<s, ok, nops, ops, log, bads, up, fo, hnd, dead, stale, end>>

Msgs == <<[size |-> "5", uid |-> "u1", subj |-> "x", hash |-> <<"h1">>], [size |-> "6", uid |-> "u2", subj |-> "y", hash |-> <<"h2">>]>>
Cfg == [sasl |-> FALSE, saslFb |-> TRUE, apop |-> FALSE, apopFb |-> TRUE, tls |-> FALSE, tlsReq |-> FALSE, certOk |-> TRUE,
        user |-> "user", pass |-> "secret", plain |-> "", msgs |-> Msgs]
Chk == {"C04", "C05", "C06", "C07"}

\* fo: the folder object: "none", "det" (its store has gone), "closed", "open";  stale: unread bytes of an abandoned reply
Init == /\ s = Init0(Cfg) /\ ok = TRUE /\ nops = 0 /\ ops = <<>> /\ log = <<>> /\ bads = 0 /\ up = FALSE
        /\ fo = "none" /\ hnd = <<>> /\ dead = FALSE /\ stale = 0 /\ end = FALSE

Feed(es) ==
  LET RECURSIVE F(_, _, _)
      F(st, o, i) == IF i > Len(es) THEN <<st, o>> ELSE F(Nxt(st, es[i]), o /\ Ok(Chk, st, es[i]), i + 1)
  IN F(s, ok, 1)
Emit(es) == LET r == Feed(es) IN s' = r[1] /\ ok' = r[2]

C(op) == [e |-> "call", op |-> op]
Cmd(v, n, c, k) == [e |-> "cmd", v |-> v, n |-> n, code |-> CASE c = "b" -> "-" [] c = "d" -> "0" [] OTHER -> "+", stall |-> (c = "s"),
                    pend |-> stale, part |-> FALSE, tls |-> FALSE, wire |-> <<>>, arg |-> CASE v = "USER" -> "user" [] v = "PASS" -> "secret" [] OTHER -> ""]
Ret(k, conn, unread) == [e |-> "ret", ok |-> k, ex |-> "", conn |-> conn, sec |-> FALSE, unread |-> unread]

\* the commands the client sends for an operation, when its own state lets it
Plan(o) == CASE o = "open" -> <<<<"STAT", Cardinality(1..Len(s.box)) - Cardinality(s.dele)>>>>
             [] o = "status" -> <<<<"STAT", Len(s.box) - Cardinality(s.dele)>>>>
             [] o = "close" -> <<<<"RSET", 0>>>>
             [] o = "del1" -> <<<<"DELE", 1>>>>
             [] o = "del21" -> <<<<"DELE", 1>>, <<"DELE", 2>>>>
             [] o = "extract" -> <<<<"RETR", hnd[Len(hnd)]>>>>
             [] o = "drop" -> IF fo = "open" /\ up THEN <<<<"RSET", 0>>>> ELSE <<>>
             [] OTHER -> <<>>
CallEv(o) == CASE o \in {"open", "status", "drop"} -> C(o) @@ [f |-> 1]
               [] o = "close" -> C("close") @@ [f |-> 1, x |-> FALSE]
               [] o = "closex" -> C("close") @@ [f |-> 1, x |-> TRUE]
               [] o = "del1" -> C("delete") @@ [f |-> 1, nums |-> <<1>>]
               [] o = "del21" -> C("delete") @@ [f |-> 1, nums |-> <<1, 2>>]
               [] o = "extract" -> C("extract") @@ [h |-> Len(hnd), sf |-> FALSE, partial |-> FALSE]
               [] o = "get1" -> C("get") @@ [f |-> 1, n |-> 1, h |-> Len(hnd) + 1]
               [] o = "get2" -> C("get") @@ [f |-> 1, n |-> 2, h |-> Len(hnd) + 1]
               [] o = "folder" -> C("folder") @@ [f |-> 1]
               [] OTHER -> C(o)
\* does the client's own state allow the operation?
Guard(o) == CASE o \in {"open", "status"} -> up /\ fo \in {"closed", "open"}
              [] o \in {"close", "del1", "del21"} -> up /\ fo = "open"
              [] o = "extract" -> up /\ fo = "open" /\ Live(s, Len(hnd))
              [] o = "drop" -> fo = "open" /\ up
              [] OTHER -> FALSE
Forced(v, n, d) == (v \in {"DELE", "RETR"} /\ (n > Len(s.box) \/ n \in d))

\* runs the plan: returns <<events, choices, outcome, deleted>>;  cs gives the server's choice at each command
RECURSIVE Run(_, _, _, _, _, _)
Run(plan, i, cs, evs, used, d) ==
  IF i > Len(plan) THEN <<evs, used, "ok", d>>
  ELSE LET v == plan[i][1]  n == plan[i][2]
           c == IF Forced(v, n, d) THEN "b" ELSE cs[i]
           rec == IF Forced(v, n, d) THEN "g" ELSE c
           ev == Cmd(v, n, c, i)
           es == evs \o (IF c = "d" THEN <<ev, [e |-> "sclose"]>> ELSE <<ev>>)
           u == Append(used, rec)
       IN CASE c = "g" -> Run(plan, i + 1, cs, es, u, IF v = "DELE" THEN d \cup {n} ELSE d)
            [] c = "b" -> <<es, u, "refused", d>>
            [] OTHER -> <<es, u, c, d>>

Free == {"connect", "disconnect", "folder", "open", "close", "closex", "get1", "get2", "extract", "del1", "del21", "status", "drop"}
Budget(cs) == Cardinality({i \in 1..Len(cs) : cs[i] # "g"})
Letter(o) == CASE o = "connect" -> "C" [] o = "disconnect" -> "Q" [] o = "folder" -> "F0" [] o = "open" -> "O0" [] o = "close" -> "K0-" [] o = "closex" -> "K0x"
               [] o = "get1" -> "G01" [] o = "get2" -> "G02" [] o = "extract" -> "X" [] o = "del1" -> "D01" [] o = "del21" -> "D012" [] o = "status" -> "S0" [] o = "drop" -> "P0"

Count(o) == /\ nops < MaxOps /\ ~end /\ ok /\ nops' = nops + 1
            /\ ops' = Append(ops, IF o = "extract" THEN "X" \o ToString(Len(hnd)) ELSE Letter(o))

Local(o, evs, k) == /\ Emit(<<CallEv(o)>> \o evs \o <<k>>)
Connect ==
  /\ Count("connect")
  /\ IF up THEN Emit(<<C("connect"), Ret(FALSE, TRUE, stale)>>) /\ UNCHANGED <<up, fo, dead, stale>>
     ELSE /\ Emit(<<C("connect"), [e |-> "conn", ok |-> TRUE, bid |-> FALSE], [Cmd("USER", 0, "g", 0) EXCEPT !.pend = 0], [Cmd("PASS", 0, "g", 0) EXCEPT !.pend = 0], Ret(TRUE, TRUE, 0)>>)
          /\ up' = TRUE /\ dead' = FALSE /\ stale' = 0 /\ fo' = IF fo = "none" THEN "none" ELSE "det"
  /\ UNCHANGED <<log, bads, hnd, end>>
Disconnect ==
  /\ Count("disconnect")
  /\ IF ~up THEN Emit(<<C("disconnect"), Ret(FALSE, FALSE, 0)>>) /\ UNCHANGED <<up, fo>>
     ELSE /\ Emit(<<C("disconnect"), Cmd("QUIT", 0, "g", 0), [e |-> "cclose"], Ret(TRUE, FALSE, 0)>>)
          /\ up' = FALSE /\ fo' = IF fo = "none" THEN "none" ELSE "det"
  /\ UNCHANGED <<log, bads, hnd, dead, stale, end>>
Folder ==
  /\ Count("folder") /\ fo \in {"none", "det"} 
  /\ IF up THEN Emit(<<CallEv("folder"), Ret(TRUE, TRUE, 0)>>) /\ fo' = "closed" ELSE Emit(<<CallEv("folder"), Ret(FALSE, FALSE, 0)>>) /\ fo' = fo
  /\ UNCHANGED <<log, bads, up, hnd, dead, stale, end>>
CloseX ==
  /\ Count("closex") /\ fo # "none"
  /\ IF fo = "open" THEN Emit(<<CallEv("closex"), Ret(TRUE, up, 0)>>) /\ fo' = "closed" ELSE Emit(<<CallEv("closex"), Ret(FALSE, up, 0)>>) /\ fo' = fo
  /\ UNCHANGED <<log, bads, up, hnd, dead, stale, end>>
Get(o, n) ==
  /\ Count(o) /\ fo # "none" /\ Len(hnd) < 2
  /\ IF fo = "open" /\ n <= s.slots[1].cnt
     THEN Emit(<<CallEv(o), Ret(TRUE, up, 0) @@ [num |-> n]>>) /\ hnd' = Append(hnd, n)
     ELSE Emit(<<CallEv(o), Ret(FALSE, up, 0)>>) /\ hnd' = hnd
  /\ UNCHANGED <<log, bads, up, fo, dead, stale, end>>
Remote(o) ==
  /\ Count(o) /\ fo # "none" /\ (o = "extract" => hnd # <<>>)
  /\ IF ~Guard(o)
     THEN /\ Emit(<<CallEv(o), Ret(o = "drop", up, 0)>>)
          /\ fo' = (IF o = "drop" THEN "none" ELSE fo) /\ UNCHANGED <<log, bads, up, dead, stale>>
     ELSE \E cs \in [1..Len(Plan(o)) -> {"g", "b", "d", "s"}] :
            /\ bads + Budget(cs) <= MaxBad
            /\ LET r == Run(Plan(o), 1, cs, <<>>, <<>>, s.dele)
                   good == r[3] = "ok"
                   lost == r[3] \in {"d", "s"}
                   shut == lost /\ CloseAfterLost
                   vals == CASE o = "status" -> [n |-> Plan(o)[1][2]] [] o = "extract" -> [hash |-> IF hnd[Len(hnd)] = 1 THEN "h1" ELSE "h2", data |-> <<>>] [] OTHER -> <<>>
                   val == IF o = "status" THEN [n |-> Plan(o)[1][2]] ELSE IF o = "extract" THEN [hash |-> Msgs[s.box[hnd[Len(hnd)]]].hash[1], data |-> <<>>] ELSE <<>>
               IN /\ Emit(<<CallEv(o)>> \o r[1] \o (IF shut /\ r[3] = "s" THEN <<[e |-> "cclose"]>> ELSE <<>>)
                          \o <<IF good THEN Ret(TRUE, TRUE, stale) @@ val ELSE Ret(o = "drop", ~shut, IF lost /\ ~shut THEN 9 ELSE 0)>>)
                  /\ log' = log \o r[2]
                  /\ bads' = bads + Cardinality({i \in 1..Len(r[2]) : r[2][i] # "g"})
                  /\ up' = ~shut /\ dead' = (r[3] = "d") /\ stale' = IF lost /\ ~shut THEN 9 ELSE stale
                  /\ fo' = CASE o = "open" /\ good -> "open" [] o = "close" /\ good -> "closed" [] o = "drop" -> "none" [] OTHER -> fo
  /\ UNCHANGED <<hnd, end>>
Finish == /\ nops = MaxOps /\ ~end /\ ok /\ end' = TRUE
          /\ GenScripts => PrintT("SCRIPT " \o ToJson([ops |-> ops, log |-> log]))
          /\ UNCHANGED <<s, ok, nops, ops, log, bads, up, fo, hnd, dead, stale>>
\* every behaviour starts with connecting and obtaining the folder
Next == \/ Connect \/ Finish
        \/ nops >= 1 /\ (Folder \/ (nops >= 2 /\ (Disconnect \/ CloseX \/ Get("get1", 1) \/ Get("get2", 2) \/ \E o \in {"open", "close", "extract", "del1", "del21", "status", "drop"} : Remote(o))))
Sound == ok
=============================================================================
