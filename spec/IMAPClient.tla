------------------------------ MODULE IMAPClient ------------------------------
(* The IMAP store, one folder object and its message handles as an algorithm, against a server which shares the
   mailbox with another client (messages are delivered and expunged between and during calls), and may refuse,
   drop the connection, stay silent or answer nonsense at any command.  Explored exhaustively: Sound says that
   every event it produces is allowed by IMAP.tla; its behaviours are replayed against the real client. *)
EXTENDS IMAP, Json
CONSTANTS MaxBad, MaxOps, GenScripts,
          Renumber,     \* FALSE: a client which does not renumber the messages after an expunged one (must be rejected)
          CheckGone     \* FALSE: a client which addresses an expunged message by its last number (must be rejected)
VARIABLES s, ok, nops, ops, log, bads, up, fo, oc, dead, box, fl, nid, cnt, hnd, nc, tag, end
vars == <<s, ok, nops, ops, log, bads, up, fo, oc, dead, box, fl, nid, cnt, hnd, nc, tag, end>>

Cfg == [sasl |-> FALSE, saslFb |-> TRUE, tls |-> FALSE, tlsReq |-> FALSE, certOk |-> TRUE, user |-> "user", pass |-> "secret", plain |-> "", boxes |-> <<2, 0>>, hashes |-> <<>>]
Chk == {"C04", "C05", "C08", "C09", "C10", "C27"}
MaxId == 4
\* fo: the folder object: none, det (its store has gone), closed, open;  hnd: the handles [n, x, live, f, id]
Init == /\ s = Init0(Cfg) /\ ok = TRUE /\ nops = 0 /\ ops = <<>> /\ log = <<>> /\ bads = 0 /\ up = FALSE /\ fo = "none" /\ oc = 0 /\ dead = FALSE
        /\ box = <<1, 2>> /\ fl = [i \in 1..MaxId |-> 0] /\ nid = 3 /\ cnt = 0 /\ hnd = <<>> /\ nc = 0 /\ tag = 0 /\ end = FALSE

Feed(es) ==
  LET RECURSIVE F(_, _, _)
      F(st, o, i) == IF i > Len(es) THEN <<st, o>> ELSE F(Nxt(st, es[i]), o /\ Ok(Chk, st, es[i]), i + 1)
  IN F(s, ok, 1)
Emit(es) == LET r == Feed(es) IN s' = r[1] /\ ok' = r[2]

SView == IF oc = 0 THEN <<>> ELSE s.cn[oc].view                \* what the server told on the folder's connection
Base(c, v, code, k) == [e |-> "cmd", c |-> c, tls |-> FALSE, tag |-> tag + k, v |-> v, uid |-> FALSE, mb |-> 0, ids |-> <<>>, fl |-> 0, mode |-> "",
                        code |-> code, stall |-> FALSE, pend |-> 0, upd |-> <<>>, data |-> <<>>, cu |-> <<>>]
C(op) == [e |-> "call", op |-> op]
Ret(k, conn, hs, n, new) ==
  [e |-> "ret", ok |-> k, ex |-> "", conn |-> conn, sec |-> FALSE, hn |-> [i \in 1..Len(hs) |-> hs[i].n], hx |-> [i \in 1..Len(hs) |-> hs[i].x],
   hf |-> [i \in 1..Len(hs) |-> hs[i].f], hu |-> [i \in 1..Len(hs) |-> 0], cnt |-> <<n, -1>>, new |-> new, mro |-> FALSE, n |-> 0, un |-> 0, size |-> <<-1>>, id |-> 0, hash |-> "h", cu |-> <<>>]
Shows == IF fo = "open" THEN cnt ELSE -1

\* --- the server's updates, and what the client makes of them: st = [b view, n count, h handles, e events, u updates] ---
RECURSIVE Gone(_, _)
Gone(st, bx) ==
  LET P == {i \in 1..Len(st.b) : ~In(st.b[i], bx)} IN
  IF P = {} THEN st
  ELSE LET i == CHOOSE x \in P : \A y \in P : x <= y IN
       Gone([b |-> SubSeq(st.b, 1, i - 1) \o SubSeq(st.b, i + 1, Len(st.b)), n |-> st.n - 1,
             h |-> [j \in 1..Len(st.h) |-> LET m == st.h[j] IN IF ~m.live \/ m.x THEN m ELSE IF m.n = i THEN [m EXCEPT !.x = TRUE]
                                                             ELSE IF Renumber /\ m.n > i THEN [m EXCEPT !.n = @ - 1] ELSE m],
             e |-> Append(st.e, [e |-> "evt", f |-> 1, k |-> "removed", nums |-> <<i>>]), u |-> Append(st.u, [t |-> "X", n |-> i])], bx)
New(st, bx) ==
  LET q == SelectSeq(bx, LAMBDA x : ~In(x, st.b)) IN
  IF q = <<>> THEN st
  ELSE [st EXCEPT !.b = @ \o q, !.n = @ + Len(q), !.e = Append(@, [e |-> "evt", f |-> 1, k |-> "added", nums |-> [i \in 1..Len(q) |-> st.n + i]]),
                  !.u = Append(@, [t |-> "E", n |-> st.n + Len(q), ids |-> q])]
FlagUp(st, id, f) ==
  LET p == Pos(id, st.b) IN
  IF p = 0 THEN st ELSE [st EXCEPT !.u = Append(@, [t |-> "F", n |-> p, fl |-> f]), !.e = Append(@, [e |-> "evt", f |-> 1, k |-> "changed", nums |-> <<p>>]),
                                   !.h = [j \in 1..Len(@) |-> IF @[j].live /\ ~@[j].x /\ @[j].n = p THEN [@[j] EXCEPT !.f = f] ELSE @[j]]]
Cur == [b |-> SView, n |-> cnt, h |-> hnd, e |-> <<>>, u |-> <<>>]

Count(o) == nops < MaxOps /\ ~end /\ ok /\ nops' = nops + 1 /\ ops' = Append(ops, o) /\ tag' = tag + 8
Keep == UNCHANGED <<log, bads>>
Detach(hs) == [i \in 1..Len(hs) |-> [hs[i] EXCEPT !.live = FALSE]]

Connect ==
  /\ Count("C") /\ Keep /\ UNCHANGED <<box, fl, nid, cnt, hnd, fo, oc, end>>
  /\ IF up THEN Emit(<<C("connect"), Ret(FALSE, TRUE, hnd, Shows, <<>>)>>) /\ UNCHANGED <<up, dead, nc>>
     ELSE /\ Emit(<<C("connect"), [e |-> "conn", c |-> nc + 1, greet |-> "OK", ck |-> TRUE, mechs |-> <<>>, ld |-> FALSE],
                    Base(nc + 1, "LOGIN", "OK", 1) @@ [user |-> "user", pass |-> "secret"], Ret(TRUE, TRUE, hnd, Shows, <<>>)>>)
          /\ up' = TRUE /\ nc' = nc + 1 /\ dead' = dead
Disconnect ==
  /\ Count("Q") /\ Keep /\ UNCHANGED <<box, fl, nid, cnt, end, nc>>
  /\ IF ~up THEN Emit(<<C("disconnect"), Ret(FALSE, FALSE, hnd, Shows, <<>>)>>) /\ UNCHANGED <<up, fo, oc, dead, hnd>>
     ELSE /\ Emit(<<C("disconnect")>> \o (IF fo = "open" /\ ~dead THEN <<Base(oc, "LOGOUT", "OK", 1), [e |-> "cclose", c |-> oc]>> ELSE <<>>)
                  \o <<Base(s.sc, "LOGOUT", "OK", 2), [e |-> "cclose", c |-> s.sc], Ret(TRUE, FALSE, Detach(hnd), -1, <<>>)>>)
          /\ up' = FALSE /\ fo' = (IF fo = "none" THEN "none" ELSE "det") /\ oc' = 0 /\ dead' = FALSE /\ hnd' = Detach(hnd)
Folder ==
  /\ Count("F0") /\ Keep /\ fo = "none" /\ UNCHANGED <<box, fl, nid, cnt, hnd, oc, dead, end, nc, up>>
  /\ IF up THEN Emit(<<C("folder") @@ [f |-> 1, mb |-> 1], Ret(TRUE, TRUE, hnd, -1, <<>>)>>) /\ fo' = "closed"
     ELSE Emit(<<C("folder") @@ [f |-> 1, mb |-> 1], Ret(FALSE, FALSE, hnd, -1, <<>>)>>) /\ fo' = fo
Deliver == /\ Count("+") /\ Keep /\ nid <= MaxId /\ box' = Append(box, nid) /\ nid' = nid + 1 /\ UNCHANGED <<s, ok, up, fo, oc, dead, fl, cnt, hnd, nc, end>>
Purge == /\ Keep /\ \E id \in Range(box) : Count("-" \o ToString(id)) /\ box' = SelectSeq(box, LAMBDA x : x # id)
         /\ UNCHANGED <<s, ok, up, fo, oc, dead, fl, nid, cnt, hnd, nc, end>>
Get(n) ==
  /\ Count("G0" \o ToString(n)) /\ Keep /\ fo # "none" /\ Len(hnd) < 2 /\ UNCHANGED <<box, fl, nid, cnt, fo, oc, dead, end, nc, up>>
  /\ LET c == C("get") @@ [f |-> 1, n |-> n] IN
     IF fo = "open" /\ n <= cnt
     THEN LET h2 == Append(hnd, [n |-> n, x |-> FALSE, live |-> TRUE, f |-> -1]) IN Emit(<<c, Ret(TRUE, up, h2, Shows, <<Len(h2)>>)>>) /\ hnd' = h2
     ELSE Emit(<<c, Ret(FALSE, up, hnd, Shows, <<>>)>>) /\ hnd' = hnd

\* opening: a connection of its own, then SELECT, which tells the whole mailbox
Opening ==
  /\ Count("O0") /\ fo # "none" /\ UNCHANGED <<box, fl, nid, end, up>>
  /\ LET c == C("open") @@ [f |-> 1, ro |-> FALSE, strict |-> FALSE] IN
     IF fo # "closed" \/ ~up THEN Emit(<<c, Ret(FALSE, up, hnd, Shows, <<>>)>>) /\ Keep /\ UNCHANGED <<fo, oc, dead, cnt, hnd, nc>>
     ELSE \E d \in {"g", "b", "d", "s", "m"} :
            LET bad == d # "g" k == nc + 1
                sel == [Base(k, "SELECT", CASE d = "g" -> "OK" [] d = "b" -> "NO" [] d = "d" -> "X" [] d = "m" -> "M" [] OTHER -> "OK", 2)
                         EXCEPT !.mb = 1, !.stall = (d = "s"), !.ids = box, !.upd = IF d \in {"g", "s"} THEN <<[t |-> "E", n |-> Len(box), ids |-> box]>> ELSE <<>>] @@ [ro |-> FALSE, rc |-> TRUE]
                st == New([b |-> <<>>, n |-> 0, h |-> hnd, e |-> <<>>, u |-> <<>>], box)
            IN /\ (bad => bads < MaxBad) /\ bads' = bads + (IF bad THEN 1 ELSE 0) /\ log' = Append(log, d) /\ nc' = k
               /\ Emit(<<c, [e |-> "conn", c |-> k, greet |-> "OK", ck |-> TRUE, mechs |-> <<>>, ld |-> FALSE],
                         Base(k, "LOGIN", "OK", 1) @@ [user |-> "user", pass |-> "secret"], sel>> \o
                       (IF ~bad THEN st.e \o <<Ret(TRUE, TRUE, hnd, Len(box), <<>>)>>
                        ELSE (IF d = "b" THEN <<Base(k, "LOGOUT", "OK", 3)>> ELSE <<>>) \o <<[e |-> "cclose", c |-> k], Ret(FALSE, TRUE, hnd, -1, <<>>)>>))
               /\ fo' = (IF bad THEN fo ELSE "open") /\ oc' = (IF bad THEN 0 ELSE k) /\ dead' = FALSE /\ cnt' = (IF bad THEN cnt ELSE Len(box)) /\ hnd' = hnd
Close(x) ==
  /\ Count(IF x THEN "K0x" ELSE "K0-") /\ fo # "none" /\ UNCHANGED <<fl, nid, end, up, nc, cnt>>
  /\ LET c == C("close") @@ [f |-> 1, x |-> x]
         shut == fo' = "closed" /\ oc' = 0 /\ dead' = FALSE /\ hnd' = Detach(hnd)
     IN CASE fo # "open" -> Emit(<<c, Ret(FALSE, up, hnd, -1, <<>>)>>) /\ Keep /\ UNCHANGED <<fo, oc, dead, hnd, box>>
          [] fo = "open" /\ dead -> Emit(<<c, Ret(FALSE, up, Detach(hnd), -1, <<>>)>>) /\ Keep /\ shut /\ UNCHANGED box
          [] OTHER ->
             IF ~x THEN Emit(<<c, Base(oc, "LOGOUT", "OK", 1), [e |-> "cclose", c |-> oc], Ret(TRUE, up, Detach(hnd), -1, <<>>)>>) /\ Keep /\ shut /\ UNCHANGED box
             ELSE \E d \in {"g", "b", "d", "s"} :
                    /\ (d # "g" => bads < MaxBad) /\ bads' = bads + (IF d # "g" THEN 1 ELSE 0) /\ log' = Append(log, d)
                    /\ LET ev == [Base(oc, "CLOSE", CASE d = "b" -> "NO" [] d = "d" -> "X" [] OTHER -> "OK", 1) EXCEPT !.stall = (d = "s")] IN
                       CASE d = "g" -> Emit(<<c, ev, Base(oc, "LOGOUT", "OK", 2), [e |-> "cclose", c |-> oc], Ret(TRUE, up, Detach(hnd), -1, <<>>)>>) /\ shut
                         [] d = "b" -> Emit(<<c, ev, Ret(FALSE, up, hnd, cnt, <<>>)>>) /\ UNCHANGED <<fo, oc, dead, hnd>>
                         [] OTHER -> Emit(<<c, ev, [e |-> "cclose", c |-> oc], Ret(FALSE, up, hnd, cnt, <<>>)>>) /\ dead' = TRUE /\ UNCHANGED <<fo, oc, hnd>>
                    /\ box' = IF d \in {"g", "s"} THEN SelectSeq(box, LAMBDA y : (fl[y] \div 2) % 2 = 0 \/ ~In(y, SView)) ELSE box
Drop ==
  /\ Count("P0") /\ Keep /\ fo # "none" /\ UNCHANGED <<box, fl, nid, end, up, nc, cnt>>
  /\ Emit(<<C("drop") @@ [f |-> 1]>> \o (IF fo = "open" /\ ~dead THEN <<Base(oc, "LOGOUT", "OK", 1), [e |-> "cclose", c |-> oc]>> ELSE <<>>) \o <<Ret(TRUE, up, Detach(hnd), -1, <<>>)>>)
  /\ fo' = "none" /\ oc' = 0 /\ dead' = FALSE /\ hnd' = Detach(hnd)

\* one command on the folder's connection
WithF(o, h) == CASE o = "noop" -> C("fnoop") @@ [f |-> 1]
              [] o = "expunge" -> C("expunge") @@ [f |-> 1]
              [] o = "delete" -> C("delete") @@ [f |-> 1, nums |-> <<1>>, uid |-> FALSE]
              [] o = "extract" -> C("extract") @@ [h |-> h, peek |-> TRUE, sf |-> FALSE]
              [] o = "seth" -> C("seth") @@ [h |-> h, fl |-> 1, mode |-> "add"]
              [] o = "fetch" -> C("fetch") @@ [f |-> 1, hs |-> <<h>>, sz |-> FALSE, uid |-> FALSE, fl |-> TRUE]
Verb(o) == CASE o = "noop" -> "NOOP" [] o = "expunge" -> "EXPUNGE" [] o \in {"delete", "seth"} -> "STORE" [] OTHER -> "FETCH"
Letter(o, h) == CASE o = "noop" -> "N0" [] o = "expunge" -> "E0" [] o = "delete" -> "D01" [] o = "extract" -> "X" \o ToString(h) [] o = "seth" -> "L" \o ToString(h) [] o = "fetch" -> "H" \o ToString(h)
OnHandle == {"extract", "seth", "fetch"}
Addressed(h) == LET m == hnd[h] IN IF m.n \in 1..Len(SView) THEN SView[m.n] ELSE 0
Remote(o, h) ==
  /\ Count(Letter(o, h)) /\ fo # "none" /\ (o \in OnHandle => h \in 1..Len(hnd)) /\ (o \notin OnHandle => h = 1) /\ UNCHANGED <<fo, oc, nid, end, up, nc>>
  /\ LET c == WithF(o, h)
         can == fo = "open" /\ ~dead /\ (o \in OnHandle => hnd[h].live /\ (CheckGone => ~hnd[h].x))
     IN IF ~can THEN IF o = "noop" /\ fo = "closed" /\ up
                     THEN Emit(<<c, Base(s.sc, "NOOP", "OK", 1), Ret(TRUE, up, hnd, Shows, <<>>)>>) /\ log' = Append(log, "g") /\ UNCHANGED <<bads, dead, box, fl, cnt, hnd>>
                     ELSE Emit(<<c, Ret(FALSE, up, hnd, Shows, <<>>)>>) /\ Keep /\ UNCHANGED <<dead, box, fl, cnt, hnd>>
        ELSE \E d \in {"g", "b", "d", "s", "m"} :
          LET id == IF o = "delete" THEN (IF SView = <<>> THEN 0 ELSE SView[1]) ELSE IF o \in OnHandle THEN Addressed(h) ELSE 0
              gone == o \notin {"noop", "expunge"} /\ (id = 0 \/ ~In(id, box))
              fine == d = "g" /\ ~gone
              code == CASE d = "d" -> "X" [] d = "m" -> "M" [] d = "b" \/ (d = "g" /\ gone) -> "NO" [] OTHER -> "OK"
              tells == d \in {"g", "b"}
              f2 == IF code = "OK" /\ o \in {"delete", "seth"} /\ ~gone THEN [fl EXCEPT ![id] = IF o = "delete" THEN (@ % 2) + 2 ELSE @ - (@ % 2) + 1] ELSE fl
              b2 == IF code = "OK" /\ o = "expunge" THEN SelectSeq(box, LAMBDA y : (fl[y] \div 2) % 2 = 0 \/ ~In(y, SView)) ELSE box
              x1 == IF tells /\ o \in {"noop", "expunge"} THEN Gone(Cur, b2) ELSE Cur
              x2 == IF tells THEN New(x1, b2) ELSE x1
              x3 == IF fine /\ o \in {"delete", "seth", "fetch"} THEN FlagUp(x2, id, f2[id]) ELSE x2
              ids == IF o = "delete" THEN (IF SView = <<>> THEN <<>> ELSE <<SView[1]>>) ELSE IF o \in OnHandle THEN <<id>> ELSE <<>>
              ev == [Base(oc, Verb(o), code, 1) EXCEPT !.stall = (d = "s"), !.ids = ids, !.fl = IF o = "delete" THEN 2 ELSE IF o = "seth" THEN 1 ELSE 0,
                       !.mode = IF o \in {"delete", "seth"} THEN "add" ELSE "", !.upd = x3.u,
                       !.data = IF fine /\ o \in {"extract", "fetch"} THEN <<[id |-> id, n |-> Pos(id, x3.b), uid |-> FALSE, fl |-> IF o = "fetch" THEN f2[id] ELSE -1, size |-> -1, body |-> o = "extract", hash |-> "h"]>> ELSE <<>>]
                    @@ [bd |-> o = "extract", peek |-> o = "extract"]
              lost == d \in {"d", "s", "m"}
          IN /\ (d # "g" => bads < MaxBad) /\ bads' = bads + (IF d # "g" THEN 1 ELSE 0) /\ log' = Append(log, d)
             /\ Emit(<<c, ev>> \o (IF lost THEN <<[e |-> "cclose", c |-> oc]>> ELSE x3.e) \o <<Ret(code = "OK" /\ ~lost, up, x3.h, x3.n, <<>>)>>)
             /\ dead' = lost /\ box' = (IF d \in {"g", "s"} THEN b2 ELSE box) /\ fl' = f2 /\ cnt' = x3.n /\ hnd' = x3.h
Finish == /\ nops = MaxOps /\ ~end /\ ok /\ end' = TRUE
          /\ GenScripts => PrintT("SCRIPT " \o ToJson([ops |-> ops, log |-> log]))
          /\ UNCHANGED <<s, ok, nops, ops, log, bads, up, fo, oc, dead, box, fl, nid, cnt, hnd, nc, tag>>
\* every behaviour starts with connecting, obtaining and opening the folder
Next == \/ (nops = 0 /\ Connect) \/ (nops = 1 /\ Folder) \/ (nops = 2 /\ Opening) \/ Finish
        \/ nops >= 3 /\ (Connect \/ Disconnect \/ Folder \/ Opening \/ Drop \/ Deliver \/ Purge \/ Close(TRUE) \/ Close(FALSE) \/ Get(1) \/ Get(2)
                         \/ \E o \in {"noop", "expunge", "delete", "extract", "seth", "fetch"}, h \in 1..2 : Remote(o, h))
Sound == ok
=============================================================================
