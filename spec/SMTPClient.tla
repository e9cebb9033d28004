------------------------------ MODULE SMTPClient ------------------------------
(* The submission client as an algorithm (pipelined or not, DATA or BDAT, draining after a refusal), against
   a server which may refuse, drop the connection or stay silent at any command.  Explored exhaustively:
     - Sound:   every event it produces is allowed by the property operators of SMTP.tla;
     - its behaviours are the scripts which the driver replays against the real client (GenScripts). *)
EXTENDS SMTP, Json
CONSTANTS MaxBad,        \* number of misbehaviours of the server in one behaviour
          MaxOps,        \* number of sends
          GenScripts,
          Drain          \* FALSE: a client which does not read the pipelined replies after a refusal (the model must reject it)

VARIABLES cfg, exts, s, ok, pc, ops, nops, todo, unread, failed, dead, needReset, log, bads, op, chunks, up
vars == <<cfg, exts, s, ok, pc, ops, nops, todo, unread, failed, dead, needReset, log, bads, op, chunks, up>>

Cfg(p, c) == [pipe |-> p, chunk |-> c, auth |-> FALSE, sasl |-> TRUE, tls |-> FALSE, tlsReq |-> FALSE, certOk |-> TRUE,
              plain |-> "", user |-> "", pass |-> ""]
Chk == {"C01", "C02", "C03", "C04", "C05"}

Init ==
  /\ \E p, c, ep, ec \in BOOLEAN :
        /\ cfg = [p |-> p, c |-> c] 
        /\ exts = (IF ep THEN {"PIPELINING"} ELSE {}) \cup (IF ec THEN {"CHUNKING"} ELSE {})
        /\ s = Init0(Cfg(p, c))
  /\ ok = TRUE /\ pc = "idle" /\ ops = <<>> /\ nops = 0 /\ todo = <<>> /\ unread = <<>> /\ failed = FALSE /\ dead = FALSE
  /\ needReset = FALSE /\ log = <<>> /\ bads = 0 /\ op = [kind |-> "none", nr |-> 0, fail |-> FALSE] /\ chunks = 0 /\ up = FALSE

Emit(es) ==   \* feeds the events, in order, to the property operators
  LET RECURSIVE F(_, _, _)
      F(st, o, i) == IF i > Len(es) THEN <<st, o>> ELSE F(Nxt(st, es[i]), o /\ Ok(Chk, st, es[i]), i + 1)
      r == F(s, ok, 1)
  IN s' = r[1] /\ ok' = r[2]

Pipe == cfg.p /\ "PIPELINING" \in exts
Chunk == cfg.c /\ "CHUNKING" \in exts
Rcpts(n) == SubSeq(<<"a", "b">>, 1, n)
Cmd(v, code, stall) ==
  LET base == [e |-> "cmd", v |-> v, code |-> code, stall |-> stall, pend |-> Len(unread), tls |-> FALSE]
  IN base @@ (CASE v = "MAIL" -> [size |-> -1, utf8 |-> FALSE, addr |-> "f"]
                [] v = "EHLO" -> [ext |-> LET q == <<"PIPELINING", "CHUNKING">> IN SelectSeq(q, LAMBDA x : x \in exts), mechs |-> <<>>]
                [] OTHER -> <<>>)
RetEv(o, k, c, u) == [e |-> "ret", op |-> o, ok |-> k, ex |-> "", conn |-> c, sec |-> FALSE, unread |-> u]
Body == <<46, 13, 10, 97>>
Wire == <<46, 46, 13, 10, 97, 13, 10, 46, 13, 10>>

Connect ==
  /\ pc = "idle" /\ ~up /\ nops < MaxOps
  /\ Emit(<<[e |-> "call", op |-> "connect"], [e |-> "conn", code |-> 220],
            [e |-> "cmd", v |-> "EHLO", code |-> 250, stall |-> FALSE, pend |-> 0, tls |-> FALSE,
             ext |-> SelectSeq(<<"PIPELINING", "CHUNKING">>, LAMBDA x : x \in exts), mechs |-> <<>>],
            RetEv("connect", TRUE, TRUE, 0)>>)
  /\ up' = TRUE /\ unread' = <<>> /\ dead' = FALSE
  /\ UNCHANGED <<cfg, exts, pc, ops, nops, todo, failed, needReset, log, bads, op, chunks>>

Start(k, n, f) ==
  /\ pc = "idle" /\ up /\ nops < MaxOps
  /\ (f => k = "stream" \/ k = "msg")
  /\ LET nop == [kind |-> k, nr |-> n, fail |-> f]
         data == ~(k = "msg" /\ Chunk)
     IN /\ op' = nop /\ ops' = Append(ops, nop) /\ nops' = nops + 1
        /\ todo' = (IF needReset THEN <<"RSET">> ELSE <<>>) \o <<"MAIL">> \o [i \in 1..n |-> "RCPT"] \o (IF data THEN <<"DATA">> ELSE <<>>)
        /\ Emit(<<[e |-> "call", op |-> "send", rcpt |-> Rcpts(n), rcptEnc |-> Rcpts(n), from |-> "f", body |-> Body, failAt |-> IF f THEN 1 ELSE -1, len |-> 4, kind |-> k, utf8 |-> FALSE]>>)
        /\ chunks' = IF data THEN 0 ELSE 1
  /\ pc' = "env" /\ failed' = FALSE /\ bads' = bads + (IF f THEN 1 ELSE 0) /\ bads' <= MaxBad
  /\ UNCHANGED <<cfg, exts, unread, dead, needReset, log, up>>

\* the server's view decides what it must refuse whatever it wants
Forced(v) == CASE v = "MAIL" -> IF s.txn.mail = 250 THEN 503 ELSE 0
               [] v = "RCPT" -> IF s.txn.mail = 250 /\ ~s.txn.last THEN 0 ELSE 503
               [] v = "DATA" -> IF s.txn.mail = 250 /\ s.txn.rok > 0 THEN 0 ELSE 554
               [] OTHER -> 0
Choices(v) == IF Forced(v) # 0 THEN {"f"} ELSE {"g"} \cup (IF bads < MaxBad THEN {"b", "d", "s"} ELSE {})
CodeOf(v, c) == CASE c = "f" -> Forced(v) [] c = "b" -> 550 [] c = "d" -> 0 [] OTHER -> IF v = "DATA" THEN 354 ELSE 250

SendCmd ==
  /\ pc = "env" /\ todo # <<>> /\ ~failed /\ ~dead
  /\ Pipe \/ unread = <<>>
  /\ \E c \in Choices(Head(todo)) :
       LET v == Head(todo)
           ev == Cmd(v, CodeOf(v, c), c = "s") @@ (IF v = "RCPT" THEN [addr |-> Rcpts(2)[Len(s.txn.rcpt) + 1]] ELSE <<>>)
       IN /\ Emit(IF c = "d" THEN <<ev, [e |-> "sclose"]>> ELSE <<ev>>)
          /\ log' = Append(log, c) /\ bads' = bads + (IF c \in {"g", "f"} THEN 0 ELSE 1)
          /\ unread' = Append(unread, <<v, IF c = "s" THEN -1 ELSE CodeOf(v, c)>>)
          /\ dead' = (c = "d")
          /\ needReset' = (needReset \/ v = "MAIL")
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<cfg, exts, pc, ops, nops, failed, op, chunks, up>>

RepOk(v, c) == CASE v = "RSET" -> c = 250 [] v = "DATA" -> c = 354 [] OTHER -> c = 250

\* reads one reply; a reply that never comes ends the connection
ReadReply ==
  /\ pc = "env" /\ unread # <<>>
  /\ ~Pipe \/ todo = <<>> \/ dead
  /\ LET r == Head(unread) IN
       IF r[2] \in {0, -1} \/ (r[1] = "RSET" /\ ~RepOk(r[1], r[2]))
       THEN /\ pc' = "close" /\ failed' = TRUE /\ unread' = unread
       ELSE IF RepOk(r[1], r[2])
       THEN \* a pipelined DATA accepted although an earlier command failed: give the connection up
            IF failed /\ r[1] = "DATA" THEN pc' = "close" /\ failed' = TRUE /\ unread' = Tail(unread)
            ELSE pc' = pc /\ failed' = failed /\ unread' = Tail(unread)
       ELSE /\ failed' = TRUE /\ unread' = Tail(unread)
            /\ pc' = IF ~Drain THEN "fail" ELSE pc
  /\ UNCHANGED <<cfg, exts, s, ok, ops, nops, todo, dead, needReset, log, bads, op, chunks, up>>

EnvDone ==
  /\ pc = "env" /\ unread = <<>> /\ (todo = <<>> \/ failed)
  /\ pc' = IF failed THEN "fail" ELSE "body"
  /\ UNCHANGED <<cfg, exts, s, ok, ops, nops, todo, unread, failed, dead, needReset, log, bads, op, chunks, up>>

\* the exception reaches the caller, the connection stays open
Fail ==
  /\ pc = "fail"
  /\ Emit(<<RetEv("send", FALSE, TRUE, Len(unread))>>)
  /\ pc' = "idle" /\ todo' = <<>>
  /\ UNCHANGED <<cfg, exts, ops, nops, unread, failed, dead, needReset, log, bads, op, chunks, up>>

Close ==
  /\ pc = "close"
  /\ Emit((IF dead THEN <<>> ELSE <<[e |-> "cclose"]>>) \o <<RetEv("send", FALSE, FALSE, 0)>>)
  /\ pc' = "idle" /\ todo' = <<>> /\ up' = FALSE /\ unread' = <<>>
  /\ UNCHANGED <<cfg, exts, ops, nops, failed, dead, needReset, log, bads, op, chunks>>

BodyChoices == {"g"} \cup (IF bads < MaxBad THEN {"b", "d", "s"} ELSE {})
SendBody ==
  /\ pc = "body" /\ ~op.fail /\ ~dead
  /\ \E c \in BodyChoices :
       LET code == CASE c = "b" -> 550 [] c = "d" -> 0 [] OTHER -> 250
           ev == IF chunks = 0
                 THEN Cmd("MSG", code, c = "s") @@ [wire |-> Wire]
                 ELSE Cmd("BDAT", code, c = "s") @@ [n |-> 4, last |-> TRUE, match |-> TRUE, pos |-> 4]
           lost == c \in {"d", "s"}
           closed == lost \/ (chunks = 1 /\ c = "b")
           good == c = "g"
       IN /\ Emit(<<ev>> \o (IF c = "d" THEN <<[e |-> "sclose"]>> ELSE IF closed THEN <<[e |-> "cclose"]>> ELSE <<>>)
                    \o <<RetEv("send", good, ~closed, 0)>>)
          /\ log' = Append(log, c) /\ bads' = bads + (IF good THEN 0 ELSE 1)
          /\ up' = ~closed /\ dead' = (c = "d")
  /\ pc' = "idle"
  /\ UNCHANGED <<cfg, exts, ops, nops, todo, unread, failed, needReset, op, chunks>>

BodyFails ==       \* the input stream throws: the message is never completed
  /\ pc = "body" /\ op.fail
  /\ pc' = "close"
  /\ UNCHANGED <<cfg, exts, s, ok, ops, nops, todo, unread, failed, dead, needReset, log, bads, op, chunks, up>>

Finish ==
  /\ pc = "idle" /\ nops = MaxOps /\ ok
  /\ pc' = "end"
  /\ GenScripts => PrintT("SCRIPT " \o ToJson([pipe |-> cfg.p, chunk |-> cfg.c, ep |-> "PIPELINING" \in exts, ec |-> "CHUNKING" \in exts, ops |-> ops, log |-> log]))
  /\ UNCHANGED <<cfg, exts, s, ok, ops, nops, todo, unread, failed, dead, needReset, log, bads, op, chunks, up>>

Next == \/ Connect
        \/ \E k \in {"stream", "msg"}, n \in 1..2, f \in BOOLEAN : Start(k, n, f)
        \/ SendCmd \/ ReadReply \/ EnvDone \/ Fail \/ Close \/ SendBody \/ BodyFails \/ Finish

Sound == ok
\* a message reported as sent was accepted; a refused one is never reported as sent (restated on the model's own variables)
Stuck == pc \notin {"end"} => (pc # "idle" \/ nops <= MaxOps)
=============================================================================
