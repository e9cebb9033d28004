-------------------------------- MODULE POP3 --------------------------------
(* A POP3 session of the library: the maildrop on the server, the folder objects and message handles the
   application holds, and every command the server received.

   State `s`; `Nxt(s, e)` is the effect of event e, `Ok(Chk, s, e)` what the properties in Chk allow.  Events:
     call/ret  an API call and its outcome          conn     TCP connection + greeting
     cmd       a command as the server processed it: v, argument n, the reply it gave (code "+", "-", " "
               or "0" none), `stall` (reply withheld), `pend` (bytes of earlier replies not read yet)
     tls, inject, sclose, cclose, box (the maildrop at the end)
   Slots 1..2 are the folder objects; handle h is the h-th message object obtained. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in 1..Len(q)}
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Supported == {"PLAIN", "LOGIN", "CRAM-MD5"}

NoSlot == [obj |-> FALSE, att |-> FALSE, open |-> FALSE, cnt |-> 0, gen |-> 0]
NoCall == [op |-> "none"]

\* box: the messages (indices into cfg.msgs) of the maildrop; in a session, message number n is box[n]
Init0(cfg) ==
  [cfg |-> cfg, conn |-> "none", greet |-> FALSE, bid |-> FALSE, tls |-> FALSE, tlsBad |-> FALSE, stls |-> 0,
   mechs |-> <<>>, capa |-> FALSE, tried |-> <<>>, authing |-> FALSE, apop |-> 0, user |-> 0, pass |-> 0, authed |-> FALSE,
   box |-> [i \in 1..Len(cfg.msgs) |-> i], dele |-> {}, resets |-> 0,
   slots |-> [i \in 1..2 |-> NoSlot], hs |-> <<>>,
   call |-> NoCall, cmds |-> <<>>, ncmds |-> 0, lost |-> FALSE, bad |-> FALSE, apiConn |-> FALSE, store |-> TRUE, quit |-> FALSE]

-----------------------------------------------------------------------------
(* RFC 1939 multi-line response: a line starting with "." had one "." added.  `bare`: a bare LF ends a line. *)
CR == 13
LF == 10
DOT == 46
RECURSIVE UnstuffR(_, _, _, _, _)
UnstuffR(w, i, bol, acc, bare) ==
  IF i > Len(w) THEN acc
  ELSE IF bol /\ w[i] = DOT THEN UnstuffR(w, i + 1, FALSE, acc, bare)
  ELSE UnstuffR(w, i + 1, w[i] = LF /\ (bare \/ (i > 1 /\ w[i-1] = CR)), Append(acc, w[i]), bare)
Unstuff(w, bare) == UnstuffR(w, 1, TRUE, <<>>, bare)
CutEol(r) == IF Len(r) >= 2 /\ r[Len(r)] = LF /\ r[Len(r)-1] = CR THEN SubSeq(r, 1, Len(r) - 2)
             ELSE IF Len(r) >= 1 /\ r[Len(r)] = LF THEN SubSeq(r, 1, Len(r) - 1) ELSE r
Delivered(w, d) == \E bare \in BOOLEAN : LET r == Unstuff(w, bare) IN d = r \/ d = CutEol(r)

-----------------------------------------------------------------------------
Usable(s) == {m \in Range(s.mechs) : m \in Supported}
Trans(s) == s.conn = "up" /\ s.authed /\ ~s.quit
Msg(s, n) == s.cfg.msgs[s.box[n]]
Valid(s, n) == n \in 1..Len(s.box) /\ n \notin s.dele
Slot(s, f) == s.slots[f]
Usable1(s, f) == s.store /\ Slot(s, f).obj /\ Slot(s, f).att         \* the folder object still has its store
Open(s, f) == Usable1(s, f) /\ Slot(s, f).open
Live(s, h) == /\ h \in 1..Len(s.hs) /\ LET m == s.hs[h] IN Open(s, m.f) /\ Slot(s, m.f).gen = m.gen
HOf(s, h) == s.hs[h]
Done(s, v) == Cardinality({i \in 1..Len(s.cmds) : s.cmds[i].v = v})
LastOf(s, v) == LET I == {i \in 1..Len(s.cmds) : s.cmds[i].v = v} IN s.cmds[CHOOSE i \in I : \A j \in I : j <= i]

\* the numbers a delete call denotes
DelNums(s) == IF s.call.nums = <<-1>> THEN 1..Slot(s, s.call.f).cnt ELSE Range(s.call.nums)

\* --- which commands an API call may send, in the state of the folder objects (C07) ---
SaslDone(s) == s.cfg.sasl => s.capa /\ Usable(s) \subseteq Range(s.tried) /\ s.cfg.saslFb
CmdOk(s, e) ==
  LET c == s.call IN
  /\ s.conn = "up" /\ ~s.quit
  /\ e.v # "QUIT" => e.pend = 0                       \* one command at a time, every reply read
  /\ e.v # "QUIT" => s.greet
  /\ CASE e.v \in {"CAPA", "STLS", "AUTH", "AUTHRESP", "AUTHCANCEL", "APOP", "USER", "PASS"} -> c.op = "connect" /\ ~s.authed
       [] e.v = "QUIT" -> c.op \in {"connect", "disconnect", "destroy"} /\ (c.op = "connect" => ~s.authed)
       [] e.v = "NOOP" -> (c.op = "noop" /\ s.ncmds = 0) \/ (c.op = "connect" /\ ~s.authed)
       [] ~s.authed \/ ~s.apiConn -> FALSE
       [] e.v = "STAT" -> \/ c.op = "open" /\ Usable1(s, c.f) /\ s.ncmds = 0
                          \/ c.op = "status" /\ Usable1(s, c.f) /\ s.ncmds = 0
       [] e.v = "RSET" -> \/ c.op = "close" /\ ~c.x /\ Open(s, c.f) /\ s.ncmds = 0
                          \/ c.op \in {"drop", "folder"} /\ Open(s, c.f) /\ s.ncmds = 0
       [] e.v = "RETR" -> c.op = "extract" /\ ~c.partial /\ Live(s, c.h) /\ e.n = HOf(s, c.h).num /\ s.ncmds = 0
       [] e.v = "TOP"  -> /\ c.op = "fetch" /\ c.hdr /\ Open(s, c.f)
                          /\ \E k \in 1..Len(c.hs) : LET h == c.hs[k] IN
                                /\ Live(s, h) /\ HOf(s, h).f = c.f /\ HOf(s, h).num = e.n
                                /\ k = s.ncmds + 1                       \* in order, once each
       [] e.v \in {"LIST", "UIDL"} ->
            /\ c.op = "fetch" /\ Open(s, c.f) /\ (IF e.v = "LIST" THEN c.sz ELSE c.uid)
            /\ \A k \in 1..Len(c.hs) : Live(s, c.hs[k]) /\ HOf(s, c.hs[k]).f = c.f
            /\ Done(s, e.v) = 0
            /\ e.n = 0 \/ (Len(c.hs) = 1 /\ e.n = HOf(s, c.hs[1]).num)
       [] e.v = "DELE" -> /\ c.op = "delete" /\ Open(s, c.f) /\ e.n \in DelNums(s)
                          /\ \A i \in 1..Len(s.cmds) : s.cmds[i].n # e.n /\ s.cmds[i].code = "+"
       [] OTHER -> FALSE

\* --- what an API call returned, against the replies its own commands received ---
Good(s) == ~s.bad                                     \* every command of the call was answered positively
ConnLive(s) == s.apiConn
Reason(s) == s.bad \/ s.lost \/ ~s.apiConn

WantIds(s, hs) == [k \in 1..Len(hs) |-> Msg(s, HOf(s, hs[k]).num)]
FetchVals(s, e) ==
  LET c == s.call  W == WantIds(s, c.hs)
      Answered(v) == Done(s, v) = 1 /\ LastOf(s, v).code = "+"
      NumLive(k) == HOf(s, c.hs[k]).num \notin s.dele
  IN /\ Len(e.size) = Len(c.hs) /\ Len(e.uid) = Len(c.hs) /\ Len(e.subj) = Len(c.hs)
     /\ \A k \in 1..Len(c.hs) :
          /\ c.sz  => (e.size[k] = W[k].size \/ (e.size[k] = "?" /\ ~(Answered("LIST") /\ NumLive(k))))
          /\ c.uid => (e.uid[k] = W[k].uid \/ (e.uid[k] = "?" /\ ~(Answered("UIDL") /\ NumLive(k))))
          /\ c.hdr => e.subj[k] = W[k].subj

RetOk(s, e) ==
  LET c == s.call IN
  /\ (e.conn /\ s.conn = "up") => e.unread = 0          \* no reply, nor part of one, is left behind
  /\ e.conn => (s.conn = "up" /\ s.authed /\ s.store)
  /\ CASE c.op = "connect" -> (e.ok => (~s.apiConn /\ s.authed /\ e.conn)) /\ (~e.ok => (~e.conn \/ s.apiConn))
       [] c.op = "disconnect" -> (e.ok <=> s.apiConn) /\ ~e.conn
       [] c.op = "destroy" -> e.ok /\ ~e.conn
       [] c.op = "noop" -> IF e.ok THEN s.apiConn /\ Done(s, "NOOP") = 1 /\ Good(s) ELSE Reason(s)
       [] c.op = "folder" -> e.ok <=> s.apiConn
       [] c.op = "drop" -> e.ok
       [] c.op = "open" -> IF e.ok THEN s.apiConn /\ Done(s, "STAT") = 1 /\ Good(s) ELSE ~Usable1(s, c.f) \/ Reason(s)
       [] c.op = "close" -> IF e.ok THEN Open(s, c.f) /\ (c.x \/ (Done(s, "RSET") = 1 /\ Good(s)))
                                    ELSE ~Open(s, c.f) \/ (~c.x /\ Reason(s))
       [] c.op = "count" -> IF e.ok THEN Open(s, c.f) /\ e.n = Slot(s, c.f).cnt ELSE ~Open(s, c.f) \/ ~s.apiConn
       [] c.op = "status" -> IF e.ok THEN Usable1(s, c.f) /\ Done(s, "STAT") = 1 /\ Good(s) /\ e.n = LastOf(s, "STAT").n
                                     ELSE ~Usable1(s, c.f) \/ Reason(s)
       [] c.op = "get" -> IF e.ok THEN Open(s, c.f) /\ c.n \in 1..Slot(s, c.f).cnt /\ e.num = c.n
                                  ELSE ~Open(s, c.f) \/ ~s.apiConn \/ c.n \notin 1..Slot(s, c.f).cnt
       [] c.op = "getrange" ->
            LET hi == IF c.b = -1 THEN Slot(s, c.f).cnt ELSE c.b
                want == IF hi < c.a THEN <<>> ELSE [i \in 1..(hi - c.a + 1) |-> c.a + i - 1]
            IN IF e.ok THEN Open(s, c.f) /\ hi <= Slot(s, c.f).cnt /\ e.nums = want
                       ELSE ~Open(s, c.f) \/ ~s.apiConn \/ hi > Slot(s, c.f).cnt \/ c.a > hi
       [] c.op = "fetch" -> IF e.ok
                            THEN /\ Open(s, c.f) /\ s.apiConn
                                 /\ \A k \in 1..Len(c.hs) : Live(s, c.hs[k]) /\ HOf(s, c.hs[k]).f = c.f
                                 /\ c.sz => Done(s, "LIST") = 1
                                 /\ c.uid => Done(s, "UIDL") = 1
                                 /\ Done(s, "TOP") = (IF c.hdr THEN Len(c.hs) ELSE 0)
                                 /\ \A i \in 1..Len(s.cmds) : s.cmds[i].code = "+" \/ (s.cmds[i].v # "TOP" /\ s.cmds[i].code = "-")
                                 /\ FetchVals(s, e)
                            ELSE Reason(s) \/ ~(\A k \in 1..Len(c.hs) : Live(s, c.hs[k]) /\ HOf(s, c.hs[k]).f = c.f) \/ ~Open(s, c.f)
       [] c.op = "extract" -> IF e.ok
                              THEN /\ ~c.partial /\ ~c.sf /\ Live(s, c.h) /\ Done(s, "RETR") = 1 /\ Good(s)
                                   /\ In(e.hash, Msg(s, HOf(s, c.h).num).hash)
                                   /\ LET w == LastOf(s, "RETR").wire IN w # <<>> => Delivered(w, e.data)
                              ELSE c.partial \/ c.sf \/ ~Live(s, c.h) \/ Reason(s)
       [] c.op = "delete" -> IF e.ok THEN Open(s, c.f) /\ s.apiConn /\ Good(s) /\ Len(s.cmds) = Cardinality(DelNums(s)) /\ DelNums(s) # {}
                                     ELSE ~Open(s, c.f) \/ Reason(s) \/ DelNums(s) = {}
       [] c.op = "flags" -> IF e.ok THEN LET m == HOf(s, c.h) IN (e.del => m.ever) /\ ((m.del /\ m.resets = s.resets) => e.del) ELSE FALSE
       [] OTHER -> TRUE

Fatal == {"crash", "hang", "escaped"}

\* --- replies are read for what they are (C06) ---
FrameOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> e.v # "QUIT" => e.pend = 0
    [] e.e = "ret" -> RetOk(s, e)
    [] OTHER -> TRUE
\* --- the folder view and the maildrop (C07) ---
ViewOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> CmdOk(s, e)
    [] e.e = "conn" -> s.call.op = "connect" /\ ~s.apiConn
    [] e.e = "ret" -> RetOk(s, e) /\ ((s.call.op \in {"disconnect", "destroy"} /\ s.apiConn) => s.quit)
    [] e.e = "box" -> e.ids = s.box
    [] OTHER -> TRUE
\* --- STLS (C04) ---
NeedTls(s) == s.cfg.tls /\ s.cfg.tlsReq
TlsOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> /\ e.tls = s.tls
                      /\ (NeedTls(s) /\ ~s.tls) => e.v \in {"STLS", "QUIT", "CAPA"}
                      /\ s.tlsBad => e.v = "QUIT"
                      /\ e.v = "STLS" => s.cfg.tls /\ ~s.tls /\ s.stls = 0 /\ ~s.authed
                      /\ e.v = "AUTH" => In(e.mech, s.mechs)
                      /\ e.v # "QUIT" => e.pend = 0
                      /\ (s.cfg.tls /\ e.v \notin {"STLS", "CAPA", "QUIT"}) => s.stls = 1   \* the upgrade is asked first
    [] e.e = "ret" /\ s.call.op = "connect" -> /\ (e.ok => (e.sec = s.tls /\ (NeedTls(s) => s.tls) /\ ~s.tlsBad /\ e.unread = 0))
                                               /\ (~e.ok => (~e.conn \/ s.apiConn))
    [] OTHER -> TRUE
\* --- authentication policy (C05) ---
SubSeqOf(a, b) ==
  LET RECURSIVE F(_, _)
      F(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                 ELSE IF a[i] = b[j] THEN F(i + 1, j + 1) ELSE F(i, j + 1)
  IN F(1, 1)
ApopDone(s) == s.cfg.apop => (s.cfg.apopFb /\ (s.bid => s.apop = 1))
AuthOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" /\ e.v = "AUTH" ->
         /\ s.cfg.sasl /\ s.capa /\ ~s.authed
         /\ e.mech \in Usable(s) /\ ~In(e.mech, s.tried) /\ e.args <= 2 /\ e.wf
         /\ Len(s.tried) >= 1 => SubSeqOf(Append(Tail(s.tried), e.mech), s.mechs)
         /\ s.apop = 0 /\ s.user = 0
    [] e.e = "cmd" /\ e.v = "AUTHRESP" ->
         /\ s.authing /\ e.wf
         /\ e.mech = "PLAIN" => e.text = s.cfg.plain
         /\ e.mech = "LOGIN" => e.text = (CASE e.k = 0 -> s.cfg.user [] e.k = 1 -> s.cfg.pass [] OTHER -> "")
    [] e.e = "cmd" /\ e.v = "APOP" -> s.cfg.apop /\ s.bid /\ s.apop = 0 /\ e.dig /\ SaslDone(s) /\ s.user = 0 /\ ~s.authed
    [] e.e = "cmd" /\ e.v = "USER" -> SaslDone(s) /\ ApopDone(s) /\ s.user = 0 /\ e.arg = s.cfg.user /\ ~s.authed
    [] e.e = "cmd" /\ e.v = "PASS" -> s.user = 1 /\ s.pass = 0 /\ e.arg = s.cfg.pass /\ SaslDone(s) /\ ApopDone(s) /\ ~s.authed
    [] e.e = "cmd" /\ e.v \notin {"CAPA", "STLS", "AUTHCANCEL", "NOOP", "QUIT"} -> s.authed
    [] e.e = "ret" /\ s.call.op = "connect" ->
         /\ e.ok => e.conn /\ s.authed
         /\ ~e.ok => (~e.conn \/ s.apiConn)
         /\ (~e.ok /\ ~s.apiConn /\ s.greet /\ ~s.lost /\ ~s.tlsBad /\ s.conn = "up" /\ ~s.quit) => ~s.authed
         /\ (~e.ok /\ ~s.apiConn /\ s.greet /\ ~s.lost /\ ~s.tlsBad /\ ~(NeedTls(s) /\ ~s.tls)) =>
              \* nothing permitted was left untried
              /\ s.cfg.sasl => s.capa /\ Usable(s) \subseteq Range(s.tried)
              /\ (s.cfg.sasl => s.cfg.saslFb) =>
                   /\ (s.cfg.apop /\ s.bid) => s.apop = 1
                   /\ (s.cfg.apop => s.cfg.apopFb) => s.user > 0
    [] OTHER -> TRUE

\* --- closed folders, disconnected stores and stale messages (C27) ---
NeedsOpen == {"close", "count", "get", "getrange", "fetch", "delete"}
MayWork(s, c) ==
  CASE c.op \in NeedsOpen -> Open(s, c.f) /\ (c.op = "fetch" => \A k \in 1..Len(c.hs) : Live(s, c.hs[k]) /\ HOf(s, c.hs[k]).f = c.f)
    [] c.op \in {"status", "open"} -> Usable1(s, c.f)
    [] c.op = "extract" -> Live(s, c.h)
    [] c.op \in {"noop", "folder"} -> s.apiConn
    [] c.op = "connect" -> ~s.apiConn
    [] OTHER -> TRUE
LifeOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> (IF s.call.op = "fetch" THEN Open(s, s.call.f) ELSE MayWork(s, s.call)) /\ s.call.op # "none" /\ s.conn = "up" /\ ~s.quit
    [] e.e = "conn" -> s.call.op = "connect" /\ ~s.apiConn
    [] e.e = "ret" -> /\ ~MayWork(s, s.call) => ~e.ok
                      /\ s.call.op \in {"disconnect", "destroy"} => ~e.conn
                      /\ (s.call.op \in {"disconnect", "destroy"} /\ s.apiConn) => s.quit
                      /\ e.conn => (s.conn = "up" /\ s.store)
    [] OTHER -> TRUE

Ok(Chk, s, e) ==
  /\ "C27" \in Chk => LifeOk(s, e)
  /\ "C06" \in Chk => FrameOk(s, e)
  /\ "C07" \in Chk => ViewOk(s, e)
  /\ "C04" \in Chk => TlsOk(s, e)
  /\ "C05" \in Chk => AuthOk(s, e)

-----------------------------------------------------------------------------
CmdNxt(s0, e) ==
  LET s == [s0 EXCEPT !.cmds = IF s0.call.op = "connect" THEN @ ELSE Append(@, e), !.ncmds = @ + 1,
                      !.lost = @ \/ e.code = "0" \/ e.stall, !.bad = @ \/ e.code \in {"0", "-"}]
      ok == e.code = "+"
  IN CASE e.v = "CAPA" -> [s EXCEPT !.capa = TRUE, !.mechs = IF ok THEN e.mechs ELSE <<>>]
       [] e.v = "STLS" -> [s EXCEPT !.stls = 1, !.tlsBad = ok]
       [] e.v = "AUTH" -> [s EXCEPT !.tried = Append(@, e.mech), !.authing = (e.code = " "), !.authed = ok]
       [] e.v = "AUTHRESP" -> [s EXCEPT !.authing = (e.code = " "), !.authed = ok]
       [] e.v = "AUTHCANCEL" -> [s EXCEPT !.authing = FALSE]
       [] e.v = "APOP" -> [s EXCEPT !.apop = 1, !.authed = ok]
       [] e.v = "USER" -> [s EXCEPT !.user = IF ok THEN 1 ELSE 2]
       [] e.v = "PASS" -> [s EXCEPT !.pass = 1, !.authed = ok]
       [] e.v = "DELE" -> IF ok THEN [s EXCEPT !.dele = @ \cup {e.n}] ELSE s
       [] e.v = "RSET" -> IF ok THEN [s EXCEPT !.dele = {}, !.resets = @ + 1] ELSE s
       [] e.v = "QUIT" -> [s EXCEPT !.quit = TRUE, !.dele = {},
                             !.box = IF s.authed THEN SelectSeq(@, LAMBDA m : \A n \in s.dele : s.box[n] # m) ELSE @]
       [] OTHER -> s

Gone(s) == [s EXCEPT !.conn = "dead", !.dele = {}]      \* the connection ended: what was not committed is undone
Detach(s) == [s EXCEPT !.slots = [f \in 1..2 |-> [@[f] EXCEPT !.att = FALSE]]]

RetNxt(s, e) ==
  LET c == s.call  t == [s EXCEPT !.call = NoCall, !.cmds = <<>>, !.ncmds = 0, !.apiConn = e.conn] IN
  CASE c.op = "connect" -> IF s.apiConn THEN t ELSE Detach(t)
    [] c.op = "disconnect" -> IF s.apiConn THEN Detach(t) ELSE t
    [] c.op = "destroy" -> [Detach(t) EXCEPT !.store = FALSE]
    [] c.op = "folder" -> IF e.ok THEN [t EXCEPT !.slots[c.f] = [obj |-> TRUE, att |-> TRUE, open |-> FALSE, cnt |-> 0, gen |-> @.gen + 1]] ELSE t
    [] c.op = "drop" -> [t EXCEPT !.slots[c.f] = [NoSlot EXCEPT !.gen = s.slots[c.f].gen + 1]]
    [] c.op = "open" -> IF e.ok THEN [t EXCEPT !.slots[c.f].open = TRUE, !.slots[c.f].cnt = LastOf(s, "STAT").n] ELSE t
    [] c.op = "close" -> IF e.ok THEN [t EXCEPT !.slots[c.f].open = FALSE, !.slots[c.f].gen = @ + 1] ELSE t
    [] c.op = "status" -> IF e.ok
         THEN [t EXCEPT !.slots = [f \in 1..2 |-> IF f = c.f \/ (e.n > s.slots[c.f].cnt /\ s.slots[f].obj /\ s.slots[f].att)
                                                  THEN [@[f] EXCEPT !.cnt = e.n] ELSE @[f]]]
         ELSE t
    [] c.op = "get" -> IF e.ok THEN [t EXCEPT !.hs = Append(@, [f |-> c.f, gen |-> s.slots[c.f].gen, num |-> e.num, del |-> FALSE, ever |-> FALSE, resets |-> 0])] ELSE t
    [] c.op = "getrange" -> IF e.ok THEN [t EXCEPT !.hs = @ \o [i \in 1..Len(e.nums) |-> [f |-> c.f, gen |-> s.slots[c.f].gen, num |-> e.nums[i], del |-> FALSE, ever |-> FALSE, resets |-> 0]]] ELSE t
    [] c.op = "delete" ->
         LET acc == {s.cmds[i].n : i \in {j \in 1..Len(s.cmds) : s.cmds[j].code = "+"}} IN
         [t EXCEPT !.hs = [h \in 1..Len(s.hs) |->
             IF Live(s, h) /\ s.hs[h].f = c.f /\ s.hs[h].num \in acc
             THEN [s.hs[h] EXCEPT !.ever = TRUE, !.del = ~s.lost, !.resets = s.resets] ELSE s.hs[h]]]
    [] OTHER -> t

Nxt(s, e) ==
  CASE e.e = "call" -> [s EXCEPT !.call = e, !.cmds = <<>>, !.ncmds = 0, !.lost = FALSE, !.bad = FALSE]
    [] e.e = "ret" -> RetNxt(s, e)
    [] e.e = "conn" -> [s EXCEPT !.conn = "up", !.greet = e.ok, !.bid = e.bid, !.tls = FALSE, !.tlsBad = FALSE, !.stls = 0, !.mechs = <<>>, !.capa = FALSE,
                                 !.tried = <<>>, !.authing = FALSE, !.apop = 0, !.user = 0, !.pass = 0, !.authed = FALSE, !.dele = {}, !.quit = FALSE,
                                 !.bad = @ \/ ~e.ok]
    [] e.e = "cmd" -> CmdNxt(s, e)
    [] e.e = "tls" -> IF e.ok THEN [s EXCEPT !.tls = TRUE, !.tlsBad = ~s.cfg.certOk, !.mechs = <<>>, !.capa = FALSE] ELSE [s EXCEPT !.tlsBad = TRUE]
    [] e.e = "sclose" -> [Gone(s) EXCEPT !.lost = TRUE]
    [] e.e = "cclose" -> Gone(s)
    [] OTHER -> s
=============================================================================
