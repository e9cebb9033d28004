-------------------------------- MODULE SMTP --------------------------------
(* The SMTP submission session of the library, seen at the wire and at the API.

   State `s` is one record; `Nxt(s, e)` is the effect of event e on it and `Ok(Chk, s, e)` says whether
   the properties in the set Chk allow e in state s.  Events:
     call/ret   an API call and its outcome             conn    TCP connection + greeting code
     cmd        one command (or message transfer) as the server processed it, with the reply code it
                gave (0: none), `stall` (the reply was withheld) and `pend` (the bytes of earlier replies
                the client had not read when it sent the command)
     tls        end of a TLS handshake                  inject  plain text sent ahead of the handshake
     sclose / cclose   the server / the client closes the connection
   The same two operators are driven by SMTPClient.tla (an explicit model of the client algorithm and a
   non-deterministic server, explored exhaustively) and by SMTPTrace.tla (recorded executions). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in 1..Len(q)}
In(x, q) == \E i \in 1..Len(q) : q[i] = x

Supported == {"PLAIN", "LOGIN", "CRAM-MD5"}   \* mechanisms the client offers (of those the server may list)

NoTxn == [mail |-> 0, from |-> "", rcpt |-> <<>>, rok |-> 0, data |-> 0, msg |-> 0, bd |-> <<>>, bpos |-> 0, last |-> FALSE]

Init0(cfg) ==
  [cfg |-> cfg, conn |-> "none", greet |-> 0, tls |-> FALSE, helo |-> FALSE, esmtp |-> FALSE, ehloRefused |-> FALSE,
   ext |-> {}, mechs |-> <<>>, authed |-> FALSE, tried |-> <<>>, authing |-> FALSE, authStep |-> 0,
   startTls |-> FALSE, tlsBad |-> FALSE, dirty |-> "no", txn |-> NoTxn, mails |-> 0,
   call |-> "none", req |-> [rcpt |-> <<>>, rcptEnc |-> <<>>, from |-> "", body |-> <<>>, failAt |-> -1, len |-> 0, kind |-> "none", utf8 |-> FALSE],
   lost |-> FALSE, wasConn |-> FALSE, bad |-> FALSE, dataBad |-> FALSE, quit |-> FALSE, apiConn |-> FALSE]

-----------------------------------------------------------------------------
(* What an RFC 5321 server makes of the bytes of a DATA transfer: lines end with CRLF; a leading "." is
   removed; the transfer ends with a line that is exactly ".". *)
CR == 13
LF == 10
DOT == 46
RECURSIVE UnstuffR(_, _, _, _, _)
UnstuffR(w, i, bol, acc, bare) ==
  IF i > Len(w) THEN acc
  ELSE IF bol /\ w[i] = DOT
       THEN IF i + 2 = Len(w) /\ w[i+1] = CR /\ w[i+2] = LF
            THEN acc                                        \* end of data
            ELSE UnstuffR(w, i + 1, FALSE, acc, bare)
       ELSE UnstuffR(w, i + 1, w[i] = LF /\ (bare \/ (i > 1 /\ w[i-1] = CR)), Append(acc, w[i]), bare)
\* `bare`: a server which also takes a bare LF as the end of a line.  RFC 5321 forbids bare LFs in the content,
\* so the reading of a content which has some is the server's choice: one of the two must restore it.
Unstuff(w, bare) == UnstuffR(w, 1, TRUE, <<>>, bare)

SameContent(w, body) ==
  \E bare \in BOOLEAN : LET r == Unstuff(w, bare) IN r = body \/ r = body \o <<CR, LF>>

-----------------------------------------------------------------------------
Good(c) == c = 250
RcptGood(c) == c \in {250, 251}
RsetGood(c) == c \in {250, 200}

Pipelining(s) == "PIPELINING" \in s.ext /\ s.cfg.pipe
CanPipe(v) == v \in {"RSET", "MAIL", "RCPT", "DATA", "BDAT", "QUIT"}

\* --- legality of a command in the session state (C03) ---
Legal(s, e) ==
  LET known == e.pend = 0 IN      \* the client has seen every earlier reply
  /\ s.conn = "up" /\ ~s.quit
  /\ s.greet = 220 \/ e.v = "QUIT"
  /\ (e.pend > 0 /\ e.v # "QUIT") => (Pipelining(s) /\ CanPipe(e.v))
  /\ CASE e.v = "EHLO" -> s.txn = NoTxn /\ ~s.authed
       [] e.v = "HELO" -> s.ehloRefused /\ s.txn = NoTxn
       [] e.v = "STARTTLS" -> s.helo /\ ~s.tls /\ ~s.authed /\ s.txn = NoTxn /\ s.mails = 0 /\ s.cfg.tls /\ ~s.startTls
       [] e.v = "AUTH" -> s.esmtp /\ ~s.authed /\ "AUTH" \in s.ext /\ In(e.mech, s.mechs) /\ s.txn = NoTxn /\ s.mails = 0 /\ s.cfg.auth
       [] e.v \in {"AUTHRESP", "AUTHCANCEL"} -> s.authing
       [] e.v \in {"RSET", "NOOP"} -> s.helo
       [] e.v = "MAIL" -> /\ s.helo /\ s.dirty # "yes" /\ (known => s.dirty # "rset")
                          /\ (s.cfg.auth => s.authed)
                          /\ (e.size >= 0 => "SIZE" \in s.ext)
                          /\ (e.utf8 => "SMTPUTF8" \in s.ext)
       [] e.v = "RCPT" -> s.txn.mail # 0 /\ (known => Good(s.txn.mail)) /\ s.txn.data = 0 /\ s.txn.bd = <<>>
       [] e.v = "DATA" -> s.txn.rcpt # <<>> /\ (known => Good(s.txn.mail) /\ s.txn.rok > 0) /\ s.txn.data = 0 /\ s.txn.bd = <<>>
       [] e.v = "MSG"  -> s.txn.data = 354 /\ known
       [] e.v = "BDAT" -> /\ "CHUNKING" \in s.ext /\ s.cfg.chunk
                          /\ s.txn.rcpt # <<>> /\ s.txn.data = 0 /\ ~s.txn.last
                          /\ (known => Good(s.txn.mail) /\ s.txn.rok > 0 /\ \A i \in 1..Len(s.txn.bd) : Good(s.txn.bd[i]))
       [] e.v = "QUIT" -> TRUE
       [] OTHER -> FALSE

\* --- the transaction of the current send was accepted by the server, completely (C01) ---
Accepted(s) ==
  /\ Good(s.txn.mail) /\ s.txn.from = s.req.from
  /\ s.txn.rcpt = (IF s.req.utf8 /\ "SMTPUTF8" \notin s.ext THEN s.req.rcptEnc ELSE s.req.rcpt) /\ s.txn.rok = Len(s.txn.rcpt) /\ s.txn.rcpt # <<>>
  /\ \/ s.txn.data = 354 /\ Good(s.txn.msg)
     \/ s.txn.last /\ \A i \in 1..Len(s.txn.bd) : Good(s.txn.bd[i])
  /\ ~s.dataBad

SendOutcome(s, e) ==
  IF e.ok
  THEN /\ Accepted(s) /\ s.req.failAt = -1
       /\ e.conn /\ e.unread = 0
  ELSE /\ \/ ~Accepted(s)
          \/ s.lost                                    \* the accepting reply never reached the client
       /\ \/ s.bad \/ s.lost \/ s.req.failAt >= 0 \/ ~s.wasConn \/ s.req.rcpt = <<>>   \* something really went wrong
       /\ (e.conn /\ s.conn = "up") => e.unread = 0

\* --- content (C02) ---
ContentOk(s, e) ==
  CASE e.v = "MSG" -> s.req.failAt = -1 /\ SameContent(e.wire, s.req.body)
    [] e.v = "BDAT" -> /\ e.match
                       /\ e.pos = s.txn.bpos + e.n
                       /\ e.last => (s.req.failAt = -1 /\ e.pos = s.req.len)
    [] e.v = "MAIL" -> e.size >= 0 => (IF s.req.kind = "stream" THEN e.size = s.req.len ELSE e.size >= s.req.len)
    [] OTHER -> TRUE

\* --- STARTTLS (C04) ---
NeedTls(s) == s.cfg.tls /\ s.cfg.tlsReq
TlsOk(s, e) ==
  CASE e.e = "cmd" ->
         /\ e.tls = s.tls
         /\ (NeedTls(s) /\ ~s.tls) => e.v \in {"EHLO", "HELO", "STARTTLS", "QUIT"}
         /\ s.tlsBad => e.v = "QUIT"                    \* nothing useful goes over a connection whose upgrade failed
         \* capabilities come from the EHLO of the current layer
         /\ (e.v = "AUTH" => In(e.mech, s.mechs))
         /\ (e.v = "BDAT" => "CHUNKING" \in s.ext)
         /\ (e.v = "MAIL" => (e.size >= 0 => "SIZE" \in s.ext) /\ (e.utf8 => "SMTPUTF8" \in s.ext))
         /\ (e.pend > 0 /\ e.v # "QUIT") => Pipelining(s)
    [] e.e = "ret" /\ e.op = "connect" ->
         /\ e.ok => /\ s.helo /\ e.sec = s.tls
                    /\ NeedTls(s) => s.tls
                    /\ ~s.tlsBad
                    /\ e.unread = 0
         /\ ~e.ok => (~e.conn \/ s.wasConn)
    [] e.e = "ret" /\ e.op = "send" -> e.ok => Accepted(s)
    [] OTHER -> TRUE

\* --- authentication (C05) ---
SubSeqOf(a, b) ==      \* a is b with elements dropped
  LET RECURSIVE F(_, _)
      F(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                 ELSE IF a[i] = b[j] THEN F(i + 1, j + 1) ELSE F(i, j + 1)
  IN F(1, 1)
Usable(s) == {m \in Range(s.mechs) : m \in Supported}
PlainText(s) == "\\u0000user\\u0000secret"
AuthOk(s, e) ==
  CASE e.e = "cmd" /\ e.v = "AUTH" ->
         /\ s.cfg.auth /\ s.cfg.sasl /\ s.esmtp
         /\ e.mech \in Usable(s) /\ ~In(e.mech, s.tried)
         /\ e.args <= 2 /\ e.wf
         \* after the first (preferred) mechanism: the order of the server's offer
         /\ Len(s.tried) >= 1 => SubSeqOf(Append(Tail(s.tried), e.mech), s.mechs)
    [] e.e = "cmd" /\ e.v = "AUTHRESP" ->
         /\ s.authing /\ e.wf
         /\ e.mech = "PLAIN" => e.text = s.cfg.plain
         /\ e.mech = "LOGIN" => e.text = (CASE e.k = 0 -> s.cfg.user [] e.k = 1 -> s.cfg.pass [] OTHER -> "")
    [] e.e = "cmd" /\ e.v = "MAIL" -> s.cfg.auth => s.authed
    [] e.e = "ret" /\ e.op = "connect" ->
         /\ e.ok => (e.conn /\ (s.cfg.auth => s.authed))
         /\ ~e.ok => (~e.conn \/ s.wasConn)
         \* giving up is only allowed when the server refused, and every usable mechanism was tried
         /\ (~e.ok /\ ~s.wasConn /\ s.cfg.auth /\ s.cfg.sasl /\ s.helo /\ s.esmtp /\ ~s.lost /\ ~s.tlsBad /\ ~(NeedTls(s) /\ ~s.tls))
               => (Usable(s) \ Range(s.tried) = {} /\ ~s.authed)
         /\ (e.ok /\ s.cfg.auth) => (s.cfg.sasl /\ s.esmtp)
    [] OTHER -> TRUE

LegalEv(s, e) == CASE e.e = "cmd" -> Legal(s, e)
                   [] e.e \in {"crash", "hang", "escaped"} -> FALSE
                   [] e.e = "conn" -> s.call = "connect"
                   [] OTHER -> TRUE

OutcomeOk(s, e) ==
  CASE e.e = "ret" /\ e.op = "send" -> SendOutcome(s, e)
    [] e.e = "ret" /\ e.op = "noop" -> IF e.ok THEN s.wasConn /\ ~s.bad ELSE ~s.wasConn \/ s.bad \/ s.lost
    [] e.e = "ret" /\ e.op = "connect" -> (e.ok => (s.helo /\ e.unread = 0)) /\ (~e.ok => (~e.conn \/ s.wasConn))
    [] e.e \in {"crash", "hang", "escaped"} -> FALSE
    [] e.e = "cmd" /\ e.v = "MSG" -> s.req.failAt = -1 \/ s.call # "send"
    [] OTHER -> TRUE

Ok(Chk, s, e) ==
  /\ "C01" \in Chk => OutcomeOk(s, e)
  /\ "C02" \in Chk => (CASE e.e = "cmd" -> ContentOk(s, e) [] e.e \in {"crash", "hang", "escaped"} -> FALSE
                         [] e.e = "ret" /\ e.op = "send" -> (e.ok => Accepted(s)) [] OTHER -> TRUE)
  /\ "C03" \in Chk => LegalEv(s, e)
  /\ "C04" \in Chk => (TlsOk(s, e) /\ e.e \notin {"crash", "hang", "escaped"})
  /\ "C05" \in Chk => (AuthOk(s, e) /\ e.e \notin {"crash", "hang", "escaped"})

-----------------------------------------------------------------------------
CmdNxt(s0, e) ==
  LET noReply == e.code = 0 \/ e.stall
      s == [s0 EXCEPT !.lost = @ \/ noReply,
                      !.bad = @ \/ e.code >= 400 \/ e.code = 0]
  IN CASE e.v = "EHLO" -> IF e.code = 250
            THEN [s EXCEPT !.helo = TRUE, !.esmtp = TRUE, !.ext = Range(e.ext), !.mechs = IF In("AUTH", e.ext) THEN e.mechs ELSE <<>>, !.ehloRefused = FALSE, !.txn = NoTxn, !.dirty = "no"]
            ELSE [s EXCEPT !.ehloRefused = TRUE, !.helo = FALSE, !.esmtp = FALSE, !.ext = {}, !.mechs = <<>>]
       [] e.v = "HELO" -> [s EXCEPT !.helo = (e.code = 250), !.esmtp = FALSE, !.ext = {}, !.mechs = <<>>, !.ehloRefused = FALSE]
       [] e.v = "STARTTLS" -> [s EXCEPT !.startTls = TRUE, !.tlsBad = (e.code = 220)]   \* until the handshake succeeds
       [] e.v = "AUTH" -> [s EXCEPT !.tried = Append(@, e.mech), !.authing = (e.code = 334), !.authed = (e.code = 235), !.authStep = 0]
       [] e.v = "AUTHRESP" -> [s EXCEPT !.authing = (e.code = 334), !.authed = (e.code = 235)]
       [] e.v = "AUTHCANCEL" -> [s EXCEPT !.authing = FALSE]
       [] e.v = "RSET" -> IF RsetGood(e.code) THEN [s EXCEPT !.dirty = "no", !.txn = NoTxn] ELSE [s EXCEPT !.dirty = "rset"]
       [] e.v = "MAIL" -> [s EXCEPT !.txn = [NoTxn EXCEPT !.mail = e.code, !.from = e.addr], !.dirty = "yes", !.mails = @ + 1]
       [] e.v = "RCPT" -> [s EXCEPT !.txn.rcpt = Append(@, e.addr), !.txn.rok = @ + (IF RcptGood(e.code) THEN 1 ELSE 0)]
       [] e.v = "DATA" -> [s EXCEPT !.txn.data = e.code]
       [] e.v = "MSG" -> [s EXCEPT !.txn.msg = e.code, !.dirty = IF Good(e.code) THEN "no" ELSE "yes", !.dataBad = (s.req.failAt = -1 /\ s.call = "send" /\ ~SameContent(e.wire, s.req.body))]
       [] e.v = "BDAT" -> [s EXCEPT !.txn.bd = Append(@, e.code), !.txn.bpos = @ + e.n, !.txn.last = e.last,
                                    !.dirty = IF e.last /\ Good(e.code) THEN "no" ELSE "yes", !.dataBad = @ \/ ~e.match]
       [] e.v = "QUIT" -> [s EXCEPT !.quit = TRUE]
       [] OTHER -> s

Nxt(s, e) ==
  CASE e.e = "call" ->
         LET t == [s EXCEPT !.call = e.op, !.lost = FALSE, !.bad = FALSE, !.wasConn = (s.conn = "up" /\ s.apiConn)] IN
         IF e.op = "send"
         THEN [t EXCEPT !.req = [rcpt |-> e.rcpt, rcptEnc |-> e.rcptEnc, from |-> e.from, body |-> e.body, failAt |-> e.failAt, len |-> e.len, kind |-> e.kind, utf8 |-> e.utf8],
                        !.txn = IF s.txn.mail # 0 THEN [s.txn EXCEPT !.from = "", !.msg = 0, !.last = FALSE] ELSE s.txn,
                        !.dataBad = FALSE]
         ELSE IF e.op = "connect" THEN [t EXCEPT !.tried = <<>>] ELSE t
    [] e.e = "ret" -> [s EXCEPT !.call = "none", !.apiConn = e.conn]
    [] e.e = "conn" -> [Init0(s.cfg) EXCEPT !.conn = "up", !.greet = e.code, !.call = s.call, !.req = s.req, !.bad = s.bad \/ e.code # 220, !.lost = s.lost, !.wasConn = s.wasConn]
    [] e.e = "cmd" -> CmdNxt(s, e)
    [] e.e = "tls" -> IF e.ok
         THEN [s EXCEPT !.tls = TRUE, !.helo = FALSE, !.esmtp = FALSE, !.ext = {}, !.mechs = <<>>, !.tlsBad = ~s.cfg.certOk, !.ehloRefused = FALSE]
         ELSE [s EXCEPT !.tlsBad = TRUE]
    [] e.e = "sclose" -> [s EXCEPT !.conn = "dead", !.lost = TRUE]
    [] e.e = "cclose" -> [s EXCEPT !.conn = "dead"]
    [] OTHER -> s
=============================================================================
