-------------------------------- MODULE IMAP --------------------------------
(* IMAP sessions of the library: the connections (the store's one, and one per open folder), what the server
   told on each of them (the mailbox view: message ids in sequence order, and their flags), the folder objects
   and message handles the application holds, the events it was given.

   `Nxt(s, e)` is the effect of event e, `Ok(Chk, s, e)` what the properties in Chk allow.  Events:
     call/ret       an API call, and what it returned; ret carries, for every handle and folder object,
                    what the API says now (hn number, hx expunged, hf flags or -1, hu UID or 0, cnt count or -1)
     conn           TCP connection c + greeting
     cmd            a command as the server processed it: tag, v, arguments resolved to message ids; the reply:
                    code OK NO BAD "+" X (connection lost) M (malformed), `stall`, `pend` (bytes of earlier
                    replies not read yet), `upd` (E exists / X expunge / F flags, in the order sent), `data`
     tls, inject, sclose, cclose
     evt            a notification given to the application: folder f, k, nums
   A message is identified by its id (its UID is id + 100). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in 1..Len(q)}
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Pos(x, q) == IF In(x, q) THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Supported == {"PLAIN", "LOGIN", "CRAM-MD5"}

NoCall == [op |-> "none"]
NoSlot == [obj |-> FALSE, att |-> FALSE, open |-> FALSE, mb |-> 0, own |-> 0, base |-> 0, gen |-> 0, ro |-> FALSE, lst |-> <<>>]
NewConn(e) ==
  [st |-> IF e.greet = "PREAUTH" THEN "A" ELSE IF e.greet = "OK" THEN "N" ELSE "D", pre |-> e.greet = "PREAUTH", ok |-> e.greet \in {"OK", "PREAUTH"},
   tls |-> FALSE, tlsBad |-> FALSE, stls |-> 0, capa |-> e.ck, refused |-> FALSE, mechs |-> IF e.ck THEN e.mechs ELSE <<>>, ld |-> e.ck /\ e.ld,
   tried |-> <<>>, authing |-> FALSE, login |-> 0, mb |-> 0, view |-> <<>>, fl |-> <<>>, tags |-> {}, lost |-> FALSE, lit |-> <<>>]

Init0(cfg) ==
  [cfg |-> cfg, cn |-> <<>>, sc |-> 0, slots |-> [i \in 1..2 |-> NoSlot], hs |-> <<>>, sz |-> <<>>,
   call |-> NoCall, cmds |-> <<>>, bad |-> FALSE, apiConn |-> FALSE, store |-> TRUE, nc |-> 0, evs |-> <<>>, lgt |-> {}]

-----------------------------------------------------------------------------
Slot(s, f) == s.slots[f]
Usable1(s, f) == s.store /\ Slot(s, f).obj /\ Slot(s, f).att          \* the folder object still has its store
Open(s, f) == Usable1(s, f) /\ Slot(s, f).open
Cn(s, f) == IF Open(s, f) THEN Slot(s, f).own ELSE Slot(s, f).base               \* the connection the folder uses
Alive(s, c) == c \in 1..Len(s.cn) /\ s.cn[c].st \notin {"D", "L"} /\ ~s.cn[c].lost
Live(s, h) == h \in 1..Len(s.hs) /\ LET m == s.hs[h] IN Open(s, m.f) /\ Slot(s, m.f).gen = m.gen
View(s, f) == s.cn[Slot(s, f).own].view
There(s, h) == Live(s, h) /\ In(s.hs[h].id, View(s, s.hs[h].f))
Cmds(s, v) == {i \in 1..Len(s.cmds) : s.cmds[i].v = v}
Done(s, v) == Cardinality(Cmds(s, v))
LastOf(s, v) == LET I == Cmds(s, v) IN s.cmds[CHOOSE i \in I : \A j \in I : j <= i]
Good1(s, v) == Done(s, v) = 1 /\ LastOf(s, v).code = "OK"
NeedTls(s) == s.cfg.tls /\ s.cfg.tlsReq
Usable(k) == {m \in Range(k.mechs) : m \in Supported}
OnConnect(s, e) == s.call.op \in {"connect", "open"} /\ e.c = s.nc    \* on the connection this call has made

\* ids denoted by a set of numbers or UIDs (given as id), in the view of folder f
Denoted(s, f, nums, uid) ==
  LET v == View(s, f) IN
  IF uid THEN SelectSeq(v, LAMBDA x : In(x, nums))
         ELSE LET P == {i \in 1..Len(v) : In(i, nums)}
                  RECURSIVE F(_)
                  F(i) == IF i > Len(v) THEN <<>> ELSE (IF i \in P THEN <<v[i]>> ELSE <<>>) \o F(i + 1)
              IN F(1)

\* --- the commands a call may send: protocol state (C08), objects (C27), arguments resolved by the server (C09) ---
Idle(s) == \A i \in 1..Len(s.cmds) : s.cmds[i].v \in {"CAPABILITY", "AUTHENTICATE", "AUTHRESP", "AUTHCANCEL", "LOGIN", "STARTTLS"}
                                     \/ (s.cmds[i].v = "LIST" /\ s.cmds[i].pat = "")
OpOk(s, e) ==
  LET c == s.call IN
  CASE e.v = "LOGOUT" -> \/ c.op \in {"disconnect", "destroy"}
                         \/ OnConnect(s, e)
                         \/ c.op \in {"drop", "close"} /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own
                         \/ c.op = "connect"                                  \* what is left of a lost store connection
    [] e.v \in {"STARTTLS", "AUTHENTICATE", "AUTHRESP", "AUTHCANCEL", "LOGIN"} -> OnConnect(s, e)
    [] e.v = "CAPABILITY" -> OnConnect(s, e) \/ (c.op \in {"open", "status"} /\ e.c = s.sc)
                                             \/ (c.op \notin {"connect", "get", "folder", "drop", "destroy", "disconnect"} /\ \E f \in 1..2 : Open(s, f) /\ e.c = Slot(s, f).own)
    [] e.v = "LIST" -> \/ OnConnect(s, e) /\ e.pat = "" /\ e.ref = ""
                       \/ c.op = "exists" /\ Usable1(s, c.f) /\ e.c = Cn(s, c.f) /\ e.mb = Slot(s, c.f).mb /\ e.ref = "" /\ Idle(s)
    [] e.v \in {"SELECT", "EXAMINE"} -> c.op = "open" /\ OnConnect(s, e) /\ Usable1(s, c.f) /\ e.mb = Slot(s, c.f).mb
                                        /\ (e.v = "EXAMINE") = c.ro /\ Idle(s)
    [] e.v = "NOOP" -> \/ c.op = "noop" /\ e.c \in ({s.sc} \cup {Slot(s, f).own : f \in {g \in 1..2 : Open(s, g)}}) /\ \A i \in 1..Len(s.cmds) : s.cmds[i].c # e.c
                       \/ c.op = "fnoop" /\ Usable1(s, c.f) /\ e.c = Cn(s, c.f) /\ Idle(s)
    [] e.v = "STATUS" -> c.op = "status" /\ Usable1(s, c.f) /\ e.c = Cn(s, c.f) /\ e.mb = Slot(s, c.f).mb /\ Idle(s)
    [] e.v = "CLOSE" -> c.op = "close" /\ c.x /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ ~Slot(s, c.f).ro /\ Idle(s)
    [] e.v = "FETCH" ->
         \/ c.op = "getset" /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ e.uid = c.uid /\ e.ids = Denoted(s, c.f, c.nums, c.uid) /\ ~e.bd /\ Idle(s)
         \/ c.op = "fetch" /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ ~e.bd /\ Idle(s)
            /\ \A k \in 1..Len(c.hs) : There(s, c.hs[k]) /\ s.hs[c.hs[k]].f = c.f
            /\ Range(e.ids) = {s.hs[h].id : h \in Range(c.hs)}
         \/ c.op = "extract" /\ There(s, c.h) /\ e.c = Slot(s, s.hs[c.h].f).own /\ e.ids = <<s.hs[c.h].id>> /\ e.bd /\ e.peek = c.peek /\ Idle(s)
    [] e.v = "STORE" ->
         \/ c.op = "seth" /\ There(s, c.h) /\ e.c = Slot(s, s.hs[c.h].f).own /\ e.ids = <<s.hs[c.h].id>> /\ e.mode = c.mode /\ e.fl = c.fl /\ Idle(s)
         \/ c.op = "setf" /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ e.uid = c.uid /\ e.ids = Denoted(s, c.f, c.nums, c.uid) /\ e.mode = c.mode /\ e.fl = c.fl /\ Idle(s)
         \/ c.op = "delete" /\ Open(s, c.f) /\ ~Slot(s, c.f).ro /\ e.c = Slot(s, c.f).own /\ e.uid = c.uid /\ e.ids = Denoted(s, c.f, c.nums, c.uid) /\ e.mode = "add" /\ e.fl = 2 /\ Idle(s)
    [] e.v = "EXPUNGE" -> c.op = "expunge" /\ Open(s, c.f) /\ ~Slot(s, c.f).ro /\ e.c = Slot(s, c.f).own /\ Idle(s)
    [] e.v = "COPY" -> c.op = "copy" /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ e.mb = c.mb /\ e.uid = c.uid /\ e.ids = Denoted(s, c.f, c.nums, c.uid) /\ Idle(s)
    [] e.v = "APPEND" -> c.op = "append" /\ Open(s, c.f) /\ ~Slot(s, c.f).ro /\ e.c = Slot(s, c.f).own /\ e.mb = Slot(s, c.f).mb
                         /\ e.size = c.size /\ e.fl = (IF c.fl < 0 THEN 0 ELSE c.fl) /\ Idle(s)
    [] e.v = "LITERAL" -> c.op = "append" /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ e.hash = c.hash /\ e.clean
    [] e.v = "SEARCH" -> c.op = "search" /\ Open(s, c.f) /\ e.c = Slot(s, c.f).own /\ e.uid = c.uid /\ Idle(s)
    [] OTHER -> FALSE

\* RFC 3501: commands by state; one at a time; a tag never used before on the connection
LegalState(k, v) ==
  CASE v \in {"CAPABILITY", "NOOP", "LOGOUT"} -> k.st \in {"N", "A", "S"}
    [] v \in {"STARTTLS", "LOGIN", "AUTHENTICATE"} -> k.st = "N"
    [] v \in {"AUTHRESP", "AUTHCANCEL"} -> k.authing
    [] v \in {"LIST", "SELECT", "EXAMINE", "STATUS", "APPEND"} -> k.st \in {"A", "S"}
    [] v \in {"FETCH", "STORE", "SEARCH", "COPY", "EXPUNGE", "CLOSE"} -> k.st = "S"
    [] v = "LITERAL" -> k.lit # <<>>
    [] OTHER -> FALSE
Legal(s, e) ==
  LET k == s.cn[e.c] IN
  /\ e.c \in 1..Len(s.cn) /\ k.ok
  /\ LegalState(k, e.v)
  /\ k.st # "L"
  /\ (e.v = "EXPUNGE" /\ s.call.op = "expunge") => ~Slot(s, s.call.f).ro       \* nothing is removed from a mailbox opened to be read
  /\ e.v = "LOGOUT" \/ (e.pend = 0 /\ ~k.lost)
  /\ e.v \in {"AUTHRESP", "AUTHCANCEL"} <=> k.authing
  /\ e.v = "LITERAL" <=> k.lit # <<>>
  /\ e.v \in {"LITERAL", "AUTHRESP", "AUTHCANCEL"} \/ e.tag \notin k.tags

-----------------------------------------------------------------------------
\* --- outcome of a call, against the replies its own commands received (C08) ---
LostC(s, c) == ~(c \in 1..Len(s.cn)) \/ s.cn[c].lost \/ s.cn[c].st \in {"D", "L"}
Fail(s, f) == s.bad \/ ~Open(s, f) \/ LostC(s, Slot(s, f).own)
Fail1(s, f) == s.bad \/ ~Usable1(s, f) \/ LostC(s, Cn(s, f))
DupOpen(s, f) == \E g \in 1..2 : Open(s, g) /\ Slot(s, g).mb = Slot(s, f).mb
Sized(s, id) == IF id \in DOMAIN s.sz THEN {-1, s.sz[id]} ELSE {-1}
DataOf(s, v) == IF Done(s, v) = 0 THEN <<>> ELSE LastOf(s, v).data
DataIds(s) == {d.id : d \in Range(DataOf(s, "FETCH"))}
NoFlags(c) == c.op \in {"seth", "setf"} /\ c.fl = 0 /\ c.mode # "set"
Outcome(s, e) ==
  LET c == s.call IN
  CASE c.op = "connect" -> IF e.ok THEN ~s.apiConn /\ e.conn /\ s.nc # 0 /\ s.cn[s.nc].st = "A" /\ ~s.cn[s.nc].lost ELSE (~e.conn \/ s.apiConn)
    [] c.op = "disconnect" -> (e.ok => s.apiConn) /\ (~e.ok => ~s.apiConn \/ LostC(s, s.sc)) /\ ~e.conn
    [] c.op = "destroy" -> e.ok /\ ~e.conn
    [] c.op = "drop" -> e.ok
    [] c.op = "folder" -> e.ok <=> s.apiConn
    [] c.op = "noop" -> IF e.ok THEN s.apiConn /\ \A x \in ({s.sc} \cup {Slot(s, f).own : f \in {g \in 1..2 : Open(s, g)}}) :
                                                                \E i \in Cmds(s, "NOOP") : s.cmds[i].c = x /\ s.cmds[i].code = "OK"
                        ELSE ~s.apiConn \/ s.bad \/ LostC(s, s.sc) \/ \E f \in 1..2 : Open(s, f) /\ LostC(s, Slot(s, f).own)
    [] c.op = "fnoop" -> IF e.ok THEN Usable1(s, c.f) /\ Good1(s, "NOOP") ELSE Fail1(s, c.f)
    [] c.op = "status" -> IF e.ok THEN Usable1(s, c.f) /\ Good1(s, "STATUS") ELSE Fail1(s, c.f)
    [] c.op = "exists" -> IF e.ok THEN Usable1(s, c.f) /\ Cardinality({i \in Cmds(s, "LIST") : s.cmds[i].pat # ""}) = 1 /\ LastOf(s, "LIST").code = "OK" ELSE Fail1(s, c.f)
    [] c.op = "open" -> IF e.ok
         THEN /\ Usable1(s, c.f) /\ ~DupOpen(s, c.f) /\ s.nc # 0 /\ s.cn[s.nc].st = "S" /\ ~s.cn[s.nc].lost
              /\ Done(s, "SELECT") + Done(s, "EXAMINE") = 1
              /\ LET x == LastOf(s, IF c.ro THEN "EXAMINE" ELSE "SELECT") IN
                   x.code = "OK" /\ e.mro = (c.ro \/ (x.ro /\ x.rc)) /\ ~(c.strict /\ ~c.ro /\ x.ro /\ x.rc)
         ELSE \/ ~Usable1(s, c.f) \/ DupOpen(s, c.f) \/ s.bad \/ s.nc = 0 \/ LostC(s, s.sc)
              \/ (s.nc # 0 /\ LET k == s.cn[s.nc] IN k.lost \/ k.st \in {"D", "N", "L"} \/ k.tlsBad \/ (NeedTls(s) /\ ~k.tls))
              \/ (c.strict /\ ~c.ro /\ Done(s, "SELECT") = 1 /\ LastOf(s, "SELECT").ro)
    [] c.op = "close" -> IF e.ok THEN Open(s, c.f) /\ (c.x => Good1(s, "CLOSE"))
                         ELSE ~Open(s, c.f) \/ LostC(s, Slot(s, c.f).own) \/ s.bad \/ (c.x /\ Slot(s, c.f).ro)
    [] c.op = "get" -> IF e.ok THEN Open(s, c.f) /\ c.n >= 1 /\ (c.n <= Len(View(s, c.f)) \/ LostC(s, Slot(s, c.f).own)) /\ Len(e.new) = 1
                       ELSE ~Open(s, c.f) \/ LostC(s, Slot(s, c.f).own) \/ c.n \notin 1..Len(View(s, c.f))
    [] c.op = "getset" -> IF e.ok THEN Open(s, c.f) /\ Good1(s, "FETCH") ELSE Fail(s, c.f)
    [] c.op = "fetch" -> IF e.ok THEN (\A k \in 1..Len(c.hs) : Live(s, c.hs[k]) /\ s.hs[c.hs[k]].f = c.f) /\ Good1(s, "FETCH")
                         ELSE Fail(s, c.f) \/ (Done(s, "FETCH") = 0 /\ \E k \in 1..Len(c.hs) : ~(There(s, c.hs[k]) /\ s.hs[c.hs[k]].f = c.f))
    [] c.op = "extract" -> IF e.ok THEN Live(s, c.h) /\ ~c.sf /\ Good1(s, "FETCH") /\ \E d \in Range(DataOf(s, "FETCH")) : d.id = s.hs[c.h].id /\ d.body
                           ELSE c.sf \/ ~Live(s, c.h) \/ Fail(s, s.hs[c.h].f) \/ (Done(s, "FETCH") = 0 /\ ~There(s, c.h))
                                \/ (Done(s, "FETCH") = 1 /\ s.hs[c.h].id \notin DataIds(s))
    [] c.op = "seth" -> IF e.ok THEN Live(s, c.h) /\ (Good1(s, "STORE") \/ (NoFlags(c) /\ Done(s, "STORE") = 0))
                        ELSE ~Live(s, c.h) \/ Fail(s, s.hs[c.h].f) \/ (Done(s, "STORE") = 0 /\ ~There(s, c.h))
    [] c.op = "setf" -> IF e.ok THEN Open(s, c.f) /\ (Good1(s, "STORE") \/ (NoFlags(c) /\ Done(s, "STORE") = 0)) ELSE Fail(s, c.f)
    [] c.op = "delete" -> IF e.ok THEN Open(s, c.f) /\ Good1(s, "STORE") ELSE Fail(s, c.f) \/ Slot(s, c.f).ro
    [] c.op = "expunge" -> IF e.ok THEN Open(s, c.f) /\ Good1(s, "EXPUNGE") ELSE Fail(s, c.f) \/ Slot(s, c.f).ro
    [] c.op = "copy" -> IF e.ok THEN Open(s, c.f) /\ Good1(s, "COPY") ELSE Fail(s, c.f)
    [] c.op = "append" -> IF e.ok THEN Open(s, c.f) /\ Done(s, "APPEND") = 1 /\ Good1(s, "LITERAL") ELSE Fail(s, c.f) \/ Slot(s, c.f).ro
    [] c.op = "search" -> IF e.ok THEN Open(s, c.f) /\ Good1(s, "SEARCH") ELSE Fail(s, c.f)
    [] OTHER -> TRUE

\* --- values returned (C10) ---
Values(s, e) ==
  LET c == s.call IN
  ~e.ok \/
  CASE c.op = "status" -> e.n = LastOf(s, "STATUS").n /\ e.un = LastOf(s, "STATUS").un
    [] c.op = "exists" -> e.is
    [] c.op = "search" -> LET x == LastOf(s, "SEARCH") IN
         e.res = (IF c.uid THEN x.ids ELSE [i \in 1..Len(x.ids) |-> Pos(x.ids[i], View(s, c.f))])
    [] c.op = "extract" -> \E d \in Range(DataOf(s, "FETCH")) : d.id = s.hs[c.h].id /\ d.body /\ d.hash = e.hash
    [] c.op = "append" -> e.id = (IF LastOf(s, "LITERAL").au THEN LastOf(s, "LITERAL").ids[1] ELSE 0)
    [] c.op = "copy" -> e.cu = LastOf(s, "COPY").cu                    \* where the server says the copies are
    [] c.op = "fetch" ->
         /\ Len(e.size) = Len(c.hs)
         /\ \A k \in 1..Len(c.hs) : LET id == s.hs[c.hs[k]].id IN
              /\ e.size[k] \in Sized(s, id)
              /\ id \in DataIds(s) => (c.sz => e.size[k] = s.sz[id]) /\ (c.uid => e.hu[c.hs[k]] = id) /\ (c.fl => e.hf[c.hs[k]] # -1)
    [] c.op = "getset" ->
         LET new == {e.hu[h] : h \in Range(e.new)} IN
         /\ Cardinality(new) = Len(e.new) /\ new \subseteq DataIds(s)              \* each message once, and only those asked for
         /\ {id \in DataIds(s) : In(id, View(s, c.f))} \subseteq new
         /\ (c.attrs >= 0) => \A h \in Range(e.new) : In(e.hu[h], View(s, c.f)) => e.hf[h] # -1
    [] OTHER -> TRUE

\* --- the handles and folders as the API shows them now, against what the server told (C09) ---
NewHs(s, e) ==                                                        \* handles, with the new ones
  LET c == s.call IN
  IF e.ok /\ c.op = "get" THEN Append(s.hs, [f |-> c.f, gen |-> Slot(s, c.f).gen, id |-> IF c.n <= Len(View(s, c.f)) THEN View(s, c.f)[c.n] ELSE 0])
  ELSE IF e.ok /\ c.op = "getset" THEN s.hs \o [i \in 1..Len(e.new) |-> [f |-> c.f, gen |-> Slot(s, c.f).gen, id |-> e.hu[e.new[i]]]]
  ELSE s.hs
StillOpen(s, e, f) == Open(s, f) /\ ~(s.call.op \in {"close", "drop"} /\ s.call.f = f) /\ s.call.op \notin {"disconnect", "destroy"}
Synced(s, e, f) == StillOpen(s, e, f) /\ ~LostC(s, Slot(s, f).own)
Shown(s, e) ==
  LET hs == NewHs(s, e) IN
  /\ \A h \in 1..Len(hs) :
       LET m == hs[h] IN
       (Synced(s, e, m.f) /\ Slot(s, m.f).gen = m.gen /\ m.id # 0) =>
         LET k == s.cn[Slot(s, m.f).own] p == Pos(m.id, k.view) IN
         IF p = 0 THEN e.hx[h]
         ELSE /\ ~e.hx[h] /\ e.hn[h] = p /\ e.hu[h] \in {0, m.id}
              /\ e.hf[h] \in {-1, k.fl[m.id]}
  /\ \A f \in 1..2 : Synced(s, e, f) => e.cnt[f] = Len(View(s, f))
  /\ (s.call.op = "open" /\ e.ok) => e.cnt[s.call.f] = Len(s.cn[s.nc].view)
\* (C10) what the objects show of flags and UIDs is what the server said, and only that
ShownValues(s, e) ==
  LET hs == NewHs(s, e) IN
  \A h \in 1..Len(hs) :
    LET m == hs[h] IN
    (Synced(s, e, m.f) /\ Slot(s, m.f).gen = m.gen /\ m.id # 0) =>
      LET k == s.cn[Slot(s, m.f).own] IN
      In(m.id, k.view) => e.hu[h] \in {0, m.id} /\ e.hf[h] \in {-1, k.fl[m.id]}
\* the events turn the list the application knows into the one the server told
RECURSIVE Fold(_, _)
Fold(l, q) ==
  IF q = <<>> THEN l
  ELSE LET x == Head(q) IN
       CASE x.k = "added" -> IF x.nums = [i \in 1..Len(x.nums) |-> Len(l) + i] THEN Fold(l \o [i \in 1..Len(x.nums) |-> 0], Tail(q)) ELSE <<-1>>
         [] x.k = "removed" -> IF Len(x.nums) = 1 /\ x.nums[1] \in 1..Len(l) THEN Fold(SubSeq(l, 1, x.nums[1] - 1) \o SubSeq(l, x.nums[1] + 1, Len(l)), Tail(q)) ELSE <<-1>>
         [] OTHER -> IF \A i \in 1..Len(x.nums) : x.nums[i] \in 1..Len(l) THEN Fold(l, Tail(q)) ELSE <<-1>>
EvOf(s, f) == SelectSeq(s.evs, LAMBDA x : x.f = f)
Same(l, v) == Len(l) = Len(v) /\ \A i \in 1..Len(v) : l[i] \in {0, v[i]}
EventsOk(s, e) ==
  \A f \in 1..2 :
    LET q == EvOf(s, f) IN
    IF s.call.op = "open" /\ s.call.f = f /\ ~Open(s, f)
    THEN IF e.ok THEN q = <<>> \/ Same(Fold(<<>>, q), s.cn[s.nc].view) ELSE q = <<>>
    ELSE IF Open(s, f) THEN (Synced(s, e, f) => Same(Fold(Slot(s, f).lst, q), View(s, f)))
    ELSE q = <<>>

Fatal == {"crash", "hang", "escaped"}

ProtoOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> Legal(s, e)
    [] e.e = "conn" -> s.call.op \in {"connect", "open"} /\ s.nc = 0
    [] e.e = "ret" -> Outcome(s, e) /\ (e.conn => s.store /\ (s.apiConn \/ s.call.op = "connect"))
    [] OTHER -> TRUE
\* arguments and objects: which messages and mailbox a command addresses
ViewOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> OpOk(s, e)
    [] e.e = "ret" -> Shown(s, e) /\ EventsOk(s, e)
    [] e.e = "evt" -> s.call.op # "none" /\ Slot(s, e.f).obj
    [] OTHER -> TRUE
\* what was asked is answered: a good reply never becomes an error, whatever its form and the segments it came in
Asking == {"status", "exists", "search", "extract", "fetch", "getset", "get", "append", "copy"}
ValueOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "ret" -> Values(s, e) /\ ShownValues(s, e) /\ (s.call.op \in Asking => Outcome(s, e))
    [] OTHER -> TRUE
\* closed folders, disconnected stores, stale messages (C27): nothing is sent for them, and the call throws
NeedsOpen == {"get", "getset", "fetch", "setf", "delete", "expunge", "copy", "append", "search"}
LifeOk(s, e) ==
  LET c == s.call IN
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> /\ (c.op \in NeedsOpen \cup {"close"}) => Open(s, c.f)
                      /\ (c.op \in {"status", "exists", "fnoop", "open"}) => Usable1(s, c.f)
                      /\ (c.op \in {"extract", "seth"}) => Live(s, c.h)
                      /\ s.cn[e.c].st # "L"
                      /\ \/ e.c = s.nc \/ e.c = s.sc \/ \E f \in 1..2 : Open(s, f) /\ Slot(s, f).own = e.c
    [] e.e = "conn" -> (c.op = "connect" /\ ~s.apiConn) \/ (c.op = "open" /\ Usable1(s, c.f) /\ ~DupOpen(s, c.f))
    [] e.e = "evt" -> Open(s, e.f) \/ (c.op = "open" /\ c.f = e.f)
    [] e.e = "ret" ->
         /\ (c.op \in NeedsOpen \cup {"close"} /\ ~Open(s, c.f)) => ~e.ok
         /\ (c.op \in {"status", "exists", "fnoop", "open"} /\ ~Usable1(s, c.f)) => ~e.ok
         /\ (c.op \in {"extract", "seth"} /\ ~Live(s, c.h)) => ~e.ok
         /\ (c.op = "open" /\ DupOpen(s, c.f)) => ~e.ok
         /\ (c.op = "open" /\ e.ok) => s.nc # 0
         /\ \A f \in 1..2 : (e.cnt[f] # -1) => (StillOpen(s, e, f) \/ (c.op = "open" /\ e.ok /\ c.f = f) \/ (c.op = "close" /\ c.f = f /\ ~e.ok))
         \* a connection is closed with LOGOUT unless it was lost
         /\ (c.op \in {"disconnect", "destroy"} /\ s.apiConn /\ ~LostC(s, s.sc)) => FALSE
         /\ (c.op \in {"disconnect", "destroy", "drop", "close"} /\ e.ok) =>
              \A f \in 1..2 : (Open(s, f) /\ (c.op \in {"disconnect", "destroy"} \/ c.f = f)) => LostC(s, Slot(s, f).own)
    [] OTHER -> TRUE

\* --- STARTTLS (C04) ---
TlsOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" -> LET k == s.cn[e.c] IN
                      /\ e.tls = k.tls
                      /\ (NeedTls(s) /\ ~k.tls) => e.v \in {"STARTTLS", "LOGOUT", "CAPABILITY"}
                      /\ k.tlsBad => e.v = "LOGOUT"
                      /\ e.v = "STARTTLS" => s.cfg.tls /\ ~k.tls /\ k.stls = 0 /\ k.st = "N"
                      /\ e.v = "AUTHENTICATE" => In(e.mech, k.mechs)
                      /\ e.v # "LOGOUT" => e.pend = 0
                      /\ (s.cfg.tls /\ e.v \notin {"STARTTLS", "CAPABILITY", "LOGOUT"}) => (k.stls = 1 \/ k.pre)
    [] e.e = "ret" /\ s.call.op = "connect" -> /\ (e.ok => LET k == s.cn[s.nc] IN e.sec = k.tls /\ (NeedTls(s) => k.tls) /\ ~k.tlsBad)
                                               /\ (~e.ok => (~e.conn \/ s.apiConn))
    [] OTHER -> TRUE

\* --- authentication policy (C05) ---
SubSeqOf(a, b) ==
  LET RECURSIVE F(_, _)
      F(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                 ELSE IF a[i] = b[j] THEN F(i + 1, j + 1) ELSE F(i, j + 1)
  IN F(1, 1)
Tried(k) == k.refused \/ (k.capa /\ Usable(k) \subseteq Range(k.tried))          \* refused: no mechanism was known
SaslDone(s, k) == s.cfg.sasl => Tried(k) /\ s.cfg.saslFb
AuthOk(s, e) ==
  CASE e.e \in Fatal -> FALSE
    [] e.e = "cmd" /\ e.v = "AUTHENTICATE" ->
         LET k == s.cn[e.c] IN
         /\ s.cfg.sasl /\ k.capa /\ k.st = "N"
         /\ e.mech \in Usable(k) /\ ~In(e.mech, k.tried) /\ e.args <= 2 /\ e.wf
         /\ Len(k.tried) >= 1 => SubSeqOf(Append(Tail(k.tried), e.mech), k.mechs)
         /\ k.login = 0
         /\ (e.mech = "PLAIN" /\ e.ir) => e.text = s.cfg.plain
    [] e.e = "cmd" /\ e.v = "AUTHRESP" ->
         /\ s.cn[e.c].authing /\ e.wf
         /\ e.mech = "PLAIN" => e.text = s.cfg.plain
         /\ e.mech = "LOGIN" => e.text = (CASE e.k = 0 -> s.cfg.user [] e.k = 1 -> s.cfg.pass [] OTHER -> "")
    [] e.e = "cmd" /\ e.v = "LOGIN" -> LET k == s.cn[e.c] IN SaslDone(s, k) /\ k.login = 0 /\ k.st = "N" /\ ~k.ld /\ e.user = s.cfg.user /\ e.pass = s.cfg.pass
    [] e.e = "cmd" /\ e.v \notin {"CAPABILITY", "STARTTLS", "AUTHCANCEL", "NOOP", "LOGOUT"} -> s.cn[e.c].st \in {"A", "S"}
    [] e.e = "ret" /\ s.call.op = "connect" ->
         /\ e.ok => e.conn /\ s.cn[s.nc].st = "A"
         /\ ~e.ok => (~e.conn \/ s.apiConn)
         /\ (~e.ok /\ ~s.apiConn /\ s.nc # 0) =>
              LET k == s.cn[s.nc] IN
              (k.ok /\ ~k.pre /\ ~k.lost /\ ~k.tlsBad /\ ~(NeedTls(s) /\ ~k.tls)) =>
                \/ Done(s, "LIST") > 0 /\ LastOf(s, "LIST").code # "OK"
                \/ /\ s.cfg.sasl => Tried(k)
                   /\ (s.cfg.sasl => s.cfg.saslFb) => (k.login > 0 \/ k.ld)
    [] OTHER -> TRUE

Ok(Chk, s, e) ==
  /\ "C08" \in Chk => ProtoOk(s, e)
  /\ "C09" \in Chk => ViewOk(s, e)
  /\ "C10" \in Chk => ValueOk(s, e)
  /\ "C27" \in Chk => LifeOk(s, e)
  /\ "C04" \in Chk => TlsOk(s, e)
  /\ "C05" \in Chk => AuthOk(s, e)

-----------------------------------------------------------------------------
\* what the untagged responses of a reply say about the mailbox
RECURSIVE Upd(_, _)
Upd(k, q) ==
  IF q = <<>> THEN k
  ELSE LET u == Head(q) IN
       Upd(CASE u.t = "E" -> [k EXCEPT !.view = @ \o SelectSeq(u.ids, LAMBDA x : ~In(x, k.view)),
                                       !.fl = [i \in {j \in Range(u.ids) : j \notin DOMAIN k.fl} |-> 0] @@ @]
             [] u.t = "X" -> [k EXCEPT !.view = SubSeq(@, 1, u.n - 1) \o SubSeq(@, u.n + 1, Len(@))]
             [] u.t = "F" -> [k EXCEPT !.fl = (k.view[u.n] :> u.fl) @@ @], Tail(q))

CmdNxt(s0, e) ==
  LET k0 == s0.cn[e.c]
      fail == e.code \in {"NO", "BAD", "X", "M"}
      lost == e.code \in {"X", "M"} \/ (e.v = "LITERAL" /\ e.code = "+")
      ok == e.code = "OK"
      k1 == [k0 EXCEPT !.tags = @ \cup {e.tag}, !.lost = @ \/ lost]
      k2 == CASE e.v = "CAPABILITY" -> [k1 EXCEPT !.capa = TRUE, !.refused = @ \/ ~ok, !.mechs = IF ok THEN e.mechs ELSE <<>>, !.ld = ok /\ e.ld]
              [] e.v = "LOGOUT" -> [k1 EXCEPT !.st = "L"]
              [] e.v = "STARTTLS" -> [k1 EXCEPT !.stls = 1, !.tlsBad = ok]
              [] e.v = "AUTHENTICATE" -> [k1 EXCEPT !.tried = Append(@, e.mech), !.authing = (e.code = "+"), !.st = IF ok THEN "A" ELSE @]
              [] e.v = "AUTHRESP" -> [k1 EXCEPT !.authing = (e.code = "+"), !.st = IF ok THEN "A" ELSE @]
              [] e.v = "AUTHCANCEL" -> [k1 EXCEPT !.authing = FALSE]
              [] e.v = "LOGIN" -> [k1 EXCEPT !.login = 1, !.st = IF ok THEN "A" ELSE @]
              [] e.v \in {"SELECT", "EXAMINE"} -> IF ok THEN [k1 EXCEPT !.st = "S", !.mb = e.mb, !.view = <<>>] ELSE [k1 EXCEPT !.st = IF @ = "S" THEN "A" ELSE @]
              [] e.v = "CLOSE" -> IF ok THEN [k1 EXCEPT !.st = "A"] ELSE k1
              [] e.v = "APPEND" -> IF e.code = "+" THEN [k1 EXCEPT !.lit = <<1>>] ELSE k1
              [] e.v = "LITERAL" -> [k1 EXCEPT !.lit = <<>>]
              [] OTHER -> k1
      k3 == Upd(k2, e.upd)
      szs == {d \in Range(e.data) : d.size >= 0}
  IN [s0 EXCEPT !.cn[e.c] = k3, !.cmds = Append(@, e), !.bad = @ \/ fail \/ e.stall,
                !.sz = [i \in {d.id : d \in szs} |-> (CHOOSE d \in szs : d.id = i).size] @@ @]

ClosedSlot(s, f) == [s.slots[f] EXCEPT !.open = FALSE, !.own = 0, !.base = s.sc, !.gen = @ + 1, !.lst = <<>>]
RetNxt(s, e) ==
  LET c == s.call
      t1 == [s EXCEPT !.call = NoCall, !.cmds = <<>>, !.bad = FALSE, !.nc = 0, !.evs = <<>>, !.apiConn = e.conn, !.hs = NewHs(s, e)]
      t == [t1 EXCEPT !.slots = [f \in 1..2 |-> IF Open(s, f) THEN [s.slots[f] EXCEPT !.lst = View(s, f)] ELSE s.slots[f]]]
  IN CASE c.op = "connect" -> IF s.apiConn THEN t
                              ELSE [t EXCEPT !.sc = s.nc]
       [] c.op \in {"disconnect", "destroy"} ->
            [t EXCEPT !.slots = [f \in 1..2 |-> [ClosedSlot(s, f) EXCEPT !.att = FALSE]], !.store = @ /\ c.op = "disconnect"]
       [] c.op = "folder" -> IF e.ok THEN [t EXCEPT !.slots[c.f] = [NoSlot EXCEPT !.obj = TRUE, !.att = TRUE, !.mb = c.mb, !.base = s.sc, !.gen = s.slots[c.f].gen + 1]] ELSE t
       [] c.op = "drop" -> [t EXCEPT !.slots[c.f] = [NoSlot EXCEPT !.gen = s.slots[c.f].gen + 1]]
       [] c.op = "open" -> IF e.ok THEN [t EXCEPT !.slots[c.f] = [@ EXCEPT !.open = TRUE, !.own = s.nc, !.ro = e.mro, !.gen = @ + 1, !.lst = s.cn[s.nc].view]] ELSE t
       [] c.op = "close" -> IF Open(s, c.f) /\ (e.ok \/ e.cnt[c.f] = -1) THEN [t EXCEPT !.slots[c.f] = ClosedSlot(s, c.f)] ELSE t
       [] OTHER -> t

Dead(s, c) == [s EXCEPT !.cn[c].st = IF @ = "L" THEN "L" ELSE "D", !.cn[c].lit = <<>>, !.cn[c].authing = FALSE]
Nxt(s, e) ==
  CASE e.e = "call" -> [s EXCEPT !.call = e, !.cmds = <<>>, !.bad = FALSE, !.nc = 0, !.evs = <<>>]
    [] e.e = "ret" -> RetNxt(s, e)
    [] e.e = "conn" -> [s EXCEPT !.cn = Append(@, NewConn(e)), !.nc = Len(s.cn) + 1]
    [] e.e = "cmd" -> CmdNxt(s, e)
    [] e.e = "tls" -> [s EXCEPT !.cn[e.c] = IF e.ok THEN [@ EXCEPT !.tls = TRUE, !.tlsBad = ~s.cfg.certOk, !.mechs = <<>>, !.capa = FALSE, !.ld = FALSE]
                                            ELSE [@ EXCEPT !.tlsBad = TRUE]]
    [] e.e = "sclose" -> [Dead(s, e.c) EXCEPT !.cn[e.c].lost = TRUE]
    [] e.e = "cclose" -> Dead(s, e.c)
    [] e.e = "evt" -> [s EXCEPT !.evs = Append(@, e)]
    [] OTHER -> s
=============================================================================
