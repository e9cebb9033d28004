------------------------------- MODULE Maildir -------------------------------
(* A maildir store as its users rely on it: what is on the disk, what every open folder object shows, what
   message handles denote, which events are sent, and how the folder tree changes.  One "op" event is one
   API call (or a change made by another program), with the disk and the views observed after it; "sys"
   events are the system calls made on message files.
     C12  content and flags: the disk changes exactly as asked, and the API shows what is on the disk
     C13  numbers, counters, events
     C14  delivery is atomic, also under injected faults and crashes
     C15  folder tree *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SetOf(q) == {q[i] : i \in 1..Len(q)}
Good == {"a", "b", "ab", "A", "abc", "x-y", "c d", "1", "inbox", "x,y", "a.b", "r&d", "a+b", "\\u00c3\\u00a9t\\u00c3\\u00a9"}
BadName == {"..", "", ".a.directory", "x/../..", "/", " lead", ".", "precious", "a/b"}
GoodPath(p) == \A i \in 1..Len(p) : p[i] \notin BadName
File(d) == [p |-> d.p, w |-> d.w, n |-> d.n, id |-> d.id, fl |-> SetOf(d.fl), c |-> d.c]
Files(e) == {File(e.disk[i]) : i \in 1..Len(e.disk)}
Proj(D) == {[p |-> d.p, id |-> d.id, fl |-> d.fl, c |-> d.c] : d \in D}
Box(D, p) == {d \in D : d.p = p}
Tree(e) == SetOf(e.tree)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Moved(q, old, new) == IF Prefix(old, q) THEN new \o SubSeq(q, Len(old) + 1, Len(q)) ELSE q

Init0(cfg) == [courier |-> cfg.courier, conn |-> FALSE, disk |-> {}, tree |-> {}, fo |-> <<>>, h |-> <<>>, ids |-> {}, tmp |-> <<>>, first |-> TRUE]

\* ---- helpers over the state
Ext(e) == e.op \in {"xdeliver", "xremove", "xflags"}
HasF(s, f) == f \in DOMAIN s.fo
OpF(s, e) == IF e.op \in {"fetch", "extract", "part", "hset"} THEN (IF e.h \in DOMAIN s.h THEN s.h[e.h].f ELSE 0) ELSE IF "f" \in DOMAIN e THEN e.f ELSE 0
View(s, f) == s.fo[f].view
IdxOf(v, id) == IF \E i \in 1..Len(v) : v[i].id = id THEN CHOOSE i \in 1..Len(v) : v[i].id = id ELSE 0
HLive(s, h) == h \in DOMAIN s.h /\ s.h[h].live /\ HasF(s, s.h[h].f) /\ s.fo[s.h[h].f].open
HIdx(s, h) == IdxOf(View(s, s.h[h].f), s.h[h].id)
InCur(D, p, n) == \E d \in D : d.p = p /\ d.w = "cur" /\ d.n = n
FileOf(D, p, n) == CHOOSE d \in D : d.p = p /\ d.w = "cur" /\ d.n = n
Ovs(e) == e.views
OvOf(e, f) == CHOOSE o \in SetOf(e.views) : o.f = f
NotesOf(e, f, t) == SelectSeq(e.notes, LAMBDA n : n.f = f /\ n.t = t)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q).nums \o Flat(Tail(q))
NoteNums(e, f, t) == Flat(NotesOf(e, f, t))
Sorted(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
             IN F(S)

\* ---- which messages an operation addresses
FullOpen(s, f) == s.conn /\ HasF(s, f) /\ s.fo[f].open
Rw(s, f) == FullOpen(s, f) /\ ~s.fo[f].ro
Nums(s, e) == IF e.op = "hset" THEN (IF HLive(s, e.h) /\ HIdx(s, e.h) # 0 THEN {HIdx(s, e.h)} ELSE {}) ELSE SetOf(e.nums)
NumsOk(s, e) == Nums(s, e) # {} /\ \A n \in Nums(s, e) : n \in 1..Len(View(s, OpF(s, e)))
ApplyFl(mode, old, fl) == CASE mode = 0 -> fl [] mode \in {1, 3} -> old \cup fl [] OTHER -> old \ fl
Addr(s, e) == [i \in Nums(s, e) |-> View(s, OpF(s, e))[i]]
Readable(s, p, v) == InCur(s.disk, p, v.n)
OpPath(s, e) == s.fo[OpF(s, e)].path

\* entries an expunge of f removes (a message which vanished from the disk may or may not have been noticed yet)
RemIdx(s, e, f) == LET v == View(s, f) IN
   {i \in 1..Len(v) : /\ v[i].del = "y" \/ (v[i].del = "?" /\ i \in SetOf(NoteNums(e, f, "removed")))
                      /\ (e.flt => ~InCur(Files(e), s.fo[f].path, v[i].n))}
Expunging(e) == e.op = "expunge" \/ (e.op = "close" /\ e.x)

\* ---- C12/C14: effect on the disk
AddRec(s, e, D1) == Proj(D1) \ Proj(s.disk)
WantAdd(s, e, r) == r.p = OpPath(s, e) /\ r.c = e.c /\ r.fl = SetOf(e.fl) /\ <<r.p, r.id>> \notin s.ids
NoDup(D) == \A d1, d2 \in D : (d1.p = d2.p /\ d1.id = d2.id) => d1 = d2
SetEff(s, e, d) ==   \* what may become of file d
   LET A == {v \in {View(s, OpF(s, e))[i] : i \in Nums(s, e)} : d.p = OpPath(s, e) /\ d.w = "cur" /\ v.n = d.n} IN
   IF A = {} THEN {Proj({d})} ELSE LET v == CHOOSE v \in A : TRUE IN
      (IF e.flt \/ e.crashed THEN {Proj({d})} ELSE {}) \cup {Proj({[d EXCEPT !.fl = ApplyFl(e.mode, v.fl, SetOf(e.fl))]})}
CopyKey(d) == [fl |-> d.fl, c |-> d.c]
Effect(s, e) ==
  LET D0 == s.disk D1 == Files(e) P0 == Proj(D0) P1 == Proj(D1) IN
  CASE Ext(e) \/ s.first -> TRUE
    [] e.op \in {"setflags", "hset"} ->
         IF ~(e.ok \/ e.crashed) \/ ~Rw(s, OpF(s, e)) \/ ~NumsOk(s, e) THEN P1 = P0
         ELSE /\ \A d \in D0 : \E q \in SetEff(s, e, d) : q \subseteq P1
              /\ Cardinality(P1) = Cardinality(P0)
              /\ {[p |-> r.p, id |-> r.id, c |-> r.c] : r \in P1} = {[p |-> r.p, id |-> r.id, c |-> r.c] : r \in P0}
    [] e.op = "add" ->
         LET N == P1 \ P0 IN
         /\ P0 \subseteq P1 /\ Cardinality(N) <= 1 /\ \A r \in N : WantAdd(s, e, r)
         /\ (e.ok => N # {}) /\ ((~e.ok /\ ~e.crashed) => N = {})
    [] e.op = "copy" ->
         LET N == P1 \ P0 IN
         /\ P0 \subseteq P1
         /\ IF ~FullOpen(s, e.f) \/ ~NumsOk(s, e) THEN N = {}
            ELSE LET A == {i \in Nums(s, e) : Readable(s, OpPath(s, e), View(s, e.f)[i])}
                     FA == [i \in A |-> FileOf(D0, OpPath(s, e), View(s, e.f)[i].n)] IN
                 /\ \A r \in N : r.p = e.p /\ <<r.p, r.id>> \notin s.ids /\ \E i \in A : CopyKey(FA[i]) = CopyKey(r)
                 /\ \A r \in N : LET nn == Cardinality({x \in N : CopyKey(x) = CopyKey(r)}) na == Cardinality({i \in A : CopyKey(FA[i]) = CopyKey(r)}) IN nn <= na
                 /\ (e.ok => Cardinality(N) = Cardinality(Nums(s, e)))
    [] Expunging(e) /\ (e.ok \/ e.crashed) /\ Rw(s, e.f) ->
         LET p == OpPath(s, e)
             G == {d \in D0 : d.p = p /\ d.w = "cur" /\ \E v \in SetOf(View(s, e.f)) : v.n = d.n /\ v.del = "y"} IN
         /\ P1 \subseteq P0 /\ (P0 \ P1) \subseteq Proj(G)
         /\ ((e.ok /\ ~e.flt) => P1 = Proj(D0 \ G))
    [] e.op = "destroy" -> IF e.ok /\ GoodPath(OpPath(s, e)) THEN P1 = Proj({d \in D0 : ~Prefix(OpPath(s, e), d.p)}) ELSE P1 = P0
    [] e.op = "rename" -> IF e.ok THEN P1 = Proj({[d EXCEPT !.p = Moved(d.p, OpPath(s, e), e.p)] : d \in D0}) ELSE P1 = P0
    [] OTHER -> P1 = P0

\* ---- does the operation succeed?
Either(s, e) == e.flt \/ e.crashed
Succeeds(s, e) ==
  LET f == OpF(s, e) IN
  CASE Ext(e) \/ e.op \in {"droph", "dropf"} -> TRUE
    [] e.op \in {"connect", "folder"} -> TRUE
    [] e.op = "disconnect" -> TRUE
    [] e.op = "open" -> s.conn /\ HasF(s, f) /\ ~s.fo[f].open /\ s.fo[f].path \in s.tree
    [] e.op = "close" -> FullOpen(s, f) /\ (e.x => ~s.fo[f].ro)
    [] e.op = "expunge" -> Rw(s, f)
    [] e.op = "setflags" -> Rw(s, f) /\ NumsOk(s, e)
    [] e.op = "hset" -> HLive(s, e.h) /\ HIdx(s, e.h) # 0 /\ Rw(s, f)
    [] e.op = "add" -> Rw(s, f) /\ ~e.sfail
    [] e.op = "copy" -> FullOpen(s, f) /\ NumsOk(s, e) /\ \A n \in Nums(s, e) : Readable(s, OpPath(s, e), View(s, f)[n])
    [] e.op = "status" -> s.conn
    [] e.op = "get" -> FullOpen(s, f) /\ e.n \in 1..Len(View(s, f))
    [] e.op \in {"fetch", "extract", "part"} -> HLive(s, e.h) /\ s.conn /\ HIdx(s, e.h) # 0 /\ Readable(s, OpPath(s, e), View(s, f)[HIdx(s, e.h)])
    [] e.op = "create" -> s.conn /\ ~s.fo[f].open /\ s.fo[f].path \notin s.tree /\ GoodPath(s.fo[f].path)
    [] e.op = "destroy" -> s.conn /\ ~s.fo[f].open
    [] e.op = "rename" -> LET p == s.fo[f].path IN
         /\ s.conn /\ GoodPath(p) /\ GoodPath(e.p) /\ p # <<>> /\ p \in s.tree
         /\ \A q \in s.tree : Prefix(p, q) => Moved(q, p, e.p) \notin s.tree
         /\ (~s.courier => ~Prefix(p, e.p))
    [] e.op \in {"list", "exists"} -> s.conn
    [] OTHER -> TRUE
\* C27: closed folders, disconnected stores and stale messages are refused, and nothing is touched
MayWork(s, e) ==
  LET f == OpF(s, e) IN
  CASE e.op = "open" -> s.conn /\ HasF(s, f) /\ ~s.fo[f].open
    [] e.op \in {"close", "copy", "get"} -> FullOpen(s, f)
    [] e.op \in {"expunge", "setflags", "add"} -> Rw(s, f)
    [] e.op = "hset" -> HLive(s, e.h) /\ HIdx(s, e.h) # 0 /\ Rw(s, f)
    [] e.op \in {"fetch", "extract", "part"} -> HLive(s, e.h) /\ s.conn /\ HIdx(s, e.h) # 0
    [] e.op \in {"create", "destroy"} -> s.conn /\ HasF(s, f) /\ ~s.fo[f].open
    [] e.op \in {"status", "list", "exists", "rename"} -> s.conn
    [] OTHER -> TRUE
ResultOk(s, e) ==
  LET f == OpF(s, e) IN
  \/ e.crashed
  \/ e.op = "rename" /\ HasF(s, f) /\ s.fo[f].path = e.p
  \/ e.op = "list" /\ HasF(s, f) /\ ~GoodPath(s.fo[f].path)
  \/ e.op = "destroy" /\ HasF(s, f) /\ ~GoodPath(s.fo[f].path)
  \/ e.ok = Succeeds(s, e)
  \/ e.flt /\ Succeeds(s, e)

\* ---- views of the folder objects
OpenAfter(s, e, g) == CASE e.op = "open" /\ e.f = g /\ e.ok -> TRUE
                        [] e.op = "close" /\ e.f = g /\ e.ok -> FALSE
                        [] e.op = "disconnect" -> FALSE
                        [] e.op = "dropf" /\ e.f = g -> FALSE
                        [] e.crashed -> FALSE
                        [] OTHER -> HasF(s, g) /\ s.fo[g].open
PathAfter(s, e, g) == IF e.op = "folder" /\ e.f = g THEN e.p
                      ELSE IF e.op = "rename" /\ e.ok THEN Moved(s.fo[g].path, OpPath(s, e), e.p) ELSE s.fo[g].path
\* positions of g's view removed by the operation
Removed(s, e, g) ==
  IF ~(Expunging(e) /\ e.ok /\ Rw(s, e.f)) \/ ~HasF(s, g) \/ s.fo[g].path # s.fo[e.f].path THEN {}
  ELSE IF g = e.f THEN RemIdx(s, e, g)
  ELSE LET ids == {View(s, e.f)[i].id : i \in RemIdx(s, e, e.f)} IN {i \in 1..Len(View(s, g)) : View(s, g)[i].id \in ids}
Base(s, e, g) ==
  IF e.op = "open" /\ e.f = g /\ e.ok THEN <<>>
  ELSE LET R == Removed(s, e, g) v == View(s, g) IN [k \in 1..(Len(v) - Cardinality(R)) |-> v[Sorted((1..Len(v)) \ R)[k]]]
MustScan(s, e, g) ==
  /\ e.ok
  /\ \/ e.op \in {"open", "status"} /\ e.f = g
     \/ e.op = "add" /\ g # e.f /\ HasF(s, g) /\ s.fo[g].path = OpPath(s, e)
     \/ /\ e.op = "copy" /\ g # e.f /\ s.fo[g].path = e.p
        /\ \A x \in DOMAIN s.fo : (x # e.f /\ s.fo[x].path = e.p) => s.fo[x].open
Touched(s, e) == IF e.op \in {"setflags", "hset"} /\ e.ok /\ NumsOk(s, e) THEN {View(s, OpF(s, e))[i].id : i \in {i \in Nums(s, e) : Readable(s, OpPath(s, e), View(s, OpF(s, e))[i])}} ELSE {}
IsTouched(s, e, g, id) ==
  /\ id \in Touched(s, e) /\ s.fo[g].path = OpPath(s, e)
  /\ g = OpF(s, e) \/ \E d \in Files(e) : d.p = OpPath(s, e) /\ d.id = id /\ \A v \in SetOf(View(s, OpF(s, e))) : v.id = id => v.n # d.n
\* the view after the operation, given what was observed
NewView(s, e, g) ==
  LET o == OvOf(e, g).v p == PathAfter(s, e, g) D1 == Files(e) b == Base(s, e, g) ms == MustScan(s, e, g) IN
  [i \in 1..Len(o) |->
     LET D == {d \in D1 : d.p = p /\ d.id = o[i].id}
         d == IF D = {} THEN [n |-> "", w |-> "", fl |-> {}] ELSE CHOOSE d \in D : TRUE
         old == IF i <= Len(b) THEN b[i] ELSE [id |-> o[i].id, n |-> d.n, fl |-> d.fl, del |-> "n"] IN
     [id |-> o[i].id, fl |-> SetOf(o[i].fl),
      n |-> IF D # {} /\ o[i].c # 0 THEN d.n ELSE IF i <= Len(b) THEN old.n ELSE "",
      del |-> IF "T" \in SetOf(o[i].fl) THEN "y" ELSE IF D # {} THEN "n" ELSE IF ms THEN "y" ELSE IF old.del = "n" THEN "?" ELSE old.del]]
ViewNumbers(s, e, g) ==     \* C13
  LET ov == OvOf(e, g) o == ov.v D1 == Files(e) p == PathAfter(s, e, g) b == Base(s, e, g)
      boxIds == {d.id : d \in Box(D1, p)} bIds == {b[i].id : i \in 1..Len(b)}
      app == {i \in 1..Len(o) : i > Len(b)} IN
  /\ ov.err = "" /\ ov.cnt = Len(o) /\ Len(o) >= Len(b)
  /\ \A i \in 1..Len(b) : o[i].id = b[i].id
  /\ \A i \in app : o[i].id \in boxIds \ bIds
  /\ \A i, j \in app : i # j => o[i].id # o[j].id
  /\ (MustScan(s, e, g) /\ ~e.flt) => boxIds \subseteq {o[i].id : i \in 1..Len(o)}
  /\ (e.op = "add" /\ e.f = g) => Cardinality(app) = (IF e.ok THEN 1 ELSE 0)
  /\ (e.op \in {"get", "fetch", "extract", "part", "hset", "setflags", "expunge", "list", "exists", "folder", "xdeliver", "xremove", "xflags"}) => app = {}
  /\ (e.op # "open" \/ ~e.ok) => NoteNums(e, g, "added") = Sorted(app)
  /\ (e.op # "close") => SetOf(NoteNums(e, g, "removed")) = Removed(s, e, g) /\ Len(NoteNums(e, g, "removed")) = Cardinality(Removed(s, e, g))
  /\ (e.op \in {"setflags", "hset"} /\ e.ok /\ OpF(s, e) = g) => NoteNums(e, g, "flags") = Sorted(Nums(s, e))
  /\ (e.op \notin {"setflags", "hset"}) => NotesOf(e, g, "flags") = <<>>
ViewContent(s, e, g) ==     \* C12
  LET o == OvOf(e, g).v D1 == Files(e) p == PathAfter(s, e, g) b == Base(s, e, g) ms == MustScan(s, e, g) IN
  \A i \in 1..Len(o) :
     LET D == {d \in D1 : d.p = p /\ d.id = o[i].id} fl == SetOf(o[i].fl) IN
     /\ (D = {} => o[i].c = 0)
     /\ (D # {} => LET d == CHOOSE d \in D : TRUE IN
          /\ o[i].c # 0 => (o[i].c = d.c /\ o[i].szok)
          /\ o[i].c = 0 => \/ e.flt /\ (d.w = "new" \/ i > Len(b))
                           \/ i <= Len(b) /\ b[i].n # d.n /\ (~ms \/ e.flt)
                           \/ i <= Len(b) /\ d.w = "new"
          /\ IF i > Len(b) \/ ms \/ IsTouched(s, e, g, o[i].id) THEN fl = d.fl \/ (e.flt /\ i <= Len(b) /\ fl = b[i].fl)
             ELSE fl \in {b[i].fl, d.fl})
     /\ (D = {} /\ i <= Len(b)) => fl = b[i].fl
StatusOk(s, e) ==
  (e.op = "status" /\ e.ok) =>
    IF FullOpen(s, e.f) THEN LET o == OvOf(e, e.f).v IN e.cnt = Len(o) /\ e.unseen = Cardinality({i \in 1..Len(o) : "S" \notin SetOf(o[i].fl)})
    ELSE LET B == Box(Files(e), OpPath(s, e)) IN e.cnt = Cardinality(B) /\ e.unseen = Cardinality({d \in B : "S" \notin d.fl})

\* ---- message handles
HFlags(s, e, k) ==   \* flags a handle must show ({"-"}: not fetched)
  LET h == s.h[k] IN
  IF e.op = "fetch" /\ e.h = k THEN (IF e.ok THEN View(s, h.f)[HIdx(s, k)].fl ELSE {"?"})
  ELSE IF h.fl \notin {{"-"}, {"?"}} /\ HLive(s, k) /\ HIdx(s, k) # 0 /\ IsTouched(s, e, h.f, h.id)
       THEN LET D == {d \in Files(e) : d.p = s.fo[h.f].path /\ d.id = h.id} IN IF D = {} THEN h.fl ELSE (CHOOSE d \in D : TRUE).fl
       ELSE h.fl
HandlesNum(s, e) ==
  \A x \in SetOf(e.hs) :
     (x.h \in DOMAIN s.h /\ HLive(s, x.h) /\ OpenAfter(s, e, s.h[x.h].f)) =>
        LET o == OvOf(e, s.h[x.h].f).v i == IdxOf(o, s.h[x.h].id) IN
        IF i = 0 THEN x.exp ELSE ~x.exp /\ x.num = i
HandlesFl(s, e) ==
  \A x \in SetOf(e.hs) : (x.h \in DOMAIN s.h /\ HLive(s, x.h) /\ HIdx(s, x.h) # 0) =>
      LET fl == HFlags(s, e, x.h) IN
      fl # {"?"} => /\ x.kf <=> (fl # {"-"})
                    /\ x.kf => (SetOf(x.fl) = fl \/ (e.flt /\ SetOf(x.fl) = s.h[x.h].fl))
Content(s, e) ==
  /\ (e.op = "fetch" /\ e.ok) => (e.uid = s.h[e.h].id /\ SetOf(e.fl) = View(s, s.h[e.h].f)[HIdx(s, e.h)].fl)
  /\ (e.op \in {"extract", "part"} /\ e.ok) => FileOf(s.disk, OpPath(s, e), View(s, OpF(s, e))[HIdx(s, e.h)].n).c \in SetOf(e.tags)

\* ---- folder tree
TreeOk(s, e) ==
  LET T0 == s.tree T1 == Tree(e) f == OpF(s, e) IN
  CASE s.first -> TRUE
    [] e.op = "create" -> T1 = (IF e.ok THEN T0 \cup {s.fo[f].path} ELSE T0)
    [] e.op = "destroy" -> T1 = (IF e.ok /\ GoodPath(s.fo[f].path) THEN {q \in T0 : ~Prefix(s.fo[f].path, q)} ELSE T0)
    [] e.op = "rename" -> T1 = (IF e.ok THEN {Moved(q, s.fo[f].path, e.p) : q \in T0} ELSE T0)
    [] OTHER -> T1 = T0
ListOk(s, e) ==
  /\ (e.op = "list" /\ e.ok /\ GoodPath(s.fo[e.f].path)) =>
        LET p == s.fo[e.f].path K == {q \in s.tree : Prefix(p, q) /\ Len(q) > Len(p)} IN
        /\ SetOf(e.res) = {q \in K : e.rec \/ Len(q) = Len(p) + 1} /\ Len(e.res) = Cardinality(SetOf(e.res))
        /\ e.kids = (K # {})
  /\ (e.op = "exists" /\ e.ok /\ s.fo[e.f].path # <<>> /\ GoodPath(s.fo[e.f].path)) => (e.res = (s.fo[e.f].path \in s.tree))
PathsOk(s, e) == \A o \in SetOf(e.views) : (HasF(s, o.f) \/ (e.op = "folder" /\ e.f = o.f)) => o.path = PathAfter(s, e, o.f)
EventsOk(s, e) == LET t == CASE e.op = "create" -> "created" [] e.op = "destroy" -> "deleted" [] e.op = "rename" -> "renamed" [] OTHER -> "" IN
  (t # "" /\ e.ok) => \A g \in DOMAIN s.fo :
     Len(NotesOf(e, g, t)) = (IF g = e.f \/ (t = "renamed" /\ Prefix(OpPath(s, e), s.fo[g].path) /\ \E o \in SetOf(e.views) : o.f = g) THEN 1 ELSE 0)

\* ---- system calls on message files
Msg(w) == w \in {"cur", "new"}
SysOk(s, e) ==
  /\ (e.call \in {"create", "open", "write"}) => ~Msg(e.w)
  /\ (e.call \in {"rename", "link"} /\ Msg(e.w2) /\ e.good) => /\ ~e.existed
                                                               /\ (e.w = "tmp" => e.n \in DOMAIN s.tmp /\ s.tmp[e.n] = "synced")
  /\ (e.call = "rename" /\ Msg(e.w)) => Msg(e.w2) \/ e.w2 = "dir"
SysNxt(s, e) ==
  IF e.w # "tmp" THEN s
  ELSE CASE e.call = "create" -> [s EXCEPT !.tmp = (e.n :> "dirty") @@ s.tmp]
         [] e.call = "write" -> [s EXCEPT !.tmp = (e.n :> "dirty") @@ s.tmp]
         [] e.call = "fsync" -> [s EXCEPT !.tmp = (e.n :> "synced") @@ s.tmp]
         [] OTHER -> s

Ok(Chk, s, e) ==
  CASE e.e = "sys" -> "C14" \in Chk => SysOk(s, e)
    [] e.e = "op" ->
         LET opens == {o.f : o \in {x \in SetOf(e.views) : x.open}} IN
         /\ "C12" \in Chk => /\ ResultOk(s, e) /\ Effect(s, e) /\ NoDup(Files(e)) /\ Content(s, e) /\ HandlesFl(s, e)
                             /\ \A g \in opens : HasF(s, g) => ViewContent(s, e, g)
         /\ "C27" \in Chk => /\ ~e.crashed /\ (~MayWork(s, e) => ~e.ok /\ Proj(Files(e)) = Proj(s.disk))
                             /\ \A g \in DOMAIN s.fo : (\E o \in SetOf(e.views) : o.f = g) => (OvOf(e, g).open => OpenAfter(s, e, g))
         /\ "C13" \in Chk => /\ \A g \in DOMAIN s.fo : (\E o \in SetOf(e.views) : o.f = g) => (OvOf(e, g).open = OpenAfter(s, e, g))
                             /\ \A g \in opens : HasF(s, g) => ViewNumbers(s, e, g)
                             /\ HandlesNum(s, e) /\ StatusOk(s, e) /\ ResultOk(s, e)
         /\ "C14" \in Chk => /\ Effect(s, e) /\ NoDup(Files(e))
                             /\ \A d \in Files(e) : d.c > 0
                             /\ (e.op \in {"add", "copy"} => ResultOk(s, e))
         /\ "C15" \in Chk => /\ TreeOk(s, e) /\ ListOk(s, e) /\ PathsOk(s, e) /\ EventsOk(s, e) /\ Effect(s, e) /\ ResultOk(s, e)
    [] OTHER -> FALSE

Nxt(s, e) ==
  IF e.e = "sys" THEN SysNxt(s, e)
  ELSE IF e.crashed THEN [s EXCEPT !.disk = Files(e), !.tree = Tree(e), !.fo = <<>>, !.h = <<>>, !.conn = FALSE, !.tmp = <<>>,
                                   !.ids = @ \cup {<<d.p, d.id>> : d \in Files(e)}]
  ELSE LET F == {o.f : o \in SetOf(e.views)}
           fo1 == [g \in F |-> LET o == OvOf(e, g) IN
                     [path |-> o.path, open |-> o.open, ro |-> IF e.op = "open" /\ e.f = g /\ e.ok THEN e.ro ELSE IF HasF(s, g) THEN s.fo[g].ro ELSE FALSE,
                      view |-> IF o.open /\ HasF(s, g) THEN NewView(s, e, g) ELSE <<>>]]
           closed == {k \in DOMAIN s.h : s.h[k].f \notin F \/ ~fo1[s.h[k].f].open}
           gone == {k \in DOMAIN s.h \ closed : IdxOf(fo1[s.h[k].f].view, s.h[k].id) = 0}   \* expunged for good, even if a file of that name comes back
           h1 == [k \in DOMAIN s.h |-> [s.h[k] EXCEPT !.live = @ /\ k \notin closed, !.id = IF k \in gone THEN "" ELSE @, !.fl = IF HLive(s, k) /\ HIdx(s, k) # 0 THEN HFlags(s, e, k) ELSE @]]
           h2 == IF e.op = "get" /\ e.ok /\ HasF(s, e.f) /\ e.n \in 1..Len(View(s, e.f)) THEN (e.h :> [f |-> e.f, id |-> View(s, e.f)[e.n].id, fl |-> {"-"}, live |-> TRUE]) @@ h1 ELSE h1
           X == {k \in DOMAIN h2 : ~(e.op = "droph" /\ e.h = k)} IN
       [s EXCEPT !.disk = Files(e), !.tree = Tree(e), !.fo = fo1, !.h = [k \in X |-> h2[k]], !.tmp = <<>>, !.first = FALSE,
                 !.conn = CASE e.op = "connect" -> TRUE [] e.op = "disconnect" -> FALSE [] OTHER -> @,
                 !.ids = @ \cup {<<d.p, d.id>> : d \in Files(e)}]
==============================================================================
