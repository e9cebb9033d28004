---------------------------- MODULE MaildirClient ----------------------------
(* A maildir store with two folder objects (on one or on two folders) as an algorithm, next to another mail
   program which delivers, removes and re-flags.  Explored exhaustively: Sound says that everything it
   does and shows is allowed by Maildir.tla; its behaviours are replayed against the real store. *)
EXTENDS Maildir, Json
CONSTANTS MaxOps, GenScripts,
          Renumber           \* FALSE: a store whose other folder objects are not told about an expunge (must be rejected)
VARIABLES s, ok, ops, n, D, fo, nid, end, h
vars == <<s, ok, ops, n, D, fo, nid, end, h>>

A == <<"a">>
B == <<"b">>
Chk == {"C12", "C13", "C14", "C15"}
Id(k) == "m" \o ToString(k)
Name(id, fl) == id \o ":2," \o (IF "S" \in fl THEN "S" ELSE "") \o (IF "T" \in fl THEN "T" ELSE "")
FlSeq(fl) == (IF "S" \in fl THEN <<"S">> ELSE <<>>) \o (IF "T" \in fl THEN <<"T">> ELSE <<>>)
\* D: sequence of files [p, w, id, fl, c];  fo: sequence of [path, open, v];  v: sequence of [id, fl, x] (x: the file has vanished)
FileN(d) == IF d.w = "new" THEN d.id ELSE Name(d.id, d.fl)
DiskJ(d) == [i \in 1..Len(d) |-> [p |-> d[i].p, w |-> d[i].w, n |-> FileN(d[i]), id |-> d[i].id, fl |-> FlSeq(d[i].fl), c |-> d[i].c]]
At(d, p, id, fl) == {i \in 1..Len(d) : d[i].p = p /\ d[i].w = "cur" /\ d[i].id = id /\ d[i].fl = fl}
ViewJ(f, d, q) == [f |-> f, open |-> q.open, path |-> q.path, cnt |-> Len(q.v), err |-> "",
                   v |-> [i \in 1..Len(q.v) |-> LET X == At(d, q.path, q.v[i].id, q.v[i].fl) IN
                            [id |-> q.v[i].id, fl |-> FlSeq(q.v[i].fl), c |-> IF X = {} THEN 0 ELSE d[CHOOSE x \in X : TRUE].c, szok |-> TRUE]]]
HsJ(F, H) == [i \in 1..Len(H) |-> LET q == F[H[i].f] k == IdxOf(q.v, H[i].id) IN
                            [h |-> i, num |-> IF k = 0 \/ H[i].gone THEN H[i].last ELSE k, exp |-> H[i].gone, kf |-> FALSE, fl |-> <<>>]]
Ev(o, d, F, H, notes) == o @@ [e |-> "op", flt |-> FALSE, crashed |-> FALSE, ex |-> "", ok |-> TRUE, notes |-> notes,
                         disk |-> DiskJ(d), tree |-> <<A, B>>, views |-> [f \in 1..Len(F) |-> ViewJ(f, d, F[f])], hs |-> HsJ(F, H)]
Note(f, t, nums) == [f |-> f, t |-> t, nums |-> nums]

\* scanning: new messages move to cur; known ones are looked up; vanished ones stay, marked
Scan(d, p) == [i \in 1..Len(d) |-> IF d[i].p = p /\ d[i].w = "new" THEN [d[i] EXCEPT !.w = "cur"] ELSE d[i]]
Keep(d, p, v) == [i \in 1..Len(v) |-> LET X == {x \in 1..Len(d) : d[x].p = p /\ d[x].id = v[i].id} IN
                    IF X = {} THEN [v[i] EXCEPT !.x = TRUE] ELSE [id |-> v[i].id, fl |-> d[CHOOSE x \in X : TRUE].fl, x |-> FALSE]]
Fresh(d, p, v) == SelectSeq(d, LAMBDA y : y.p = p /\ \A i \in 1..Len(v) : v[i].id # y.id)
View1(d, p, v) == Keep(d, p, v) \o [i \in 1..Len(Fresh(d, p, v)) |-> [id |-> Fresh(d, p, v)[i].id, fl |-> Fresh(d, p, v)[i].fl, x |-> FALSE]]
\* every open folder object of S is brought up to date
ScanAll(d, F, S) == [f \in 1..Len(F) |-> IF f \in S /\ F[f].open THEN [F[f] EXCEPT !.v = View1(d, F[f].path, F[f].v)] ELSE F[f]]
Same(F, p) == {f \in 1..Len(F) : F[f].open /\ F[f].path = p}
Added(F, G) == LET q == [f \in 1..Len(F) |-> IF Len(G[f].v) > Len(F[f].v) THEN <<Note(f, "added", [k \in 1..(Len(G[f].v) - Len(F[f].v)) |-> Len(F[f].v) + k])>> ELSE <<>>]
               IN q[1] \o (IF Len(F) > 1 THEN q[2] ELSE <<>>)
Without(v, S) == SelectSeq([i \in 1..Len(v) |-> [y |-> v[i], i |-> i]], LAMBDA z : z.i \notin S)
Drop(v, S) == [i \in 1..Len(Without(v, S)) |-> Without(v, S)[i].y]

Take(e) == /\ ok' = (ok /\ Ok(Chk, s, e)) /\ s' = Nxt(s, e)
\* [op, d, F, H, e]: the outcome of one operation
Out(code, d, F, H, e) == /\ Take(e) /\ D' = d /\ fo' = F /\ h' = H /\ ops' = Append(ops, code) /\ n' = n + 1 /\ UNCHANGED end
Fails(code, o) == Out(code, D, fo, h, Ev(o @@ [ok |-> FALSE], D, fo, h, <<>>)) /\ UNCHANGED nid
C(a, b) == a \o ToString(b)
C2(a, b, c) == a \o ToString(b) \o "." \o ToString(c)

Open(f) == LET o == [op |-> "open", f |-> f, ro |-> FALSE] IN
  IF fo[f].open THEN Fails(C("o", f), o)
  ELSE LET d == Scan(D, fo[f].path) F == [fo EXCEPT ![f].open = TRUE, ![f].v = View1(d, fo[f].path, <<>>)] IN
       Out(C("o", f), d, F, h, Ev(o, d, F, h, <<>>)) /\ UNCHANGED nid
Status(f) ==
  LET p == fo[f].path d == IF fo[f].open THEN Scan(D, p) ELSE D
      F1 == ScanAll(d, fo, {f}) grown == Len(F1[f].v) > Len(fo[f].v)
      F == IF grown THEN ScanAll(d, F1, Same(fo, p)) ELSE F1
      cnt == IF fo[f].open THEN Len(F[f].v) ELSE Cardinality({i \in 1..Len(D) : D[i].p = p})
      un == IF fo[f].open THEN Cardinality({i \in 1..Len(F[f].v) : "S" \notin F[f].v[i].fl}) ELSE Cardinality({i \in 1..Len(D) : D[i].p = p /\ "S" \notin D[i].fl})
  IN Out(C("t", f), d, F, h, Ev([op |-> "status", f |-> f, cnt |-> cnt, unseen |-> un], d, F, h, Added(fo, F))) /\ UNCHANGED nid
Put(f, p, recs, o, code) ==   \* complete messages appear in p
  LET d == D \o recs dd == Scan(d, p)
      me == IF fo[f].path = p /\ fo[f].open THEN {f} ELSE {}
      F1 == [fo EXCEPT ![f].v = IF o.op = "add" THEN @ \o [i \in 1..Len(recs) |-> [id |-> recs[i].id, fl |-> recs[i].fl, x |-> FALSE]] ELSE @]
      F == ScanAll(dd, F1, IF o.op = "add" THEN Same(fo, p) \ {f} ELSE Same(fo, p))
  IN Out(code, IF o.op = "add" /\ Same(fo, p) \subseteq {f} THEN d ELSE dd, F, h, Ev(o, IF o.op = "add" /\ Same(fo, p) \subseteq {f} THEN d ELSE dd, F, h, Added(fo, F)))
Add(f, fl) ==
  LET o == [op |-> "add", f |-> f, c |-> nid, fl |-> FlSeq(fl), kind |-> 0, sfail |-> FALSE] code == "a" \o ToString(f) \o "." \o (IF "T" \in fl THEN "2" ELSE IF "S" \in fl THEN "1" ELSE "0") \o ".0" IN
  IF ~fo[f].open THEN Fails(code, o)
  ELSE Put(f, fo[f].path, <<[p |-> fo[f].path, w |-> "cur", id |-> Id(nid), fl |-> fl, c |-> nid]>>, o, code) /\ nid' = nid + 1
Copy(f, p, k) ==
  LET o == [op |-> "copy", f |-> f, p |-> p, nums |-> <<k>>] code == "y" \o ToString(f) \o "." \o (IF p = A THEN "1" ELSE "2") \o "." \o ToString(k) IN
  IF ~fo[f].open \/ k > Len(fo[f].v) THEN Fails(code, o)
  ELSE LET X == At(D, fo[f].path, fo[f].v[k].id, fo[f].v[k].fl) IN
       IF X = {} THEN Fails(code, o)
       ELSE Put(f, p, <<[p |-> p, w |-> "cur", id |-> Id(nid), fl |-> D[CHOOSE x \in X : TRUE].fl, c |-> D[CHOOSE x \in X : TRUE].c]>>, o, code) /\ nid' = nid + 1
Set(f, k, fl, mode) ==
  LET o == [op |-> "setflags", f |-> f, nums |-> <<k>>, fl |-> FlSeq(fl), mode |-> mode]
      code == "s" \o ToString(f) \o "." \o ToString(k) \o "." \o (IF "T" \in fl THEN "2" ELSE "1") \o "." \o ToString(mode) IN
  IF ~fo[f].open \/ k > Len(fo[f].v) THEN Fails(code, o)
  ELSE LET v == fo[f].v[k] p == fo[f].path X == At(D, p, v.id, v.fl) nf == ApplyFl(mode, v.fl, fl)
           moved == X # {} /\ nf # v.fl
           d == IF moved THEN [D EXCEPT ![CHOOSE x \in X : TRUE].fl = nf] ELSE D
           F == [g \in 1..Len(fo) |-> IF moved /\ fo[g].open /\ fo[g].path = p
                   THEN [fo[g] EXCEPT !.v = [i \in 1..Len(@) |-> IF @[i].id = v.id THEN [id |-> v.id, fl |-> nf, x |-> FALSE] ELSE @[i]]] ELSE fo[g]]
       IN Out(code, d, F, h, Ev(o, d, F, h, <<Note(f, "flags", <<k>>)>>)) /\ UNCHANGED nid
Expunge(f) ==
  LET o == [op |-> "expunge", f |-> f] IN
  IF ~fo[f].open THEN Fails(C("x", f), o)
  ELSE LET v == fo[f].v p == fo[f].path R == {i \in 1..Len(v) : v[i].x \/ "T" \in v[i].fl}
           ids == {v[i].id : i \in R}
           gone == {x \in 1..Len(D) : \E i \in R : x \in At(D, p, v[i].id, v[i].fl)}
           d == Drop(D, gone)
           RG(g) == IF g = f THEN R ELSE IF Renumber /\ fo[g].open /\ fo[g].path = p THEN {i \in 1..Len(fo[g].v) : fo[g].v[i].id \in ids} ELSE {}
           F == [g \in 1..Len(fo) |-> [fo[g] EXCEPT !.v = Drop(@, RG(g))]]
           H == [i \in 1..Len(h) |-> IF h[i].gone \/ IdxOf(F[h[i].f].v, h[i].id) # 0 THEN h[i] ELSE [h[i] EXCEPT !.gone = TRUE]]
           nt(g) == IF RG(g) = {} THEN <<>> ELSE <<Note(g, "removed", Sorted(RG(g)))>>
       IN Out(C("x", f), d, F, H, Ev(o, d, F, H, nt(1) \o (IF Len(fo) > 1 THEN nt(2) ELSE <<>>))) /\ UNCHANGED nid
Get(f, k) ==
  LET o == [op |-> "get", f |-> f, n |-> k, h |-> Len(h) + 1] IN
  IF ~fo[f].open \/ k > Len(fo[f].v) THEN Fails(C2("g", f, k), o)
  ELSE LET H == Append(h, [f |-> f, id |-> fo[f].v[k].id, gone |-> FALSE, last |-> k]) IN Out(C2("g", f, k), D, fo, H, Ev(o, D, fo, H, <<>>)) /\ UNCHANGED nid
Deliver(p) == LET d == Append(D, [p |-> p, w |-> "new", id |-> Id(nid), fl |-> {}, c |-> nid]) IN
  Out(IF p = A THEN "d1" ELSE "d2", d, fo, h, Ev([op |-> "xdeliver", p |-> p], d, fo, h, <<>>)) /\ nid' = nid + 1
Vanish == LET X == {i \in 1..Len(D) : D[i].p = A /\ D[i].w = "cur"} IN
  X # {} /\ LET d == Drop(D, {CHOOSE i \in X : \A j \in X : i <= j}) IN Out("r0", d, fo, h, Ev([op |-> "xremove", p |-> A], d, fo, h, <<>>)) /\ UNCHANGED nid
Folder(p) == LET F == Append(fo, [path |-> p, open |-> FALSE, v |-> <<>>]) IN
  Out(IF p = A THEN "n1" ELSE "n2", D, F, h, Ev([op |-> "folder", f |-> Len(F), p |-> p], D, F, h, <<>>)) /\ UNCHANGED nid

\* the store is connected first; every behaviour starts with a delivery and two open folder objects
Init == /\ LET e == Ev([op |-> "connect"], <<>>, <<>>, <<>>, <<>>) s0 == Init0([courier |-> FALSE]) IN s = Nxt(s0, e) /\ ok = Ok(Chk, s0, e)
        /\ ops = <<>> /\ n = 0 /\ D = <<>> /\ fo = <<>> /\ nid = 1 /\ end = FALSE /\ h = <<>>
Prefix5 == CASE n = 0 -> Deliver(A) [] n = 1 -> Folder(A) [] n = 2 -> Open(1) [] n = 3 -> (Folder(A) \/ Folder(B)) [] n = 4 -> Open(2) [] OTHER -> FALSE
Free == /\ n >= 5 /\ n < MaxOps + 5
        /\ \/ \E f \in 1..2 : \/ Status(f) \/ Expunge(f) \/ \E fl \in {{}, {"T"}} : Add(f, fl)
                             \/ \E k \in 1..2 : Set(f, k, {"T"}, 1) \/ Set(f, k, {"S"}, 0)
                             \/ \E p \in {A, B} : Copy(f, p, 1)
           \/ (Len(h) < 2 /\ \E k \in 1..2 : Get(1, k))
           \/ Deliver(A) \/ Vanish
Finish == /\ n = MaxOps + 5 /\ ~end /\ end' = TRUE
          /\ GenScripts => PrintT("SCRIPT " \o ToJson([ops |-> ops]))
          /\ UNCHANGED <<s, ok, ops, n, D, fo, nid, h>>
Next == (n < 5 /\ Prefix5) \/ Free \/ Finish
Sound == ok
=============================================================================
