-------------------------------- MODULE Header --------------------------------
(* A header is one sequence of fields; a field is an object (identity i) with a name, compared without case (k), and a
   value.  Two headers, A and B, so that copies are seen.  Every event carries what both headers contain afterwards. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Idx(q, i) == IF \E j \in 1..Len(q) : q[j].i = i THEN CHOOSE j \in 1..Len(q) : q[j].i = i /\ \A l \in 1..(j - 1) : q[l].i # i ELSE 0
First(q, k) == IF \E j \in 1..Len(q) : q[j].k = k THEN CHOOSE j \in 1..Len(q) : q[j].k = k /\ \A l \in 1..(j - 1) : q[l].k # k ELSE 0
Ins(q, p, f) == SubSeq(q, 1, p - 1) \o <<f>> \o SubSeq(q, p, Len(q))       \* f becomes element p
Del(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
Ids(q) == {q[j].i : j \in 1..Len(q)}
NoId(q) == [j \in 1..Len(q) |-> [k |-> q[j].k, v |-> q[j].v]]
Init0(cfg) == [A |-> <<>>, B |-> <<>>, known |-> {}]
Other(h) == IF h = "A" THEN "B" ELSE "A"
\* f: the new field given by the event as a record [i, k, v]
Res(q, e) ==
  CASE e.e = "app"  -> [q |-> Append(q, e.f), ok |-> TRUE]
    [] e.e = "insb" -> LET p == Idx(q, e.r) IN IF p = 0 THEN [q |-> q, ok |-> FALSE] ELSE [q |-> Ins(q, p, e.f), ok |-> TRUE]
    [] e.e = "insa" -> LET p == Idx(q, e.r) IN IF p = 0 THEN [q |-> q, ok |-> FALSE] ELSE [q |-> Ins(q, p + 1, e.f), ok |-> TRUE]
    [] e.e = "insbi" -> [q |-> Ins(q, e.p + 1, e.f), ok |-> TRUE]
    [] e.e = "insai" -> [q |-> Ins(q, e.p + 2, e.f), ok |-> TRUE]
    [] e.e = "rep"  -> LET p == Idx(q, e.r) IN IF p = 0 THEN [q |-> q, ok |-> FALSE] ELSE [q |-> [q EXCEPT ![p] = e.f], ok |-> TRUE]
    [] e.e = "rm"   -> LET p == Idx(q, e.r) IN IF p = 0 THEN [q |-> q, ok |-> FALSE] ELSE [q |-> Del(q, p), ok |-> TRUE]
    [] e.e = "rmi"  -> [q |-> Del(q, e.p + 1), ok |-> TRUE]
    [] e.e = "rmn"  -> [q |-> SelectSeq(q, LAMBDA f : f.k # e.k), ok |-> TRUE]
    [] e.e = "clear" -> [q |-> <<>>, ok |-> TRUE]
    [] e.e = "get"  -> IF First(q, e.k) # 0 THEN [q |-> q, ok |-> TRUE] ELSE [q |-> Append(q, [i |-> e.ret, k |-> e.k, v |-> ""]), ok |-> TRUE]
    [] e.e = "set"  -> [q |-> [j \in 1..Len(q) |-> IF q[j].i = e.r THEN [q[j] EXCEPT !.v = e.v] ELSE q[j]], ok |-> TRUE]
    [] OTHER -> [q |-> q, ok |-> TRUE]
Ret(s, q, e) ==
  CASE e.e = "get"  -> LET p == First(q, e.k) IN IF p = 0 THEN e.ret \notin s.known ELSE e.ret = q[p].i
    [] e.e = "find" -> e.ret = (LET p == First(q, e.k) IN IF p = 0 THEN 0 ELSE q[p].i)
    [] e.e = "has"  -> e.ret = (First(q, e.k) # 0)
    [] e.e = "all"  -> e.ret = [j \in 1..Len(SelectSeq(q, LAMBDA f : f.k = e.k)) |-> SelectSeq(q, LAMBDA f : f.k = e.k)[j].i]
    [] e.e = "info" -> /\ e.count = Len(q) /\ e.empty = (q = <<>>) /\ e.list = [j \in 1..Len(q) |-> q[j].i] /\ e.at = e.list /\ e.kids = e.list
    [] OTHER -> TRUE
Copy(s, e) == \* h becomes a deep copy of src: same names and values, new objects
  LET q == s[e.src] n == e[e.h] IN
  /\ NoId(n) = NoId(q)
  /\ Cardinality(Ids(n)) = Cardinality(Ids(q))
  /\ (e.h # e.src => Ids(n) \cap s.known = {})
  /\ e[Other(e.h)] = s[Other(e.h)]
Ok(Chk, s, e) ==
  CASE e.e = "copy" -> Copy(s, e)
    [] e.e = "set" -> /\ e.A = Res(s.A, e).q /\ e.B = Res(s.B, e).q
    [] OTHER -> LET r == Res(s[e.h], e) IN
                /\ e.thrown = ~r.ok
                /\ e[e.h] = r.q /\ e[Other(e.h)] = s[Other(e.h)]
                /\ Ret(s, s[e.h], e)
Nxt(s, e) == [A |-> e.A, B |-> e.B, known |-> s.known \cup Ids(e.A) \cup Ids(e.B) \cup (IF "f" \in DOMAIN e THEN {e.f.i} ELSE {})]
=============================================================================
