-------------------------------- MODULE MsgSet --------------------------------
(* Message sets.  A number is the sequence of its decimal digits (numbers beyond TLC's integers matter here); a range is
   [t, a, b] with t = "n" (numbers) or "u" (unique ids); the last bound of an open range is "*".
   Ids are arbitrary text; an id which is a canonical decimal number denotes that number. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Canon(x) == x # <<>> /\ (\A i \in 1..Len(x) : x[i] \in 48..57) /\ (Len(x) = 1 \/ x[1] # 48)
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> \/ b = <<>> THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLt(Tail(a), Tail(b)))
Lt(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLt(a, b))
Le(a, b) == a = b \/ Lt(a, b)
RECURSIVE Succ(_)
Succ(a) == IF a = <<>> THEN <<49>> ELSE IF a[Len(a)] < 57 THEN [a EXCEPT ![Len(a)] = @ + 1] ELSE Append(Succ(SubSeq(a, 1, Len(a) - 1)), 48)
STAR == <<42>>
\* every number of a..b is in L
RECURSIVE Within(_, _, _, _)
Within(a, b, L, fuel) == IF a \notin L \/ fuel = 0 THEN FALSE ELSE a = b \/ Within(Succ(a), b, L, fuel - 1)
\* the set denoted by a list of ranges is exactly the finite set L of ids
Exactly(rs, L) ==
  /\ \A j \in 1..Len(rs) : /\ rs[j].b # STAR
                           /\ \/ rs[j].a = rs[j].b /\ rs[j].a \in L
                              \/ Canon(rs[j].a) /\ Canon(rs[j].b) /\ Lt(rs[j].a, rs[j].b) /\ Within(rs[j].a, rs[j].b, L, Cardinality(L))
  /\ \A x \in L : \E j \in 1..Len(rs) : x = rs[j].a \/ (Canon(x) /\ Canon(rs[j].a) /\ Canon(rs[j].b) /\ Le(rs[j].a, x) /\ Le(x, rs[j].b))
Homog(rs, t) == \A j \in 1..Len(rs) : rs[j].t = t
ZERO == <<48>>
BadRange(a, b) == a = ZERO \/ a = STAR \/ (b # STAR /\ Lt(b, a))
Elems(l) == {l[j] : j \in 1..Len(l)}
Make(e) ==
  CASE e.k = "numr" -> IF BadRange(e.a, e.b) THEN e.thrown ELSE ~e.thrown /\ e.rs = <<[t |-> "n", a |-> e.a, b |-> e.b]>>
    [] e.k = "num1" -> IF e.a = ZERO THEN e.thrown ELSE ~e.thrown /\ e.rs = <<[t |-> "n", a |-> e.a, b |-> e.a]>>
    [] e.k = "numl" -> IF ZERO \in Elems(e.l) \/ STAR \in Elems(e.l) THEN e.thrown
                       ELSE ~e.thrown /\ Homog(e.rs, "n") /\ Exactly(e.rs, Elems(e.l))
    [] e.k = "uid1" -> ~e.thrown /\ e.rs = <<[t |-> "u", a |-> e.a, b |-> e.a]>>
    [] e.k = "uidr" -> ~e.thrown /\ e.rs = <<[t |-> "u", a |-> e.a, b |-> e.b]>>
    [] e.k = "uidl" -> ~e.thrown /\ Homog(e.rs, "u") /\ Exactly(e.rs, Elems(e.l))
    [] e.k = "empty" -> ~e.thrown /\ e.rs = <<>>
Add(rs, e) == IF rs # <<>> /\ rs[1].t # e.r.t THEN <<rs, TRUE>> ELSE <<Append(rs, e.r), FALSE>>
\* what a server understands from an IMAP sequence set: items separated by commas, a or a:b
Colon == 58
Comma == 44
Split(x, c) == LET P == {i \in 1..Len(x) : x[i] = c}
                   E == SetToSortSeq(P \cup {Len(x) + 1}, <)
               IN [n \in 1..Len(E) |-> SubSeq(x, IF n = 1 THEN 1 ELSE E[n - 1] + 1, E[n] - 1)]
Item(y) == LET q == Split(y, Colon) IN IF Len(q) = 1 THEN <<q[1], q[1]>> ELSE IF Len(q) = 2 THEN <<q[1], q[2]>> ELSE <<>>
SeqSet(x) == LET y == Split(x, Comma) IN [n \in 1..Len(y) |-> Item(y[n])]
Num(d) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, d)
\* numbers of a set, in order, for a folder of n messages
List(rs, n) == FlattenSeq([j \in 1..Len(rs) |-> LET a == Num(rs[j].a) b == IF rs[j].b = STAR THEN n ELSE Num(rs[j].b)
                                                IN [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]])
Init0(cfg) == [A |-> <<>>, B |-> <<>>]
Info(rs, e) == /\ e.rs = rs /\ e.count = Len(rs) /\ e.empty = (rs = <<>>)
               /\ e.num = (rs # <<>> /\ rs[1].t = "n") /\ e.uid = (rs # <<>> /\ rs[1].t = "u")
               /\ e.en = rs
Ok(Chk, s, e) ==
  CASE e.e = "make" -> Make(e)
    [] e.e = "add" -> LET r == Add(s[e.h], e) IN e.thrown = r[2] /\ e.rs = r[1]
    [] e.e = "copy" -> e.A = (IF e.h = "A" THEN s[e.src] ELSE s.A) /\ e.B = (IF e.h = "B" THEN s[e.src] ELSE s.B)
    [] e.e = "info" -> Info(s[e.h], e)
    [] e.e = "seqset" -> s[e.h] # <<>> => SeqSet(e.x) = [j \in 1..Len(s[e.h]) |-> <<s[e.h][j].a, s[e.h][j].b>>]
    [] e.e = "list" -> e.l = List(s[e.h], e.n)
    [] OTHER -> FALSE
Nxt(s, e) ==
  CASE e.e = "make" -> [s EXCEPT ![e.h] = IF e.thrown THEN @ ELSE e.rs]
    [] e.e = "add" -> [s EXCEPT ![e.h] = e.rs]
    [] e.e = "copy" -> [A |-> e.A, B |-> e.B]
    [] OTHER -> s
=============================================================================
