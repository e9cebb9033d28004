---------------------------- MODULE GenerateModel ----------------------------
(* The trees as the code keeps them, a list of parts in every body and a pointer from every part to its parent, against
   Generate.tla, for every sequence of MaxOps operations on a root and three loose parts.  A part which is put in
   somewhere is first taken out of the body its pointer leads to.  Reset: taking out a part clears its pointer. *)
EXTENDS Generate, Json
CONSTANTS MaxOps, Reset, GenScripts
Parts == 2..4
VARIABLES l, up, spec, bad, ops
vars == <<l, up, spec, bad, ops>>
Init == l = [p \in 1..4 |-> <<>>] /\ up = [p \in 1..4 |-> 0] /\ spec = l /\ bad = FALSE /\ ops = <<>>
Has(q, n) == \E i \in 1..Len(q) : q[i] = n
In(k, n) == {p \in 1..4 : Has(k[p], n)}
Off(k, p, n) == [k EXCEPT ![p] = SelectSeq(@, LAMBDA x : x # n)]
Put(e) ==
  LET lost == up[e.n] # 0 /\ ~Has(l[up[e.n]], e.n)                \* the pointer leads to a body which does not have it
      k == IF up[e.n] = 0 \/ lost THEN l ELSE Off(l, up[e.n], e.n)
      q == k[e.p]
      r == CASE e.k = "append" -> Append(q, e.n)
             [] e.k = "before" -> Ins(q, Pos(q, e.at), e.n)
             [] e.k = "after" -> Ins(q, Pos(q, e.at) + 1, e.n)
             [] e.k = "beforeat" -> Ins(q, e.at, e.n)
             [] OTHER -> Ins(q, e.at + 1, e.n)
  IN /\ bad' = (bad \/ lost)
     /\ l' = IF lost THEN l ELSE [k EXCEPT ![e.p] = r]
     /\ up' = IF lost THEN up ELSE [up EXCEPT ![e.n] = e.p]
Take(e) ==
  LET out == CASE e.k = "rm" -> {e.n} [] e.k = "rmat" -> {l[e.p][e.at]} [] OTHER -> {l[e.p][i] : i \in 1..Len(l[e.p])} IN
  /\ bad' = bad
  /\ l' = [l EXCEPT ![e.p] = SelectSeq(@, LAMBDA x : x \notin out)]
  /\ up' = [n \in 1..4 |-> IF n \in out /\ Reset THEN 0 ELSE up[n]]
Do(e) ==
  /\ spec' = After(spec, e)
  /\ IF e.k \in {"rm", "rmat", "clear"} THEN Take(e) ELSE Put(e)
  /\ ops' = Append(ops, e.k \o " " \o ToString(e.p) \o " " \o ToString(e.n) \o " " \o ToString(e.at))
E(k, p, n, at) == [k |-> k, p |-> p, n |-> n, at |-> at]
Next ==
  \/ /\ Len(ops) < MaxOps /\ ~bad
     /\ \E p \in 1..4 :
          \/ \E n \in Parts : /\ p \notin Under(spec, n)
                              /\ \/ Do(E("append", p, n, 0))
                                 \/ \E r \in {spec[p][i] : i \in 1..Len(spec[p])} \ {n} : Do(E("before", p, n, r)) \/ Do(E("after", p, n, r))
                                 \/ /\ In(spec, n) = {}
                                    /\ \E i \in 1..Len(spec[p]) : Do(E("beforeat", p, n, i)) \/ Do(E("afterat", p, n, i))
          \/ \E n \in {spec[p][i] : i \in 1..Len(spec[p])} : Do(E("rm", p, n, 0))
          \/ \E i \in 1..Len(spec[p]) : Do(E("rmat", p, 0, i))
          \/ spec[p] # <<>> /\ Do(E("clear", p, 0, 0))
  \/ /\ GenScripts /\ Len(ops) = MaxOps /\ PrintT("SCRIPT " \o ToJson([ops |-> ops])) /\ FALSE /\ UNCHANGED vars
Sound == ~bad /\ l = spec /\ (\A n \in Parts : Cardinality(In(l, n)) <= 1) /\ (\A n \in Parts : up[n] # 0 <=> In(l, n) # {}) /\ \A n \in Parts : up[n] # 0 => In(l, n) = {up[n]}
=============================================================================
