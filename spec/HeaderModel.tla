----------------------------- MODULE HeaderModel -----------------------------
(* The container as an algorithm on a vector (replace = insert before, then remove; removing by name = collect, then
   remove one object at a time) against Header.tla, for every sequence of MaxOps operations on a header which starts
   with three fields named x, y, x. *)
EXTENDS Header, Json
CONSTANTS MaxOps, Collect, GenScripts
Names == {"x", "y"}
VARIABLES q, spec, next, ops
vars == <<q, spec, next, ops>>
F(i, k) == [i |-> i, k |-> k, v |-> ""]
Init == q = <<F(1, "x"), F(2, "y"), F(3, "x")>> /\ spec = q /\ next = 4 /\ ops = <<>>
RemoveObj(v, i) == LET p == Idx(v, i) IN IF p = 0 THEN v ELSE Del(v, p)
Impl(v, e) ==
  CASE e.e = "rep" -> LET p == Idx(v, e.r) IN IF p = 0 THEN v ELSE RemoveObj(Ins(v, p, e.f), e.r)
    [] e.e = "rmn" -> IF Collect THEN FoldLeft(LAMBDA a, f : RemoveObj(a, f.i), v, SelectSeq(v, LAMBDA f : f.k = e.k))
                      ELSE LET p == First(v, e.k) IN IF p = 0 THEN v ELSE Del(v, p)
    [] OTHER -> Res(v, e).q
Do(e, txt) == /\ q' = Impl(q, e) /\ spec' = Res(spec, e).q /\ ops' = Append(ops, txt) /\ next' = next + 1
T(n) == ToString(n)
Next ==
  \/ /\ Len(ops) < MaxOps
     /\ \/ \E k \in Names : \/ Do([e |-> "app", f |-> F(next, k)], "app," \o k)
                            \/ Do([e |-> "rmn", k |-> k], "rmn," \o k)
                            \/ Do([e |-> "get", k |-> k, ret |-> next], "get," \o k)
                            \/ \E r \in 1..4 : \/ Do([e |-> "insb", r |-> r, f |-> F(next, k)], "insb," \o k \o "," \o T(r))
                                               \/ Do([e |-> "insa", r |-> r, f |-> F(next, k)], "insa," \o k \o "," \o T(r))
                                               \/ Do([e |-> "rep", r |-> r, f |-> F(next, k)], "rep," \o k \o "," \o T(r))
                            \/ \E p \in {0, Len(q)} : p <= Len(q) /\ Do([e |-> "insbi", p |-> p, f |-> F(next, k)], "insbi," \o k \o "," \o T(p))
                            \/ \E p \in {0, Len(q) - 1} : p >= 0 /\ p < Len(q) /\ Do([e |-> "insai", p |-> p, f |-> F(next, k)], "insai," \o k \o "," \o T(p))
        \/ \E r \in 1..4 : Do([e |-> "rm", r |-> r], "rm," \o T(r))
        \/ \E p \in {0, 1} : p < Len(q) /\ Do([e |-> "rmi", p |-> p], "rmi," \o T(p))
        \/ Do([e |-> "clear"], "clear")
        \/ \E r \in {1, 4} : Do([e |-> "set", r |-> r, v |-> "new"], "set," \o T(r))
        \/ ops' = Append(ops, "copy") /\ UNCHANGED <<q, spec, next>>
  \/ /\ GenScripts /\ Len(ops) = MaxOps /\ PrintT("SCRIPT " \o ToJson([ops |-> ops])) /\ FALSE /\ UNCHANGED vars
Sound == q = spec /\ \A i, j \in 1..Len(q) : i # j => q[i].i # q[j].i
=============================================================================
