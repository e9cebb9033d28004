------------------------------- MODULE Filters -------------------------------
(* Stream filters: what the total output must be for a total input, and what may have been delivered at any point.
   A trace is a list of runs of one filter; each run records the pieces the data was cut into (writes, or what the
   source returned for each read) and what came out of each step. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CR == 13
LF == 10
DOT == 46
Cat(f, n) == FlattenSeq([i \in 1..n |-> f[i]])

\* dot stuffing; lead: a dot at the very beginning is always doubled (otherwise only when alone on its line)
Stuff(x, lead) ==
  Cat([i \in 1..Len(x) |-> IF x[i] = DOT /\ (\/ i > 1 /\ x[i - 1] = LF
                                             \/ i = 1 /\ (lead \/ (Len(x) > 1 /\ x[2] \in {CR, LF})))
                           THEN <<DOT, DOT>> ELSE <<x[i]>>], Len(x))
\* "\n.." becomes "\n."
Unstuff(x) == Cat([i \in 1..Len(x) |-> IF x[i] = DOT /\ i > 2 /\ x[i - 1] = DOT /\ x[i - 2] = LF THEN <<>> ELSE <<x[i]>>], Len(x))
CrlfToLf(x) == Cat([i \in 1..Len(x) |-> IF x[i] = CR /\ i < Len(x) /\ x[i + 1] = LF THEN <<>> ELSE <<x[i]>>], Len(x))
LfToCrlf(x) == Cat([i \in 1..Len(x) |-> IF x[i] = CR THEN <<CR, LF>>
                                        ELSE IF x[i] # LF THEN <<x[i]>>
                                        ELSE IF i > 1 /\ x[i - 1] = CR THEN <<>> ELSE <<CR, LF>>], Len(x))
At(x, i, q) == i + Len(q) - 1 <= Len(x) /\ \A k \in 1..Len(q) : x[i + k - 1] = q[k]
Stop(x, q) == LET P == {i \in 1..Len(x) : At(x, i, q)} IN
              IF P = {} THEN x ELSE SubSeq(x, 1, (CHOOSE i \in P : \A j \in P : i <= j) - 1)
F(kind, x, q) ==
  CASE kind = "stuff"  -> Stuff(x, FALSE)
    [] kind = "stuff1" -> Stuff(x, TRUE)
    [] kind = "unstuff" -> Unstuff(x)
    [] kind = "tolf"   -> CrlfToLf(x)
    [] kind = "tocrlf" -> LfToCrlf(x)
    [] kind = "stop"   -> Stop(x, q)

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* an output filter: st = <<[w |-> bytes written, o |-> what reached the sink]>>, fl = what a final flush delivered
RunOut(e) == LET x == Cat([i \in 1..Len(e.st) |-> e.st[i].w], Len(e.st))
                 y == F(e.k, x, e.q)
                 OutUpTo(n) == Cat([i \in 1..n |-> e.st[i].o], n)
             IN /\ \A n \in 1..Len(e.st) : Prefix(OutUpTo(n), y)
                /\ OutUpTo(Len(e.st)) \o e.fl = y
\* an input filter: st = <<[n |-> asked, o |-> delivered, eof |-> eof() after]>>, x = everything the source had
RunIn(e) == LET y == F(e.k, e.x, e.q)
                OutUpTo(n) == Cat([i \in 1..n |-> e.st[i].o], n)
            IN /\ \A n \in 1..Len(e.st) : /\ Len(e.st[n].o) <= e.st[n].n
                                          /\ Prefix(OutUpTo(n), y)
                                          /\ (e.st[n].eof => OutUpTo(n) = y)
               /\ e.end /\ OutUpTo(Len(e.st)) = y
Init0(cfg) == [x |-> 0]
Ok(Chk, s, e) ==
  CASE e.e = "out" -> RunOut(e)
    [] e.e = "in"  -> RunIn(e)
    [] OTHER -> FALSE
Nxt(s, e) == s
=============================================================================
