------------------------------- MODULE Adapters -------------------------------
(* Stream adapters over known data: position, end of stream and bytes delivered for any sequence of reads, skips,
   seeks and resets; sinks; copy helpers; searching. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Min2(a, b) == IF a < b THEN a ELSE b
Sub(x, from, n) == SubSeq(x, from + 1, Min2(from + n, Len(x)))   \* from is 0-based
At(x, p, q) == p + Len(q) <= Len(x) /\ \A k \in 1..Len(q) : x[p + k] = q[k]
RangeE(a, b) == a..b
Find(x, p, q) == LET P == {i \in p..(Len(x) - Len(q)) : At(x, i, q)} IN IF P = {} THEN -1 ELSE Min(P)
RECURSIVE Run(_, _, _, _)
Run(x, p, end, set) == IF p < end /\ p < Len(x) /\ x[p + 1] \in set THEN Run(x, p + 1, end, set) ELSE p
\* s.pos = position; s.short = the adapter may deliver less than asked; s.end = the last read delivered nothing
Init0(cfg) == [x |-> cfg.x, pos |-> 0, short |-> cfg.short, late |-> cfg.late, hit |-> FALSE, sink |-> <<>>]
\* eof() may be noticed only when a read comes back short
EofOk(s, e) == /\ e.eof => s.pos = Len(s.x)
               /\ (s.pos = Len(s.x) /\ (~s.late \/ s.hit)) => e.eof
Nxt(s, e) ==
  CASE e.e = "read"  -> [s EXCEPT !.pos = @ + Len(e.o), !.hit = IF e.n = 0 THEN @ ELSE IF s.short THEN Len(e.o) = 0 ELSE Len(e.o) < e.n]
    [] e.e = "skip"  -> [s EXCEPT !.pos = @ + e.ret, !.hit = IF e.n = 0 THEN @ ELSE e.ret = 0 \/ (~s.short /\ e.ret < e.n)]
    [] e.e = "seek"  -> [s EXCEPT !.pos = e.p, !.hit = FALSE]
    [] e.e = "reset" -> [s EXCEPT !.pos = 0, !.hit = FALSE]
    [] e.e = "byte"  -> [s EXCEPT !.pos = Min2(@ + 1, Len(s.x)), !.hit = (s.pos = Len(s.x))]
    [] e.e = "skipif" -> [s EXCEPT !.pos = @ + e.ret, !.hit = FALSE]
    [] e.e \in {"peek", "match", "extract", "find"} -> [s EXCEPT !.hit = FALSE]
    [] e.e = "write" -> [s EXCEPT !.sink = @ \o e.w]
    [] e.e = "copy" -> [s EXCEPT !.pos = Len(s.x), !.hit = TRUE]
    [] e.e = "copyr" -> [s EXCEPT !.pos = Min2(Min2(@ + e.start, Len(s.x)) + e.n, Len(s.x)), !.hit = FALSE]
    [] OTHER -> s
\* after every event: position and end of stream
After(s, e) == LET t == Nxt(s, e) IN /\ ("pos" \in DOMAIN e => e.pos = t.pos)
                                     /\ ("eof" \in DOMAIN e => (e.e \in {"peek", "match", "extract", "find", "skipif"} \/ EofOk(t, e)))
Ok(Chk, s, e) ==
  /\ CASE e.e = "read" -> /\ e.o = Sub(s.x, s.pos, Len(e.o)) /\ Len(e.o) <= e.n
                          /\ IF s.short THEN (e.n > 0 /\ s.pos < Len(s.x)) => Len(e.o) > 0
                             ELSE Len(e.o) = Min2(e.n, Len(s.x) - s.pos)
       [] e.e = "skip" -> e.ret = Min2(e.n, Len(s.x) - s.pos)
       [] e.e \in {"seek", "reset"} -> TRUE
       [] e.e = "peek" -> e.o = (IF s.pos < Len(s.x) THEN s.x[s.pos + 1] ELSE 0)
       [] e.e = "byte" -> e.o = (IF s.pos < Len(s.x) THEN s.x[s.pos + 1] ELSE 0)
       [] e.e = "match" -> e.ret = At(s.x, s.pos, e.q)
       [] e.e = "extract" -> e.o = Sub(s.x, e.a, e.b - e.a)
       [] e.e = "find" -> e.ret = Find(s.x, e.p, e.q)
       [] e.e = "skipif" -> e.ret = Run(s.x, s.pos, e.end, {9, 10, 13, 32}) - s.pos
       [] e.e = "write" -> e.total = s.sink \o e.w
       [] e.e = "copy" -> /\ e.o = Sub(s.x, s.pos, Len(s.x)) /\ e.ret = Len(e.o)
                          /\ ("prog" \in DOMAIN e => \A i \in 1..Len(e.prog) : /\ e.prog[i][1] <= e.prog[i][2]
                                                                              /\ (i > 1 => e.prog[i - 1][1] < e.prog[i][1])
                                                                              /\ (i = Len(e.prog) => e.prog[i][1] = e.ret))
       [] e.e = "copyr" -> /\ e.o = Sub(s.x, s.pos + e.start, e.n) /\ e.ret = Len(e.o)
       [] OTHER -> FALSE
  /\ After(s, e)
=============================================================================
