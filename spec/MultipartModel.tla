---------------------------- MODULE MultipartModel ----------------------------
(* A parser as an algorithm: look for the boundary string anywhere, then look at the bytes around it.  Checked against
   Multipart.tla for every sequence of at most MaxLen lines, in a message whose boundary is "A", with nested entities
   whose boundary is "A--b".  Limited: the search stops at the end of the stretch.  Strict: a delimiter closes the body
   only once the whole line has been seen to be one. *)
EXTENDS Multipart, Json
CONSTANTS MaxLen, Limited, Strict, GenScripts
VARIABLES toks, done
vars == <<toks, done>>
B1 == <<65>>
B2 == <<65, 45, 45, 98>>
Tokens == {"o", "c", "q", "Q", "n", "t", "e", "j", "w", "W"}
CR == <<13, 10>>
Bytes(t) ==
  CASE t = "o" -> <<45, 45>> \o B1 \o CR
    [] t = "c" -> <<45, 45>> \o B1 \o <<45, 45>> \o CR
    [] t = "q" -> <<45, 45>> \o B2 \o CR
    [] t = "Q" -> <<45, 45>> \o B2 \o <<45, 45>> \o CR
    [] t = "n" -> MPB \o B2 \o <<34>> \o CR \o CR
    [] t = "t" -> <<116>> \o CR
    [] t = "e" -> CR
    [] t = "j" -> <<45, 45>> \o B1 \o <<45>> \o CR
    [] t = "w" -> <<45, 45>> \o B1 \o <<32>> \o CR
    [] OTHER   -> <<45, 45>> \o B1 \o <<45, 45, 9, 10>>
Pre == MPB \o B1 \o <<34>> \o CR \o CR
X == Pre \o FlattenSeq([i \in 1..Len(toks) |-> Bytes(toks[i])])
\* --- the algorithm
RECURSIVE Find(_, _, _, _)
Find(s, p, to, b) ==       \* [p: where the boundary was found (or 0), a: the end of what precedes, n: after the boundary string]
  LET lim == IF Limited THEN to ELSE Len(s)
      c == {q \in p..lim : Eq(s, q, lim, b)}
      q == CHOOSE q \in c : \A r \in c : q <= r
  IN IF p > to \/ c = {} THEN [p |-> 0, a |-> 0, n |-> 0]
     ELSE IF /\ q > 3 /\ Eq(s, q - 3, lim, <<10, 45, 45>>)
             /\ (q + Len(b) > Len(s) \/ (Limited /\ q + Len(b) > to) \/ s[q + Len(b)] \in {32, 9, 13, 10, 45})
          THEN [p |-> q, a |-> (IF q > 4 /\ s[q - 4] = 13 THEN q - 5 ELSE q - 4), n |-> q + Len(b)]
          ELSE Find(s, q + 1, to, b)
RECURSIVE Walk(_, _, _, _, _, _, _)
\* the stretches: [pro, ps, epi] of the body; f: the boundary found last, start: where the current part started
Walk(s, f, to, b, start, acc, first) ==
  IF f.p = 0 THEN [acc EXCEPT !.ps = IF start <= to THEN Append(@, <<start, to>>) ELSE @]
  ELSE IF f.p > to THEN [acc EXCEPT !.epi = IF start <= to THEN SubSeq(s, start, to) ELSE <<>>]      \* found outside: the rest is taken for the epilog
  ELSE LET last == Eq(s, f.n, to, <<45, 45>>)
           e == SkipWs(s, IF last THEN f.n + 2 ELSE f.n, to)
           nl == IF e > to THEN e ELSE IF s[e] = 10 THEN e + 1 ELSE IF Eq(s, e, to, <<13, 10>>) THEN e + 2 ELSE 0
           le == LineEnd(s, e, to)
           acc2 == IF first THEN [acc EXCEPT !.pro = IF f.a >= start THEN SubSeq(s, start, f.a) ELSE <<>>]
                   ELSE [acc EXCEPT !.ps = Append(@, <<start, f.a>>)]
       IN IF nl = 0
          THEN IF last /\ ~Strict THEN [acc EXCEPT !.epi = SubSeq(s, start, to)]
               ELSE Walk(s, Find(s, IF le = 0 THEN to + 1 ELSE le, to, b), to, b, start, acc, first)
          ELSE IF last THEN [acc2 EXCEPT !.epi = SubSeq(s, nl, to)]
          ELSE Walk(s, Find(s, nl, to, b), to, b, nl, acc2, FALSE)
RECURSIVE Impl(_, _, _)
Impl(s, from, to) ==
  LET h == Header(s, from, to, <<>>)
      b == Boundary(s, h, to)
      w == Walk(s, Find(s, h.b, to, b), to, b, h.b, [pro |-> <<>>, ps |-> <<>>, epi |-> <<>>], TRUE)
  IN [f |-> h.f, a |-> from, z |-> to, hb |-> h.b,
      body |-> IF b = <<>> \/ h.b > to THEN [mp |-> FALSE, c |-> SubSeq(s, h.b, to)]
               ELSE [mp |-> TRUE, b |-> b, pro |-> w.pro, epi |-> w.epi, p |-> [i \in 1..Len(w.ps) |-> Impl(s, w.ps[i][1], w.ps[i][2])]]]
RECURSIVE Shape(_)      \* without the positions of empty entities
Shape(t) == [f |-> t.f, r |-> IF t.z < t.a THEN <<>> ELSE <<t.a, t.z, t.hb>>,
             c |-> IF t.body.mp THEN [mp |-> TRUE, b |-> t.body.b, pro |-> t.body.pro, epi |-> t.body.epi, p |-> [i \in 1..Len(t.body.p) |-> Shape(t.body.p[i])]] ELSE t.body]
\* --- statements about the specification itself: the stretches of a body and its delimiter lines are all of it
RECURSIVE Tiles(_, _)
Tiles(s, t) ==
  ~t.body.mp \/
  LET ds == Delims(s, t.hb, t.z, t.body.b) n == Len(ds) p == t.body.p IN
  /\ \A i \in 1..Len(p) : /\ Tiles(s, p[i])
                          /\ \A q \in p[i].a..p[i].z : (q > 1 /\ s[q - 1] = 10) => Delim(s, q, t.z, t.body.b).k = "none"
  /\ n > 0 => /\ \A i \in 1..Len(p) : p[i].a = ds[i].n /\ (IF i < n THEN ds[i + 1].p - p[i].z \in 1..3 ELSE p[i].z = t.z)
              /\ ds[n].k = "close" => Len(p) = n - 1 /\ Len(t.body.epi) = t.z - ds[n].n + 1
Init == toks = <<>> /\ done = FALSE
Next == \/ /\ Len(toks) < MaxLen /\ ~done /\ \E t \in Tokens : toks' = Append(toks, t) /\ UNCHANGED done
        \/ /\ GenScripts /\ ~done /\ PrintT("SCRIPT " \o ToJson([x |-> toks])) /\ FALSE /\ UNCHANGED vars
Sound == LET x == X t == Entity(x, 1, Len(x)) IN Shape(Impl(x, 1, Len(x))) = Shape(t) /\ Tiles(x, t)
=============================================================================
