------------------------------ MODULE Multipart ------------------------------
(* What a MIME entity is made of: an entity (message or body part) is a stretch of bytes, a header followed by a body;
   the body of a multipart entity is cut at the delimiter lines of its boundary into a prolog, parts (entities again)
   and an epilog.  A delimiter counts only as one complete line of the body: "--" boundary, "--" for the last one, white
   space, line end (or the end of the enclosing stretch).  The line end before a delimiter belongs to the delimiter.
   All positions are 1-based and the ends inclusive; s is the byte sequence. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
PM == INSTANCE ParamText
Eq(s, p, to, q) == p + Len(q) - 1 <= to /\ \A i \in 1..Len(q) : s[p + i - 1] = q[i]
RECURSIVE LineEnd(_, _, _)      \* where the line which contains p ends (its LF), or 0
LineEnd(s, p, to) == IF p > to THEN 0 ELSE IF s[p] = 10 THEN p ELSE LineEnd(s, p + 1, to)
RECURSIVE SkipWs(_, _, _)
SkipWs(s, p, to) == IF p <= to /\ s[p] \in {32, 9} THEN SkipWs(s, p + 1, to) ELSE p
\* the delimiter line at p, a line start: [k: kind, p: its start, n: the position after it]
Delim(s, p, to, b) ==
  LET none == [k |-> "none", p |-> p, n |-> p] IN
  IF ~Eq(s, p, to, <<45, 45>> \o b) THEN none
  ELSE LET q == p + 2 + Len(b)
           last == Eq(s, q, to, <<45, 45>>)
           e == SkipWs(s, IF last THEN q + 2 ELSE q, to)
           k == IF last THEN "close" ELSE "open"
       IN IF e > to THEN [k |-> k, p |-> p, n |-> to + 1]
          ELSE IF s[e] = 10 THEN [k |-> k, p |-> p, n |-> e + 1]
          ELSE IF Eq(s, e, to, <<13, 10>>) THEN [k |-> k, p |-> p, n |-> e + 2]
          ELSE none
RECURSIVE Delims(_, _, _, _)    \* the delimiter lines, in order, up to the closing one
Delims(s, p, to, b) ==
  IF p > to THEN <<>>
  ELSE LET d == Delim(s, p, to, b) IN
       IF d.k = "close" THEN <<d>>
       ELSE IF d.k = "open" THEN <<d>> \o Delims(s, d.n, to, b)
       ELSE LET e == LineEnd(s, p, to) IN IF e = 0 THEN <<>> ELSE Delims(s, e + 1, to, b)
\* the end of what starts at `from` and is followed by a delimiter line at p
Before(s, from, p) == LET a == IF p > 1 /\ s[p - 1] = 10 THEN (IF p > 2 /\ s[p - 2] = 13 THEN p - 3 ELSE p - 2) ELSE p - 1
                      IN IF a < from THEN from - 1 ELSE a
\* --- headers (the lines of a header: "name:" fields, their continuation lines, and lines which are neither)
RECURSIVE NameEnd(_, _, _)
NameEnd(s, p, to) == IF p <= to /\ s[p] # 58 /\ s[p] \notin {32, 9, 13, 10} THEN NameEnd(s, p + 1, to) ELSE p
IsField(s, p, to) == LET q == NameEnd(s, p, to) r == SkipWs(s, q, to) IN q > p /\ r <= to /\ s[r] = 58
Blank(s, p, to) == s[p] = 10 \/ Eq(s, p, to, <<13, 10>>)
\* [f: fields as [n: name, a: start, z: end (after its last line)], b: where the body starts]
RECURSIVE Header(_, _, _, _)
Header(s, p, to, fs) ==
  IF p > to THEN [f |-> fs, b |-> to + 1]
  ELSE LET e == LineEnd(s, p, to) IN
       IF Blank(s, p, to) THEN [f |-> fs, b |-> (IF s[p] = 10 THEN p + 1 ELSE p + 2)]
       ELSE IF IsField(s, p, to)
            THEN LET c == CHOOSE c \in (p + 1)..(to + 1) : \* the end of the field: line ends which are followed by white space continue it
                          /\ (c = to + 1 \/ (s[c - 1] = 10 /\ s[c] \notin {32, 9}))
                          /\ \A x \in (p + 1)..(c - 1) : s[x - 1] = 10 => s[x] \in {32, 9}
                 IN Header(s, c, to, Append(fs, [n |-> SubSeq(s, p, NameEnd(s, p, to) - 1), a |-> p, z |-> c]))
            ELSE Header(s, IF e = 0 THEN to + 1 ELSE e + 1, to, fs)
\* "Content-Type" and "Content-Type: multipart/mixed", and the latter with a quoted boundary
CT == <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101>>
MP == CT \o <<58, 32, 109, 117, 108, 116, 105, 112, 97, 114, 116, 47, 109, 105, 120, 101, 100>>
MPB == MP \o <<59, 32, 98, 111, 117, 110, 100, 97, 114, 121, 61, 34>>
MULTI == <<109, 117, 108, 116, 105, 112, 97, 114, 116, 47>>            \* "multipart/"
BOUNDARY == <<98, 111, 117, 110, 100, 97, 114, 121>>
RECURSIVE UpTo(_, _, _)         \* the position of the next byte of the set c, or 0
UpTo(s, p, c) == IF p > Len(s) THEN 0 ELSE IF s[p] \in c THEN p ELSE UpTo(s, p + 1, c)
RECURSIVE TrimR(_)
TrimR(q) == IF q # <<>> /\ q[Len(q)] \in {32, 9, 13, 10} THEN TrimR(SubSeq(q, 1, Len(q) - 1)) ELSE q
RECURSIVE TrimL(_)
TrimL(q) == IF q # <<>> /\ q[1] \in {32, 9, 13, 10} THEN TrimL(Tail(q)) ELSE q
\* no boundary given: the first line which starts with "--" shows it
RECURSIVE Guess(_, _, _)
Guess(s, p, to) == IF p > to THEN <<>>
                   ELSE LET e == LineEnd(s, p, to) IN
                        IF Eq(s, p, to, <<45, 45>>) THEN TrimL(TrimR(SubSeq(s, p + 2, IF e = 0 THEN to ELSE e)))
                        ELSE IF e = 0 THEN <<>> ELSE Guess(s, e + 1, to)
\* the boundary of the entity whose header is h: <<>> for one which has a simple body
Boundary(s, h, to) ==
  LET c == SelectSeq(h.f, LAMBDA f : f.n = CT) IN
  IF c = <<>> THEN <<>>
  ELSE LET p == c[1].a IN
       IF Eq(s, p, to, MPB) THEN LET q == p + Len(MPB) z == UpTo(s, q, {34}) IN IF z = 0 THEN <<>> ELSE SubSeq(s, q, z - 1)
       ELSE IF Eq(s, p, to, MP) /\ (p + Len(MP) > to \/ s[p + Len(MP)] \in {13, 10}) THEN Guess(s, h.b, to)
       ELSE LET r == PM!Read(TrimR(SubSeq(s, p + Len(CT) + 1, c[1].z - 1))) IN
            IF ~r.ok THEN (IF Eq(s, p, to, MP) THEN Guess(s, h.b, to) ELSE <<>>)
            ELSE IF Len(r.val) < 10 \/ SubSeq(PM!HT!Lower(r.val), 1, 10) # MULTI THEN <<>>
            ELSE IF BOUNDARY \in DOMAIN r.p THEN r.p[BOUNDARY].v ELSE Guess(s, h.b, to)
\* --- the tree
RECURSIVE Entity(_, _, _)
Body(s, from, to, b) ==
  LET ds == IF b = <<>> THEN <<>> ELSE Delims(s, from, to, b)
      n == Len(ds)
      closed == n > 0 /\ ds[n].k = "close"
      simple == b = <<>> \/ from > to
      \* without any delimiter, all of it is one part; an opening delimiter with nothing at all behind it opens none
      cnt == IF n = 0 THEN 1 ELSE IF closed \/ ds[n].n > to THEN n - 1 ELSE n
      a(i) == IF n = 0 THEN from ELSE ds[i].n
      z(i) == IF i + 1 <= n THEN Before(s, ds[i].n, ds[i + 1].p) ELSE to
  IN IF simple THEN [mp |-> FALSE, c |-> SubSeq(s, from, to)]
     ELSE [mp |-> TRUE, b |-> b,
           pro |-> IF n = 0 THEN <<>> ELSE SubSeq(s, from, Before(s, from, ds[1].p)),
           epi |-> IF closed THEN SubSeq(s, ds[n].n, to) ELSE <<>>,
           p |-> [i \in 1..cnt |-> Entity(s, a(i), z(i))]]
Entity(s, from, to) ==
  LET h == Header(s, from, to, <<>>) IN
  [f |-> h.f, a |-> from, z |-> to, hb |-> h.b, body |-> Body(s, h.b, to, Boundary(s, h, to))]
\* --- comparison with what a parser reports (0-based offset o and length l; prolog and epilog up to white space)
Norm(q) == SelectSeq(q, LAMBDA c : c \notin {9, 10, 13, 32})
RECURSIVE Same(_, _, _)
Same(x, t, off) ==       \* x: reported tree, t: entity, off: where s starts in the stream which was parsed
  LET empty == t.z < t.a IN
  /\ x.fn = [i \in 1..Len(t.f) |-> t.f[i].n]
  /\ \A i \in 1..Len(t.f) : x.fo[i] = t.f[i].a - 1 + off /\ x.fl[i] = t.f[i].z - t.f[i].a
  /\ ~empty => /\ x.o = t.a - 1 + off /\ x.l = t.z - t.a + 1
               /\ x.bo = t.hb - 1 + off /\ x.bl = t.z - t.hb + 1
               /\ t.hb > t.a => x.ho = t.a - 1 + off /\ x.hl = t.hb - t.a
  /\ IF t.body.mp
     THEN /\ x.p # <<>> => x.b \in {t.body.b, <<1>>}
          /\ Norm(x.pro) = Norm(t.body.pro) /\ Norm(x.epi) = Norm(t.body.epi)
          /\ Len(x.p) = Len(t.body.p)
          /\ \A i \in 1..Len(x.p) : Same(x.p[i], t.body.p[i], off)
     ELSE /\ x.p = <<>> /\ x.c = t.body.c /\ x.pro = <<>> /\ x.epi = <<>>
\* events: "bytes" (the input), then one "tree" for every way of parsing it
Init0(cfg) == [x |-> <<>>, t |-> [f |-> <<>>]]
Ok(Chk, s, e) ==
  CASE e.e = "bytes" -> TRUE
    [] e.e = "tree" -> Same(e.t, s.t, e.off)
    [] OTHER -> FALSE
Nxt(s, e) == IF e.e = "bytes" THEN [x |-> e.x, t |-> Entity(e.x, 1, Len(e.x))] ELSE s
=============================================================================
