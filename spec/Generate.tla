------------------------------- MODULE Generate -------------------------------
(* Message trees: parts are put in, moved between and taken out of the bodies of others; the text generated for the root
   is, by the rules of Multipart.tla and ParamText.tla, a tree of that shape, with the header fields, contents, prolog
   and epilog of every part; the library reads the same back, and generates the same again.
   Parts are numbered, 1 is the root.  kids: part -> its sub-parts, in order.  Bytes are integers. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
MT == INSTANCE Multipart
PT == INSTANCE ParamText
CD == INSTANCE Codecs
HT == INSTANCE HeaderText
\* --- building
Without(kids, n) == [p \in DOMAIN kids |-> SelectSeq(kids[p], LAMBDA k : k # n)]
Pos(q, n) == CHOOSE i \in 1..Len(q) : q[i] = n
Ins(q, i, n) == SubSeq(q, 1, i - 1) \o <<n>> \o SubSeq(q, i, Len(q))     \* becomes the i-th
RECURSIVE Under(_, _)
Under(kids, n) == {n} \cup UNION {Under(kids, kids[n][i]) : i \in 1..Len(kids[n])}
After(kids, e) ==
  LET k == Without(kids, e.n) q == k[e.p] IN
  CASE e.k = "append" -> [k EXCEPT ![e.p] = Append(q, e.n)]
    [] e.k = "before" -> [k EXCEPT ![e.p] = Ins(q, Pos(q, e.at), e.n)]
    [] e.k = "after" -> [k EXCEPT ![e.p] = Ins(q, Pos(q, e.at) + 1, e.n)]
    [] e.k = "beforeat" -> [k EXCEPT ![e.p] = Ins(q, e.at, e.n)]
    [] e.k = "afterat" -> [k EXCEPT ![e.p] = Ins(q, e.at + 1, e.n)]
    [] e.k = "rm" -> k
    [] e.k = "rmat" -> Without(kids, kids[e.p][e.at])
    [] e.k = "clear" -> [kids EXCEPT ![e.p] = <<>>]
    [] OTHER -> kids
\* --- contents
Text2Enc(q) == HT!Lower(q)
B64 == <<98, 97, 115, 101, 54, 52>>
QP == <<113, 117, 111, 116, 101, 100, 45, 112, 114, 105, 110, 116, 97, 98, 108, 101>>
UU == <<117, 117, 101, 110, 99, 111, 100, 101>>
Decoded(enc, c) == CASE enc = B64 -> CD!B64Dec(c) [] enc = QP -> CD!QpDec(c, FALSE) [] enc = UU -> CD!UuDec(c) [] OTHER -> c
DecOk(enc, c) == CASE enc = B64 -> CD!B64Ok(c) [] enc = QP -> CD!QpOk(c) [] OTHER -> TRUE
\* --- header fields
Blank(q) == SelectSeq(q, LAMBDA c : c \notin {9, 10, 13, 32})
RECURSIVE ColonAt(_, _)
ColonAt(x, p) == IF x[p] = 58 THEN p ELSE ColonAt(x, p + 1)
ValueText(x, f) == MT!TrimR(SubSeq(x, ColonAt(x, f.a) + 1, f.z - 1))
TextOf(v) == HT!Read(HT!Toks(HT!TrimL(FlattenSeq(HT!Lines(v))), 1), 1, FALSE)
FieldOk(x, f, w) ==       \* f: the field of the text, w: what was put in
  LET v == ValueText(x, f) IN
  /\ f.n = w.n
  /\ CASE w.k = "p" -> LET r == PT!Read(v) IN r.ok /\ r.val = w.v /\ PT!SameParams(r.p, PT!AsFun(w.p))
       [] w.k = "t" -> TextOf(v) = w.v
       [] w.k = "e" -> HT!Lower(MT!TrimL(v)) = w.v
       [] OTHER -> TRUE
\* no line beyond the maximum, unless there is no place to fold it
RECURSIVE HLines(_, _, _)
HLines(x, p, to) == IF p > to THEN <<>>
                    ELSE LET e == MT!LineEnd(x, p, to) IN IF e = 0 THEN <<SubSeq(x, p, to)>> ELSE <<SubSeq(x, p, e - 2)>> \o HLines(x, e + 1, to)
Foldable(q) == \E i \in 2..Len(q) : q[i] \in {32, 9} /\ q[i - 1] \notin {58, 32, 9}
\* (the first line of a value in RFC 2231 sections may be longer: the library keeps room for its name alone)
Sections(q) == \E i \in 1..Len(q) - 3 : SubSeq(q, i, i + 3) = <<42, 48, 42, 61>>
\* (and a word follows an encoded word on its line even if there is no room left)
Words(q) == \E i \in 1..Len(q) - 1 : q[i] = 61 /\ q[i + 1] = 63
LineOk(q, max) == Len(q) <= max \/ ~Foldable(q) \/ Sections(q) \/ (Words(q) /\ Len(q) <= max + 76)
\* --- the text
RECURSIVE Match(_, _, _, _)
Match(x, t, s, id) ==     \* x: the text, t: the entity found in it, id: the part it stands for
  LET w == s.node[id] ks == s.kids[id] IN
  /\ Len(t.f) = Len(w.f) /\ \A i \in 1..Len(w.f) : FieldOk(x, t.f[i], w.f[i])
  /\ LET hl == HLines(x, t.a, t.hb - 1) IN \A i \in 1..Len(hl) : LineOk(hl[i], s.max)
  /\ IF ks = <<>>
     THEN /\ ~t.body.mp
          /\ DecOk(w.enc, t.body.c)
          /\ Decoded(w.enc, t.body.c) = w.c
     ELSE /\ t.body.mp
          /\ Blank(t.body.pro) = Blank(w.pro) /\ Blank(t.body.epi) = Blank(w.epi)
          /\ Len(t.body.p) = Len(ks)
          /\ \A i \in 1..Len(ks) : Match(x, t.body.p[i], s, ks[i])
GenOk(s, e) == LET t == MT!Entity(e.x, 1, Len(e.x)) IN
               /\ Match(e.x, t, s, 1)
               /\ e.size < 0 \/ e.size >= Len(e.x)
\* --- what the library reads back
BackField(f, w) ==
  /\ f.n = w.n /\ f.k = w.k
  /\ CASE w.k = "p" -> f.v = w.v /\ PT!SameParams(PT!AsFun(f.p), PT!AsFun(w.p))
       [] w.k \in {"t", "e"} -> f.v = w.v
       [] OTHER -> TRUE
RECURSIVE Same(_, _, _)
Same(b, s, id) ==
  LET w == s.node[id] ks == s.kids[id] IN
  /\ Len(b.f) = Len(w.f) /\ \A i \in 1..Len(w.f) : BackField(b.f[i], w.f[i])
  /\ Len(b.p) = Len(ks)
  /\ IF ks = <<>> THEN b.c = w.c
     ELSE Blank(b.pro) = Blank(w.pro) /\ Blank(b.epi) = Blank(w.epi) /\ \A i \in 1..Len(ks) : Same(b.p[i], s, ks[i])
\* what the library says about the tree which was built: [id, p]
RECURSIVE Shape(_, _, _)
Shape(b, s, id) == b.id = id /\ Len(b.p) = Len(s.kids[id]) /\ \A i \in 1..Len(b.p) : Shape(b.p[i], s, s.kids[id][i])
Init0(cfg) == [kids |-> [i \in 1..cfg.n |-> <<>>], node |-> <<>>, max |-> cfg.max, x |-> <<>>]
Ok(Chk, s, e) ==
  CASE e.e = "op" -> ~e.th
    [] e.e = "shape" -> Shape(e.t, s, 1)
    [] e.e = "node" -> e.id = Len(s.node) + 1
    [] e.e = "gen" -> GenOk(s, e)
    [] e.e = "back" -> Same(e.t, s, 1)
    [] OTHER -> FALSE
Nxt(s, e) ==
  CASE e.e = "op" -> [s EXCEPT !.kids = After(s.kids, e)]
    [] e.e = "node" -> [s EXCEPT !.node = Append(@, e)]
    [] e.e = "gen" -> [s EXCEPT !.x = e.x]
    [] OTHER -> s
=============================================================================
