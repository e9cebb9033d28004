------------------------------ MODULE ParamText ------------------------------
(* The parameters of a header field (RFC 2045, RFC 2231): "value; name=token; name="quoted"; name*=cs'lang'data;
   name*0*=...; name*1=...".  Reading gives a function from names (in lower case) to [cs, v]; what was put in a field is
   what is read from the text produced for it, whatever the way it was encoded.  Bytes are integers. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
HT == INSTANCE HeaderText
WS == {32, 9}
BAD == [ok |-> FALSE]
RECURSIVE Sk(_, _)
Sk(x, p) == IF p <= Len(x) /\ x[p] \in WS THEN Sk(x, p + 1) ELSE p
TokC(c) == c \in 33..126 /\ c \notin {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61}
\* some programs leave these unquoted, and readers take everything up to the next ";"
LaxC(c) == c \in 33..126 /\ c \notin {34, 59, 92}
RECURSIVE TokEnd(_, _)
TokEnd(x, p) == IF p <= Len(x) /\ TokC(x[p]) THEN TokEnd(x, p + 1) ELSE p
RECURSIVE LaxEnd(_, _)
LaxEnd(x, p) == IF p <= Len(x) /\ LaxC(x[p]) THEN LaxEnd(x, p + 1) ELSE p
RECURSIVE Quoted(_, _, _)            \* p: behind the opening quote -> [ok, v, n]
Quoted(x, p, acc) ==
  IF p > Len(x) THEN BAD
  ELSE IF x[p] = 34 THEN [ok |-> TRUE, v |-> acc, n |-> p + 1]
  ELSE IF x[p] = 92 THEN (IF p = Len(x) THEN BAD ELSE Quoted(x, p + 2, Append(acc, x[p + 1])))
  ELSE Quoted(x, p + 1, Append(acc, x[p]))
\* the raw parameters: [n: name, sec: section or -1, enc, v: raw value, q: quoted]
IsDig(c) == c \in 48..57
RECURSIVE NumOf(_)
NumOf(q) == IF q = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)] - 48
Name(q) ==       \* the attribute, split
  LET enc == q[Len(q)] = 42
      a == IF enc THEN SubSeq(q, 1, Len(q) - 1) ELSE q
      st == {i \in 1..Len(a) : a[i] = 42}
      k == IF st = {} THEN 0 ELSE CHOOSE i \in st : \A j \in st : j <= i
      sec == k > 1 /\ k < Len(a) /\ Len(a) - k <= 4 /\ \A i \in (k + 1)..Len(a) : IsDig(a[i])
  IN [n |-> HT!Lower(IF sec THEN SubSeq(a, 1, k - 1) ELSE a), sec |-> IF sec THEN NumOf(SubSeq(a, k + 1, Len(a))) ELSE -1, enc |-> enc]
RECURSIVE Raw(_, _, _)               \* p: at a ";" or the end -> [ok, ps]
Raw(x, p, acc) ==
  IF p > Len(x) THEN [ok |-> TRUE, ps |-> acc]
  ELSE IF x[p] # 59 THEN BAD
  ELSE LET a == Sk(x, p + 1) z == TokEnd(x, a) e == Sk(x, z) v == Sk(x, e + 1)
       IN IF a > Len(x) THEN [ok |-> TRUE, ps |-> acc]                       \* a ";" at the very end
          ELSE IF z = a \/ e > Len(x) \/ x[e] # 61 \/ v > Len(x) THEN BAD
          ELSE LET nm == Name(SubSeq(x, a, z - 1))
                   r == IF x[v] = 34 THEN Quoted(x, v + 1, <<>>)
                        ELSE LET t == LaxEnd(x, v) IN IF t = v THEN BAD ELSE [ok |-> TRUE, v |-> SubSeq(x, v, t - 1), n |-> t]
               IN IF ~r.ok \/ nm.n = <<>> THEN BAD
                  ELSE Raw(x, Sk(x, r.n), Append(acc, [n |-> nm.n, sec |-> nm.sec, enc |-> nm.enc, v |-> r.v, q |-> x[v] = 34]))
\* --- percent encoding
RECURSIVE Pct(_, _)                  \* a -1 at the end: malformed
Pct(d, p) == IF p > Len(d) THEN <<>>
             ELSE IF d[p] # 37 THEN <<d[p]>> \o Pct(d, p + 1)
             ELSE IF p + 2 <= Len(d) /\ HT!Hex(d[p + 1]) < 16 /\ HT!Hex(d[p + 2]) < 16
                  THEN <<16 * HT!Hex(d[p + 1]) + HT!Hex(d[p + 2])>> \o Pct(d, p + 3)
             ELSE <<-1>>
Apos(d) == LET q == {i \in 1..Len(d) : d[i] = 39} IN IF Cardinality(q) < 2 THEN <<>> ELSE SubSeq(SetToSortSeq(q, LAMBDA a, b : a < b), 1, 2)
\* --- putting the sections together: [ok, cs, v]
First(ps, n) == ps[CHOOSE i \in 1..Len(ps) : ps[i].n = n /\ \A j \in 1..i - 1 : ps[j].n # n]
HasEW(v) == \E i \in 1..Len(v) - 1 : v[i] = 61 /\ v[i + 1] = 63 /\ \E j \in i + 2..Len(v) - 1 : v[j] = 63 /\ v[j + 1] = 61
Plain(v) ==
  IF ~HasEW(v) THEN [ok |-> TRUE, cs |-> HT!ASCII, v |-> v]
  ELSE LET ts == HT!Toks(HT!TrimL(v), 1)
           ew == SelectSeq(ts, LAMBDA t : HT!IsEW(t.t))
       IN IF ew = <<>> \/ (\E i \in 1..Len(ew) : HT!EW(ew[i].t).cs # HT!EW(ew[1].t).cs) THEN BAD      \* looks like an encoded word without being one, or mixes
          ELSE [ok |-> TRUE, cs |-> HT!EW(ew[1].t).cs, v |-> HT!Read(ts, 1, FALSE)]
RECURSIVE Join(_, _)
Join(q, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i].enc THEN Pct(q[i].v, 1) ELSE q[i].v) \o Join(q, i + 1)
Ext(q) ==       \* q: the sections, in order
  IF ~q[1].enc THEN (IF \E i \in 1..Len(q) : q[i].enc \/ HasEW(q[i].v) THEN BAD ELSE [ok |-> TRUE, cs |-> HT!ASCII, v |-> Join(q, 1)])
  ELSE LET a == Apos(q[1].v) IN
       IF a = <<>> THEN BAD
       ELSE LET d == [q EXCEPT ![1].v = SubSeq(q[1].v, a[2] + 1, Len(q[1].v))] v == Join(d, 1)
            IN IF (\E i \in 1..Len(v) : v[i] < 0) \/ (\E i \in 1..Len(q) : (~q[i].enc /\ HasEW(q[i].v)) \/ (q[i].enc /\ q[i].q)) THEN BAD
               ELSE [ok |-> TRUE, cs |-> HT!Lower(SubSeq(q[1].v, 1, a[1] - 1)), v |-> v]
One(ps, n) ==
  LET mine == SelectSeq(ps, LAMBDA r : r.n = n)
      pl == SelectSeq(mine, LAMBDA r : r.sec = -1 /\ ~r.enc)
      single == SelectSeq(mine, LAMBDA r : r.sec = -1 /\ r.enc)
      secs == SetToSortSeq({i \in 1..Len(mine) : mine[i].sec >= 0}, LAMBDA i, j : mine[i].sec < mine[j].sec)
      ss == [i \in 1..Len(secs) |-> mine[secs[i]]]
  IN IF Len(pl) > 1 \/ Len(single) > 1 \/ (single # <<>> /\ ss # <<>>) THEN BAD
     ELSE IF ss # <<>> THEN (IF \A i \in 1..Len(ss) : ss[i].sec = i - 1 THEN Ext(ss) ELSE BAD)
     ELSE IF single # <<>> THEN Ext(single)
     ELSE Plain(pl[1].v)
\* the text behind "Field: ": [ok, val: the value, p: names -> values]
Read(x) ==
  LET u == FlattenSeq(HT!Lines(x))
      a == Sk(u, 1)
      sc == {i \in a..Len(u) : u[i] = 59}
      z == IF sc = {} THEN Len(u) + 1 ELSE CHOOSE i \in sc : \A j \in sc : i <= j
      raw == Raw(u, z, <<>>)
  IN IF ~raw.ok THEN BAD
     ELSE LET ns == {raw.ps[i].n : i \in 1..Len(raw.ps)} v == [n \in ns |-> One(raw.ps, n)]
          IN [ok |-> \A n \in ns : v[n].ok, val |-> HT!TrimR(SubSeq(u, a, z - 1)), p |-> v]
Ascii(v) == \A i \in 1..Len(v) : v[i] < 128
SameVal(a, b) == a.v = b.v /\ (Ascii(a.v) \/ a.cs = b.cs \/ a.cs = <<>> \/ b.cs = <<>>)
AsFun(l) == [n \in {HT!Lower(l[i].n) : i \in 1..Len(l)} |-> LET r == l[CHOOSE i \in 1..Len(l) : HT!Lower(l[i].n) = n] IN [cs |-> HT!Lower(r.cs), v |-> r.v]]
SameParams(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : SameVal(f[n], g[n])
\* events: built[val, p: list of [n, cs, v], mode, max]; gen[x]; src[x]; back[val, p]
Init0(cfg) == [has |-> FALSE, val |-> <<>>, p |-> <<>>, mode |-> "", max |-> 0]
GenOk(s, e) ==
  LET ls == HT!Lines(e.x) r == Read(SubSeq(e.x, e.off + 1, Len(e.x))) IN
  /\ \A i \in 2..Len(ls) : ls[i] # <<>> /\ ls[i][1] \in WS /\ (\E k \in 1..Len(ls[i]) : ls[i][k] \notin WS)
  /\ \A i \in 1..Len(e.x) : e.x[i] \in {13, 10, 9} \/ e.x[i] \in 32..126
  /\ \A i \in 1..Len(ls) : Len(ls[i]) <= 998
  /\ r.ok /\ r.val = s.val
  /\ SameParams(r.p, s.p)
Ok(Chk, s, e) ==
  CASE e.e = "built" -> TRUE
    [] e.e = "src" -> TRUE
    [] e.e = "gen" -> GenOk(s, e)
    [] e.e = "back" -> s.has => e.val = s.val /\ Len(e.p) = Cardinality(DOMAIN AsFun(e.p)) /\ SameParams(AsFun(e.p), s.p)
    [] OTHER -> FALSE
Nxt(s, e) ==
  IF e.e = "built" THEN [has |-> TRUE, val |-> e.val, p |-> AsFun(e.p), mode |-> e.mode, max |-> e.max]
  ELSE IF e.e = "src" THEN LET r == Read(e.x) IN [s EXCEPT !.has = r.ok, !.val = IF r.ok THEN r.val ELSE <<>>, !.p = IF r.ok THEN r.p ELSE <<>>]
  ELSE s
=============================================================================
