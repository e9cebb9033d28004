------------------------------ MODULE HeaderText ------------------------------
(* The text of a header field: a string of characters of one charset is written as lines of at most L characters made of
   plain text and encoded words (RFC 2047); reading it back gives the same characters.  Bytes are integers. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
WS == {32, 9}
Lower(q) == [i \in 1..Len(q) |-> IF q[i] \in 65..90 THEN q[i] + 32 ELSE q[i]]
\* --- unfolding: the line ends disappear, the white space behind them stays
RECURSIVE LinesOf(_, _, _)
LinesOf(x, p, a) == IF p > Len(x) THEN <<SubSeq(x, a, Len(x))>>
                    ELSE IF x[p] = 13 /\ p < Len(x) /\ x[p + 1] = 10 THEN <<SubSeq(x, a, p - 1)>> \o LinesOf(x, p + 2, p + 2)
                    ELSE LinesOf(x, p + 1, a)
Lines(x) == LinesOf(x, 1, 1)
\* --- tokens: runs without white space, with the white space before each
RECURSIVE SkipWs(_, _)
SkipWs(x, p) == IF p <= Len(x) /\ x[p] \in WS THEN SkipWs(x, p + 1) ELSE p
RECURSIVE SkipTxt(_, _)
SkipTxt(x, p) == IF p <= Len(x) /\ x[p] \notin WS THEN SkipTxt(x, p + 1) ELSE p
RECURSIVE Toks(_, _)
Toks(x, p) == IF p > Len(x) THEN <<>>
              ELSE LET a == SkipWs(x, p) z == SkipTxt(x, a) IN <<[ws |-> SubSeq(x, p, a - 1), t |-> SubSeq(x, a, z - 1)]>> \o Toks(x, z)
\* --- encoded words
QM(t) == {i \in 1..Len(t) : t[i] = 63}
IsEW(t) ==
  /\ Len(t) >= 7 /\ t[1] = 61 /\ t[2] = 63 /\ t[Len(t)] = 61 /\ t[Len(t) - 1] = 63
  /\ Cardinality(QM(t)) = 4
  /\ LET q == SetToSortSeq(QM(t), LAMBDA a, b : a < b) IN q[2] > 3 /\ q[3] = q[2] + 2 /\ t[q[2] + 1] \in {66, 98, 81, 113}
\* [cs, lang, enc, data]
EW(t) ==
  LET q == SetToSortSeq(QM(t), LAMBDA a, b : a < b)
      c == SubSeq(t, 3, q[2] - 1)
      star == {i \in 1..Len(c) : c[i] = 42}
      k == IF star = {} THEN Len(c) ELSE (CHOOSE i \in star : \A j \in star : i <= j) - 1
  IN [cs |-> Lower(SubSeq(c, 1, k)), lang |-> SubSeq(c, k + 2, Len(c)), enc |-> IF t[q[2] + 1] \in {66, 98} THEN "B" ELSE "Q",
      data |-> SubSeq(t, q[3] + 1, Len(t) - 2)]
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
RECURSIVE QDec(_, _)        \* <<-1>> at the end: malformed
QDec(d, p) == IF p > Len(d) THEN <<>>
              ELSE IF d[p] = 95 THEN <<32>> \o QDec(d, p + 1)
              ELSE IF d[p] # 61 THEN <<d[p]>> \o QDec(d, p + 1)
              ELSE IF p + 2 <= Len(d) /\ Hex(d[p + 1]) < 16 /\ Hex(d[p + 2]) < 16 THEN <<16 * Hex(d[p + 1]) + Hex(d[p + 2])>> \o QDec(d, p + 3)
              ELSE <<-1>>
Sext(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 99
RECURSIVE BDec(_, _)
BDec(d, p) ==
  IF p > Len(d) THEN <<>>
  ELSE IF p + 3 > Len(d) \/ Sext(d[p]) = 99 \/ Sext(d[p + 1]) = 99 THEN <<-1>>
  ELSE LET a == Sext(d[p]) b == Sext(d[p + 1]) c == Sext(d[p + 2]) e == Sext(d[p + 3]) IN
       IF d[p + 2] = 61 /\ d[p + 3] = 61 /\ p + 3 = Len(d) THEN <<4 * a + b \div 16>>
       ELSE IF c = 99 THEN <<-1>>
       ELSE IF d[p + 3] = 61 /\ p + 3 = Len(d) THEN <<4 * a + b \div 16, 16 * (b % 16) + c \div 4>>
       ELSE IF e = 99 THEN <<-1>>
       ELSE <<4 * a + b \div 16, 16 * (b % 16) + c \div 4, 64 * (c % 4) + e>> \o BDec(d, p + 4)
Dec(w) == IF w.enc = "Q" THEN QDec(w.data, 1) ELSE BDec(w.data, 1)
\* characters legal in the data of a Q word anywhere in a header (RFC 2047 4.2, and 5 (3) for words of a phrase)
QLegal(d, phrase) == \A i \in 1..Len(d) : d[i] \in 33..126 /\ d[i] # 63 /\ (phrase => d[i] \in (48..57) \cup (65..90) \cup (97..122) \cup {33, 42, 43, 45, 47, 61, 95})
\* --- whole characters
RECURSIVE Utf8Whole(_, _)
Utf8Whole(b, p) == IF p > Len(b) THEN TRUE
                   ELSE LET n == IF b[p] < 128 THEN 0 ELSE IF b[p] \in 192..223 THEN 1 ELSE IF b[p] \in 224..239 THEN 2 ELSE IF b[p] \in 240..247 THEN 3 ELSE 9 IN
                        n < 9 /\ p + n <= Len(b) /\ (\A i \in 1..n : b[p + i] \in 128..191) /\ Utf8Whole(b, p + n + 1)
RECURSIVE DbcsWhole(_, _)
DbcsWhole(b, p) == IF p > Len(b) THEN TRUE ELSE IF b[p] < 128 THEN DbcsWhole(b, p + 1) ELSE p + 1 <= Len(b) /\ DbcsWhole(b, p + 2)
UTF8 == <<117, 116, 102, 45, 56>>
ASCII == <<117, 115, 45, 97, 115, 99, 105, 105>>
GB == <<103, 98, 50, 51, 49, 50>>
Whole(cs, b) == IF cs = UTF8 THEN Utf8Whole(b, 1) ELSE IF cs = GB THEN DbcsWhole(b, 1) ELSE TRUE
\* --- reading: white space between two encoded words is not part of the text
RECURSIVE Read(_, _, _)
Read(ts, i, prev) == IF i > Len(ts) THEN <<>>
  ELSE LET t == ts[i] ew == IsEW(t.t) IN
       (IF prev /\ ew THEN <<>> ELSE t.ws) \o (IF ew THEN Dec(EW(t.t)) ELSE t.t) \o Read(ts, i + 1, ew)
\* events: text[cs, x: bytes, lang] (what was built), gen[x: bytes produced, off: column of the first character, max], back[x: bytes decoded by the library, in the same charset]
Unfold(x) == FlattenSeq(Lines(x))
RECURSIVE TrimL(_)
TrimL(q) == IF q # <<>> /\ q[1] \in WS THEN TrimL(Tail(q)) ELSE q
RECURSIVE TrimR(_)
TrimR(q) == IF q # <<>> /\ q[Len(q)] \in WS THEN TrimR(SubSeq(q, 1, Len(q) - 1)) ELSE q
Init0(cfg) == [x |-> <<>>, cs |-> <<>>]
GenOk(s, e) ==
  LET ls == Lines(e.x) ts == Toks(TrimL(Unfold(e.x)), 1) IN
  /\ \A i \in 2..Len(ls) : ls[i] # <<>> /\ ls[i][1] \in WS /\ (\E k \in 1..Len(ls[i]) : ls[i][k] \notin WS)
  /\ \A i \in 1..Len(e.x) : e.x[i] \in {13, 10} \/ e.x[i] \in 32..126 \/ e.x[i] = 9
  /\ \A i \in 1..Len(ts) : IsEW(ts[i].t) =>
       LET w == EW(ts[i].t) d == Dec(w) IN
       /\ Len(ts[i].t) <= 75
       /\ w.cs = s.cs \/ w.cs = ASCII
       /\ \A k \in 1..Len(d) : d[k] >= 0
       /\ Whole(w.cs, d)
       /\ w.enc = "Q" => QLegal(w.data, FALSE)
  /\ Read(ts, 1, FALSE) = s.x
\* a reader may take a folded run of white space for one space (RFC 822): so runs of white space are compared as one space
RECURSIVE Collapse(_)
Collapse(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) > 1 /\ q[1] \in WS /\ q[2] \in WS THEN Collapse(Tail(q))
               ELSE <<IF q[1] \in WS THEN 32 ELSE q[1]>> \o Collapse(Tail(q))
Ok(Chk, s, e) ==
  CASE e.e = "text" -> TRUE
    [] e.e = "gen" -> GenOk(s, e)
    [] e.e = "back" -> Collapse(e.x) = Collapse(s.x)
    [] OTHER -> FALSE
Nxt(s, e) == IF e.e = "text" THEN [x |-> e.x, cs |-> e.cs] ELSE s
=============================================================================
