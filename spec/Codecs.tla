-------------------------------- MODULE Codecs --------------------------------
(* Transfer encodings: what an encoded form denotes, which encoded forms are legal, and what encoding and decoding
   must therefore deliver.  An event carries the whole input and output of one encode or decode, for one way of
   cutting the input into reads. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CR == 13
LF == 10
SP == 32
EQ == 61
Min2(a, b) == IF a < b THEN a ELSE b
\* the lines of x: pieces between LFs (each with its LF, when it has one)
Ends(x) == SetToSortSeq({i \in 1..Len(x) : x[i] = LF} \cup (IF x # <<>> /\ x[Len(x)] # LF THEN {Len(x)} ELSE {}), <)
LinesOf(x) == LET E == Ends(x) IN [n \in 1..Len(E) |-> SubSeq(x, IF n = 1 THEN 1 ELSE E[n - 1] + 1, E[n])]
Chomp(l) == IF Len(l) >= 2 /\ l[Len(l)] = LF /\ l[Len(l) - 1] = CR THEN SubSeq(l, 1, Len(l) - 2)
            ELSE IF Len(l) >= 1 /\ l[Len(l)] = LF THEN SubSeq(l, 1, Len(l) - 1) ELSE l
CrLfOnly(x) == \A i \in 1..Len(x) : /\ (x[i] = LF => i > 1 /\ x[i - 1] = CR)
                                    /\ (x[i] = CR => i < Len(x) /\ x[i + 1] = LF)

\* ---- base64
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Space(c) == c \in {9, 10, 13, 32}
B64Strip(x) == SelectSeq(x, LAMBDA c : ~Space(c))
B64Ok(x) == LET y == B64Strip(x) n == Len(y) IN
            /\ n % 4 = 0
            /\ \A i \in 1..n : B64Val(y[i]) >= 0 \/ (y[i] = EQ /\ i >= n - 1 /\ (i = n \/ y[n] = EQ))
B64Dec(x) == LET y == B64Strip(x)
                 v(i) == IF y[i] = EQ THEN 0 ELSE B64Val(y[i])
                 Grp(g) == LET a == v(4*g-3) b == v(4*g-2) c == v(4*g-1) d == v(4*g)
                               all == <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d>>
                           IN SubSeq(all, 1, IF y[4*g-1] = EQ THEN 1 ELSE IF y[4*g] = EQ THEN 2 ELSE 3)
             IN FlattenSeq([g \in 1..(Len(y) \div 4) |-> Grp(g)])
B64Lines(x, ml) == /\ CrLfOnly(x)
                   /\ LET L == LinesOf(x) IN \A i \in 1..Len(L) : Len(Chomp(L[i])) <= ml
                   /\ \A i \in 1..Len(x) : Space(x[i]) => x[i] \in {CR, LF}

\* ---- quoted-printable
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
\* is position i the start of an escape; which are =XX, =CRLF and =LF
QpKind(x, i) == IF x[i] # EQ THEN "n"
                ELSE IF i + 1 <= Len(x) /\ x[i + 1] = LF THEN "s1"
                ELSE IF i + 2 <= Len(x) /\ x[i + 1] = CR /\ x[i + 2] = LF THEN "s2"
                ELSE IF i + 2 <= Len(x) /\ Hex(x[i + 1]) >= 0 /\ Hex(x[i + 2]) >= 0 THEN "h" ELSE "bad"
QpIn(x, i) == \/ i > 1 /\ x[i - 1] = EQ
              \/ i > 2 /\ x[i - 2] = EQ /\ QpKind(x, i - 2) \in {"h", "s2"}
QpOk(x) == \A i \in 1..Len(x) : QpKind(x, i) # "bad"
QpDec(x, rfc) == FlattenSeq([i \in 1..Len(x) |->
                    IF QpIn(x, i) THEN <<>>
                    ELSE LET k == QpKind(x, i) IN
                         IF k = "h" THEN <<Hex(x[i + 1]) * 16 + Hex(x[i + 2])>>
                         ELSE IF k \in {"s1", "s2"} THEN <<>>
                         ELSE IF rfc /\ x[i] = 95 THEN <<SP>> ELSE <<x[i]>>])
Upper(c) == c \notin 97..102
QpWord == {33, 42, 43, 45, 47, 95, EQ} \cup (48..57) \cup (65..90) \cup (97..122)
\* what a generator may emit
QpLegal(x, text, rfc, ml) ==
  /\ QpOk(x)
  /\ \A i \in 1..Len(x) : x[i] = EQ /\ QpKind(x, i) = "h" => Upper(x[i + 1]) /\ Upper(x[i + 2])
  /\ IF rfc THEN \A i \in 1..Len(x) : x[i] \in QpWord
     ELSE /\ \A i \in 1..Len(x) : \/ x[i] \in 33..126
                                  \/ x[i] = SP /\ i < Len(x) /\ x[i + 1] \notin {CR, LF}
                                  \/ x[i] \in {CR, LF} /\ (text \/ QpIn(x, i))
          /\ ml > 0 => LET L == LinesOf(x) IN \A i \in 1..Len(L) : Len(Chomp(L[i])) <= ml \/ (text /\ CR \in Range(Chomp(L[i])))

\* ---- uuencode: "begin MODE NAME", data lines (their first character is the number of bytes), "end"
UuVal(c) == (c + 32) % 64
Bytes(str) == str
UuData(L) == [i \in 1..Len(L) |-> Chomp(L[i])]
UuGroupBytes(l, g) == LET a == UuVal(l[4*g-2]) b == UuVal(l[4*g-1]) c == UuVal(l[4*g]) d == UuVal(l[4*g+1])
                      IN <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d>>
UuLineDec(l) == IF l = <<>> THEN <<>>
                ELSE SubSeq(FlattenSeq([g \in 1..((UuVal(l[1]) + 2) \div 3) |-> UuGroupBytes(l, g)]), 1, UuVal(l[1]))
UuLineOk(l, maxn) == /\ l # <<>> /\ UuVal(l[1]) <= maxn
                     /\ Len(l) = 1 + 4 * ((UuVal(l[1]) + 2) \div 3)
                     /\ \A i \in 1..Len(l) : l[i] \in 32..96
BEGIN == <<98, 101, 103, 105, 110>>
END == <<101, 110, 100>>
UuOk(x, maxn) == LET L == UuData(LinesOf(x)) n == Len(L) IN
                 /\ n >= 2 /\ SubSeq(L[1], 1, 5) = BEGIN /\ L[n] = END
                 /\ \A i \in 2..(n - 1) : UuLineOk(L[i], maxn)
UuDec(x) == LET L == UuData(LinesOf(x)) IN FlattenSeq([i \in 1..(Len(L) - 2) |-> UuLineDec(L[i + 1])])

Dec(k, x, rfc) == CASE k = "base64" -> B64Dec(x) [] k = "quoted-printable" -> QpDec(x, rfc) [] k = "uuencode" -> UuDec(x) [] OTHER -> x
DecOk(k, x) == CASE k = "base64" -> B64Ok(x) [] k = "quoted-printable" -> QpOk(x) [] k = "uuencode" -> UuOk(x, 63) [] OTHER -> TRUE
Legal(k, e) ==
  CASE k = "base64" -> B64Ok(e.out) /\ (IF e.ml = 0 THEN ~(LF \in Range(e.out)) /\ ~(CR \in Range(e.out)) ELSE B64Lines(e.out, Min2(e.ml, 76)))
    [] k = "quoted-printable" -> QpLegal(e.out, e.text, e.rfc, IF e.ml = 0 THEN 0 ELSE Min2(e.ml, 74) + 2)
    [] k = "uuencode" -> UuOk(e.out, Min2(IF e.ml = 0 THEN 46 ELSE e.ml, 46) - 1) /\ CrLfOnly(e.out)
    [] OTHER -> TRUE

Init0(cfg) == [seen |-> FALSE, out |-> <<>>]
Enc(s, e) == /\ Legal(e.k, e)
             /\ Dec(e.k, e.out, e.rfc) = e.in
             /\ e.ret = Len(e.out)                      \* the length reported
             /\ e.size >= Len(e.out)                    \* the length announced beforehand is sufficient
             /\ (s.seen => e.out = s.out)               \* whatever the cutting of the input
Decode(s, e) == DecOk(e.k, e.in) => (/\ e.out = Dec(e.k, e.in, e.rfc)
                                     /\ e.ret = Len(e.out))
\* a content handler generating its content (encoded as e.from, or not at all when e.from = "") in encoding e.k
Gen(s, e) == /\ Dec(e.k, e.out, FALSE) = (IF e.from = "" THEN e.in ELSE Dec(e.from, e.in, FALSE))
             /\ (e.k # e.from => Legal(e.k, e))
Ext(s, e) == e.out = (IF e.from = "" THEN e.in ELSE Dec(e.from, e.in, FALSE))
Ok(Chk, s, e) ==
  CASE e.e = "enc" -> Enc(s, e)
    [] e.e = "dec" -> Decode(s, e)
    [] e.e = "gen" -> Gen(s, e)
    [] e.e = "ext" -> Ext(s, e)
    [] e.e = "new" -> TRUE
    [] OTHER -> FALSE
Nxt(s, e) == IF e.e = "new" THEN Init0(0) ELSE IF e.e = "enc" THEN [seen |-> TRUE, out |-> e.out] ELSE s
=============================================================================
