---------------------------- MODULE ImapCommand ----------------------------
(* The argument language of IMAP commands (RFC 3501): a reader of command lines, of modified UTF-7 mailbox names, of message
   sets, dates and search keys.  What the reader finds in a line the client built must be what the caller asked for.
   Bytes are integers. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
UpC(c) == IF c \in 97..122 THEN c - 32 ELSE c
Up(q) == [i \in 1..Len(q) |-> UpC(q[i])]
AtomBad == {40, 41, 123, 32, 37, 42, 34, 92} \cup (0..31) \cup {127}
\* --- the reader: a node is [t: "atom", "str", "list", "lit", "bad"; v: bytes; l: nodes]
Nd(t, v, l) == [t |-> t, v |-> v, l |-> l]
BAD == Nd("bad", <<>>, <<>>)
IsBad(n) == n.t = "bad"
Digit(c) == c \in 48..57
RECURSIVE NumEnd(_, _)
NumEnd(x, p) == IF p <= Len(x) /\ Digit(x[p]) THEN NumEnd(x, p + 1) ELSE p
RECURSIVE StrR(_, _, _)     \* the quoted string from p: [v, p: behind the closing quote, 0 if there is none]
StrR(x, p, acc) == IF p > Len(x) THEN [v |-> <<>>, p |-> 0]
                   ELSE IF x[p] = 34 THEN [v |-> acc, p |-> p + 1]
                   ELSE IF x[p] = 92 THEN IF p < Len(x) /\ x[p + 1] \in {34, 92} THEN StrR(x, p + 2, Append(acc, x[p + 1])) ELSE [v |-> <<>>, p |-> 0]
                   ELSE IF x[p] \in {0, 10, 13} THEN [v |-> <<>>, p |-> 0]
                   ELSE StrR(x, p + 1, Append(acc, x[p]))
RECURSIVE SecEnd(_, _, _, _)   \* the bracket that ends a section: quotes and parentheses hide brackets
SecEnd(x, p, q, d) == IF p > Len(x) THEN 0
                   ELSE IF q THEN (IF x[p] = 34 THEN SecEnd(x, p + 1, FALSE, d) ELSE IF x[p] = 92 THEN SecEnd(x, p + 2, TRUE, d) ELSE SecEnd(x, p + 1, TRUE, d))
                   ELSE IF x[p] = 34 THEN SecEnd(x, p + 1, TRUE, d)
                   ELSE IF x[p] = 40 THEN SecEnd(x, p + 1, FALSE, d + 1) ELSE IF x[p] = 41 THEN SecEnd(x, p + 1, FALSE, d - 1)
                   ELSE IF x[p] = 93 /\ d = 0 THEN p ELSE SecEnd(x, p + 1, FALSE, d)
HasAt(x, p, w) == p + Len(w) - 1 <= Len(x) /\ Up(SubSeq(x, p, p + Len(w) - 1)) = w
W_BODY == <<66, 79, 68, 89, 91>>                             \* BODY[
W_PEEK == <<66, 79, 68, 89, 46, 80, 69, 69, 75, 91>>         \* BODY.PEEK[
RECURSIVE AtomEnd(_, _, _)  \* \ (only in front: a flag), %, * are accepted here; the position of the node decides
AtomEnd(x, p, a) == IF p > Len(x) \/ (x[p] \in {40, 41, 123, 32, 34} \cup (0..31) \cup {127}) \/ (x[p] = 92 /\ p > a) THEN p ELSE AtomEnd(x, p + 1, a)
\* items separated by one space, up to `)` (depth > 0) or the end of the text: [l, p]
RECURSIVE Items(_, _, _, _, _)
One(x, p, sec, depth) ==
  IF p > Len(x) THEN [n |-> BAD, p |-> p]
  ELSE IF x[p] = 34 THEN LET r == StrR(x, p + 1, <<>>) IN IF r.p = 0 THEN [n |-> BAD, p |-> Len(x) + 1] ELSE [n |-> Nd("str", r.v, <<>>), p |-> r.p]
  ELSE IF x[p] = 40 THEN LET r == Items(x, p + 1, <<>>, sec, depth + 1) IN [n |-> IF r.ok THEN Nd("list", <<>>, r.l) ELSE BAD, p |-> r.p]
  ELSE IF x[p] = 123 THEN LET z == NumEnd(x, p + 1) IN IF z > p + 1 /\ z = Len(x) /\ x[z] = 125 /\ depth = 0 THEN [n |-> Nd("lit", SubSeq(x, p + 1, z - 1), <<>>), p |-> z + 1] ELSE [n |-> BAD, p |-> Len(x) + 1]
  ELSE IF sec /\ (HasAt(x, p, W_BODY) \/ HasAt(x, p, W_PEEK))
       THEN LET a == IF HasAt(x, p, W_BODY) THEN p + 5 ELSE p + 10 z == SecEnd(x, a, FALSE, 0) IN
            IF z = 0 THEN [n |-> BAD, p |-> Len(x) + 1]
            ELSE LET e == AtomEnd(x, z + 1, z + 1) r == Items(SubSeq(x, a, z - 1), 1, <<>>, FALSE, 0) IN
                 [n |-> IF r.ok \/ z = a THEN Nd(IF HasAt(x, p, W_BODY) THEN "body" ELSE "peek", SubSeq(x, z + 1, e - 1), IF z = a THEN <<>> ELSE r.l) ELSE BAD, p |-> e]
  ELSE LET e == AtomEnd(x, p, p) IN IF e = p THEN [n |-> BAD, p |-> Len(x) + 1] ELSE [n |-> Nd("atom", SubSeq(x, p, e - 1), <<>>), p |-> e]
Items(x, p, acc, sec, depth) ==
  IF p <= Len(x) /\ x[p] = 41 /\ depth > 0 /\ acc = <<>> THEN [ok |-> TRUE, l |-> <<>>, p |-> p + 1]
  ELSE LET o == One(x, p, sec, depth) l2 == Append(acc, o.n) IN
       IF IsBad(o.n) THEN [ok |-> FALSE, l |-> <<>>, p |-> Len(x) + 1]
       ELSE IF o.p > Len(x) THEN [ok |-> depth = 0, l |-> l2, p |-> o.p]
       ELSE IF x[o.p] = 41 /\ depth > 0 THEN [ok |-> TRUE, l |-> l2, p |-> o.p + 1]
       ELSE IF x[o.p] = 32 THEN Items(x, o.p + 1, l2, sec, depth)
       ELSE [ok |-> FALSE, l |-> <<>>, p |-> Len(x) + 1]
Parse(x, sec) == LET r == Items(x, 1, <<>>, sec, 0) IN IF r.ok THEN r.l ELSE <<BAD>>
\* --- positions
IsAstr(n, v) == (n.t = "str" /\ n.v = v) \/ (n.t = "atom" /\ n.v = v /\ v # <<>> /\ \A i \in 1..Len(v) : v[i] \notin AtomBad /\ v[i] < 128)
IsListMbox(n, v) == (n.t = "str" /\ n.v = v) \/ (n.t = "atom" /\ n.v = v /\ v # <<>> /\ \A i \in 1..Len(v) : v[i] \notin AtomBad \ {37, 42} /\ v[i] < 128)
IsKw(n, w) == n.t = "atom" /\ Up(n.v) = w
SameKws(l, q) == Len(l) = Len(q) /\ (\A i \in 1..Len(l) : l[i].t = "atom") /\ {Up(l[i].v) : i \in 1..Len(l)} = {Up(q[i]) : i \in 1..Len(q)}
\* --- numbers and message sets; 0 stands for *
RECURSIVE NumV(_, _, _)
NumV(x, i, acc) == IF i > Len(x) THEN acc ELSE NumV(x, i + 1, 10 * acc + (x[i] - 48))
IsNum(x) == x # <<>> /\ Len(x) <= 10 /\ (\A i \in 1..Len(x) : Digit(x[i])) /\ (Len(x) > 1 => x[1] # 48)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(x, c, p, a) == IF p > Len(x) THEN <<SubSeq(x, a, Len(x))>> ELSE IF x[p] = c THEN <<SubSeq(x, a, p - 1)>> \o SplitAt(x, c, p + 1, p + 1) ELSE SplitAt(x, c, p + 1, a)
Split(x, c) == SplitAt(x, c, 1, 1)
SetNum(x) == IF x = <<42>> THEN 0 ELSE IF IsNum(x) THEN NumV(x, 1, 0) ELSE -1
RangeOf(x) == LET q == Split(x, 58) IN IF Len(q) = 1 THEN <<SetNum(q[1]), SetNum(q[1])>> ELSE IF Len(q) = 2 THEN <<SetNum(q[1]), SetNum(q[2])>> ELSE <<-1, -1>>
Ranges(x) == LET q == Split(x, 44) IN [i \in 1..Len(q) |-> RangeOf(q[i])]
RgOk(r) == r[1] >= 0 /\ r[2] >= 0
\* the numbers a set denotes: compared at the ends of the ranges and next to them
In(n, rs) == \E i \in 1..Len(rs) : (rs[i][1] # 0 /\ rs[i][1] <= n /\ (rs[i][2] = 0 \/ n <= rs[i][2]))
Pts(rs) == UNION {{rs[i][1] - 1, rs[i][1], rs[i][1] + 1, rs[i][2] - 1, rs[i][2], rs[i][2] + 1} : i \in 1..Len(rs)} \cap (1..2147483646)
Star(rs) == \E i \in 1..Len(rs) : 0 \in {rs[i][1], rs[i][2]}
SameSet(rs, qs) == Star(rs) = Star(qs) /\ \A n \in Pts(rs) \cup Pts(qs) : In(n, rs) = In(n, qs)
IsSet(n, qs) == n.t = "atom" /\ LET rs == Ranges(n.v) IN (\A i \in 1..Len(rs) : RgOk(rs[i])) /\ SameSet(rs, qs)
\* --- dates: "dd-Mon-yyyy hh:mm:ss +zzzz" and d-Mon-yyyy
Months == <<<<74, 65, 78>>, <<70, 69, 66>>, <<77, 65, 82>>, <<65, 80, 82>>, <<77, 65, 89>>, <<74, 85, 78>>, <<74, 85, 76>>, <<65, 85, 71>>, <<83, 69, 80>>, <<79, 67, 84>>, <<78, 79, 86>>, <<68, 69, 67>>>>
Dig2(n) == <<48 + n \div 10, 48 + (n % 10)>>
Dig4(n) == Dig2(n \div 100) \o Dig2(n % 100)
DayF(d) == IF d < 10 THEN <<32, 48 + d>> ELSE Dig2(d)
Abs(n) == IF n < 0 THEN -n ELSE n
DateV(d) == DayF(d.d) \o <<45>> \o Months[d.mo] \o <<45>> \o Dig4(d.y) \o <<32>> \o Dig2(d.h) \o <<58>> \o Dig2(d.mi) \o <<58>> \o Dig2(d.s)
            \o <<32, IF d.z < 0 THEN 45 ELSE 43>> \o Dig2(Abs(d.z) \div 60) \o Dig2(Abs(d.z) % 60)
IsDateTime(n, d) == n.t = "str" /\ Up(n.v) \in {DateV(d)} \cup (IF d.d < 10 THEN {<<48>> \o Tail(DateV(d))} ELSE {}) 
IsDate(n, d) == n.t \in {"atom", "str"} /\ LET r == <<45>> \o Months[d.mo] \o <<45>> \o Dig4(d.y) IN Up(n.v) \in {Dig2(d.d) \o r} \cup (IF d.d < 10 THEN {<<48 + d.d>> \o r} ELSE {})
\* --- the commands
Kw(s) == CASE s = "LOGIN" -> <<76, 79, 71, 73, 78>> [] s = "AUTHENTICATE" -> <<65, 85, 84, 72, 69, 78, 84, 73, 67, 65, 84, 69>> [] s = "LIST" -> <<76, 73, 83, 84>>
           [] s = "SELECT" -> <<83, 69, 76, 69, 67, 84>> [] s = "EXAMINE" -> <<69, 88, 65, 77, 73, 78, 69>> [] s = "STATUS" -> <<83, 84, 65, 84, 85, 83>> [] s = "CREATE" -> <<67, 82, 69, 65, 84, 69>>
           [] s = "DELETE" -> <<68, 69, 76, 69, 84, 69>> [] s = "RENAME" -> <<82, 69, 78, 65, 77, 69>> [] s = "FETCH" -> <<70, 69, 84, 67, 72>> [] s = "STORE" -> <<83, 84, 79, 82, 69>>
           [] s = "APPEND" -> <<65, 80, 80, 69, 78, 68>> [] s = "COPY" -> <<67, 79, 80, 89>> [] s = "SEARCH" -> <<83, 69, 65, 82, 67, 72>> [] s = "UID" -> <<85, 73, 68>> [] s = "CHARSET" -> <<67, 72, 65, 82, 83, 69, 84>>
           [] s = "+FLAGS" -> <<43, 70, 76, 65, 71, 83>> [] s = "-FLAGS" -> <<45, 70, 76, 65, 71, 83>> [] s = "FLAGS" -> <<70, 76, 65, 71, 83>> [] s = "STARTTLS" -> <<83, 84, 65, 82, 84, 84, 76, 83>>
           [] s = "CAPABILITY" -> <<67, 65, 80, 65, 66, 73, 76, 73, 84, 89>> [] s = "NOOP" -> <<78, 79, 79, 80>> [] s = "EXPUNGE" -> <<69, 88, 80, 85, 78, 71, 69>> [] s = "CLOSE" -> <<67, 76, 79, 83, 69>> [] s = "LOGOUT" -> <<76, 79, 71, 79, 85, 84>>
Is(ns, i, w) == Len(ns) >= i /\ IsKw(ns[i], Kw(w))
\* the sequence set follows [UID] VERB; the arguments of the verb start at this index
UidAt(ns, e, w) == IF e.uid THEN Is(ns, 1, "UID") /\ Is(ns, 2, w) ELSE Is(ns, 1, w)
Off(e) == IF e.uid THEN 2 ELSE 1
ModeKw(m) == CASE m = "add" -> "+FLAGS" [] m = "remove" -> "-FLAGS" [] OTHER -> "FLAGS"
\* --- search keys; a tree is [t, s, s2: bytes, n, d: date, rs: ranges, k: trees]
KwB(n, b) == n.t = "atom" /\ Up(n.v) = b
RECURSIVE Key(_, _, _)      \* the index behind the key which starts at node i and denotes t; 0: there is no such key
RECURSIVE KeysIn(_, _, _, _)
KeysIn(ns, i, ts, j) == IF j > Len(ts) THEN i ELSE IF i > Len(ns) THEN 0 ELSE LET r == Key(ns, i, ts[j]) IN IF r = 0 THEN 0 ELSE KeysIn(ns, r, ts, j + 1)
AllKeys(ns, ts) == KeysIn(ns, 1, ts, 1) = Len(ns) + 1
Flat(t) == IF t.t = "AND" THEN t.k ELSE <<t>>
Key(ns, i, t) ==
  IF i > Len(ns) THEN 0
  ELSE IF ns[i].t = "list" THEN IF ns[i].l # <<>> /\ (AllKeys(ns[i].l, Flat(t)) \/ AllKeys(ns[i].l, <<t>>)) THEN i + 1 ELSE 0
  ELSE CASE t.t = "AND" -> IF Len(t.k) = 1 THEN Key(ns, i, t.k[1]) ELSE 0
         [] t.t = "NOT" -> IF KwB(ns[i], t.w) THEN Key(ns, i + 1, t.k[1]) ELSE 0
         [] t.t = "OR" -> IF KwB(ns[i], t.w) THEN LET r == Key(ns, i + 1, t.k[1]) IN IF r = 0 THEN 0 ELSE Key(ns, r, t.k[2]) ELSE 0
         [] t.t = "bare" -> IF KwB(ns[i], t.w) THEN i + 1 ELSE 0
         [] t.t = "str" -> IF KwB(ns[i], t.w) /\ i < Len(ns) /\ IsAstr(ns[i + 1], t.s) THEN i + 2 ELSE 0
         [] t.t = "hdr" -> IF KwB(ns[i], t.w) /\ i + 1 < Len(ns) /\ IsAstr(ns[i + 1], t.s2) /\ IsAstr(ns[i + 2], t.s) THEN i + 3 ELSE 0
         [] t.t = "num" -> IF KwB(ns[i], t.w) /\ i < Len(ns) /\ ns[i + 1].t = "atom" /\ ns[i + 1].v = t.s THEN i + 2 ELSE 0
         [] t.t = "date" -> IF KwB(ns[i], t.w) /\ i < Len(ns) /\ IsDate(ns[i + 1], t.d) THEN i + 2 ELSE 0
         [] t.t = "set" -> IF t.w = <<>> THEN (IF IsSet(ns[i], t.rs) THEN i + 1 ELSE 0) ELSE IF KwB(ns[i], t.w) /\ i < Len(ns) /\ IsSet(ns[i + 1], t.rs) THEN i + 2 ELSE 0
\* --- modified UTF-7
B64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 44 THEN 63 ELSE 99
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(q, i) == (q[(i \div 6) + 1] \div P2[6 - (i % 6)]) % 2     \* bit i (0-based) of the sextets
RECURSIVE SumBits(_, _, _)
SumBits(q, a, k) == IF k = 16 THEN 0 ELSE Bit(q, a + k) * P2[16 - k] + SumBits(q, a, k + 1)
Units(q) == [u \in 1..((6 * Len(q)) \div 16) |-> SumBits(q, 16 * (u - 1), 0)]
PadOk(q) == LET r == (6 * Len(q)) % 16 IN r < 6 /\ \A i \in (6 * Len(q) - r)..(6 * Len(q) - 1) : Bit(q, i) = 0
RECURSIVE Utf16(_, _)
Utf16(u, i) == IF i > Len(u) THEN <<>>
               ELSE IF u[i] \in 55296..56319 THEN IF i < Len(u) /\ u[i + 1] \in 56320..57343 THEN <<65536 + 1024 * (u[i] - 55296) + (u[i + 1] - 56320)>> \o Utf16(u, i + 2) ELSE <<-1>>
               ELSE IF u[i] \in 56320..57343 THEN <<-1>> ELSE <<u[i]>> \o Utf16(u, i + 1)
RECURSIVE ShiftEnd(_, _)
ShiftEnd(x, p) == IF p > Len(x) THEN 0 ELSE IF x[p] = 45 THEN p ELSE IF B64(x[p]) = 99 THEN 0 ELSE ShiftEnd(x, p + 1)
RECURSIVE M7(_, _, _)       \* code points of a mailbox name from p; prev: a shifted run ends here.  <<-1>> inside: not modified UTF-7
M7(x, p, prev) ==
  IF p > Len(x) THEN <<>>
  ELSE IF x[p] = 38 THEN
     LET z == ShiftEnd(x, p + 1) IN
     IF z = 0 THEN <<-1>>
     ELSE IF z = p + 1 THEN <<38>> \o M7(x, z + 1, FALSE)
     ELSE LET q == [i \in 1..(z - p - 1) |-> B64(x[p + i])] IN
          IF prev \/ ~PadOk(q) THEN <<-1>> ELSE Utf16(Units(q), 1) \o M7(x, z + 1, TRUE)
  ELSE IF x[p] \in 32..126 THEN <<x[p]>> \o M7(x, p + 1, FALSE) ELSE <<-1>>
RECURSIVE U8(_, _)
U8(b, p) == IF p > Len(b) THEN <<>>
            ELSE LET n == IF b[p] < 128 THEN 0 ELSE IF b[p] \in 194..223 THEN 1 ELSE IF b[p] \in 224..239 THEN 2 ELSE IF b[p] \in 240..244 THEN 3 ELSE 9 IN
                 IF n = 9 \/ p + n > Len(b) THEN <<-1>>
                 ELSE IF \E i \in 1..n : b[p + i] \notin 128..191 THEN <<-1>>
                 ELSE <<CASE n = 0 -> b[p] [] n = 1 -> 64 * (b[p] - 192) + (b[p + 1] - 128) [] n = 2 -> 4096 * (b[p] - 224) + 64 * (b[p + 1] - 128) + (b[p + 2] - 128)
                          [] OTHER -> 262144 * (b[p] - 240) + 4096 * (b[p + 1] - 128) + 64 * (b[p + 2] - 128) + (b[p + 3] - 128)>> \o U8(b, p + n + 1)
Cps(c) == IF c.cs = "utf-8" THEN U8(c.x, 1) ELSE c.x
\* the canonical name of a sequence of code points (used to read names, and by the model)
Sext(s) == IF s < 26 THEN 65 + s ELSE IF s < 52 THEN 71 + s ELSE IF s < 62 THEN s - 4 ELSE IF s = 62 THEN 43 ELSE 44
To16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Bits16(u) == [i \in 1..(16 * Len(u)) |-> (u[((i - 1) \div 16) + 1] \div P2[16 - ((i - 1) % 16)]) % 2]
B64Enc(u) == LET b == Bits16(u) n == (Len(b) + 5) \div 6 B(i) == IF i <= Len(b) THEN b[i] ELSE 0
                 v(k) == 32 * B(6 * k - 5) + 16 * B(6 * k - 4) + 8 * B(6 * k - 3) + 4 * B(6 * k - 2) + 2 * B(6 * k - 1) + B(6 * k)
             IN [k \in 1..n |-> Sext(v(k))]
Direct(c, sep) == c \in 32..126 /\ c # sep
RECURSIVE RunEnd(_, _, _)
RunEnd(q, i, sep) == IF i <= Len(q) /\ ~Direct(q[i], sep) THEN RunEnd(q, i + 1, sep) ELSE i
RECURSIVE E7(_, _, _)
E7(q, i, sep) == IF i > Len(q) THEN <<>>
                 ELSE IF q[i] = 38 /\ sep # 38 THEN <<38, 45>> \o E7(q, i + 1, sep)
                 ELSE IF Direct(q[i], sep) THEN <<q[i]>> \o E7(q, i + 1, sep)
                 ELSE LET z == RunEnd(q, i, sep) IN <<38>> \o B64Enc(FlattenSeq([k \in 1..(z - i) |-> To16(q[i + k - 1])])) \o <<45>> \o E7(q, z, sep)
\* the name of a path: its components, in modified UTF-7, between separators
NameOk(text, comps, sep) ==
  LET want == [i \in 1..Len(comps) |-> Cps(comps[i])] IN
  IF want = <<>> THEN text = <<>> ELSE LET q == Split(text, sep) IN Len(q) = Len(want) /\ \A i \in 1..Len(q) : M7(q[i], 1, FALSE) = want[i]
\* a mailbox argument: a name, or (sep # 0) the path it must denote
IsMb(n, v, comps, sep) == IF sep = 0 THEN IsAstr(n, v) ELSE IsAstr(n, n.v) /\ NameOk(n.v, comps, sep)
\* --- fetch options
Fld(s) == CASE s = "CONTENT-TYPE" -> <<67, 79, 78, 84, 69, 78, 84, 45, 84, 89, 80, 69>> [] s = "IMPORTANCE" -> <<73, 77, 80, 79, 82, 84, 65, 78, 67, 69>> [] OTHER -> <<88, 45, 80, 82, 73, 79, 82, 73, 84, 89>>
Item(s) == CASE s = "SIZE" -> <<82, 70, 67, 56, 50, 50, 46, 83, 73, 90, 69>> [] s = "FLAGS" -> Kw("FLAGS") [] s = "STRUCTURE" -> <<66, 79, 68, 89, 83, 84, 82, 85, 67, 84, 85, 82, 69>>
             [] s = "UID" -> Kw("UID") [] s = "ENVELOPE" -> <<69, 78, 86, 69, 76, 79, 80, 69>> [] OTHER -> <<82, 70, 67, 56, 50, 50, 46, 72, 69, 65, 68, 69, 82>>
W_FIELDS == <<72, 69, 65, 68, 69, 82, 46, 70, 73, 69, 76, 68, 83>>
W_HEADER == <<72, 69, 65, 68, 69, 82>>
FetchOk(e) ==
  LET ns == Parse(e.text, TRUE) n == Len(ns) o == ToSet(e.opts) full == "FULL_HEADER" \in o
      l == IF ns[n].t = "list" THEN ns[n].l ELSE <<ns[n]>>
      flds == {Up(e.hdrs[i]) : i \in 1..Len(e.hdrs)} \cup (IF "IMPORTANCE" \in o THEN {Fld("IMPORTANCE"), Fld("X-PRIORITY")} ELSE {})
      sec == {i \in 1..Len(l) : l[i].t \in {"body", "peek"} /\ l[i].l # <<>> /\ KwB(l[i].l[1], W_FIELDS)}
      hdr == {i \in 1..Len(l) : l[i].t \in {"body", "peek"} /\ Len(l[i].l) = 1 /\ KwB(l[i].l[1], W_HEADER)}
      got == UNION {{Up(l[i].l[2].l[j].v) : j \in 1..Len(l[i].l[2].l)} : i \in sec}
  IN
  /\ ~\E i \in 1..n : IsBad(ns[i])
  /\ UidAt(ns, e, "FETCH") /\ n = Off(e) + 2 /\ IsSet(ns[Off(e) + 1], e.rs)
  /\ ("PEEK" \in o => \A i \in 1..Len(l) : l[i].t # "body")
  /\ \A i \in sec : Len(l[i].l) = 2 /\ l[i].v = <<>> /\ l[i].l[2].t = "list" /\ l[i].l[2].l # <<>> /\ \A j \in 1..Len(l[i].l[2].l) : IsAstr(l[i].l[2].l[j], l[i].l[2].l[j].v)
  /\ \A i \in 1..Len(l) : i \in sec \cup hdr \/ l[i].t = "atom"
  /\ LET kws == {Up(l[i].v) : i \in {j \in 1..Len(l) : l[j].t = "atom"}} IN
     /\ kws \ {Item("RFC822.HEADER")} = {Item(s) : s \in o \cap (IF full THEN {"SIZE", "FLAGS", "STRUCTURE", "UID"} ELSE {"SIZE", "FLAGS", "STRUCTURE", "UID", "ENVELOPE"})}
     /\ (full <=> (Item("RFC822.HEADER") \in kws \/ hdr # {}))
     \* (the field asked for by CONTENT_INFO is judged by the event fetchci)
  /\ IF full THEN sec = {} ELSE got \ {Fld("CONTENT-TYPE"), <<67, 79, 78, 84, 69, 78, 84, 95, 84, 89, 80, 69>>} = flds
FetchCiOk(e) == LET ns == Parse(e.text, TRUE) n == Len(ns) IN
  /\ n = 3 /\ ns[3].t \in {"body", "peek"} /\ Len(ns[3].l) = 2 /\ KwB(ns[3].l[1], W_FIELDS) /\ Len(ns[3].l[2].l) = 1 /\ KwB(ns[3].l[2].l[1], Fld("CONTENT-TYPE"))
\* --- what each command must say
CmdOk(e) ==
  LET ns == Parse(e.text, e.v \in {"FETCH", "FETCHO", "PART"}) n == Len(ns) IN
  /\ ~\E i \in 1..n : IsBad(ns[i])
  /\ \A i \in 1..Len(e.text) : e.text[i] \notin {0, 10, 13}
  /\ CASE e.v \in {"STARTTLS", "CAPABILITY", "NOOP", "EXPUNGE", "CLOSE", "LOGOUT"} -> n = 1 /\ Is(ns, 1, e.v)
       [] e.v = "LOGIN" -> n = 3 /\ Is(ns, 1, "LOGIN") /\ IsAstr(ns[2], e.a) /\ IsAstr(ns[3], e.b)
       [] e.v = "AUTHENTICATE" -> Is(ns, 1, "AUTHENTICATE") /\ n = 2 + (IF e.ir THEN 1 ELSE 0) /\ KwB(ns[2], Up(e.a)) /\ (e.ir => ns[3].t = "atom" /\ ns[3].v = e.b)
       [] e.v = "LIST" -> n = 3 /\ Is(ns, 1, "LIST") /\ IsAstr(ns[2], e.a) /\ IsListMbox(ns[3], e.b)
       [] e.v = "SELECT" -> n = 2 + (IF e.ps = <<>> THEN 0 ELSE 1) /\ Is(ns, 1, IF e.ro THEN "EXAMINE" ELSE "SELECT") /\ IsMb(ns[2], e.a, e.ap, e.sep) /\ (e.ps # <<>> => ns[3].t = "list" /\ SameKws(ns[3].l, e.ps))
       [] e.v = "CREATE" -> n = 2 + (IF e.use = <<>> THEN 0 ELSE 1) /\ Is(ns, 1, "CREATE")
                            \* (a separator at the end: there will be mailboxes below this one)
                            /\ (IF e.rec THEN LET k == Len(ns[2].v) IN IsAstr(ns[2], ns[2].v) /\ k > 1 /\ ns[2].v[k] = e.sep /\ NameOk(SubSeq(ns[2].v, 1, k - 1), e.ap, e.sep) ELSE IsMb(ns[2], e.a, e.ap, e.sep))
                            /\ (e.use # <<>> => ns[3].t = "list" /\ Len(ns[3].l) = 2 /\ KwB(ns[3].l[1], <<85, 83, 69>>) /\ ns[3].l[2].t = "list" /\ SameKws(ns[3].l[2].l, e.use))
       [] e.v = "STATUS" -> n = 3 /\ Is(ns, 1, "STATUS") /\ IsMb(ns[2], e.a, e.ap, e.sep) /\ ns[3].t = "list" /\ SameKws(ns[3].l, e.ps)
       [] e.v = "DELETE" -> n = 2 /\ Is(ns, 1, "DELETE") /\ IsMb(ns[2], e.a, e.ap, e.sep)
       [] e.v = "RENAME" -> n = 3 /\ Is(ns, 1, "RENAME") /\ IsMb(ns[2], e.a, e.ap, e.sep) /\ IsMb(ns[3], e.b, e.bp, e.sep)
       [] e.v = "FETCH" -> UidAt(ns, e, "FETCH") /\ n = Off(e) + 2 /\ IsSet(ns[Off(e) + 1], e.rs) /\ (LET l == IF ns[n].t = "list" THEN ns[n].l ELSE <<ns[n]>> IN SameKws(l, e.ps))
       [] e.v = "STORE" -> UidAt(ns, e, "STORE") /\ n = Off(e) + 3 /\ IsSet(ns[Off(e) + 1], e.rs) /\ Is(ns, Off(e) + 2, ModeKw(e.mode)) /\ ns[n].t = "list" /\ SameKws(ns[n].l, e.ps)
       [] e.v = "COPY" -> UidAt(ns, e, "COPY") /\ n = Off(e) + 2 /\ IsSet(ns[Off(e) + 1], e.rs) /\ IsMb(ns[n], e.a, e.ap, e.sep)
       [] e.v = "APPEND" -> LET f == IF e.ps = <<>> THEN 0 ELSE 1 d == IF e.dated THEN 1 ELSE 0 IN
                            /\ Is(ns, 1, "APPEND") /\ n = 3 + f + d /\ IsMb(ns[2], e.a, e.ap, e.sep) /\ (f = 1 => ns[3].t = "list" /\ SameKws(ns[3].l, e.ps))
                            /\ (d = 1 => IsDateTime(ns[3 + f], e.d)) /\ ns[n].t = "lit" /\ IsNum(ns[n].v) /\ NumV(ns[n].v, 1, 0) = e.n
       [] e.v = "SEARCH" -> LET c == IF e.cs = <<>> THEN 0 ELSE 2 IN
                            /\ UidAt(ns, e, "SEARCH") /\ n > Off(e) + c /\ (c = 2 => Is(ns, Off(e) + 1, "CHARSET") /\ IsAstr(ns[Off(e) + 2], e.cs))
                            /\ AllKeys(SubSeq(ns, Off(e) + c + 1, n), e.k)
       \* of the folders: does this one exist; the folders below it; the messages (by number or unique id) with these items; the content of a message
       [] e.v = "EXISTS" -> n = 3 /\ Is(ns, 1, "LIST") /\ IsAstr(ns[2], <<>>) /\ IsListMbox(ns[3], ns[3].v) /\ NameOk(ns[3].v, e.ap, e.sep)
       [] e.v = "LISTIN" -> n = 3 /\ Is(ns, 1, "LIST") /\ IsAstr(ns[2], ns[2].v) /\ IsListMbox(ns[3], ns[3].v)
                            /\ LET x == ns[2].v \o ns[3].v k == Len(x) w == IF e.rec THEN 42 ELSE 37 IN
                               /\ k > 0 /\ x[k] = w
                               /\ IF e.ap = <<>> THEN k = 1
                                  ELSE IF k > 1 /\ x[k - 1] = e.sep THEN NameOk(SubSeq(x, 1, k - 2), e.ap, e.sep)
                                  ELSE e.rec /\ NameOk(SubSeq(x, 1, k - 1), e.ap, e.sep)
       [] e.v = "FETCHO" -> LET u == Is(ns, 1, "UID") IN FetchOk([e EXCEPT !.uid = u, !.rs = IF u THEN e.rsu ELSE e.rs])
       [] e.v = "PART" -> LET u == Is(ns, 1, "UID") f == [e EXCEPT !.uid = u] nd == IF ns[n].t = "list" /\ Len(ns[n].l) = 1 THEN ns[n].l[1] ELSE ns[n] IN
                          /\ UidAt(ns, f, "FETCH") /\ n = Off(f) + 2 /\ IsSet(ns[n - 1], IF u THEN e.rsu ELSE e.rs)
                          /\ nd.t = (IF e.peek THEN "peek" ELSE "body") /\ nd.l = <<>> /\ nd.v = e.a
       [] OTHER -> FALSE
PathOk(e) ==
  LET bad == \E i \in 1..Len(e.comps) : -1 \in ToSet(Cps(e.comps[i])) IN
  IF bad THEN e.thrown ELSE ~e.thrown /\ NameOk(e.text, e.comps, e.sep)
UnpathOk(e) ==
  LET q == Split(e.text, e.sep) IN
  ~e.thrown /\ Len(e.comps) = Len(q) /\ \A i \in 1..Len(q) : M7(q[i], 1, FALSE) = Cps(e.comps[i])
\* --- events
\* cmd[v, arguments, text, thrown]; trace[a, b: trace text of LOGIN with two passwords]; path; unpath; fetch; fetchci
\* call[x: the commands the operation must send, in order, each like cmd] line[x: bytes after the tag] lit[x: bytes] ret[thrown]
Init0(cfg) == [open |-> FALSE, want |-> <<>>, must |-> FALSE]
Ok(Chk, s, e) ==
  CASE e.e = "cmd" -> ~e.thrown /\ CmdOk(e)
    [] e.e = "trace" -> e.a = e.b
    [] e.e = "path" -> PathOk(e)
    [] e.e = "unpath" -> UnpathOk(e)
    [] e.e = "fetch" -> ~e.thrown /\ FetchOk(e)
    [] e.e = "fetchci" -> ~e.thrown /\ FetchCiOk(e)
    [] e.e = "call" -> ~s.open
    [] e.e = "line" -> IF ~s.open \/ s.want = <<>> THEN FALSE ELSE LET w == Head(s.want) IN IF w.v = "data" THEN e.x = w.a ELSE CmdOk([w EXCEPT !.text = e.x])
    [] e.e = "ret" -> IF s.must THEN e.thrown ELSE (~e.thrown /\ s.want = <<>>)
    [] e.e \in {"crash", "escaped", "hang"} -> FALSE
    [] OTHER -> FALSE
Nxt(s, e) ==
  CASE e.e = "call" -> [open |-> TRUE, want |-> IF e.must THEN <<>> ELSE e.x, must |-> e.must]
    [] e.e = "line" -> [s EXCEPT !.want = Tail(@)]
    [] e.e = "ret" -> [s EXCEPT !.open = FALSE, !.want = <<>>]
    [] OTHER -> s
=============================================================================
