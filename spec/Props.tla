-------------------------------- MODULE Props --------------------------------
(* Property sets: maps from names (compared without case: k) to text; typed reads and writes; lists of properties
   parsed from text; copies.  Three sets: A, B, C.  Text is a sequence of character codes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Digit(c) == c \in 48..57
AllDigits(v) == v # <<>> /\ \A i \in 1..Len(v) : Digit(v[i])
IsInt(v) == AllDigits(v) \/ (Len(v) > 1 /\ v[1] = 45 /\ AllDigits(Tail(v)))
ToNat(v) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, v)
ToInt(v) == IF v[1] = 45 THEN -ToNat(Tail(v)) ELSE ToNat(v)
\* text which cannot be read as a number
NotNum(v) == v = <<>> \/ (~Digit(v[1]) /\ v[1] \notin {43, 45, 46, 32, 9, 10, 11, 12, 13, 40})
Low(v) == [i \in 1..Len(v) |-> IF v[i] \in 65..90 THEN v[i] + 32 ELSE v[i]]
TRUEs == <<116, 114, 117, 101>>
FALSEs == <<102, 97, 108, 115, 101>>
ONE == <<49>>
RECURSIVE NatDigits(_)
NatDigits(m) == IF m < 10 THEN <<48 + m>> ELSE Append(NatDigits(m \div 10), 48 + (m % 10))
DigitsOf(n) == IF n < 0 THEN <<45>> \o NatDigits(-n) ELSE NatDigits(n)
Text(e) == CASE e.t = "s" -> e.v [] e.t = "b" -> (IF e.v THEN TRUEs ELSE FALSEs) [] e.t = "i" -> DigitsOf(e.v)
Init0(cfg) == [A |-> <<>>, B |-> <<>>, C |-> <<>>]
\* a map is kept as a sequence of [k, v] in order of creation
Pos(m, k) == IF \E j \in 1..Len(m) : m[j].k = k THEN CHOOSE j \in 1..Len(m) : m[j].k = k ELSE 0
Put(m, k, v) == IF Pos(m, k) = 0 THEN Append(m, [k |-> k, v |-> v]) ELSE [m EXCEPT ![Pos(m, k)].v = v]
Rm(m, k) == SelectSeq(m, LAMBDA x : x.k # k)
PutAll(m, L) == FoldLeft(LAMBDA a, x : Put(a, x.k, IF x.has THEN x.v ELSE ONE), m, L)
M(s, e) ==
  CASE e.e = "set" -> Put(s[e.h], e.k, Text(e))
    [] e.e = "rm" -> Rm(s[e.h], e.k)
    [] e.e = "clear" -> <<>>
    [] e.e = "parse" -> PutAll(IF e.new THEN <<>> ELSE s[e.h], e.l)
    [] e.e = "copy" -> s[e.src]
    [] OTHER -> s[e.h]
Get(m, e) ==
  LET p == Pos(m, e.k) IN
  IF p = 0 THEN e.r = (IF e.def THEN "d" ELSE "none")
  ELSE LET v == m[p].v IN
       CASE e.t = "s" -> e.r = "v" /\ e.v = v
         [] e.t = "i" -> /\ IsInt(v) => e.r = "v" /\ e.v = ToInt(v)
                         /\ NotNum(v) => e.r = "type"
         [] e.t = "b" -> e.r = "v" /\ (Low(v) = TRUEs => e.v)
                         /\ (IsInt(v) => e.v = (ToInt(v) # 0))
                         /\ (NotNum(v) /\ Low(v) # TRUEs => ~e.v)
Same(m, l) == /\ Len(l) = Len(m) /\ \A j \in 1..Len(m) : l[j].k = m[j].k /\ l[j].v = m[j].v
Ok(Chk, s, e) ==
  CASE e.e = "get" -> Get(s[e.h], e)
    [] e.e = "has" -> e.r = (Pos(s[e.h], e.k) # 0)
    [] OTHER -> \A h \in {"A", "B", "C"} : Same(IF h = e.h THEN M(s, e) ELSE s[h], e[h])
Nxt(s, e) == IF e.e \in {"get", "has"} THEN s ELSE [s EXCEPT ![e.h] = M(s, e)]
=============================================================================
