--------------------------- MODULE ParamTextModel ---------------------------
(* A writer of one parameter as an algorithm, in each legal form (quoted string, extended value, two sections, each
   extended or quoted, in either order, another parameter before, between or behind), checked against ParamText.tla for
   every value of at most MaxLen atoms.  EscBack: backslashes are escaped in quoted strings.  EscPct: percent signs are
   encoded in extended values. *)
EXTENDS ParamText, Json
CONSTANTS MaxLen, EscBack, EscPct, GenScripts
VARIABLES v, form, done
vars == <<v, form, done>>
Atoms == {97, 32, 34, 92, 59, 37, 39, 233}
L1 == <<105, 115, 111, 45, 56, 56, 53, 57, 45, 49>>
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Q(w) == <<34>> \o FlattenSeq([i \in 1..Len(w) |-> IF w[i] = 34 \/ (w[i] = 92 /\ EscBack) THEN <<92, w[i]>> ELSE <<w[i]>>]) \o <<34>>
P(w) == FlattenSeq([i \in 1..Len(w) |-> IF w[i] = 97 \/ (w[i] = 37 /\ ~EscPct) THEN <<w[i]>> ELSE <<37, HexD(w[i] \div 16), HexD(w[i] % 16)>>])
Cs == L1 \o <<39, 39>>
Oth == <<59, 32, 111, 61, 122>>                                     \* ; o=z
NamePart(sec, enc) == <<59, 32, 110>> \o (IF sec < 0 THEN <<>> ELSE <<42, 48 + sec>>) \o (IF enc THEN <<42>> ELSE <<>>) \o <<61>>
Sec(k, enc, w) == NamePart(k, enc) \o (IF enc THEN (IF k = 0 THEN Cs ELSE <<>>) \o P(w) ELSE Q(w))
Pieces == CASE form.k = "q" -> << NamePart(-1, FALSE) \o Q(v) >>
            [] form.k = "x" -> << NamePart(-1, TRUE) \o Cs \o P(v) >>
            [] OTHER -> LET a == Sec(0, form.e0, SubSeq(v, 1, form.cut)) b == Sec(1, form.e1, SubSeq(v, form.cut + 1, Len(v)))
                        IN IF form.swap THEN <<b, a>> ELSE <<a, b>>
WithO == LET p == Pieces IN SubSeq(p, 1, form.o) \o <<Oth>> \o SubSeq(p, form.o + 1, Len(p))
X == <<97, 47, 98>> \o FlattenSeq(WithO)
Asc(w) == \A i \in 1..Len(w) : w[i] < 128
Forms ==
  (IF Asc(v) THEN [k : {"q"}, o : {0, 1}] ELSE {})
  \cup [k : {"x"}, o : {0, 1}]
  \cup {f \in [k : {"s"}, cut : 0..Len(v), e0 : BOOLEAN, e1 : BOOLEAN, swap : BOOLEAN, o : 0..2] :
          (f.e0 \/ (~f.e1 /\ Asc(v))) /\ (f.e1 => f.cut < Len(v)) /\ (f.e1 \/ Asc(SubSeq(v, f.cut + 1, Len(v))))}
Init == v = <<>> /\ form = <<>> /\ done = FALSE
Add == ~done /\ Len(v) < MaxLen /\ \E t \in Atoms : v' = Append(v, t) /\ UNCHANGED <<form, done>>
Stop == ~done /\ v # <<>> /\ \E f \in Forms : form' = f /\ done' = TRUE /\ UNCHANGED v
Emit == GenScripts => PrintT("SCRIPT " \o ToJson([x |-> X]))
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars
Sound == done => LET r == Read(X) IN
           r.ok /\ r.val = <<97, 47, 98>> /\ DOMAIN r.p = {<<110>>, <<111>>} /\ SameVal(r.p[<<110>>], [cs |-> L1, v |-> v]) /\ r.p[<<111>>].v = <<122>>
           /\ Emit
=============================================================================
