--------------------------- MODULE HeaderTextModel ---------------------------
(* A writer as an algorithm: the words which hold a character beyond ASCII, or which could be taken for an encoded word,
   are encoded, a few characters per encoded word; checked against HeaderText.tla for every text of at most MaxLen atoms.
   KeepWs: the space between two encoded words goes inside.  WholeChars: the pieces are cut between characters. *)
EXTENDS HeaderText, Json
CONSTANTS MaxLen, KeepWs, WholeChars, GenScripts
VARIABLES toks, done
vars == <<toks, done>>
Atoms == {"a", "s", "e", "q", "u", "L"}
Chars(t) == CASE t = "a" -> << <<97>> >> [] t = "s" -> << <<32>> >> [] t = "e" -> << <<195, 169>> >>
              [] t = "q" -> << <<61>>, <<63>> >> [] t = "u" -> << <<95>> >> [] OTHER -> << <<240, 159, 152, 128>>, <<98>>, <<226, 130, 172>> >>
Cs == FlattenSeq([i \in 1..Len(toks) |-> Chars(toks[i])])
X == FlattenSeq(Cs)
\* words: maximal runs of characters other than the space
RECURSIVE Words(_, _)
Words(c, cur) == IF c = <<>> THEN <<cur>> ELSE IF Head(c) = <<32>> THEN <<cur>> \o Words(Tail(c), <<>>) ELSE Words(Tail(c), Append(cur, Head(c)))
Needs(w) == (\E i \in 1..Len(w) : Len(w[i]) > 1) \/ (\E i \in 1..Len(w) : w[i] = <<61>>)
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
QEnc(b) == FlattenSeq([i \in 1..Len(b) |-> IF b[i] = 32 THEN <<95>> ELSE IF b[i] \in (48..57) \cup (65..90) \cup (97..122) THEN <<b[i]>> ELSE <<61, HexD(b[i] \div 16), HexD(b[i] % 16)>>])
RECURSIVE Pieces(_)
Pieces(c) == IF Len(c) <= 2 THEN <<c>> ELSE <<SubSeq(c, 1, 2)>> \o Pieces(SubSeq(c, 3, Len(c)))
Cut(w) == IF WholeChars THEN [i \in 1..Len(Pieces(w)) |-> FlattenSeq(Pieces(w)[i])]
          ELSE LET f == FlattenSeq(w) IN Pieces(f)
Enc(w) == LET p == Cut(w) IN FlattenSeq([i \in 1..Len(p) |-> (IF i > 1 THEN <<13, 10, 32>> ELSE <<>>) \o <<61, 63>> \o UTF8 \o <<63, 81, 63>> \o QEnc(p[i]) \o <<63, 61>>])
RECURSIVE Write(_, _, _)
Write(ws, i, prev) ==      \* prev: the word before is an encoded one
  IF i > Len(ws) THEN <<>>
  ELSE LET n == Needs(ws[i]) IN
       (IF i > 1 THEN <<32>> ELSE <<>>)
       \o (IF n THEN Enc(IF prev /\ KeepWs THEN << <<32>> >> \o ws[i] ELSE ws[i]) ELSE FlattenSeq(ws[i]))
       \o Write(ws, i + 1, n)
Out == Write(Words(Cs, <<>>), 1, FALSE)
Regular == /\ toks # <<>> /\ toks[1] # "s" /\ toks[Len(toks)] # "s"
           /\ \A i \in 1..Len(toks) - 1 : ~(toks[i] = "s" /\ toks[i + 1] = "s")
S0 == [x |-> X, cs |-> UTF8]
Init == toks = <<>> /\ done = FALSE
Add == ~done /\ Len(toks) < MaxLen /\ \E t \in Atoms : toks' = Append(toks, t) /\ UNCHANGED done
Stop == ~done /\ Regular /\ done' = TRUE /\ UNCHANGED toks
        /\ (GenScripts => PrintT("SCRIPT " \o ToJson([x |-> toks])))
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars
Sound == done => GenOk(S0, [x |-> Out])
=============================================================================
