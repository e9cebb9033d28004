----------------------------- MODULE MsgSetModel -----------------------------
(* Building a set from a list: sort, skip duplicates, extend the current range or start another one - against the
   denotation of MsgSet.tla, for every list of at most MaxLen elements of 1..MaxNum (and 9, 10, 11: another digit). *)
EXTENDS MsgSet, Json
CONSTANTS MaxLen, MaxNum, Dedup, GenScripts
Els == (1..MaxNum) \cup {9, 10, 11}
RECURSIVE Dg(_)
Dg(m) == IF m < 10 THEN <<48 + m>> ELSE Append(Dg(m \div 10), 48 + (m % 10))
VARIABLES l, todo, rs, cur, prev
vars == <<l, todo, rs, cur, prev>>
Init == l = <<>> /\ todo = <<>> /\ rs = <<>> /\ cur = 0 /\ prev = 0
Out(a, b) == [t |-> "n", a |-> Dg(a), b |-> Dg(b)]
Start == /\ cur = 0 /\ l # <<>> /\ prev = 0 /\ todo = <<>> /\ rs = <<>>
         /\ LET q == SortSeq(l, <) IN todo' = Tail(q) /\ cur' = q[1] /\ prev' = q[1] /\ UNCHANGED <<l, rs>>
Step == /\ cur # 0 /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED l
        /\ LET x == todo[1] IN
           IF x = prev /\ Dedup THEN UNCHANGED <<rs, cur, prev>>
           ELSE IF x = prev + 1 THEN prev' = x /\ UNCHANGED <<rs, cur>>
           ELSE rs' = Append(rs, Out(cur, prev)) /\ cur' = x /\ prev' = x
Next == \/ cur = 0 /\ Len(l) < MaxLen /\ (\E x \in Els : l' = Append(l, x)) /\ UNCHANGED <<todo, rs, cur, prev>>
        \/ Start \/ Step
        \/ /\ GenScripts /\ cur = 0 /\ l # <<>> /\ PrintT("SCRIPT " \o ToJson([l |-> l])) /\ FALSE /\ UNCHANGED vars
Final == Append(rs, Out(cur, prev))
Sound == (cur # 0 /\ todo = <<>>) => /\ Exactly(Final, {Dg(l[i]) : i \in 1..Len(l)})
                                     /\ \A j \in 2..Len(Final) : Lt(Final[j - 1].b, Final[j].a)  \* no number twice
=============================================================================
