----------------------------- MODULE FiltersModel -----------------------------
(* Each filter as an automaton working on one byte at a time (its state is what must be remembered between two
   pieces, so that any cutting of the data gives the same result), against the functions of Filters.tla:
   every input up to MaxLen over the bytes that matter. *)
EXTENDS Filters, Json
CONSTANTS MaxLen, Hold, GenScripts
Bytes == {CR, LF, DOT, 97}
Seq3 == <<DOT, CR, LF>>
Kinds == {"stuff", "stuff1", "unstuff", "tolf", "tocrlf", "stop"}
VARIABLES kind, x, out, p1, p2, held, done
vars == <<kind, x, out, p1, p2, held, done>>
Init == kind \in Kinds /\ x = <<>> /\ out = <<>> /\ p1 = 0 /\ p2 = 0 /\ held = <<>> /\ done = FALSE
Longest(h) == \* what must be held back of h: its longest suffix which is a proper prefix of the sequence
  LET K == {k \in 0..(Len(Seq3) - 1) : k <= Len(h) /\ SubSeq(h, Len(h) - k + 1, Len(h)) = SubSeq(Seq3, 1, k)}
  IN CHOOSE k \in K : \A j \in K : j <= k
Step(b) ==
  /\ ~done /\ Len(x) < MaxLen /\ x' = Append(x, b) /\ UNCHANGED kind
  /\ CASE kind \in {"stuff", "stuff1"} ->
            /\ out' = out \o (IF b = DOT /\ (p1 = LF \/ (kind = "stuff1" /\ x = <<>>)) THEN <<DOT, DOT>>
                              ELSE IF kind = "stuff" /\ x = <<DOT>> /\ b \in {CR, LF} THEN <<DOT, b>> ELSE <<b>>)
            /\ p1' = b /\ UNCHANGED <<p2, held, done>>
       [] kind = "unstuff" ->
            /\ IF b = DOT /\ p1 = DOT /\ p2 = LF THEN out' = out /\ p2' = 0 /\ p1' = DOT
               ELSE out' = Append(out, b) /\ p2' = p1 /\ p1' = b
            /\ UNCHANGED <<held, done>>
       [] kind = "tolf" ->
            /\ IF b = CR /\ Hold THEN out' = out \o held /\ held' = <<CR>>
               ELSE out' = (IF b = LF THEN out ELSE out \o held) \o <<b>> /\ held' = <<>>
            /\ UNCHANGED <<p1, p2, done>>
       [] kind = "tocrlf" ->
            /\ out' = out \o (IF b = CR THEN <<CR, LF>> ELSE IF b = LF THEN (IF p1 = CR THEN <<>> ELSE <<CR, LF>>) ELSE <<b>>)
            /\ p1' = b /\ UNCHANGED <<p2, held, done>>
       [] kind = "stop" ->
            LET h == Append(held, b) IN
            IF h = Seq3 THEN done' = TRUE /\ held' = <<>> /\ out' = out /\ UNCHANGED <<p1, p2>>
            ELSE LET k == Longest(h) IN
                 /\ out' = out \o SubSeq(h, 1, Len(h) - k) /\ held' = SubSeq(h, Len(h) - k + 1, Len(h))
                 /\ UNCHANGED <<p1, p2, done>>
Next ==
  \/ \E b \in Bytes : Step(b)
  \/ /\ GenScripts /\ kind = "stuff" /\ x # <<>> /\ PrintT("SCRIPT " \o ToJson([x |-> x])) /\ FALSE /\ UNCHANGED vars
\* flushing (or the end of the source) delivers what is held; the bytes after a stop sequence are not delivered
Sound == /\ out \o held = F(kind, x, Seq3)
         /\ \A b \in Bytes : Prefix(out, F(kind, Append(x, b), Seq3))
=============================================================================
