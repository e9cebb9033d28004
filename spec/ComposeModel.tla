----------------------------- MODULE ComposeModel -----------------------------
(* Every request of at most MaxLen objects and MaxLen attachments: what a reader finds in the shape of a request is the request.
   Each is replayed. *)
EXTENDS Compose, Json
CONSTANTS MaxLen, GenScripts,
          Nest      \* FALSE: texts are not grouped beside attachments (must be rejected)
VARIABLES c, done
vars == <<c, done>>
Types == {<<"text", "plain">>, <<"text", "html">>, <<"image", "png">>, <<"message", "rfc822">>}
Seqs(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
Id(i) == <<i + 96, 64>>
Refs(n, ref) == <<104>> \o FlattenSeq([i \in 1..n |-> IF i \in ref THEN CID \o Id(i) ELSE <<>>])
Init == /\ done = FALSE
        /\ \E kind \in {"plain", "html"}, plain \in {<<>>, <<112>>}, at \in Seqs(Types), ot \in Seqs(Types \ {<<"message", "rfc822">>}), add \in {0, 1} :
             /\ (kind = "plain" => ot = <<>>)
             /\ \E ref \in SUBSET (1..Len(ot)) :
                  c = [kind |-> kind, plain |-> plain, html |-> IF kind = "plain" THEN <<>> ELSE Refs(Len(ot), ref), cs |-> "utf-8", ref |-> ref, add |-> add,
                       objs |-> [i \in 1..Len(ot) |-> [id |-> Id(i), mt |-> ot[i][1], st |-> ot[i][2], data |-> <<i>>]],
                       atts |-> [i \in 1..Len(at) |-> [mt |-> at[i][1], st |-> at[i][2], name |-> <<i>>, desc |-> <<>>, data |-> <<i, i>>]]]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ GenScripts => PrintT("SCRIPT " \o ToJson([kind |-> c.kind, plain |-> Len(c.plain), ref |-> [i \in 1..Len(c.objs) |-> IF i \in c.ref THEN 1 ELSE 0], add |-> c.add,
                                                      objs |-> [i \in 1..Len(c.objs) |-> c.objs[i].mt \o "/" \o c.objs[i].st], atts |-> [i \in 1..Len(c.atts) |-> c.atts[i].mt \o "/" \o c.atts[i].st]]))
Spec == Init /\ [][Next]_vars
Extra == [mt |-> "image", st |-> "gif", name |-> <<9>>, desc |-> <<>>, data |-> <<7>>]
T == LET t == Shape0(c, Nest) IN IF c.add = 1 THEN AddAtt(t, Extra) ELSE t
Wanted ==      \* the texts of the request
  IF c.kind = "plain" THEN <<[st |-> "plain", cs |-> c.cs, data |-> c.plain, plain |-> <<>>, objs |-> <<>>]>>
  ELSE (IF c.plain = <<>> THEN <<>> ELSE <<[st |-> "plain", cs |-> c.cs, data |-> c.plain, plain |-> <<>>, objs |-> <<>>]>>)
       \o <<[st |-> "html", cs |-> c.cs, data |-> c.html, plain |-> c.plain, objs |-> SelectSeq(c.objs, LAMBDA o : \E i \in c.ref : c.objs[i] = o)]>>
Sound == /\ SameBag(TextsOf(T), Wanted)
         /\ AttsOf(T) = (IF c.add = 1 THEN Append(c.atts, Extra) ELSE c.atts)
=============================================================================
