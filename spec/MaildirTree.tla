---------------------------- MODULE MaildirTree ----------------------------
(* The folder tree of a Courier maildir store as the flat directory names the algorithm works on, against the tree
   of folders it must represent.  Every initial tree over a small universe of paths, then every sequence of MaxOps
   operations; the behaviours are replayed into the library for both layouts (judged by MaildirTrace). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt
CONSTANTS MaxOps, Dot, GenScripts
Universe == {<<"a">>, <<"ab">>, <<"a", "b">>, <<"a", "b", "c">>, <<"ab", "b">>, <<"a", "ab">>}
Targets == Universe \cup {<<"b">>, <<"ab", "b", "c">>}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Closed(T) == \A p \in T : Len(p) = 1 \/ Parent(p) \in T
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Chars(n) == CASE n = "ab" -> <<"a", "b">> [] OTHER -> <<n>>
Flat(p) == FlattenSeq([i \in 1..Len(p) |-> <<".">> \o Chars(p[i])])
Dots(d) == Cardinality({i \in 1..Len(d) : d[i] = "."})
VARIABLES dirs, tree, ops, init, exact
vars == <<dirs, tree, ops, init, exact>>

Init == \E T \in SUBSET Universe : Closed(T) /\ T # {} /\ init = T /\ tree = T /\ dirs = {Flat(p) : p \in T} /\ ops = <<>> /\ exact = TRUE

\* what the algorithm finds below a folder
Below(p, rec) == {d \in dirs : LET f == Flat(p) \o (IF Dot THEN <<".">> ELSE <<>>) IN
                                Len(d) > Len(f) /\ SubSeq(d, 1, Len(f)) = f /\ (rec \/ Dots(d) = Len(p) + 1)}
Moved(d, p, q) == Flat(q) \o SubSeq(d, Len(Flat(p)) + 1, Len(d))
Op(o) == ops' = Append(ops, o)
Str(p) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "/" \o x, "", p)
Destroy(p) == /\ dirs' = dirs \ (Below(p, TRUE) \cup {Flat(p)}) /\ tree' = {q \in tree : ~Prefix(p, q)} /\ Op("D=" \o Str(p)) /\ exact' = exact
Create(p) == /\ Len(p) = 1 \/ Parent(p) \in tree
             /\ dirs' = dirs \cup {Flat(p)} /\ tree' = tree \cup {p} /\ Op("C=" \o Str(p)) /\ exact' = exact
Rename(p, q) ==
  LET src == Below(p, TRUE) \cup {Flat(p)} good == Flat(p) \in dirs /\ \A d \in src : Moved(d, p, q) \notin dirs IN
  /\ p # q /\ ~Prefix(p, q) /\ (Len(q) = 1 \/ Parent(q) \in tree) /\ Op("R=" \o Str(p) \o ">" \o Str(q))
  /\ dirs' = IF good THEN (dirs \ src) \cup {Moved(d, p, q) : d \in src} ELSE dirs
  /\ tree' = IF p \in tree /\ {q \o SubSeq(x, Len(p) + 1, Len(x)) : x \in {y \in tree : Prefix(p, y)}} \cap tree = {}
             THEN {IF Prefix(p, x) THEN q \o SubSeq(x, Len(p) + 1, Len(x)) ELSE x : x \in tree} ELSE tree
  /\ exact' = exact
List(p, rec) == /\ UNCHANGED <<dirs, tree>> /\ Op((IF rec THEN "L=" ELSE "l=") \o Str(p))
                /\ exact' = (Below(p, rec) = {Flat(q) : q \in {x \in tree : Prefix(p, x) /\ Len(x) > Len(p) /\ (rec \/ Len(x) = Len(p) + 1)}})
Next ==
  \/ /\ Len(ops) < MaxOps /\ UNCHANGED init
     /\ \/ \E p \in Universe : Destroy(p) \/ (\E q \in Targets : Rename(p, q)) \/ (\E r \in BOOLEAN : Len(ops) = 0 /\ List(p, r))
        \/ \E p \in Targets : Create(p)
  \/ /\ GenScripts /\ Len(ops) = MaxOps /\ ops[MaxOps] # "end"
     /\ PrintT("SCRIPT " \o ToJson([init |-> {Str(p) : p \in init}, ops |-> ops]))
     /\ FALSE /\ UNCHANGED vars
Sound == exact /\ dirs = {Flat(p) : p \in tree}
=============================================================================
