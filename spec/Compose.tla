------------------------------- MODULE Compose -------------------------------
(* Messages composed from a request (addresses, subject, plain and HTML text, embedded objects, attachments): the MIME
   shape messageBuilder.cpp and htmlTextPart.hpp document for each combination, and what a reader of messages finds in a
   MIME tree.  A part: [mt, st: type (lower case); disp, cs: disposition, charset ("" if none); cid, loc, name, desc: bytes;
   data: decoded bytes; p: sub-parts].  Text is UTF-8 bytes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Leaf(mt, st, cs, data) == [mt |-> mt, st |-> st, disp |-> "", cs |-> cs, cid |-> <<>>, loc |-> <<>>, name |-> <<>>, desc |-> <<>>, data |-> data, p |-> <<>>]
Group(st, p) == [Leaf("multipart", st, "", <<>>) EXCEPT !.p = p]
ObjPart(o) == [Leaf(o.mt, o.st, "", o.data) EXCEPT !.disp = "inline", !.cid = o.id]
AttPart(a) == [Leaf(a.mt, a.st, "", a.data) EXCEPT !.disp = "attachment", !.name = a.name, !.desc = a.desc]
\* --- the shape of a request
TextParts(c) ==
  IF c.kind = "plain" THEN <<Leaf("text", "plain", c.cs, c.plain)>>
  ELSE LET h == Leaf("text", "html", c.cs, c.html) IN
       (IF c.plain = <<>> THEN <<>> ELSE <<Leaf("text", "plain", c.cs, c.plain)>>)
       \o <<IF c.objs = <<>> THEN h ELSE Group("related", <<h>> \o [i \in 1..Len(c.objs) |-> ObjPart(c.objs[i])])>>
Shape0(c, nest) ==      \* nest: the texts are grouped, beside the attachments
  LET t == TextParts(c) a == [i \in 1..Len(c.atts) |-> AttPart(c.atts[i])] IN
  IF a # <<>> THEN Group("mixed", (IF Len(t) > 1 /\ nest THEN <<Group("alternative", t)>> ELSE t) \o a)
  ELSE IF Len(t) > 1 THEN Group("alternative", t) ELSE t[1]
Shape(c) == Shape0(c, TRUE)
\* --- what a reader finds in a tree
RECURSIVE All(_)
All(t) == <<t>> \o FlattenSeq([i \in 1..Len(t.p) |-> All(t.p[i])])
At(d, k, q) == k + Len(q) - 1 <= Len(d) /\ \A i \in 1..Len(q) : d[k + i - 1] = q[i]
Holds(d, q) == \E k \in 1..Len(d) : At(d, k, q)
CID == <<99, 105, 100, 58>>
CIDu == <<67, 73, 68, 58>>
RefById(d, q) == q.cid # <<>> /\ (Holds(d, CID \o q.cid) \/ Holds(d, CIDu \o q.cid))
RefByLoc(d, q) == q.loc # <<>> /\ Holds(d, q.loc)
\* what the text refers to, wherever it is in the message
Objects(root, d) == LET f(q, id) == [id |-> id, mt |-> q.mt, st |-> q.st, data |-> q.data]
                        x == SelectSeq(All(root), LAMBDA q : RefById(d, q)) y == SelectSeq(All(root), LAMBDA q : RefByLoc(d, q)) IN
                    [i \in 1..Len(x) |-> f(x[i], x[i].cid)] \o [i \in 1..Len(y) |-> f(y[i], y[i].loc)]
\* the texts: those shown in the message.  Within multipart/related only the root is one: the others are what it refers to
Embedded(q) == q.cid # <<>> \/ q.loc # <<>>
IsText(q) == q.p = <<>> /\ q.mt = "text" /\ q.st \in {"plain", "html"} /\ q.disp \in {"", "inline"}
PlainIn(a) == LET q == SelectSeq(a.p, LAMBDA k : k.mt = "text" /\ k.st = "plain" /\ k.p = <<>>) IN IF q = <<>> THEN <<>> ELSE q[1].data
IsAlt(q) == q.mt = "multipart" /\ q.st = "alternative"
RECURSIVE Texts(_, _, _, _)
\* up, up2: the parents (an HTML text in multipart/related stands for it in multipart/alternative)
Texts(root, t, up, up2) ==
  IF t.p = <<>>
  THEN IF ~IsText(t) THEN <<>>
       ELSE <<[st |-> t.st, cs |-> IF t.cs = "" THEN "us-ascii" ELSE t.cs, data |-> t.data,
               plain |-> IF t.st = "plain" THEN <<>> ELSE IF IsAlt(up) THEN PlainIn(up) ELSE IF IsAlt(up2) THEN PlainIn(up2) ELSE <<>>,
               objs |-> IF t.st = "plain" THEN <<>> ELSE Objects(root, t.data)]>>
  ELSE FlattenSeq([i \in 1..Len(t.p) |-> IF t.st = "related" /\ i > 1 /\ Embedded(t.p[i]) THEN <<>> ELSE Texts(root, t.p[i], t, up)])
NoPart == Leaf("", "", "", <<>>)
TextsOf(t) == Texts(t, t, NoPart, NoPart)
\* the attachments: said so, or neither text nor referred to
IsAtt(q, top) ==
  IF q.disp # "" THEN q.disp # "inline" \/ (~Embedded(q) /\ ~top)
  ELSE q.mt \notin {"text", "multipart"} /\ (q.name # <<>> \/ q.cid = <<>>)
RECURSIVE Atts(_, _)
Atts(t, top) == IF IsAtt(t, top) THEN <<[mt |-> t.mt, st |-> t.st, name |-> t.name, desc |-> t.desc, data |-> t.data]>>
                ELSE FlattenSeq([i \in 1..Len(t.p) |-> Atts(t.p[i], FALSE)])
AttsOf(t) == Atts(t, TRUE)
\* --- an attachment added to a message: to its multipart/mixed part, or to one made of it
RECURSIVE HasMixed(_)
HasMixed(t) == (t.mt = "multipart" /\ t.st = "mixed") \/ \E i \in 1..Len(t.p) : HasMixed(t.p[i])
RECURSIVE Into(_, _)
Into(t, a) == IF t.mt = "multipart" /\ t.st = "mixed" THEN [t EXCEPT !.p = Append(@, a)]
              ELSE LET i == CHOOSE i \in 1..Len(t.p) : HasMixed(t.p[i]) /\ \A j \in 1..i - 1 : ~HasMixed(t.p[j]) IN [t EXCEPT !.p[i] = Into(@, a)]
AddAtt(t, a) == IF HasMixed(t) THEN Into(t, AttPart(a)) ELSE Group("mixed", <<[t EXCEPT !.disp = ""], AttPart(a)>>)
\* --- the session
Init0(cfg) == [from |-> <<>>, to |-> <<>>, cc |-> <<>>, bcc |-> <<>>, subj |-> <<>>, kind |-> "plain", plain |-> <<>>, html |-> <<>>, cs |-> "us-ascii", objs |-> <<>>, atts |-> <<>>, t |-> NoPart]
\* (the charset of a group means nothing)
RECURSIVE Same(_, _)
Same(a, b) == /\ a.mt = b.mt /\ a.st = b.st /\ a.disp = b.disp /\ a.cid = b.cid /\ a.loc = b.loc /\ a.name = b.name /\ a.desc = b.desc
              /\ (a.mt = "text" /\ b.cs # "" => a.cs = b.cs) /\ Len(a.p) = Len(b.p)
              /\ (a.p = <<>> => a.data = b.data) /\ \A i \in 1..Len(a.p) : Same(a.p[i], b.p[i])
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
NoOne(s) == s.to = <<>> /\ s.cc = <<>> /\ s.bcc = <<>>
Ok(Chk, s, e) ==
  CASE e.e = "obj" -> \A i \in 1..Len(s.objs) : s.objs[i].id # e.o.id
    [] e.e = "build" -> IF NoOne(s) THEN e.thrown = "no_recipient" ELSE e.thrown = "" /\ Same(e.t, Shape(s))
    [] e.e = "add" -> e.thrown = "" /\ Same(e.t, AddAtt(s.t, e.a))
    [] e.e = "given" -> e.thrown = "" /\ Same(e.t, e.w)
    [] e.e = "head" -> e.from = s.from /\ e.to = s.to /\ e.cc = s.cc /\ e.bcc = s.bcc /\ e.subj = s.subj
    [] e.e = "read" -> e.thrown = "" /\ SameBag(e.texts, TextsOf(s.t)) /\ e.atts = AttsOf(s.t)
    [] e.e = "count" -> e.n = Len(s.atts) /\ e.atts = s.atts /\ e.objs = Len(s.objs)
    [] e.e \in {"set", "attach", "detach"} -> TRUE
    [] OTHER -> FALSE
RemoveNth(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Nxt(s, e) ==
  CASE e.e = "set" -> [s EXCEPT ![e.k] = e.v]
    [] e.e = "obj" -> [s EXCEPT !.objs = Append(@, e.o)]
    [] e.e = "attach" -> [s EXCEPT !.atts = Append(@, e.a)]
    [] e.e = "detach" -> [s EXCEPT !.atts = RemoveNth(@, e.i)]
    [] e.e \in {"build", "add", "given"} -> [s EXCEPT !.t = e.t]
    [] OTHER -> s
=============================================================================
