----------------------------- MODULE ImapReply -----------------------------
(* What IMAP replies say (RFC 3501): a reader of envelopes, body structures and folder lists as the bytes the server sent, and
   the sections of a message the server holds.  What the API returns must be what the reader finds. *)
EXTENDS ImapCommand
H == INSTANCE HeaderText
\* --- the reader: a node is [t: "nil", "str" (quoted or literal), "atom", "list"; v: bytes; l: nodes]
RECURSIVE RItems(_, _, _)
RECURSIVE RAtomEnd(_, _)
RAtomEnd(x, p) == IF p > Len(x) \/ x[p] \in {32, 40, 41, 34} THEN p ELSE RAtomEnd(x, p + 1)
ROne(x, p) ==
  IF p > Len(x) THEN [n |-> BAD, p |-> p]
  ELSE IF x[p] = 40 THEN LET r == RItems(x, p + 1, <<>>) IN [n |-> Nd("list", <<>>, r.l), p |-> r.p]
  ELSE IF x[p] = 34 THEN LET r == StrR(x, p + 1, <<>>) IN IF r.p = 0 THEN [n |-> BAD, p |-> Len(x) + 1] ELSE [n |-> Nd("str", r.v, <<>>), p |-> r.p]
  ELSE IF x[p] = 123 THEN LET z == NumEnd(x, p + 1) n == NumV(SubSeq(x, p + 1, z - 1), 1, 0) IN [n |-> Nd("str", SubSeq(x, z + 3, z + 2 + n), <<>>), p |-> z + 3 + n]   \* {n} CR LF
  ELSE LET e == RAtomEnd(x, p) v == SubSeq(x, p, e - 1) IN [n |-> IF Up(v) = <<78, 73, 76>> THEN Nd("nil", <<>>, <<>>) ELSE Nd("atom", v, <<>>), p |-> e]
RItems(x, p, acc) ==
  IF p > Len(x) THEN [l |-> acc, p |-> p]
  ELSE IF x[p] = 41 THEN [l |-> acc, p |-> p + 1]
  ELSE IF x[p] = 32 THEN RItems(x, p + 1, acc)
  ELSE LET o == ROne(x, p) IN RItems(x, o.p, Append(acc, o.n))
RRead(x) == ROne(x, 1).n
RAll(x) == RItems(x, 1, <<>>).l
Lows(q) == [i \in 1..Len(q) |-> IF q[i] \in 65..90 THEN q[i] + 32 ELSE q[i]]
\* --- envelopes
Text(b) == H!Read(H!Toks(b, 1), 1, FALSE)
Addr(n) == [n |-> Text(n.l[1].v), a |-> n.l[3].v \o <<64>> \o n.l[4].v]
\* an address without host starts or ends a group
Addrs(n) == LET q == SelectSeq(n.l, LAMBDA a : a.l[4].t # "nil") IN [i \in 1..Len(q) |-> Addr(q[i])]
RECURSIVE Ids(_)
Ids(b) == LET q == SelectSeq(Split(b, 32), LAMBDA w : w # <<>>) IN q
First1(q) == IF q = <<>> THEN <<>> ELSE <<q[1]>>
EnvOk(e) ==
  LET v == RRead(e.raw).l IN
  /\ Len(v) = 10
  /\ e.date = v[1].v
  /\ e.subj = Text(v[2].v)
  /\ e.from = First1(Addrs(v[3])) /\ e.sender = First1(Addrs(v[4]))
  /\ e.rto = Addrs(v[5]) /\ e.to = Addrs(v[6]) /\ e.cc = Addrs(v[7]) /\ e.bcc = Addrs(v[8])
  /\ e.irt = Ids(v[9].v) /\ e.mid = v[10].v
\* --- body structures: the parts in order, a part before those it contains
K_MULTI == <<109, 117, 108, 116, 105, 112, 97, 114, 116>>
K_TEXT == <<116, 101, 120, 116>>
K_MESSAGE == <<109, 101, 115, 115, 97, 103, 101>>
K_RFC822 == <<114, 102, 99, 56, 50, 50>>
K_NAME == <<110, 97, 109, 101>>
IsMulti(n) == n.l[1].t = "list"
Kids(n) == SelectSeq(n.l, LAMBDA k : k.t = "list") \* the children come first: only lists before the subtype
NKids(n) == (CHOOSE i \in 1..Len(n.l) : n.l[i].t # "list" /\ \A j \in 1..(i - 1) : n.l[j].t = "list") - 1
Param(n, w) == LET i == {k \in 1..(Len(n.l) \div 2) : Lows(n.l[2 * k - 1].v) = w} IN IF n.t = "nil" \/ i = {} THEN <<>> ELSE n.l[2 * (CHOOSE k \in i : \A j \in i : k <= j)].v
Dsp(n, at) == IF Len(n.l) >= at /\ n.l[at].t = "list" THEN <<Lows(n.l[at].l[1].v)>> ELSE <<>>
Leaf(n) == LET ty == Lows(n.l[1].v) su == Lows(n.l[2].v)
               md5 == IF ty = K_TEXT THEN 9 ELSE IF ty = K_MESSAGE /\ su = K_RFC822 THEN 11 ELSE 8 IN
           [type |-> ty, sub |-> su, size |-> n.l[7].v, name |-> Param(n.l[3], K_NAME), disp |-> Dsp(n, md5 + 1), n |-> 0]
Multi(n) == LET k == NKids(n) IN [type |-> K_MULTI, sub |-> Lows(n.l[k + 1].v), size |-> <<48>>, name |-> <<>>, disp |-> Dsp(n, k + 3), n |-> k]
RECURSIVE FlatB(_, _)
RECURSIVE FlatK(_, _, _)
FlatB(n, at) == IF IsMulti(n) THEN <<[p |-> at] @@ Multi(n)>> \o FlatK(n, at, 1) ELSE <<[p |-> at] @@ Leaf(n)>>
FlatK(n, at, i) == IF i > NKids(n) THEN <<>> ELSE FlatB(n.l[i], Append(at, i)) \o FlatK(n, at, i + 1)
StrOk(e) ==
  LET q == FlatB(RRead(e.raw), <<1>>) IN
  /\ Len(e.got) = Len(q)
  /\ \A i \in 1..Len(q) : LET g == e.got[i] w == q[i] IN
       /\ g.p = w.p /\ g.k = g.p[Len(g.p)] - 1 /\ g.n = w.n
       /\ Lows(g.type) = w.type /\ Lows(g.sub) = w.sub /\ g.size = w.size /\ g.name = w.name
       /\ w.disp # <<>> => Lows(g.disp) = w.disp[1]
\* --- the sections of a message: m is its parts [p, h, b, d, leaf, xs, type, sub]
PartAt(m, p) == LET i == {k \in 1..Len(m) : m[k].p = p} IN m[CHOOSE k \in i : TRUE]
Has(m, p) == \E k \in 1..Len(m) : m[k].p = p
Slice(x, a, n) == SubSeq(x, a + 1, IF n < 0 \/ a + n > Len(x) THEN Len(x) ELSE a + n)
PartOk(m, e) == Has(m, e.p) /\ LET w == PartAt(m, e.p) IN e.x = Slice(w.h \o w.b, e.start, e.len)
ParsedOk(m, e) ==
  /\ Len(e.got) = Len(m)
  /\ \A i \in 1..Len(m) : LET g == e.got[i] w == m[i] IN
       /\ g.p = w.p /\ Lows(g.type) = w.type /\ Lows(g.sub) = w.sub /\ g.xs = w.xs
       /\ g.n = Cardinality({k \in 1..Len(m) : Len(m[k].p) = Len(w.p) + 1 /\ SubSeq(m[k].p, 1, Len(w.p)) = w.p})
       /\ w.leaf => (g.raw = w.b /\ g.dec = w.d /\ g.gen = w.b)
\* --- folder lists: a line is `(flags) delimiter name`
FlagNames == [all |-> <<92, 97, 108, 108>>, archive |-> <<92, 97, 114, 99, 104, 105, 118, 101>>, drafts |-> <<92, 100, 114, 97, 102, 116, 115>>, flagged |-> <<92, 102, 108, 97, 103, 103, 101, 100>>,
              junk |-> <<92, 106, 117, 110, 107>>, sent |-> <<92, 115, 101, 110, 116>>, trash |-> <<92, 116, 114, 97, 115, 104>>, important |-> <<92, 105, 109, 112, 111, 114, 116, 97, 110, 116>>]
NOSELECT == <<92, 110, 111, 115, 101, 108, 101, 99, 116>>
NOINFERIORS == <<92, 110, 111, 105, 110, 102, 101, 114, 105, 111, 114, 115>>
HASCH == <<92, 104, 97, 115, 99, 104, 105, 108, 100, 114, 101, 110>>
HASNOCH == <<92, 104, 97, 115, 110, 111, 99, 104, 105, 108, 100, 114, 101, 110>>
INBOX == <<73, 78, 66, 79, 88>>
NameOf(s, sep) == LET q == Split(s, sep) IN [i \in 1..Len(q) |-> M7(q[i], 1, FALSE)]
UseOf(f, c) == IF Len(c) = 1 /\ c[1] = INBOX THEN "INBOX"
               ELSE IF FlagNames.all \in f THEN "ALL" ELSE IF FlagNames.archive \in f THEN "ARCHIVE" ELSE IF FlagNames.drafts \in f THEN "DRAFTS" ELSE IF FlagNames.flagged \in f THEN "FLAGGED"
               ELSE IF FlagNames.junk \in f THEN "JUNK" ELSE IF FlagNames.sent \in f THEN "SENT" ELSE IF FlagNames.trash \in f THEN "TRASH" ELSE IF FlagNames.important \in f THEN "IMPORTANT" ELSE "NONE"
Entry(x, sep, ch) ==
  LET v == RAll(x) f == {Lows(v[1].l[i].v) : i \in 1..Len(v[1].l)} c == NameOf(v[3].v, sep) IN
  [c |-> c, open |-> NOSELECT \notin f, msgs |-> NOSELECT \notin f, kids |-> IF HASCH \in f THEN {TRUE} ELSE IF {HASNOCH, NOINFERIORS} \cap f # {} THEN {FALSE} ELSE IF ch THEN BOOLEAN ELSE {TRUE},   \* no hint at all
   use |-> UseOf(f, c)]
Under(b, c, rec) == Len(c) > Len(b) /\ SubSeq(c, 1, Len(b)) = b /\ (rec \/ Len(c) = Len(b) + 1)
ListOk(cfg, e) ==
  LET base == IF e.base = <<>> THEN <<>> ELSE NameOf(e.base, e.sep)
      all == [i \in 1..Len(e.raw) |-> Entry(e.raw[i], e.sep, cfg.children)]
      want == SelectSeq(all, LAMBDA w : Under(base, w.c, e.rec)) IN
  /\ Len(e.got) = Len(want)
  /\ \A i \in 1..Len(want) : LET g == e.got[i] w == want[i] IN
       /\ [k \in 1..Len(g.c) |-> Cps(g.c[k])] = w.c
       /\ g.open = w.open /\ g.msgs = w.msgs /\ g.kids \in w.kids /\ g.use = w.use
-----------------------------------------------------------------------------
\* events: open; env[m, raw, the fields read]; str[m, raw, got]; part[m, p, start, len, x]; phdr, flds[m, xs]; parsed[m, got]; list
RInit0(cfg) == cfg
ROk(Chk, s, e) ==
  IF e.e \in {"crash", "escaped", "hang"} THEN FALSE
  ELSE IF e.thrown # "" THEN FALSE
  ELSE CASE e.e = "open" -> TRUE
         [] e.e = "env" -> EnvOk(e)
         [] e.e = "str" -> StrOk(e)
         [] e.e = "part" -> PartOk(s.ms[e.m], e)
         [] e.e = "phdr" -> e.xs = PartAt(s.ms[e.m], e.p).xs
         [] e.e = "flds" -> e.xs = s.ms[e.m][1].xs
         [] e.e = "parsed" -> ParsedOk(s.ms[e.m], e)
         [] e.e = "list" -> ListOk(s, e)
         [] OTHER -> FALSE
RNxt(s, e) == s
=============================================================================
