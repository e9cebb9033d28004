-------------------------- MODULE ImapCommandModel --------------------------
(* Every short argument over the characters that matter: a writer of commands and of mailbox names, against the reader of
   ImapCommand.  The bad switches (no escape before a quote; the separator left as it is; one unit per character) must fail. *)
EXTENDS ImapCommand, Json
CONSTANTS MaxLen, Escape, EscSep, Pairs, GenScripts
\* characters: a space " \ ( ) { % & - / . + ] ~ é € U+10000 and a control character
Chars == <<97, 32, 34, 92, 40, 41, 123, 37, 38, 45, 47, 46, 43, 93, 126, 233, 8364, 65536, 1>>
U8Enc(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
VARIABLE q
Init == q = <<>>
Bytes == FlattenSeq([i \in 1..Len(q) |-> U8Enc(q[i])])
Plain(b) == b # <<>> /\ \A i \in 1..Len(b) : b[i] \notin AtomBad /\ b[i] < 128
Quote(b) == <<34>> \o FlattenSeq([i \in 1..Len(b) |-> IF Escape /\ b[i] \in {34, 92} THEN <<92, b[i]>> ELSE <<b[i]>>]) \o <<34>>
W(b) == IF Plain(b) THEN b ELSE Quote(b)
Name(sep) == IF ~EscSep THEN E7(q, 1, 0) ELSE IF ~Pairs THEN E7([i \in 1..Len(q) |-> IF q[i] > 65535 THEN 65534 ELSE q[i]], 1, sep) ELSE E7(q, 1, sep)
B == Bytes
E0 == [uid |-> FALSE, a |-> B, b |-> B, sep |-> 0, ap |-> <<>>, bp |-> <<>>]
Rename == Kw("RENAME") \o <<32>> \o W(B) \o <<32>> \o W(B)
Login == Kw("LOGIN") \o <<32>> \o W(B) \o <<32>> \o W(<<97>>)
Sound ==
  /\ CmdOk([v |-> "RENAME", text |-> Rename] @@ E0)
  /\ CmdOk([v |-> "LOGIN", text |-> Login, b |-> <<97>>] @@ E0)
  \* the reader tells one argument from every other one
  /\ ~CmdOk([v |-> "LOGIN", text |-> Login, a |-> Append(B, 97), b |-> <<97>>] @@ E0)
  /\ (q # <<>> => ~CmdOk([v |-> "LOGIN", text |-> Login, a |-> Tail(B), b |-> <<97>>] @@ E0))
  /\ Cps([cs |-> "utf-8", x |-> B]) = q
  \* names: what is read is what was written, and a name is only characters any server accepts
  /\ \A sep \in {47, 46} : q # <<>> => LET n == Name(sep) IN
       /\ NameOk(n, <<[cs |-> "utf-8", x |-> B]>>, sep)
       /\ NameOk(n \o <<sep>> \o n, <<[cs |-> "utf-8", x |-> B], [cs |-> "utf-8", x |-> B]>>, sep)
       /\ \A i \in 1..Len(n) : n[i] \in 32..126
Next == \/ Len(q) < MaxLen /\ \E i \in 1..Len(Chars) : q' = Append(q, Chars[i])
        \/ GenScripts /\ PrintT("SCRIPT " \o ToJson([x |-> Bytes])) /\ FALSE /\ UNCHANGED q
=============================================================================
