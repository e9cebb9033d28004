-------------------------------- MODULE Dates --------------------------------
(* Dates: fields [y, mo, d, h, mi, s, z] (z: minutes east of Greenwich) denote an instant; writing, reading, comparing
   and moving to another zone keep it.  Texts are sequences of bytes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
\* --- the calendar
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Dim(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
Before(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400       \* days of the years before y (y >= 1)
RECURSIVE DaysTo(_, _)
DaysTo(y, m) == IF m = 1 THEN 0 ELSE Dim(y, m - 1) + DaysTo(y, m - 1)
DayNo(y, m, d) == Before(y) + DaysTo(y, m) + d                                          \* 1: 1 Jan of year 1, a Monday
Dow(y, m, d) == DayNo(y, m, d) % 7                                                      \* Sunday is 0
\* ISO 8601: the week which holds the Thursday of this one
IsoYear(y, m, d) == LET n == DayNo(y, m, d) th == n + (4 - (IF n % 7 = 0 THEN 7 ELSE n % 7)) IN
                    IF th > Before(y + 1) THEN y + 1 ELSE IF th <= Before(y) THEN y - 1 ELSE y
IsoWeek(y, m, d) == LET n == DayNo(y, m, d) th == n + (4 - (IF n % 7 = 0 THEN 7 ELSE n % 7)) IN (th - Before(IsoYear(y, m, d)) - 1) \div 7 + 1
\* in the calendar year: the last days of December which belong to the first week of the next year are in week 53
CalWeek(y, m, d) == IF m = 12 /\ IsoYear(y, m, d) = y + 1 THEN 53 ELSE IsoWeek(y, m, d)
\* --- instants: [d: day, t: second of the day], in universal time
Valid(f) == f.y >= 1 /\ f.mo \in 1..12 /\ f.d \in 1..Dim(f.y, f.mo) /\ f.h \in 0..23 /\ f.mi \in 0..59 /\ f.s \in 0..59
Instant(f) == LET m == f.h * 60 + f.mi - f.z IN [d |-> DayNo(f.y, f.mo, f.d) + (m \div 1440), t |-> (m % 1440) * 60 + f.s]
Lt(a, b) == a.d < b.d \/ (a.d = b.d /\ a.t < b.t)
Epoch == DayNo(1970, 1, 1)
\* --- reading
IsD(c) == c \in 48..57
IsA(c) == c \in 65..90 \/ c \in 97..122
IsW(c) == c \in {32, 9, 13, 10}
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE Run(_, _, _)           \* end (exclusive) of the run of bytes of a class
Run(x, p, k) == IF p <= Len(x) /\ ((k = "d" /\ IsD(x[p])) \/ (k = "a" /\ IsA(x[p])) \/ (k = "w" /\ IsW(x[p]))) THEN Run(x, p + 1, k) ELSE p
W(x, p) == Run(x, p, "w")
RECURSIVE Num(_, _, _)
Num(x, p, z) == IF p >= z THEN 0 ELSE 10 * Num(x, p, z - 1) + x[z - 1] - 48
Word(x, p, z) == [i \in 1..(z - p) |-> Low(x[p + i - 1])]
Months == << <<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>, <<106,117,110>>,
             <<106,117,108>>, <<97,117,103>>, <<115,101,112>>, <<111,99,116>>, <<110,111,118>>, <<100,101,99>> >>
Days == << <<115,117,110>>, <<109,111,110>>, <<116,117,101>>, <<119,101,100>>, <<116,104,117>>, <<102,114,105>>, <<115,97,116>> >>
Ix(q, w) == IF \E i \in 1..Len(q) : q[i] = w THEN CHOOSE i \in 1..Len(q) : q[i] = w ELSE 0
Cap(w) == [i \in 1..Len(w) |-> IF i = 1 THEN w[i] - 32 ELSE w[i]]
ZN == << <<117,116>>, <<117,116,99>>, <<103,109,116>>, <<101,115,116>>, <<101,100,116>>, <<99,115,116>>, <<99,100,116>>,
         <<109,115,116>>, <<109,100,116>>, <<112,115,116>>, <<112,100,116>> >>
ZV == <<0, 0, 0, -300, -240, -360, -300, -420, -360, -480, -420>>
\* military zones, with the signs of RFC 822: A..M (without J) -1..-12, N..Y +1..+12, Z
Mil(c) == IF c = 122 THEN 0 ELSE IF c <= 105 THEN -60 * (c - 96) ELSE IF c <= 109 THEN -60 * (c - 97) ELSE 60 * (c - 109)
BAD == [ok |-> FALSE]
Zone(x, p) ==            \* [ok, z, n]
  IF p > Len(x) THEN [ok |-> TRUE, z |-> 0, n |-> p]
  ELSE IF x[p] \in {43, 45} THEN
    LET z == Run(x, p + 1, "d") v == Num(x, p + 1, z) m == 60 * (v \div 100) + (v % 100) IN
    IF z # p + 5 THEN BAD ELSE [ok |-> TRUE, z |-> IF x[p] = 43 THEN m ELSE -m, n |-> z]
  ELSE IF ~IsA(x[p]) THEN BAD
  ELSE LET z == Run(x, p, "a") w == Word(x, p, z) IN
    IF Len(w) = 1 THEN (IF w[1] = 106 THEN BAD ELSE [ok |-> TRUE, z |-> Mil(w[1]), n |-> z])
    ELSE IF Ix(ZN, w) = 0 THEN BAD ELSE [ok |-> TRUE, z |-> ZV[Ix(ZN, w)], n |-> z]
\* nothing but white space and one comment behind
TailOk(x, p) == LET a == W(x, p) IN a > Len(x) \/ (x[a] = 40 /\ (\E q \in a..Len(x) : x[q] = 41))
Rfc(x) ==
  LET p0 == W(x, 1)
      a1 == Run(x, p0, "a")
      q1 == W(x, a1)
      p1 == IF a1 = p0 THEN p0 ELSE W(x, q1 + 1)                                          \* behind "Mon,"
      hasDay == a1 # p0
      dz == Run(x, p1, "d")
      m0 == W(x, dz) mz == Run(x, m0, "a") mo == Ix(Months, Word(x, m0, mz))
      y0 == W(x, mz) yz == Run(x, y0, "d") yr == Num(x, y0, yz)
      h0 == W(x, yz) hz == Run(x, h0, "d")
      c1 == W(x, hz) i0 == W(x, c1 + 1) iz == Run(x, i0, "d")
      c2 == W(x, iz)
      sec == c2 <= Len(x) /\ x[c2] = 58
      s0 == W(x, c2 + 1) sz == Run(x, s0, "d")
      z0 == IF sec THEN W(x, sz) ELSE c2
      zn == Zone(x, z0)
      f == [y |-> IF yz - y0 = 2 THEN (IF yr < 50 THEN 2000 + yr ELSE 1900 + yr) ELSE yr, mo |-> mo, d |-> Num(x, p1, dz),
            h |-> Num(x, h0, hz), mi |-> Num(x, i0, iz), s |-> IF sec THEN Num(x, s0, sz) ELSE 0, z |-> IF zn.ok THEN zn.z ELSE 0]
  IN IF /\ Len(x) < 200
        /\ yz - y0 <= 4
        /\ hasDay => Ix(Days, Word(x, p0, a1)) # 0 /\ q1 <= Len(x) /\ x[q1] = 44
        /\ dz - p1 \in 1..2 /\ m0 > dz /\ mo # 0 /\ y0 > mz
        /\ (yz - y0 = 4 /\ yr >= 1000) \/ (yz - y0 = 2 /\ ~(yr \in 50..69))
        /\ h0 > yz /\ hz - h0 = 2 /\ c1 <= Len(x) /\ x[c1] = 58 /\ iz - i0 = 2 /\ (sec => sz - s0 = 2)
        /\ zn.ok
        /\ (z0 > (IF sec THEN sz ELSE iz) \/ z0 > Len(x))
        /\ TailOk(x, zn.n)
        /\ Valid(f)
     THEN [ok |-> TRUE, f |-> f, day |-> IF hasDay THEN Ix(Days, Word(x, p0, a1)) - 1 ELSE -1, cap |-> hasDay /\ SubSeq(x, p0, a1 - 1) = Cap(Word(x, p0, a1))]
     ELSE BAD
\* --- writing
D2(n) == <<48 + n \div 10, 48 + (n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
Dn(n) == IF n < 10 THEN <<48 + n>> ELSE D2(n)
Abs(n) == IF n < 0 THEN -n ELSE n
ZoneTxt(z) == <<IF z < 0 THEN 45 ELSE 43>> \o D2(Abs(z) \div 60) \o D2(Abs(z) % 60)
TimeTxt(f) == D2(f.h) \o <<58>> \o D2(f.mi) \o <<58>> \o D2(f.s)
Gen(f) == Cap(Days[Dow(f.y, f.mo, f.d) + 1]) \o <<44, 32>> \o Dn(f.d) \o <<32>> \o Cap(Months[f.mo]) \o <<32>> \o D4(f.y) \o <<32>> \o TimeTxt(f) \o <<32>> \o ZoneTxt(f.z)
\* RFC 3501 date-time
Imap(f) == <<34>> \o (IF f.d < 10 THEN <<32, 48 + f.d>> ELSE D2(f.d)) \o <<45>> \o Cap(Months[f.mo]) \o <<45>> \o D4(f.y) \o <<32>> \o TimeTxt(f) \o <<32>> \o ZoneTxt(f.z) \o <<34>>
\* --- events
\* make[f]; gen[x]; imap[x]; back[f]; parse[x, f]; zone[to, f: result]; cmp[f: other, eq, ne, lt, le, gt, ge]; week[dow, iso, cal]; month[y, m, dim, leap]; now[day, sec, f]
Init0(cfg) == [f |-> [y |-> 1970, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, z |-> 0]]
\* e.f2: the same text read into a date which held something else
Ok(Chk, st, e) ==
  IF (st.f.y > 9999 \/ Abs(st.f.z) > 5999) /\ e.e \notin {"make", "parse", "now", "month"} THEN e.e # "exc" ELSE
  CASE e.e = "make" -> Valid(e.f)
    [] e.e = "gen"  -> /\ Rfc(e.x).ok /\ Rfc(e.x).f = st.f /\ Rfc(e.x).day = Dow(st.f.y, st.f.mo, st.f.d) /\ Rfc(e.x).cap
    [] e.e = "imap" -> e.x = Imap(st.f)
    [] e.e = "back" -> e.f = st.f
    [] e.e = "parse" -> /\ Valid(e.f)
                        /\ e.f2 = e.f
                        /\ LET r == Rfc(e.x) IN r.ok => e.f = r.f
    [] e.e = "zone" -> /\ Valid(e.f) /\ e.f.z = e.to /\ Instant(e.f) = Instant(st.f)
    [] e.e = "cmp"  -> LET a == Instant(st.f) b == Instant(e.f) IN
                       /\ e.eq = (a = b) /\ e.ne = (a # b) /\ e.lt = Lt(a, b) /\ e.gt = Lt(b, a) /\ e.le = ~Lt(b, a) /\ e.ge = ~Lt(a, b)
    [] e.e = "week" -> /\ e.dow = Dow(st.f.y, st.f.mo, st.f.d)
                       /\ e.iso = IsoWeek(st.f.y, st.f.mo, st.f.d) /\ e.cal = CalWeek(st.f.y, st.f.mo, st.f.d)
    [] e.e = "month" -> e.dim = Dim(e.y, e.m) /\ e.leap = Leap(e.y)
    [] e.e = "now"  -> Valid(e.f) /\ Instant(e.f) = [d |-> Epoch + e.day, t |-> e.sec]
    [] OTHER -> FALSE
Nxt(st, e) == IF e.e \in {"make", "parse"} THEN [f |-> e.f] ELSE st
=============================================================================
