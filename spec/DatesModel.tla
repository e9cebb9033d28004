------------------------------ MODULE DatesModel ------------------------------
(* Moving a date to another zone as an algorithm: minutes, then hours, with carries and borrows through days, months and
   years; checked against Instant of Dates.tla from every date at the edge of something.  Carry: the carry of the minutes
   goes through the day.  MonthFirst: going back over the first of the month, the month changes before its length is read. *)
EXTENDS Dates, Json
CONSTANTS Size, Carry, MonthFirst, GenScripts
VARIABLES f, to, g, done
vars == <<f, to, g, done>>
Years == IF Size = 1 THEN {1900, 1999, 2000, 2003, 2004} ELSE {1582, 1900, 1969, 1970, 1999, 2000, 2003, 2004, 2100, 2400}
Mos == IF Size = 1 THEN {1, 2, 3, 12} ELSE 1..12
Hrs == {0, 1, 12, 23}
Mis == {0, 29, 59}
Zones == IF Size = 1 THEN {-1440, -330, -1, 0, 60, 825} ELSE {-2000, -1440, -1439, -720, -330, -61, -1, 0, 1, 30, 60, 330, 825, 1439, 1440, 5999}
PrevDay(d) == IF d.d > 1 THEN [d EXCEPT !.d = @ - 1]
              ELSE LET p == IF d.mo = 1 THEN [d EXCEPT !.y = @ - 1, !.mo = 12] ELSE [d EXCEPT !.mo = @ - 1]
                   IN [p EXCEPT !.d = IF MonthFirst THEN Dim(p.y, p.mo) ELSE Dim(d.y, d.mo)]
NextDay(d) == IF d.d < Dim(d.y, d.mo) THEN [d EXCEPT !.d = @ + 1]
              ELSE IF d.mo = 12 THEN [d EXCEPT !.y = @ + 1, !.mo = 1, !.d = 1] ELSE [d EXCEPT !.mo = @ + 1, !.d = 1]
NextHour(d) == IF d.h = 23 THEN (IF Carry THEN NextDay([d EXCEPT !.h = 0]) ELSE [d EXCEPT !.h = 0]) ELSE [d EXCEPT !.h = @ + 1]
PrevHour(d) == IF d.h = 0 THEN PrevDay([d EXCEPT !.h = 23]) ELSE [d EXCEPT !.h = @ - 1]
RECURSIVE Up(_)
Up(d) == IF d.h >= 24 THEN Up(NextDay([d EXCEPT !.h = @ - 24])) ELSE d
RECURSIVE Down(_)
Down(d) == IF d.h < 0 THEN Down(PrevDay([d EXCEPT !.h = @ + 24])) ELSE d
AddHM(d, m) == LET a == [d EXCEPT !.mi = @ + (m % 60)] b == IF a.mi >= 60 THEN NextHour([a EXCEPT !.mi = @ - 60]) ELSE a
               IN Up([b EXCEPT !.h = @ + (m \div 60)])
SubHM(d, m) == LET a == [d EXCEPT !.mi = @ - (m % 60)] b == IF a.mi < 0 THEN PrevHour([a EXCEPT !.mi = @ + 60]) ELSE a
               IN Down([b EXCEPT !.h = @ - (m \div 60)])
Shift(d, m) == IF m >= 0 THEN AddHM(d, m) ELSE SubHM(d, -m)
ToUt(d) == [Shift(d, -d.z) EXCEPT !.z = 0]
Move(d, z) == [Shift(ToUt(d), z) EXCEPT !.z = z]
Init == /\ f \in {x \in [y : Years, mo : Mos, d : {1, 28, 29, 30, 31}, h : Hrs, mi : Mis, s : {0}, z : Zones] :
                    x.d <= Dim(x.y, x.mo) /\ (x.d > 1 => x.d >= Dim(x.y, x.mo) - 1)}
        /\ to = 0 /\ g = f /\ done = 0
Step1 == done = 0 /\ g' = ToUt(f) /\ done' = 1 /\ UNCHANGED <<f, to>>
Step2 == done = 1 /\ \E z \in Zones : /\ to' = z /\ g' = Move(f, z) /\ done' = 2
         /\ (GenScripts => PrintT("SCRIPT " \o ToJson([x |-> <<f.y, f.mo, f.d, f.h, f.mi, f.z, z>>])))
         /\ UNCHANGED f
Next == Step1 \/ Step2
Spec == Init /\ [][Next]_vars
Sound == /\ Valid(g) /\ Instant(g) = Instant(f) /\ (done = 2 => g.z = to)
         /\ Rfc(Gen(g)).ok => Rfc(Gen(g)).f = g
         /\ g.z \in -5999..5999 => Rfc(Gen(g)).ok
=============================================================================
