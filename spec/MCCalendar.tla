-------------------------------- MODULE MCCalendar --------------------------------
(* The closed form of the calendar in Values is the calendar that is walked day by day. *)
EXTENDS Values
CONSTANTS Years
VARIABLES t
Tomorrow(d) == IF d = LastDate THEN d
               ELSE IF d.m = 12 /\ d.d = 31 THEN YMD(d.y + 1, 1, 1)
               ELSE IF d.d = Days(d.y, d.m) THEN YMD(d.y, d.m + 1, 1)
               ELSE YMD(d.y, d.m, d.d + 1)
Init == \E y \in Years : t = YMD(y, 1, 1)
Next == t.y \in Years /\ t # LastDate /\ t' = Tomorrow(t)
IsOne == IsDate(t.y, t.m, t.d)
Inverse == DateOf(DayNo(t)) = t
NextDay == AddDays(t, 1) = Tomorrow(t) /\ (t # LastDate => AddDays(Tomorrow(t), -1) = t)
WeekGoesOn == t # LastDate => Weekday(Tomorrow(t)) = (Weekday(t) % 7) + 1
(* two known days *)
Known == Weekday(YMD(2000, 1, 1)) = 7 /\ Weekday(YMD(1969, 7, 20)) = 1 /\ DayNo(YMD(2000, 1, 1)) - DayNo(YMD(1970, 1, 1)) = 10957
TwelveMonthsAreAYear == t.y < 9999 => AddMonths(t, 12) = InMonth(t.y + 1, t.m, t.d)
ThereAndBack == (t.d <= 28 /\ t.y > 1 /\ t.y < 9998) => \A k \in {1, 5, 11, 12, 14} : AddMonths(AddMonths(t, k), -k) = t
Text1 == DateText(DatePrint(t)) = <<t>>
==================================================================================
