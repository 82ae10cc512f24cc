-------------------------------- MODULE Values --------------------------------
(* The small values of the MusicXML element tree: bounded integers, bounded decimals of six places, dates,
   colors, choices between a name and a number, sets of positive integers, custom types and identifiers.
   A value is a state; setting, parsing and calendar arithmetic are its transitions. What a value prints is a
   function of the state. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Join(q) == LET RECURSIVE J(_) J(i) == IF i > Len(q) THEN "" ELSE q[i] \o J(i + 1) IN J(1)
Some(f(_), q) == \E i \in 1..Len(q) : f(q[i])
All(f(_), q) == \A i \in 1..Len(q) : f(q[i])
Spaces == {" ", "\t", "\n", "\r", "\f"}
Digits == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
              [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
DigitChars == DOMAIN Digits
DigitOf == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in DigitChars
Trimmed(q) == LET keep == {i \in 1..Len(q) : q[i] \notin Spaces}
                  lo == CHOOSE i \in keep : \A j \in keep : i <= j
                  hi == CHOOSE i \in keep : \A j \in keep : i >= j
              IN IF keep = {} THEN <<>> ELSE SubSeq(q, lo, hi)
StripZeros(q) == LET nz == {i \in 1..Len(q) : q[i] # "0"}
                     lo == CHOOSE i \in nz : \A j \in nz : i <= j
                 IN IF nz = {} THEN <<"0">> ELSE SubSeq(q, lo, Len(q))
StripTail(q) == LET nz == {i \in 1..Len(q) : q[i] # "0"}
                    hi == CHOOSE i \in nz : \A j \in nz : i >= j
                IN IF nz = {} THEN <<>> ELSE SubSeq(q, 1, hi)
Zeros(n) == [i \in 1..n |-> "0"]

(* --- the order of digit sequences of one length *)
Less(a, b) == \E i \in 1..Len(a) : Digits[a[i]] < Digits[b[i]] /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* --- integers *)
MinInt == -2147483647 - 1
MaxInt == 2147483647
Bounds(t) == CASE t = "AccordionMiddleValue" -> <<0, 3>>
               [] t = "BeamLevel" -> <<1, 8>>
               [] t = "Byte" -> <<0, 255>>
               [] t = "Midi128" -> <<1, 128>>
               [] t = "Midi16" -> <<1, 16>>
               [] t = "Midi16384" -> <<1, 16384>>
               [] t = "NonNegativeInteger" -> <<0, MaxInt>>
               [] t = "NumberLevel" -> <<1, 6>>
               [] t = "NumberOfLines" -> <<0, 3>>
               [] t = "OctaveValue" -> <<0, 9>>
               [] t \in {"PositiveInteger", "StaffNumber", "StringNumber"} -> <<1, MaxInt>>
               [] t = "TremoloMarks" -> <<0, 8>>
               [] OTHER -> <<MinInt, MaxInt>>
Clamp(n, b) == IF n < b[1] THEN b[1] ELSE IF n > b[2] THEN b[2] ELSE n

Signed(q) == IF q # <<>> /\ q[1] \in {"-", "+"} THEN [neg |-> q[1] = "-", of |-> Tail(q)] ELSE [neg |-> FALSE, of |-> q]
(* the number a text states, or none *)
FitsInt(neg, d) == LET s == StripZeros(d) IN
    Len(s) < 10 \/ (Len(s) = 10 /\ ~Less(IF neg THEN Chars("2147483648") ELSE Chars("2147483647"), s))
IntOf(neg, d) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE F(i - 1) * 10 + (IF neg THEN -Digits[d[i]] ELSE Digits[d[i]]) IN F(Len(d))
IntText(s) == LET q == Signed(Trimmed(Chars(s))) IN
    IF q.of # <<>> /\ All(IsDigit, q.of) /\ FitsInt(q.neg, q.of) THEN <<IntOf(q.neg, StripZeros(q.of))>> ELSE <<>>

(* --- decimals: a sign, whole digits without leading zeros and six places *)
Places == 6
Dec(neg, i, f) == [neg |-> neg, i |-> i, f |-> f]
Zero == Dec(FALSE, <<"0">>, Zeros(Places))
IsZero(d) == \A i \in 1..Len(d.i) : d.i[i] = "0" /\ \A j \in 1..Len(d.f) : d.f[j] = "0"
RECURSIVE Inc(_)
Inc(q) == IF q = <<>> THEN <<"1">>
          ELSE IF q[Len(q)] = "9" THEN Append(Inc(SubSeq(q, 1, Len(q) - 1)), "0")
          ELSE Append(SubSeq(q, 1, Len(q) - 1), DigitOf[Digits[q[Len(q)]] + 2])
(* six places, rounded to the nearest *)
Rounded(neg, i, f) ==
    IF Len(f) <= Places THEN Dec(neg, StripZeros(i), f \o Zeros(Places - Len(f)))
    ELSE LET whole == StripZeros(i) \o SubSeq(f, 1, Places)
             up == IF Digits[f[Places + 1]] >= 5 THEN Inc(whole) ELSE whole
             n == Len(up) - Places
         IN Dec(neg, StripZeros(SubSeq(up, 1, n)), SubSeq(up, n + 1, Len(up)))
(* the nearest a decimal can hold: nineteen whole digits *)
Storable(d) == IF Len(d.i) > 19 THEN Dec(d.neg, [k \in 1..19 |-> "9"], [k \in 1..Places |-> "9"]) ELSE d
MagLess(a, b) == Len(a.i) < Len(b.i) \/ (Len(a.i) = Len(b.i) /\ Less(a.i \o a.f, b.i \o b.f))
DecLess(a, b) == IF IsZero(a) /\ IsZero(b) THEN FALSE
                 ELSE IF a.neg /\ ~IsZero(a) THEN (IF b.neg /\ ~IsZero(b) THEN MagLess(b, a) ELSE TRUE)
                 ELSE IF b.neg /\ ~IsZero(b) THEN FALSE
                 ELSE MagLess(a, b)
Whole(s) == Dec(FALSE, Chars(s), Zeros(Places))
Least == Dec(FALSE, <<"0">>, Append(Zeros(Places - 1), "1"))
(* the least and the greatest legal value, where there is one *)
DecLo(t) == CASE t \in {"NonNegativeDecimal", "Percent"} -> <<Zero>>
              [] t \in {"PositiveDecimal", "PositiveDivisions", "PositiveDivisionsValue"} -> <<Least>>
              [] t = "RotationDegrees" -> <<[Whole("180") EXCEPT !.neg = TRUE]>>
              [] t = "TrillBeats" -> <<Whole("2")>>
              [] OTHER -> <<>>
DecHi(t) == CASE t = "Percent" -> <<Whole("100")>> [] t = "RotationDegrees" -> <<Whole("180")>> [] OTHER -> <<>>
DecClamp(t, d) == IF DecLo(t) # <<>> /\ DecLess(d, DecLo(t)[1]) THEN DecLo(t)[1]
                  ELSE IF DecHi(t) # <<>> /\ DecLess(DecHi(t)[1], d) THEN DecHi(t)[1] ELSE d
Settle(d) == IF IsZero(d) THEN Zero ELSE d
DecFrom(t, neg, i, f) == Settle(DecClamp(t, Storable(Rounded(neg, i, f))))
DecText(t, s) ==
    LET q == Signed(Trimmed(Chars(s)))
        dots == {k \in 1..Len(q.of) : q.of[k] = "."}
        dot == CHOOSE k \in dots : TRUE
        i == IF dots = {} THEN q.of ELSE SubSeq(q.of, 1, dot - 1)
        f == IF dots = {} THEN <<>> ELSE SubSeq(q.of, dot + 1, Len(q.of))
    IN IF q.of # <<>> /\ Cardinality(dots) <= 1 /\ All(IsDigit, i) /\ All(IsDigit, f) /\ Len(i) + Len(f) > 0
       THEN <<DecFrom(t, q.neg, i, f)>> ELSE <<>>
DecPrint(d) == LET f == StripTail(d.f) IN
    (IF d.neg THEN "-" ELSE "") \o Join(d.i) \o (IF f = <<>> THEN "" ELSE "." \o Join(f))
DecFixed(d) == (IF d.neg THEN "-" ELSE "") \o Join(d.i) \o "." \o Join(d.f)

(* --- dates of the Gregorian calendar, years 1 to 9999 *)
Leap(y) == y >= 1 /\ y <= 9999 /\ (y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0))
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= Days(y, m)
YMD(y, m, d) == [y |-> y, m |-> m, d |-> d]
FirstDate == YMD(1, 1, 1)
LastDate == YMD(9999, 12, 31)
(* days since 1 March of year 0 *)
DayNo(t) == LET y == IF t.m <= 2 THEN t.y - 1 ELSE t.y
                mp == (t.m + 9) % 12
            IN 365 * y + (y \div 4) - (y \div 100) + (y \div 400) + ((153 * mp + 2) \div 5) + t.d - 1
DateOf(n) == LET era == n \div 146097
                 doe == n % 146097
                 yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
                 doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
                 mp == (5 * doy + 2) \div 153
                 m == IF mp < 10 THEN mp + 3 ELSE mp - 9
             IN YMD(yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - ((153 * mp + 2) \div 5) + 1)
Within(n) == Clamp(n, <<DayNo(FirstDate), DayNo(LastDate)>>)
AddDays(t, k) == DateOf(Within(DayNo(t) + k))
AddMonths(t, k) == LET n == t.y * 12 + (t.m - 1) + k
                       y == n \div 12
                       m == (n % 12) + 1
                   IN IF y < 1 THEN FirstDate ELSE IF y > 9999 THEN LastDate ELSE YMD(y, m, Clamp(t.d, <<1, Days(y, m)>>))
(* a leap day goes to the first of March of a year without one; years beyond the calendar are its ends *)
AddYears(t, k) == LET y == t.y + k
                      c == Clamp(y, <<1, 9999>>)
                  IN IF t.m = 2 /\ t.d = 29 /\ ~Leap(y) THEN YMD(c, 3, 1) ELSE YMD(c, t.m, t.d)
InMonth(y, m, d) == YMD(y, m, Clamp(d, <<1, Days(y, m)>>))
(* 1 is Sunday; 1 January of year 1 was a Monday *)
Weekday(t) == ((DayNo(t) - DayNo(FirstDate) + 1) % 7) + 1
Pad(n, k) == LET s == ToString(n) IN Join(Zeros(k - Len(s))) \o s
DatePrint(t) == Pad(t.y, 4) \o "-" \o Pad(t.m, 2) \o "-" \o Pad(t.d, 2)
DateText(s) == LET q == Chars(s)
                   Num(a, b) == IntOf(FALSE, SubSeq(q, a, b))
               IN IF Len(q) = 10 /\ (\A k \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDigit(q[k])) /\ q[5] = "-" /\ q[8] = "-"
                  THEN (IF IsDate(Num(1, 4), Num(6, 7), Num(9, 10)) THEN <<YMD(Num(1, 4), Num(6, 7), Num(9, 10))>> ELSE <<>>)
                  ELSE <<>>
DateLess(a, b) == DayNo(a) < DayNo(b)

(* --- colors *)
HexOf == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
IsHex(c) == \E k \in 1..16 : HexOf[k] = c
HexVal(c) == (CHOOSE k \in 1..16 : HexOf[k] = c) - 1
Hex2(n) == HexOf[(n \div 16) + 1] \o HexOf[(n % 16) + 1]
Byte2(n) == Clamp(n, <<0, 255>>)
Rgb(c) == [c EXCEPT !.a = 255, !.alpha = FALSE]
White == [a |-> 255, r |-> 255, g |-> 255, b |-> 255, alpha |-> FALSE]
ColorText(s) == LET q == Chars(s)
                    H(k) == HexVal(q[k]) * 16 + HexVal(q[k + 1])
                IN IF Len(q) \in {7, 9} /\ q[1] = "#" /\ (\A k \in 2..Len(q) : IsHex(q[k]))
                   THEN (IF Len(q) = 7 THEN <<[a |-> 255, r |-> H(2), g |-> H(4), b |-> H(6), alpha |-> FALSE]>>
                         ELSE <<[a |-> H(2), r |-> H(4), g |-> H(6), b |-> H(8), alpha |-> TRUE]>>)
                   ELSE <<>>
ColorPrint(c) == "#" \o (IF c.alpha THEN Hex2(c.a) ELSE "") \o Hex2(c.r) \o Hex2(c.g) \o Hex2(c.b)

(* --- a name or a number *)
Named(n) == [isName |-> TRUE, name |-> n, num |-> Zero]
Numbered(d) == [isName |-> FALSE, name |-> "", num |-> d]
ChoiceNames(t) == CASE t = "YesNoNumber" -> {"yes", "no"}
                    [] t = "FontSize" -> {"xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large"}
                    [] t = "NumberOrNormal" -> {"normal"}
                    [] OTHER -> {""}
NumberFor(t, s) == IF t = "PositiveIntegerOrEmpty"
                   THEN LET n == IntText(s) IN
                        IF n = <<>> THEN <<>> ELSE <<Settle(Dec(FALSE, Chars(ToString(Clamp(n[1], <<1, MaxInt>>))), Zeros(Places)))>>
                   ELSE DecText("Decimal", s)
ChoicePrint(v) == IF v.isName THEN v.name ELSE DecPrint(v.num)
(* for these two a text that is neither becomes a number that nothing says *)
LaxChoice(t) == t \in {"NumberOrNormal", "PositiveIntegerOrEmpty"}

(* --- sets of positive integers *)
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE Split(_, _)
Split(q, acc) == IF q = <<>> THEN <<acc>>
                 ELSE IF q[1] = "," THEN <<acc>> \o Split(Tail(q), <<>>)
                 ELSE Split(Tail(q), IF q[1] = " " THEN acc ELSE Append(acc, q[1]))
ListOf(s) == LET parts == Split(Chars(s), <<>>)
                 nums == {IntOf(FALSE, parts[k]) : k \in {j \in 1..Len(parts) : parts[j] # <<>>}}
             IN {n \in nums : n > 0}
ListPrint(v) == LET q == Asc(v.set)
                    RECURSIVE J(_) J(k) == IF k > Len(q) THEN "" ELSE (IF k = 1 THEN "" ELSE IF v.spaced THEN ", " ELSE ",") \o ToString(q[k]) \o J(k + 1)
                IN J(1)

(* --- custom types: a known name, or any text *)
Others == {"DistanceType", "DynamicsValue", "LineWidthType", "ModeValue"}
OtherName(t) == IF t = "DynamicsValue" THEN "other-dynamics" ELSE "other"
OtherEnum(t) == CASE t = "DistanceType" -> "DistanceTypeEnum" [] t = "DynamicsValue" -> "DynamicsEnum"
                  [] t = "LineWidthType" -> "LineWidthTypeEnum" [] OTHER -> "ModeEnum"
OtherDefault(t) == CASE t = "DynamicsValue" -> "mf" [] t = "ModeValue" -> "major" [] OTHER -> "beam"
Custom(t, names, s) == [name |-> IF s \in names THEN s ELSE OtherName(t), text |-> s]
(* markup characters are escaped; a quotation mark need not be *)
Escaped(s) == LET E(quot) == Join([k \in 1..Len(s) |-> CASE Chars(s)[k] = "&" -> "&amp;" [] Chars(s)[k] = "<" -> "&lt;" [] Chars(s)[k] = ">" -> "&gt;"
                                                         [] Chars(s)[k] = "\"" -> quot [] OTHER -> Chars(s)[k]])
              IN {E("&quot;"), E("\"")}

(* --- identifiers and tokens *)
Id(s, allowed) == LET q == [k \in 1..Len(s) |-> IF Chars(s)[k] \in allowed THEN Chars(s)[k] ELSE "_"] IN
    IF s = "" THEN "ID" ELSE IF IsDigit(q[1]) THEN "ID" \o Join(q) ELSE Join(q)
Token(s) == LET q == Trimmed(Chars(s))
                keep == {k \in 1..Len(q) : q[k] \notin Spaces \/ q[k - 1] \notin Spaces}
            IN Join([k \in 1..Cardinality(keep) |-> LET RECURSIVE Nth(_, _)
                                                         Nth(j, n) == IF j \in keep THEN (IF n = 1 THEN j ELSE Nth(j + 1, n - 1)) ELSE Nth(j + 1, n)
                                                     IN IF q[Nth(1, k)] \in Spaces THEN " " ELSE q[Nth(1, k)]])

(* ------------------------------------------------------------------------- *)
IntTypes == {"AccordionMiddleValue", "BeamLevel", "Byte", "FifthsValue", "Midi128", "Midi16", "Midi16384", "NonNegativeInteger", "NumberLevel",
             "NumberOfLines", "OctaveValue", "PositiveInteger", "StaffLine", "StaffNumber", "StringNumber", "TremoloMarks", "Integer"}
DecTypes == {"DivisionsValue", "MillimetersValue", "NonNegativeDecimal", "Percent", "PositiveDecimal", "PositiveDivisions",
             "PositiveDivisionsValue", "RotationDegrees", "Semitones", "TenthsValue", "TrillBeats", "Decimal"}
Choices == {"YesNoNumber", "FontSize", "NumberOrNormal", "PositiveIntegerOrEmpty"}

(* the value a type starts with *)
Initial(t) ==
    CASE t \in IntTypes -> Clamp(0, Bounds(t))
      [] t \in DecTypes -> IF t \in {"PositiveDecimal", "PositiveDivisions", "PositiveDivisionsValue"} THEN Whole("1") ELSE DecClamp(t, Zero)
      [] t = "Date" -> YMD(1900, 1, 1)
      [] t = "Color" -> White
      [] t = "YesNoNumber" -> Named("yes")
      [] t = "FontSize" -> Numbered(Zero)
      [] t = "NumberOrNormal" -> Named("normal")
      [] t = "PositiveIntegerOrEmpty" -> Named("")
      [] t = "PositiveIntegers" -> [set |-> {}, spaced |-> FALSE]
      [] t \in Others -> [name |-> OtherDefault(t), text |-> OtherDefault(t)]
      [] t = "XsID" -> "ID"
      [] OTHER -> ""

(* what a step makes of a value: the new value, and whether the step says it worked (1, 0, or 2: it does not say) *)
Now(v, ok) == [v |-> v, ok |-> ok]
Parsed(old, r) == IF r = <<>> THEN Now(old, 0) ELSE Now(r[1], 1)
Quiet(r) == [r EXCEPT !.ok = 2]
Arg(s, k) == IntText(s[k])[1]
Step(t, names, allowed, v, s) ==
    CASE s.do = "look" -> Now(v, 2)
      [] t \in IntTypes /\ s.do \in {"set", "make"} -> Now(Clamp(Arg(s, "to"), Bounds(t)), 2)
      [] t \in IntTypes -> Parsed(v, LET n == IntText(s.text) IN IF n = <<>> THEN <<>> ELSE <<Clamp(n[1], Bounds(t))>>)
      [] t \in DecTypes /\ s.do \in {"set", "make"} -> Now(DecText(t, s.to)[1], 2)
      [] t \in DecTypes -> Parsed(v, DecText(t, s.text))
      [] t = "Date" -> (CASE s.do = "make" -> LET y == Clamp(Arg(s, "y"), <<1, 9999>>) m == Clamp(Arg(s, "m"), <<1, 12>>) IN Now(InMonth(y, m, Arg(s, "d")), 2)
                          [] s.do = "makeText" -> Quiet(Parsed(Initial(t), DateText(s.text)))
                          [] s.do = "parse" -> Parsed(v, DateText(s.text))
                          [] s.do = "setAll" -> IF IsDate(Arg(s, "y"), Arg(s, "m"), Arg(s, "d")) THEN Now(YMD(Arg(s, "y"), Arg(s, "m"), Arg(s, "d")), 1) ELSE Now(v, 0)
                          [] s.do = "setYear" -> Now(InMonth(Clamp(Arg(s, "to"), <<1, 9999>>), v.m, v.d), 2)
                          [] s.do = "setMonth" -> Now(InMonth(v.y, Clamp(Arg(s, "to"), <<1, 12>>), v.d), 2)
                          [] s.do = "setDay" -> Now(InMonth(v.y, v.m, Arg(s, "to")), 2)
                          [] s.do = "addDays" -> Now(AddDays(v, Arg(s, "to")), 2)
                          [] s.do = "addMonths" -> Now(AddMonths(v, Arg(s, "to")), 2)
                          [] s.do = "addYears" -> Now(AddYears(v, Arg(s, "to")), 2)
                          [] s.do \in {"next", "preNext"} -> Now(AddDays(v, 1), 2)
                          [] s.do \in {"prev", "prePrev"} -> Now(AddDays(v, -1), 2)
                          [] OTHER -> Now(v, 2))
      [] t = "Color" -> (CASE s.do = "makeText" -> Quiet(Parsed(White, ColorText(s.text)))
                           [] s.do = "parse" -> Quiet(Parsed(v, ColorText(s.text)))
                           [] s.do = "make3" -> Now([a |-> 255, r |-> Byte2(Arg(s, "r")), g |-> Byte2(Arg(s, "g")), b |-> Byte2(Arg(s, "b")), alpha |-> FALSE], 2)
                           [] s.do = "make4" -> Now([a |-> Byte2(Arg(s, "a")), r |-> Byte2(Arg(s, "r")), g |-> Byte2(Arg(s, "g")), b |-> Byte2(Arg(s, "b")), alpha |-> TRUE], 2)
                           [] s.do = "setAlpha" -> Now([v EXCEPT !.a = Byte2(Arg(s, "to")), !.alpha = TRUE], 2)
                           [] s.do = "setRed" -> Now([v EXCEPT !.r = Byte2(Arg(s, "to"))], 2)
                           [] s.do = "setGreen" -> Now([v EXCEPT !.g = Byte2(Arg(s, "to"))], 2)
                           [] s.do = "setBlue" -> Now([v EXCEPT !.b = Byte2(Arg(s, "to"))], 2)
                           [] s.do = "opaque" -> Now(Rgb(v), 2)
                           [] OTHER -> Now([v EXCEPT !.alpha = TRUE], 2))
      [] t \in Choices -> (CASE s.do = "setName" -> Now(Named(s.to), 2)
                             [] s.do = "setNumber" -> Now(Numbered(NumberFor(t, s.to)[1]), 2)
                             [] OTHER -> LET old == IF s.do = "parse" THEN v ELSE Initial(t)
                                             r == IF s.text \in ChoiceNames(t) THEN <<Named(s.text)>>
                                                  ELSE IF NumberFor(t, s.text) # <<>> THEN <<Numbered(NumberFor(t, s.text)[1])>> ELSE <<>>
                                         IN IF s.do = "parse" /\ ~LaxChoice(t) THEN Parsed(old, r) ELSE Quiet(Parsed(old, r)))
      [] t = "PositiveIntegers" -> (CASE s.do = "parse" -> Now([v EXCEPT !.set = ListOf(s.text)], 2)
                                      [] s.do = "makeText" -> Now([set |-> ListOf(s.text), spaced |-> FALSE], 2)
                                      [] s.do = "setAll" -> Now([v EXCEPT !.set = {n \in {IntText(s.to[k])[1] : k \in 1..Len(s.to)} : n > 0}], 2)
                                      [] s.do = "makeAll" -> Now([set |-> {n \in {IntText(s.to[k])[1] : k \in 1..Len(s.to)} : n > 0}, spaced |-> FALSE], 2)
                                      [] s.do = "spaced" -> Now([v EXCEPT !.spaced = TRUE], 2)
                                      [] OTHER -> Now([v EXCEPT !.spaced = FALSE], 2))
      [] t \in Others -> Now(Custom(t, names, IF s.do \in {"setName", "makeName", "set"} THEN s.to ELSE s.text), 2)
      [] t = "XsID" -> Now(Id(IF s.do = "set" THEN s.to ELSE s.text, allowed), 2)
      [] OTHER -> Now(Token(IF s.do = "set" THEN s.to ELSE s.text), 2)

(* a text that a lax choice does not understand leaves a number in it *)
Unclear(t, s) == LaxChoice(t) /\ s.do \in {"parse", "makeText"} /\ s.text \notin ChoiceNames(t) /\ NumberFor(t, s.text) = <<>>

(* a value is legal *)
Legal(t, v) ==
    CASE t \in IntTypes -> v >= Bounds(t)[1] /\ v <= Bounds(t)[2]
      [] t \in DecTypes -> Len(v.f) = Places /\ Len(v.i) <= 19 /\ (Len(v.i) > 1 => v.i[1] # "0") /\ DecClamp(t, v) = v
      [] t = "Date" -> IsDate(v.y, v.m, v.d)
      [] t = "Color" -> {v.a, v.r, v.g, v.b} \subseteq 0..255 /\ (~v.alpha => v.a = 255)
      [] t \in Choices -> IF v.isName THEN v.name \in ChoiceNames(t) ELSE (t = "PositiveIntegerOrEmpty" => ~IsZero(v.num) /\ ~v.num.neg)
      [] t = "PositiveIntegers" -> \A n \in v.set : n > 0
      [] OTHER -> TRUE

(* what it prints *)
Text(t, v) ==
    CASE t \in IntTypes -> ToString(v)
      [] t \in DecTypes -> DecPrint(v)
      [] t = "Date" -> DatePrint(v)
      [] t = "Color" -> ColorPrint(v)
      [] t \in Choices -> ChoicePrint(v)
      [] t = "PositiveIntegers" -> ListPrint(v)
      [] t \in Others -> v.text
      [] OTHER -> v
(* and says of itself *)
Value(t, v) ==
    CASE t \in IntTypes -> {ToString(v)}
      [] t \in DecTypes -> IF IsZero(v) THEN {"0.000000", "-0.000000"} ELSE {DecFixed(v)}
      [] t = "Date" -> {ToString(v.y) \o " " \o ToString(v.m) \o " " \o ToString(v.d) \o " " \o ToString(Weekday(v)) \o " " \o ToString(Days(v.y, v.m)) \o (IF Leap(v.y) THEN " 1" ELSE " 0")}
      [] t = "Color" -> {ToString(v.a) \o " " \o ToString(v.r) \o " " \o ToString(v.g) \o " " \o ToString(v.b) \o (IF v.alpha THEN " a" ELSE " o")}
      [] t \in Choices -> {(IF v.isName THEN "name " ELSE "number ") \o ChoicePrint(v)}
      [] t = "PositiveIntegers" -> {LET q == Asc(v.set) IN Join([k \in 1..Len(q) |-> ToString(q[k]) \o " "])}
      [] t \in Others -> {v.text}
      [] OTHER -> {v}
===============================================================================
