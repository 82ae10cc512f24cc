-------------------------------- MODULE MCValues --------------------------------
(* Short histories of every type of value, over small alphabets of steps. Values stay legal, print what they parse,
   and the calendar is the calendar. Histories are handed out (EMIT). *)
EXTENDS Values, Json
CONSTANTS Types, Long, EmitAll
VARIABLES type, v, hist
vars == <<type, v, hist>>
Do(d) == [do |-> d]
To(d, x) == [do |-> d, to |-> x]
Tx(d, x) == [do |-> d, text |-> x]
IntTexts == {"0", "1", "-1", "2", "3", "6", "7", "8", "9", "10", "16", "17", "128", "129", "255", "256", "16384", "16385", "2147483647", "-2147483648"}
BadInts == {"", " ", "x", "1x", "1 1", "1.5", "2147483648", "-2147483649", "--1", "-", "0x1"}
DecTexts == {"0", "1", "-1", "2", "1.5", "1.999999", "2.0000004", "1.9999996", "99.9999999", "100.000001", "180.5", "-180.000001", "-179.9999999", "0.0000004", "0.0000006",
             "-0.0000004", "0.000001", "-0.000001", "123456789.100000", "0.010", "00.5", "18446744073709551616", "-99999999999999999999999", ".5", "5."}
BadDecs == {"", " ", "x", "1,5", "1.5.5", "1 5", "- 1", "-", ".", "1.5x"}
Alphabet(t) ==
    CASE t \in IntTypes -> {To("set", x) : x \in IntTexts} \cup {To("make", x) : x \in {"-1", "5", "300"}} \cup {Tx("parse", x) : x \in {"-5", " 4 ", "+3", "0100", "70000"} \cup BadInts}
      [] t \in DecTypes -> {To("set", x) : x \in DecTexts} \cup {To("make", x) : x \in {"-1", "0.0000001", "300"}} \cup {Tx("parse", x) : x \in {" 4.25 ", "+3.5", "-0.5", "-0", "1.0"} \cup BadDecs}
      [] t = "Date" -> {To("setYear", x) : x \in {"0", "1", "1900", "2000", "2001", "9999", "10000"}} \cup {To("setMonth", x) : x \in {"0", "1", "2", "4", "12", "13"}} \cup {To("setDay", x) : x \in {"0", "1", "28", "29", "30", "31", "32"}}
                       \cup {To("addDays", x) : x \in {"1", "-1", "28", "-29", "365", "-366"}} \cup {To("addMonths", x) : x \in {"0", "1", "-1", "11", "-11", "12", "-12", "13", "-14", "23", "-25"}} \cup {To("addYears", x) : x \in {"1", "-1", "4", "100"}}
                       \cup {Tx("parse", x) : x \in {"2000-02-29", "1900-02-29", "2001-12-31", "0001-01-01", "9999-12-31", "0000-01-01", "2001-1-1", "2001-13-01", "2001-00-10", "2001-01-00", "2001-04-31", "01-01-2001", "", "2001/01/01", "2001-01-01 "}}
                       \cup {[do |-> "setAll", y |-> "2004", m |-> "2", d |-> "29"], [do |-> "setAll", y |-> "2003", m |-> "2", d |-> "29"], [do |-> "make", y |-> "2003", m |-> "2", d |-> "31"], Do("next"), Do("prev")}
      [] t = "Color" -> {Tx("parse", x) : x \in {"#102030", "#01020304", "#FFABCDEF", "", "#12", "102030A", "#GG0000", "#abcdef"}} \cup {To(f, x) : f \in {"setAlpha", "setRed", "setGreen", "setBlue"}, x \in {"-1", "0", "16", "255", "256"}}
                        \cup {Do("opaque"), Do("withAlpha"), [do |-> "make3", r |-> "1", g |-> "2", b |-> "300"], [do |-> "make4", a |-> "-1", r |-> "10", g |-> "200", b |-> "3"]}
      [] t \in Choices -> {Tx(f, x) : f \in {"parse", "makeText"}, x \in ChoiceNames(t) \cup {"3", "-2", "x", " 7 ", "1.25"}} \cup {To("setName", x) : x \in ChoiceNames(t)} \cup {To("setNumber", x) : x \in {"0", "12", "-3"}}
      [] t = "PositiveIntegers" -> {Tx(f, x) : f \in {"parse", "makeText"}, x \in {"1", "1,2", "2,1", "1, 2", "3,3", "12,2,1", "", "0,5"}} \cup {To(f, x) : f \in {"setAll", "makeAll"}, x \in {<<>>, <<"2", "1">>, <<"-1", "3">>, <<"10", "9", "0">>}} \cup {Do("spaced"), Do("tight")}
      [] t \in Others -> {Tx(f, x) : f \in {"parse", "makeText"}, x \in {"a", "beam", "mf", "major", "other", "other-dynamics", "a <b>", ""}} \cup {To("set", x) : x \in {"b", "beam", "other", "f", "minor"}} \cup {To("setName", OtherDefault(t))}
      [] OTHER -> {Tx("makeText", x) : x \in {"a", "a b", "1", "", "P1.x", "-a", "  a  b ", "a\tb"}} \cup {To("set", x) : x \in {"Q", "9z", "a,b"}}
Known(t) == CASE t = "DistanceType" -> {"beam", "hyphen", "other"} [] t = "DynamicsValue" -> {"mf", "f", "other-dynamics"} [] t = "LineWidthType" -> {"beam", "other"} [] OTHER -> {"major", "minor", "other"}
Allowed == {"I", "D", "a", "b", "c", "P", "Q", "z", "x", ".", "-", "1", "9", "_"}

Init == type \in Types /\ v = Initial(type) /\ hist = <<>>
Next == \/ /\ Len(hist) < Long
           /\ \E s \in Alphabet(type) : /\ v' = Step(type, Known(type), Allowed, v, s).v
                                        /\ hist' = Append(hist, s)
           /\ UNCHANGED type
        \/ /\ Len(hist) = Long /\ EmitAll
           /\ PrintT(<<"EMIT", ToJson([type |-> type, steps |-> hist])>>)
           /\ hist' = Append(hist, Do("end")) /\ UNCHANGED <<type, v>>
StaysLegal == Legal(type, v)
(* what is printed is parsed as the value that printed it *)
PrintsWhatItParses ==
    CASE type \in IntTypes -> IntText(Text(type, v)) = <<v>>
      [] type \in DecTypes -> DecText(type, Text(type, v)) = <<v>>
      [] type = "Date" -> DateText(Text(type, v)) = <<v>>
      [] type = "Color" -> ColorText(Text(type, v)) = <<v>>
      [] type \in Choices -> Step(type, {}, {}, Initial(type), Tx("parse", Text(type, v))).v = v
      [] type = "PositiveIntegers" -> ListOf(Text(type, v)) = v.set
      [] type \in Others -> Custom(type, Known(type), v.text) = v \/ v.text = OtherDefault(type)
      [] type = "XsID" -> Id(v, Allowed) = v
      [] OTHER -> Token(v) = v
(* and shortest: no digit can be left out *)
Shortest == type \in DecTypes => LET q == Chars(Text(type, v)) IN
              /\ (q[1] = "0" => Len(q) = 1 \/ q[2] = ".")
              /\ ((\E j \in 1..Len(q) : q[j] = ".") => q[Len(q)] \notin {"0", "."})
(* a refused text changes nothing *)
Refused == [][ hist' # hist /\ Len(hist') <= Long => LET s == hist'[Len(hist')] IN Step(type, Known(type), Allowed, v, s).ok = 0 => v' = v ]_vars
================================================================================
