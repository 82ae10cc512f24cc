----------------------------- MODULE TDirection -----------------------------
(* The directions of the staves of a score before writing and after reading back, time by time. *)
EXTENDS DirectionCarry, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, s, left
tvars == << c, s, left >>
Staves == Cases[c].staves
TimesOf(x) == { DirTime(x.want[k]) : k \in DOMAIN x.want } \cup { DirTime(x.got[k]) : k \in DOMAIN x.got }
TimesAt(j, q) == IF q <= Len(Cases[j].staves) THEN TimesOf(Cases[j].staves[q]) ELSE {}
TInit == c \in 1 .. Len(Cases) /\ s = 1 /\ left = TimesAt(c, 1)
\* for the report: what differs in what
Or(r, f) == IF f \in DOMAIN r THEN r[f] ELSE "nothing"
Differences(w, g) == UNION { { << k, f, "wanted", Or(w[k], f), "got", Or(g[k], f) >> : f \in { f \in DOMAIN w[k] \cup DOMAIN g[k] : f \notin DOMAIN w[k] \/ f \notin DOMAIN g[k] \/ (f \in DOMAIN w[k] /\ f \in DOMAIN g[k] /\ w[k][f] /= g[k][f]) } }
                            : k \in DOMAIN w \cap DOMAIN g }
Earliest(T) == CHOOSE t \in T : \A u \in T : t <= u
Deliver == /\ s <= Len(Staves) /\ left /= {}
           /\ LET t == Earliest(left)  x == Staves[s]  w == WantAt(x.want, t, x.staff)  g == GotAt(x.got, t) IN
              /\ (Verbose /\ w /= g) => PrintT(<< "staff", s, "time", t, "wanted and got", Len(w), Len(g), Differences(w, g) >>)
              /\ w = g
              /\ left' = left \ { t } /\ UNCHANGED << c, s >>
NextStaff == s <= Len(Staves) /\ left = {} /\ s' = s + 1 /\ left' = TimesAt(c, s + 1) /\ UNCHANGED c
Done == s = Len(Staves) + 1 /\ Cases[c].ok /\ PrintT(<< "OK", c >>) /\ s' = s + 1 /\ UNCHANGED << c, left >>
TNext == Deliver \/ NextStaff \/ Done
=============================================================================
