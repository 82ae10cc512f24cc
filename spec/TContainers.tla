---------------------------- MODULE TContainers -----------------------------
(* Is a recorded history of edits of a real element a behaviour of Containers?
   Cases: [class, trace]; every step has the call, what it answered, and what the element holds and prints afterwards.
   A child prints as the mark it was given, except one the element made by itself, which prints as was recorded of it.  *)
EXTENDS Containers, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Table == JsonDeserialize(IOEnv.TABLE)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, l, sync
Cl == Table[Cases[c].class]
T == Cases[c].trace
Held(h, s) == /\ DOMAIN h = { x[1] : x \in ToSet(s.ids) }
              /\ \A x \in ToSet(s.ids) : h[x[1]] = x[2]
Flags(f, s) == \A x \in ToSet(s.has) : f[x[1]] = x[2]
Texts(s) == [ n \in SlotNames(Cl) |-> (CHOOSE x \in ToSet(s.tx) : x[1] = n)[2] ]
Mark(n, k) == "[" \o n \o ":" \o ToString(k) \o "]"
Marked(h, t) == \A n \in DOMAIN h : /\ Len(t[n]) = Len(h[n])
                                    /\ \A i \in 1 .. Len(h[n]) : h[n][i] # Made => t[n][i] = Mark(n, h[n][i])
Told(h, f, ch, s) == /\ Held(h, s) /\ Flags(f, s) /\ ch = s.ch
                     /\ Marked(h, Texts(s))
                     /\ s.print = Printed(Cl, Texts(s), f, ch)
TInit == /\ c \in 1 .. Len(Cases) /\ l = 2 /\ sync = FALSE
         /\ Begin(Cl)
         /\ Told(held, flags, choice, T[1]) = TRUE
Do(s) == CASE s.f = "add" -> Add(Cl, s.s, s.v)
           [] s.f = "remove" -> Remove1(Cl, s.s, s.v)
           [] s.f = "clear" -> Clear(Cl, s.s)
           [] s.f = "look" -> s.res = Looked(s.s, s.v) /\ Same
           [] s.f = "set" -> Set1(Cl, s.s, s.v)
           [] s.f = "has" -> SetFlag(s.s, s.v = 1)
           [] s.f = "choice" -> SetChoice(s.s)
TNext == \/ /\ l <= Len(T)
            /\ Verbose => PrintT(<< "STEP", l, T[l].f, T[l].s, T[l].v, "held", held, flags, choice >>)
            /\ Do(T[l]) /\ l' = l + 1 /\ UNCHANGED << c, sync >>
            /\ Verbose => PrintT(<< "WANT", held', flags', choice', Printed(Cl, Texts(T[l]), flags', choice'), "GOT", T[l] >>)
            /\ Told(held', flags', choice', T[l]) = TRUE
         \/ /\ l = Len(T) + 1 /\ ~sync
            /\ PrintT(<< "OK", c >>) /\ sync' = TRUE /\ UNCHANGED << conts, c, l >>
=============================================================================
