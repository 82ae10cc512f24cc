----------------------------- MODULE TConcurrent -----------------------------
(* Is a recorded history of calls made by several threads linearizable to the registry?

   A case has calls made before (setup, one after another), the calls and returns of the threads in the order in
   which they came about (events), and calls made afterwards (after, one after another). Every call takes effect at one
   moment between its call and its return; the specification looks for those moments. A call needs to be given its
   moment only when a return is the next event, of itself or of one it must have preceded.

   Parts that elements make when they are first asked for them (f = "lazy") are told apart by number: every asker of
   the same cell gets the same part.                                                                                 *)
EXTENDS RegistryCalls, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, ph, l,
          open,     \* threads whose call has begun and not returned -> the call
          took,     \* those of them whose call has taken effect
          parts     \* cell -> the part it has
tvars == << vars, seen, c, ph, l, open, took, parts >>
C == Cases[c]
TInit == /\ c \in 1 .. Len(Cases) /\ ph = "setup" /\ l = 1 /\ seen = << >> /\ open = << >> /\ took = {} /\ parts = << >>
         /\ docs = << >> /\ objs = << >> /\ next = Cases[c].base /\ uid = Cases[c].uid0 /\ held = << >> /\ kept = << >>

Effect(E) == IF E.f = "lazy"
             THEN /\ UNCHANGED << vars, seen >> /\ ~E.out.err
                  /\ IF E.cell \in DOMAIN parts THEN parts[E.cell] = E.out.part /\ UNCHANGED parts
                     ELSE parts' = Extend(parts, E.cell, E.out.part)
             ELSE Step(E) /\ UNCHANGED parts

Alone(s, then) == /\ ph = s
                  /\ IF l <= Len(C[s])
                     THEN Effect(C[s][l]) /\ l' = l + 1 /\ UNCHANGED ph
                     ELSE UNCHANGED << vars, seen, parts >> /\ l' = 1 /\ ph' = then
                  /\ UNCHANGED << c, open, took >>
Ev == C.events[l]
Call == /\ ph = "events" /\ l <= Len(C.events) /\ Ev.e = "call"
        /\ open' = Extend(open, Ev.t, Ev.call) /\ l' = l + 1
        /\ UNCHANGED << vars, seen, parts, c, ph, took >>
Lin == /\ ph = "events" /\ l <= Len(C.events) /\ (Ev.e = "ret" /\ Ev.t \notin took)
       /\ \E t \in DOMAIN open \ took : Effect(open[t]) /\ took' = took \cup {t}
       /\ UNCHANGED << c, ph, l, open >>
Ret == /\ ph = "events" /\ l <= Len(C.events) /\ (Ev.e = "ret" /\ Ev.t \in took)
       /\ took' = took \ {Ev.t} /\ open' = Drop(open, Ev.t) /\ l' = l + 1
       /\ UNCHANGED << vars, seen, parts, c, ph >>
Done == /\ ph = "events" /\ l = Len(C.events) + 1 /\ ~C.stuck /\ open = << >>
        /\ ph' = "after" /\ l' = 1 /\ UNCHANGED << vars, seen, parts, c, open, took >>
Accept == /\ ph = "end" /\ PrintT(<< "OK", c >>) /\ ph' = "ok" /\ UNCHANGED << vars, seen, parts, c, l, open, took >>
TNext == /\ (\/ Alone("setup", "events") \/ Call \/ Lin \/ Ret \/ Done \/ Alone("after", "end") \/ Accept)
         /\ Verbose => PrintT(<< "STEP", ph, l, IF ph = "events" /\ l <= Len(C.events) THEN C.events[l] ELSE IF ph \in {"setup", "after"} /\ l <= Len(C[ph]) THEN C[ph][l] ELSE "" >>)
=============================================================================
