---------------------------- MODULE MCConcurrent ----------------------------
(* A registry that several threads use: how a lock makes it the registry of Registry.tla.

   Each thread makes one call of each of its program's kinds, in small steps on shared memory (map, cur, number), as the
   implementation takes them: what needs no lock before, then the lock, then reads and writes of the shared data one by
   one, then the lock's release. Beside it runs the sequential registry, taking every call's effect at one moment: the step
   that LinAt names. If the lock is there (Locked), every call returns what the sequential registry replied, and whenever
   the lock is free both have the same documents. Without it TLC finds a history that is not linearizable.           *)
EXTENDS Registry
CONSTANTS Threads, Locked, Programs
VARIABLES map, cur, number,     \* the shared data
          lock,                 \* who has it, or 0
          prog,                 \* thread -> calls still to make
          pc, reg,              \* thread -> where it is; what it has read
          reply                 \* thread -> what the sequential registry replied
cvars == << vars, map, cur, number, lock, prog, pc, reg, reply >>
shared == << map, cur, number >>

Ids == 1 .. Cardinality(Threads) * 2 + 1
A == Content("a", << >>, "partwise", TRUE)
B == Content("b", << >>, "timewise", TRUE)
CInit == /\ docs = (1 :> 1) /\ objs = (1 :> A) /\ next = 2 /\ uid = 0 /\ held = << >> /\ kept = << >>
         /\ map = (1 :> A) /\ cur = 2 /\ number = 0 /\ lock = 0
         /\ prog \in [Threads -> Programs]
         /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> 0] /\ reply = [t \in Threads |-> 0]

Op(t) == Head(prog[t])
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Keep(t, v) == reg' = [reg EXCEPT ![t] = v]
Reply(t, v) == reply' = [reply EXCEPT ![t] = v]

Begin(t) == /\ pc[t] = "idle" /\ prog[t] # << >> /\ Go(t, "want") /\ UNCHANGED << vars, shared, lock, prog, reg, reply >>
Take(t) == /\ pc[t] = "want" /\ IF Locked THEN lock = 0 /\ lock' = t ELSE UNCHANGED lock
           /\ Go(t, "in1") /\ UNCHANGED << vars, shared, prog, reg, reply >>

\* creation: the map gets the document under the current id; the id is read and counted on
Create1(t) == /\ pc[t] = "in1" /\ Op(t).f = "create"
              /\ map' = Extend(map, cur, B) /\ Go(t, "in2") /\ UNCHANGED << vars, cur, number, lock, prog, reg, reply >>
Create2(t) == /\ pc[t] = "in2" /\ Op(t).f = "create"
              /\ Keep(t, cur) /\ Go(t, "in3") /\ UNCHANGED << vars, shared, lock, prog, reply >>
Create3(t) == /\ pc[t] = "in3" /\ Op(t).f = "create"
              /\ cur' = reg[t] + 1 /\ Go(t, "out") /\ Create(B) /\ Reply(t, next) /\ UNCHANGED << map, number, lock, prog, reg >>
\* reading: the document is looked up; what it says is found out without the lock
Read1(t) == /\ pc[t] = "in1" /\ Op(t).f = "get"
            /\ Keep(t, IF Op(t).id \in DOMAIN map THEN map[Op(t).id] ELSE Empty) /\ Go(t, "out")
            /\ Observe /\ Reply(t, GetReply(Op(t).id)) /\ UNCHANGED << shared, lock, prog >>
Destroy1(t) == /\ pc[t] = "in1" /\ Op(t).f = "destroy"
               /\ map' = Drop(map, Op(t).id) /\ Go(t, "out") /\ Keep(t, 0)
               /\ Destroy(Op(t).id) /\ Reply(t, 0) /\ UNCHANGED << cur, number, lock, prog >>
Uid1(t) == /\ pc[t] = "in1" /\ Op(t).f = "uid" /\ Keep(t, number) /\ Go(t, "in2") /\ UNCHANGED << vars, shared, lock, prog, reply >>
Uid2(t) == /\ pc[t] = "in2" /\ Op(t).f = "uid"
           /\ number' = reg[t] + 1 /\ Go(t, "out") /\ uid' = uid + 1 /\ Reply(t, uid) /\ UNCHANGED << docs, objs, next, held, kept, map, cur, lock, prog, reg >>
Leave(t) == /\ pc[t] = "out" /\ lock' = (IF Locked THEN 0 ELSE lock) /\ Go(t, "ret") /\ UNCHANGED << vars, shared, prog, reg, reply >>
Return(t) == /\ pc[t] = "ret" /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ Go(t, "idle") /\ UNCHANGED << vars, shared, lock, reg, reply >>
CNext == \E t \in Threads : Begin(t) \/ Take(t) \/ Create1(t) \/ Create2(t) \/ Create3(t) \/ Read1(t) \/ Destroy1(t) \/ Uid1(t) \/ Uid2(t) \/ Leave(t) \/ Return(t)
CSpec == CInit /\ [][CNext]_cvars

Calls == { [ f |-> "create" ], [ f |-> "uid" ] } \cup { [ f |-> x, id |-> i ] : x \in { "get", "destroy" }, i \in 1 .. 2 }
One == { << x >> : x \in Calls }
Two == { << x, y >> : x \in Calls, y \in Calls }
Linearizable == \A t \in Threads : pc[t] = "ret" => reg[t] = reply[t]
SameWhenFree == lock = 0 /\ Locked => /\ DOMAIN map = Live /\ \A i \in Live : map[i] = ContentOf(i)
                                      /\ cur = next /\ number = uid
=============================================================================
