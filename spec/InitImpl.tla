---------------------------- MODULE InitImpl ----------------------------
(* The shared-promise guard of the package, one JavaScript turn at a time: callers test a flag, create or join the
   promise of the initialisation, and continue in a later turn once it has settled.  With Shared = TRUE it refines Init;
   with Shared = FALSE (each caller initialises for itself) it does not. *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Shared
VARIABLES flag, prom, pc, fails, ini, bad, starts
\* prom: the shared promise ("null", "pending", "resolved", "rejected"); pc: each caller's position
vars == <<flag, prom, pc, fails, ini, bad, starts>>
Init == flag = FALSE /\ prom = "null" /\ pc = [c \in Callers |-> "idle"] /\ fails \in SUBSET Callers /\ ini = "none" /\ bad = [c \in Callers |-> FALSE] /\ starts = 0
Busy(c) == pc[c] \notin {"idle", "done", "failed"}
Call(c) == pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = "called"] /\ bad' = [bad EXCEPT ![c] = ini = "bad"] /\ UNCHANGED <<flag, prom, fails, ini, starts>>
Enter(c) == /\ pc[c] = "called"
            /\ IF flag THEN pc' = [pc EXCEPT ![c] = "ready"] /\ UNCHANGED <<prom, ini, starts>>
               ELSE /\ pc' = [pc EXCEPT ![c] = "await"]
                    /\ IF prom = "null" \/ ~Shared THEN prom' = "pending" /\ ini' = "busy" /\ starts' = starts + 1 ELSE UNCHANGED <<prom, ini, starts>>
            /\ UNCHANGED <<flag, fails, bad>>
Resolve == prom = "pending" /\ prom' = "resolved" /\ ini' = "ok" /\ flag' = TRUE /\ UNCHANGED <<pc, fails, bad, starts>>
Reject == prom = "pending" /\ prom' = "rejected" /\ ini' = "bad" /\ bad' = [c \in Callers |-> bad[c] \/ Busy(c)] /\ UNCHANGED <<flag, pc, fails, starts>>
Resume(c) == pc[c] = "await" /\ prom \in {"resolved", "rejected"} /\ pc' = [pc EXCEPT ![c] = IF prom = "resolved" THEN "ready" ELSE "failed"] /\ UNCHANGED <<flag, prom, fails, ini, bad, starts>>
Op(c) == pc[c] = "ready" /\ pc' = [pc EXCEPT ![c] = IF c \in fails THEN "threw" ELSE "ran"] /\ UNCHANGED <<flag, prom, fails, ini, bad, starts>>
Finish(c) == pc[c] \in {"ran", "threw"} /\ pc' = [pc EXCEPT ![c] = IF pc[c] = "ran" THEN "done" ELSE "failed"] /\ UNCHANGED <<flag, prom, fails, ini, bad, starts>>
Step(c) == Enter(c) \/ Resume(c) \/ Op(c) \/ Finish(c)
Next == Resolve \/ Reject \/ \E c \in Callers : Call(c) \/ Step(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Resolve \/ Reject) /\ \A c \in Callers : WF_vars(Step(c))
Abs == INSTANCE Init WITH st <- [c \in Callers |-> IF pc[c] \in {"await", "ready"} THEN "called" ELSE pc[c]]
Refines == Abs!ISpec
Guarded == Abs!Guarded
\* every call is answered in the end
Answered == \A c \in Callers : pc[c] = "called" ~> pc[c] \in {"done", "failed"}
=======================================================================
