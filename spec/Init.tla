------------------------------ MODULE Init ------------------------------
(* Concurrent callers of the JavaScript package and the one WebAssembly module below it.
   ini: the module ("none", "busy", "ok", "bad"); st[c]: the caller ("idle", "called", "ran" (its operation was performed),
   "threw" (its operation failed), "done", "failed"); bad[c]: initialisation has failed, before or since its call. *)
EXTENDS Integers, FiniteSets
CONSTANT Callers
VARIABLES ini, st, bad, starts      \* starts: how often an initialisation was begun
ivars == <<ini, st, bad, starts>>
Active(c) == st[c] \in {"called", "ran", "threw"}
IInit == ini = "none" /\ starts = 0 /\ st = [c \in Callers |-> "idle"] /\ bad = [c \in Callers |-> FALSE]
Call(c) == st[c] = "idle" /\ st' = [st EXCEPT ![c] = "called"] /\ bad' = [bad EXCEPT ![c] = ini = "bad"] /\ UNCHANGED <<ini, starts>>
\* never while one is under way, never after one succeeded; only on behalf of a caller
InitStart == ini \in {"none", "bad"} /\ (\E c \in Callers : st[c] = "called") /\ ini' = "busy" /\ starts' = starts + 1 /\ UNCHANGED <<st, bad>>
InitOk == ini = "busy" /\ ini' = "ok" /\ UNCHANGED <<st, bad, starts>>
InitBad == ini = "busy" /\ ini' = "bad" /\ bad' = [c \in Callers |-> bad[c] \/ Active(c)] /\ UNCHANGED <<st, starts>>
Op(c, ok) == st[c] = "called" /\ ini = "ok" /\ st' = [st EXCEPT ![c] = IF ok THEN "ran" ELSE "threw"] /\ UNCHANGED <<ini, bad, starts>>
Done(c) == st[c] = "ran" /\ st' = [st EXCEPT ![c] = "done"] /\ UNCHANGED <<ini, bad, starts>>
Fail(c) == (st[c] = "threw" \/ (st[c] = "called" /\ bad[c])) /\ st' = [st EXCEPT ![c] = "failed"] /\ UNCHANGED <<ini, bad, starts>>
INext == InitStart \/ InitOk \/ InitBad \/ \E c \in Callers : Call(c) \/ Op(c, TRUE) \/ Op(c, FALSE) \/ Done(c) \/ Fail(c)
ISpec == IInit /\ [][INext]_ivars
\* no operation before initialisation has completed; a failure reaches everyone who waits
Guarded == \A c \in Callers : st[c] \in {"ran", "threw", "done"} => ini = "ok"
Settled == \A c \in Callers : st[c] \in {"idle", "done", "failed"}
=======================================================================
