---------------------------- MODULE InitGen -----------------------------
(* All schedules of a number of callers against the settling of initialisations: sequences over
   "c" (the next caller calls), "r" (an initialisation succeeds), "j" (it fails), "t" (the event loop turns). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NCalls, NSettle, NTurn, Cap
VARIABLES s, c, r, t
GInit == s = <<>> /\ c = 0 /\ r = 0 /\ t = 0
Last == IF s = <<>> THEN "" ELSE s[Len(s)]
GNext == /\ Len(s) < Cap
         /\ \/ c < NCalls /\ s' = Append(s, "c") /\ c' = c + 1 /\ UNCHANGED <<r, t>>
            \/ c > 0 /\ r < NSettle /\ \E x \in {"r", "j"} : s' = Append(s, x) /\ r' = r + 1 /\ UNCHANGED <<c, t>>
            \/ c > 0 /\ t < NTurn /\ Last # "t" /\ s' = Append(s, "t") /\ t' = t + 1 /\ UNCHANGED <<c, r>>
Emit == c > 0 => PrintT("SCHED " \o ToJson(s))
=======================================================================
