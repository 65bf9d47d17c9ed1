--------------------------- MODULE InitProof ---------------------------
(* Machine-checked (tlapm), for any set of callers: no operation before initialisation has completed, and the guard of the
   package (InitImpl with Shared = TRUE) refines Init. *)
EXTENDS InitImpl, TLAPS
ASSUME SharedOn == Shared = TRUE
Pcs == {"idle", "called", "await", "ready", "ran", "threw", "done", "failed"}
TypeOK == /\ flag \in BOOLEAN /\ prom \in {"null", "pending", "resolved", "rejected"}
          /\ pc \in [Callers -> Pcs] /\ bad \in [Callers -> BOOLEAN] /\ fails \in SUBSET Callers
          /\ ini \in {"none", "busy", "ok", "bad"} /\ starts \in Int
Inv == /\ TypeOK
       /\ flag <=> prom = "resolved"
       /\ prom = "null" <=> ini = "none"
       /\ prom = "pending" <=> ini = "busy"
       /\ prom = "resolved" <=> ini = "ok"
       /\ prom = "rejected" <=> ini = "bad"
       /\ \A c \in Callers : pc[c] \in {"ready", "ran", "threw", "done"} => ini = "ok"
       /\ \A c \in Callers : pc[c] = "await" => prom # "null"
       /\ \A c \in Callers : ini = "bad" /\ pc[c] \in {"called", "await"} => bad[c]
LEMMA InvInit == Init => Inv BY DEF Init, Inv, TypeOK, Pcs
LEMMA InvNext == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1> USE SharedOn DEF Inv, TypeOK, Pcs
<1>1. CASE Resolve BY <1>1 DEF Resolve
<1>2. CASE Reject BY <1>2 DEF Reject, Busy
<1>3. ASSUME NEW c \in Callers, Call(c) PROVE Inv' BY <1>3 DEF Call
<1>4. ASSUME NEW c \in Callers, Enter(c) PROVE Inv' BY <1>4 DEF Enter
<1>5. ASSUME NEW c \in Callers, Resume(c) PROVE Inv' BY <1>5 DEF Resume
<1>6. ASSUME NEW c \in Callers, Op(c) PROVE Inv' BY <1>6 DEF Op
<1>7. ASSUME NEW c \in Callers, Finish(c) PROVE Inv' BY <1>7 DEF Finish
<1>8. CASE UNCHANGED vars BY <1>8 DEF vars
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next, Step
Safe == Init /\ [][Next]_vars
THEOREM Always == Safe => []Inv
<1>1. Inv /\ UNCHANGED vars => Inv' BY InvNext DEF Next
<1> QED BY InvInit, InvNext, PTL DEF Safe
THEOREM Guard == Safe => []Guarded
<1>1. Inv => Guarded BY DEF Inv, TypeOK, Guarded, Abs!Guarded, Pcs
<1> QED BY <1>1, Always, PTL
View == [c \in Callers |-> IF pc[c] \in {"await", "ready"} THEN "called" ELSE pc[c]]
LEMMA StepRefines == Inv /\ Inv' /\ [Next]_vars => [Abs!INext]_(Abs!ivars)
<1> SUFFICES ASSUME Inv, Inv', [Next]_vars PROVE [Abs!INext]_(Abs!ivars) OBVIOUS
<1> USE SharedOn DEF Inv, TypeOK, Pcs, Abs!ivars, Abs!INext
<1>1. CASE Resolve BY <1>1 DEF Resolve, Abs!InitOk
<1>2. CASE Reject BY <1>2 DEF Reject, Busy, Abs!InitBad, Abs!Active
<1>3. ASSUME NEW c \in Callers, Call(c) PROVE Abs!Call(c) BY <1>3 DEF Call, Abs!Call
<1>4. ASSUME NEW c \in Callers, Enter(c) PROVE Abs!InitStart \/ UNCHANGED Abs!ivars BY <1>4 DEF Enter, Abs!InitStart
<1>5. ASSUME NEW c \in Callers, Resume(c) PROVE Abs!Fail(c) \/ UNCHANGED Abs!ivars BY <1>5 DEF Resume, Abs!Fail
<1>6. ASSUME NEW c \in Callers, Op(c) PROVE Abs!Op(c, TRUE) \/ Abs!Op(c, FALSE) BY <1>6 DEF Op, Abs!Op
<1>7. ASSUME NEW c \in Callers, Finish(c) PROVE Abs!Done(c) \/ Abs!Fail(c) BY <1>7 DEF Finish, Abs!Done, Abs!Fail
<1>8. CASE UNCHANGED vars BY <1>8 DEF vars
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next, Step
LEMMA InitRefines == Init => Abs!IInit BY DEF Init, Abs!IInit
THEOREM Refinement == Safe => Abs!ISpec
<1>1. [](Inv /\ [Next]_vars) => [][Abs!INext]_(Abs!ivars) BY StepRefines, InvNext, PTL
<1> QED BY InitRefines, StepRefines, Always, PTL DEF Safe, Abs!ISpec
=======================================================================
