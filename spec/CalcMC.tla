----------------------------- MODULE CalcMC -----------------------------
(* The design question behind repeated and concurrent use of one calculator: the instance has one memory that a calculation
   sets element by element and reads wire by wire.  Calculations that hold the instance from start to end (Atomic) never mix;
   without that they do. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Users, Atomic
VARIABLES pc, in, got, mem, left, turn, calls
vars == <<pc, in, got, mem, left, turn, calls>>
Q == 3
\* the circuit: two inputs on wires 1 and 2, their sum on wire 3
Inputs == (0 .. Q - 1) \X (0 .. Q - 1)
Witness(i) == <<1, i[1], i[2], (i[1] + i[2]) % Q>>
Init == pc = [u \in Users |-> "idle"] /\ in = [u \in Users |-> <<0, 0>>] /\ got = [u \in Users |-> <<>>] /\ mem = <<1, 0, 0, 0>> /\ left = 0 /\ turn = {} /\ calls = 0
Mine(u) == ~Atomic \/ turn = {u}
Begin(u) == /\ pc[u] = "idle" /\ calls < 3 /\ (Atomic => turn = {}) /\ turn' = {u} /\ calls' = calls + 1
            /\ \E i \in Inputs : in' = [in EXCEPT ![u] = i]
            /\ pc' = [pc EXCEPT ![u] = "set1"] /\ mem' = <<1, 0, 0, 0>> /\ left' = 2 /\ got' = [got EXCEPT ![u] = <<>>]
Set(u, k) == /\ pc[u] = (IF k = 1 THEN "set1" ELSE "set2") /\ Mine(u) /\ left > 0 /\ left' = left - 1
             /\ LET m == [mem EXCEPT ![k + 1] = in[u][k]] IN mem' = IF left = 1 THEN [m EXCEPT ![4] = (m[2] + m[3]) % Q] ELSE m
             /\ pc' = [pc EXCEPT ![u] = IF k = 1 THEN "set2" ELSE "read"] /\ UNCHANGED <<in, got, turn, calls>>
\* an input that is refused halfway leaves the memory as it is
Abort(u) == pc[u] = "set2" /\ Mine(u) /\ pc' = [pc EXCEPT ![u] = "idle"] /\ turn' = {} /\ UNCHANGED <<in, got, mem, left, calls>>
Read(u) == /\ pc[u] = "read" /\ Mine(u) /\ got' = [got EXCEPT ![u] = Append(@, mem[Len(got[u]) + 1])]
           /\ pc' = [pc EXCEPT ![u] = IF Len(got[u]) = 3 THEN "done" ELSE "read"] /\ UNCHANGED <<in, mem, left, turn, calls>>
End(u) == pc[u] = "done" /\ pc' = [pc EXCEPT ![u] = "idle"] /\ turn' = turn \ {u} /\ UNCHANGED <<in, got, mem, left, calls>>
Next == \E u \in Users : Begin(u) \/ Set(u, 1) \/ Set(u, 2) \/ Abort(u) \/ Read(u) \/ End(u)
NoMixing == \A u \in Users : pc[u] = "done" => got[u] = Witness(in[u])
=======================================================================
