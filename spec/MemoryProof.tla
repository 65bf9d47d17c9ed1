-------------------------- MODULE MemoryProof --------------------------
(* Machine-checked (tlapm), for histories of any length: with results in cells of their own, a step changes the one object
   it is about and no other. *)
EXTENDS MemoryMC, TLAPS
ASSUME Own == Private = TRUE
ASSUME MaxNat == Max \in Nat
TypeOK == cell \in Seq(Nat) /\ val \in Seq(0 .. 2) /\ last \in Nat /\ Len(cell) = Len(val)
Inv == TypeOK /\ \A h \in 1 .. Len(cell) : cell[h] = h
LEMMA InitInv == Init => Inv BY DEF Init, Inv, TypeOK
LEMMA NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. CASE Write BY <1>1 DEF Write, Inv, TypeOK
<1>2. CASE Call
  <2> PICK h \in 1 .. Len(cell) : cell' = Append(cell, Len(val) + 1) /\ val' = Append(val, (View(h) + 1) % 3) BY <1>2, Own DEF Call
  <2>1. (View(h) + 1) % 3 \in 0 .. 2
    <3>1. val[h] \in 0 .. 2 BY DEF Inv, TypeOK
    <3> QED BY <3>1 DEF View, Inv, TypeOK
  <2> QED BY <2>1, <1>2 DEF Call, Inv, TypeOK
<1>3. CASE UNCHANGED vars BY <1>3 DEF vars, Inv, TypeOK
<1> QED BY <1>1, <1>2, <1>3 DEF Next
LEMMA Step == Inv /\ [Next]_vars => [\A h \in 1 .. Len(cell) : h # last' => val'[cell'[h]] = val[cell[h]]]_vars
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE [\A h \in 1 .. Len(cell) : h # last' => val'[cell'[h]] = val[cell[h]]]_vars OBVIOUS
<1>1. CASE Write BY <1>1 DEF Write, Inv, TypeOK
<1>2. CASE Call BY <1>2, Own DEF Call, Inv, TypeOK
<1>3. CASE UNCHANGED vars BY <1>3
<1> QED BY <1>1, <1>2, <1>3 DEF Next
THEOREM NoAlias == Spec => Alone
BY InitInv, NextInv, Step, PTL DEF Spec, Alone
=======================================================================
