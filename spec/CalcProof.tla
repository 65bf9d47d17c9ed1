--------------------------- MODULE CalcProof ---------------------------
(* Machine-checked (tlapm), for any set of users: calculations that hold the instance from start to end never mix. *)
EXTENDS CalcMC, TLAPS
ASSUME Held == Atomic = TRUE
Spec == Init /\ [][Next]_vars
States == {"idle", "set1", "set2", "read", "done"}
Fits(u) == /\ pc[u] # "idle" => turn = {u}
           /\ pc[u] = "set1" => mem = <<1, 0, 0, 0>> /\ left = 2 /\ got[u] = <<>>
           /\ pc[u] = "set2" => mem = <<1, in[u][1], 0, 0>> /\ left = 1 /\ got[u] = <<>>
           /\ pc[u] = "read" => mem = Witness(in[u]) /\ left = 0 /\ got[u] \in Seq(Int) /\ Len(got[u]) < 4 /\ \A k \in 1 .. Len(got[u]) : got[u][k] = mem[k]
           /\ pc[u] = "done" => got[u] = Witness(in[u])
Inv == /\ pc \in [Users -> States] /\ in \in [Users -> Inputs] /\ got \in [Users -> Seq(Int)] /\ DOMAIN got = Users
       /\ \A u \in Users : Fits(u)
LEMMA Three == 0 .. Q - 1 = 0 .. 2 BY DEF Q
LEMMA Pair == \A i \in Inputs : \E x, y \in 0 .. 2 : i = <<x, y>> BY Three DEF Inputs
LEMMA WitnessIs == \A i \in Inputs : Witness(i) \in Seq(Int) /\ Len(Witness(i)) = 4 /\ \A k \in 1 .. 4 : Witness(i)[k] \in Int
<1> SUFFICES ASSUME NEW i \in Inputs PROVE Witness(i) \in Seq(Int) /\ Len(Witness(i)) = 4 /\ \A k \in 1 .. 4 : Witness(i)[k] \in Int OBVIOUS
<1>1. PICK x, y \in 0 .. 2 : i = <<x, y>> BY Pair
<1>2. i[1] \in Int /\ i[2] \in Int /\ (i[1] + i[2]) % Q \in Int BY <1>1 DEF Q
<1> QED BY <1>2 DEF Witness
LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>0. 0 \in 0 .. Q - 1 BY DEF Q
<1>1. <<0, 0>> \in Inputs BY <1>0 DEF Inputs
<1>2. <<>> \in Seq(Int) OBVIOUS
<1> QED BY <1>1, <1>2 DEF Init, Inv, States, Fits
LEMMA NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>0. CASE UNCHANGED vars BY <1>0 DEF vars, Inv, Fits
<1>1. CASE Next
  <2> PICK u \in Users : Begin(u) \/ Set(u, 1) \/ Set(u, 2) \/ Abort(u) \/ Read(u) \/ End(u) BY <1>1 DEF Next
  <2>1. CASE Begin(u)
    <3>1. PICK i \in Inputs : in' = [in EXCEPT ![u] = i] BY <2>1 DEF Begin
    <3>2. \A w \in Users : pc[w] = "idle" BY <2>1, Held DEF Begin, Inv, Fits, States
    <3>3. pc' \in [Users -> States] /\ in' \in [Users -> Inputs] /\ got' \in [Users -> Seq(Int)] BY <2>1, <3>1 DEF Begin, Inv, States
    <3>4. \A w \in Users : Fits(w)' BY <2>1, <3>2 DEF Begin, Inv, Fits, States
    <3> QED BY <3>3, <3>4 DEF Inv
  <2>o. \A w \in Users : pc[u] # "idle" /\ w # u => pc[w] = "idle" BY DEF Inv, Fits
  <2>2. CASE Set(u, 1)
    <3>1. pc[u] = "set1" /\ mem = <<1, 0, 0, 0>> /\ left = 2 /\ got[u] = <<>> /\ turn = {u} BY <2>2 DEF Set, Inv, Fits
    <3>2. left' = 1 /\ mem' = [mem EXCEPT ![2] = in[u][1]] /\ pc' = [pc EXCEPT ![u] = "set2"] /\ UNCHANGED <<in, got, turn>> BY <2>2, <3>1 DEF Set
    <3>3. mem' = <<1, in[u][1], 0, 0>> BY <3>1, <3>2
    <3>4. \A w \in Users : Fits(w)' BY <3>1, <3>2, <3>3, <2>o DEF Inv, Fits, States
    <3> QED BY <3>2, <3>4 DEF Inv, States
  <2>3. CASE Set(u, 2)
    <3>1. pc[u] = "set2" /\ mem = <<1, in[u][1], 0, 0>> /\ left = 1 /\ got[u] = <<>> /\ turn = {u} BY <2>3 DEF Set, Inv, Fits
    <3>2. left' = 0 /\ pc' = [pc EXCEPT ![u] = "read"] /\ UNCHANGED <<in, got, turn>> BY <2>3, <3>1 DEF Set
    <3>5. mem' = [[mem EXCEPT ![3] = in[u][2]] EXCEPT ![4] = ([mem EXCEPT ![3] = in[u][2]][2] + [mem EXCEPT ![3] = in[u][2]][3]) % Q] BY <2>3, <3>1 DEF Set
    <3>6. [mem EXCEPT ![3] = in[u][2]] = <<1, in[u][1], in[u][2], 0>> BY <3>1
    <3>3. mem' = Witness(in[u]) BY <3>5, <3>6 DEF Witness
    <3>4. \A w \in Users : Fits(w)' BY <3>1, <3>2, <3>3, <2>o DEF Inv, Fits, States
    <3> QED BY <3>2, <3>4 DEF Inv, States
  <2>4. CASE Abort(u) BY <2>4, <2>o DEF Abort, Inv, Fits, States
  <2>5. CASE Read(u)
    <3>1. pc[u] = "read" /\ mem = Witness(in[u]) /\ left = 0 /\ got[u] \in Seq(Int) /\ Len(got[u]) < 4 /\ turn = {u} /\ \A k \in 1 .. Len(got[u]) : got[u][k] = mem[k] BY <2>5 DEF Read, Inv, Fits
    <3>2. got' = [got EXCEPT ![u] = Append(got[u], mem[Len(got[u]) + 1])] /\ UNCHANGED <<in, mem, left, turn>> BY <2>5 DEF Read
    <3>m. mem \in Seq(Int) /\ Len(mem) = 4 /\ mem[Len(got[u]) + 1] \in Int BY <3>1, WitnessIs DEF Inv
    <3> DEFINE g == Append(got[u], mem[Len(got[u]) + 1])
    <3>3. g \in Seq(Int) /\ Len(g) = Len(got[u]) + 1 /\ \A k \in 1 .. Len(g) : g[k] = mem[k] BY <3>1, <3>m
    <3>4. got'[u] = g /\ got' \in [Users -> Seq(Int)] BY <3>2, <3>3 DEF Inv
    <3>5. CASE Len(got[u]) = 3
      <4>1. g = mem BY <3>3, <3>5, <3>m
      <4>2. pc' = [pc EXCEPT ![u] = "done"] BY <2>5, <3>5 DEF Read
      <4>3. \A w \in Users : Fits(w)' BY <4>1, <4>2, <3>1, <3>2, <3>4, <2>o DEF Inv, Fits, States
      <4> QED BY <4>2, <4>3, <3>4, <3>2 DEF Inv, States
    <3>6. CASE Len(got[u]) # 3
      <4>2. pc' = [pc EXCEPT ![u] = "read"] BY <2>5, <3>6 DEF Read
      <4>1. Len(g) < 4 BY <3>3, <3>1, <3>6
      <4>3. \A w \in Users : Fits(w)' BY <4>1, <4>2, <3>1, <3>2, <3>3, <3>4, <2>o DEF Inv, Fits, States
      <4> QED BY <4>2, <4>3, <3>4, <3>2 DEF Inv, States
    <3> QED BY <3>5, <3>6
  <2>6. CASE End(u) BY <2>6, <2>o DEF End, Inv, Fits, States
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6
<1> QED BY <1>0, <1>1
THEOREM Safe == Spec => []NoMixing
<1>1. Inv => NoMixing BY DEF Inv, Fits, NoMixing
<1> QED BY InitInv, NextInv, <1>1, PTL DEF Spec
=======================================================================
