--------------------------- MODULE FreshProof ---------------------------
(* Machine-checked (tlapm), for any processes, draws and publications: no random value is used in two places. *)
EXTENDS Fresh, TLAPS
ASSUME Bounds == MaxDraw \in Nat /\ MaxPub \in Nat
Spec == Init /\ [][Next]_vars
Typed == /\ next \in Nat \ {0} /\ gen \in [Procs -> [seed : Nat, pos : Nat]]
         /\ \A p \in Procs : gen[p].seed < next
         /\ \A p, q \in Procs : gen[p].seed = gen[q].seed /\ gen[p].seed # 0 => p = q
Old(t, x, g) == /\ t = <<t[1], t[2]>> /\ t[1] \in Nat /\ t[2] \in Nat
                /\ t[1] = 0 => t[2] < x
                /\ t[1] # 0 => t[1] < x /\ \A p \in Procs : g[p].seed = t[1] => t[2] < g[p].pos
Distinct(s) == \A i, j \in 1 .. Len(s) : s[i] = s[j] => i = j
\* the same as Once, without cardinalities
Unused == \A x \in pub : /\ Distinct(x.toks)
                         /\ \A y \in pub : x # y => \A i \in 1 .. Len(x.toks), j \in 1 .. Len(y.toks) : x.toks[i] # y.toks[j]
Drawn == \A x \in pub : \A i \in 1 .. Len(x.toks) : Old(x.toks[i], next, gen)
Inv == Typed /\ Drawn /\ Unused
LEMMA InitInv == Init => Inv BY DEF Init, Inv, Typed, Drawn, Unused
LEMMA OldStays == ASSUME Typed, NEW t, Old(t, next, gen), next' \in Nat, next <= next',
                         gen' \in [Procs -> [seed : Nat, pos : Nat]],
                         \A p \in Procs : gen'[p].seed = gen[p].seed /\ gen[p].pos <= gen'[p].pos \/ gen'[p].seed = next
                  PROVE Old(t, next', gen')
 BY DEF Typed, Old
LEMMA ToksNew == ASSUME Typed, NEW p \in Procs, NEW n \in Nat
                 PROVE /\ Len(Toks(p, n)) = n /\ Distinct(Toks(p, n))
                       /\ \A i \in 1 .. n : ~Old(Toks(p, n)[i], next, gen)
                       /\ Use(p, n) => \A i \in 1 .. n : Old(Toks(p, n)[i], next', gen')
<1> DEFINE T == Toks(p, n)
<1>1. Len(T) = n BY DEF Toks
<1>2. CASE gen[p].seed = 0
  <2>1. \A i \in 1 .. n : T[i] = <<0, next + i - 1>> BY <1>2 DEF Toks
  <2>2. Distinct(T) BY <1>1, <2>1 DEF Distinct, Typed
  <2>3. \A i \in 1 .. n : ~Old(T[i], next, gen) BY <2>1 DEF Old, Typed
  <2>4. Use(p, n) => \A i \in 1 .. n : Old(T[i], next', gen')
    <3> SUFFICES ASSUME Use(p, n), NEW i \in 1 .. n PROVE Old(<<0, next + i - 1>>, next', gen') BY <2>1
    <3> QED BY <1>2 DEF Use, Old, Typed
  <2> QED BY <1>1, <2>2, <2>3, <2>4
<1>3. CASE gen[p].seed # 0
  <2>1. \A i \in 1 .. n : T[i] = <<gen[p].seed, gen[p].pos + i - 1>> BY <1>3 DEF Toks
  <2>2. Distinct(T) BY <1>1, <2>1 DEF Distinct, Typed
  <2>3. \A i \in 1 .. n : ~Old(T[i], next, gen) BY <1>3, <2>1 DEF Old, Typed
  <2>4. Use(p, n) => \A i \in 1 .. n : Old(T[i], next', gen')
    <3> SUFFICES ASSUME Use(p, n), NEW i \in 1 .. n PROVE Old(<<gen[p].seed, gen[p].pos + i - 1>>, next', gen') BY <2>1
    <3>1. gen' = [gen EXCEPT ![p].pos = @ + n] /\ next' = next BY <1>3 DEF Use
    <3>2. \A q \in Procs : gen'[q].seed = gen[p].seed => q = p BY <3>1, <1>3 DEF Typed
    <3>3. gen'[p].pos = gen[p].pos + n BY <3>1 DEF Typed
    <3> QED BY <1>3, <3>1, <3>2, <3>3 DEF Old, Typed
  <2> QED BY <1>1, <2>2, <2>3, <2>4
<1> QED BY <1>2, <1>3
LEMMA Publish == ASSUME Inv, NEW p \in Procs, NEW n \in Nat, NEW k, Use(p, n), pub' = pub \cup {[proc |-> p, kind |-> k, toks |-> Toks(p, n)]}
                 PROVE Inv'
<1> DEFINE N == [proc |-> p, kind |-> k, toks |-> Toks(p, n)]
<1>1. Typed' BY DEF Inv, Typed, Use
<1>g. /\ next' \in Nat /\ next <= next' /\ gen' \in [Procs -> [seed : Nat, pos : Nat]]
      /\ \A q \in Procs : gen'[q].seed = gen[q].seed /\ gen[q].pos <= gen'[q].pos BY DEF Inv, Typed, Use
<1>2. \A x \in pub : \A i \in 1 .. Len(x.toks) : Old(x.toks[i], next', gen') BY <1>g, OldStays DEF Inv, Drawn
<1>3. N.toks = Toks(p, n) /\ pub' = pub \cup {N} OBVIOUS
<1>4. /\ Len(N.toks) = n /\ Distinct(N.toks) /\ \A i \in 1 .. n : ~Old(N.toks[i], next, gen) /\ Old(N.toks[i], next', gen') BY ToksNew, <1>3 DEF Inv
<1>5. Drawn' BY <1>2, <1>3, <1>4 DEF Drawn
<1>6. Unused'
  <2> SUFFICES ASSUME NEW x \in pub' PROVE Distinct(x.toks) /\ \A y \in pub' : x # y => \A i \in 1 .. Len(x.toks), j \in 1 .. Len(y.toks) : x.toks[i] # y.toks[j] BY DEF Unused, Distinct
  <2>1. Distinct(x.toks) BY <1>3, <1>4 DEF Inv, Unused
  <2> SUFFICES ASSUME NEW y \in pub', x # y, NEW i \in 1 .. Len(x.toks), NEW j \in 1 .. Len(y.toks) PROVE x.toks[i] # y.toks[j] BY <2>1
  <2>2. CASE x \in pub /\ y \in pub BY <2>2 DEF Inv, Unused
  <2>3. CASE x = N /\ y \in pub BY <2>3, <1>4 DEF Inv, Drawn
  <2>4. CASE x \in pub /\ y = N BY <2>4, <1>4 DEF Inv, Drawn
  <2> QED BY <2>2, <2>3, <2>4, <1>3
<1> QED BY <1>1, <1>5, <1>6 DEF Inv
LEMMA NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>0. CASE UNCHANGED vars BY <1>0 DEF vars, Inv, Typed, Drawn, Unused, Old, Distinct
<1>1. CASE Seed
  <2>1. PICK p \in Procs : gen' = [gen EXCEPT ![p] = [seed |-> next, pos |-> 0]] /\ next' = next + 1 /\ UNCHANGED pub BY <1>1 DEF Seed
  <2>2. Typed' BY <2>1 DEF Inv, Typed
  <2>3. Drawn' BY <2>1, OldStays DEF Inv, Typed, Drawn
  <2> QED BY <2>1, <2>2, <2>3 DEF Inv, Unused, Distinct
<1>2. CASE Encap BY <1>2, Publish DEF Encap
<1>3. CASE Encrypt BY <1>3, Publish DEF Encrypt
<1> QED BY <1>0, <1>1, <1>2, <1>3 DEF Next
THEOREM Safe == Spec => []Unused
<1>1. Inv => Unused BY DEF Inv
<1> QED BY InitInv, NextInv, <1>1, PTL DEF Spec
=======================================================================
