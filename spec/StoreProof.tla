--------------------------- MODULE StoreProof ---------------------------
(* Machine-checked (tlapm), for any sets of values, paths and texts and histories of any length: an import gives the exported
   value or an error. *)
EXTENDS Store, TLAPS
ASSUME ValsPos == Vals \subseteq Nat \ {0}
Kinds0 == Kinds \cup {"none"}
Fmts0 == {"json", "bin", "none"}
Cell == [k : Kinds0, f : Fmts0, v : Vals \cup {0}, whole : BOOLEAN]
Next == \E k \in Kinds, f \in Fmts0, p \in Paths, r \in Regs, v \in Vals : f \in Formats(k) /\ (
          \/ Save(k, f, p, v) \/ ToText(k, f, r, v) \/ Load(k, f, p) \/ FromText(k, f, r) \/ Put(p, r) \/ Take(r, p)
          \/ CutFile(p) \/ CutText(r) \/ Remove(p) \/ SaveFails)
Spec == Init /\ [][Next]_svars
Res == [v : Vals \cup {0, -1}, c : Cell, k : Kinds0, f : Fmts0]
Inv == files \in [Paths -> Cell] /\ texts \in [Regs -> Cell] /\ res \in Res /\ Faithful /\ NoPartial
LEMMA FmtKinds == \A k \in Kinds : Formats(k) \subseteq Fmts0 BY DEF Kinds, Formats, Fmts0
LEMMA NothingIsCell == Nothing \in Cell BY DEF Nothing, Cell, Kinds0, Fmts0
LEMMA InitInv == Init => Inv BY NothingIsCell DEF Init, Inv, None, Res, Kinds0, Fmts0, Faithful, NoPartial, Nothing, Cell
LEMMA NextInv == Inv /\ [Next]_svars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_svars PROVE Inv' OBVIOUS
<1>0. CASE UNCHANGED svars BY <1>0 DEF svars, Inv, Faithful, NoPartial
<1>1. CASE Next
  <2> PICK k \in Kinds, f \in Fmts0, p \in Paths, r \in Regs, v \in Vals : f \in Formats(k) /\ (
          \/ Save(k, f, p, v) \/ ToText(k, f, r, v) \/ Load(k, f, p) \/ FromText(k, f, r) \/ Put(p, r) \/ Take(r, p)
          \/ CutFile(p) \/ CutText(r) \/ Remove(p) \/ SaveFails) BY <1>1, Isa DEF Next
  <2>f. f \in Fmts0 /\ k \in Kinds0 BY FmtKinds DEF Kinds0
  <2>n. None \in Res /\ None.v = 0 /\ None.c = Nothing BY NothingIsCell DEF None, Res, Kinds0, Fmts0
  <2>e. Export(k, f, v) \in Cell BY <2>f DEF Export, Cell
  <2>q. res' = None => (Faithful /\ NoPartial)' BY <2>n DEF Faithful, NoPartial
  <2>1. CASE Save(k, f, p, v) BY <2>1, <2>e, <2>n, <2>q DEF Save, Inv
  <2>2. CASE ToText(k, f, r, v) BY <2>2, <2>e, <2>n, <2>q DEF ToText, Inv
  <2>3. CASE Load(k, f, p)
    <3>1. files[p] \in Cell BY DEF Inv
    <3>2. Imported(files[p], k, f) \in Vals \cup {0, -1} BY <3>1 DEF Imported, Cell
    <3>3. res' = [v |-> Imported(files[p], k, f), c |-> files[p], k |-> k, f |-> f] /\ UNCHANGED <<files, texts>> BY <2>3 DEF Load
    <3>4. res' \in Res BY <3>1, <3>2, <3>3, <2>f DEF Res
    <3>5. Faithful' BY <3>1, <3>3, ValsPos DEF Imported, Faithful, Nothing, Cell
    <3>6. NoPartial' BY <3>3 DEF Imported, NoPartial
    <3> QED BY <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>4. CASE FromText(k, f, r)
    <3>1. texts[r] \in Cell BY DEF Inv
    <3>2. Imported(texts[r], k, f) \in Vals \cup {0, -1} BY <3>1 DEF Imported, Cell
    <3>3. res' = [v |-> Imported(texts[r], k, f), c |-> texts[r], k |-> k, f |-> f] /\ UNCHANGED <<files, texts>> BY <2>4 DEF FromText
    <3>4. res' \in Res BY <3>1, <3>2, <3>3, <2>f DEF Res
    <3>5. Faithful' BY <3>1, <3>3, ValsPos DEF Imported, Faithful, Nothing, Cell
    <3>6. NoPartial' BY <3>3 DEF Imported, NoPartial
    <3> QED BY <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>5. CASE Put(p, r) BY <2>5, <2>n, <2>q DEF Put, Inv
  <2>6. CASE Take(r, p) BY <2>6, <2>n, <2>q DEF Take, Inv
  <2>7. CASE CutFile(p)
    <3>1. files' = [files EXCEPT ![p] = [files[p] EXCEPT !.whole = FALSE]] BY <2>7 DEF CutFile
    <3>2. [files[p] EXCEPT !.whole = FALSE] \in Cell BY DEF Inv, Cell
    <3> QED BY <2>7, <3>1, <3>2, <2>n, <2>q DEF CutFile, Inv
  <2>8. CASE CutText(r)
    <3>1. texts' = [texts EXCEPT ![r] = [texts[r] EXCEPT !.whole = FALSE]] BY <2>8 DEF CutText
    <3>2. [texts[r] EXCEPT !.whole = FALSE] \in Cell BY DEF Inv, Cell
    <3> QED BY <2>8, <3>1, <3>2, <2>n, <2>q DEF CutText, Inv
  <2>9. CASE Remove(p) BY <2>9, <2>n, <2>q, NothingIsCell DEF Remove, Inv
  <2>10. CASE SaveFails BY <2>10 DEF SaveFails, svars, Inv, Faithful, NoPartial
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10
<1> QED BY <1>0, <1>1
THEOREM StoreSafe == Spec => [](Faithful /\ NoPartial)
<1>1. Inv => Faithful /\ NoPartial BY DEF Inv
<1> QED BY InitInv, NextInv, <1>1, PTL DEF Spec
=======================================================================
