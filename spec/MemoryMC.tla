--------------------------- MODULE MemoryMC ----------------------------
(* Why results must be objects of their own: callers and a package over cells of memory.  A result of the package is a
   new cell (Private) or one it has kept from an earlier call.  A caller's view of an object is what is in its cell. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, Private
VARIABLES cell, val, last
vars == <<cell, val, last>>
View(h) == val[cell[h]]
Init == cell = <<1>> /\ val = <<0>> /\ last = 0
Write == \E h \in 1 .. Len(cell), v \in 0 .. 2 : val' = [val EXCEPT ![cell[h]] = v] /\ last' = h /\ UNCHANGED cell
Call == /\ Len(cell) < Max
        /\ \E h \in 1 .. Len(cell) :
             LET v == (View(h) + 1) % 3 IN
             IF Private THEN cell' = Append(cell, Len(val) + 1) /\ val' = Append(val, v)
             ELSE \/ cell' = Append(cell, Len(val) + 1) /\ val' = Append(val, v)
                  \/ \E c \in 1 .. Len(val) : cell' = Append(cell, c) /\ val' = [val EXCEPT ![c] = v]
        /\ last' = Len(cell) + 1
Next == Write \/ Call
Spec == Init /\ [][Next]_vars
\* a step changes the one object it is about, and no other
Alone == [][\A h \in 1 .. Len(cell) : h # last' => val'[cell'[h]] = val[cell[h]]]_vars
=======================================================================
