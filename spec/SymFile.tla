---------------------------- MODULE SymFile -----------------------------
(* Symbol files at the level of characters (numbers: code points).
   label,wire,component,name     one signal per line; -1 (any negative number): the signal has no wire *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Comma == 44
Minus == 45
NL == 10
Blank(c) == c \in {9, 11, 12, 13, 32}          \* a line has no line feeds
RECURSIVE Split(_, _, _, _)
\* the parts of t between the characters d
Split(t, d, i, start) == IF i > Len(t) THEN << SubSeq(t, start, Len(t)) >>
                         ELSE IF t[i] = d THEN << SubSeq(t, start, i - 1) >> \o Split(t, d, i + 1, i + 1) ELSE Split(t, d, i + 1, start)
Parts(t, d) == Split(t, d, 1, 1)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ Blank(s[1]) THEN Trim(Tail(s)) ELSE IF s # <<>> /\ Blank(s[Len(s)]) THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Digit(c) == c \in 48 .. 57
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Digits(s) == s # <<>> /\ \A i \in 1 .. Len(s) : Digit(s[i])
Plus == 43
Mag(s) == IF s # <<>> /\ s[1] \in {Minus, Plus} THEN Tail(s) ELSE s
IsInt(s) == Digits(Mag(s))
Neg(s) == s # <<>> /\ s[1] = Minus /\ \E i \in 2 .. Len(s) : s[i] # 48
\* the lines with four fields
Fields(t) == SelectSeq([i \in 1 .. Len(Parts(t, NL)) |-> Parts(Parts(t, NL)[i], Comma)], LAMBDA f : Len(f) = 4)
\* the domain of the guarantee: every wire field is an integer of 32 bits (here: up to nine digits)
InDomain(t) == LET F == Fields(t) IN \A i \in 1 .. Len(F) : LET w == Trim(F[i][2]) IN IsInt(w) /\ Len(NoZeros(Mag(w))) <= 9
\* the map, as the set of its pairs
Map(t) == LET F == Fields(t)
              E == SelectSeq([i \in 1 .. Len(F) |-> << Trim(F[i][4]), Trim(F[i][2]) >>], LAMBDA e : ~Neg(e[2]))
          IN { << E[i][1], Nat10(Mag(E[i][2])) >> : i \in { k \in 1 .. Len(E) : \A j \in k + 1 .. Len(E) : E[j][1] # E[k][1] } }
\* the circuit's own signals
Main == << 109, 97, 105, 110, 46 >>
Own(m, max) == { << SubSeq(e[1], 6, Len(e[1])), e[2] >> : e \in { x \in m : Len(x[1]) >= 5 /\ SubSeq(x[1], 1, 5) = Main /\ (max < 0 \/ x[2] <= max) } }
=======================================================================
