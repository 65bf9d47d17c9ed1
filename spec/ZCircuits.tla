--------------------------- MODULE ZCircuits ---------------------------
(* Constraint systems with small integer coefficients and values: as long as everything stays far below
   the size of the scalar field, a constraint holds in the field exactly when it holds over the integers.
   A circuit is [nout, nin, nprv, nw, cons]; wires 0 | outputs | public inputs | private inputs | inner. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
EvalZ(row, a) == FoldLeft(LAMBDA acc, f : acc + f[2] * a[f[1] + 1], 0, row)
SatConsZ(c, a) == EvalZ(c[1], a) * EvalZ(c[2], a) = EvalZ(c[3], a)
NPub(circ) == circ.nout + circ.nin
SatZ(circ, a) == Len(a) = circ.nw /\ \A j \in 1 .. Len(circ.cons) : SatConsZ(circ.cons[j], a)
M == 46337
Rnd(s, i, n) == LET a == (s * 31 + i * 1009 + 7) % M
                    b == (a * a + s) % M
                    c == (b * 271 + i * 17) % M
                IN ((c * c + b) % M) % n
=======================================================================
