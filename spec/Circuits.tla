--------------------------- MODULE Circuits ---------------------------
(* Constraint systems: a circuit is [npub, nw, cons]; wire 0 carries 1, wires 1..npub are public, the
   others private; a constraint is <<A, B, C>>, each a sequence of <<wire, coefficient>>.
   An assignment is a sequence with the value of wire w at position w+1. *)
EXTENDS Field
Eval(row, a) == FoldLeft(LAMBDA acc, f : (acc + f[2] * a[f[1] + 1]) % P, 0, row)
SatCons(c, a) == Mul(Eval(c[1], a), Eval(c[2], a)) = Eval(c[3], a)
\* An assignment proves the circuit when it names every wire and satisfies every constraint.
Sat(circ, a) == /\ Len(a) = circ.nw /\ \A i \in 1 .. Len(a) : a[i] \in F
                /\ \A j \in 1 .. Len(circ.cons) : SatCons(circ.cons[j], a)
Public(circ, a) == [i \in 1 .. circ.npub |-> a[i + 1]]
Private(circ) == circ.nw - 1 - circ.npub

------------------------------------------------------------------------
(* A reproducible source of "random" choices: Rnd(s, i, n) is a value in 0..n-1. *)
M == 46337
Rnd(s, i, n) == LET a == (s * 31 + i * 1009 + 7) % M
                    b == (a * a + s) % M
                    c == (b * 271 + i * 17) % M
                IN ((c * c + b) % M) % n
=======================================================================
