------------------------------ MODULE Qap ------------------------------
(* The quadratic arithmetic program of a circuit and its evaluation at a point. *)
EXTENDS Circuits, FiniteSets
RECURSIVE Pow2At(_, _)
Pow2At(n, k) == IF k >= n THEN k ELSE Pow2At(n, 2 * k)
\* smallest power of two that holds the constraints and the public wires (with the constant)
Domain(circ) == Pow2At(Len(circ.cons) + circ.npub + 1, 1)
\* a generator of the multiplicative group, and the root of unity of order n it gives
Order(g) == CHOOSE k \in 1 .. P - 1 : Pow(g, k) = 1 /\ \A j \in 1 .. k - 1 : Pow(g, j) # 1
Gen == CHOOSE g \in 2 .. P - 1 : (\A d \in {q \in 2 .. P - 1 : (P - 1) % q = 0} : Pow(g, (P - 1) \div d) # 1) /\ (\A h \in 2 .. g - 1 : \E d \in {q \in 2 .. P - 1 : (P - 1) % q = 0} : Pow(h, (P - 1) \div d) = 1)
Root(n) == Pow(Gen, (P - 1) \div n)
\* Lagrange basis values at x over the subgroup generated by w
Lagrange(n, w, x) ==
  LET pts == [j \in 1 .. n |-> Pow(w, j - 1)]
      z == Sub(Pow(x, n), 1)
  IN [j \in 1 .. n |-> IF z = 0 THEN IF pts[j] = x THEN 1 ELSE 0      \* x is one of the points
                       ELSE Mul(Mul(z, pts[j]), Inv(Mul(n % P, Sub(x, pts[j]))))]
Coef(row, w) == SumSeq([i \in 1 .. Len(row) |-> IF row[i][1] = w THEN row[i][2] % P ELSE 0])
\* k in 1..3 selects A, B, C
At(circ, lag, k, w) == SumSeq([j \in 1 .. Len(circ.cons) |-> Mul(lag[j], Coef(circ.cons[j][k], w))])
\* the queries published for the draws r and x
QapAt(circ, parts, r, x) ==
  LET n == Domain(circ)
      dinv == Inv(parts.delta)
      lag == Lagrange(n, Root(n), x)
      U == [w \in 1 .. circ.nw |-> At(circ, lag, 1, w - 1)]
      V == [w \in 1 .. circ.nw |-> At(circ, lag, 2, w - 1)]
      W == [w \in 1 .. circ.nw |-> At(circ, lag, 3, w - 1)]
  IN /\ Len(parts.u) = circ.nw /\ Len(parts.v) = circ.nw /\ Len(parts.phi) = circ.nw
     /\ \A w \in 1 .. circ.nw :
          /\ parts.u[w] = Mul(r, U[w])
          /\ parts.v[w] = Mul(r, V[w])
          /\ parts.phi[w] = Mul(dinv, SumSeq(<<Mul(r, Mul(parts.beta, U[w])), Mul(r, Mul(parts.alpha, V[w])), Mul(Mul(r, r), W[w])>>))
\* r and x are two draws of the random source
QapConsistent(circ, parts, sampled) == \E x \in Range(sampled) : \E r \in Range(sampled) : QapAt(circ, parts, r, x)
=======================================================================
