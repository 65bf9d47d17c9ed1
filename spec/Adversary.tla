--------------------------- MODULE Adversary ----------------------------
(* An attacker who holds everything that is published and no witness.
   1. Derivations.  In the generic group an attacker adds published elements, multiplies them with known numbers and pairs them.
      K encapsulations of one circuit are compared: the exponent of the key's value s, those of the published elements of both
      groups (the generators among them) and the published numbers.  A formula derives the key when it gives s in all runs: one
      pairing product, scaled by a constant or by a published number, or the sum or difference of two products.
   2. Publication.  A secret byte string is published when a long enough part of it occurs in what is published.
   3. Independence.  What is published is a function of circuit, statement and randomness: two runs that differ in
      the secret only publish the same. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT P
Runs(s) == 1 .. Len(s)
Zeros(K) == [k \in 1 .. K |-> 0]
\* g1, g2: sequences of [n, e] with e the exponents over the runs; the vector of one pairing product
Prod(a, b) == [k \in 1 .. Len(a.e) |-> (a.e[k] * b.e[k]) % P]
Scale(c, v) == [k \in 1 .. Len(v) |-> (c * v[k]) % P]
By(u, v) == [k \in 1 .. Len(v) |-> (u[k] * v[k]) % P]
Plus(u, v) == [k \in 1 .. Len(v) |-> (u[k] + v[k]) % P]
Minus(u, v) == [k \in 1 .. Len(v) |-> (u[k] - v[k]) % P]
Range(f) == { f[x] : x \in DOMAIN f }
\* s is a constant multiple of v
Multiple(s, v) == \E c \in 1 .. P - 1 : s[1] = (c * v[1]) % P /\ s[2] = (c * v[2]) % P /\ s = Scale(c, v)
Terms(g1, g2) == { <<i, j>> : i \in 1 .. Len(g1), j \in 1 .. Len(g2) }
Single(g1, g2, num, s) ==
  { <<g1[t[1]].n, g2[t[2]].n, w>> : t \in { x \in Terms(g1, g2) : Multiple(s, Prod(g1[x[1]], g2[x[2]])) }, w \in {""} }
  \cup UNION { { <<g1[t[1]].n, g2[t[2]].n, num[i].n>> : t \in { x \in Terms(g1, g2) : Multiple(s, By(num[i].e, Prod(g1[x[1]], g2[x[2]]))) } } : i \in 1 .. Len(num) }
\* the products that derive nothing on their own
Others(g1, g2, s) == { v \in { Prod(g1[t[1]], g2[t[2]]) : t \in Terms(g1, g2) } : ~Multiple(s, v) /\ v # Zeros(Len(s)) }
Double(g1, g2, s) == LET T == Others(g1, g2, s) IN { v \in T : Minus(s, v) \in T \/ Plus(s, v) \in T \/ Minus(v, s) \in T }
\* ---- numbers: no secret scalar is published, as a number or as an element with a known exponent
Constant(v) == \A k \in 1 .. Len(v) : v[k] = v[1]
Opened(num, secret) == { <<num[i].n, secret[j].n>> : <<i, j>> \in { <<i, j>> \in (1 .. Len(num)) \X (1 .. Len(secret)) : Multiple(secret[j].e, num[i].e) } }
                       \cup { <<"constant", secret[j].n>> : j \in { j \in 1 .. Len(secret) : Constant(secret[j].e) } }
\* ---- bytes
Windows(b, n) == { SubSeq(b, i, i + n - 1) : i \in 1 .. Len(b) - n + 1 }
Parts(b, n) == IF Len(b) <= n THEN {b} ELSE Windows(b, n)
Occurs(secret, pub, n) == LET m == IF Len(secret) < n THEN Len(secret) ELSE n IN Parts(secret, m) \cap Windows(pub, m) # {}
Begins(pub, s, i) == i + Len(s) - 1 <= Len(pub) /\ pub[i] = s[1] /\ SubSeq(pub, i, i + Len(s) - 1) = s
Count(pub, s) == Cardinality({ i \in 1 .. Len(pub) : Begins(pub, s, i) })
=======================================================================
