----------------------------- MODULE Wkem -----------------------------
(* The witness key encapsulation mechanism.  Group elements are represented by their discrete
   logarithms to the fixed generators, so a pairing is a product of exponents and the value hashed into
   the key is one field element.

   The state machine: encapsulators publish ciphertexts and keep keys; anybody may store a ciphertext and
   read it back, verify it against a list of public values, or ask for decapsulation with any assignment.

   Encapsulation happens with the private wires unassigned; the mechanism then publishes query elements
   that carry no information and derives the key from alpha * beta (see DESIGN.md: the published scheme
   is a simplification of the QAP construction; its lack of secrecy is the known finding of C05). *)
EXTENDS Circuits, FiniteSets, TLC
CONSTANTS Pool,      \* circuits to choose from
          Scalars,   \* values the random source may deliver
          MaxEncap, MaxDecap

VARIABLES cts,    \* published ciphertexts: [circ, pub, alpha, beta, delta, u, v, phi]
          key,    \* key[i]: the key exponent the encapsulator of cts[i] holds
          ans     \* answers to decapsulation requests: [ct, circ, asg, key], key = -1 for an error
vars == <<cts, key, ans>>

Zeros(n) == [i \in 1 .. n |-> 0]
\* Key exponent of an encapsulation: alpha*beta plus the public part of the (zero) phi queries.
EncapKey(c) == SumSeq(<<Mul(c.alpha, c.beta)>> \o [i \in 1 .. Len(c.pub) + 1 |->
                 IF i <= Len(c.phi) THEN Mul(IF i = 1 THEN 1 ELSE c.pub[i - 1], c.phi[i]) ELSE 0])
Dot(q, a) == SumSeq([i \in 1 .. (IF Len(q) < Len(a) THEN Len(q) ELSE Len(a)) |-> Mul(q[i], a[i])])
\* s = A*B - C*delta
DecapKey(c, a) == Sub(Mul(Add(c.alpha, Dot(c.u, a)), Add(c.beta, Dot(c.v, a))), Mul(Dot(c.phi, a), c.delta))
Agrees(c, circ, a) == Len(a) >= 1 + Len(c.pub) /\ \A i \in 1 .. Len(c.pub) : a[i + 1] = c.pub[i]
Answer(c, circ, a) == IF Sat(circ, a) /\ Agrees(c, circ, a) THEN DecapKey(c, a) ELSE -1

Init == cts = <<>> /\ key = <<>> /\ ans = {}
Encap == /\ Len(cts) < MaxEncap
         /\ \E circ \in Pool, al \in Scalars, be \in Scalars, de \in Scalars \ {0} :
              \E pub \in [1 .. circ.npub -> F] :
                LET m == circ.npub + 2
                    c == [circ |-> circ, pub |-> pub, alpha |-> al, beta |-> be, delta |-> de,
                          u |-> Zeros(m), v |-> Zeros(m), phi |-> Zeros(m)]
                IN /\ Private(circ) > 0
                   /\ cts' = Append(cts, c) /\ key' = Append(key, EncapKey(c))
         /\ UNCHANGED ans
\* The adversary or the recipient asks with any circuit of the pool and any assignment.
Decap == /\ Cardinality(ans) < MaxDecap
         /\ \E i \in 1 .. Len(cts), circ \in Pool :
              \E n \in 0 .. circ.nw - 1 : \E t \in [1 .. n -> F] :
                LET a == <<1>> \o t
                IN ans' = ans \cup {[ct |-> i, circ |-> circ, asg |-> a, key |-> Answer(cts[i], circ, a)]}
         /\ UNCHANGED <<cts, key>>
Next == Encap \/ Decap
Spec == Init /\ [][Next]_vars

\* C01
Agreement == \A r \in ans : r.circ = cts[r.ct].circ /\ Sat(r.circ, r.asg) /\ Public(r.circ, r.asg) = cts[r.ct].pub
                            => r.key = key[r.ct]
\* C02
Soundness == \A r \in ans : r.key # -1 => /\ Sat(r.circ, r.asg)
                                          /\ \A i \in 1 .. Len(cts[r.ct].pub) : r.asg[i + 1] = cts[r.ct].pub[i]
\* C21, second half
NoPartialCircuit == \A i \in 1 .. Len(cts) : \A q \in {cts[i].u, cts[i].v, cts[i].phi} : \A j \in 1 .. Len(q) : q[j] = 0
Written == \A i \in 1 .. Len(cts) : Len(cts[i].pub) = cts[i].circ.npub
=======================================================================
