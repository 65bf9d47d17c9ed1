----------------------------- MODULE System -----------------------------
(* The whole system as its users see it: two tools (the command-line tool and the JavaScript package),
   which must behave alike, circuits with named signals, input documents, witness ciphertexts, combined
   ciphertexts, and a network that may damage, splice or replay what is published.

   Keys and sealed messages are abstract: a key is the number of the encapsulation that made it; a sealed
   message [key, msg] opens under exactly that key. *)
EXTENDS ZCircuits, Names
CONSTANTS Systems,   \* [circ, sym, docs, asgs]
          Msgs, MaxPub, MaxReq
Tools == {"cli", "js"}

VARIABLES pub,    \* published: [kind, sys, stmt, key, doc (0 = not embedded), seal, good]
          held,   \* held[k]: what the encapsulator of key k wanted: [sys, doc, msg]
          ans     \* answers to requests
vars == <<pub, held, ans>>

Sup(s, d) == Supplied(s.sym, s.docs[d])
CanEncap(s, d) == ~Missing(Sup(s, d), NPub(s.circ))
Stmt(s, d) == Statement(Sup(s, d), NPub(s.circ))
Matches(stmt, a) == Len(a) > Len(stmt) /\ \A i \in 1 .. Len(stmt) : a[i + 1] = stmt[i]
Proves(circ, stmt, a) == SatZ(circ, a) /\ Matches(stmt, a)
NoSeal == [key |-> 0, msg |-> 0]

Init == pub = {} /\ held = <<>> /\ ans = {}
\* an encapsulation without every public value publishes nothing
Publish == /\ Len(held) < MaxPub
           /\ \E s \in Systems : \E d \in 1 .. Len(s.docs), m \in Msgs \cup {0}, embed \in BOOLEAN :
                LET k == Len(held) + 1 IN
                /\ CanEncap(s, d)
                /\ pub' = pub \cup {[kind |-> IF m = 0 THEN "wct" ELSE "combined", sys |-> s, stmt |-> Stmt(s, d), key |-> k,
                                     doc |-> IF embed /\ m # 0 THEN d ELSE 0, seal |-> IF m = 0 THEN NoSeal ELSE [key |-> k, msg |-> m]]}
                /\ held' = Append(held, [sys |-> s, doc |-> d, msg |-> m])
           /\ UNCHANGED ans
\* damage and splicing: the witness part of one with the sealed part of another, or an unreadable part
Damage == /\ Cardinality(pub) < 2 * MaxPub
          /\ \E x \in pub, y \in pub : /\ x.kind = "combined" /\ y.kind = "combined"
                                       /\ pub' = pub \cup {[x EXCEPT !.seal = y.seal], [x EXCEPT !.doc = y.doc]}
          /\ UNCHANGED <<held, ans>>
\* the key an assignment recovers from a published witness ciphertext; 0 = an error
KeyFrom(x, circ, a) == IF Proves(circ, x.stmt, a) /\ circ = x.sys.circ THEN x.key ELSE 0
Open(seal, k) == IF k # 0 /\ seal.key = k THEN seal.msg ELSE 0
Request == /\ Cardinality(ans) < MaxReq
           /\ \E x \in pub, s \in Systems, t \in Tools : \E i \in 1 .. Len(s.asgs) :
                LET k == KeyFrom(x, s.circ, s.asgs[i])
                    r == IF x.kind = "wct" THEN [op |-> "decap", x |-> x, sys |-> s, asg |-> s.asgs[i], out |-> k, tool |-> t]
                         ELSE [op |-> "decrypt", x |-> x, sys |-> s, asg |-> s.asgs[i], out |-> Open(x.seal, k), tool |-> t]
                IN ans' = ans \cup {r}
           /\ UNCHANGED <<pub, held>>
Next == Publish \/ Damage \/ Request
Spec == Init /\ [][Next]_vars

\* C01, C06: whoever proves what the encapsulator supplied gets the key / the message
Agreement == \A r \in ans : LET h == held[r.x.key] IN
               r.sys = h.sys /\ Proves(h.sys.circ, Stmt(h.sys, h.doc), r.asg) =>
                 /\ r.op = "decap" => r.out = r.x.key
                 /\ r.op = "decrypt" /\ r.x.seal.key = r.x.key => r.out = h.msg
\* C02
Soundness == \A r \in ans : r.out # 0 => Proves(r.sys.circ, r.x.stmt, r.asg)
\* C03
Recorded == \A x \in pub : LET h == held[x.key] IN /\ Len(x.stmt) = NPub(h.sys.circ)
                                                    /\ \A w \in 1 .. Len(x.stmt) : \E i \in 1 .. Len(Sup(h.sys, h.doc)) : Sup(h.sys, h.doc)[i] = [wire |-> w, v |-> x.stmt[w]]
\* C07: nothing but the message of the encapsulator
NoOther == \A r \in ans : r.op = "decrypt" => r.out \in {0, held[r.x.key].msg}
\* C20
Embedded == \A x \in pub : x.doc # 0 => \E k \in 1 .. Len(held) : held[k].doc = x.doc
=======================================================================
