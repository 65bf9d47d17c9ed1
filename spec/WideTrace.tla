--------------------------- MODULE WideTrace ---------------------------
(* Recorded behaviours over the real scalar field against Wide; what is compared is selected by Checks.
     circ   [p, cons, npub, nw]                      begins a history
     encap  [tool, stmt, out, pub, key]        stmt: the supplied values of the public wires, pub: the recorded ones
     decap  [tool, e, asg, certs, out, key]    of the e-th encapsulation
     qap    [e, sampled, pick, d, h, parts]    of the e-th encapsulation, all of whose wires were given: its draws, the places
                                               of alpha, beta, delta, r and x among them, certificates, published elements
     verify [e, list, out]                     of the e-th encapsulation against a list: yes or no *)
EXTENDS Wide, Json, IOUtils
CONSTANT Checks
VARIABLES l, at, es, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
On(c) == c \in Checks
ev == Trace[l]
Circ == ev.ev = "circ" /\ at' = l /\ es' = <<>> /\ UNCHANGED n
Encap == /\ ev.ev = "encap" /\ ev.out = "ok"
         /\ On("stmt") => Equal(ev.pub, ev.stmt)
         /\ es' = Append(es, l) /\ UNCHANGED <<at, n>>
E(e) == Trace[es[e]]
Decap == /\ ev.ev = "decap"
         /\ IF (Sat(Trace[at].cons, ev.asg, ev.certs, Trace[at].p) /\ States(ev.asg, E(ev.e).stmt)) = TRUE
              THEN /\ On("agree") => ev.out = "ok" /\ ev.key = E(ev.e).key
                   /\ n' = [n EXCEPT ![1] = @ + 1]
              ELSE /\ On("reject") => ev.out = "err"
                   /\ n' = [n EXCEPT ![2] = @ + 1]
         /\ UNCHANGED <<at, es>>
Verify == /\ ev.ev = "verify"
          /\ On("verify") => ev.out = IF Equal(ev.list, E(ev.e).stmt) THEN "yes" ELSE "no"
          /\ n' = [n EXCEPT ![3] = @ + 1] /\ UNCHANGED <<at, es>>
Qap == /\ ev.ev = "qap"
       /\ LET k == ev.pick  s == ev.sampled IN
          /\ Len(k) = 5 /\ \A i, j \in 1 .. 5 : i # j => k[i] # k[j]
          /\ Same(s[k[1]], ev.d.alpha) /\ Same(s[k[2]], ev.d.beta) /\ Same(s[k[3]], ev.d.delta) /\ Same(s[k[4]], ev.d.r) /\ Same(s[k[5]], ev.d.x)
       /\ IsQap(Trace[at].cons, Trace[at].npub, Trace[at].nw, ev.d, ev.h, ev.parts, Trace[at].p) = TRUE
       /\ n' = [n EXCEPT ![3] = @ + 1] /\ UNCHANGED <<at, es>>
Init == l = 1 /\ at = 0 /\ es = <<>> /\ n = <<0, 0, 0>>
Next == l <= Len(Trace) /\ (Circ \/ Encap \/ Decap \/ Verify \/ Qap) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
