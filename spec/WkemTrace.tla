-------------------------- MODULE WkemTrace ---------------------------
(* Validates recorded behaviours of zkenc-core (encap, serialization, decap, verify_ciphertext) against
   Wkem.  Every event of the trace must be a step of the specification with the logged result.
   What is compared is selected by the constant Checks (a set of strings). *)
EXTENDS Circuits, Qap, TLC, Json, IOUtils, FiniteSets
CONSTANT Checks
VARIABLES l, cts, key, accept, reject
Trace == ndJsonDeserialize(IOEnv.TRACE)
On(c) == c \in Checks
ev == Trace[l]
\* public wires all assigned / every wire assigned (unassigned = -1)
PubKnown(e) == Len(e.asg) > e.circ.npub /\ \A i \in 2 .. e.circ.npub + 1 : e.asg[i] # -1
Full(e) == Len(e.asg) = e.circ.nw /\ \A i \in 2 .. e.circ.nw : e.asg[i] # -1
Zero(q) == \A i \in 1 .. Len(q) : q[i] = 0

\* the published elements of an encapsulation and the scalars that were drawn
Roles(e) == \E a \in 1 .. Len(e.sampled), b \in 1 .. Len(e.sampled), d \in 1 .. Len(e.sampled) :
              /\ a # b /\ a # d /\ b # d
              /\ e.sampled[a] = e.parts.alpha /\ e.sampled[b] = e.parts.beta /\ e.sampled[d] = e.parts.delta
\* with every wire assigned the two remaining draws r and x show in the queries
RolesFull(e) == \E a \in 1 .. Len(e.sampled), b \in 1 .. Len(e.sampled), d \in 1 .. Len(e.sampled) :
                  /\ a # b /\ a # d /\ b # d
                  /\ e.sampled[a] = e.parts.alpha /\ e.sampled[b] = e.parts.beta /\ e.sampled[d] = e.parts.delta
                  /\ LET R == (1 .. Len(e.sampled)) \ {a, b, d}
                     IN \E x \in R : \E r \in R \ {x} : QapAt(e.circ, e.parts, e.sampled[r], e.sampled[x])
StmtOk(e) == On("stmt") /\ PubKnown(e) => e.parts.pub = [i \in 1 .. e.circ.npub |-> e.asg[i + 1]]
PartialOk(e) == On("qap") /\ ~Full(e) => /\ Zero(e.parts.u) /\ Zero(e.parts.v) /\ Zero(e.parts.phi)
                                         /\ Len(e.parts.u) = Len(e.parts.v) /\ Len(e.parts.v) = Len(e.parts.phi)
FullOk(e) == On("qap") /\ Full(e) => QapConsistent(e.circ, e.parts, e.sampled)
RolesOk(e) == On("roles") => IF Full(e) THEN RolesFull(e) ELSE Roles(e)

Encap == /\ ev.ev = "encap"
         /\ IF ev.ok THEN StmtOk(ev) /\ PartialOk(ev) /\ FullOk(ev) /\ RolesOk(ev)
                          /\ cts' = Append(cts, [circ |-> ev.circ, parts |-> ev.parts, full |-> Full(ev)]) /\ key' = Append(key, ev.key)
                     \* the only excuse for an encapsulation that does not succeed: a zero delta was drawn
                     ELSE (\E i \in 1 .. Len(ev.sampled) : ev.sampled[i] = 0) /\ cts' = Append(cts, [circ |-> ev.circ, parts |-> <<>>, full |-> TRUE]) /\ key' = Append(key, "none")
         /\ UNCHANGED <<accept, reject>>
Proves(c, circ, a) == /\ Sat(circ, a) /\ Len(a) >= 1 + Len(c.parts.pub)
                      /\ \A i \in 1 .. Len(c.parts.pub) : a[i + 1] = c.parts.pub[i]
Decap == /\ ev.ev = "decap"
         /\ LET c == cts[ev.ct] IN
              IF c.parts = <<>> THEN UNCHANGED <<accept, reject>>
              ELSE IF Proves(c, ev.circ, ev.asg)
                     THEN /\ On("agree") /\ ~c.full /\ ev.circ = c.circ => ev.out = "key" /\ ev.key = key[ev.ct]
                          /\ accept' = accept + 1 /\ reject' = reject
                     ELSE /\ On("reject") => ev.out = "err"
                          /\ reject' = reject + 1 /\ accept' = accept
         /\ UNCHANGED <<cts, key>>
Verify == /\ ev.ev = "verify"
          /\ cts[ev.ct].parts = <<>> \/ (On("verify") => ev.ok = (ev.pub = cts[ev.ct].parts.pub))
          /\ UNCHANGED <<cts, key, accept, reject>>
\* Reading a written ciphertext back (both encodings) gives the same elements.
Recode == /\ ev.ev = "recode"
          /\ cts[ev.ct].parts = <<>> \/ ev.parts = cts[ev.ct].parts
          /\ UNCHANGED <<cts, key, accept, reject>>
Begin == ev.ev = "begin" /\ cts' = <<>> /\ key' = <<>> /\ UNCHANGED <<accept, reject>>
Step == l <= Len(Trace) /\ (Begin \/ Encap \/ Decap \/ Verify \/ Recode) /\ l' = l + 1
Init == l = 1 /\ cts = <<>> /\ key = <<>> /\ accept = 0 /\ reject = 0
Next == Step
\* The specification is deterministic: the trace is a behaviour exactly when its last event was consumed.
Note == TLCSet(1, <<accept, reject>>)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
