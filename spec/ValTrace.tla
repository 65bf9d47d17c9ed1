---------------------------- MODULE ValTrace ----------------------------
(* Recorded field elements of supplied values against ModP.
     vals [tool, must, vals, out, res, q]   the values a document gives to the wires 1, 2, ... in this order; the field elements
                                            that `tool` (cli, js: the recorded statement; wc: the witness) used; q: certificates.
                                            must "ok": the document is plain and has to be accepted; "err": it contains a number
                                            that is no integer; "any": the tool may refuse it *)
EXTENDS ModP, TLC, Json, IOUtils
VARIABLES l, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Vals == /\ ev.ev = "vals" /\ ev.out \in {"ok", "err"}
        /\ ev.must # "any" => ev.out = ev.must
        /\ ev.out = "ok" => /\ Len(ev.res) = Len(ev.vals)
                            /\ \A i \in 1 .. Len(ev.vals) : IsResidue(ev.vals[i], ev.q[i], ev.res[i])
        /\ n' = IF ev.out = "ok" THEN [n EXCEPT ![1] = @ + Len(ev.vals)] ELSE [n EXCEPT ![2] = @ + 1]
Init == l = 1 /\ n = <<0, 0>>
Next == l <= Len(Trace) /\ Vals /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
