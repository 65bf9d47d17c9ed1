--------------------------- MODULE FilesTrace ---------------------------
(* Recorded results of reading circuit and witness files, well-formed and damaged, against the formats.
     base   [bytes]                                     the file the next reads damage
     r1cs   [tool, cut, at, vals, app, out, val]        a circuit file was read
     wtns   [tool, cut, at, vals, app, out, val]        a witness file was read
     accept [tool, circ, asg, acc]                      does the circuit read from a file accept the assignment
     shape  [circ, val]
   out: ok, err; crash and hang are never allowed. *)
EXTENDS ZCircuits, TLC, Json, IOUtils
F == INSTANCE R1csFile
W == INSTANCE WtnsFile
CONSTANT Checks
VARIABLES l, bi, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
base == Trace[bi].bytes
On(c) == c \in Checks
Settled(e) == e.out \in {"ok", "err"}
R1cs == /\ ev.ev = "r1cs" /\ Settled(ev)
        /\ LET b == F!Damaged(base, ev)  p == F!ParseR1cs(b) IN
             /\ On("malformed") /\ F!MustErr(b, p, ev.tool) => ev.out = "err"
             /\ On("faithful") /\ F!MustOk(b, p) => ev.out = "ok"
             /\ On("faithful") /\ ev.out = "ok" /\ F!MustOk(b, p) /\ ev.tool = "cli" => /\ ev.val.h = p.h /\ ev.val.cons = p.cons
                                                                                       /\ ev.val.labels = F!Labels(b, p)
             \* whatever else is accepted is not read as another circuit
             /\ On("malformed") /\ ev.out = "ok" /\ ev.tool = "cli" /\ p.st = "ok" => ev.val.cons = p.cons
             /\ n' = IF F!MustOk(b, p) THEN [n EXCEPT ![1] = @ + 1] ELSE IF F!MustErr(b, p, ev.tool) THEN [n EXCEPT ![2] = @ + 1] ELSE [n EXCEPT ![3] = @ + 1]
        /\ UNCHANGED bi
Wtns == /\ ev.ev = "wtns" /\ Settled(ev)
        /\ LET b == W!Damaged(base, ev)  p == W!ParseWtns(b) IN
             /\ p.st = "bad" /\ ev.tool = "cli" => ev.out = "err"
             /\ p.st = "ok" /\ p.strict =>
                  IF ev.tool = "cli" THEN /\ ev.out = "ok" /\ ev.val.n = p.n /\ ev.val.prime = W!Prime(b)
                                          /\ ev.val.raw = [i \in 1 .. p.n |-> W!Val(b, p, i)]
                                          /\ ev.val.field = IF p.canon THEN [i \in 1 .. p.n |-> W!Pad32(W!Val(b, p, i))] ELSE <<>>
                  ELSE p.canon /\ p.n > ev.npub => ev.out = "ok" /\ ev.val = [i \in 1 .. ev.npub |-> W!Pad32(W!Val(b, p, i + 1))]
             /\ n' = IF p.st = "ok" /\ p.strict THEN [n EXCEPT ![1] = @ + 1] ELSE IF p.st = "bad" THEN [n EXCEPT ![2] = @ + 1] ELSE [n EXCEPT ![3] = @ + 1]
        /\ UNCHANGED bi
Accept == /\ ev.ev = "accept" /\ ev.acc = (IF SatZ(ev.circ, ev.asg) THEN "yes" ELSE "no")
          /\ UNCHANGED bi /\ n' = IF ev.acc = "yes" THEN [n EXCEPT ![4] = @ + 1] ELSE [n EXCEPT ![5] = @ + 1]
Shape == /\ ev.ev = "shape" /\ ev.val = << NPub(ev.circ), Len(ev.circ.cons), NPub(ev.circ) + 1, ev.circ.nw - 1 - NPub(ev.circ), Len(ev.circ.cons) >>
         /\ UNCHANGED <<bi, n>>
Base == ev.ev = "base" /\ bi' = l /\ UNCHANGED n
Init == l = 1 /\ bi = 0 /\ n = <<0, 0, 0, 0, 0>>
Next == l <= Len(Trace) /\ (Base \/ R1cs \/ Wtns \/ Accept \/ Shape) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
