--------------------------- MODULE CalcTrace ----------------------------
(* Recorded calculators against Calc.
     open [c, n8, prime, size, version, ver]     a calculator over circuit c, and what it says about the circuit
     calc [kind, in, strict, out, res, mut, w, q]   a calculation on it (one after another, or several at a time); w, q: the witness with
                                            certificates, checked here before it is compared; strict: the values are plain
                                            integers, otherwise they may also be refused; mut: the input object was changed
     large [kind, n8, prime, size, first, nin, given, out, head, w]   a calculation of a large instance, given the first
                                            `given` numbers; its result as numbers, with the bytes ahead of them
     same [a, b]                            two descriptions of one real circuit's witness *)
EXTENDS Calc, TLC, Json, IOUtils
VARIABLES l, oi, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
C == Trace[oi].c
Open == /\ ev.ev = "open" /\ ev.n8 = ev.c.n8 /\ Same(ev.prime, ev.c.prime) /\ ev.size = ev.c.size /\ ev.version = ev.ver /\ oi' = l /\ n' = n
Calc1 == /\ ev.ev = "calc" /\ ~ev.mut /\ oi' = oi
         /\ IF ~Accepted(C, ev.in) THEN ev.out = "err" /\ n' = [n EXCEPT ![2] = @ + 1]
            ELSE /\ Assert(Computed(C, ev.in, ev.w, ev.q), <<"bad certificate", l>>)
                 /\ \/ Asserted(C, ev.w) /\ ev.out = "ok" /\ Form(ev.kind, C, ev.w, ev.res) /\ n' = [n EXCEPT ![1] = @ + 1]
                    \/ ~Asserted(C, ev.w) /\ ev.out = "err" /\ n' = [n EXCEPT ![3] = @ + 1]
                    \/ ~ev.strict /\ ev.out = "err" /\ n' = n
Large1 == /\ ev.ev = "large" /\ UNCHANGED <<oi, n>>
          /\ IF ev.given # ev.nin THEN ev.out = "err"
             ELSE ev.out = "ok" /\ Large(ev, ev.w) /\ ev.head = IF ev.kind = "wtns" THEN Header(ev.n8, ev.prime, ev.size) ELSE <<>>
Same1 == ev.ev = "same" /\ ev.a = ev.b /\ UNCHANGED <<oi, n>>
TInit == l = 1 /\ oi = 0 /\ n = <<0, 0, 0>>
TNext == l <= Len(Trace) /\ (Open \/ Calc1 \/ Large1 \/ Same1) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
