--------------------------- MODULE MemTrace ----------------------------
(* Recorded sessions against Memory.  Events:
     start [rd]                                     new objects with the contents rd
     set   [a, v]                                   the caller writes the content v into object a
     wipe  [a]   copy [a, b]                        the caller wipes object a; copies object a over object b
     call  [op, a, b, c, v, k, out, res]            an operation on objects a, b, c (0: none) with k results
   each with rd: the contents of all objects, read back after the step (<<>>: not before the calls that overlap with this one).  An operation that failed leaves objects "none"
   in the place of its results; an operation that is given such an object is not called (out: skip). *)
EXTENDS Memory, Json, IOUtils
VARIABLES l, mem, made, seen, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
At(h) == IF h = 0 THEN "" ELSE mem[h]
Nones(k) == [i \in 1 .. k |-> "none"]
Start == ev.ev = "start" /\ mem' = ev.rd /\ made' = <<>> /\ seen' = { ev.rd[i] : i \in 1 .. Len(ev.rd) } \cup {"wiped", "none"} /\ UNCHANGED n
Write == /\ ev.ev \in {"set", "wipe", "copy"}
         /\ mem' = (IF ev.ev = "set" THEN [mem EXCEPT ![ev.a] = ev.v]
                    ELSE IF ev.ev = "wipe" THEN [mem EXCEPT ![ev.a] = IF @ = "none" THEN @ ELSE "wiped"]
                    ELSE [mem EXCEPT ![ev.b] = IF "none" \in {mem[ev.a], @} THEN @ ELSE mem[ev.a]])
         /\ seen' = seen \cup { mem'[i] : i \in 1 .. Len(mem') }
         /\ UNCHANGED <<made, n>>
Skipped == "none" \in {At(ev.a), At(ev.b), At(ev.c)}
Call == /\ ev.ev = "call"
        /\ IF Skipped THEN ev.out = "skip" /\ mem' = mem \o Nones(ev.k) /\ UNCHANGED <<made, seen, n>>
           ELSE LET r == Op(made, ev.op, mem[5], At(ev.a), At(ev.b), At(ev.c), ev.v) IN
                /\ ev.out \in r.out
                /\ IF ev.out = "ok"
                   THEN /\ Len(ev.res) = Len(r.res) /\ Len(ev.res) = ev.k
                        /\ \A i \in 1 .. Len(r.res) : r.res[i] = "?" \/ (IF r.res[i] = "*" THEN ev.res[i] \notin seen ELSE ev.res[i] = r.res[i])
                        /\ Len(ev.res) = 2 => ev.res[1] # ev.res[2]
                        /\ mem' = mem \o ev.res /\ made' = Learn(made, ev.op, mem[5], At(ev.a), r, ev.res)
                        /\ n' = [n EXCEPT ![1] = @ + 1]
                   ELSE mem' = mem \o Nones(ev.k) /\ made' = made /\ n' = [n EXCEPT ![2] = @ + 1]
                /\ seen' = seen \cup { mem'[i] : i \in 1 .. Len(mem') }
Init == l = 1 /\ mem = <<>> /\ made = <<>> /\ seen = {} /\ n = <<0, 0>>
\* every object holds what the specification says it holds
Next == l <= Len(Trace) /\ (Start \/ Write \/ Call) /\ (ev.rd = mem' \/ (ev.ev = "call" /\ ev.rd = <<>>)) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
