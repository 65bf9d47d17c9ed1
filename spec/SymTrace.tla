---------------------------- MODULE SymTrace ----------------------------
(* Recorded results of both symbol-file parsers against SymFile.
     text  [text, max, out, map, own, jout, jmap, jown]   characters and the maps (sequences of [name, wire]) of the Rust and
                                                          the JavaScript parser; max -1: no highest wire
     lines [lines, max, out, map, own, jout, ...]         a large file given by its lines [name, own, wire], with names as texts *)
EXTENDS SymFile, TLC, Json, IOUtils
VARIABLES l, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(o, got, own, m, O) == o = "ok" /\ ToSet(got) = m /\ Len(got) = Cardinality(m) /\ ToSet(own) = O /\ Len(own) = Cardinality(O)
Text == /\ ev.ev = "text"
        /\ IF InDomain(ev.text)
           THEN LET m == Map(ev.text)  O == Own(m, ev.max) IN
                Is(ev.out, ev.map, ev.own, m, O) /\ Is(ev.jout, ev.jmap, ev.jown, m, O) /\ n' = [n EXCEPT ![1] = @ + 1]
           ELSE ev.out \in {"ok", "err"} /\ ev.jout \in {"ok", "err"} /\ n' = [n EXCEPT ![2] = @ + 1]
Lines == /\ ev.ev = "lines"
         /\ LET E == SelectSeq(ev.lines, LAMBDA e : e[3] >= 0)
                L == { i \in 1 .. Len(E) : \A j \in i + 1 .. Len(E) : E[j][1] # E[i][1] }
                m == { << E[i][1], E[i][3] >> : i \in L }
                O == { << E[i][2], E[i][3] >> : i \in { j \in L : E[j][2] # "" /\ (ev.max < 0 \/ E[j][3] <= ev.max) } }
            IN Is(ev.out, ev.map, ev.own, m, O) /\ Is(ev.jout, ev.jmap, ev.jown, m, O)
         /\ n' = [n EXCEPT ![3] = @ + 1]
Init == l = 1 /\ n = <<0, 0, 0>>
Next == l <= Len(Trace) /\ (Text \/ Lines) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
