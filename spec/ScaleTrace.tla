--------------------------- MODULE ScaleTrace ---------------------------
(* Behaviours of the tools on large instances, against the same rules as System (SysTrace).  The instances are the
   lines of CASES (written by ScaleGen); an event names one by its number k and an assignment by the list of <<wire, value>>
   in which it differs from the instance's own.
     read    [k, out, h, cons, labels]        the circuit file was read
     wtns    [k, out, n, vals]                the witness file was read
     sym     [k, max, out, map, own]          the symbol file was parsed
     encap   [k, doc, tool, out, stmt, key]   doc: "full", or "short" of one public value
     encrypt [k, doc, tool, embed, out, stmt, msg, text]
     decap / decrypt [e, over, out, key / msg], getpub [e, out, text]      e: number of the encapsulation
     verify  [e, list, out]                   a list of values was verified against a ciphertext
     accept  [k, over, acc]                   the circuit was evaluated *)
EXTENDS Scale, Json, IOUtils
CONSTANT Checks
VARIABLES l, encs, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cases == ndJsonDeserialize(IOEnv.CASES)
On(c) == c \in Checks
ev == Trace[l]
Asg(k, over) == FoldLeft(LAMBDA a, o : [a EXCEPT ![o[1] + 1] = o[2]], Cases[k].asg, over)
Want(k) == SubSeq(Cases[k].asg, 2, 1 + NPub(Cases[k].circ))
Same(k, over, stmt) == LET a == Asg(k, over) IN \A i \in 1 .. Len(stmt) : a[i + 1] = stmt[i]
Header(c) == [nw |-> c.nw, nout |-> c.nout, nin |-> c.nin, nprv |-> c.nprv, nlab |-> c.nw, ncons |-> Len(c.cons), fs |-> 32]
Read == /\ ev.ev = "read" /\ ev.out = "ok" /\ ev.h = Header(Cases[ev.k].circ) /\ ev.cons = Cases[ev.k].circ.cons
        /\ ev.labels = [i \in 1 .. Cases[ev.k].circ.nw |-> Label(i - 1)] /\ UNCHANGED encs /\ n' = n
Wtns == /\ ev.ev = "wtns" /\ ev.out = "ok" /\ ev.n = Len(Cases[ev.k].asg) /\ ev.vals = Cases[ev.k].asg /\ UNCHANGED encs /\ n' = n
AsSet(q) == { q[i] : i \in 1 .. Len(q) }
Sym == /\ ev.ev = "sym" /\ ev.out = "ok" /\ Len(ev.map) = Len(Cases[ev.k].lines)
       /\ LET L == Cases[ev.k].lines IN /\ AsSet(ev.map) = { << "main." \o L[i][1], L[i][2] >> : i \in 1 .. Len(L) }
                                        /\ AsSet(ev.own) = { x \in AsSet(L) : ev.max < 0 \/ x[2] <= ev.max }
       /\ UNCHANGED encs /\ n' = n
Recorded(e) == IF e.doc = "full" THEN e.out = "ok" /\ e.stmt = Want(e.k) ELSE e.out = "err"
Encap == /\ ev.ev \in {"encap", "encrypt"} /\ (On("stmt") => Recorded(ev)) /\ (On("agree") /\ ev.doc = "full" => ev.out = "ok")
         /\ encs' = Append(encs, [k |-> ev.k, kind |-> ev.ev, live |-> ev.out = "ok", full |-> ev.doc = "full", stmt |-> ev.stmt,
                                  secret |-> IF ev.ev = "encap" THEN ev.key ELSE ev.msg, text |-> IF ev.ev = "encrypt" THEN ev.text ELSE "", embed |-> ev.ev = "encrypt" /\ ev.embed])
         /\ n' = n
Decap == /\ ev.ev \in {"decap", "decrypt"}
         /\ LET c == encs[ev.e]
                sat == SatZ(Cases[c.k].circ, Asg(c.k, ev.over))
                sup == sat /\ c.full /\ Same(c.k, ev.over, Want(c.k))
                rec == sat /\ Len(c.stmt) < Len(Cases[c.k].asg) /\ Same(c.k, ev.over, c.stmt)
                got == IF ev.ev = "decap" THEN ev.key ELSE ev.msg
            IN IF ~c.live THEN n' = n
               ELSE IF sup \/ rec THEN (On("agree") => ev.out = "ok" /\ got = c.secret) /\ (On("reject") /\ ~rec => ev.out = "err") /\ n' = [n EXCEPT ![1] = @ + 1]
               ELSE (On("reject") => ev.out = "err") /\ n' = [n EXCEPT ![2] = @ + 1]
         /\ UNCHANGED encs
GetPub == /\ ev.ev = "getpub" /\ LET c == encs[ev.e] IN ~c.live \/ (On("getpub") => IF c.embed THEN ev.out = "ok" /\ ev.text = c.text ELSE ev.out = "err")
          /\ UNCHANGED encs /\ n' = [n EXCEPT ![3] = @ + 1]
Verify == /\ ev.ev = "verify" /\ LET c == encs[ev.e] IN ~c.live \/ (ev.out = IF ev.list = c.stmt THEN "yes" ELSE "no")
          /\ UNCHANGED encs /\ n' = [n EXCEPT ![3] = @ + 1]
Accept == /\ ev.ev = "accept" /\ ev.acc = (IF SatZ(Cases[ev.k].circ, Asg(ev.k, ev.over)) THEN "yes" ELSE "no")
          /\ UNCHANGED encs /\ n' = IF ev.acc = "yes" THEN [n EXCEPT ![1] = @ + 1] ELSE [n EXCEPT ![2] = @ + 1]
Step == l <= Len(Trace) /\ (Read \/ Wtns \/ Sym \/ Encap \/ Decap \/ GetPub \/ Verify \/ Accept) /\ l' = l + 1
Init == l = 1 /\ encs = <<>> /\ n = <<0, 0, 0>>
Next == Step
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
