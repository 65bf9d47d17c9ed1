---------------------------- MODULE SysTrace ----------------------------
(* Validates recorded behaviours of the two tools against System.  Each event is one run of a tool; the
   constant Checks selects which of its results are compared.
     case     a new system: [circ, sym]
     encap    [tool, doc, out, stmt, key]
     decap    [tool, ct, circ?, asg, out, key]
     encrypt  [tool, doc, text, embed, msg, out, bytes, wlen, stmt, etext]
     decrypt  [tool, ct, asg, out, msg]
     getpub   [ct, out, text]
   A result "ok" is a success, "err" a reported failure; anything else (crash, hang, leak) never is allowed. *)
EXTENDS ZCircuits, Names, Combined, Json, IOUtils
CONSTANT Checks
VARIABLES l, sys, cts, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
On(c) == c \in Checks
ev == Trace[l]
Sup(d) == Supplied(sys.sym, d)
Known(d) == ~Missing(Sup(d), NPub(sys.circ))
Stmt(d) == Statement(Sup(d), NPub(sys.circ))
Matches(stmt, a) == Len(a) > Len(stmt) /\ \A i \in 1 .. Len(stmt) : a[i + 1] = stmt[i]
\* the assignment proves what was supplied / what is recorded
ProvesSup(c, circ, a) == circ = sys.circ /\ SatZ(circ, a) /\ c.known /\ Matches(c.want, a)
ProvesRec(c, circ, a) == circ = sys.circ /\ SatZ(circ, a) /\ Matches(c.stmt, a)
Refuted(c, circ, a) == ~SatZ(circ, a) \/ ~Matches(c.stmt, a)
Dead == [live |-> FALSE, known |-> FALSE, want |-> <<>>, stmt |-> <<>>, key |-> "", msg |-> "", text |-> "", embed |-> FALSE, kind |-> ""]

Case == ev.ev = "case" /\ sys' = [circ |-> ev.circ, sym |-> ev.sym] /\ cts' = <<>> /\ n' = n
\* the command-line tool does not read objects within a document: it may refuse them, but nothing else
HasObj(d) == \E i \in 1 .. Len(d) : d[i].val.t = "o"
Recorded(e) == /\ Known(e.doc) => \/ e.out = "ok" /\ e.stmt = Stmt(e.doc)
                                  \/ e.out = "err" /\ e.tool = "cli" /\ HasObj(e.doc)
               /\ ~Known(e.doc) => e.out = "err"
Mk(e, kind) == IF e.out # "ok" THEN Dead
               ELSE [live |-> TRUE, known |-> Known(e.doc), want |-> IF Known(e.doc) THEN Stmt(e.doc) ELSE <<>>, stmt |-> e.stmt,
                     key |-> IF kind = "wct" THEN e.key ELSE "", msg |-> IF kind = "wct" THEN "" ELSE e.msg,
                     text |-> IF kind = "wct" THEN "" ELSE e.text, embed |-> kind # "wct" /\ e.embed, kind |-> kind]
Encap == /\ ev.ev = "encap" /\ (On("stmt") => Recorded(ev)) /\ (On("agree") /\ Known(ev.doc) => ev.out = "ok")
         /\ cts' = Append(cts, Mk(ev, "wct")) /\ UNCHANGED sys /\ n' = n
\* the answer to a request for the key (good = the right answer was given)
Verdict(c, e, good) ==
  IF ~c.live THEN n' = n
  ELSE IF ProvesSup(c, e.circ, e.asg) \/ ProvesRec(c, e.circ, e.asg)
         THEN (On("agree") => good) /\ (Refuted(c, e.circ, e.asg) /\ On("reject") => e.out = "err") /\ n' = [n EXCEPT ![1] = @ + 1]
       ELSE IF Refuted(c, e.circ, e.asg) THEN (On("reject") => e.out = "err") /\ n' = [n EXCEPT ![2] = @ + 1]
       ELSE n' = n
Decap == /\ ev.ev = "decap"
         /\ LET c == cts[ev.ct] IN Verdict(c, ev, ev.out = "ok" /\ ev.key = c.key)
         /\ UNCHANGED <<sys, cts>>
LayoutOk(e) == LET p == Parse(e.bytes) IN
  /\ p.ok /\ p.flag = (IF e.embed THEN 1 ELSE 0) /\ p.wlen = e.wlen
  /\ e.embed => p.dlen = e.tlen /\ e.etext = e.text
  /\ Len(e.bytes) - p.s0 = Sealed(e.mlen)
Encrypt == /\ ev.ev = "encrypt" /\ (On("stmt") => Recorded(ev))
           /\ On("agree") /\ Known(ev.doc) => ev.out = "ok"
           /\ On("layout") /\ ev.out = "ok" => LayoutOk(ev)
           /\ cts' = Append(cts, Mk(ev, "combined")) /\ UNCHANGED sys /\ n' = n
Decrypt == /\ ev.ev = "decrypt"
           /\ LET c == cts[ev.ct] IN Verdict(c, ev, ev.out = "ok" /\ ev.msg = c.msg)
           /\ UNCHANGED <<sys, cts>>
GetPub == /\ ev.ev = "getpub"
          /\ LET c == cts[ev.ct] IN ~c.live \/ (On("getpub") => IF c.embed THEN ev.out = "ok" /\ ev.text = c.text ELSE ev.out = "err")
          /\ UNCHANGED <<sys, cts>> /\ n' = [n EXCEPT ![3] = @ + 1]
Step == l <= Len(Trace) /\ (Case \/ Encap \/ Decap \/ Encrypt \/ Decrypt \/ GetPub) /\ l' = l + 1
Init == l = 1 /\ sys = [circ |-> <<>>, sym |-> <<>>] /\ cts = <<>> /\ n = <<0, 0, 0>>
Next == Step
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
