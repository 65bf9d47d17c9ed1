---------------------------- MODULE R1csFile ----------------------------
(* The circuit file format, as a parser over bytes, and which files must be accepted or rejected. *)
EXTENDS Bin
R1CS == <<114, 49, 99, 115>>
Err == [ok |-> FALSE, end |-> 0]
Header(b, s) ==
  IF ~Fits(b, s.o, 4) THEN Err
  ELSE LET fs == U32(b, s.o)  p == s.o + 4 + fs IN
       IF fs > Len(b) \/ ~Fits(b, p, 28) THEN Err
       ELSE [ok |-> TRUE, end |-> p + 28, fsn |-> fs, nwn |-> U32(b, p), npubn |-> U32(b, p + 4) + U32(b, p + 8), nconsn |-> U32(b, p + 24),
             h |-> [fs |-> Bytes(b, s.o, 4), prime |-> Bytes(b, s.o + 4, fs), nw |-> Bytes(b, p, 4), nout |-> Bytes(b, p + 4, 4), nin |-> Bytes(b, p + 8, 4),
                    nprv |-> Bytes(b, p + 12, 4), nlab |-> Bytes(b, p + 16, 8), ncons |-> Bytes(b, p + 24, 4)]]
\* one linear combination from o on
Lc(b, o, fs) ==
  IF ~Fits(b, o, 4) THEN Err
  ELSE LET n == U32(b, o) IN
       IF n > Len(b) \/ n * (4 + fs) > Len(b) - o - 4 THEN Err
       ELSE [ok |-> TRUE, end |-> o + 4 + n * (4 + fs),
             f |-> [i \in 1 .. n |-> << Bytes(b, o + 4 + (i - 1) * (4 + fs), 4), Bytes(b, o + 8 + (i - 1) * (4 + fs), fs) >>],
             wires |-> { U32(b, o + 4 + (i - 1) * (4 + fs)) : i \in 1 .. n }]
RECURSIVE Rows(_, _, _, _)
Rows(b, o, k, fs) ==
  IF k = 0 THEN [ok |-> TRUE, end |-> o, rows |-> <<>>, wires |-> {}]
  ELSE LET x == Lc(b, o, fs) IN
       IF ~x.ok THEN Err
       ELSE LET r == Rows(b, x.end, k - 1, fs) IN
            IF ~r.ok THEN Err ELSE [ok |-> TRUE, end |-> r.end, rows |-> <<x.f>> \o r.rows, wires |-> x.wires \cup r.wires]
\* what the file says: [st |-> "ok", ...] or [st |-> "bad"]; strict = every section well-formed and used once
Bad == [st |-> "bad", strict |-> FALSE, labels |-> "none", huge |-> FALSE, h |-> <<>>, cons |-> <<>>, nw |-> 0]
ParseR1cs(b) ==
  LET c == Container(b, R1CS, 1) IN
  IF ~c.ok \/ ~Has(c.secs, 1) \/ ~Has(c.secs, 2) THEN Bad
  ELSE LET h == Header(b, First(c.secs, 1)) IN
       IF ~h.ok \/ h.nconsn > Len(b) \/ h.nconsn * 12 > Len(b) \/ (h.nwn < Huge /\ h.npubn >= h.nwn) THEN Bad
       ELSE LET cs == First(c.secs, 2)  r == Rows(b, cs.o, 3 * h.nconsn, h.fsn) IN
            IF ~r.ok \/ (\E w \in r.wires : w >= h.nwn) THEN Bad
            ELSE LET lab == Has(c.secs, 3)
                     ls == IF lab THEN First(c.secs, 3) ELSE [t |-> 3, o |-> 0, n |-> 0]
                     labok == h.nwn <= Len(b) /\ Fits(b, ls.o, 8 * h.nwn)
                     strict == /\ h.nwn < Huge /\ h.npubn < Huge /\ Inside(b, c.secs) /\ \A t \in 1 .. 3 : Count(c.secs, t) <= 1
                               /\ First(c.secs, 1).n = h.end - First(c.secs, 1).o /\ cs.n = r.end - cs.o
                               /\ (lab => ls.n = 8 * h.nwn)
                 IN [st |-> "ok", strict |-> strict, h |-> h.h, nw |-> h.nwn, huge |-> h.nwn > 100000,
                     cons |-> [j \in 1 .. h.nconsn |-> << r.rows[3 * j - 2], r.rows[3 * j - 1], r.rows[3 * j] >>],
                     labels |-> IF ~lab THEN "default" ELSE IF labok THEN "read" ELSE "cut", lo |-> ls.o]
Labels(b, p) == IF p.labels = "default" THEN [w \in 1 .. p.nw |-> Le8(w - 1)] ELSE [w \in 1 .. p.nw |-> Bytes(b, p.lo + 8 * (w - 1), 8)]
\* sections 1, 2 or 3 that run past the end of the file: data the counts announce is cut off
CutOff(b) == LET c == Container(b, R1CS, 1) IN c.ok /\ ~Inside(b, SelectSeq(c.secs, LAMBDA s : s.t \in 1 .. 3))
MustErr(b, p, tool) == p.st = "bad" \/ (tool = "cli" /\ p.labels = "cut") \/ (tool = "js" /\ p.labels = "cut" /\ CutOff(b))
MustOk(b, p) == p.st = "ok" /\ p.strict
=======================================================================
