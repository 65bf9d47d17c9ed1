------------------------------ MODULE Bin ------------------------------
(* Little-endian binary files as sequences of bytes (positions count from 0).  Numbers too large for TLC
   are represented by Huge. *)
EXTENDS Integers, Sequences, SequencesExt
Huge == 1000000000
Bytes(b, o, n) == SubSeq(b, o + 1, o + n)
Fits(b, o, n) == n <= Len(b) - o
U32(b, o) == IF b[o + 4] > 31 THEN Huge ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]
U64(b, o) == IF b[o + 5] > 0 \/ b[o + 6] > 0 \/ b[o + 7] > 0 \/ b[o + 8] > 0 THEN Huge ELSE U32(b, o)
\* the container: magic, version, number of sections, sections [t, o, n] of type t with n bytes from o on
RECURSIVE Sections(_, _, _)
Sections(b, o, k) ==
  IF k = 0 THEN [ok |-> TRUE, secs |-> <<>>]
  ELSE IF ~Fits(b, o, 12) THEN [ok |-> FALSE, secs |-> <<>>]
  ELSE LET s == [t |-> U32(b, o), o |-> o + 12, n |-> U64(b, o + 4)]
           r == Sections(b, IF s.n > Len(b) THEN Len(b) + 1 ELSE o + 12 + s.n, k - 1)
       IN [ok |-> r.ok, secs |-> <<s>> \o r.secs]
Container(b, magic, version) ==
  IF ~Fits(b, 0, 12) \/ Bytes(b, 0, 4) # magic \/ U32(b, 4) # version THEN [ok |-> FALSE, secs |-> <<>>]
  ELSE IF U32(b, 8) > Len(b) THEN [ok |-> FALSE, secs |-> <<>>]
  ELSE Sections(b, 12, U32(b, 8))
Has(secs, t) == \E i \in 1 .. Len(secs) : secs[i].t = t
First(secs, t) == secs[CHOOSE i \in 1 .. Len(secs) : secs[i].t = t /\ \A j \in 1 .. i - 1 : secs[j].t # t]
Count(secs, t) == Len(SelectSeq(secs, LAMBDA s : s.t = t))
\* every section lies within the file
Inside(b, secs) == \A i \in 1 .. Len(secs) : secs[i].n <= Len(b) - secs[i].o
\* a damaged copy: cut to a length, bytes replaced, bytes appended
Over(c, at, vals) == LET k == IF Len(vals) > Len(c) - at THEN Len(c) - at ELSE Len(vals)
                     IN SubSeq(c, 1, at) \o SubSeq(vals, 1, k) \o SubSeq(c, at + k + 1, Len(c))
Damaged(b, e) == LET c == IF e.cut < 0 THEN b ELSE SubSeq(b, 1, e.cut)
                 IN (IF e.at < 0 \/ e.at >= Len(c) THEN c ELSE Over(c, e.at, e.vals)) \o e.app
\* comparison of little-endian numbers of equal length
RECURSIVE LessLE(_, _, _)
LessLE(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessLE(x, y, i - 1)
ZeroBytes(x) == \A i \in 1 .. Len(x) : x[i] = 0
\* n in 8 bytes
Le8(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>
=======================================================================
