---------------------------- MODULE WtnsFile ----------------------------
(* The witness file format, as a parser over bytes. *)
EXTENDS Bin
WTNS == <<119, 116, 110, 115>>
\* the order of the scalar field of BN254, little-endian
Q == <<1,0,0,240,147,245,225,67,145,112,185,121,72,232,51,40,93,88,129,129,182,69,80,184,41,160,49,225,114,78,100,48>>
BadW == [st |-> "bad", strict |-> FALSE, canon |-> FALSE, n |-> 0, fs |-> 0, d |-> 0]
\* a header section whose announced size is not that of its fields: what follows it is undefined
RECURSIVE Odd(_, _, _)
Odd(b, o, k) == k > 0 /\ Fits(b, o, 12) /\ LET t == U32(b, o)  n == U64(b, o + 4) IN
                  \/ t = 1 /\ Fits(b, o, 16) /\ (U32(b, o + 12) > Len(b) \/ n # 8 + U32(b, o + 12))
                  \/ n <= Len(b) /\ Odd(b, o + 12 + n, k - 1)
ParseWtns(b) ==
  LET c == Container(b, WTNS, 2) IN
  IF Fits(b, 0, 12) /\ Bytes(b, 0, 4) = WTNS /\ U32(b, 4) = 2 /\ Odd(b, 12, U32(b, 8)) THEN [BadW EXCEPT !.st = "odd"]
  ELSE IF ~c.ok \/ ~Has(c.secs, 1) \/ ~Has(c.secs, 2) THEN BadW
  ELSE IF Count(c.secs, 1) > 1 \/ Count(c.secs, 2) > 1 THEN [BadW EXCEPT !.st = "odd"]
  ELSE LET hs == First(c.secs, 1)  ds == First(c.secs, 2) IN
       IF ~Inside(b, <<hs, ds>>) THEN BadW
       ELSE LET fs == U32(b, hs.o)  n == U32(b, hs.o + 4 + fs) IN
            IF n > Len(b) \/ n * fs # ds.n THEN BadW
            ELSE [st |-> "ok", n |-> n, fs |-> fs, d |-> ds.o,
                  strict |-> /\ Inside(b, c.secs) /\ hs.o < ds.o /\ n > 0 /\ fs > 0,
                  canon |-> fs >= 32 /\ \A i \in 1 .. n : LET v == Bytes(b, ds.o + (i - 1) * fs, fs)
                                                         IN LessLE(SubSeq(v, 1, 32), Q, 32) /\ ZeroBytes(SubSeq(v, 33, fs))]
Pad32(v) == [i \in 1 .. 32 |-> IF i <= Len(v) THEN v[i] ELSE 0]
Val(b, p, i) == Bytes(b, p.d + (i - 1) * p.fs, p.fs)
Prime(b) == LET hs == First(Container(b, WTNS, 2).secs, 1) IN Bytes(b, hs.o + 4, U32(b, hs.o))
=======================================================================
