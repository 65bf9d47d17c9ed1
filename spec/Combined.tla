---------------------------- MODULE Combined ----------------------------
(* The combined ciphertext: flag | 4-byte big-endian length | witness ciphertext |
   (flag = 1: 4-byte big-endian length | public-input text) | sealed message.
   Bytes are numbers 0..255; lengths that do not fit are represented by Huge. *)
EXTENDS Integers, Sequences
Huge == 1000000000
BE32(b, o) == IF b[o] > 0 \/ b[o + 1] > 127 THEN Huge ELSE b[o + 1] * 65536 + b[o + 2] * 256 + b[o + 3]
Bytes32(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Sealed(n) == 12 + n + 16
Layout(flag, wct, doc, sealed) == << flag >> \o Bytes32(Len(wct)) \o wct \o (IF flag = 1 THEN Bytes32(Len(doc)) \o doc ELSE <<>>) \o sealed

Bad == [ok |-> FALSE, flag |-> 0, w0 |-> 0, wlen |-> 0, d0 |-> 0, dlen |-> 0, s0 |-> 0]
\* positions (counted from 0) of the parts, or Bad when a length points outside the data
Parse(b) ==
  IF Len(b) < 5 THEN Bad
  ELSE LET n == Len(b)  w == BE32(b, 2) IN
       IF w > n - 5 THEN Bad
       ELSE IF b[1] # 1 THEN [ok |-> TRUE, flag |-> b[1], w0 |-> 5, wlen |-> w, d0 |-> 5 + w, dlen |-> 0, s0 |-> 5 + w]
       ELSE IF n - 5 - w < 4 THEN Bad
       ELSE LET d == BE32(b, 6 + w) IN
            IF d > n - 9 - w THEN Bad
            ELSE [ok |-> TRUE, flag |-> 1, w0 |-> 5, wlen |-> w, d0 |-> 9 + w, dlen |-> d, s0 |-> 9 + w + d]
Part(b, o, n) == SubSeq(b, o + 1, o + n)
Wct(b) == LET p == Parse(b) IN Part(b, p.w0, p.wlen)
Doc(b) == LET p == Parse(b) IN Part(b, p.d0, p.dlen)
Seal(b) == LET p == Parse(b) IN SubSeq(b, p.s0 + 1, Len(b))

\* what may come out of decrypting d, a damaged copy of the good combined ciphertext b: the original
\* message or an error; only an error when a length points outside, or the sealed message is not the
\* original one.  A flag other than 0 and 1 has no meaning of its own: it may be read as either.
Fails(b, d) == ~Parse(d).ok \/ Seal(d) # Seal(b)
As(d, f) == [d EXCEPT ![1] = f]
MustFail(b, d) == Len(d) < 5 \/ IF d[1] \in {0, 1} THEN Fails(b, d) ELSE Fails(b, As(d, 0)) /\ Fails(b, As(d, 1))
\* extraction of the public inputs
NoDoc(d) == Len(d) < 5 \/ d[1] = 0 \/ ~Parse(As(d, 1)).ok
=======================================================================
