---------------------------- MODULE Sealing -----------------------------
(* The two ways a message is encrypted under a 32-byte key.
   Authenticated:  nonce (12) | ciphertext (as long as the message) | tag (16)      AES-256-GCM, no further data
   Counter mode:   vector (16) | ciphertext                                        AES-256, 64-bit big-endian counter *)
EXTENDS Aes, SequencesExt
Blocks(n) == (n + 15) \div 16
XorSeq(a, b) == [i \in 1 .. Len(a) |-> a[i] ^^ b[i]]
\* ---- counter mode: block i of the keystream (i from 0) encrypts the vector with its last 8 bytes increased by i
RECURSIVE AddBE(_, _, _, _)
AddBE(v, n, i, stop) == IF n = 0 \/ i = stop THEN v ELSE LET s == v[i] + (n % 256) IN AddBE([v EXCEPT ![i] = s % 256], n \div 256 + s \div 256, i - 1, stop)
CtrBlock(iv, i) == AddBE(iv, i, 16, 8)
Ctr(rk, iv, m) ==
  LET n == Blocks(Len(m))
      part(i) == LET c == SubSeq(m, 16 * i - 15, IF 16 * i > Len(m) THEN Len(m) ELSE 16 * i)  k == Enc(rk, CtrBlock(iv, i - 1))
                 IN IF Len(c) = 16 THEN Xor16(c, k) ELSE XorSeq(c, k)
  IN FlattenSeq([i \in 1 .. n |-> part(i)])
\* what encryption under a vector gives; decryption
CtrSealed(rk, iv, m) == iv \o Ctr(rk, iv, m)
CtrOpened(rk, d) == Ctr(rk, SubSeq(d, 1, 16), SubSeq(d, 17, Len(d)))

\* ---- GCM.  Field elements are 8 words of 16 bits, most significant (the lowest coefficients) first.
Words(b) == << 256 * b[1] + b[2], 256 * b[3] + b[4], 256 * b[5] + b[6], 256 * b[7] + b[8], 256 * b[9] + b[10], 256 * b[11] + b[12], 256 * b[13] + b[14], 256 * b[15] + b[16] >>
Unwords(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256, w[3] \div 256, w[3] % 256, w[4] \div 256, w[4] % 256,
                 w[5] \div 256, w[5] % 256, w[6] \div 256, w[6] % 256, w[7] \div 256, w[7] % 256, w[8] \div 256, w[8] % 256 >>
Xor8(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8] >>
Sh(h, l) == 32768 * (h % 2) + l \div 2
\* times x
Half(v) == << (v[1] \div 2) ^^ (IF v[8] % 2 = 1 THEN 57600 ELSE 0), Sh(v[1], v[2]), Sh(v[2], v[3]), Sh(v[3], v[4]), Sh(v[4], v[5]), Sh(v[5], v[6]), Sh(v[6], v[7]), Sh(v[7], v[8]) >>
RECURSIVE Powers(_, _, _)
Powers(v, i, acc) == IF i = 128 THEN acc ELSE Powers(Half(v), i + 1, Append(acc, v))
Zero8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
\* products of the hash key H with every group of four coefficients: entry 16 * (k - 1) + v + 1 for the value v of group k
PowersOf(h) == Powers(h, 0, <<>>)
RECURSIVE Sums(_, _)
Sums(P, k) == IF k = 33 THEN <<>>
              ELSE LET a == P[4 * k - 3]  b == P[4 * k - 2]  c == P[4 * k - 1]  d == P[4 * k]
                       cd == Xor8(c, d)  bc == Xor8(b, c)  bd == Xor8(b, d)  bcd == Xor8(b, cd)
                   IN << Zero8, d, c, cd, b, bd, bc, bcd, a, Xor8(a, d), Xor8(a, c), Xor8(a, cd), Xor8(a, b), Xor8(a, bd), Xor8(a, bc), Xor8(a, bcd) >> \o Sums(P, k + 1)
HTable(rk) == Sums(PowersOf(Words(Enc(rk, << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>))), 1)
\* H times the element y: one word (four groups) at a time
Word(T, w, k) == Xor8(Xor8(T[k + (w \div 4096) + 1], T[k + ((w \div 256) % 16) + 17]), Xor8(T[k + ((w \div 16) % 16) + 33], T[k + (w % 16) + 49]))
MulH(T, y) == Xor8(Xor8(Xor8(Word(T, y[1], 0), Word(T, y[2], 64)), Xor8(Word(T, y[3], 128), Word(T, y[4], 192))),
                   Xor8(Xor8(Word(T, y[5], 256), Word(T, y[6], 320)), Xor8(Word(T, y[7], 384), Word(T, y[8], 448))))
RECURSIVE GHash(_, _, _, _)
GHash(T, c, o, y) ==
  IF o >= Len(c) THEN y
  ELSE LET b == SubSeq(c, o + 1, IF o + 16 > Len(c) THEN Len(c) ELSE o + 16)
           pad == IF Len(b) = 16 THEN b ELSE [i \in 1 .. 16 |-> IF i <= Len(b) THEN b[i] ELSE 0]
       IN GHash(T, c, o + 16, MulH(T, Xor8(y, Words(pad))))
Tag(rk, T, nonce, c) == Xor16(Enc(rk, nonce \o << 0, 0, 0, 1 >>),
                              Unwords(MulH(T, Xor8(GHash(T, c, 0, Zero8), << 0, 0, 0, 0, 0, 0, (Len(c) * 8) \div 65536, (Len(c) * 8) % 65536 >>))))
\* ciphertext and tag (the 32-bit counter of GCM starts at 2 and never carries that far here)
GcmSeal(rk, T, nonce, m) == LET c == Ctr(rk, nonce \o << 0, 0, 0, 2 >>, m) IN c \o Tag(rk, T, nonce, c)
GcmOpen(rk, T, d) ==
  IF Len(d) < 28 THEN [ok |-> FALSE, msg |-> <<>>]
  ELSE LET nonce == SubSeq(d, 1, 12)  c == SubSeq(d, 13, Len(d) - 16) IN
       IF Tag(rk, T, nonce, c) # SubSeq(d, Len(d) - 15, Len(d)) THEN [ok |-> FALSE, msg |-> <<>>]
       ELSE [ok |-> TRUE, msg |-> Ctr(rk, nonce \o << 0, 0, 0, 2 >>, c)]
=======================================================================
