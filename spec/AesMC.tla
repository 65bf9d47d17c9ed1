------------------------------ MODULE AesMC ------------------------------
(* The tables of Aes are the ones its definition prescribes; the published test vectors of AES-256,
   counter mode and GCM. *)
EXTENDS Sealing, TLC
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ Mul(Two[a + 1], b \div 2)
Bit(x, i) == (x \div (2 ^ (i % 8))) % 2
Affine(b) == LET bit(i) == (Bit(b, i) + Bit(b, i + 4) + Bit(b, i + 5) + Bit(b, i + 6) + Bit(b, i + 7) + Bit(99, i)) % 2
             IN bit(0) + 2 * bit(1) + 4 * bit(2) + 8 * bit(3) + 16 * bit(4) + 32 * bit(5) + 64 * bit(6) + 128 * bit(7)
ASSUME \A x \in 0 .. 255 : Two[x + 1] = (IF x < 128 THEN 2 * x ELSE (2 * x - 256) ^^ 27)
ASSUME S(0) = 99 /\ \A x \in 1 .. 255 : \E y \in 1 .. 255 : Mul(x, y) = 1 /\ S(x) = Affine(y)
K0 == [i \in 1 .. 32 |-> i - 1]
ASSUME Enc(Expand([i \in 1 .. 32 |-> i - 1]), [i \in 1 .. 16 |-> 17 * (i - 1)]) = << 142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137 >>
\* GCM test cases 13 and 14: the zero key, vector and message
Z(n) == [i \in 1 .. n |-> 0]
zk == Expand(Z(32))
ASSUME GcmSeal(zk, HTable(zk), Z(12), <<>>) = << 83, 15, 138, 251, 199, 69, 54, 185, 169, 99, 180, 241, 196, 203, 115, 139 >>
ASSUME GcmSeal(zk, HTable(zk), Z(12), Z(16)) = << 206, 167, 64, 61, 77, 96, 107, 110, 7, 78, 197, 211, 186, 243, 157, 24 >> \o
                                              << 208, 209, 200, 167, 153, 153, 107, 240, 38, 91, 152, 181, 212, 138, 185, 25 >>
\* opening inverts sealing and rejects every single changed byte and every cut
m5 == << 1, 2, 250, 4, 5 >>
box == Z(12) \o GcmSeal(zk, HTable(zk), Z(12), m5)
ASSUME GcmOpen(zk, HTable(zk), box) = [ok |-> TRUE, msg |-> m5]
ASSUME \A i \in 1 .. Len(box) : ~GcmOpen(zk, HTable(zk), [box EXCEPT ![i] = @ ^^ 64]).ok
ASSUME \A n \in 0 .. Len(box) - 1 : ~GcmOpen(zk, HTable(zk), SubSeq(box, 1, n)).ok
\* counters carry within their last eight bytes only
ASSUME CtrBlock(Z(16), 258) = Z(14) \o << 1, 2 >>
ASSUME CtrBlock([i \in 1 .. 16 |-> 255], 2) = [i \in 1 .. 16 |-> IF i <= 8 THEN 255 ELSE IF i = 16 THEN 1 ELSE 0]
ASSUME \A n \in {0, 1, 15, 16, 17, 40} : LET m == [i \in 1 .. n |-> (7 * i) % 256] IN Ctr(zk, Z(16), Ctr(zk, Z(16), m)) = m /\ Len(Ctr(zk, Z(16), m)) = n
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=======================================================================
