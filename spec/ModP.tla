------------------------------ MODULE ModP ------------------------------
(* The scalar field of BN254 and the integers that users write down.  An integer is [neg, d] with d its decimal
   digits; numbers are compared and multiplied in limbs of three digits, least significant first. *)
EXTENDS Integers, Sequences
P == << 617, 495, 808, 575, 186, 204, 698, 343, 34, 416, 400, 364, 548, 88, 275, 257, 745, 405, 246, 222, 275, 839, 871, 242, 888, 21 >>
RECURSIVE Limbs(_)
Limbs(d) == LET n == Len(d) IN
            IF n = 0 THEN <<>>
            ELSE << d[n] + (IF n > 1 THEN 10 * d[n - 1] ELSE 0) + (IF n > 2 THEN 100 * d[n - 2] ELSE 0) >> \o (IF n > 3 THEN Limbs(SubSeq(d, 1, n - 3)) ELSE <<>>)
L(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
RECURSIVE Conv(_, _, _, _)
\* the i-th coefficient of q * P
Conv(q, i, j, acc) == IF j > Len(P) THEN acc ELSE Conv(q, i, j + 1, acc + P[j] * L(q, i - j + 1))
RECURSIVE Carry(_, _, _, _, _, _)
\* q * P + a = b ?
Carry(q, a, b, i, n, c) == IF i > n THEN c = 0
                           ELSE LET t == Conv(q, i, 1, 0) + L(a, i) + c IN t % 1000 = L(b, i) /\ Carry(q, a, b, i + 1, n, t \div 1000)
Max(a, b) == IF a > b THEN a ELSE b
Combines(q, a, b) == Carry(q, a, b, 1, Max(Len(q) + Len(P), Max(Len(a), Len(b))) + 1, 0)
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i = 0 THEN FALSE ELSE IF L(a, i) # L(b, i) THEN L(a, i) < L(b, i) ELSE Less(a, b, i - 1)
RECURSIVE Add(_, _, _, _, _)
Add(a, b, i, n, c) == IF i > n THEN <<>> ELSE LET t == L(a, i) + L(b, i) + c IN << t % 1000 >> \o Add(a, b, i + 1, n, t \div 1000)
Plus(a, b) == Add(a, b, 1, Max(Len(a), Len(b)) + 1, 0)
\* r is the residue of the integer v; q witnesses it: v = q * P + r, or, for a negative v = -k, q * P = k + r
IsResidue(v, q, r) == LET k == Limbs(v.d)  ql == Limbs(q)  rl == Limbs(r) IN
  /\ Less(rl, P, Max(Len(rl), Len(P)))
  /\ IF v.neg THEN Combines(ql, <<>>, Plus(k, rl)) ELSE Combines(ql, rl, k)
=======================================================================
