------------------------------- MODULE Big -------------------------------
(* Natural numbers as sequences of bytes, least significant first, and congruences between them that are shown by a
   certificate (the quotient).  Sums of products of bytes over a few hundred positions stay within TLC's integers. *)
EXTENDS Integers, Sequences
B(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
Hi(a, b) == IF a > b THEN a ELSE b
RECURSIVE Coef(_, _, _, _, _)
\* the i-th coefficient of x * y
Coef(x, y, i, j, acc) == IF j > Len(y) \/ j > i THEN acc ELSE Coef(x, y, i, j + 1, acc + y[j] * B(x, i - j + 1))
Prod(x, y, i) == Coef(x, y, i, Hi(1, i - Len(x) + 1), 0)
RECURSIVE Eq(_, _, _, _, _, _, _, _)
\* x * y + z = q * p + r, position by position with the carries of both sides
Eq(x, y, z, q, p, r, i, c) ==
  IF i > Hi(Hi(Len(x) + Len(y), Len(q) + Len(p)), Hi(Len(z), Len(r))) + 2 THEN c = 0
  ELSE LET t == Prod(x, y, i) + B(z, i) - Prod(q, p, i) - B(r, i) + c
       IN t % 256 = 0 /\ Eq(x, y, z, q, p, r, i + 1, t \div 256)
MulAdd(x, y, z, q, p, r) == Eq(x, y, z, q, p, r, 1, 0)
One == <<1>>
Zero == <<>>
RECURSIVE Below(_, _, _)
Below(a, b, i) == IF i = 0 THEN FALSE ELSE IF B(a, i) # B(b, i) THEN B(a, i) < B(b, i) ELSE Below(a, b, i - 1)
Less(a, b) == Below(a, b, Hi(Len(a), Len(b)))
Same(a, b) == \A i \in 1 .. Hi(Len(a), Len(b)) : B(a, i) = B(b, i)
\* r is the residue of m (negated when neg) modulo p
IsRes(neg, m, q, p, r) == Less(r, p) /\ IF neg THEN MulAdd(One, m, r, q, p, Zero) ELSE MulAdd(One, m, Zero, q, p, r)
\* r = x * y, x + y, x - y modulo p
IsMul(x, y, q, p, r) == Less(r, p) /\ MulAdd(x, y, Zero, q, p, r)
IsAdd(x, y, q, p, r) == Less(r, p) /\ MulAdd(One, x, y, q, p, r)
IsSub(x, y, q, p, r) == Less(r, p) /\ MulAdd(One, y, r, q, p, x)
=======================================================================
