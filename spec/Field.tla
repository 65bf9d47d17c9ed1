---------------------------- MODULE Field ----------------------------
(* Arithmetic modulo the prime P, small enough for TLC's 32-bit integers (P < 46341). *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT P
F == 0 .. P - 1
Mod(a) == a % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a + P - b) % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 0 THEN Pow(Mul(a, a), n \div 2) ELSE Mul(a, Pow(Mul(a, a), n \div 2))
Inv(a) == Pow(a, P - 2)
SumSeq(s) == FoldLeft(LAMBDA x, y : (x + y) % P, 0, s)
=======================================================================
