------------------------------ MODULE Wide ------------------------------
(* Constraint systems over the field of a prime of any size: numbers are sequences of bytes (Big), residues of at most
   Len(p) bytes; what is congruent to what is shown by certificates, so that large values, coefficients and differences
   (a multiple of 2^64, a negation, the top bits) can be judged and not only the small fields of Circuits. *)
EXTENDS Big, TLC
RECURSIVE Terms(_, _, _, _)
\* the i-th coefficient of the value of a row (a sequence of [w, k]) under asg (wire w is asg[w + 1])
Terms(row, asg, i, k) == IF k > Len(row) THEN 0 ELSE Prod(asg[row[k].w + 1], row[k].k, i) + Terms(row, asg, i, k + 1)
RECURSIVE Sum(_, _, _, _, _, _, _)
\* that value is q * p + r
Sum(row, asg, q, p, r, i, c) ==
  IF i > Len(p) + Hi(Len(p), Len(q)) + 4 THEN c = 0
  ELSE LET t == Terms(row, asg, i, 1) - Prod(q, p, i) - B(r, i) + c
       IN t % 256 = 0 /\ Sum(row, asg, q, p, r, i + 1, t \div 256)
\* a row has the residue r; q certifies it
IsRow(row, asg, q, p, r) == Less(r, p) /\ Sum(row, asg, q, p, r, 1, 0)
\* cert = [a, qa, b, qb, c, qc, q, r]: the values of the three rows and the residue r of the product of the first two
Valid(con, asg, cert, p) == /\ IsRow(con.a, asg, cert.qa, p, cert.a) /\ IsRow(con.b, asg, cert.qb, p, cert.b) /\ IsRow(con.c, asg, cert.qc, p, cert.c)
                            /\ IsMul(cert.a, cert.b, cert.q, p, cert.r)
Holds(cert) == Same(cert.r, cert.c)
Sat(cons, asg, certs, p) == /\ Assert(Len(certs) = Len(cons) /\ \A i \in 1 .. Len(cons) : Valid(cons[i], asg, certs[i], p), "certificates")
                            /\ \A i \in 1 .. Len(cons) : Holds(certs[i])
\* ---- the quadratic arithmetic program at one point: the elements an encapsulation publishes (see Qap for the small fields)
RECURSIVE Pow2From(_, _)
Pow2From(n, k) == IF k >= n THEN k ELSE Pow2From(n, 2 * k)
Number(n) == << n % 256, n \div 256 >>
\* h.pts are the powers of a root of unity of order n, h.lag the Lagrange basis over them at x
IsBasis(h, x, n, p) ==
  LET N == 1 .. n IN
  /\ Len(h.pts) = n /\ Same(h.pts[1], One)
  /\ \A j \in N : IsMul(h.pts[j], h.w, h.qpts[j], p, h.pts[(j % n) + 1])
  /\ n > 1 => ~Same(h.pts[n \div 2 + 1], One)
  /\ Same(h.pows[1], x) /\ \A k \in 2 .. Len(h.pows) : IsMul(h.pows[k - 1], h.pows[k - 1], h.qpows[k], p, h.pows[k])
  /\ 2 ^ (Len(h.pows) - 1) = n
  /\ IsSub(h.pows[Len(h.pows)], One, h.qz, p, h.z)
  /\ \A j \in N : /\ IsSub(x, h.pts[j], h.qd[j], p, h.d[j]) /\ ~Same(h.d[j], Zero)
                   /\ IsMul(Number(n), h.d[j], h.qnd[j], p, h.nd[j])
                   /\ IsMul(h.z, h.pts[j], h.qzp[j], p, h.zp[j])
                   /\ IsMul(h.lag[j], h.nd[j], h.qlag[j], p, h.zp[j])
\* the terms of wire i in the given rows, as a row over the basis
RECURSIVE Of(_, _, _)
Of(row, i, j) == IF row = <<>> THEN <<>> ELSE (IF Head(row).w = i THEN << [w |-> j, k |-> Head(row).k] >> ELSE <<>>) \o Of(Tail(row), i, j)
RECURSIVE Column(_, _, _)
Column(rows, i, j) == IF j > Len(rows) THEN <<>> ELSE Of(rows[j], i, j - 1) \o Column(rows, i, j + 1)
\* d = [alpha, beta, delta, r, x] are draws; parts = [u, v, phi]
IsQap(cons, npub, nw, d, h, parts, p) ==
  LET n == Pow2From(Len(cons) + npub + 1, 1)
      m == Len(cons)
      RA == [j \in 1 .. m |-> cons[j].a]  RB == [j \in 1 .. m |-> cons[j].b]  RC == [j \in 1 .. m |-> cons[j].c]
  IN /\ Len(parts.u) = nw /\ Len(parts.v) = nw /\ Len(parts.phi) = nw
     /\ IsBasis(h, d.x, n, p)
     /\ IsMul(d.r, d.r, h.qrr, p, h.rr)
     /\ \A i \in 1 .. nw :
          LET c == h.wires[i] IN
          /\ IsRow(Column(RA, i - 1, 1), h.lag, c.qu, p, c.u) /\ IsMul(d.r, c.u, c.qru, p, parts.u[i])
          /\ IsRow(Column(RB, i - 1, 1), h.lag, c.qv, p, c.v) /\ IsMul(d.r, c.v, c.qrv, p, parts.v[i])
          /\ IsRow(Column(RC, i - 1, 1), h.lag, c.qw, p, c.w)
          /\ IsRow(<< [w |-> 0, k |-> d.beta], [w |-> 1, k |-> d.alpha], [w |-> 2, k |-> h.rr] >>, << parts.u[i], parts.v[i], c.w >>, c.qs, p, c.s)
          /\ IsMul(d.delta, parts.phi[i], c.qphi, p, c.s)
\* the assignment gives the recorded values to the wires 1, 2, ...
States(asg, stmt) == Len(asg) > Len(stmt) /\ \A i \in 1 .. Len(stmt) : Same(asg[i + 1], stmt[i])
Equal(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : Same(s[i], t[i])
=======================================================================
