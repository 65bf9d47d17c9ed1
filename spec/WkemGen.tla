---------------------------- MODULE WkemGen ----------------------------
(* Generates circuits over F_P with a satisfying assignment, neighbouring assignments (one wire changed,
   one value missing, one value too many) and lists to verify the statement against; the scenarios are
   the transitions Encap, Decap, Verify of Wkem, in the order in which the check performs them. *)
EXTENDS Circuits, TLC, Json, IOUtils
CONSTANTS N, Base, MaxWires, MaxCons
Val(s, i) == LET k == Rnd(s, i, 8) IN IF k = 0 THEN 0 ELSE IF k = 1 THEN 1 ELSE IF k = 2 THEN P - 1 ELSE Rnd(s, i + 7777, P)
Row(s, i, nw) == [j \in 1 .. Rnd(s, i, 4) |-> <<Rnd(s, i + 10 * j, nw), Val(s, i + 10 * j + 1)>>]
\* C is completed with one term so that the assignment satisfies the constraint
Con(s, i, nw, a) ==
  LET A == Row(s, i, nw)  B == Row(s, i + 100, nw)  C0 == Row(s, i + 200, nw)
      cand == { w \in 0 .. nw - 1 : a[w + 1] # 0 }
      w0 == CHOOSE w \in cand : \A v \in cand : (w - Rnd(s, i + 300, nw)) % nw <= (v - Rnd(s, i + 300, nw)) % nw
      k == Mul(Sub(Mul(Eval(A, a), Eval(B, a)), Eval(C0, a)), Inv(a[w0 + 1]))
  IN << A, B, Append(C0, <<w0, k>>) >>
Case(s) ==
  LET nw == 2 + Rnd(s, 1, MaxWires - 1)
      npub == Rnd(s, 2, IF Rnd(s, 3, 8) = 0 THEN nw ELSE nw - 1)
      a == [w \in 1 .. nw |-> IF w = 1 THEN 1 ELSE Val(s, 20 + w)]
      circ == [npub |-> npub, nw |-> nw, cons |-> [j \in 1 .. Rnd(s, 4, MaxCons + 1) |-> Con(s, 1000 * j, nw, a)]]
      near == [w \in 2 .. nw |-> [a EXCEPT ![w] = Add(@, 1 + Rnd(s, 500 + w, P - 1))]]
      pub == Public(circ, a)
      alt == [j \in 1 .. npub |-> [pub EXCEPT ![j] = Add(@, 1 + Rnd(s, 600 + j, P - 1))]]
  IN [seed |-> s, circ |-> circ, asg |-> a,
      near |-> [w \in 1 .. nw - 1 |-> near[w + 1]] \o <<SubSeq(a, 1, nw - 1), SubSeq(a, 1, 1), [w \in 1 .. nw |-> IF w = 1 THEN 1 ELSE 0]>>,
      lists |-> <<pub, <<>>, pub \o <<0>>, pub \o <<1>>>> \o (IF npub > 0 THEN <<SubSeq(pub, 1, npub - 1), Reverse(pub), SubSeq(pub, 2, npub), [j \in 1 .. npub |-> 0]>> ELSE <<>>) \o alt,
      words |-> [j \in 1 .. 5 |-> Rnd(s, 700 + j, P)]]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1 .. N |-> Case((Base * 613 + i) % M)])
=======================================================================
