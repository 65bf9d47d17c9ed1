---------------------------- MODULE SysGen -----------------------------
(* Generates whole-system scenarios: a circuit with named signals, a symbol file, input documents and
   assignments, for the transitions of System. *)
EXTENDS ZCircuits, Names, Json, IOUtils
CONSTANTS N, Base
Val(s, i) == LET k == Rnd(s, i, 6) IN IF k = 0 THEN 0 ELSE IF k = 1 THEN 1 ELSE IF k = 2 THEN 0 - Rnd(s, i + 5, 20) ELSE Rnd(s, i + 9, 60)
Coef(s, i) == Rnd(s, i, 7) - 3
Row(s, i, nw) == [j \in 1 .. Rnd(s, i, 4) |-> <<Rnd(s, i + 10 * j, nw), Coef(s, i + 10 * j + 1)>>]
Con(s, i, nw, a) ==
  LET A == Row(s, i, nw)  B == Row(s, i + 100, nw)  C0 == Row(s, i + 200, nw)
      unit == { w \in 0 .. nw - 1 : a[w + 1] \in {1, -1} }
      w0 == CHOOSE w \in unit : \A v \in unit : (w - Rnd(s, i + 300, nw)) % nw <= (v - Rnd(s, i + 300, nw)) % nw
      k == (EvalZ(A, a) * EvalZ(B, a) - EvalZ(C0, a)) * a[w0 + 1]
  IN << A, B, Append(C0, <<w0, k>>) >>
\* how a class of n consecutive wires starting at w0 is named: a sequence of [name, dims, wire]
Shape(s, i, p, w0, n) ==
  LET k == Rnd(s, i, 5) IN
  IF n = 0 THEN <<>>
  ELSE IF k = 4 THEN   \* the members of a bus: names with several components
         SubSeq(<< [name |-> p \o ".x", dims |-> <<>>, wire |-> w0], [name |-> p \o ".a.x", dims |-> <<>>, wire |-> w0 + 1],
                   [name |-> p \o ".a.b.x", dims |-> <<>>, wire |-> w0 + 2], [name |-> p \o ".a.b.r", dims |-> <<n - 3>>, wire |-> w0 + 3] >>, 1, IF n < 4 THEN n ELSE 4)
  ELSE IF k = 0 THEN [j \in 1 .. n |-> [name |-> p \o ToString(j), dims |-> <<>>, wire |-> w0 + j - 1]]
  ELSE IF k = 1 /\ n % 2 = 0 THEN << [name |-> p, dims |-> <<n \div 2, 2>>, wire |-> w0] >>
  ELSE IF k = 2 /\ n > 1 THEN << [name |-> p, dims |-> <<>>, wire |-> w0], [name |-> p \o "x", dims |-> <<n - 1>>, wire |-> w0 + 1] >>
  ELSE << [name |-> p, dims |-> <<n>>, wire |-> w0] >>
Num(v) == [t |-> "n", v |-> v]
Leaf(a, w) == Num(a[w + 1])
ValOf(sg, a) == IF Len(sg.dims) = 0 THEN Leaf(a, sg.wire)
                ELSE IF Len(sg.dims) = 1 THEN [t |-> "a", e |-> [i \in 1 .. sg.dims[1] |-> Leaf(a, sg.wire + i - 1)]]
                ELSE [t |-> "a", e |-> [i \in 1 .. sg.dims[1] |-> [t |-> "a", e |-> [j \in 1 .. sg.dims[2] |-> Leaf(a, sg.wire + (i - 1) * sg.dims[2] + j - 1)]]]]
Mem(sg, a) == [key |-> sg.name, val |-> ValOf(sg, a)]
\* the same class written as nested objects (for a bus) or as it is
Obj(q) == [t |-> "o", e |-> q]
NestMem(p, sgs, a) ==
  IF Len(sgs) = 0 \/ sgs[1].name # p \o ".x" THEN [i \in 1 .. Len(sgs) |-> Mem(sgs[i], a)]
  ELSE LET M1(k, key) == IF Len(sgs) >= k THEN << [key |-> key, val |-> ValOf(sgs[k], a)] >> ELSE <<>>
           inner == M1(4, "r") \o M1(3, "x")
           mid == M1(2, "x") \o (IF inner = <<>> THEN <<>> ELSE << [key |-> "b", val |-> Obj(inner)] >>)
       IN << [key |-> p, val |-> Obj(M1(1, "x") \o (IF mid = <<>> THEN <<>> ELSE << [key |-> "a", val |-> Obj(mid)] >>))] >>
Rot(q, k) == IF Len(q) = 0 THEN q ELSE [i \in 1 .. Len(q) |-> q[((i + k - 1) % Len(q)) + 1]]
Elems(sg) == IF Len(sg.dims) = 0 THEN << [name |-> "main." \o sg.name, wire |-> sg.wire] >>
             ELSE IF Len(sg.dims) = 1 THEN [i \in 1 .. sg.dims[1] |-> [name |-> "main." \o sg.name \o "[" \o ToString(i - 1) \o "]", wire |-> sg.wire + i - 1]]
             ELSE [k \in 1 .. sg.dims[1] * sg.dims[2] |-> [name |-> "main." \o sg.name \o "[" \o ToString((k - 1) \div sg.dims[2]) \o "][" \o ToString((k - 1) % sg.dims[2]) \o "]", wire |-> sg.wire + k - 1]]
Case(s) ==
  LET nout == Rnd(s, 1, 3)  nin == Rnd(s, 2, 5)  prv0 == Rnd(s, 3, 4)  inn == IF prv0 = 0 THEN 1 + Rnd(s, 4, 2) ELSE Rnd(s, 4, 3)
      npub == nout + nin
      nw == 1 + npub + prv0 + inn
      a == [w \in 1 .. nw |-> IF w = 1 THEN 1 ELSE Val(s, 20 * w)]
      circ == [nout |-> nout, nin |-> nin, nprv |-> prv0, nw |-> nw, cons |-> [j \in 1 .. Rnd(s, 5, 5) |-> Con(s, 1000 * j, nw, a)]]
      so == Shape(s, 11, "o", 1, nout)   si == Shape(s, 12, "in", 1 + nout, nin)
      sp == Shape(s, 13, "p", 1 + npub, prv0)   st == Shape(s, 14, "c.t", 1 + npub + prv0, inn)
      pubs == so \o si
      doc == [i \in 1 .. Len(pubs) |-> Mem(pubs[i], a)]
      prvdoc == [i \in 1 .. Len(sp) |-> Mem(sp[i], a)]
      true == FlattenSeq([i \in 1 .. Len(pubs \o sp \o st) |-> Elems((pubs \o sp \o st)[i])])
      \* the file also mentions optimised-away signals, other roots, and an earlier line that is overridden
      noise == << [name |-> "main.gone", wire |-> -1], [name |-> "other.in", wire |-> 1], [name |-> "main.c.deep.in", wire |-> nw - 1] >>
      over == IF Len(true) = 0 THEN <<>> ELSE << [name |-> true[1 + Rnd(s, 15, Len(true))].name, wire |-> Rnd(s, 16, nw)] >>
      sym == (IF Rnd(s, 17, 2) = 0 THEN over ELSE <<>>) \o Rot(true \o noise, Rnd(s, 18, nw))
      unrelated == << [key |-> "unrelated", val |-> Num(7)], [key |-> "zz", val |-> [t |-> "a", e |-> <<Num(1), Num(2)>>]] >>
      drop == [i \in 1 .. Len(doc) |-> SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc))]
      near == [w \in 2 .. nw |-> [a EXCEPT ![w] = @ + 1 + Rnd(s, 500 + w, 5)]]
  IN [seed |-> s, circ |-> circ, asg |-> a, signals |-> pubs \o sp \o st, sym |-> sym,
      docs |-> <<doc, Rot(doc, 1 + Rnd(s, 30, 3)) \o unrelated, unrelated \o Reverse(doc) \o prvdoc>>,
      nested |-> << NestMem("o", so, a) \o NestMem("in", si, a), << [key |-> "more", val |-> Obj(<< [key |-> "a", val |-> Obj(NestMem("in", si, a))] >>)] >> \o NestMem("in", si, a) \o NestMem("o", so, a) >>,
      short |-> (IF Len(doc) > 0 THEN << drop[1 + Rnd(s, 31, Len(doc))], drop[Len(doc)] \o prvdoc, <<>> >> ELSE <<>>),
      near |-> [w \in 1 .. nw - 1 |-> near[w + 1]]]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1 .. N |-> Case((Base * 613 + i) % M)])
=======================================================================
