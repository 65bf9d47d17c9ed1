---------------------------- MODULE MemGen -----------------------------
(* Generates sessions: sequences of steps over objects 1..5 (circuit, document, message, key, witness program) and the results of
   earlier steps.  ty is the sequence of the kinds of all objects. *)
EXTENDS ZCircuits, TLC, Json, IOUtils, FiniteSets
CONSTANTS N, Base, Len0
Kinds == <<"circ", "doc", "msg", "key", "prog">>
Of(ty, k) == { h \in 1 .. Len(ty) : ty[h] = k }
RECURSIVE Nth(_, _)
Nth(S, i) == LET m == CHOOSE x \in S : \A y \in S : y <= x IN IF i = 0 THEN m ELSE Nth(S \ {m}, i - 1)
\* Half of the sessions keep to a few operations, so that the same objects serve them again and again.
Focus == << {}, {}, {}, {}, {}, {0, 4, 7, 8, 20, 21}, {0, 5, 6, 9, 10, 11, 20, 21}, {0, 13, 14, 24, 21}, {0, 15, 16, 22, 23, 20}, {1, 13, 14, 24} >>
Group0(s) == Focus[1 + Rnd(s, 9, 10)]
\* one of the objects of a kind, the recent ones more often (in a session that keeps to a few operations, the first one); 0 if there is none
Pick(ty, k, s, i) == LET S == Of(ty, k) IN IF S = {} THEN 0 ELSE IF Group0(s) # {} /\ Rnd(s, i + 70, 2) = 0 THEN Nth(S, Cardinality(S) - 1) ELSE Nth(S, Rnd(s, i, 1 + Rnd(s, i + 50, Cardinality(S))))
Res == [encap |-> <<"ct", "key">>, encrypt1 |-> <<"comb1", "key">>, encrypt3 |-> <<"comb1", "key">>, encrypt0 |-> <<"comb0", "key">>, decap |-> <<"key">>, decrypt |-> <<"msg">>, getpub |-> <<"doc">>, enc |-> <<"box">>, dec |-> <<"msg">>,
        num |-> <<"num">>, arr |-> <<"num">>, file |-> <<"wtns">>, bin |-> <<"bin">>, wtns |-> <<"wtns">>, sym |-> <<"map">>, sig |-> <<"sig">>]
Call(op, a, b, c, v) == [g |-> 0, ev |-> "call", op |-> op, a |-> a, b |-> b, c |-> c, v |-> v, k |-> Len(Res[IF op = "encrypt" THEN op \o v ELSE op]), ty |-> Res[IF op = "encrypt" THEN op \o v ELSE op]]
Write(w, a, b, v) == [g |-> 0, ev |-> w, op |-> "", a |-> a, b |-> b, c |-> 0, v |-> v, k |-> 0, ty |-> <<>>]
Docs8 == <<"i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8">>
Set(s, i) == LET k == IF Group0(s) = Focus[8] \/ Group0(s) = Focus[10] THEN 6 ELSE Rnd(s, i, 8) IN
  IF k < 2 THEN Write("set", 1, 0, <<"A", "B">>[1 + Rnd(s, i + 1, 2)]) ELSE IF k < 4 THEN Write("set", 2, 0, Docs8[1 + Rnd(s, i + 1, 8)])
  ELSE IF k < 5 THEN Write("set", 3, 0, <<"m1", "m2">>[1 + Rnd(s, i + 1, 2)]) ELSE IF k < 6 THEN Write("set", 5, 0, <<"P", "P", "Q">>[1 + Rnd(s, i + 1, 3)]) ELSE Write("set", 4, 0, <<"k1", "k2">>[1 + Rnd(s, i + 1, 2)])
Step(ty, s, i) ==
  LET k == IF Group0(s) = {} THEN Rnd(s, i, 24) ELSE LET t == Rnd(s, i, Cardinality(Group0(s)) + 1) IN IF t = Cardinality(Group0(s)) THEN 0 ELSE Nth(Group0(s), t)
      p(x, j) == Pick(ty, x, s, i + j)  comb(j) == Pick(ty, IF Rnd(s, i + 90, 3) = 0 THEN "comb0" ELSE "comb1", s, i + j)
      kinds == <<"doc", "msg", "key", "ct", "comb1", "comb0", "box", "num", "bin", "wtns", "map", "sig", "ct", "comb1", "box", "key">>
      some == IF Group0(s) = {} THEN kinds ELSE IF 4 \in Group0(s) THEN <<"ct", "ct", "circ", "doc">> ELSE IF 5 \in Group0(s) THEN <<"comb1", "comb0", "circ", "doc", "msg">>
              ELSE IF 13 \in Group0(s) THEN <<"key", "box", "msg">> ELSE <<"doc", "num", "bin", "wtns">>
      kd == some[1 + Rnd(s, i + 60, Len(some))]
      d == p("doc", 1)
      st == CASE k < 4 -> Set(s, i + 200)
              [] k = 4 -> Call("encap", 1, d, 0, <<"", "", "3">>[1 + Rnd(s, i + 3, 3)])
              [] k = 5 -> Call("encrypt", 1, d, p("msg", 2), <<"1", "1", "3">>[1 + Rnd(s, i + 3, 3)])
              [] k = 6 -> Call("encrypt", 1, d, p("msg", 2), ToString(Rnd(s, i + 3, 2)))
              [] k \in {7, 8} -> Call("decap", 1, p("ct", 4), d, "")
              [] k \in {9, 10} -> Call("decrypt", 1, comb(4), d, "")
              [] k \in {11, 12} -> Call("getpub", comb(4), 0, 0, "")
              [] k = 13 -> Call("enc", p("key", 4), p("msg", 5), 0, "")
              [] k \in {14, 24} -> Call("dec", p("key", 4), p("box", 5), 0, "")
              [] k = 15 -> Call("num", d, 0, 0, "")
              [] k = 16 -> Call(<<"bin", "wtns">>[1 + Rnd(s, i + 6, 2)], d, 0, 0, "")
              [] k = 17 -> Call("sym", 0, 0, 0, <<"s1", "s2", "s3">>[1 + Rnd(s, i + 6, 3)])
              [] k = 18 -> Call("sig", p("map", 4), 0, 0, "")
              [] k = 22 -> Call("arr", d, 0, 0, "")
              [] k = 23 -> Call("file", d, 0, 0, "")
              [] k \in {19, 20} -> Write("wipe", p(kd, 4), 0, "")
              [] OTHER -> Write("copy", p(kd, 4), p(kd, 5), "")
      needs == CASE st.ev = "set" -> TRUE [] st.ev = "wipe" -> st.a \notin {0, 5} [] st.ev = "copy" -> st.a # 0 /\ st.b > 5 /\ st.a # st.b
                 [] st.op \in {"decap", "decrypt", "dec"} -> st.b # 0 [] st.op \in {"getpub", "sig"} -> st.a # 0 [] OTHER -> TRUE
  IN IF needs THEN st ELSE Set(s, i + 300)
\* some calls overlap: g counts those that are still to be started with this one (their arguments exist already)
RECURSIVE Group(_, _, _, _)
Group(ty, s, i, k) == LET st == Step(ty, s, 1000 * i + 499 * k) IN IF st.ev = "call" THEN <<st>> \o (IF k = 0 THEN <<>> ELSE Group(ty, s, i, k - 1)) ELSE IF k = 0 THEN <<>> ELSE Group(ty, s, i, k - 1)
RECURSIVE Steps(_, _, _)
Steps(ty, s, i) ==
  IF i > Len0 THEN <<>>
  ELSE IF Rnd(s, 1000 * i + 700, 4) = 0
       THEN LET q == Group(ty, s, i, 1 + Rnd(s, 1000 * i + 701, 3)) IN [j \in 1 .. Len(q) |-> [q[j] EXCEPT !.g = Len(q) - j]] \o Steps(FoldLeft(LAMBDA acc, x : acc \o x.ty, ty, q), s, i + 1)
       ELSE LET st == Step(ty, s, 1000 * i) IN <<st>> \o Steps(ty \o st.ty, s, i + 1)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1 .. N |-> [seed |-> (Base * 613 + i) % M, steps |-> Steps(Kinds, (Base * 613 + i) % M, 1)]])
=======================================================================
