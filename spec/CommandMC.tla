--------------------------- MODULE CommandMC ----------------------------
(* Command checked on two small systems, the source of histories (simulation), and of the grid of all
   combinations of conditions of the files of one command. *)
EXTENDS Command, TLC, Json, IOUtils
CONSTANTS NP, NExt, Depth, MaxMean, MaxEnc
VARIABLES hist, last
N1(v) == [t |-> "n", v |-> v]
S1 == [circ |-> [nout |-> 0, nin |-> 1, nprv |-> 1, nw |-> 3, cons |-> << << << <<2, 1>> >>, << <<2, 1>> >>, << <<1, 1>> >> >> >>],
       sym |-> << [name |-> "main.x", wire |-> 1], [name |-> "main.y", wire |-> 2] >>,
       docs |-> << << [key |-> "x", val |-> N1(4)] >>, << [key |-> "y", val |-> N1(2)] >> >>, asgs |-> << <<1, 4, 2>>, <<1, 4, 3>>, <<1, 9, 3>> >>]
S2 == [S1 EXCEPT !.circ.cons = << << << <<2, 1>> >>, << <<0, 2>> >>, << <<1, 1>> >> >> >>, !.asgs = << <<1, 4, 2>>, <<1, 6, 3>> >>]
MCSys(s) == IF s = 1 THEN S1 ELSE S2
P == 1 .. NP
Files == P \ {NP - 1, NP}          \* NP - 1 is a directory, NP lies in a missing one
Kinds0 == { Mng(k, s, x, 0) : k \in {"doc", "wtns"}, s \in {1, 2}, x \in {1, 2} } \cup { Mng(k, s, 1, 0) : k \in {"r1cs", "sym"}, s \in {1, 2} }
          \cup { Mng("msg", 0, x, 0) : x \in {1, 2} } \cup { Mng(k, 0, 1, 0) : k \in {"bad", "empty"} }
Ext == <<Mng("r1cs", 1, 1, 0), Mng("sym", 1, 1, 0), Mng("doc", 1, 1, 0), Mng("wtns", 1, 1, 0), Mng("wtns", 1, 2, 0), Mng("bad", 0, 1, 0), Mng("msg", 0, 1, 0),
         Mng("empty", 0, 1, 0), Mng("doc", 1, 2, 0), Mng("r1cs", 2, 1, 0)>>
MCInit == /\ fs = [p \in P |-> IF p = NP THEN [t |-> "lost", c |-> 0] ELSE IF p = NP - 1 THEN [t |-> "dir", c |-> 0] ELSE Absent]
          /\ mean = (IF Depth = 0 THEN SubSeq(Ext, 1, NExt) ELSE <<>>) /\ encs = <<>> /\ hist = <<>> /\ last = [out |-> "", cmd |-> "", a |-> <<>>]
Log(x) == hist' = IF Depth = 0 THEN hist ELSE Append(hist, x)
Slots(cmd) == { Ins(cmd)[i] : i \in 1 .. Len(Ins(cmd)) } \cup { Outs(cmd)[i] : i \in 1 .. Len(Outs(cmd)) }
Exec(cmd, a) == \/ Succeed(cmd, a) /\ last' = [out |-> "ok", cmd |-> cmd, a |-> a]
                \/ Refuse(cmd, a) /\ last' = [out |-> "err", cmd |-> cmd, a |-> a]
                \/ \E w \in 0 .. 2 : Blocked(cmd, a, w) /\ last' = [out |-> "blocked", cmd |-> cmd, a |-> a]
Distinct(cmd, a) == cmd = "encap" => a.ciphertext # a.key
\* exhaustive, on a few files
Next == \/ /\ Len(mean) < MaxMean /\ Len(encs) < MaxEnc
           /\ \E cmd \in Cmds : \E a \in [Slots(cmd) -> P] : Distinct(cmd, a) /\ Exec(cmd, a) /\ UNCHANGED hist
        \/ \E p \in Files : \E c \in 1 .. Len(mean) : Place(p, c) /\ last' = [last EXCEPT !.out = "user"] /\ UNCHANGED hist
\* a failing command changes nothing, a successful one nothing but its outputs, and those completely
Quiet == [][/\ last'.out = "err" => fs' = fs
            /\ last'.out = "ok" => \A p \in DOMAIN fs : (\A s \in DOMAIN last'.a : last'.a[s] # p) => fs'[p] = fs[p]
            /\ last'.out = "ok" /\ last'.cmd = "decap" => mean'[fs'[last'.a.key].c].k = "key" /\ encs'[mean'[fs'[last'.a.key].c].e].key = fs'[last'.a.key].c
            /\ last'.out = "blocked" => \E s \in DOMAIN last'.a : fs[last'.a[s]].t \in {"dir", "lost"}]_<<fs, mean, encs, last>>
View == <<fs, mean, encs>>
\* random histories
Holding(k) == { p \in Files : K(p).k = k }
Pick(k) == IF Holding(k) # {} /\ RandomElement(1 .. 12) > 1 THEN RandomElement(Holding(k)) ELSE RandomElement(P)
PickOut == LET r == RandomElement(1 .. 20) IN IF r = 1 THEN 0 ELSE IF r = 2 THEN NP ELSE IF r = 3 THEN NP - 1 ELSE RandomElement(Files)
Arg(cmd, s) == IF \E i \in 1 .. Len(Outs(cmd)) : Outs(cmd)[i] = s THEN PickOut ELSE Pick(Wants(cmd, s))
SimRun == \E cmd \in {RandomElement(Cmds)} : \E a \in {TLCEval([s \in Slots(cmd) |-> Arg(cmd, s)])} :
          /\ (Distinct(cmd, a) /\ (Exec(cmd, a) \/ (Verdict(cmd, a) = "any" /\ UNCHANGED cvars /\ UNCHANGED last)))
          /\ Log([act |-> "run", cmd |-> cmd, a |-> a, path |-> 0, k |-> "", s |-> 0, x |-> 0])
Need == { k \in {"r1cs", "sym", "doc", "wtns", "msg"} : Holding(k) = {} }
Free == {p \in Files : fs[p].t = "none"}
SimPut == \E k \in {IF Need # {} /\ RandomElement(1 .. 4) > 1 THEN RandomElement(Need) ELSE RandomElement({"r1cs", "sym", "doc", "wtns", "msg", "bad", "empty"})} :
          \E m \in {TLCEval(Mng(k, IF RandomElement(1 .. 9) = 1 THEN 2 ELSE 1, IF RandomElement(1 .. 5) = 1 THEN 2 ELSE 1, 0))} :
          \E p \in {IF Free # {} /\ RandomElement(1 .. 3) > 1 THEN RandomElement(Free) ELSE RandomElement(Files)} :
          Create(p, m) /\ UNCHANGED last /\ Log([act |-> "put", cmd |-> "", a |-> <<>>, path |-> p, k |-> m.k, s |-> m.s, x |-> m.x])
SimRemove == \E p \in {RandomElement(Files)} : Wipe(p) /\ UNCHANGED last /\ Log([act |-> "remove", cmd |-> "", a |-> <<>>, path |-> p, k |-> "", s |-> 0, x |-> 0])
SimNext == (Depth = 0 \/ Len(hist) < Depth) /\ (UNCHANGED <<fs, mean, encs, hist, last>> \/ \E r \in {RandomElement(1 .. 20)} : IF (Need # {} /\ r <= 12) \/ r <= 3 THEN SimPut ELSE IF r = 20 THEN SimRemove ELSE SimRun)
Stop == hist # <<>>
Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
\* the grid over a fixed layout of files (1 r1cs, 2 r1cs of another system, 3 bad, 4 sym, 5 other sym, 6 bad sym, 7 doc, 8 doc without a
\* public value, 9 other doc, 10 bad doc, 11 wtns, 12 wtns that does not prove, 13 other wtns, 14 bad wtns, 15 msg, 16 empty, 17 ct, 18 comb,
\* 19 bad ct, 20 bad comb, 21 and 22 outputs, 23 absent, 24 dir, 25 lost, 0 full)
Cand(s) == CASE s = "circuit" -> {1, 2, 3, 7, 16, 23, 24} [] s = "sym" -> {4, 5, 6, 11, 16, 23, 24} [] s = "input" -> {7, 8, 9, 10, 16, 17, 23, 24} [] s = "witness" -> {1, 11, 12, 13, 14, 16, 23, 24}
             [] s = "ciphertext" -> {16, 17, 18, 19, 20, 23, 24} [] s = "message" -> {15, 16, 23, 24}
Good(cmd, s) == CASE s = "circuit" -> 1 [] s = "sym" -> 4 [] s = "input" -> 7 [] s = "witness" -> 11 [] s = "message" -> 15 [] OTHER -> IF cmd = "decap" THEN 17 ELSE 18
IO(cmd) == Slots(cmd)
Full(cmd, ins, outs) == [s \in IO(cmd) |-> IF \E i \in 1 .. Len(Outs(cmd)) : Outs(cmd)[i] = s THEN outs[CHOOSE i \in 1 .. Len(Outs(cmd)) : Outs(cmd)[i] = s] ELSE ins[s]]
InSet(cmd) == { Ins(cmd)[i] : i \in 1 .. Len(Ins(cmd)) }
InChoices(cmd) == { f \in [InSet(cmd) -> UNION { Cand(s) : s \in InSet(cmd) }] : \A s \in InSet(cmd) : f[s] \in Cand(s) }
GoodIns(cmd) == [s \in InSet(cmd) |-> Good(cmd, s)]
OutChoices(cmd) == IF cmd = "encap" THEN { <<x, y>> : x \in {21, 24, 25, 0}, y \in {22, 24, 25, 0} } ELSE { <<x>> : x \in {21, 23, 24, 25, 0} }
Grid == { [cmd |-> cmd, a |-> Full(cmd, f, <<21, 22>>)] : <<cmd, f>> \in UNION { { <<c, g>> : g \in InChoices(c) } : c \in Cmds } }
        \cup UNION { { [cmd |-> c, a |-> Full(c, GoodIns(c), o)] : o \in OutChoices(c) } : c \in Cmds }
        \* an output over an input, with good and bad inputs
        \cup UNION { { [cmd |-> c, a |-> Full(c, [GoodIns(c) EXCEPT ![s] = v], <<q, 22>>)] : v \in {Good(c, s), 3, 23}, q \in {v2 \in 1 .. 20 : \E z \in InSet(c) : v2 = Good(c, z)} } : <<c, s>> \in { <<c, s>> \in Cmds \X {"circuit", "sym", "input", "witness", "message", "ciphertext"} : s \in InSet(c) } }
ASSUME IOEnv.OUT # "" => ndJsonSerialize(IOEnv.OUT, SetToSeq(Grid))
=======================================================================
