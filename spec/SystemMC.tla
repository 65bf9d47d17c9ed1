---------------------------- MODULE SystemMC ----------------------------
(* Exhaustive run of System over small systems. *)
EXTENDS System
n(v) == [t |-> "n", v |-> v]
arr(s) == [t |-> "a", e |-> s]
m(k, v) == [key |-> k, val |-> v]
L(name, w) == [name |-> name, wire |-> w]
\* p*p = out + in, one output, one input, one private input
s1 == [circ |-> [nout |-> 1, nin |-> 1, nprv |-> 1, nw |-> 4, cons |-> << << << <<3, 1>> >>, << <<3, 1>> >>, << <<1, 1>>, <<2, 1>> >> >> >>],
       sym |-> << L("main.in", 0), L("main.p", 3), L("main.in", 2), L("main.gone", -1), L("main.out", 1), L("x.in", 1) >>,
       docs |-> << <<m("in", n(3)), m("out", n(1))>>, <<m("p", n(2)), m("zz", n(9)), m("out", n(0)), m("in", n(4))>>, <<m("out", n(1))>>, <<m("in", n(3)), m("p", n(2))>> >>,
       asgs |-> << <<1, 1, 3, 2>>, <<1, 1, 3, -2>>, <<1, 0, 4, 2>>, <<1, 0, 4, 1>>, <<1, 1, 4, 2>>, <<1, 3, 1, 2>>, <<1, 1, 3>> >>]
\* an array of two public inputs, one private bit
s2 == [circ |-> [nout |-> 0, nin |-> 2, nprv |-> 1, nw |-> 4, cons |-> << << << <<3, 1>> >>, << <<3, 1>>, <<0, -1>> >>, <<>> >>, << << <<1, 1>> >>, << <<3, 1>> >>, << <<2, 1>> >> >> >>],
       sym |-> << L("main.a[0]", 1), L("main.a[1]", 2), L("main.b", 3) >>,
       docs |-> << <<m("a", arr(<<n(5), n(5)>>))>>, <<m("a", arr(<<n(5), n(0)>>)), m("b", n(0))>>, <<m("a", arr(<<n(5)>>))>> >>,
       asgs |-> << <<1, 5, 5, 1>>, <<1, 5, 0, 0>>, <<1, 5, 5, 0>>, <<1, 5, 0, 1>>, <<1, 5, 10, 2>> >>]
MCSystems == {s1, s2}
MCOne == {s2}
=======================================================================
