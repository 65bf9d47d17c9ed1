---------------------------- MODULE WkemMC ----------------------------
(* Exhaustive run of Wkem over F_3 and a pool of small circuits. *)
EXTENDS Wkem
L(S) == { <<>> } \cup { <<x>> : x \in S }
c1 == [npub |-> 1, nw |-> 3, cons |-> << << << <<2, 1>> >>, << <<2, 1>> >>, << <<1, 1>> >> >> >>]               \* x*x = y
c2 == [npub |-> 0, nw |-> 2, cons |-> << << << <<1, 1>> >>, << <<1, 1>>, <<0, 2>> >>, <<>> >> >>]                \* x*(x-1) = 0
c3 == [npub |-> 1, nw |-> 4, cons |-> << << << <<2, 1>>, <<3, 2>> >>, << <<0, 1>> >>, << <<1, 1>> >> >>,
                                         << << <<3, 1>> >>, << <<1, 2>> >>, << <<2, 1>> >> >> >>]
c4 == [npub |-> 1, nw |-> 3, cons |-> <<>>]
MCPool == {c1, c2, c3, c4}
=======================================================================
