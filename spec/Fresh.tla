----------------------------- MODULE Fresh -----------------------------
(* Where randomness comes from and where it goes.  A random source never hands out the same value twice
   (its values are long).  Processes - runs of the command-line tool, instances of the JavaScript package -
   each draw from it directly or through a generator that they seed from it; every draw is used once. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, MaxDraw, MaxPub
VARIABLES next,   \* the source: values handed out so far are 1..next-1
          gen,    \* gen[p]: seed of the process's generator, 0 if it has none yet, and its position
          pub     \* published: [proc, kind, toks]
Draw(p) == IF gen[p].seed = 0 THEN <<"os", next>> ELSE <<"gen", gen[p].seed, gen[p].pos>>
vars == <<next, gen, pub>>
Init == next = 1 /\ gen = [p \in Procs |-> [seed |-> 0, pos |-> 0]] /\ pub = {}
Seed == \E p \in Procs : /\ next < MaxDraw
                         /\ gen' = [gen EXCEPT ![p] = [seed |-> next, pos |-> 0]] /\ next' = next + 1 /\ UNCHANGED pub
\* n draws of process p, as a sequence, with the new state
Toks(p, n) == [i \in 1 .. n |-> IF gen[p].seed = 0 THEN <<0, next + i - 1>> ELSE <<gen[p].seed, gen[p].pos + i - 1>>]
Use(p, n) == IF gen[p].seed = 0 THEN next' = next + n /\ UNCHANGED gen
             ELSE gen' = [gen EXCEPT ![p].pos = @ + n] /\ UNCHANGED next
Encap == \E p \in Procs : /\ Cardinality(pub) < MaxPub /\ next + gen[p].pos < MaxDraw
                          /\ pub' = pub \cup {[proc |-> p, kind |-> "encap", toks |-> Toks(p, 5)]} /\ Use(p, 5)
Encrypt == \E p \in Procs : /\ Cardinality(pub) < MaxPub /\ next + gen[p].pos < MaxDraw
                            /\ pub' = pub \cup {[proc |-> p, kind |-> "nonce", toks |-> Toks(p, 1)]} /\ Use(p, 1)
Next == Seed \/ Encap \/ Encrypt
\* C04: no value is used in two places
Rng(s) == { s[i] : i \in 1 .. Len(s) }
Once == \A x \in pub : /\ Cardinality(Rng(x.toks)) = Len(x.toks)
                       /\ \A y \in pub : x # y => Rng(x.toks) \cap Rng(y.toks) = {}
=======================================================================
