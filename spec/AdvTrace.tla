---------------------------- MODULE AdvTrace ----------------------------
(* What the real code publishes, judged by Adversary.
     runs  [g1, g2, num, s, secret]   encapsulations of one circuit over the toy field; every derivation is printed
     pair  [a, b, ka, kb]             published bytes and keys of two runs that differ in the secret only
     pub   [what, pub, bare, sec]     published bytes, the secrets [n, b, w]: no part of w bytes of b occurs in it
     nums  [pub, sec, known]          a ciphertext and the encodings of its secret numbers; known[i]: how many published group
                                      elements have that exponent (the stand-in encodes an element by its exponent)
     cand  [key, cand]                a key and the keys that an attacker would guess *)
EXTENDS Adversary, TLC, Json, IOUtils
VARIABLES l, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Found(x) == PrintT(<<"DERIVED", l>> \o x)
Note(k) == n' = [n EXCEPT ![k] = @ + 1]
Runs1 == /\ ev.ev = "runs"
         /\ (\A x \in Single(ev.g1, ev.g2, ev.num, ev.s) : Found(x)) = TRUE
         /\ Double(ev.g1, ev.g2, ev.s) = {}
         /\ Opened(ev.num, ev.secret) = {}
         /\ ~Constant(ev.s) /\ Note(1)
Pair == ev.ev = "pair" /\ ev.a = ev.b /\ ev.ka = ev.kb /\ Note(2)
Pub == ev.ev = "pub" /\ (\A i \in 1 .. Len(ev.sec) : ~Occurs(ev.sec[i].b, ev.pub, ev.sec[i].w)) = TRUE /\ Note(3)
Nums == ev.ev = "nums" /\ (\A i \in 1 .. Len(ev.sec) : Count(ev.pub, ev.sec[i]) <= ev.known[i]) = TRUE /\ Note(4)
Cand == ev.ev = "cand" /\ (\A i \in 1 .. Len(ev.cand) : ev.cand[i][2] # ev.key \/ Found(<<ev.cand[i][1], "hashed">>)) = TRUE /\ Note(5)
Init == l = 1 /\ n = [i \in 1 .. 5 |-> 0]
Next == l <= Len(Trace) /\ (Runs1 \/ Pair \/ Pub \/ Nums \/ Cand) /\ l' = l + 1
Keep == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
