--------------------------- MODULE FreshTrace ---------------------------
(* Recorded histories against Fresh: the published draws of each kind, over all processes, never repeat;
   an encapsulation is a function of its inputs and of the state of its source.
     draws  [kind, toks]         what was published by one process, in order
     bytes  [kind, rows]         the draws of one process (or of processes in a row), as bytes, in order
     pair   [same, a, b, ka, kb] two encapsulations of the same inputs; same = equal source states *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise
VARIABLES l, seen
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Rng(s) == { s[i] : i \in 1 .. Len(s) }
Seen(k) == IF k \in DOMAIN seen THEN seen[k] ELSE {}
Draws == /\ ev.ev = "draws"
         /\ LET T == Rng(ev.toks) IN /\ Cardinality(T) = Len(ev.toks)
                                     /\ T \cap Seen(ev.kind) = {}
                                     /\ seen' = (ev.kind :> (Seen(ev.kind) \cup T)) @@ seen
Pair == /\ ev.ev = "pair"
        /\ IF ev.same THEN ev.a = ev.b /\ ev.ka = ev.kb ELSE ev.ka # ev.kb /\ \A i \in 1 .. Len(ev.a) : ev.a[i] # ev.b[i]
        /\ UNCHANGED seen
\* a byte of a draw is independent of the bytes before it and of the bytes of the draw before: no bit, no difference
\* and no exclusive or of two of them takes one value in much more than its share of the draws
\* (R rows: a bit is expected R/2 times, a byte R/256 times)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Often(f) == Max({ Cardinality({ k \in DOMAIN f : f[k] = x }) : x \in { f[k] : k \in DOMAIN f } })
Rows == ev.rows
R == Len(Rows)
W == Len(Rows[1])
Bit(b, j) == (b \div 2 ^ j) % 2
Level(f) == LET n == Cardinality({ k \in DOMAIN f : f[k] = 1 }) IN n * 5 > R /\ n * 5 < R * 4
Spread(f) == Often(f) * 8 < R
Bytes == /\ ev.ev = "bytes"
         /\ R >= 100
         /\ ( \A i \in 1 .. W, j \in 0 .. 7 : Level([k \in 1 .. R |-> Bit(Rows[k][i], j)]) ) = TRUE
         /\ ( \A i \in 1 .. W, j \in 0 .. 7 : Level([k \in 2 .. R |-> (Bit(Rows[k][i], j) + Bit(Rows[k - 1][i], j)) % 2]) ) = TRUE
         /\ ( \A i \in 1 .. W : Spread([k \in 2 .. R |-> (Rows[k][i] - Rows[k - 1][i] + 256) % 256]) ) = TRUE
         /\ ( \A i \in 2 .. W : \A h \in 1 .. i - 1 : Spread([k \in 1 .. R |-> (Rows[k][i] - Rows[k][h] + 256) % 256]) /\ Spread([k \in 1 .. R |-> Rows[k][i] ^^ Rows[k][h]]) ) = TRUE
         /\ UNCHANGED seen
Init == l = 1 /\ seen = <<>>
Next == l <= Len(Trace) /\ (Draws \/ Bytes \/ Pair) /\ l' = l + 1
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT("TRACE-OK") ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
