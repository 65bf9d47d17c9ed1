---------------------------- MODULE Memory -----------------------------
(* The objects that callers of the JavaScript package hold: buffers, input documents, maps.  Every object
   (a handle) has a content; an operation reads the contents its arguments have at the time of the call,
   adds results as new objects and changes nothing else; what callers write into an object changes that
   object alone.  Contents are names: two objects hold equal data iff their contents have the same name.
   Documents [x, y] are for the circuits A (y * y = x) and B (2 * y = x), x public; the witness program P gives wires 1, 2 the values
   of x, y and the program Q, as long as P, those of y, x.  The symbol text s3 exchanges the two wires of s1.  Calls that overlap in time are as if made one after the other. *)
EXTENDS Integers, Sequences, TLC
Docs == [i1 |-> [x |-> 4, y |-> 2], i2 |-> [x |-> 9, y |-> 3], i3 |-> [x |-> 6, y |-> 3], i4 |-> [x |-> 5, y |-> 1], i5 |-> [x |-> 0, y |-> 0], i6 |-> [x |-> 1, y |-> 1], i7 |-> [x |-> 9, y |-> 4], i8 |-> [x |-> 2, y |-> 1]]
DocNames == DOMAIN Docs
CircNames == {"A", "B"}
\* the public and the private wire that program w computes from document d
Pub(w, d) == IF w = "P" THEN Docs[d].x ELSE Docs[d].y
Prv(w, d) == IF w = "P" THEN Docs[d].y ELSE Docs[d].x
Proves(c, w, d) == d \in DocNames /\ c \in CircNames /\ (IF c = "A" THEN Prv(w, d) * Prv(w, d) = Pub(w, d) ELSE 2 * Prv(w, d) = Pub(w, d))
NumP == [i1 |-> "num:i1", i2 |-> "num:i2", i3 |-> "num:i3", i4 |-> "num:i4", i5 |-> "num:i5", i6 |-> "num:i6", i7 |-> "num:i7", i8 |-> "num:i8"]
NumQ == [i1 |-> "mun:i1", i2 |-> "mun:i2", i3 |-> "mun:i3", i4 |-> "mun:i4", i5 |-> "num:i5", i6 |-> "num:i6", i7 |-> "mun:i7", i8 |-> "mun:i8"]
Maps == [s1 |-> "map:s1", s2 |-> "map:s2", s3 |-> "map:s3"]
Signals == ("map:s1" :> "sig:s1") @@ ("map:s2" :> "sig:s2") @@ ("map:s3" :> "sig:s3") @@ ("wiped" :> "wiped")
\* the value that an encapsulation with the symbol text s1 (v = "", "0", "1") or s3 (v = "3") records
Stmt(d, v) == IF v = "3" THEN Docs[d].y ELSE Docs[d].x
(* What an operation on contents gives: [out, res, learn] where res is the sequence of contents of the results - "*" for
   one never seen before - and learn says what the first new content is.  `made` is what is known about contents. *)
Err == [out |-> {"err"}, res |-> <<>>, learn |-> <<>>]
Ok(r) == [out |-> {"ok"}, res |-> r, learn |-> <<>>]
New(r, x) == [out |-> {"ok"}, res |-> r, learn |-> <<x>>]
Open == [out |-> {"ok", "err"}, res |-> <<"?">>, learn |-> <<>>]
Op(made, op, w, a, b, c, v) ==
  CASE op = "encap"   -> IF a \in CircNames /\ b \in DocNames THEN New(<<"*", "*">>, [is |-> "ct", c |-> a, d |-> b, m |-> "", pub |-> FALSE, x |-> Stmt(b, v)]) ELSE Err
    [] op = "encrypt" -> IF a \in CircNames /\ b \in DocNames THEN New(<<"*", "*">>, [is |-> "comb", c |-> a, d |-> b, m |-> c, pub |-> v # "0", x |-> Stmt(b, v)]) ELSE Err
    [] op = "decap"   -> IF b \notin DOMAIN made \/ made[b].is # "ct" \/ ~Proves(a, w, c) THEN Err
                         ELSE IF Pub(w, c) # made[b].x THEN Err
                         ELSE IF made[b].c # a THEN Open ELSE Ok(<<made[b].key>>)
    [] op = "decrypt" -> IF b \notin DOMAIN made \/ made[b].is # "comb" \/ ~Proves(a, w, c) THEN Err
                         ELSE IF Pub(w, c) # made[b].x THEN Err ELSE IF made[b].c # a THEN [Ok(<<made[b].m>>) EXCEPT !.out = {"ok", "err"}] ELSE Ok(<<made[b].m>>)
    [] op = "getpub"  -> IF a \in DOMAIN made /\ made[a].is = "comb" /\ made[a].pub THEN Ok(<<made[a].d>>) ELSE Err
    [] op = "enc"     -> New(<<"*">>, [is |-> "box", c |-> "", d |-> a, m |-> b, pub |-> FALSE, x |-> 0])
    [] op = "dec"     -> IF b \in DOMAIN made /\ made[b].is = "box" /\ made[b].d = a THEN Ok(<<made[b].m>>) ELSE Err
    [] op = "num"     -> IF a \in DocNames THEN Ok(<<NumP[a]>>) ELSE Err
    [] op = "arr"     -> IF a \in DocNames THEN Ok(<<IF w = "P" THEN NumP[a] ELSE NumQ[a]>>) ELSE Err
    [] op = "file"    -> LET k == "wtns" \o ":" \o (IF w = "P" THEN NumP[a] ELSE NumQ[a]) IN
                         IF a \notin DocNames THEN Err ELSE IF k \in DOMAIN made THEN Ok(<<made[k]>>) ELSE New(<<"*">>, [is |-> "wtns", c |-> "", d |-> a, m |-> "", pub |-> FALSE, x |-> 0])
    [] op \in {"bin", "wtns"} -> IF a \notin DocNames THEN Err
                         ELSE IF (op \o ":" \o NumP[a]) \in DOMAIN made THEN Ok(<<made[op \o ":" \o NumP[a]]>>) ELSE New(<<"*">>, [is |-> op, c |-> "", d |-> a, m |-> "", pub |-> FALSE, x |-> 0])
    [] op = "sym"     -> Ok(<<Maps[v]>>)
    [] op = "sig"     -> IF a \in DOMAIN Signals THEN Ok(<<Signals[a]>>) ELSE Open
\* the knowledge gained: the first new content was made by this operation, its key (if any) is the second
Learn(made, op, w, a, r, res) ==
  IF r.learn = <<>> THEN made
  ELSE IF op \in {"bin", "wtns", "file"} THEN ((r.learn[1].is \o ":" \o (IF op = "file" /\ w = "Q" THEN NumQ[a] ELSE NumP[a])) :> res[1]) @@ made
  ELSE (res[1] :> [is |-> r.learn[1].is, c |-> r.learn[1].c, d |-> r.learn[1].d, m |-> r.learn[1].m, pub |-> r.learn[1].pub, x |-> r.learn[1].x, key |-> IF Len(res) > 1 THEN res[2] ELSE ""]) @@ made
=======================================================================
