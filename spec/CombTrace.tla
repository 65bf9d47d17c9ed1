--------------------------- MODULE CombTrace ----------------------------
(* Recorded outcomes of opening damaged combined ciphertexts against the layout of Combined.
     base [bytes, msg, embed, text, goods]               a good ciphertext and what was put into it; further good ones
                                                         [bytes, msg] for the same witness, that splices draw from
     dec  [tool, cut, at, vals, app, out, msg]           decryption of a damaged copy with a proof of its statement
     val  [out, text]                                    extraction from the good ciphertext
     pub  [cut, at, vals, app, out, text, o, n, dtext]   extraction of the public inputs; dtext is the value of the
                                                         n bytes from o on, where the layout places them
   out: ok, err; a crash, a hang or an output left behind by a failure never is allowed. *)
EXTENDS Combined, SequencesExt, TLC, Json, IOUtils
B == INSTANCE Bin
VARIABLES l, bi, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
base == Trace[bi]
Base == ev.ev = "base" /\ bi' = l /\ UNCHANGED n
Dec == /\ ev.ev = "dec" /\ ev.out \in {"ok", "err"}
       /\ LET d == B!Damaged(base.bytes, ev)
           goods == {[bytes |-> base.bytes, msg |-> base.msg]} \cup ToSet(base.goods)
           may == { g \in goods : ~MustFail(g.bytes, d) } IN      \* the messages d may still carry
            /\ ev.out = "ok" => \E g \in may : ev.msg = g.msg
            /\ d = base.bytes => ev.out = "ok"
            /\ n' = IF d = base.bytes THEN [n EXCEPT ![1] = @ + 1] ELSE IF may = {} THEN [n EXCEPT ![2] = @ + 1] ELSE [n EXCEPT ![3] = @ + 1]
       /\ UNCHANGED bi
Pub == /\ ev.ev = "pub" /\ ev.out \in {"ok", "err"}
       /\ LET d == B!Damaged(base.bytes, ev) IN
            IF NoDoc(d) THEN ev.out = "err" /\ n' = [n EXCEPT ![4] = @ + 1]
            ELSE LET p == Parse(As(d, 1)) IN
                 /\ Assert(p.d0 = ev.o /\ p.dlen = ev.n, "harness: the document is elsewhere")
                 /\ d[1] = 1 /\ Part(d, p.d0, p.dlen) = Doc(base.bytes) /\ base.embed => ev.out = "ok" /\ ev.text = base.text
                 /\ ev.out = "ok" => ev.text = ev.dtext
                 /\ n' = [n EXCEPT ![5] = @ + 1]
       /\ UNCHANGED bi
\* the value extracted from an undamaged ciphertext
Val == /\ ev.ev = "val" /\ (IF base.embed THEN ev.out = "ok" /\ ev.text = base.text ELSE ev.out = "err")
       /\ UNCHANGED bi /\ n' = [n EXCEPT ![1] = @ + 1]
Init == l = 1 /\ bi = 0 /\ n = <<0, 0, 0, 0, 0>>
Next == l <= Len(Trace) /\ (Base \/ Dec \/ Pub \/ Val) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
