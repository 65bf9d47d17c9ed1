--------------------------- MODULE SealTrace ----------------------------
(* Recorded encryptions and decryptions of both implementations against Sealing.
     key   [bytes]                                      the key of the following events (of any length)
     base  [bytes]                                      the data that openings damage
     seal  [tool, mode, msg, out, bytes]                an encryption
     open  [tool, mode, cut, at, vals, app, out, msg]   a decryption of a damaged (or untouched) copy of the base
     round [mode, tool, by, mlen, clen, sent, out, got] encryption by `tool`, decryption by `by` of a message too large
                                                        to be recorded: digests and lengths
   mode: gcm, ctr; out: ok, err - never a crash. *)
EXTENDS Sealing, TLC, Json, IOUtils
B == INSTANCE Bin
VARIABLES l, bi, rk, T, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
base == Trace[bi].bytes
good == rk # <<>>
Over(mode) == IF mode = "gcm" THEN 28 ELSE 16
K == /\ ev.ev = "key"
     /\ rk' = (IF Len(ev.bytes) = 32 THEN Expand(ev.bytes) ELSE <<>>)
     /\ T' = (IF Len(ev.bytes) = 32 /\ ev.gcm THEN HTable(rk') ELSE <<>>)
     /\ UNCHANGED <<bi, n>>
Base == ev.ev = "base" /\ bi' = l /\ UNCHANGED <<rk, T, n>>
Sealed(e) == /\ Len(e.bytes) = Len(e.msg) + Over(e.mode)
             /\ IF e.mode = "gcm" THEN e.bytes = SubSeq(e.bytes, 1, 12) \o GcmSeal(rk, T, SubSeq(e.bytes, 1, 12), e.msg)
                ELSE e.bytes = CtrSealed(rk, SubSeq(e.bytes, 1, 16), e.msg)
Seal == /\ ev.ev = "seal"
        /\ IF good THEN ev.out = "ok" /\ Sealed(ev) ELSE ev.out = "err"
        /\ n' = [n EXCEPT ![1] = @ + 1] /\ UNCHANGED <<bi, rk, T>>
Open == /\ ev.ev = "open"
        /\ LET d == B!Damaged(base, ev)
               r == IF ~good \/ Len(d) < Over(ev.mode) THEN [ok |-> FALSE, msg |-> <<>>]
                    ELSE IF ev.mode = "gcm" THEN GcmOpen(rk, T, d) ELSE [ok |-> TRUE, msg |-> CtrOpened(rk, d)]
           IN /\ ev.out = (IF r.ok THEN "ok" ELSE "err")
              /\ r.ok => ev.msg = r.msg
              /\ n' = IF r.ok THEN [n EXCEPT ![2] = @ + 1] ELSE [n EXCEPT ![3] = @ + 1]
        /\ UNCHANGED <<bi, rk, T>>
Round == /\ ev.ev = "round" /\ ev.out = "ok" /\ ev.got = ev.sent /\ ev.clen = ev.mlen + Over(ev.mode)
         /\ n' = [n EXCEPT ![4] = @ + 1] /\ UNCHANGED <<bi, rk, T>>
Init == l = 1 /\ bi = 0 /\ rk = <<>> /\ T = <<>> /\ n = <<0, 0, 0, 0>>
Next == l <= Len(Trace) /\ (K \/ Base \/ Seal \/ Open \/ Round) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
