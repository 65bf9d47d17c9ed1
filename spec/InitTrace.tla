--------------------------- MODULE InitTrace ----------------------------
(* Recorded schedules against Init: what the module and the callers observe, in the order in which it happened.
     start, call [who, kind], init_start, init_ok, init_bad, op [who, op, ok, w, c], done [who, res], fail [who], end, hang
   w and c say from whose arguments the operation's witness and ciphertext were made; res likewise for the result. *)
EXTENDS Init, Sequences, TLC, Json, IOUtils
VARIABLES l, kind, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Keep == UNCHANGED <<kind, n>>
Wants(k) == IF k \in {"encap", "encrypt"} THEN "encap" ELSE "decap"
Start == ev.ev = "start" /\ ini' = "none" /\ starts' = 0 /\ st' = [c \in Callers |-> "idle"] /\ bad' = [c \in Callers |-> FALSE] /\ kind' = [c \in Callers |-> ""] /\ n' = [n EXCEPT ![1] = @ + 1]
Step == \/ ev.ev = "call" /\ Call(ev.who) /\ kind' = [kind EXCEPT ![ev.who] = ev.kind] /\ UNCHANGED n
        \/ ev.ev = "init_start" /\ InitStart /\ Keep
        \/ ev.ev = "init_ok" /\ InitOk /\ Keep
        \/ ev.ev = "init_bad" /\ InitBad /\ Keep
        \/ ev.ev = "op" /\ ev.who \in Callers /\ Op(ev.who, ev.ok) /\ ev.op = Wants(kind[ev.who]) /\ ev.w = ev.who /\ ev.c = ev.who /\ UNCHANGED kind /\ n' = [n EXCEPT ![2] = @ + 1]
        \/ ev.ev = "done" /\ Done(ev.who) /\ (\A i \in DOMAIN ev.res : ev.res[i] = ev.who) /\ Len(ev.res) > 0 /\ UNCHANGED kind /\ n' = [n EXCEPT ![3] = @ + 1]
        \/ ev.ev = "fail" /\ Fail(ev.who) /\ UNCHANGED kind /\ n' = [n EXCEPT ![4] = @ + 1]
        \/ ev.ev = "end" /\ Settled /\ UNCHANGED ivars /\ Keep
TInit == IInit /\ l = 1 /\ kind = [c \in Callers |-> ""] /\ n = <<0, 0, 0, 0>>
TNext == l <= Len(Trace) /\ (Start \/ Step) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
