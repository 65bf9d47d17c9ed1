-------------------------- MODULE CommandTrace --------------------------
(* Recorded histories of the command-line tool against Command.
     start  [n, dir, lost]              a new history: n paths, the sets of paths that are directories / in missing ones
     put    [path, id, m]               the user writes content id, meaning m when it is new
     remove [path]
     run    [cmd, a, out, fs, top]      a run: its arguments, its outcome and what every path holds afterwards; top: the largest content number
     usage  [out, fs, top]              a run with a wrong command line *)
EXTENDS Command, TLC, Json, IOUtils
VARIABLES l, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
AllSys == ndJsonDeserialize(IOEnv.SYS)
TSys(s) == AllSys[s]
ev == Trace[l]
Keep == UNCHANGED n
After == fs' = ev.fs /\ ev.top = Len(mean')
Start == /\ ev.ev = "start" /\ fs' = [p \in 1 .. ev.n |-> IF p \in {ev.lost[i] : i \in DOMAIN ev.lost} THEN [t |-> "lost", c |-> 0] ELSE IF p \in {ev.dir[i] : i \in DOMAIN ev.dir} THEN [t |-> "dir", c |-> 0] ELSE Absent]
         /\ mean' = <<>> /\ encs' = <<>> /\ Keep
PutE == ev.ev = "put" /\ (IF ev.id > Len(mean) THEN ev.id = New(1) /\ Create(ev.path, ev.m) ELSE Place(ev.path, ev.id)) /\ Keep
RemoveE == ev.ev = "remove" /\ Wipe(ev.path) /\ Keep
Cnt(i) == n' = [n EXCEPT ![i] = @ + 1] /\ TRUE
Failed == ev.out \in {"err", "crash"}
RunE == /\ ev.ev = "run"
        /\ \/ ev.out = "ok" /\ Succeed(ev.cmd, ev.a) /\ After /\ Cnt(1)
           \/ Failed /\ Refuse(ev.cmd, ev.a) /\ After /\ Cnt(2)
           \/ Failed /\ (\E w \in 0 .. 2 : Blocked(ev.cmd, ev.a, w)) /\ After /\ Cnt(3)
           \* a run about which nothing is promised, or that writes nothing to a device that takes no data: still only outputs may change
           \/ /\ Verdict(ev.cmd, ev.a) = "any" \/ (ev.cmd = "decrypt" /\ Verdict(ev.cmd, ev.a) = "ok" /\ ev.a.output = 0 /\ mean[encs[K(ev.a.ciphertext).e].msg].k = "empty")
              /\ ev.out = "ok" \/ (Failed /\ ev.fs = fs)
              /\ \A p \in DOMAIN fs : (\A i \in 1 .. Len(Outs(ev.cmd)) : Out(ev.cmd, ev.a, i) # p) => ev.fs[p] = fs[p]
              /\ fs' = ev.fs /\ encs' = encs /\ mean' = mean \o [i \in 1 .. ev.top - Len(mean) |-> Mng("orphan", 0, 0, 0)] /\ Cnt(4)
UsageE == ev.ev = "usage" /\ Failed /\ Usage /\ After /\ Cnt(5)
TInit == fs = <<>> /\ mean = <<>> /\ encs = <<>> /\ l = 1 /\ n = <<0, 0, 0, 0, 0>>
TNext == l <= Len(Trace) /\ (Start \/ PutE \/ RemoveE \/ RunE \/ UsageE) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
