--------------------------- MODULE StoreTrace ---------------------------
(* Recorded histories against Store: the events are its actions with the library that performed them and the outcome.
     start                                        a new history: all places are empty
     val   [id, text]                             the value id in full
     save, to [lib, kind, fmt, path / reg, v, out]
     load, from [lib, kind, fmt, path / reg, out, text]    text: the imported value in full
     put, take, cutfile, cuttext, remove          the user's steps
     savebad [out]                                an export to a path that cannot be written
     damage [out]                                 an import of damaged bytes: anything but a crash
     convert [r, s]                               a parsed circuit and its export, field by field *)
EXTENDS Store, TLC, Json, IOUtils
VARIABLES l, vi, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
tvars == <<l, vi, n, files, texts, res>>
Keep == UNCHANGED <<vi, n>>
Start == ev.ev = "start" /\ files' = [p \in Paths |-> Nothing] /\ texts' = [r \in Regs |-> Nothing] /\ res' = None /\ Keep
Value == ev.ev = "val" /\ vi' = [vi EXCEPT ![ev.id] = l] /\ UNCHANGED <<files, texts, res, n>>
Got == /\ ev.out \in {"ok", "err"}
       /\ res'.v > 0 => ev.out = "ok" /\ ev.text = Trace[vi[res'.v]].text
       /\ res'.v = 0 => ev.out = "err"
       /\ n' = IF res'.v > 0 THEN [n EXCEPT ![1] = @ + 1] ELSE IF res'.v = 0 THEN [n EXCEPT ![2] = @ + 1] ELSE [n EXCEPT ![3] = @ + 1]
       /\ UNCHANGED vi
Step == \/ ev.ev = "save" /\ ev.out = "ok" /\ Save(ev.kind, ev.fmt, ev.path, ev.v) /\ Keep
        \/ ev.ev = "to" /\ ev.out = "ok" /\ ToText(ev.kind, ev.fmt, ev.reg, ev.v) /\ Keep
        \/ ev.ev = "load" /\ Load(ev.kind, ev.fmt, ev.path) /\ Got
        \/ ev.ev = "from" /\ FromText(ev.kind, ev.fmt, ev.reg) /\ Got
        \/ ev.ev = "put" /\ Put(ev.path, ev.reg) /\ Keep
        \/ ev.ev = "take" /\ Take(ev.reg, ev.path) /\ Keep
        \/ ev.ev = "cutfile" /\ CutFile(ev.path) /\ Keep
        \/ ev.ev = "cuttext" /\ CutText(ev.reg) /\ Keep
        \/ ev.ev = "remove" /\ Remove(ev.path) /\ Keep
        \/ ev.ev = "savebad" /\ ev.out = "err" /\ SaveFails /\ Keep
        \/ ev.ev = "damage" /\ ev.out \in {"ok", "err"} /\ UNCHANGED <<files, texts, res, vi, n>>
        \/ ev.ev = "convert" /\ ev.r = ev.s /\ UNCHANGED <<files, texts, res, vi>> /\ n' = [n EXCEPT ![4] = @ + 1]
TInit == Init /\ l = 1 /\ vi = [v \in Vals |-> 0] /\ n = <<0, 0, 0, 0>>
TNext == l <= Len(Trace) /\ (Start \/ Value \/ Step) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
