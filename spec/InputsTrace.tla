-------------------------- MODULE InputsTrace ---------------------------
(* Recorded loadings of input documents against JsonText.
     base [bytes]                                a document
     load [cut, at, vals, app, out, val]         a damaged (or untouched) copy was loaded; val: sequence of [key, values]
     series [rows, cols, names, out, val]        a long document was loaded: names signals with rows arrays of cols numbers
                                                 (no rows: cols numbers) each, the numbers being the multiples of 7
     file [out]                                  the path leads to no readable file *)
EXTENDS JsonText, TLC, Json, IOUtils
B == INSTANCE Bin
VARIABLES l, bi, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
base == Trace[bi].bytes
Base == ev.ev = "base" /\ bi' = l /\ UNCHANGED n
Load == /\ ev.ev = "load" /\ ev.out \in {"ok", "err"}
        /\ LET r == Document(B!Damaged(base, ev)) IN
             IF r.st = "bad" \/ r.v.k # "o" THEN ev.out = "err" /\ n' = [n EXCEPT ![1] = @ + 1]
             ELSE /\ r.st = "ok" => ev.out = "ok"
                  /\ r.st = "ok" => LET E == Entries(r.v.m) IN
                       /\ Len(ev.val) = Cardinality(E)
                       /\ \A e \in E : \E i \in 1 .. Len(ev.val) : ev.val[i][1] = e[1] /\ (HasObj(e[2]) \/ ev.val[i][2] = Scalars(e[2]))
                  /\ n' = IF r.st = "ok" THEN [n EXCEPT ![2] = @ + 1] ELSE [n EXCEPT ![3] = @ + 1]
        /\ UNCHANGED bi
\* number t (from 0) of signal s (from 0)
Multiple(s, t) == 7 * (s + t)
Series == /\ ev.ev = "series" /\ ev.out = "ok" /\ Len(ev.val) = ev.names
          /\ LET size == (IF ev.rows = 0 THEN 1 ELSE ev.rows) * ev.cols
             IN (\A s \in 1 .. ev.names : Len(ev.val[s]) = size /\ \A t \in 1 .. size : ev.val[s][t] = Multiple(s - 1, t - 1)) = TRUE
          /\ n' = [n EXCEPT ![2] = @ + 1] /\ UNCHANGED bi
File == ev.ev = "file" /\ ev.out = "err" /\ UNCHANGED <<bi, n>>
Init == l = 1 /\ bi = 0 /\ n = <<0, 0, 0>>
Next == l <= Len(Trace) /\ (Base \/ Load \/ Series \/ File) /\ l' = l + 1
Note == TLCSet(1, n)
Post == LET d == TLCGet("stats").diameter
        IN IF d > Len(Trace) THEN PrintT(<<"TRACE-OK", TLCGet(1)>>) ELSE PrintT("TRACE-REJECTED at " \o ToString(d)) /\ FALSE
=======================================================================
