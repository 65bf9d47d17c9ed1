---------------------------- MODULE Command -----------------------------
(* The command-line tool as a transformer of a file system.  What a path holds is [t, c]: t is "file" (with
   content number c), "none", "dir" or "lost" (its directory does not exist); path 0 is a device that takes no data.
   mean[c] says what content c is: a circuit file, symbol file, input document or witness of a system, a message,
   something malformed ("bad"), or the product of a run: the ciphertext, key or combined ciphertext of an
   encapsulation, in order of encs. *)
EXTENDS ZCircuits, Names
CONSTANT Sys(_)        \* the systems [circ, sym, docs, asgs]
VARIABLES fs, mean, encs
cvars == <<fs, mean, encs>>
Cmds == {"encap", "decap", "encrypt", "decrypt"}
Ins(cmd) == CASE cmd = "encap" -> <<"circuit", "sym", "input">> [] cmd = "decap" -> <<"circuit", "witness", "ciphertext">>
              [] cmd = "encrypt" -> <<"circuit", "sym", "input", "message">> [] cmd = "decrypt" -> <<"circuit", "witness", "ciphertext">>
Outs(cmd) == CASE cmd = "encap" -> <<"ciphertext", "key">> [] cmd = "decap" -> <<"key">> [] OTHER -> <<"output">>
\* what an input option expects
Wants(cmd, slot) == CASE slot = "circuit" -> "r1cs" [] slot = "input" -> "doc" [] slot = "witness" -> "wtns" [] slot = "ciphertext" -> (IF cmd = "decap" THEN "ct" ELSE "comb")
                      [] slot = "message" -> "msg" [] OTHER -> slot
Mng(k, s, x, e) == [k |-> k, s |-> s, x |-> x, e |-> e]    \* system, document / assignment number, encapsulation
File(c) == [t |-> "file", c |-> c]
Absent == [t |-> "none", c |-> 0]
At(p) == IF p = 0 THEN [t |-> "full", c |-> 0] ELSE fs[p]
K(p) == IF At(p).t = "file" THEN mean[fs[p].c] ELSE Mng("none", 0, 0, 0)
Writable(p) == At(p).t \in {"file", "none"}
Circ(p) == Sys(K(p).s).circ
SupOf(a) == IF K(a.sym).k = "sym" THEN Supplied(Sys(K(a.sym).s).sym, Sys(K(a.input).s).docs[K(a.input).x]) ELSE <<>>
Asg(p) == Sys(K(p).s).asgs[K(p).x]
Matches(stmt, w) == Len(w) > Len(stmt) /\ \A i \in 1 .. Len(stmt) : w[i + 1] = stmt[i]
\* the verdict on the inputs: "ok", "err", or "any" where nothing is promised
EncapV(a) == IF K(a.circuit).k # "r1cs" \/ K(a.input).k # "doc" \/ At(a.sym).t # "file" THEN "err"
             ELSE IF K(a.sym).k # "sym" THEN (IF NPub(Circ(a.circuit)) > 0 THEN "err" ELSE "any")
             ELSE IF Missing(SupOf(a), NPub(Circ(a.circuit))) THEN "err" ELSE "ok"
DecapV(cmd, a) == IF K(a.circuit).k # "r1cs" \/ K(a.witness).k # "wtns" \/ At(a.ciphertext).t # "file" \/ K(a.ciphertext).k = "bad" THEN "err"
                  ELSE IF K(a.ciphertext).k # Wants(cmd, "ciphertext") THEN "any"
                  ELSE LET e == encs[K(a.ciphertext).e]  w == Asg(a.witness)  c == Circ(a.circuit) IN
                       IF c = e.circ /\ Len(w) = c.nw THEN (IF SatZ(c, w) /\ Matches(e.stmt, w) THEN "ok" ELSE "err")
                       \* a witness of another circuit is refused where it contradicts this one
                       ELSE IF Len(w) >= c.nw /\ (\E j \in DOMAIN c.cons : ~SatConsZ(c.cons[j], w)) THEN "err" ELSE "any"
Verdict(cmd, a) == CASE cmd = "encap" -> EncapV(a)
                     [] cmd = "encrypt" -> IF At(a.message).t # "file" THEN "err" ELSE EncapV(a)
                     [] OTHER -> DecapV(cmd, a)
\* the content a run is to write: a number, or -1 for content that never existed before
Product(cmd, a) == CASE cmd = "encap" -> <<-1, -1>> [] cmd = "encrypt" -> <<-1>>
                     [] cmd = "decap" -> <<encs[K(a.ciphertext).e].key>>
                     [] OTHER -> <<encs[K(a.ciphertext).e].msg>>
Out(cmd, a, i) == a[Outs(cmd)[i]]
Put(paths, ids) == [p \in DOMAIN fs |-> IF \E i \in DOMAIN paths : paths[i] = p THEN File(ids[CHOOSE i \in DOMAIN paths : paths[i] = p]) ELSE fs[p]]
OutPaths(cmd, a) == [i \in 1 .. Len(Outs(cmd)) |-> Out(cmd, a, i)]
New(i) == Len(mean) + i
Succeed(cmd, a) ==
  /\ Verdict(cmd, a) = "ok" /\ \A i \in 1 .. Len(Outs(cmd)) : Writable(Out(cmd, a, i))
  /\ LET pr == Product(cmd, a)  ids == [i \in DOMAIN pr |-> IF pr[i] = -1 THEN New(i) ELSE pr[i]]  e == Len(encs) + 1 IN
     /\ fs' = Put(OutPaths(cmd, a), ids)
     /\ CASE cmd = "encap" -> /\ mean' = mean \o <<Mng("ct", 0, 0, e), Mng("key", 0, 0, e)>>
                              /\ encs' = Append(encs, [circ |-> Circ(a.circuit), stmt |-> Statement(SupOf(a), NPub(Circ(a.circuit))), key |-> New(2), msg |-> 0])
          [] cmd = "encrypt" -> /\ mean' = mean \o <<Mng("comb", 0, 0, e)>>
                                /\ encs' = Append(encs, [circ |-> Circ(a.circuit), stmt |-> Statement(SupOf(a), NPub(Circ(a.circuit))), key |-> 0, msg |-> fs[a.message].c])
          [] OTHER -> UNCHANGED <<mean, encs>>
\* the inputs are bad: nothing is touched
Refuse(cmd, a) == Verdict(cmd, a) = "err" /\ UNCHANGED cvars
\* the inputs are good but a result cannot be written: earlier results may have been (they are then of no use)
Blocked(cmd, a, w) ==
  LET o == OutPaths(cmd, a)  empty == cmd = "decrypt" /\ K(a.ciphertext).k = "comb" /\ mean[encs[K(a.ciphertext).e].msg].k = "empty" IN
  /\ Verdict(cmd, a) = "ok" /\ ~empty
  /\ \E i \in DOMAIN o : ~Writable(o[i])
  /\ IF w = 0 THEN UNCHANGED cvars
     ELSE /\ w \in DOMAIN o /\ Writable(o[w]) /\ fs' = Put(<<o[w]>>, <<New(1)>>)
          /\ mean' = Append(mean, Mng("orphan", 0, 0, 0)) /\ UNCHANGED encs
\* the command line itself is wrong (an option missing, repeated or unknown)
Usage == UNCHANGED cvars
\* the user's own steps
Place(p, c) == p \in DOMAIN fs /\ fs' = [fs EXCEPT ![p] = File(c)] /\ UNCHANGED <<mean, encs>>
Create(p, m) == fs' = [fs EXCEPT ![p] = File(New(1))] /\ mean' = Append(mean, m) /\ UNCHANGED encs
Wipe(p) == fs' = [fs EXCEPT ![p] = Absent] /\ UNCHANGED <<mean, encs>>
=======================================================================
