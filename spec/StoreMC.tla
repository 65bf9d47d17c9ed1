---------------------------- MODULE StoreMC -----------------------------
(* Store checked exhaustively, and (in simulation) the source of histories to be replayed. *)
EXTENDS Store, TLC, Json
CONSTANTS Depth
VARIABLE hist
St(act, k, f, p, r, v) == [act |-> act, kind |-> k, fmt |-> f, path |-> p, reg |-> r, v |-> v]
Log(s) == hist' = IF Depth = 0 THEN hist ELSE Append(hist, s)
Next == \E k \in Kinds : \E f \in Formats(k) : \E p \in Paths, r \in Regs, v \in Vals :
          \/ Save(k, f, p, v) /\ Log(St("save", k, f, p, r, v))
          \/ ToText(k, f, r, v) /\ Log(St("to", k, f, p, r, v))
          \/ Load(k, f, p) /\ Log(St("load", k, f, p, r, v))
          \/ FromText(k, f, r) /\ Log(St("from", k, f, p, r, v))
          \/ k = "witness" /\ f = "json" /\ \/ Put(p, r) /\ Log(St("put", k, f, p, r, v))
                                            \/ Take(r, p) /\ Log(St("take", k, f, p, r, v))
                                            \/ CutFile(p) /\ Log(St("cutfile", k, f, p, r, v))
                                            \/ CutText(r) /\ Log(St("cuttext", k, f, p, r, v))
                                            \/ Remove(p) /\ Log(St("remove", k, f, p, r, v))
                                            \/ SaveFails /\ Log(St("savebad", k, f, p, r, v))
MCInit == Init /\ hist = <<>>
\* prints each history of full length
Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=======================================================================
