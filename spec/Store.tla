----------------------------- MODULE Store ------------------------------
(* Exported values: circuits, witnesses and test cases (kinds) written as JSON text or compact binary (formats),
   into files or kept as text, by either library, and imported again.  What lies in a place is
   [k, f, v, whole]: an export of value v, or its beginning only; Nothing where there is none. *)
EXTENDS Integers, Sequences
CONSTANTS Vals, Paths, Regs
Kinds == {"circuit", "witness", "testcase"}
Formats(k) == IF k = "circuit" THEN {"json", "bin"} ELSE {"json"}
Libs == {"cli", "core"}
Nothing == [k |-> "none", f |-> "none", v |-> 0, whole |-> FALSE]
VARIABLES files, texts, res          \* res: the last import [asked, got, from]
svars == <<files, texts, res>>
Export(k, f, v) == [k |-> k, f |-> f, v |-> v, whole |-> TRUE]
\* what importing c as kind k in format f gives: 0 an error, -1 unspecified (something else lies there)
Imported(c, k, f) == IF c = Nothing THEN 0 ELSE IF c.k # k \/ c.f # f THEN -1 ELSE IF c.whole THEN c.v ELSE 0
None == [v |-> 0, c |-> Nothing, k |-> "none", f |-> "none"]
Save(k, f, p, v) == files' = [files EXCEPT ![p] = Export(k, f, v)] /\ res' = None /\ UNCHANGED texts
SaveFails == UNCHANGED svars                                             \* the path cannot be written
ToText(k, f, r, v) == k # "testcase" /\ texts' = [texts EXCEPT ![r] = Export(k, f, v)] /\ res' = None /\ UNCHANGED files
Load(k, f, p) == res' = [v |-> Imported(files[p], k, f), c |-> files[p], k |-> k, f |-> f] /\ UNCHANGED <<files, texts>>
FromText(k, f, r) == k # "testcase" /\ res' = [v |-> Imported(texts[r], k, f), c |-> texts[r], k |-> k, f |-> f] /\ UNCHANGED <<files, texts>>
\* the user's own steps: copying text into a file and back, losing the end of a file or text
Put(p, r) == texts[r] # Nothing /\ files' = [files EXCEPT ![p] = texts[r]] /\ res' = None /\ UNCHANGED texts
Take(r, p) == files[p] # Nothing /\ texts' = [texts EXCEPT ![r] = files[p]] /\ res' = None /\ UNCHANGED files
CutFile(p) == files[p] # Nothing /\ files' = [files EXCEPT ![p].whole = FALSE] /\ res' = None /\ UNCHANGED texts
CutText(r) == texts[r] # Nothing /\ texts' = [texts EXCEPT ![r].whole = FALSE] /\ res' = None /\ UNCHANGED files
Remove(p) == files' = [files EXCEPT ![p] = Nothing] /\ res' = None /\ UNCHANGED texts
Init == files = [p \in Paths |-> Nothing] /\ texts = [r \in Regs |-> Nothing] /\ res = None
\* an import gives the exported value or an error, never another value
Faithful == res.v > 0 => res.c.v = res.v /\ res.c.whole /\ res.c.k = res.k /\ res.c.f = res.f
NoPartial == res.c # Nothing /\ ~res.c.whole /\ res.c.k = res.k /\ res.c.f = res.f => res.v = 0
=======================================================================
