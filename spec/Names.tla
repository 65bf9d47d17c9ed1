----------------------------- MODULE Names -----------------------------
(* Symbol files and input documents.
   A symbol file is a sequence of lines [name, wire] (what its well-formed lines say, in file order).
   An input document is a sequence of [key, val] (JSON object members, in order); a value is a number
   [t |-> "n", v], an array [t |-> "a", e] or an object [t |-> "o", e] with e a sequence of [key, val]. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
RECURSIVE Flat(_, _)
\* the scalar elements of a value with their full names, row by row
Flat(name, val) ==
  IF val.t = "a" THEN FlattenSeq([i \in 1 .. Len(val.e) |-> Flat(name \o "[" \o ToString(i - 1) \o "]", val.e[i])])
  ELSE IF val.t = "o" THEN FlattenSeq([i \in 1 .. Len(val.e) |-> Flat(name \o "." \o val.e[i].key, val.e[i].val)])
  ELSE << [name |-> name, v |-> val.v] >>
FlatDoc(doc) == FlattenSeq([i \in 1 .. Len(doc) |-> Flat(doc[i].key, doc[i].val)])
\* the wire of a name: the last line for it counts; lines without a wire are ignored
Wires(sym, name) == { i \in 1 .. Len(sym) : sym[i].name = name /\ sym[i].wire >= 0 }
WireOf(sym, name) == LET I == Wires(sym, name) IN IF I = {} THEN -1 ELSE sym[CHOOSE i \in I : \A j \in I : j <= i].wire
\* values a document supplies for a wire of the main component
Supplied(sym, doc) == LET fd == FlatDoc(doc) IN [i \in 1 .. Len(fd) |-> [wire |-> WireOf(sym, "main." \o fd[i].name), v |-> fd[i].v]]
\* the statement: one value for each of the wires 1..npub, or no statement
Missing(sup, npub) == \E w \in 1 .. npub : \A i \in 1 .. Len(sup) : sup[i].wire # w
Statement(sup, npub) == [w \in 1 .. npub |-> sup[CHOOSE i \in 1 .. Len(sup) : sup[i].wire = w].v]
=======================================================================
