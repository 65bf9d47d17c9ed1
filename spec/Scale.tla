----------------------------- MODULE Scale ------------------------------
(* Large instances: circuits, statements, witnesses, symbol files and documents far beyond the sizes at which a count,
   an index or a length could still fit a narrower type or a single block.  A scale is
     [s, nout, nin, nprv, inner, ncons, len, wide, names]
   s: seed; rows of up to len factors; if wide > 0 the constraints 1, 2, 3 have a row of that many factors (in A, B, C);
   names: how the public inputs are named ("array", "matrix" of rows of 12, "single").
   The last three wires occur only at the very end of the data: as the last factor of the last row A, B, C (of the wide rows,
   if there are any), so that an assignment that differs there is refuted by nothing else. *)
EXTENDS ZCircuits, Names
NW(d) == 1 + d.nout + d.nin + d.nprv + d.inner
Pub(d) == d.nout + d.nin
Value(d, w) == IF w = 0 THEN 1 ELSE Rnd(d.s, 3 * w + 1, 60) - 9
Assignment(d) == [i \in 1 .. NW(d) |-> Value(d, i - 1)]
\* wires that occur anywhere: all but the last three
Wire(d, i) == Rnd(d.s, i, M) % (NW(d) - 3)
Special(d, r) == NW(d) - 4 + r
Closing(d, j, r) == IF d.wide > 0 THEN j = r ELSE j = d.ncons
Row(d, j, r, n, lo) == [t \in 1 .. n |-> IF t = n /\ Closing(d, j, r) THEN << Special(d, r), 1 >>
                                         ELSE << Wire(d, 24 * j + 7 * r + t), Rnd(d.s, 24 * j + 7 * r + t + 3, 1 - 2 * lo) + lo >>]
Length(d, j, r) == IF Closing(d, j, r) THEN (IF d.wide > 0 THEN d.wide ELSE d.len) ELSE Rnd(d.s, 24 * j + r, d.len + 1)
Rows(d, j, r) == Row(d, j, r, Length(d, j, r), IF d.wide > 0 THEN -1 ELSE -3)
Constraint(d, j, a) == LET A == Rows(d, j, 1)  B0 == Rows(d, j, 2)  C == Rows(d, j, 3)
                           \* a change in the other factor must show
                           A1 == IF EvalZ(A, a) = 0 THEN << <<0, 1>> >> \o A ELSE A
                           B1 == IF EvalZ(B0, a) = 0 THEN << <<0, 1>> >> \o B0 ELSE B0
                       IN << A1, B1, C \o << <<0, EvalZ(A1, a) * EvalZ(B1, a) - EvalZ(C, a)>> >> >>
Circuit(d) == LET a == Assignment(d) IN [nout |-> d.nout, nin |-> d.nin, nprv |-> d.nprv, nw |-> NW(d), cons |-> [j \in 1 .. d.ncons |-> Constraint(d, j, a)]]
Label(i) == (7 * i + 3) % 99991
\* [name, dims, wire] of the signals
Class(p, n, w0, how) == IF n = 0 THEN <<>>
                        ELSE IF how = "single" THEN [j \in 1 .. n |-> [name |-> p \o ToString(j), dims |-> <<>>, wire |-> w0 + j - 1]]
                        ELSE IF how = "matrix" /\ n % 12 = 0 THEN << [name |-> p, dims |-> <<n \div 12, 12>>, wire |-> w0] >>
                        ELSE << [name |-> p, dims |-> <<n>>, wire |-> w0] >>
PubSignals(d) == Class("o", d.nout, 1, "single") \o Class("in", d.nin, 1 + d.nout, d.names)
Signals(d) == PubSignals(d) \o Class("p", d.nprv, 1 + Pub(d), "array") \o Class("c.t", d.inner, 1 + Pub(d) + d.nprv, "array")
Count(sg) == FoldLeft(LAMBDA x, y : x * y, 1, sg.dims)
Name(sg, k) == sg.name \o (IF Len(sg.dims) = 0 THEN "" ELSE IF Len(sg.dims) = 1 THEN "[" \o ToString(k) \o "]"
                           ELSE "[" \o ToString(k \div sg.dims[2]) \o "][" \o ToString(k % sg.dims[2]) \o "]")
Lines(d) == FlattenSeq([i \in 1 .. Len(Signals(d)) |-> LET sg == Signals(d)[i] IN [k \in 1 .. Count(sg) |-> << Name(sg, k - 1), sg.wire + k - 1 >>]])
\* wires at which assignments are changed
Changed(d) == LET nw == NW(d) IN << nw - 3, nw - 2, nw - 1 >> \o (IF Pub(d) > 0 THEN << 1, Pub(d), 1 + Rnd(d.s, 77, Pub(d)) >> ELSE <<>>) \o << 1 + Rnd(d.s, 78, nw - 1) >>
=======================================================================
