------------------------------ MODULE Calc -------------------------------
(* A calculator over the instance of a compiled circuit.  A circuit is [n8, prime, size, signals, ops]: the width of its
   numbers in bytes, the prime, the number of wires, the input signals [name, wires] and the program [k, d, a, b, c] that fills
   the other wires (k: "add", "sub", "mul", "copy", "const", or "eq", an assertion).  An input is a sequence of members
   [name, vals], a value [ok, neg, m] with ok = FALSE when it is no integer.
   A calculation depends on nothing but its own input: whatever was calculated before, or is calculated meanwhile. *)
EXTENDS Big
Sig(c, name) == { i \in 1 .. Len(c.signals) : c.signals[i].name = name }
Known(c, in) == \A i \in 1 .. Len(in) : Sig(c, in[i].name) # {}
Wires(c, name) == c.signals[CHOOSE i \in Sig(c, name) : TRUE].wires
Fitting(c, in) == \A i \in 1 .. Len(in) : Len(in[i].vals) = Len(Wires(c, in[i].name)) /\ \A j \in 1 .. Len(in[i].vals) : in[i].vals[j].ok
Complete(c, in) == \A i \in 1 .. Len(c.signals) : Len(c.signals[i].wires) = 0 \/ \E j \in 1 .. Len(in) : in[j].name = c.signals[i].name
Accepted(c, in) == Known(c, in) /\ Fitting(c, in) /\ Complete(c, in)
\* w is what the circuit computes from the inputs; q: certificates, one for each input element in order, then one for each operation
Pos(in, i) == LET RECURSIVE S(_)  S(k) == IF k = 0 THEN 0 ELSE Len(in[k].vals) + S(k - 1) IN S(i - 1)
InputsOk(c, in, w, q) == \A i \in 1 .. Len(in) : \A j \in 1 .. Len(in[i].vals) :
                           IsRes(in[i].vals[j].neg, in[i].vals[j].m, q[Pos(in, i) + j], c.prime, w[Wires(c, in[i].name)[j] + 1])
OpOk(c, o, w, q) == CASE o.k = "add" -> IsAdd(w[o.a + 1], w[o.b + 1], q, c.prime, w[o.d + 1])
                      [] o.k = "sub" -> IsSub(w[o.a + 1], w[o.b + 1], q, c.prime, w[o.d + 1])
                      [] o.k = "mul" -> IsMul(w[o.a + 1], w[o.b + 1], q, c.prime, w[o.d + 1])
                      [] o.k = "copy" -> Same(w[o.a + 1], w[o.d + 1])
                      [] o.k = "const" -> Same(o.c, w[o.d + 1])
                      [] OTHER -> TRUE
Computed(c, in, w, q) == /\ Len(w) = c.size /\ Same(w[1], One) /\ InputsOk(c, in, w, q)
                         /\ \A i \in 1 .. Len(c.ops) : OpOk(c, c.ops[i], w, q[Pos(in, Len(in) + 1) + i])
Asserted(c, w) == \A i \in 1 .. Len(c.ops) : c.ops[i].k = "eq" => Same(w[c.ops[i].a + 1], w[c.ops[i].b + 1])
\* the three forms of a witness: numbers, their raw bytes, and the standard file
Pad(v, n) == [i \in 1 .. n |-> B(v, i)]
RECURSIVE Raw(_, _, _)
Raw(w, n, i) == IF i > Len(w) THEN <<>> ELSE Pad(w[i], n) \o Raw(w, n, i + 1)
LE(v, n) == [i \in 1 .. n |-> IF i > 4 THEN 0 ELSE (v \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]
\* large instances: the only signal takes the numbers Item(0), Item(1), ... at the wires from first, all other wires but the first are 0
Item(i) == (37 * i + 5) % 65521
Large(e, w) == /\ Len(w) = e.size
               /\ (\A i \in 1 .. e.size : w[i] = IF i = 1 THEN 1 ELSE IF i > e.first /\ i <= e.first + e.nin THEN Item(i - 1 - e.first) ELSE 0) = TRUE
Header(n8, prime, size) == <<119, 116, 110, 115>> \o LE(2, 4) \o LE(2, 4)
              \o LE(1, 4) \o LE(8 + n8, 8) \o LE(n8, 4) \o Pad(prime, n8) \o LE(size, 4)
              \o LE(2, 4) \o LE(n8 * size, 8)
File(c, w) == Header(c.n8, c.prime, c.size) \o Raw(w, c.n8, 1)
Form(kind, c, w, res) == CASE kind = "num" -> Len(res) = Len(w) /\ \A i \in 1 .. Len(w) : Same(res[i], w[i])
                           [] kind = "bin" -> res = Raw(w, c.n8, 1)
                           [] kind = "wtns" -> res = File(c, w)
=======================================================================
