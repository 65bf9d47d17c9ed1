---------------------------- MODULE JsonText ----------------------------
(* JSON documents as bytes: UTF-8, the grammar of RFC 8259, and the values of an input document.
   Parsing yields [st, v, i]: st "ok", "bad" (not JSON) or "open" (JSON, but a reader may refuse it: a number outside
   64 bits or with fraction or exponent, a lone surrogate, nesting beyond Deep). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Deep == 100
\* ---- UTF-8
Cont(b, i) == i <= Len(b) /\ b[i] \in 128 .. 191
RECURSIVE Utf8(_, _, _)
Utf8(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, t |-> acc]
  ELSE LET c == b[i] IN
       IF c < 128 THEN Utf8(b, i + 1, Append(acc, c))
       ELSE IF c \in 194 .. 223 /\ Cont(b, i + 1) THEN Utf8(b, i + 2, Append(acc, (c - 192) * 64 + b[i + 1] - 128))
       ELSE IF c \in 224 .. 239 /\ Cont(b, i + 1) /\ Cont(b, i + 2)
            THEN LET x == (c - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128 IN
                 IF x < 2048 \/ x \in 55296 .. 57343 THEN [ok |-> FALSE, t |-> <<>>] ELSE Utf8(b, i + 3, Append(acc, x))
       ELSE IF c \in 240 .. 244 /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
            THEN LET x == (c - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128 IN
                 IF x < 65536 \/ x > 1114111 THEN [ok |-> FALSE, t |-> <<>>] ELSE Utf8(b, i + 4, Append(acc, x))
       ELSE [ok |-> FALSE, t |-> <<>>]
\* ---- the grammar over code points
Bad == [st |-> "bad", v |-> [k |-> "z"], i |-> 0]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Worse(a, b) == IF a = "open" \/ b = "open" THEN "open" ELSE "ok"
RECURSIVE Ws(_, _)
Ws(t, i) == IF At(t, i) \in {32, 9, 10, 13} THEN Ws(t, i + 1) ELSE i
Digit(c) == c \in 48 .. 57
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF Digit(At(t, i)) THEN DigitsEnd(t, i + 1) ELSE i
Hex(c) == IF c \in 48 .. 57 THEN c - 48 ELSE IF c \in 97 .. 102 THEN c - 87 ELSE IF c \in 65 .. 70 THEN c - 55 ELSE -1
Hex4(t, i) == IF \A j \in 0 .. 3 : Hex(At(t, i + j)) >= 0 THEN ((Hex(t[i]) * 16 + Hex(t[i + 1])) * 16 + Hex(t[i + 2])) * 16 + Hex(t[i + 3]) ELSE -1
Esc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
\* the rest of a string from i (after the opening quote)
RECURSIVE Str(_, _, _, _)
Str(t, i, acc, st) ==
  LET c == At(t, i) IN
  IF c < 32 THEN Bad                               \* also the end of the text
  ELSE IF c = 34 THEN [st |-> st, v |-> [k |-> "s", t |-> acc], i |-> i + 1]
  ELSE IF c # 92 THEN Str(t, i + 1, Append(acc, c), st)
  ELSE IF Esc(At(t, i + 1)) >= 0 THEN Str(t, i + 2, Append(acc, Esc(t[i + 1])), st)
  ELSE IF At(t, i + 1) # 117 THEN Bad
  ELSE LET h == Hex4(t, i + 2) IN
       IF h < 0 THEN Bad
       ELSE IF h \in 55296 .. 56319
            THEN LET g == IF At(t, i + 6) = 92 /\ At(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE -1 IN
                 IF g \in 56320 .. 57343 THEN Str(t, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + g - 56320), st)
                 ELSE Str(t, i + 6, Append(acc, h), "open")
       ELSE Str(t, i + 6, Append(acc, h), IF h \in 56320 .. 57343 THEN "open" ELSE st)
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Lex(a, b, i + 1)
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Lex(a, b, 1))
U64Max == << 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53 >>
I64Min == << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56 >>
Num(t, i) ==
  LET neg == At(t, i) = 45  s == IF neg THEN i + 1 ELSE i  e == DigitsEnd(t, s)
      f == IF At(t, e) = 46 THEN DigitsEnd(t, e + 1) ELSE e
      x0 == IF At(t, f) \in {69, 101} THEN IF At(t, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1 ELSE f
      x == IF x0 > f THEN DigitsEnd(t, x0) ELSE f
      d == SubSeq(t, s, e - 1)
  IN IF e = s \/ (e > s + 1 /\ t[s] = 48) \/ f = e + 1 \/ (x0 > f /\ x = x0) THEN Bad
     ELSE [st |-> IF x = e /\ (IF neg THEN d # <<48>> /\ AtMost(d, I64Min) ELSE AtMost(d, U64Max)) THEN "ok" ELSE "open", v |-> [k |-> "s", t |-> SubSeq(t, i, x - 1)], i |-> x]
Word(t, i, w, r) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w THEN [st |-> "ok", v |-> [k |-> "s", t |-> r], i |-> i + Len(w)] ELSE Bad
RECURSIVE Val(_, _, _)
RECURSIVE Elems(_, _, _, _, _)
RECURSIVE Members(_, _, _, _, _)
\* elements of an array from i on (at the first character of an element)
Elems(t, i, acc, st, d) ==
  LET e == Val(t, i, d) IN
  IF e.st = "bad" THEN Bad
  ELSE LET j == Ws(t, e.i)  a == Append(acc, e.v)  s == Worse(st, e.st) IN
       IF At(t, j) = 44 THEN Elems(t, Ws(t, j + 1), a, s, d)
       ELSE IF At(t, j) = 93 THEN [st |-> s, v |-> [k |-> "a", e |-> a], i |-> j + 1] ELSE Bad
Members(t, i, acc, st, d) ==
  IF At(t, i) # 34 THEN Bad
  ELSE LET key == Str(t, i + 1, <<>>, "ok") IN
       IF key.st = "bad" THEN Bad
       ELSE LET c == Ws(t, key.i) IN
            IF At(t, c) # 58 THEN Bad
            ELSE LET e == Val(t, Ws(t, c + 1), d) IN
                 IF e.st = "bad" THEN Bad
                 ELSE LET j == Ws(t, e.i)  a == Append(acc, [key |-> key.v.t, val |-> e.v])  s == Worse(st, Worse(key.st, e.st)) IN
                      IF At(t, j) = 44 THEN Members(t, Ws(t, j + 1), a, s, d)
                      ELSE IF At(t, j) = 125 THEN [st |-> s, v |-> [k |-> "o", m |-> a], i |-> j + 1] ELSE Bad
Val(t, i, d) ==
  LET c == At(t, i)  st == IF d > Deep THEN "open" ELSE "ok" IN
  IF c = 34 THEN Str(t, i + 1, <<>>, "ok")
  ELSE IF c = 45 \/ Digit(c) THEN Num(t, i)
  ELSE IF c = 116 THEN Word(t, i, << 116, 114, 117, 101 >>, << 49 >>)
  ELSE IF c = 102 THEN Word(t, i, << 102, 97, 108, 115, 101 >>, << 48 >>)
  ELSE IF c = 110 THEN Word(t, i, << 110, 117, 108, 108 >>, << 48 >>)
  ELSE IF c = 91 THEN LET j == Ws(t, i + 1) IN IF At(t, j) = 93 THEN [st |-> st, v |-> [k |-> "a", e |-> <<>>], i |-> j + 1] ELSE Elems(t, j, <<>>, st, d + 1)
  ELSE IF c = 123 THEN LET j == Ws(t, i + 1) IN IF At(t, j) = 125 THEN [st |-> st, v |-> [k |-> "o", m |-> <<>>], i |-> j + 1] ELSE Members(t, j, <<>>, st, d + 1)
  ELSE Bad
Parse(t) == LET r == Val(t, Ws(t, 1), 0) IN IF r.st # "bad" /\ Ws(t, r.i) = Len(t) + 1 THEN r ELSE Bad
Document(b) == LET u == Utf8(b, 1, <<>>) IN IF u.ok THEN Parse(u.t) ELSE Bad
\* ---- the values of an input document: scalars of a value in order (an object nested in a value is not an input)
RECURSIVE HasObj(_)
HasObj(v) == v.k = "o" \/ (v.k = "a" /\ \E i \in 1 .. Len(v.e) : HasObj(v.e[i]))
RECURSIVE Scalars(_)
Scalars(v) == IF v.k = "s" THEN << v.t >> ELSE IF v.k = "a" THEN FlattenSeq([i \in 1 .. Len(v.e) |-> Scalars(v.e[i])]) ELSE <<>>
\* one entry per key: the last member counts
Entries(m) == { << m[i].key, m[i].val >> : i \in { k \in 1 .. Len(m) : \A j \in k + 1 .. Len(m) : m[j].key # m[k].key } }
=======================================================================
