------------------------------- MODULE Aes -------------------------------
(* AES-256 (FIPS 197): bytes are numbers 0..255, blocks sequences of 16 bytes, the 15 round keys one
   sequence of 240 bytes.  The tables are checked against their definitions in AesMC. *)
EXTENDS Integers, Sequences, Bitwise
SBox == <<
     99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
     202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
     183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
     4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
     9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
     83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
     208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
     81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
     205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
     96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
     224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
     231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
     186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
     112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
     225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
     140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>
\* products of the field's bytes with 2
Two == <<
     0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30,
     32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62,
     64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94,
     96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126,
     128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158,
     160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190,
     192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222,
     224, 226, 228, 230, 232, 234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254,
     27, 25, 31, 29, 19, 17, 23, 21, 11, 9, 15, 13, 3, 1, 7, 5,
     59, 57, 63, 61, 51, 49, 55, 53, 43, 41, 47, 45, 35, 33, 39, 37,
     91, 89, 95, 93, 83, 81, 87, 85, 75, 73, 79, 77, 67, 65, 71, 69,
     123, 121, 127, 125, 115, 113, 119, 117, 107, 105, 111, 109, 99, 97, 103, 101,
     155, 153, 159, 157, 147, 145, 151, 149, 139, 137, 143, 141, 131, 129, 135, 133,
     187, 185, 191, 189, 179, 177, 183, 181, 171, 169, 175, 173, 163, 161, 167, 165,
     219, 217, 223, 221, 211, 209, 215, 213, 203, 201, 207, 205, 195, 193, 199, 197,
     251, 249, 255, 253, 243, 241, 247, 245, 235, 233, 239, 237, 227, 225, 231, 229 >>
Xor16(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8],
                  a[9] ^^ b[9], a[10] ^^ b[10], a[11] ^^ b[11], a[12] ^^ b[12], a[13] ^^ b[13], a[14] ^^ b[14], a[15] ^^ b[15], a[16] ^^ b[16] >>
S(x) == SBox[x + 1]
Sub(s) == << S(s[1]), S(s[6]), S(s[11]), S(s[16]), S(s[5]), S(s[10]), S(s[15]), S(s[4]),      \* with the shifted rows
             S(s[9]), S(s[14]), S(s[3]), S(s[8]), S(s[13]), S(s[2]), S(s[7]), S(s[12]) >>
Col(a, b, c, d) == LET t == (a ^^ b) ^^ (c ^^ d) IN
                   << (a ^^ t) ^^ Two[(a ^^ b) + 1], (b ^^ t) ^^ Two[(b ^^ c) + 1], (c ^^ t) ^^ Two[(c ^^ d) + 1], (d ^^ t) ^^ Two[(d ^^ a) + 1] >>
Mix(s) == Col(s[1], s[2], s[3], s[4]) \o Col(s[5], s[6], s[7], s[8]) \o Col(s[9], s[10], s[11], s[12]) \o Col(s[13], s[14], s[15], s[16])
Key(rk, i) == SubSeq(rk, 16 * i + 1, 16 * i + 16)
RECURSIVE Rounds(_, _, _)
Rounds(rk, s, i) == IF i = 14 THEN Xor16(Sub(s), Key(rk, 14)) ELSE Rounds(rk, Xor16(Mix(Sub(s)), Key(rk, i)), i + 1)
Enc(rk, b) == Rounds(rk, Xor16(b, Key(rk, 0)), 1)
\* the key schedule, four bytes at a time
Rcon == << 1, 2, 4, 8, 16, 32, 64 >>
RECURSIVE Grow(_, _)
Grow(w, i) ==       \* w holds the words 0 .. i-1
  IF i = 60 THEN w
  ELSE LET p == SubSeq(w, 4 * i - 3, 4 * i)  o == SubSeq(w, 4 * i - 31, 4 * i - 28)
           t == IF i % 8 = 0 THEN << S(p[2]) ^^ Rcon[i \div 8], S(p[3]), S(p[4]), S(p[1]) >>
                ELSE IF i % 8 = 4 THEN << S(p[1]), S(p[2]), S(p[3]), S(p[4]) >> ELSE p
       IN Grow(w \o << o[1] ^^ t[1], o[2] ^^ t[2], o[3] ^^ t[3], o[4] ^^ t[4] >>, i + 1)
Expand(key) == Grow(key, 8)
=======================================================================
