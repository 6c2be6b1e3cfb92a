-------------------------------- MODULE Bits --------------------------------
(* 64-bit two's complement words as sequences of 8 bytes, least significant first (TLC's own
   integers have 32 bits).                                                                     *)
EXTENDS Integers, Sequences, Bitwise

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
One8 == <<1, 0, 0, 0, 0, 0, 0, 0>>
Ones8 == <<255, 255, 255, 255, 255, 255, 255, 255>>

(* the word of a TLC integer *)
W(n) == LET d(k) == k % 256
            b1 == n \div 256  b2 == b1 \div 256  b3 == b2 \div 256
            s == IF n < 0 THEN 255 ELSE 0
        IN <<n % 256, b1 % 256, b2 % 256, b3 % 256, s, s, s, s>>

AddC(a, b, c) ==
  LET s1 == a[1] + b[1] + c
      s2 == a[2] + b[2] + s1 \div 256
      s3 == a[3] + b[3] + s2 \div 256
      s4 == a[4] + b[4] + s3 \div 256
      s5 == a[5] + b[5] + s4 \div 256
      s6 == a[6] + b[6] + s5 \div 256
      s7 == a[7] + b[7] + s6 \div 256
      s8 == a[8] + b[8] + s7 \div 256
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256>>
Not8(a) == <<255 - a[1], 255 - a[2], 255 - a[3], 255 - a[4], 255 - a[5], 255 - a[6], 255 - a[7], 255 - a[8]>>
Add8(a, b) == AddC(a, b, 0)
Sub8(a, b) == AddC(a, Not8(b), 1)
Neg8(a) == AddC(Zero8, Not8(a), 1)
And8(a, b) == [i \in 1..8 |-> a[i] & b[i]]
Or8(a, b) == [i \in 1..8 |-> a[i] | b[i]]
Xor8(a, b) == [i \in 1..8 |-> a[i] ^^ b[i]]
IsNeg(a) == a[8] >= 128
Sign(a) == IF IsNeg(a) THEN 1 ELSE 0

RECURSIVE LtuFrom(_, _, _)
LtuFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtuFrom(a, b, i - 1)
Ltu(a, b) == LtuFrom(a, b, 8)
Lts(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE LtuFrom(a, b, 8)

(* the 16 bytes of the product of two unsigned words *)
Mul16(a, b) ==
  LET RECURSIVE S(_, _)
      S(k, i) == IF i > 8 \/ i > k THEN 0 ELSE (IF k + 1 - i > 8 THEN 0 ELSE a[i] * b[k + 1 - i]) + S(k, i + 1)
      RECURSIVE R(_, _)
      R(k, c) == IF k > 16 THEN <<>> ELSE LET t == S(k, 1) + c IN <<t % 256>> \o R(k + 1, t \div 256)
  IN R(1, 0)
Low8(p) == SubSeq(p, 1, 8)
High8(p) == SubSeq(p, 9, 16)
Mul8(a, b) == Low8(Mul16(a, b))

P2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
(* shifts by 0..63; fill is 0 or 255 *)
Shl8(a, n) == LET q == n \div 8  r == P2(n % 8)
                  at(i) == IF i < 1 THEN 0 ELSE a[i]
              IN [i \in 1..8 |-> ((at(i - q) * r) % 256) + (at(i - q - 1) * r) \div 256]
Shr8(a, n, fill) == LET q == n \div 8
                        m == P2(n % 8)
                        m2 == 256 \div m
                        at(j) == IF j > 8 THEN fill ELSE a[j]
                    IN [i \in 1..8 |-> (at(i + q) \div m) + ((at(i + q + 1) * m2) % 256)]

(* unsigned division, bit by bit from the top; <<quotient, remainder>> *)
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, b, q, r, i) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET bit == (a[i \div 8 + 1] \div P2(i % 8)) % 2
           over == r[8] >= 128
           r2 == AddC(r, r, bit)
           ge == over \/ ~Ltu(r2, b)
       IN DivStep(a, b, AddC(q, q, IF ge THEN 1 ELSE 0), IF ge THEN Sub8(r2, b) ELSE r2, i - 1)
RECURSIVE ShortDiv(_, _, _, _)
ShortDiv(a, d, r, i) == \* d < 2^22
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET t == r * 256 + a[i]
           rest == ShortDiv(a, d, t % d, i - 1)
       IN <<Append(rest[1], t \div d), rest[2]>>
Small(b) == b[4] = 0 /\ b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 /\ b[8] = 0 /\ b[3] < 64
DivU(a, b) == IF Small(b)
              THEN LET x == ShortDiv(a, b[1] + 256 * b[2] + 65536 * b[3], 0, 8)
                   IN <<x[1], W(x[2])>>
              ELSE DivStep(a, b, Zero8, Zero8, 63)
Abs8(a) == IF IsNeg(a) THEN Neg8(a) ELSE a
DivS(a, b) == LET x == DivU(Abs8(a), Abs8(b))
              IN <<IF IsNeg(a) # IsNeg(b) THEN Neg8(x[1]) ELSE x[1], IF IsNeg(a) THEN Neg8(x[2]) ELSE x[2]>>

(* truncation to sz bytes and extension back to a word *)
Ext(a, sz, signed) ==
  IF sz = 8 THEN a
  ELSE LET f == IF signed /\ a[sz] >= 128 THEN 255 ELSE 0 IN [i \in 1..8 |-> IF i <= sz THEN a[i] ELSE f]

HexDig == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(b) == HexDig[b \div 16 + 1] \o HexDig[(b % 16) + 1]
RECURSIVE HexOf(_, _)
HexOf(a, i) == IF i = 0 THEN "" ELSE HexByte(a[i]) \o HexOf(a, i - 1)
Hex8(a) == HexOf(a, 8)
=============================================================================
