-------------------------------- MODULE NumConst --------------------------------
(* Integer constants (6.4.4.1): digits in a base, suffixes in any case and order, the type is the first of the list
   that can represent the value.  Floating constants (6.4.4.2) whose value is exactly m * 2^e.                     *)
EXTENDS Bits, TLC, Json, SequencesExt, FiniteSets
CONSTANTS Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, num
vars == <<ph, num>>
Size(t) == IF t \in {"int", "uint"} THEN 4 ELSE 8
Signed(t) == t \in {"int", "long", "llong"}
Fits(t, w) == ~(Signed(t) /\ IsNeg(w)) /\ Ext(w, Size(t), Signed(t)) = w
SuffixPairs == {<<"", "">>, <<"u", "u">>, <<"U", "u">>, <<"l", "l">>, <<"L", "l">>, <<"ll", "ll">>, <<"LL", "ll">>}
  \cup {<<a \o b, "ul">> : a \in {"u", "U"}, b \in {"l", "L"}} \cup {<<b \o a, "ul">> : a \in {"u", "U"}, b \in {"l", "L"}}
  \cup {<<a \o b, "ull">> : a \in {"u", "U"}, b \in {"ll", "LL"}} \cup {<<b \o a, "ull">> : a \in {"u", "U"}, b \in {"ll", "LL"}}
TypeOf(dec, suf, w) ==
  LET lst == CASE suf = "" -> IF dec THEN <<"int", "long">> ELSE <<"int", "uint", "long", "ulong">>
               [] suf = "u" -> <<"uint", "ulong">> [] suf = "l" -> IF dec THEN <<"long">> ELSE <<"long", "ulong">>
               [] suf = "ul" -> <<"ulong">> [] suf = "ll" -> IF dec THEN <<"llong">> ELSE <<"llong", "ullong">> [] suf = "ull" -> <<"ullong">>
      c == SelectSeq(lst, LAMBDA t : Fits(t, w))
  IN IF c = <<>> THEN "" ELSE c[1]
R8 == 0..255
Words(F(_)) == \E k \in Pick({"edge", "rnd", "rnd", "small"}) :
   CASE k = "edge" -> \E b \in Pick({7, 8, 15, 16, 31, 32, 33, 62, 63}), d \in Pick({-1, 0, 1}) : F(Add8([i \in 1..8 |-> IF i = b \div 8 + 1 THEN P2(b % 8) ELSE 0], W(d)))
     [] k = "small" -> \E v \in Pick(0..40) : F(W(v))
     [] OTHER -> \E a \in Pick(R8), b \in Pick(R8), c \in Pick(R8), n \in Pick(1..8) :
          F([i \in 1..8 |-> IF i <= n THEN <<a, b, c, (a + b) % 256, (b + c) % 256, (a + 3 * c) % 256, (a + b + c) % 256, (b + 7 * c) % 256>>[i] ELSE 0])
P5(k) == CASE k = 0 -> 1 [] k = 1 -> 5 [] k = 2 -> 25 [] k = 3 -> 125 [] k = 4 -> 625 [] k = 5 -> 3125 [] OTHER -> 15625
Pw2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] OTHER -> 64
Mant(a, b, c, n) == a + (IF n > 1 THEN 256 * b ELSE 0) + (IF n > 2 THEN 65536 * c ELSE 0)
Zeros == {"", "0", "00"}
Gen == /\ ph = "gen" /\ ph' = "emit"
       /\ \E k \in Pick({"int", "int", "dec", "hexf"}) :
          CASE k = "int" -> Words(LAMBDA w : \E base \in Pick({"dec", "hex", "HEX", "oct", "bin"}), s \in Pick(SuffixPairs), z \in Pick(Zeros) :
                 LET t == TypeOf(base = "dec", s[2], w) IN t # "" /\ num' = [k |-> k, w |-> Hex8(w), base |-> base, suf |-> s[1], t |-> t, z |-> z])
            \* the digits d, f of them after the point, times 10 to the x
            [] k = "dec" -> \E a \in Pick(R8), b \in Pick(R8), c \in Pick({0, 0, 1}), mz \in Pick(1..3), e \in Pick(-6..6), x \in Pick(-3..3), f32 \in Pick({"", "f", "F"}), ex \in Pick({"e", "E"}), z \in Pick(Zeros), plus \in Pick({"", "+"}) :
                 LET f == IF e < 0 THEN -e ELSE 0
                     m == Mant(a, b, c, mz) IN
                 num' = [k |-> k, d |-> IF e < 0 THEN m * P5(-e) ELSE m * Pw2(e), f |-> f + x, x |-> x, m |-> m, e |-> e, suf |-> f32, ex |-> ex, z |-> z, plus |-> plus]
            \* the hexadecimal digits of m, f of them after the point, times 2 to the p
            [] OTHER -> \E a \in Pick(R8), b \in Pick(R8), c \in Pick(R8), mz \in Pick(1..3), f \in Pick(0..5), p \in Pick(-40..40), f32 \in Pick({"", "f", "F"}), ex \in Pick({"p", "P"}), z \in Pick(Zeros), plus \in Pick({"", "+"}) :
                 LET m == Mant(a, b, c, mz) IN num' = [k |-> k, m |-> m, f |-> f, x |-> p, e |-> p - 4 * f, suf |-> f32, ex |-> ex, z |-> z, plus |-> plus]
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED num
Init == ph = "gen" /\ num = <<>>
Next == Gen \/ Done
Spec == Init /\ [][Next]_vars
Emit == ph = "emit" => PrintT(ToJson(num))
=============================================================================
