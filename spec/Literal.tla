-------------------------------- MODULE Literal --------------------------------
(* Character constants and string literals (6.4.4.4, 6.4.5) as sequences of elements, and numeric constants.
   An element is a character, an escape sequence or a universal character name; adjacent literals are joined and take
   the one prefix among them.  The state holds the code units the elements have given so far.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxElems, MaxLits, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, kind, pre, lits, units, cnt
vars == <<ph, kind, pre, lits, units, cnt>>
LitPrefixes == {"", "u8", "u", "U", "L"}
(* elements: k chr (spelled directly), simple, oct, hex, ucn4, ucn8; v the value; d the number of digits *)
Plain == 32..126
Wide == {161, 233, 255, 256, 960, 1071, 2047, 2048, 8364, 12354, 65533, 65536, 128512, 1114111}
Simple == {7, 8, 9, 10, 11, 12, 13, 39, 34, 63, 92}
HexChar(v) == v \in 48..57 \/ v \in 65..70 \/ v \in 97..102
OctChar(v) == v \in 48..55
Limit(p) == CASE p \in {"", "u8"} -> 255 [] p = "u" -> 65535 [] OTHER -> 2147483647
Pow(b, n) == CASE n = 0 -> 1 [] n = 1 -> b [] n = 2 -> b * b [] n = 3 -> b * b * b [] n = 4 -> b * b * b * b [] OTHER -> 16777216
Utf8(v) == IF v < 128 THEN <<v>> ELSE IF v < 2048 THEN <<192 + v \div 64, 128 + (v % 64)>>
           ELSE IF v < 65536 THEN <<224 + v \div 4096, 128 + ((v \div 64) % 64), 128 + (v % 64)>>
           ELSE <<240 + v \div 262144, 128 + ((v \div 4096) % 64), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
Utf16(v) == IF v < 65536 THEN <<v>> ELSE <<55296 + (v - 65536) \div 1024, 56320 + ((v - 65536) % 1024)>>
(* the code units of an element in a literal of prefix p: escapes are one unit, characters are encoded *)
UnitsOf(e, p) == IF e.k \in {"oct", "hex", "simple"} THEN <<e.v>>
                 ELSE CASE p \in {"", "u8"} -> Utf8(e.v) [] p = "u" -> Utf16(e.v) [] OTHER -> <<e.v>>
LastLit == lits[Len(lits)]
Prev == IF LastLit.es = <<>> THEN [k |-> "none", v |-> 0, d |-> 0] ELSE LastLit.es[Len(LastLit.es)]
\* the element must not be swallowed by the escape sequence before it
Apart(e) == /\ ~(Prev.k = "hex" /\ e.k = "chr" /\ HexChar(e.v))
            /\ ~(Prev.k = "oct" /\ Prev.d < 3 /\ e.k = "chr" /\ OctChar(e.v))
            \* no trigraphs
            /\ ~(Prev.k = "chr" /\ Prev.v = 63 /\ e.k = "chr" /\ e.v = 63)
Quote == IF kind = "chr" THEN 39 ELSE 34
El(k, v, d) == [k |-> k, v |-> v, d |-> d]
Room == IF kind = "chr" THEN cnt = 0 ELSE cnt < MaxElems
Add(e) == /\ Apart(e) /\ lits' = [lits EXCEPT ![Len(lits)].es = Append(@, e)] /\ units' = units \o UnitsOf(e, pre) /\ cnt' = cnt + 1
          /\ UNCHANGED <<ph, kind, pre>>
\* a narrow character constant holds one byte, a u'' constant one unit
OneUnit(v) == kind = "str" \/ Len(UnitsOf(El("chr", v, 0), pre)) = 1
Element == /\ ph = "build" /\ lits # <<>> /\ Room
           /\ \E k \in Pick({"chr", "chr", "digit", "wide", "simple", "oct", "hex", "ucn4", "ucn8"}) :
              CASE k = "chr" -> \E v \in Pick(Plain \ {Quote, 92}) : Add(El("chr", v, 0))
                [] k = "digit" -> \E v \in Pick({48, 49, 56, 97, 70, 120, 76, 117}) : Add(El("chr", v, 0))
                [] k = "wide" -> \E v \in Pick(Wide) : OneUnit(v) /\ Add(El("chr", v, 0))
                [] k = "simple" -> \E v \in Pick(Simple) : Add(El("simple", v, 0))
                [] k = "oct" -> \E d \in Pick({1, 2, 3}), v \in Pick(0..511) : v < Pow(8, d) /\ v <= Limit(LastLit.p) /\ Add(El("oct", v, d))
                [] k = "hex" -> \E d \in Pick({1, 2, 2, 3, 4, 6}), v \in Pick({0, 1, 7, 10, 15, 16, 31, 65, 127, 128, 171, 200, 255, 256, 4095, 43981, 65535, 65536, 1193046}) : v < Pow(16, d) /\ v <= Limit(LastLit.p) /\ Add(El("hex", v, d))
                [] k = "ucn4" -> \E v \in Pick({x \in Wide : x < 65536} \cup {36, 64, 96}) : OneUnit(v) /\ Add(El("ucn4", v, 4))
                [] OTHER -> \E v \in Pick(Wide) : OneUnit(v) /\ Add(El("ucn8", v, 8))
NewLit == /\ ph = "build" /\ kind = "str" /\ Len(lits) < MaxLits
          /\ \E p \in Pick({"", pre}) : lits' = Append(lits, [p |-> p, es |-> <<>>])
          /\ UNCHANGED <<ph, kind, pre, units, cnt>>
Init == ph = "start" /\ kind = "" /\ pre = "" /\ lits = <<>> /\ units = <<>> /\ cnt = 0
Start == /\ ph = "start" /\ ph' = "build"
         /\ \E k \in Pick({"str", "str", "chr"}), p \in Pick(LitPrefixes) :
              /\ k = "chr" => p # "u8"
              /\ kind' = k /\ pre' = p /\ lits' = <<[p |-> p, es |-> <<>>]>>
         /\ UNCHANGED <<units, cnt>>
\* the prefix is on at least one of the literals: the first
Finish == /\ ph = "build" /\ (kind = "chr" => cnt = 1 /\ Len(units) = 1) /\ ph' = "emit" /\ UNCHANGED <<kind, pre, lits, units, cnt>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<kind, pre, lits, units, cnt>>
Next == Start \/ Element \/ NewLit \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
UnitRange == \A i \in DOMAIN units : units[i] \in 0..Limit(pre)
Emit == ph = "emit" => PrintT(ToJson([kind |-> kind, p |-> pre, l |-> lits, u |-> units]))
=============================================================================
