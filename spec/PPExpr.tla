-------------------------------- MODULE PPExpr --------------------------------
(* Controlling expressions of #if and #elif (6.10.1p4): every operand is an intmax_t or uintmax_t, names that are not
   macros are 0.  The behaviours are postfix evaluations; a denotation is the text, the word, its signedness, whether
   it is defined, and the precedence of the text.  && || ?: do not evaluate some operands.                        *)
EXTENDS Bits, TLC, Json, SequencesExt, FiniteSets
CONSTANTS MaxOps, Ops, ValSel, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, stk, nops
vars == <<ph, stk, nops>>
D(s, v, u, ok, p) == [s |-> s, v |-> v, u |-> u, ok |-> ok, p |-> p]
Wrap(e, p) == IF e.p >= p THEN e.s ELSE "(" \o e.s \o ")"
Bit(x) == IF x THEN One8 ELSE Zero8
True8(v) == v # Zero8
MinW == <<0, 0, 0, 0, 0, 0, 0, 128>>
RECURSIVE Dec(_)
Dec(w) == LET x == ShortDiv(w, 10, 0, 8) IN (IF x[1] = Zero8 THEN "" ELSE Dec(x[1])) \o HexDig[x[2] + 1]
RECURSIVE HexTrim(_, _)
HexTrim(w, i) == IF i = 0 THEN "0" ELSE IF w[i] = 0 THEN HexTrim(w, i - 1) ELSE (IF w[i] < 16 THEN HexDig[w[i] + 1] ELSE HexByte(w[i])) \o HexOf(w, i - 1)
RECURSIVE Oct(_)
Oct(w) == LET x == ShortDiv(w, 8, 0, 8) IN (IF x[1] = Zero8 THEN "0" ELSE Oct(x[1])) \o HexDig[x[2] + 1]
Smalls == {W(k) : k \in {0, 1, 2, 3, 7, 10, 63}}
Edges == {W(255), <<255, 255, 255, 127, 0, 0, 0, 0>>, <<0, 0, 0, 128, 0, 0, 0, 0>>, <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>,
          <<255, 255, 255, 255, 255, 255, 255, 127>>, MinW, Ones8, <<254, 255, 255, 255, 255, 255, 255, 255>>}
R8 == 0..255
WithVal(F(_)) ==
  IF ValSel = "all" THEN \E v \in {Zero8, One8, W(3), MinW, <<255, 255, 255, 255, 255, 255, 255, 127>>, Ones8, <<255, 255, 255, 255, 0, 0, 0, 0>>} : F(v)
  ELSE \E k \in Pick({"small", "small", "edge", "rnd"}) :
       CASE k = "small" -> \E v \in Pick(Smalls) : F(v)
         [] k = "edge" -> \E v \in Pick(Edges) : F(v)
         [] OTHER -> \E a \in Pick(R8), b \in Pick(R8), c \in Pick(R8), n \in Pick(1..8) :
              F([i \in 1..8 |-> IF i <= n THEN <<a, b, c, (a + b) % 256, (b + c) % 256, (a + 3 * c) % 256, (a + b + c) % 256, (b + 7 * c) % 256>>[i] ELSE 0])
\* a decimal constant too large for intmax_t has no type
Lit(v, base, suf) == IF IsNeg(v) /\ base = "dec" /\ suf \in {"", "l", "LL"} THEN D("0", Zero8, FALSE, TRUE, 16)
   ELSE D((CASE base = "dec" -> Dec(v) [] base = "hex" -> "0x" \o HexTrim(v, 8) [] base = "oct" -> Oct(v)) \o suf, v,
          suf \in {"u", "U", "ul", "LU", "ull"} \/ IsNeg(v), TRUE, 16)
(* the macros the reader of the behaviours defines before the directive *)
Names == {D("ONE", One8, FALSE, TRUE, 16), D("BIG", <<255, 255, 255, 255, 0, 0, 0, 0>>, FALSE, TRUE, 16), D("UNS", W(5), TRUE, TRUE, 16), D("EMPTY 2", W(2), FALSE, TRUE, 16),
          D("NEG", W(-4), FALSE, TRUE, 16), D("undefined_name", Zero8, FALSE, TRUE, 16), D("int", Zero8, FALSE, TRUE, 16), D("ID(6)", W(6), FALSE, TRUE, 16), D("sizeof", Zero8, FALSE, TRUE, 16),
          D("SELF", Zero8, FALSE, TRUE, 16), D("FUNC", Zero8, FALSE, TRUE, 16),
          D("defined ONE", One8, FALSE, TRUE, 16), D("defined(UNS)", One8, FALSE, TRUE, 16), D("defined nope", Zero8, FALSE, TRUE, 16), D("defined ( nope )", Zero8, FALSE, TRUE, 16),
          D("defined ID", One8, FALSE, TRUE, 16), D("'a'", W(97), FALSE, TRUE, 16), D("'\\0'", Zero8, FALSE, TRUE, 16), D("'\\n'", W(10), FALSE, TRUE, 16), D("L'b'", W(98), FALSE, TRUE, 16)}
Drop(n) == SubSeq(stk, 1, Len(stk) - n)
Push(e, d) == stk' = Append(Drop(d), e) /\ nops' = nops + (IF d > 0 THEN 1 ELSE 0)
Leaf == /\ ph = "build" /\ Len(stk) < 4 /\ nops < MaxOps
        /\ \E k \in Pick(CASE ValSel = "all" -> {"lit"} [] ValSel = "bomb" -> {"zero", "one", "bomb", "bomb2", "name"} [] OTHER -> {"lit", "lit2", "name"}) :
           IF k = "name" THEN \E n \in Pick(Names) : Push(n, 0)
           ELSE IF k = "zero" THEN Push(D("0", Zero8, FALSE, TRUE, 16), 0)
           ELSE IF k = "one" THEN Push(D("2", W(2), FALSE, TRUE, 16), 0)
           ELSE IF k = "bomb" THEN Push(D("1 / 0", Zero8, FALSE, FALSE, 13), 0)         \* must not be evaluated
           ELSE IF k = "bomb2" THEN Push(D("(7u % undefined_name)", Zero8, TRUE, FALSE, 16), 0)
           ELSE WithVal(LAMBDA v : \E base \in Pick({"dec", "hex", "oct"}), suf \in Pick({"", "u", "l", "U", "ul", "LL", "LU", "ull"}) : Push(Lit(v, base, suf), 0))
        /\ UNCHANGED ph
Top == stk[Len(stk)]
Snd == stk[Len(stk) - 1]
Thd == stk[Len(stk) - 2]
Prec(op) == CASE op \in {"*", "/", "%"} -> 13 [] op \in {"+", "-"} -> 12 [] op \in {"<<", ">>"} -> 11 [] op \in {"<", ">", "<=", ">="} -> 10
              [] op \in {"==", "!="} -> 9 [] op = "&" -> 8 [] op = "^" -> 7 [] op = "|" -> 6 [] op = "&&" -> 5 [] op = "||" -> 4
Less(u, a, b) == IF u THEN Ltu(a, b) ELSE Lts(a, b)
(* <<defined, value, unsigned>> *)
BinVal(op, a, b) ==
  LET u == a.u \/ b.u x == a.v y == b.v IN
  CASE op = "+" -> LET r == Add8(x, y) IN <<u \/ IsNeg(x) # IsNeg(y) \/ IsNeg(r) = IsNeg(x), r, u>>
    [] op = "-" -> LET r == Sub8(x, y) IN <<u \/ IsNeg(x) = IsNeg(y) \/ IsNeg(r) = IsNeg(x), r, u>>
    [] op = "*" -> LET m == Mul16(IF u THEN x ELSE Abs8(x), IF u THEN y ELSE Abs8(y)) neg == ~u /\ IsNeg(x) # IsNeg(y) r == IF neg THEN Neg8(Low8(m)) ELSE Low8(m)
                   IN <<u \/ (High8(m) = Zero8 /\ (~IsNeg(Low8(m)) \/ (neg /\ Low8(m) = MinW))), r, u>>
    [] op \in {"/", "%"} -> IF y = Zero8 \/ (~u /\ x = MinW /\ y = Ones8) THEN <<FALSE, Zero8, u>>
                            ELSE LET q == IF u THEN DivU(x, y) ELSE DivS(x, y) IN <<TRUE, IF op = "/" THEN q[1] ELSE q[2], u>>
    [] op = "&" -> <<TRUE, And8(x, y), u>> [] op = "|" -> <<TRUE, Or8(x, y), u>> [] op = "^" -> <<TRUE, Xor8(x, y), u>>
    [] op \in {"<<", ">>"} ->          \* the type is that of the left operand
         IF (\E i \in 2..8 : y[i] # 0) \/ y[1] > 63 THEN <<FALSE, Zero8, a.u>>
         ELSE IF op = "<<" THEN LET r == Shl8(x, y[1]) IN <<a.u \/ (~IsNeg(x) /\ ~IsNeg(r) /\ Shr8(r, y[1], 0) = x), r, a.u>>
         ELSE <<TRUE, Shr8(x, y[1], IF IsNeg(x) /\ ~a.u THEN 255 ELSE 0), a.u>>
    [] op = "<" -> <<TRUE, Bit(Less(u, x, y)), FALSE>> [] op = ">" -> <<TRUE, Bit(Less(u, y, x)), FALSE>>
    [] op = "<=" -> <<TRUE, Bit(~Less(u, y, x)), FALSE>> [] op = ">=" -> <<TRUE, Bit(~Less(u, x, y)), FALSE>>
    [] op = "==" -> <<TRUE, Bit(x = y), FALSE>> [] op = "!=" -> <<TRUE, Bit(x # y), FALSE>>
    [] op = "&&" -> <<~True8(x) \/ b.ok, Bit(True8(x) /\ True8(y)), FALSE>>
    [] op = "||" -> <<True8(x) \/ b.ok, Bit(True8(x) \/ True8(y)), FALSE>>
Logical == {"&&", "||"}
Binary(op) == /\ Len(stk) >= 2
              /\ LET a == Snd b == Top r == BinVal(op, a, b) IN
                 Push(D(Wrap(a, Prec(op)) \o " " \o op \o " " \o Wrap(b, Prec(op) + 1), r[2], r[3], a.ok /\ r[1] /\ (op \in Logical \/ b.ok), Prec(op)), 2)
Unary(op) == /\ Len(stk) >= 1
             /\ LET e == Top r == CASE op = "-" -> <<e.u \/ e.v # MinW, Neg8(e.v), e.u>> [] op = "+" -> <<TRUE, e.v, e.u>>
                                    [] op = "~" -> <<TRUE, Not8(e.v), e.u>> [] op = "!" -> <<TRUE, Bit(~True8(e.v)), FALSE>>
                IN Push(D(op \o " " \o Wrap(e, 15), r[2], r[3], e.ok /\ r[1], 15), 1)
Ternary == /\ Len(stk) >= 3
           /\ LET c == Thd a == Snd b == Top x == IF True8(c.v) THEN a ELSE b IN
              Push(D(Wrap(c, 4) \o " ? " \o Wrap(a, 3) \o " : " \o Wrap(b, 3), x.v, a.u \/ b.u, c.ok /\ x.ok, 3), 3)
Paren == Len(stk) >= 1 /\ Top.p < 16 /\ stk' = Append(Drop(1), [Top EXCEPT !.s = "(" \o @ \o ")", !.p = 16]) /\ UNCHANGED nops
Apply == /\ ph = "build" /\ nops < MaxOps
         /\ \E op \in Pick(Ops) : CASE op \in {"u-", "u+", "~", "!"} -> Unary(CASE op = "u-" -> "-" [] op = "u+" -> "+" [] OTHER -> op)
                                    [] op = "?:" -> Ternary [] op = "()" -> Paren [] OTHER -> Binary(op)
         /\ UNCHANGED ph
Init == ph = "build" /\ stk = <<>> /\ nops = 0
Finish == ph = "build" /\ Len(stk) = 1 /\ nops > 0 /\ Top.ok /\ ph' = "emit" /\ UNCHANGED <<stk, nops>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<stk, nops>>
Next == Leaf \/ Apply \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
(* relational and logical operators give 0 or 1 of type intmax_t *)
BoolSigned == \A i \in DOMAIN stk : stk[i].p \in {4, 5, 9, 10} => ~stk[i].u /\ stk[i].v \in {Zero8, One8}
WordOK == \A i \in DOMAIN stk : \A j \in 1..8 : stk[i].v[j] \in R8
LitText(v, u) == IF u THEN Dec(v) \o "u" ELSE IF v = MinW THEN "(-9223372036854775807 - 1)" ELSE IF IsNeg(v) THEN "(-" \o Dec(Neg8(v)) \o ")" ELSE Dec(v)
Emit == ph = "emit" => PrintT(ToJson([s |-> Top.s, t |-> IF True8(Top.v) THEN 1 ELSE 0, u |-> IF Top.u THEN 1 ELSE 0, lit |-> LitText(Top.v, Top.u)]))
=============================================================================
