------------------------------- MODULE IntExpr -------------------------------
(* Integer expressions of C (6.3.1, 6.4.4.1, 6.5).  The state is a stack of denotations: each push of an
   operand and each operator application is one transition, so the behaviours of this machine are the
   postfix evaluations of all expressions.  A denotation carries the source text, the type, the value,
   whether it is defined (no undefined behaviour when evaluated), the object it designates and the side
   effects evaluation has; && || ?: drop the effects and the undefinedness of the operand not evaluated. *)
EXTENDS Bits, TLC, Json, SequencesExt, FiniteSets

CONSTANTS MinOps, MaxOps, MaxLeaves, Types, Ops, Forms, Ctxs, Pick(_), ValSel
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES ph, stk, objs, nops, out
vars == <<ph, stk, objs, nops, out>>

(* ------------------------------------------------------------------ types *)
Size(t) == CASE t \in {"bool", "char", "schar", "uchar"} -> 1 [] t \in {"short", "ushort"} -> 2
             [] t \in {"int", "uint"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"char", "schar", "short", "int", "long", "llong"}
Rank(t) == CASE t = "bool" -> 0 [] t \in {"char", "schar", "uchar"} -> 1 [] t \in {"short", "ushort"} -> 2
             [] t \in {"int", "uint"} -> 3 [] t \in {"long", "ulong"} -> 4 [] OTHER -> 5
Uns(t) == CASE t = "int" -> "uint" [] t = "long" -> "ulong" [] t = "llong" -> "ullong" [] OTHER -> t
CName(t) == CASE t = "bool" -> "_Bool" [] t = "char" -> "char" [] t = "schar" -> "signed char" [] t = "uchar" -> "unsigned char"
             [] t = "short" -> "short" [] t = "ushort" -> "unsigned short" [] t = "int" -> "int" [] t = "uint" -> "unsigned int"
             [] t = "long" -> "long" [] t = "ulong" -> "unsigned long" [] t = "llong" -> "long long" [] t = "ullong" -> "unsigned long long"
Promote(t) == IF Rank(t) < 3 THEN "int" ELSE t          \* int holds every value of the narrower types
(* usual arithmetic conversions on promoted types, 6.3.1.8 *)
Common(a, b) == LET p == Promote(a) q == Promote(b)
                    hi == IF Rank(p) >= Rank(q) THEN p ELSE q
                    lo == IF Rank(p) >= Rank(q) THEN q ELSE p
                IN IF p = q THEN p
                   ELSE IF Signed(p) = Signed(q) THEN hi
                   ELSE IF ~Signed(hi) THEN hi
                   ELSE IF Rank(p) = Rank(q) THEN Uns(hi)
                   ELSE IF Size(hi) > Size(lo) THEN hi
                   ELSE Uns(hi)
Conv(t, v) == IF t = "bool" THEN (IF v = Zero8 THEN Zero8 ELSE One8) ELSE Ext(v, Size(t), Signed(t))
Bit(x) == IF x THEN One8 ELSE Zero8
Truth(v) == v # Zero8

MinV(t) == IF Signed(t) THEN Ext([i \in 1..8 |-> IF i = Size(t) THEN 128 ELSE 0], Size(t), TRUE) ELSE Zero8
MaxV(t) == IF t = "bool" THEN One8
           ELSE IF Signed(t) THEN [i \in 1..8 |-> IF i < Size(t) THEN 255 ELSE IF i = Size(t) THEN 127 ELSE 0]
           ELSE Ext(Ones8, Size(t), FALSE)
(* boundary values; ValSel = "rand" adds random words *)
(* a word made of random bytes: the n low bytes, extended with sg *)
RandomWord(t, a, b, c, n, sg) ==
  LET w == <<a, b, (a + c) % 256, c, (b + 3 * c) % 256, (a + b) % 256, (c + 5 * a) % 256, (a + b + c) % 256>>
  IN Conv(t, [i \in 1..8 |-> IF i <= n THEN w[i] ELSE sg])
Small0(t) == {Conv(t, W(k)) : k \in {0, 1, 2, 3, 5, 7, 10, 31, 63}}
Edge(t) == {MinV(t), MaxV(t), Conv(t, Ones8), Conv(t, W(-2)), Conv(t, Sub8(MaxV(t), One8)), Conv(t, W(128)), Conv(t, W(255)),
            Conv(t, W(32768)), Conv(t, W(65535)), Conv(t, <<0, 0, 0, 128, 0, 0, 0, 0>>), Conv(t, <<255, 255, 255, 255, 0, 0, 0, 0>>),
            Conv(t, <<0, 0, 0, 0, 1, 0, 0, 0>>)}
R8 == 0..255
Vals(t) == CASE ValSel = "few" -> {Conv(t, One8), MaxV(t), MinV(t), Conv(t, W(-3))}
             [] ValSel = "rand" -> {}
             [] OTHER -> Small0(t) \cup Edge(t)
(* the operand values an action may choose: all of Vals, or one random one *)
WithVal(t, P(_)) ==
  IF ValSel # "rand" THEN \E v \in Vals(t) : P(v)
  ELSE \E k \in Pick({"small", "edge", "rnd"}) :
       CASE k = "small" -> \E v \in Pick(Small0(t)) : P(v)
         [] k = "edge" -> \E v \in Pick(Edge(t)) : P(v)
         [] k = "rnd" -> \E a \in Pick(R8), b \in Pick(R8), c \in Pick(R8), n \in Pick(1..8), sg \in Pick({0, 255}) : P(RandomWord(t, a, b, c, n, sg))

(* --------------------------------------------------------------- literals *)
RECURSIVE Dec(_)
Dec(w) == LET x == ShortDiv(w, 10, 0, 8) IN (IF x[1] = Zero8 THEN "" ELSE Dec(x[1])) \o HexDig[x[2] + 1]
RECURSIVE HexTrim(_, _)
HexTrim(w, i) == IF i = 0 THEN "0" ELSE IF w[i] = 0 THEN HexTrim(w, i - 1)
                 ELSE (IF w[i] < 16 THEN HexDig[w[i] + 1] ELSE HexByte(w[i])) \o HexOf(w, i - 1)
RECURSIVE Oct(_)
Oct(w) == LET x == ShortDiv(w, 8, 0, 8) IN (IF x[1] = Zero8 THEN "0" ELSE Oct(x[1])) \o HexDig[x[2] + 1]
Fits(t, w) == ~(Signed(t) /\ IsNeg(w)) /\ Conv(t, w) = w
(* the first type of the list of 6.4.4.1p5 that can represent the value; "" if none *)
LitType(dec, suf, w) ==
  LET lst == CASE suf = "" -> IF dec THEN <<"int", "long">> ELSE <<"int", "uint", "long", "ulong">>
               [] suf = "u" -> <<"uint", "ulong">>
               [] suf = "l" -> IF dec THEN <<"long">> ELSE <<"long", "ulong">>
               [] suf = "ul" -> <<"ulong">>
               [] suf = "ll" -> IF dec THEN <<"llong">> ELSE <<"llong", "ullong">>
               [] suf = "ull" -> <<"ullong">>
      c == SelectSeq(lst, LAMBDA t : Fits(t, w))
  IN IF c = <<>> THEN "" ELSE c[1]
SufText(suf) == CASE suf = "" -> {""} [] suf = "u" -> {"u", "U"} [] suf = "l" -> {"l", "L"} [] suf = "ul" -> {"ul", "LU", "uL"}
                  [] suf = "ll" -> {"ll", "LL"} [] suf = "ull" -> {"ull", "LLU", "uLL"}

(* ----------------------------------------------------------- denotations *)
D(t, v, ok, s, lv, eff, p) == [t |-> t, v |-> v, ok |-> ok, s |-> s, lv |-> lv, eff |-> eff, p |-> p]
(* p: precedence of the text: 16 primary, 15 unary, 13 * /, 12 +, 11 <<, 10 <, 9 ==, 8 &, 7 ^, 6 |, 5 &&, 4 ||, 3 ?:, 2 =, 1 comma *)
Wrap(e, p) == IF e.p >= p THEN e.s ELSE "(" \o e.s \o ")"
Top == stk[Len(stk)]
Snd == stk[Len(stk) - 1]
Thd == stk[Len(stk) - 2]
Drop(n) == SubSeq(stk, 1, Len(stk) - n)

ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^"}
ShiftOps == {"<<", ">>"}
RelOps == {"<", ">", "<=", ">="}
EqOps == {"==", "!="}
Prec(op) == CASE op \in {"*", "/", "%"} -> 13 [] op \in {"+", "-"} -> 12 [] op \in ShiftOps -> 11 [] op \in RelOps -> 10
              [] op \in EqOps -> 9 [] op = "&" -> 8 [] op = "^" -> 7 [] op = "|" -> 6 [] op = "&&" -> 5 [] op = "||" -> 4

(* <<defined, value>> of a op b in type t (both already converted to t) *)
InRange(t, r) == Conv(t, r) = r
Arith(op, t, a, b) ==
  LET sg == Signed(t) IN
  CASE op = "+" -> LET r == Add8(a, b) IN
                   <<~sg \/ (~(IsNeg(a) = IsNeg(b) /\ IsNeg(r) # IsNeg(a)) /\ InRange(t, r)), Conv(t, r)>>
    [] op = "-" -> LET r == Sub8(a, b) IN
                   <<~sg \/ (~(IsNeg(a) # IsNeg(b) /\ IsNeg(r) # IsNeg(a)) /\ InRange(t, r)), Conv(t, r)>>
    [] op = "*" -> IF sg
                   THEN LET m == Mul16(Abs8(a), Abs8(b)) neg == IsNeg(a) # IsNeg(b)
                            r == IF neg THEN Neg8(Low8(m)) ELSE Low8(m)
                        IN <<High8(m) = Zero8 /\ (~IsNeg(Low8(m)) \/ (neg /\ Low8(m) = MinV("long"))) /\ InRange(t, r), Conv(t, r)>>
                   ELSE <<TRUE, Conv(t, Mul8(a, b))>>
    [] op \in {"/", "%"} ->
         IF b = Zero8 \/ (sg /\ a = MinV(t) /\ b = Ones8) THEN <<FALSE, Zero8>>
         ELSE LET x == IF sg THEN DivS(a, b) ELSE DivU(a, b) IN <<TRUE, Conv(t, IF op = "/" THEN x[1] ELSE x[2])>>
    [] op = "&" -> <<TRUE, And8(a, b)>>
    [] op = "|" -> <<TRUE, Or8(a, b)>>
    [] op = "^" -> <<TRUE, Xor8(a, b)>>
Shift(op, t, a, b) ==          \* b is the (converted) right operand
  IF b[2] # 0 \/ b[3] # 0 \/ b[4] # 0 \/ b[5] # 0 \/ b[6] # 0 \/ b[7] # 0 \/ b[8] # 0 \/ b[1] >= 8 * Size(t) THEN <<FALSE, Zero8>>
  ELSE IF op = "<<"
       THEN LET r == Shl8(a, b[1]) IN
            IF Signed(t) THEN <<~IsNeg(a) /\ ~IsNeg(r) /\ InRange(t, r) /\ Shr8(r, b[1], 0) = a, Conv(t, r)>>
            ELSE <<TRUE, Conv(t, r)>>
       ELSE <<TRUE, Shr8(a, b[1], IF IsNeg(a) /\ Signed(t) THEN 255 ELSE 0)>>
Less(t, a, b) == IF Signed(t) THEN Lts(a, b) ELSE Ltu(a, b)
Rel(op, t, a, b) == CASE op = "<" -> Less(t, a, b) [] op = ">" -> Less(t, b, a) [] op = "<=" -> ~Less(t, b, a)
                      [] op = ">=" -> ~Less(t, a, b) [] op = "==" -> a = b [] op = "!=" -> a # b

(* <<type, defined, value>> of the binary operators without control flow *)
BinVal(op, ta, va, tb, vb) ==
  IF op \in ShiftOps
  THEN LET t == Promote(ta) r == Shift(op, t, Conv(t, va), Conv(Promote(tb), vb)) IN <<t, r[1], r[2]>>
  ELSE LET t == Common(ta, tb) a == Conv(t, va) b == Conv(t, vb) IN
       IF op \in ArithOps THEN LET r == Arith(op, t, a, b) IN <<t, r[1], r[2]>>
       ELSE <<"int", TRUE, Bit(Rel(op, t, a, b))>>

(* ----------------------------------------------------------- transitions *)
Push(e, d) == /\ stk' = Append(Drop(d), e) /\ nops' = nops + (IF d > 0 THEN 1 ELSE 0)
NLeaf == Len(objs)
ObjSrc(st, n) == CASE st = "g" -> "g@" [] st = "l" -> "l" [] st = "c" -> "l" [] st = "q" -> "*q" [] st = "m" -> "sm.f" [] st = "s" -> "z"
                   [] st = "pm" -> "pm->f" [] st = "a" -> "l" [] st = "pa" -> "l" [] st = "reg" -> "l"
ObjText(st, n) == ObjSrc(st, n) \o (IF st = "g" THEN "_" ELSE "") \o ToString(n) \o (IF st = "a" THEN "[1]" ELSE "")

Leaf == /\ ph = "build" /\ Cardinality(DOMAIN objs) < MaxLeaves /\ nops < MaxOps
        /\ \E f \in Pick(Forms) :
           IF f = "lit"
           THEN \E t \in Pick(Types \ {"bool"}) : WithVal(t, LAMBDA v : \E base \in Pick({"dec", "hex", "oct"}) :
                \E suf \in Pick({"", "u", "l", "ul", "ll", "ull"}) :
                 LET w == IF IsNeg(v) /\ Signed(t) THEN Not8(v) ELSE v IN
                 LET ty == LitType(base = "dec", suf, w) IN
                 IF ty = "" THEN UNCHANGED <<stk, objs, nops>>
                 ELSE \E sx \in Pick(SufText(suf)) :
                      LET txt == (CASE base = "dec" -> Dec(w) [] base = "hex" -> "0x" \o HexTrim(w, 8) [] base = "oct" -> Oct(w)) \o sx
                      IN /\ Push(D(ty, w, TRUE, txt, 0, <<>>, 16), 0)
                         /\ objs' = Append(objs, [t |-> ty, v |-> w, st |-> "none"]))
           ELSE IF f = "litc"          \* a literal converted to the type
           THEN \E t \in Pick(Types) : WithVal(t, LAMBDA v :
                 /\ Push(D(t, v, TRUE, "(" \o CName(t) \o ")0x" \o HexTrim(v, 8) \o "UL", 0, <<>>, 15), 0)
                 /\ objs' = Append(objs, [t |-> t, v |-> v, st |-> "none"]))
           ELSE \E t \in Pick(Types) : WithVal(t, LAMBDA v :
                 /\ Push(D(t, v, TRUE, ObjText(f, NLeaf + 1), NLeaf + 1, <<>>, IF f = "q" THEN 15 ELSE 16), 0)
                 /\ objs' = Append(objs, [t |-> t, v |-> v, st |-> f]))
        /\ UNCHANGED <<ph, out>>

Unary(op) ==
  /\ Len(stk) >= 1
  /\ LET e == Top  t == Promote(e.t)  v == Conv(t, e.v) IN
     LET r == CASE op = "-" -> LET x == Arith("-", t, Zero8, v) IN <<t, x[1], x[2]>>
                [] op = "+" -> <<t, TRUE, v>>
                [] op = "~" -> <<t, TRUE, Conv(t, Not8(v))>>
                [] op = "!" -> <<"int", TRUE, Bit(~Truth(v))>>
                [] op = "sizeof" -> <<"ulong", TRUE, W(Size(e.t))>>
     IN IF op = "sizeof" THEN Push(D("ulong", r[3], TRUE, "sizeof(" \o e.s \o ")", 0, <<>>, 15), 1)
        ELSE Push(D(r[1], r[3], e.ok /\ r[2], op \o " " \o Wrap(e, 15), 0, e.eff, 15), 1)

Binary(op) ==
  /\ Len(stk) >= 2
  /\ LET a == Snd b == Top
         r == BinVal(op, a.t, a.v, b.t, b.v)
         txt == Wrap(a, Prec(op)) \o " " \o op \o " " \o Wrap(b, Prec(op) + 1)
     IN Push(D(r[1], r[3], a.ok /\ b.ok /\ r[2], txt, 0, a.eff \o b.eff, Prec(op)), 2)

Logical(op) ==
  /\ Len(stk) >= 2
  /\ LET a == Snd b == Top
         sc == IF op = "&&" THEN ~Truth(a.v) ELSE Truth(a.v)     \* right operand not evaluated
         txt == Wrap(a, Prec(op)) \o " " \o op \o " " \o Wrap(b, Prec(op) + 1)
     IN Push(D("int", IF sc THEN Bit(op = "||") ELSE Bit(Truth(b.v)), a.ok /\ (sc \/ b.ok), txt, 0,
               IF sc THEN a.eff ELSE a.eff \o b.eff, Prec(op)), 2)

Comma == /\ Len(stk) >= 2
         /\ LET a == Snd b == Top IN Push(D(b.t, b.v, a.ok /\ b.ok, Wrap(a, 1) \o ", " \o Wrap(b, 2), 0, a.eff \o b.eff, 1), 2)

Ternary == /\ Len(stk) >= 3
           /\ LET c == Thd a == Snd b == Top t == Common(a.t, b.t) x == IF Truth(c.v) THEN a ELSE b
              IN Push(D(t, Conv(t, x.v), c.ok /\ x.ok, Wrap(c, 4) \o " ? " \o Wrap(a, 1) \o " : " \o Wrap(b, 3), 0, c.eff \o x.eff, 3), 3)

Cast == /\ Len(stk) >= 1
        /\ \E t \in Pick(Types) :
           LET e == Top IN Push(D(t, Conv(t, e.v), e.ok, "(" \o CName(t) \o ")" \o Wrap(e, 15), 0, e.eff, 15), 1)

(* a = b, the object under a is a plain leaf, so its value is the initial one *)
Assign == /\ Len(stk) >= 2 /\ Snd.lv > 0 /\ objs[Snd.lv].st # "c"
          /\ LET a == Snd b == Top v == Conv(a.t, b.v)
             IN Push(D(a.t, v, b.ok, Wrap(a, 15) \o " = " \o Wrap(b, 2), 0, b.eff \o <<<<a.lv, v>>>>, 2), 2)
AssignOp(op) ==
          /\ Len(stk) >= 2 /\ Snd.lv > 0 /\ objs[Snd.lv].st # "c"
          /\ LET a == Snd b == Top r == BinVal(op, a.t, a.v, b.t, b.v) v == Conv(a.t, r[3])
             IN Push(D(a.t, v, b.ok /\ r[2], Wrap(a, 15) \o " " \o op \o "= " \o Wrap(b, 2), 0, b.eff \o <<<<a.lv, v>>>>, 2), 2)
Inc(op, post) ==
          /\ Len(stk) >= 1 /\ Top.lv > 0 /\ objs[Top.lv].st # "c"
          /\ LET a == Top r == BinVal(op, a.t, a.v, "int", One8) v == Conv(a.t, r[3])
             IN Push(D(a.t, IF post THEN a.v ELSE v, r[2],
                       IF post THEN Wrap(a, 16) \o op \o op ELSE op \o op \o Wrap(a, 15), 0, <<<<a.lv, v>>>>, IF post THEN 16 ELSE 15), 1)

Apply(op) == CASE op \in {"neg", "pos", "~", "!", "sizeof"} -> Unary(CASE op = "neg" -> "-" [] op = "pos" -> "+" [] OTHER -> op)
               [] op \in ArithOps \cup ShiftOps \cup RelOps \cup EqOps -> Binary(op)
               [] op \in {"&&", "||"} -> Logical(op)
               [] op = "," -> Comma [] op = "?:" -> Ternary [] op = "cast" -> Cast [] op = "=" -> Assign
               [] op \in {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="} ->
                    AssignOp(CASE op = "+=" -> "+" [] op = "-=" -> "-" [] op = "*=" -> "*" [] op = "/=" -> "/" [] op = "%=" -> "%"
                               [] op = "&=" -> "&" [] op = "|=" -> "|" [] op = "^=" -> "^")
               [] op = "<<=" -> AssignOp("<<") [] op = ">>=" -> AssignOp(">>")
               [] op = "++x" -> Inc("+", FALSE) [] op = "--x" -> Inc("-", FALSE) [] op = "x++" -> Inc("+", TRUE) [] op = "x--" -> Inc("-", TRUE)
Arity(op) == CASE op = "?:" -> 3 [] op \in {"neg", "pos", "~", "!", "sizeof", "cast", "++x", "--x", "x++", "x--"} -> 1 [] OTHER -> 2
LvOps == {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "++x", "--x", "x++", "x--"}
OpEnabled(op) == /\ Len(stk) >= Arity(op) /\ nops < MaxOps
                 /\ op \in LvOps => LET a == stk[Len(stk) + 1 - Arity(op)] IN a.lv > 0 /\ objs[a.lv].st # "c"
Step == /\ ph = "build"
        /\ \E op \in Pick({o \in Ops : OpEnabled(o)}) : Apply(op)
        /\ UNCHANGED <<ph, objs, out>>

Finish == /\ ph = "build" /\ Len(stk) = 1 /\ nops >= MinOps /\ Top.ok
          /\ \E cx \in Pick(Ctxs), t2 \in Pick(Types) :
               out' = [s |-> Top.s, t |-> Top.t, sz |-> Size(Top.t), v |-> HexTrim(Top.v, 8), cx |-> cx, t2 |-> CName(t2), tn |-> CName(Top.t),
                       v2 |-> HexTrim(Conv(t2, Top.v), 8), truth |-> Truth(Top.v),
                       objs |-> [i \in DOMAIN objs |->
                                  LET fin == SelectSeq(Top.eff, LAMBDA e : e[1] = i) IN
                                  [t |-> CName(objs[i].t), st |-> objs[i].st, v |-> HexTrim(objs[i].v, 8),
                                   fin |-> HexTrim(IF fin = <<>> THEN objs[i].v ELSE fin[Len(fin)][2], 8)]]]
          /\ ph' = "emit" /\ UNCHANGED <<stk, objs, nops>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<stk, objs, nops, out>>

Init == ph = "build" /\ stk = <<>> /\ objs = <<>> /\ nops = 0 /\ out = <<>>
CanLeaf == ph = "build" /\ NLeaf < MaxLeaves /\ nops < MaxOps
Next == Leaf \/ Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ invariants *)
(* every value is representable in its type *)
Canonical == \A i \in DOMAIN stk : stk[i].ok => Conv(stk[i].t, stk[i].v) = stk[i].v
(* an object is modified at most once between sequence points *)
OneWrite == \A i \in DOMAIN stk : \A j, k \in DOMAIN stk[i].eff : j # k => stk[i].eff[j][1] # stk[i].eff[k][1]
(* the integer promotions never yield a type narrower than int; comparisons yield 0 or 1 *)
Promoted == \A i \in DOMAIN stk : stk[i].p \in {4, 5, 9, 10} => stk[i].t = "int" /\ stk[i].v \in {Zero8, One8}
Emit == ph = "emit" => PrintT(ToJson(out))
=============================================================================
