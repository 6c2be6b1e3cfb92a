------------------------------ MODULE FloatExpr ------------------------------
(* Floating expressions of C on IEC 60559 values (6.3.1.4, 6.3.1.5, 6.3.1.8, 6.5, annex F).  A value is
   (-1)^sg * n * 2^e with n odd (or 0), an infinity or a NaN; float results are rounded to nearest even
   whenever the exact result fits TLC's integers, other operations are enabled only when exact.
   Same stack machine as IntExpr; integer values take part through conversions.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MinOps, MaxOps, MaxLeaves, Types, Ops, Forms, Ctxs, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, stk, objs, nops, out
vars == <<ph, stk, objs, nops, out>>

IsF(t) == t \in {"float", "double"}
Bits(t) == CASE t = "bool" -> 1 [] t \in {"schar", "uchar"} -> 8 [] t \in {"short", "ushort"} -> 16 [] t \in {"int", "uint"} -> 32
             [] t \in {"long", "ulong"} -> 64 [] t = "float" -> 24 [] t = "double" -> 30
Sg(t) == t \in {"schar", "short", "int", "long"}
CName(t) == CASE t = "bool" -> "_Bool" [] t = "schar" -> "signed char" [] t = "uchar" -> "unsigned char" [] t = "short" -> "short"
              [] t = "ushort" -> "unsigned short" [] t = "int" -> "int" [] t = "uint" -> "unsigned int" [] t = "long" -> "long"
              [] t = "ulong" -> "unsigned long" [] OTHER -> t
Size(t) == CASE t \in {"bool", "schar", "uchar"} -> 1 [] t \in {"short", "ushort"} -> 2 [] t \in {"int", "uint", "float"} -> 4 [] OTHER -> 8

F(sg, n, e) == [k |-> "fin", sg |-> sg, n |-> n, e |-> e]
Inf(sg) == [k |-> "inf", sg |-> sg, n |-> 0, e |-> 0]
NaN == [k |-> "nan", sg |-> 0, n |-> 0, e |-> 0]
Bad == [k |-> "bad", sg |-> 0, n |-> 0, e |-> 0]         \* outside the fragment, or undefined
Z(sg) == F(sg, 0, 0)
RECURSIVE NormN(_, _, _)
NormN(sg, n, e) == IF n = 0 THEN Z(sg) ELSE IF n % 2 = 0 THEN NormN(sg, n \div 2, e + 1) ELSE F(sg, n, e)
RECURSIVE Len2(_)
Len2(n) == IF n = 0 THEN 0 ELSE 1 + Len2(n \div 2)
Pow(k) == 2 ^ k
(* nearest even with p bits; sticky: something nonzero below n *)
Round(sg, n, e, p, sticky) ==
  LET d == Len2(n) - p IN
  IF d <= 0 THEN IF sticky THEN Bad ELSE NormN(sg, n, e)
  ELSE LET q == n \div Pow(d)  r == n % Pow(d)  half == Pow(d - 1)
           up == r > half \/ (r = half /\ (sticky \/ q % 2 = 1))
       IN NormN(sg, IF up THEN q + 1 ELSE q, e + d)
Mx == 1073741824   \* 2^30
(* a value as an operand of type t *)
RoundTo(t, v) == IF v.k # "fin" \/ v.n = 0 THEN v
                 ELSE IF t = "float" THEN LET r == Round(v.sg, v.n, v.e, 24, FALSE) IN
                                          IF Len2(r.n) + r.e > 127 \/ r.e < -120 THEN Bad ELSE r
                 ELSE IF Len2(v.n) + v.e > 900 \/ v.e < -900 THEN Bad ELSE v
(* truncation towards zero to an integer *)
Trunc(v) == IF v.n = 0 THEN Z(0)
            ELSE IF v.e >= 0 THEN v
            ELSE IF -v.e > 30 THEN Z(0)
            ELSE LET q == v.n \div Pow(-v.e) IN IF q = 0 THEN Z(0) ELSE NormN(v.sg, q, 0)
InInt(t, v) == LET L == Len2(v.n) + v.e IN      \* v integral
               \/ v.n = 0
               \/ ~Sg(t) /\ v.sg = 0 /\ L <= Bits(t)
               \/ Sg(t) /\ (L <= Bits(t) - 1 \/ (v.sg = 1 /\ v.n = 1 /\ v.e = Bits(t) - 1))
Nonzero(v) == v.k # "fin" \/ v.n # 0
(* conversion of v of type ft to type t *)
Conv(ft, t, v) ==
  IF v.k = "bad" THEN Bad
  ELSE IF t = ft THEN v
  ELSE IF t = "bool" THEN (IF Nonzero(v) THEN F(0, 1, 0) ELSE Z(0))
  ELSE IF IsF(t) THEN RoundTo(t, v)
  ELSE IF v.k # "fin" THEN Bad                              \* undefined
  ELSE LET i == Trunc(v) IN
       IF InInt(t, i) THEN i
       ELSE Bad                                             \* undefined, or wraps (IntExpr covers that)

Neg(v) == IF v.k = "nan" THEN v ELSE IF v.k = "bad" THEN v ELSE [v EXCEPT !.sg = 1 - v.sg]
Min2(a, b) == IF a < b THEN a ELSE b
Signed(sg, n) == IF sg = 1 THEN -n ELSE n
AddV(t, a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN NaN
  ELSE IF a.k = "inf" /\ b.k = "inf" THEN IF a.sg = b.sg THEN a ELSE NaN
  ELSE IF a.k = "inf" THEN a ELSE IF b.k = "inf" THEN b
  ELSE IF a.n = 0 /\ b.n = 0 THEN Z(IF a.sg = 1 /\ b.sg = 1 THEN 1 ELSE 0)
  ELSE IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a
  ELSE LET e == Min2(a.e, b.e) IN
       IF Len2(a.n) + (a.e - e) > 29 \/ Len2(b.n) + (b.e - e) > 29 THEN Bad
       ELSE LET s == Signed(a.sg, a.n * Pow(a.e - e)) + Signed(b.sg, b.n * Pow(b.e - e)) IN
            IF s = 0 THEN Z(0) ELSE RoundTo(t, NormN(IF s < 0 THEN 1 ELSE 0, IF s < 0 THEN -s ELSE s, e))
Xs(a, b) == IF a.sg = b.sg THEN 0 ELSE 1
MulV(t, a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN NaN
  ELSE IF a.k = "inf" \/ b.k = "inf" THEN (IF (a.k = "fin" /\ a.n = 0) \/ (b.k = "fin" /\ b.n = 0) THEN NaN ELSE Inf(Xs(a, b)))
  ELSE IF a.n = 0 \/ b.n = 0 THEN Z(Xs(a, b))
  ELSE IF Len2(a.n) + Len2(b.n) > 30 THEN Bad
  ELSE RoundTo(t, F(Xs(a, b), a.n * b.n, a.e + b.e))
DivV(t, a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN NaN
  ELSE IF a.k = "inf" THEN (IF b.k = "inf" THEN NaN ELSE Inf(Xs(a, b)))
  ELSE IF b.k = "inf" THEN Z(Xs(a, b))
  ELSE IF b.n = 0 THEN (IF a.n = 0 THEN NaN ELSE Inf(Xs(a, b)))
  ELSE IF a.n = 0 THEN Z(Xs(a, b))
  ELSE IF a.n % b.n = 0 THEN RoundTo(t, NormN(Xs(a, b), a.n \div b.n, a.e - b.e))
  ELSE IF t = "float" /\ b.n < 16
       THEN LET s == 30 - Len2(a.n) IN           \* quotient of at least 26 bits, then rounding
            LET m == a.n * Pow(s) IN Round(Xs(a, b), m \div b.n, a.e - b.e - s, 24, m % b.n # 0)
       ELSE Bad
(* -1, 0, 1, or 2 when unordered *)
Cmp(a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN 2
  ELSE IF a.k = "inf" \/ b.k = "inf"
       THEN LET r(v) == IF v.k = "inf" THEN (IF v.sg = 1 THEN -1 ELSE 1) ELSE 0
            IN IF r(a) < r(b) THEN -1 ELSE IF r(a) > r(b) THEN 1 ELSE 0
  ELSE LET d == AddV("double", a, Neg(b)) IN
       IF d.k = "bad"
       THEN LET s(v) == IF v.n = 0 THEN 0 ELSE IF v.sg = 1 THEN -(Len2(v.n) + v.e + 1000) ELSE Len2(v.n) + v.e + 1000
            IN IF s(a) < s(b) THEN -1 ELSE IF s(a) > s(b) THEN 1 ELSE 3       \* 3: not decided here
       ELSE IF d.n = 0 THEN 0 ELSE IF d.sg = 1 THEN -1 ELSE 1
Common(a, b) == IF "double" \in {a, b} THEN "double" ELSE "float"
Bool(x) == IF x THEN F(0, 1, 0) ELSE Z(0)

D(t, v, s, lv, eff, p) == [t |-> t, v |-> v, s |-> s, lv |-> lv, eff |-> eff, p |-> p]
Wrap(e, p) == IF e.p >= p THEN e.s ELSE "(" \o e.s \o ")"
Top == stk[Len(stk)]
Snd == stk[Len(stk) - 1]
Thd == stk[Len(stk) - 2]
Drop(n) == SubSeq(stk, 1, Len(stk) - n)
Push(e, d) == stk' = Append(Drop(d), e) /\ nops' = nops + (IF d > 0 THEN 1 ELSE 0)
NLeaf == Len(objs)

Specials == {"nan", "inf", "-inf", "-0", "0"}
Leaf == /\ ph = "build" /\ NLeaf < MaxLeaves /\ nops < MaxOps
        /\ \E f \in Pick(Forms), t \in Pick(Types), k \in Pick({"fin", "small", "edge", "spec", "top"}) :
           \E n \in Pick(IF k \in {"fin", "top"} THEN 0..1023 ELSE IF k = "small" THEN 0..9 ELSE {1, 3, 8388607, 16777215, 16777217, 16777219, 33554431, 1073741823, 715827882}),
              e \in Pick(IF k = "edge" THEN {0, 1, 31, 32, 33, 62, 63, -3, -24} ELSE {-4, -3, -2, -1, 0, 1, 2, 8, 20}), sg \in Pick({0, 1}), sp \in Pick(Specials) :
           LET v0 == IF k = "spec" THEN CASE sp = "nan" -> NaN [] sp = "inf" -> Inf(0) [] sp = "-inf" -> Inf(1) [] sp = "-0" -> Z(1) [] sp = "0" -> Z(0)
                     ELSE NormN(sg, n, IF k = "top" THEN Bits(t) - (IF Sg(t) THEN 1 ELSE 0) - Len2(n) ELSE e)     \* top: fills the width of t
               v1 == IF IsF(t) THEN RoundTo(t, v0) ELSE IF v0.k = "fin" THEN Conv("double", t, v0) ELSE Bad
               lit == f = "lit"
               v2 == IF lit /\ (v1.k # "fin" \/ v1.sg = 1 \/ t \in {"bool", "schar", "uchar", "short", "ushort"}) THEN Bad ELSE v1
           IN IF v2.k = "bad" THEN UNCHANGED <<stk, objs, nops>>
              ELSE /\ Push(D(t, v2, "$" \o ToString(NLeaf + 1) \o "$", IF lit THEN 0 ELSE NLeaf + 1, <<>>, IF f = "q" THEN 15 ELSE 16), 0)
                   /\ objs' = Append(objs, [t |-> t, v |-> v2, st |-> f])
        /\ UNCHANGED <<ph, out>>

ArithV(op, t, a, b) == IF a.k = "bad" \/ b.k = "bad" THEN Bad
                       ELSE CASE op = "+" -> AddV(t, a, b) [] op = "-" -> AddV(t, a, Neg(b)) [] op = "*" -> MulV(t, a, b) [] op = "/" -> DivV(t, a, b)
Prec(op) == CASE op \in {"*", "/"} -> 13 [] op \in {"+", "-"} -> 12 [] op \in {"<", ">", "<=", ">="} -> 10 [] op \in {"==", "!="} -> 9
              [] op = "&&" -> 5 [] op = "||" -> 4
RelV(op, c) == CASE op = "<" -> c = -1 [] op = ">" -> c = 1 [] op = "<=" -> c \in {-1, 0} [] op = ">=" -> c \in {0, 1} [] op = "==" -> c = 0 [] op = "!=" -> c # 0
Ok(v) == v.k # "bad"
Skip == UNCHANGED <<stk, nops>>
PushOk(e, d) == IF Ok(e.v) THEN Push(e, d) ELSE Skip

Binary(op) == LET a == Snd b == Top t == Common(a.t, b.t) x == Conv(a.t, t, a.v) y == Conv(b.t, t, b.v)
                  txt == Wrap(a, Prec(op)) \o " " \o op \o " " \o Wrap(b, Prec(op) + 1)
              IN IF ~(IsF(a.t) \/ IsF(b.t)) THEN Skip
                 ELSE IF op \in {"+", "-", "*", "/"} THEN PushOk(D(t, ArithV(op, t, x, y), txt, 0, a.eff \o b.eff, Prec(op)), 2)
                 ELSE IF x.k = "bad" \/ y.k = "bad" THEN Skip
                 ELSE LET c == Cmp(x, y) IN
                      IF c = 3 THEN Skip ELSE Push(D("int", Bool(RelV(op, c)), txt, 0, a.eff \o b.eff, Prec(op)), 2)
Logical(op) == LET a == Snd b == Top sc == IF op = "&&" THEN ~Nonzero(a.v) ELSE Nonzero(a.v)
                   txt == Wrap(a, Prec(op)) \o " " \o op \o " " \o Wrap(b, Prec(op) + 1)
               IN Push(D("int", IF sc THEN Bool(op = "||") ELSE Bool(Nonzero(b.v)), txt, 0, IF sc THEN a.eff ELSE a.eff \o b.eff, Prec(op)), 2)
Ternary == LET c == Thd a == Snd b == Top t == Common(a.t, b.t) x == IF Nonzero(c.v) THEN a ELSE b
           IN IF ~(IsF(a.t) \/ IsF(b.t)) THEN Skip
              ELSE PushOk(D(t, Conv(x.t, t, x.v), Wrap(c, 4) \o " ? " \o Wrap(a, 1) \o " : " \o Wrap(b, 3), 0, c.eff \o x.eff, 3), 3)
Comma == LET a == Snd b == Top IN Push(D(b.t, b.v, Wrap(a, 1) \o ", " \o Wrap(b, 2), 0, a.eff \o b.eff, 1), 2)
Cast == \E t \in Pick(Types) : LET e == Top IN PushOk(D(t, Conv(e.t, t, e.v), "(" \o CName(t) \o ")" \o Wrap(e, 15), 0, e.eff, 15), 1)
Unary(op) == LET e == Top IN
             CASE op = "neg" -> IF IsF(e.t) THEN Push(D(e.t, Neg(e.v), "- " \o Wrap(e, 15), 0, e.eff, 15), 1) ELSE Skip
               [] op = "pos" -> IF IsF(e.t) THEN Push(D(e.t, e.v, "+ " \o Wrap(e, 15), 0, e.eff, 15), 1) ELSE Skip
               [] op = "!" -> Push(D("int", Bool(~Nonzero(e.v)), "! " \o Wrap(e, 15), 0, e.eff, 15), 1)
Assign == LET a == Snd b == Top v == Conv(b.t, a.t, b.v) IN
          PushOk(D(a.t, v, Wrap(a, 15) \o " = " \o Wrap(b, 2), 0, b.eff \o <<<<a.lv, v>>>>, 2), 2)
AssignOp(op) == LET a == Snd b == Top t == Common(a.t, b.t) r == ArithV(op, t, Conv(a.t, t, a.v), Conv(b.t, t, b.v)) v == Conv(t, a.t, r) IN
          IF ~(IsF(a.t) \/ IsF(b.t)) THEN Skip
          ELSE PushOk(D(a.t, v, Wrap(a, 15) \o " " \o op \o "= " \o Wrap(b, 2), 0, b.eff \o <<<<a.lv, v>>>>, 2), 2)
Inc(op, post) == LET a == Top v == ArithV(op, a.t, a.v, F(0, 1, 0)) IN
          IF ~IsF(a.t) THEN Skip
          ELSE IF Ok(v) THEN Push(D(a.t, IF post THEN a.v ELSE v, IF post THEN Wrap(a, 16) \o op \o op ELSE op \o op \o Wrap(a, 15), 0, <<<<a.lv, v>>>>, IF post THEN 16 ELSE 15), 1)
          ELSE Skip
Apply(op) == CASE op \in {"neg", "pos", "!"} -> Unary(op) [] op \in {"+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="} -> Binary(op)
               [] op \in {"&&", "||"} -> Logical(op) [] op = "?:" -> Ternary [] op = "," -> Comma [] op = "cast" -> Cast [] op = "=" -> Assign
               [] op = "+=" -> AssignOp("+") [] op = "-=" -> AssignOp("-") [] op = "*=" -> AssignOp("*") [] op = "/=" -> AssignOp("/")
               [] op = "++x" -> Inc("+", FALSE) [] op = "--x" -> Inc("-", FALSE) [] op = "x++" -> Inc("+", TRUE) [] op = "x--" -> Inc("-", TRUE)
Arity(op) == CASE op = "?:" -> 3 [] op \in {"neg", "pos", "!", "cast", "++x", "--x", "x++", "x--"} -> 1 [] OTHER -> 2
LvOps == {"=", "+=", "-=", "*=", "/=", "++x", "--x", "x++", "x--"}
OpEnabled(op) == /\ Len(stk) >= Arity(op) /\ nops < MaxOps
                 /\ op \in LvOps => LET a == stk[Len(stk) + 1 - Arity(op)] IN a.lv > 0 /\ objs[a.lv].st # "c"
Step == /\ ph = "build" /\ \E op \in Pick({o \in Ops : OpEnabled(o)}) : Apply(op)
        /\ UNCHANGED <<ph, objs, out>>
Finish == /\ ph = "build" /\ Len(stk) = 1 /\ nops >= MinOps
          /\ \E cx \in Pick(Ctxs), t2 \in Pick(Types) :
             LET v2 == Conv(Top.t, t2, Top.v) IN
             out' = [s |-> Top.s, t |-> CName(Top.t), sz |-> Size(Top.t), v |-> Top.v, cx |-> cx, t2 |-> CName(t2), v2 |-> v2, truth |-> Nonzero(Top.v),
                     objs |-> [i \in DOMAIN objs |->
                        LET fin == SelectSeq(Top.eff, LAMBDA x : x[1] = i) IN
                        [t |-> CName(objs[i].t), st |-> objs[i].st, v |-> objs[i].v, fin |-> IF fin = <<>> THEN objs[i].v ELSE fin[Len(fin)][2]]]]
          /\ ph' = "emit" /\ UNCHANGED <<stk, objs, nops>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<stk, objs, nops, out>>
Init == ph = "build" /\ stk = <<>> /\ objs = <<>> /\ nops = 0 /\ out = <<>>
Next == Leaf \/ Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

(* float values carry at most 24 bits, finite values are normalised *)
InFormat == \A i \in DOMAIN stk : LET v == stk[i].v IN
              /\ v.k = "fin" => v.n = 0 \/ v.n % 2 = 1
              /\ stk[i].t = "float" /\ v.k = "fin" => Len2(v.n) <= 24
              /\ ~IsF(stk[i].t) => v.k = "fin" /\ v.e >= 0 /\ InInt(stk[i].t, v)
(* negation is an involution, comparison is antisymmetric *)
Antisym == \A i, j \in DOMAIN stk : LET c == Cmp(stk[i].v, stk[j].v) d == Cmp(stk[j].v, stk[i].v) IN
              c \in {-1, 0, 1} => d = -c
Emit == ph = "emit" => PrintT(ToJson(out))
=============================================================================
