---------------------------------- MODULE Types ----------------------------------
(* The types of declarators and expressions: derivations (6.2.5, 6.7.6), compatible and composite types (6.2.7, 6.7.6.1,
   6.7.6.2, 6.7.6.3), conversions of operands (6.3.1.8, 6.3.2.1) and the types of the operators' results (6.5).
   A type is a tree.  A pool of types is built first; objects and functions have them; expressions over the objects are
   built bottom-up together with their types; then declarations of one name are paired with variations of its type.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxPool, MaxSteps, MaxPairs, Pick(_)
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, pool, sts, vals, queries, pairs, todo
vars == <<ph, pool, sts, vals, queries, pairs, todo>>

Ints == {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"}
Bases == Ints \cup {"float", "double"}
B(b) == [k |-> "b", b |-> b, c |-> FALSE]
Ptr(t) == [k |-> "p", t |-> t, c |-> FALSE]
Arr(n, t) == [k |-> "a", n |-> n, t |-> t]                   \* n = 0: no bound
Fn(r, ps, v, p) == [k |-> "f", r |-> r, ps |-> ps, v |-> v, p |-> p]
IsB(t, S) == IF t.k = "b" THEN t.b \in S ELSE FALSE
Void(t) == IsB(t, {"void"})
RECURSIVE Const(_)
Const(t) == CASE t.k = "a" -> [t EXCEPT !.t = Const(@)] [] t.k = "f" -> t [] OTHER -> [t EXCEPT !.c = TRUE]
Unq(t) == IF t.k \in {"a", "f"} THEN t ELSE [t EXCEPT !.c = FALSE]
IsConst(t) == IF t.k \in {"a", "f"} THEN FALSE ELSE t.c
Param(t) == CASE t.k = "a" -> Ptr(t.t) [] t.k = "f" -> Ptr(t) [] OTHER -> t        \* adjustment of a parameter
Complete(t) == CASE t.k = "f" -> FALSE [] t.k = "a" -> t.n # 0 [] OTHER -> ~Void(t)
Object(t) == t.k # "f"
RECURSIVE WF(_)
WF(t) == CASE t.k \in {"b", "s"} -> TRUE
           [] t.k = "p" -> WF(t.t)
           [] t.k = "a" -> WF(t.t) /\ Complete(t.t)
           [] t.k = "f" -> /\ WF(t.r) /\ t.r.k \notin {"a", "f"} /\ ~IsConst(t.r)
                           /\ \A i \in 1..Len(t.ps) : WF(t.ps[i]) /\ Complete(t.ps[i]) /\ t.ps[i].k # "a"
                           /\ (t.v => t.p /\ t.ps # <<>>) /\ (~t.p => t.ps = <<>>)
(* default argument promotions *)
Promo(b) == IF b \in {"bool", "char", "schar", "uchar", "short", "ushort"} THEN "int" ELSE b
Promoted(t) == IF IsB(t, Bases) THEN t.b # "float" /\ Promo(t.b) = t.b ELSE TRUE

RECURSIVE Compat(_, _), Composite(_, _)
Compat(a, b) == IF a.k # b.k THEN FALSE ELSE
   CASE a.k = "b" -> a = b
     [] a.k = "s" -> a = b
     [] a.k = "p" -> a.c = b.c /\ Compat(a.t, b.t)
     [] a.k = "a" -> (a.n = b.n \/ a.n = 0 \/ b.n = 0) /\ Compat(a.t, b.t)
     [] a.k = "f" -> /\ Compat(a.r, b.r)
                     /\ IF a.p /\ b.p THEN a.v = b.v /\ Len(a.ps) = Len(b.ps) /\ \A i \in 1..Len(a.ps) : Compat(Unq(a.ps[i]), Unq(b.ps[i]))
                        ELSE IF ~a.p /\ ~b.p THEN TRUE
                        ELSE LET q == IF a.p THEN a ELSE b IN ~q.v /\ \A i \in 1..Len(q.ps) : Promoted(q.ps[i])
Composite(a, b) ==
   CASE a.k \in {"b", "s"} -> a
     [] a.k = "p" -> [a EXCEPT !.t = Composite(a.t, b.t)]
     [] a.k = "a" -> Arr(IF a.n = 0 THEN b.n ELSE a.n, Composite(a.t, b.t))
     [] a.k = "f" -> LET q == IF a.p THEN a ELSE b IN
          IF a.p /\ b.p THEN Fn(Composite(a.r, b.r), [i \in 1..Len(a.ps) |-> Composite(Unq(a.ps[i]), Unq(b.ps[i]))], a.v, TRUE)
          ELSE Fn(Composite(a.r, b.r), q.ps, q.v, q.p)
(* parameters lose their qualifiers in the type of the function, so trees are compared without them *)
RECURSIVE Norm(_)
Norm(t) == CASE t.k \in {"b", "s"} -> t
             [] t.k \in {"p", "a"} -> [t EXCEPT !.t = Norm(@)]
             [] t.k = "f" -> [t EXCEPT !.r = Norm(@), !.ps = [i \in 1..Len(t.ps) |-> Norm(Unq(t.ps[i]))]]

(* the types that differ from t in one place *)
RECURSIVE Vary(_)
Vary0(t) ==
   CASE t.k = "b" -> {[t EXCEPT !.b = b] : b \in IF Void(t) THEN {"int"} ELSE Bases \ {t.b}} \cup {[t EXCEPT !.c = ~@]}
     [] t.k = "s" -> {[t EXCEPT !.c = ~@]} \cup {[t EXCEPT !.id = i] : i \in (1..Len(sts)) \ {t.id}}
     [] t.k = "p" -> {[t EXCEPT !.c = ~@], t.t, Ptr(t)} \cup {[t EXCEPT !.t = x] : x \in Vary(t.t)}
     [] t.k = "a" -> {Arr(n, t.t) : n \in {0, t.n + 1, 7} \ {t.n}} \cup {[t EXCEPT !.t = x] : x \in Vary(t.t)}
     [] t.k = "f" -> {[t EXCEPT !.r = x] : x \in Vary(t.r)}
                     \cup UNION {{[t EXCEPT !.ps[i] = x] : x \in Vary(t.ps[i])} : i \in 1..Len(t.ps)}
                     \cup (IF t.p THEN {[t EXCEPT !.ps = Append(@, B("int"))], Fn(t.r, <<>>, FALSE, FALSE), [t EXCEPT !.v = ~@]} ELSE {Fn(t.r, <<>>, FALSE, TRUE), Fn(t.r, <<B("long")>>, FALSE, TRUE)})
                     \cup (IF t.ps # <<>> THEN {[t EXCEPT !.ps = Front(@)]} ELSE {})
Vary(t) == {x \in Vary0(t) : WF(x)}

(* ---------------------------------------------------------------- the pool *)
PoolTypes == {pool[i] : i \in 1..Len(pool)}
Building == ph = "pool" /\ Len(pool) < MaxPool
AddType(t) == IF WF(t) THEN pool' = Append(pool, t) ELSE pool' = pool
KeepP == UNCHANGED <<ph, sts, vals, queries, pairs, todo>>
MakeBase == Building /\ (\E b \in Pick(Bases) : AddType(B(b))) /\ KeepP
MakePtr == Building /\ (\E t \in Pick(PoolTypes \cup {B("void")}) : AddType(Ptr(t))) /\ KeepP
MakePtr2 == Building /\ (\E t \in Pick({x \in PoolTypes : x.k \in {"a", "f"}}) : AddType(Ptr(t))) /\ KeepP
MakeConst == Building /\ (\E t \in Pick({x \in PoolTypes : x.k # "f"} \cup {B("int")}) : AddType(Const(t))) /\ KeepP
MakeArr == Building /\ (\E t \in Pick(PoolTypes \cup {B("char")}), n \in Pick(0..4) : AddType(Arr(n, t))) /\ KeepP
Rets == {Unq(t) : t \in {x \in PoolTypes : x.k \notin {"a", "f"}}} \cup {B("void"), B("int")}
MakeFn == /\ Building
          /\ \E r \in Pick(Rets), n \in Pick(0..3), a \in Pick(PoolTypes \cup {B("int")}), b \in Pick(PoolTypes \cup {B("int")}), d \in Pick(PoolTypes \cup {B("short")}), w \in Pick(1..6) :
               LET ps == SubSeq(<<Param(a), Param(b), Param(d)>>, 1, n) IN
               AddType(IF w = 1 THEN Fn(r, <<>>, FALSE, FALSE) ELSE Fn(r, ps, w = 2 /\ n > 0, TRUE))
          /\ KeepP
MakeStruct == /\ Building /\ Len(sts) < 3
              /\ \E n \in Pick(1..3) : \E f \in Pick({g \in {[i \in 1..n |-> RandomElement({t \in PoolTypes : Complete(t)} \cup {B("int")})]} : TRUE}) :
                   /\ sts' = Append(sts, f)
                   /\ pool' = Append(pool, [k |-> "s", id |-> Len(sts) + 1, c |-> FALSE])
              /\ UNCHANGED <<ph, vals, queries, pairs, todo>>
PoolDone == /\ ph = "pool" /\ Len(pool) >= MaxPool /\ ph' = "expr" /\ todo' = MaxSteps
            /\ UNCHANGED <<pool, sts, vals, queries, pairs>>

(* ---------------------------------------------------------------- expressions *)
Conv(t) == CASE t.k = "a" -> Ptr(t.t) [] t.k = "f" -> Ptr(t) [] OTHER -> Unq(t)
V(t, lv, e) == [t |-> t, lv |-> lv, z |-> FALSE, e |-> e]
Leaf == {V(pool[i], pool[i].k # "f", [o |-> "obj", i |-> i]) : i \in 1..Len(pool)}
Lits == {V(B("int"), FALSE, [o |-> "lit", s |-> "7"]), V(B("long"), FALSE, [o |-> "lit", s |-> "7l"]), V(B("uint"), FALSE, [o |-> "lit", s |-> "7u"]),
         V(B("ulong"), FALSE, [o |-> "lit", s |-> "7lu"]), V(B("double"), FALSE, [o |-> "lit", s |-> "7.5"]), V(B("float"), FALSE, [o |-> "lit", s |-> "7.5f"]),
         V(B("int"), FALSE, [o |-> "lit", s |-> "'a'"]), V(Arr(4, B("char")), TRUE, [o |-> "lit", s |-> "\"abc\""]), V(B("llong"), FALSE, [o |-> "lit", s |-> "7ll"]),
         [V(B("int"), FALSE, [o |-> "lit", s |-> "0"]) EXCEPT !.z = TRUE], [V(Ptr(B("void")), FALSE, [o |-> "lit", s |-> "((void *)0)"]) EXCEPT !.z = TRUE]}
Un(op, v) == [o |-> "un", op |-> op, a |-> v.e]
Bin(op, v, w) == [o |-> "bin", op |-> op, a |-> v.e, b |-> w.e]
Arith(t) == IsB(t, Bases)
Integer(t) == IsB(t, Ints)
Scalar(t) == Arith(t) \/ t.k = "p"
Rank(b) == CASE b = "bool" -> 0 [] b \in {"char", "schar", "uchar"} -> 1 [] b \in {"short", "ushort"} -> 2 [] b \in {"int", "uint"} -> 3 [] b \in {"long", "ulong"} -> 4 [] OTHER -> 5
Unsg(b) == b \in {"bool", "uchar", "ushort", "uint", "ulong", "ullong"}
Size(b) == CASE Rank(b) <= 1 -> 1 [] Rank(b) = 2 -> 2 [] Rank(b) = 3 -> 4 [] OTHER -> 8
ToUnsg(b) == CASE b = "int" -> "uint" [] b = "long" -> "ulong" [] OTHER -> "ullong"
Usual(x, y) == IF "double" \in {x, y} THEN "double" ELSE IF "float" \in {x, y} THEN "float" ELSE
   LET a == Promo(x) b == Promo(y) hi == IF Rank(a) >= Rank(b) THEN a ELSE b lo == IF Rank(a) >= Rank(b) THEN b ELSE a IN
   IF Unsg(a) = Unsg(b) THEN hi
   ELSE IF Rank(a) = Rank(b) THEN (IF Unsg(a) THEN a ELSE b)
   ELSE IF Unsg(hi) \/ ~Unsg(lo) THEN hi ELSE IF Size(hi) > Size(lo) THEN hi ELSE ToUnsg(hi)
Opaque(t) == IF t.k = "s" THEN \E i \in 1..Len(sts[t.id]) : IsConst(sts[t.id][i]) \/ sts[t.id][i].k \in {"s", "a"} ELSE FALSE
Casts == {t \in PoolTypes : Scalar(t)} \cup {Ptr(B("void")), B("long"), B("uchar")}
Lits2 == {t \in PoolTypes : Complete(t)}
(* everything one operator makes of the operand v *)
Unary(v) ==
   LET c == Conv(v.t) IN
   (IF (v.lv \/ v.t.k = "f") THEN {V(Ptr(v.t), FALSE, Un("&", v))} ELSE {})
   \cup (IF c.k = "p" /\ ~v.z THEN
           (IF Void(c.t) THEN {} ELSE {V(c.t, Object(c.t), Un("*", v))})
           \cup (IF Complete(c.t) THEN {V(c.t, TRUE, Un("[2]", v)), V(c.t, TRUE, Un("2[]", v)), V(c, FALSE, Un("+2", v)), V(c, FALSE, Un("2+", v)), V(c, FALSE, Un("-2", v))} ELSE {})
           \cup (IF c.t.k = "s" THEN {V(IF c.t.c THEN Const(sts[c.t.id][i]) ELSE sts[c.t.id][i], TRUE, [o |-> "mem", op |-> "->", a |-> v.e, s |-> c.t.id, i |-> i]) : i \in 1..Len(sts[c.t.id])} ELSE {})
           \cup (IF c.t.k = "f" THEN (IF Void(c.t.r) THEN {} ELSE {V(c.t.r, FALSE, [o |-> "call", a |-> v.e, ps |-> c.t.ps, v |-> c.t.v])}) ELSE {})
         ELSE {})
   \cup (IF v.t.k = "s" THEN {V(IF v.t.c THEN Const(sts[v.t.id][i]) ELSE sts[v.t.id][i], v.lv, [o |-> "mem", op |-> ".", a |-> v.e, s |-> v.t.id, i |-> i]) : i \in {j \in 1..Len(sts[v.t.id]) : v.lv \/ sts[v.t.id][j].k # "a"}} ELSE {})
   \cup (IF Arith(c) THEN {V(B(Promo(c.b)), FALSE, Un(op, v)) : op \in {"-", "u+"} \cup (IF Integer(c) THEN {"~"} ELSE {})} ELSE {})
   \cup (IF Scalar(c) /\ ~v.z THEN {V(B("int"), FALSE, Un(op, v)) : op \in {"!", "&&", "||", "==0", "!=0"}} ELSE {})
   \cup (IF Arith(c) THEN {V(Unq(t), FALSE, [o |-> "cast", t |-> t, a |-> v.e]) : t \in {x \in Casts : Arith(x)}} ELSE {})
   \cup (IF c.k = "p" /\ ~v.z THEN {V(Unq(t), FALSE, [o |-> "cast", t |-> t, a |-> v.e]) : t \in {x \in Casts : x.k = "p"} \cup {B("ulong")}} ELSE {})
   \cup (IF v.lv /\ Scalar(v.t) /\ ~IsConst(v.t) THEN {V(Unq(v.t), FALSE, Un("=0", v))}
           \cup (IF Arith(v.t) \/ (v.t.k = "p" /\ Complete(Conv(v.t).t)) THEN {V(Unq(v.t), FALSE, Un(op, v)) : op \in {"++x", "x++", "--x", "x--", "+=1", "-=1"}} ELSE {}) ELSE {})
   \cup (IF v.lv /\ v.t.k = "s" /\ ~IsConst(v.t) /\ ~Opaque(v.t) THEN {V(v.t, FALSE, Un("=self", v))} ELSE {})
   \cup (IF Complete(v.t) THEN {V(B("ulong"), FALSE, Un(op, v)) : op \in {"sizeof"}} ELSE {})
   \cup (IF v.z THEN {} ELSE {V(c, FALSE, Un("0,", v)), V(v.t, v.lv, Un("()", v)), V(v.t, v.lv, Un("generic", v))})
Both(v, w) ==
   LET a == Conv(v.t) b == Conv(w.t)
       ptrs == a.k = "p" /\ b.k = "p"
       same == IF ptrs THEN Compat(Unq(a.t), Unq(b.t)) ELSE FALSE
       q == IF ptrs THEN IsConst(a.t) \/ IsConst(b.t) ELSE FALSE
       Q(t) == IF q THEN Const(t) ELSE t IN
   (IF Arith(a) /\ Arith(b) THEN {V(B(Usual(a.b, b.b)), FALSE, Bin(op, v, w)) : op \in {"+", "-", "*", "?"} \cup (IF Integer(a) /\ Integer(b) THEN {"&", "|", "^"} ELSE {})} \cup {V(B("int"), FALSE, Bin(op, v, w)) : op \in {"<", "==", ">=", "&&", "||"}} ELSE {})
   \cup (IF Integer(a) /\ Integer(b) THEN {V(B(Promo(a.b)), FALSE, Bin(op, v, w)) : op \in {"<<", ">>"}} ELSE {})
   \cup (IF a.k = "p" /\ Integer(b) /\ ~v.z THEN (IF Complete(a.t) THEN {V(a, FALSE, Bin(op, v, w)) : op \in {"+", "-"}} ELSE {}) ELSE {})
   \cup (IF b.k = "p" /\ Integer(a) /\ ~w.z THEN (IF Complete(b.t) THEN {V(b, FALSE, Bin("+", v, w))} ELSE {}) ELSE {})
   \cup (IF ptrs /\ ~v.z /\ ~w.z /\ same THEN {V(B("int"), FALSE, Bin(op, v, w)) : op \in {"=="} \cup (IF Complete(a.t) THEN {"<"} ELSE {})}
            \cup (IF Complete(a.t) /\ Complete(b.t) THEN {V(B("long"), FALSE, Bin("-", v, w))} ELSE {})
            \cup {V(Ptr(Q(Composite(Unq(a.t), Unq(b.t)))), FALSE, Bin("?", v, w))} ELSE {})
   \cup (IF ptrs /\ ~v.z /\ ~w.z /\ ~same THEN (IF (Void(a.t) /\ b.t.k \notin {"f", "a"}) \/ (Void(b.t) /\ a.t.k \notin {"f", "a"}) THEN {V(Ptr(Q(B("void"))), FALSE, Bin("?", v, w)), V(B("int"), FALSE, Bin("==", v, w))} ELSE {}) ELSE {})
   \cup (IF a.k = "p" /\ w.z /\ ~v.z THEN {V(a, FALSE, Bin("?", v, w)), V(B("int"), FALSE, Bin("==", v, w))} ELSE {})
   \cup (IF b.k = "p" /\ v.z /\ ~w.z THEN {V(b, FALSE, Bin("?", v, w)), V(B("int"), FALSE, Bin("!=", v, w))} ELSE {})
   \cup (IF a.k = "s" /\ b = a THEN {V(a, FALSE, Bin("?", v, w))} ELSE {})
   \cup (IF v.z \/ w.z THEN {} ELSE {V(b, FALSE, Bin(",", v, w))})
Working == ph = "expr" /\ todo > 0
KeepE == UNCHANGED <<ph, pool, sts, pairs>>
NewLeaf == /\ Working /\ Len(vals) < 3
           /\ \E v \in Pick(IF RandomElement(1..4) = 1 THEN Lits ELSE Leaf \cup {V(t, TRUE, [o |-> "clit", t |-> t]) : t \in {RandomElement(Lits2 \cup {B("int")})}}) : vals' = Append(vals, v)
           /\ UNCHANGED queries /\ todo' = todo - 1 /\ KeepE
Apply1 == /\ Working /\ vals # <<>>
          /\ \E i \in Pick(1..Len(vals)) : LET S == Unary(vals[i]) ops == {IF r.e.o = "un" THEN r.e.op ELSE r.e.o : r \in S} IN
                IF S = {} THEN vals' = RemoveAt(vals, i)
                ELSE \E op \in Pick(ops) : \E r \in Pick({s \in S : (IF s.e.o = "un" THEN s.e.op ELSE s.e.o) = op}) : vals' = [vals EXCEPT ![i] = r]
          /\ UNCHANGED queries /\ todo' = todo - 1 /\ KeepE
Apply2 == /\ Working /\ Len(vals) > 1
          /\ \E p \in Pick({<<1, 2>>, <<2, 1>>, <<Len(vals), 1>>, <<1, Len(vals)>>}) : LET S == Both(vals[p[1]], vals[p[2]]) ops == {r.e.op : r \in S} IN
                IF S = {} THEN UNCHANGED vals
                ELSE \E op \in Pick(ops) : \E r \in Pick({s \in S : s.e.op = op}) : vals' = <<r>> \o (IF Len(vals) = 3 THEN <<vals[CHOOSE j \in 1..3 : j \notin {p[1], p[2]}]>> ELSE <<>>)
          /\ UNCHANGED queries /\ todo' = todo - 1 /\ KeepE
(* a question about an expression: its size and the association its type selects.  The answer is a position, or 0. *)
Assoc(t) == IF t.k = "p" THEN TRUE ELSE Complete(t) /\ t.k # "a"
Sel(t, ts) == IF \E i \in 1..Len(ts) : Compat(t, ts[i]) THEN CHOOSE i \in 1..Len(ts) : Compat(t, ts[i]) ELSE 0
RECURSIVE Distinct(_, _)
Distinct(ts, acc) == IF ts = <<>> THEN acc
                     ELSE Distinct(Tail(ts), IF \E i \in 1..Len(acc) : Compat(acc[i], Head(ts)) THEN acc ELSE Append(acc, Head(ts)))
Ask == /\ Working /\ vals # <<>>
       /\ \E i \in Pick(1..Len(vals)), addr \in Pick(BOOLEAN) :
          LET v == vals[i]
              w == IF addr /\ (v.lv \/ v.t.k = "f") THEN V(Ptr(v.t), FALSE, Un("&", v)) ELSE v
              t == Conv(w.t) IN
          IF Void(t) \/ (v.z /\ FALSE) THEN UNCHANGED queries ELSE
          \E a \in Pick(Vary(t)), b \in Pick(Vary(t)), x \in Pick(PoolTypes), y \in Pick(PoolTypes), k \in Pick(1..5), real \in Pick(1..8) :
             LET raw == SelectSeq(<<a, b, Conv(x), Ptr(y)>>, Assoc)
                 d == IF real = 1 THEN raw ELSE InsertAt(raw, IF k > Len(raw) + 1 THEN 1 ELSE k, t)
                 ts == Distinct(d, <<>>) IN
             (* a type without prototype may be compatible with several of them *)
             IF Cardinality({j \in 1..Len(ts) : Compat(t, ts[j])}) > 1 THEN UNCHANGED queries ELSE
             queries' = Append(queries, [e |-> w.e, ts |-> ts, sel |-> Sel(t, ts), size |-> IF Complete(w.t) THEN w.t ELSE B("void"), dflt |-> IF Sel(t, ts) = 0 THEN TRUE ELSE RandomElement(BOOLEAN)])
       /\ UNCHANGED vals /\ todo' = todo - 1 /\ KeepE
ExprDone == /\ ph = "expr" /\ todo = 0 /\ ph' = "pair" /\ todo' = MaxPairs /\ UNCHANGED <<pool, sts, vals, queries, pairs>>

(* ---------------------------------------------------------------- declarations of one name *)
RECURSIVE Loosen(_)
Loosen(t) == {t} \cup (CASE t.k = "p" -> {[t EXCEPT !.t = x] : x \in Loosen(t.t)}
                         [] t.k = "a" -> {Arr(0, t.t)} \cup {[t EXCEPT !.t = x] : x \in {y \in Loosen(t.t) : Complete(y)}}
                         [] t.k = "f" -> {[t EXCEPT !.r = x] : x \in Loosen(t.r)} \cup UNION {{[t EXCEPT !.ps[i] = x] : x \in Loosen(t.ps[i]) \cup {[t.ps[i] EXCEPT !.c = ~@]}} : i \in 1..Len(t.ps)}
                                         \cup (IF \A i \in 1..Len(t.ps) : Promoted(t.ps[i]) /\ ~t.v THEN {Fn(t.r, <<>>, FALSE, FALSE)} ELSE {})
                         [] OTHER -> {})
Answers(t) == LET raw == <<Norm(Ptr(t))>> \o SetToSeq({RandomElement(Vary(Ptr(t))), RandomElement(Vary(Ptr(t)))} \cap {x \in Vary(Ptr(t)) : Assoc(x) /\ ~Compat(x, Ptr(t))}) IN Distinct(raw, <<>>)
PairAny ==
   /\ ph = "pair" /\ todo > 0
   /\ \E t \in Pick(PoolTypes) :
      LET S == {x \in Loosen(t) : WF(x)} IN
      \E a \in Pick(S), b \in Pick(S), c \in Pick(Vary(t)), m \in Pick(1..3), w \in Pick({"file", "block", "def"}) :
         LET y == IF m = 1 THEN c ELSE b IN
         pairs' = Append(pairs, [a |-> a, b |-> y, ok |-> Compat(a, y), w |-> IF y.k = "f" /\ w = "def" THEN (IF y.p THEN w ELSE "file") ELSE w,
                                 r |-> IF Compat(a, y) THEN Composite(a, y) ELSE B("void"),
                                 ts |-> IF Compat(a, y) THEN Answers(Composite(a, y)) ELSE <<>>])
   /\ todo' = todo - 1 /\ UNCHANGED <<ph, pool, sts, vals, queries>>
PairDone == /\ ph = "pair" /\ todo = 0 /\ ph' = "emit" /\ UNCHANGED <<pool, sts, vals, queries, pairs, todo>>
Finish == /\ ph = "emit" /\ ph' = "done" /\ UNCHANGED <<pool, sts, vals, queries, pairs, todo>>
Init == ph = "pool" /\ pool = <<>> /\ sts = <<>> /\ vals = <<>> /\ queries = <<>> /\ pairs = <<>> /\ todo = 0
Next == \/ MakeBase \/ MakePtr \/ MakePtr2 \/ MakeConst \/ MakeArr \/ MakeFn \/ MakeStruct \/ PoolDone
        \/ NewLeaf \/ Apply1 \/ Apply2 \/ Ask \/ ExprDone \/ PairAny \/ PairDone \/ Finish
Spec == Init /\ [][Next]_vars

(* the relations are what 6.2.7 makes of them: compatibility is symmetric, the composite type is compatible with both *)
Sound == /\ \A i \in 1..Len(pool) : WF(pool[i]) /\ Compat(pool[i], pool[i])
         /\ (pairs # <<>> => LET p == pairs[Len(pairs)] IN p.ok = Compat(p.b, p.a) /\ (p.ok => Compat(p.r, p.a) /\ Compat(p.r, p.b) /\ Norm(Composite(p.b, p.a)) = Norm(p.r)))
         /\ \A i \in 1..Len(vals) : WF(vals[i].t)
Emit == ph = "emit" => PrintT(ToJson([pool |-> pool, sts |-> sts, queries |-> queries, pairs |-> pairs]))
=============================================================================
