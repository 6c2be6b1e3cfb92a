--------------------------------- MODULE Syntax ---------------------------------
(* Which token sequences are expressions (6.5) and which are the statements of a function body (6.8): a recursive-descent
   judge over every sequence of a small vocabulary.  Lang = "expr": x is an int object, a an array, p a pointer, f a function
   of one parameter.  Lang = "stmt": the tokens are the heads of statements.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lang, Vocab, MaxLen, Pick(_), Random
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES s, ph
N == Len(s)
At(i) == IF i <= N THEN s[i] ELSE "end"
No == [i |-> 0, t |-> "", lv |-> FALSE]
R(i, t, lv) == [i |-> i, t |-> t, lv |-> lv]
Rval(t) == IF t = "arr" THEN "ptr" ELSE IF t = "fn" THEN "fptr" ELSE t
Scalar(t) == Rval(t) \in {"int", "ptr", "fptr", "odd"}
(* "odd": pointers and integers are mixed where the constraints ask for a conversion; compilers accept it with a warning, so such
   sequences are not judged.  It sticks to everything that is made of it. *)
Odd(t) == t = "odd"

RECURSIVE Expr(_), Assign(_), Cond(_), Add(_), AddRest(_, _), Unary(_), Post(_), PostRest(_), ExprRest(_)
Primary(i) == CASE At(i) = "x" -> R(i + 1, "int", TRUE) [] At(i) = "a" -> R(i + 1, "arr", TRUE) [] At(i) = "p" -> R(i + 1, "ptr", TRUE)
                [] At(i) = "f" -> R(i + 1, "fn", FALSE) [] At(i) = "1" -> R(i + 1, "int", FALSE)
                [] At(i) = "(" -> (LET e == Expr(i + 1) IN IF e.i = 0 \/ At(e.i) # ")" THEN No ELSE R(e.i + 1, e.t, e.lv))
                [] OTHER -> No
Post(i) == LET e == Primary(i) IN IF e.i = 0 THEN No ELSE PostRest(e)
PostRest(e) ==
   CASE e.i = 0 -> No
     [] At(e.i) = "++" -> IF e.lv /\ e.t \in {"int", "ptr"} THEN PostRest(R(e.i + 1, e.t, FALSE)) ELSE IF Odd(e.t) THEN PostRest(R(e.i + 1, "odd", TRUE)) ELSE No
     [] At(e.i) = "[" -> (LET k == Expr(e.i + 1) IN
           IF k.i = 0 THEN No ELSE IF At(k.i) # "]" THEN No
           ELSE IF Odd(e.t) \/ Odd(k.t) THEN PostRest(R(k.i + 1, "odd", TRUE)) ELSE IF {Rval(e.t), Rval(k.t)} = {"ptr", "int"} THEN PostRest(R(k.i + 1, "int", TRUE)) ELSE No)
     [] At(e.i) = "(" -> (IF Rval(e.t) # "fptr" /\ ~Odd(e.t) THEN No ELSE LET k == Assign(e.i + 1) IN
           IF k.i = 0 THEN No ELSE IF At(k.i) # ")" THEN No ELSE PostRest(R(k.i + 1, IF Odd(e.t) \/ Rval(k.t) # "int" THEN "odd" ELSE "int", Odd(e.t) \/ Rval(k.t) # "int")))
     [] OTHER -> e
Unary(i) == LET o == IF At(i) \in {"++", "+", "*", "!", "sizeof"} THEN Unary(i + 1) ELSE No IN
   CASE Odd(o.t) -> R(o.i, "odd", TRUE)
     [] At(i) = "++" -> (LET e == Unary(i + 1) IN IF e.i # 0 /\ e.lv /\ e.t \in {"int", "ptr"} THEN R(e.i, e.t, FALSE) ELSE No)
     [] At(i) = "+" -> (LET e == Unary(i + 1) IN IF e.i # 0 /\ Rval(e.t) = "int" THEN R(e.i, "int", FALSE) ELSE No)
     [] At(i) = "*" -> (LET e == Unary(i + 1) IN IF e.i = 0 THEN No ELSE IF Rval(e.t) = "ptr" THEN R(e.i, "int", TRUE) ELSE IF Rval(e.t) = "fptr" THEN R(e.i, "fn", FALSE) ELSE No)
     [] At(i) = "!" -> (LET e == Unary(i + 1) IN IF e.i # 0 /\ Scalar(e.t) THEN R(e.i, "int", FALSE) ELSE No)
     [] At(i) = "sizeof" -> (LET e == Unary(i + 1) IN IF e.i # 0 /\ e.t # "fn" THEN R(e.i, "int", FALSE) ELSE No)
     [] OTHER -> Post(i)
Sum(t, u) == CASE Odd(t) \/ Odd(u) -> "odd" [] t = "int" /\ u = "int" -> "int" [] {t, u} = {"int", "ptr"} -> "ptr" [] OTHER -> ""
AddRest(e, op) ==
   IF e.i = 0 THEN No ELSE
   IF At(e.i) = op THEN
      LET r == IF op = "+" THEN AddRest(Unary(e.i + 1), "*") ELSE Unary(e.i + 1)
          t == IF r.i = 0 THEN "" ELSE IF op = "+" THEN Sum(Rval(e.t), Rval(r.t)) ELSE IF Odd(e.t) \/ Odd(r.t) THEN "odd" ELSE IF Rval(e.t) = "int" /\ Rval(r.t) = "int" THEN "int" ELSE "" IN
      IF t = "" THEN No ELSE AddRest(R(r.i, t, Odd(t)), op)
   ELSE e
Add(i) == AddRest(AddRest(Unary(i), "*"), "+")
Cond(i) == LET c == Add(i) IN
   IF c.i = 0 THEN No ELSE IF At(c.i) # "?" THEN c
   ELSE IF ~Scalar(c.t) THEN No
   ELSE LET m == Expr(c.i + 1) IN IF m.i = 0 THEN No ELSE IF At(m.i) # ":" THEN No
        ELSE LET r == Cond(m.i + 1) IN IF r.i = 0 THEN No ELSE IF Rval(m.t) = Rval(r.t) /\ ~Odd(c.t) THEN R(r.i, Rval(m.t), Odd(m.t)) ELSE R(r.i, "odd", TRUE)
Assign(i) == LET u == Unary(i) IN
   IF u.i # 0 /\ At(u.i) = "=" THEN
      IF ~u.lv \/ u.t \notin {"int", "ptr", "odd"} THEN No
      ELSE LET r == Assign(u.i + 1) IN IF r.i = 0 THEN No ELSE IF Rval(r.t) = u.t /\ ~Odd(u.t) THEN R(r.i, u.t, FALSE) ELSE R(r.i, "odd", TRUE)
   ELSE Cond(i)
Expr(i) == ExprRest(Assign(i))
ExprRest(e) == IF e.i = 0 THEN No ELSE IF At(e.i) = "," THEN LET r == Assign(e.i + 1) IN IF r.i = 0 THEN No ELSE ExprRest(IF Odd(e.t) \/ Odd(r.t) THEN R(r.i, "odd", TRUE) ELSE R(r.i, Rval(r.t), FALSE)) ELSE e
IsExpr == Expr(1).i = N + 1

(* statements: position after the statement, 0 when there is none; l: in a loop, w: in a switch (its labels are checked by Rules) *)
RECURSIVE Stmt(_, _, _), Items(_, _, _)
Stmt(i, l, w) ==
   CASE At(i) \in {";", "x;", "return;"} -> i + 1
     [] At(i) = "break;" -> IF l \/ w THEN i + 1 ELSE 0
     [] At(i) = "continue;" -> IF l THEN i + 1 ELSE 0
     [] At(i) = "{" -> (LET j == Items(i + 1, l, w) IN IF j # 0 /\ At(j) = "}" THEN j + 1 ELSE 0)
     [] At(i) \in {"while(x)", "for(;x;)", "for(int k=0;k;)"} -> Stmt(i + 1, TRUE, w)
     [] At(i) = "switch(x)" -> Stmt(i + 1, l, TRUE)
     [] At(i) \in {"case #:", "default:"} -> IF w THEN Stmt(i + 1, l, w) ELSE 0
     [] At(i) = "L#:" -> Stmt(i + 1, l, w)
     [] At(i) = "if(x)" -> (LET j == Stmt(i + 1, l, w) IN IF j # 0 /\ At(j) = "else" THEN Stmt(j + 1, l, w) ELSE j)
     [] At(i) = "do" -> (LET j == Stmt(i + 1, TRUE, w) IN IF j # 0 /\ At(j) = "while(x)" /\ At(j + 1) = ";" THEN j + 2 ELSE 0)
     [] OTHER -> 0
Items(i, l, w) ==
   IF At(i) \in {"}", "end"} THEN i
   ELSE IF At(i) \in {"int y#;", "_Static_assert(1,\"\");"} THEN Items(i + 1, l, w)
   ELSE LET j == Stmt(i, l, w) IN IF j = 0 THEN 0 ELSE Items(j, l, w)
(* more than one default label is for Rules to judge *)
IsBody == Items(1, FALSE, FALSE) = N + 1
Judge == IF Lang = "expr" THEN IsExpr ELSE IsBody
Unjudged == Lang = "expr" /\ IsExpr /\ Odd(Expr(1).t)
Twice == Unjudged \/ (Lang = "stmt" /\ Len(SelectSeq(s, LAMBDA x : x = "default:")) > 1)

Init == s = <<>> /\ ph = "gen"
Next == ph = "gen" /\ N < MaxLen /\ \E t \in Pick(Vocab) : s' = Append(s, t) /\ ph' = IF Random /\ N + 1 = MaxLen THEN "emit" ELSE ph
(* long sequences: a step that keeps a valid sequence is preferred, so that valid ones and near misses are reached *)
Spec == Init /\ [][Next]_<<s, ph>>
Emit == (s # <<>> /\ ~Twice /\ (Random => ph = "emit")) => PrintT(ToJson([s |-> s, ok |-> Judge]))
=============================================================================
