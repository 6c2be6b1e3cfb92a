--------------------------------- MODULE Linkage ---------------------------------
(* Linkage (6.2.2), tentative definitions (6.9.2), inline definitions (6.7.4) and storage durations: two units declare
   and define the same names in random order.  Every use is bound, when it is written, to the entity the rules give it;
   running the functions then reads and writes one memory shared by all the units.  The third unit stands for the
   rest of the program: it defines whatever external name no unit defines.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Names, MaxTop, MaxBody, Pick(_)
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, kind, u, vis, lk, def, init, inl, cnt, short, ref, env, fn, plan, todo, body, bodies, top, nloc
vars == <<ph, kind, u, vis, lk, def, init, inl, cnt, short, ref, env, fn, plan, todo, body, bodies, top, nloc>>

X == 1..Names
Kinds == {"obj", "obj2", "arr", "fn", "fn2", "fn3", "ptr"}
Base(k) == CASE k \in {"obj", "obj2"} -> "obj" [] k \in {"fn", "fn2", "fn3"} -> "fn" [] OTHER -> k
U == {1, 2}
All(v) == [x \in X |-> v]
Both(v) == [w \in U |-> All(v)]

(* ---------------------------------------------------------------- entities *)
(* t: ext, int (of one unit), loc (a static object of a block), auto *)
Ext(x) == [t |-> "ext", x |-> x, u |-> 0]
Inner(w, x) == [t |-> "int", x |-> x, u |-> w]
FileEntity(x) == IF lk[u][x] = "int" THEN Inner(u, x) ELSE Ext(x)
Entity(l, x) == IF l = "int" THEN Inner(u, x) ELSE Ext(x)
(* the innermost visible declaration of x: <<>> when there is none *)
RECURSIVE Look(_, _)
Look(e, x) == IF e = <<>> THEN IF vis[x] = "none" THEN <<>> ELSE <<Entity(vis[x], x)>>
              ELSE IF x \in DOMAIN e[1] THEN <<e[1][x]>> ELSE Look(Tail(e), x)
Seen(x) == Look(env, x)
Linked(e) == e.t \in {"ext", "int"}
Static(e) == e.t # "auto"

(* ---------------------------------------------------------------- file scope *)
Own(x) == ~(\E w \in U \ {u} : lk[w][x] = "ext" /\ def[w][x] # "no" /\ inl[w][x] # "pure")   \* the other unit does not define it
AsExtern(x) == IF vis[x] # "none" THEN vis[x] ELSE "ext"
Forms == {"plain", "extern", "static", "init", "sinit", "einit"}
FLink(f, x) == CASE f \in {"static", "sinit"} -> "int" [] f \in {"plain", "init"} /\ kind[x] # "fn" -> "ext" [] OTHER -> AsExtern(x)
Legal(f, x) == LET l == FLink(f, x) IN
   /\ lk[u][x] \in {"none", l}
   /\ ((f \in {"plain", "static"} /\ kind[x] # "fn") \/ f \in {"init", "sinit", "einit"}) =>
         (l = "ext" => Own(x) \/ (kind[x] = "fn" /\ inl[u][x] = "pure"))
   /\ f \in {"init", "sinit", "einit"} => def[u][x] # "yes"
Whole == {x \in X : kind[x] \in {"obj", "arr"} /\ vis[x] # "none"}
(* what a declaration says about an array's bound *)
Bounds(f, x) == IF kind[x] # "arr" THEN {FALSE} ELSE IF f = "static" THEN {TRUE} ELSE IF short[x] THEN {FALSE} ELSE BOOLEAN
Inlines(f, x) == IF kind[x] # "fn" THEN {FALSE}
                 ELSE IF FLink(f, x) = "int" THEN BOOLEAN
                 ELSE IF inl[u][x] = "pure" THEN {TRUE} ELSE IF inl[u][x] = "no" THEN {FALSE} ELSE BOOLEAN
(* the initial value: a number, or for a pointer an entity and an index *)
Values(x) == IF kind[x] = "ptr" THEN {[e |-> Entity(vis[y], y), x |-> y, i |-> i] : y \in Whole, i \in {0}} ELSE {[v |-> n] : n \in 1..99}
Declare(x, f, b, i, v) ==
   LET l == FLink(f, x) d == f \in {"init", "sinit", "einit"} IN
   /\ top' = [top EXCEPT ![u] = Append(@, [s |-> f, x |-> x, b |-> b, i |-> i, v |-> v])]
   /\ vis' = [vis EXCEPT ![x] = l] /\ lk' = [lk EXCEPT ![u][x] = l]
   /\ def' = [def EXCEPT ![u][x] = IF d THEN "yes" ELSE IF f \in {"plain", "static"} /\ kind[x] # "fn" /\ @ = "no" THEN "tent" ELSE @]
   /\ init' = [init EXCEPT ![u][x] = IF d THEN v ELSE @]
   /\ cnt' = [cnt EXCEPT ![u][x] = @ \/ b \/ (d /\ kind[x] = "arr")]
   /\ inl' = [inl EXCEPT ![u][x] = IF kind[x] = "fn" /\ l = "ext" /\ (~i \/ f = "extern" \/ f = "einit") /\ @ = "mixed" THEN "no" ELSE @]
   /\ ref' = [ref EXCEPT ![u] = IF kind[x] = "ptr" /\ d THEN @ \cup {v.x} ELSE @]
Ready == ph = "unit" /\ todo > 0 /\ fn = 0
DeclareAny == /\ Ready
              /\ \E x \in Pick(X), f \in Pick(Forms) :
                   IF Legal(f, x) /\ ~(kind[x] = "fn" /\ f \in {"init", "sinit", "einit"}) /\ ~(f = "extern" /\ inl[u][x] = "pure")
                      /\ ~(kind[x] = "ptr" /\ f \in {"init", "sinit", "einit"} /\ Whole = {})
                   THEN \E b \in Pick(Bounds(f, x)), i \in Pick(Inlines(f, x)) :
                          IF f \in {"init", "sinit", "einit"} THEN \E v \in Pick(Values(x)) : Declare(x, f, b, i, v)
                          ELSE Declare(x, f, b, i, 0)
                   ELSE UNCHANGED <<top, vis, lk, def, init, cnt, inl, ref>>
              /\ todo' = todo - 1
              /\ UNCHANGED <<ph, kind, u, short, env, fn, plan, body, bodies, nloc>>
(* the definition of a function begins: its name is declared at once *)
Begin(x, f) == \E i \in Pick(Inlines(f, x)) :
                 /\ Declare(x, f, FALSE, i, [v |-> 100 + x + 10 * u])
                 /\ fn' = x /\ env' = <<<<>>>> /\ body' = <<>> /\ UNCHANGED <<ph, kind, u, short, bodies, nloc>>
Fns(x) == kind[x] = "fn"
DefineAny == /\ Ready
             /\ \E x \in Pick({y \in X : Fns(y)}), f \in Pick({"init", "sinit", "einit"}) :
                  /\ Legal(f, x) /\ ~(inl[u][x] = "pure" /\ f = "einit")
                  /\ Begin(x, f)
             /\ todo' = todo - 1 /\ \E n \in Pick(1..MaxBody) : plan' = n

(* ---------------------------------------------------------------- inside a function *)
In == ph = "unit" /\ fn # 0 /\ plan > 0
Keep == UNCHANGED <<ph, kind, u, vis, def, init, inl, cnt, short, fn, todo, bodies, top>>
Put(st) == body' = Append(body, st)
Nop == UNCHANGED <<lk, ref, env, body, nloc>>
(* the bound an array is known to have here; an object of a block has three elements *)
Idx(x, e) == IF kind[x] # "arr" THEN {0} ELSE IF ~Linked(e) \/ (cnt[u][x] /\ vis[x] # "none") THEN 0..2 ELSE {0}
Usable(x) == IF Seen(x) = <<>> THEN FALSE ELSE IF kind[x] = "fn" THEN inl[u][x] # "pure" ELSE TRUE
Use == /\ In
       /\ \E x \in Pick({y \in X : Usable(y)}) :
          LET e == Seen(x)[1] IN
          /\ IF kind[x] = "fn" THEN (IF x > fn THEN \E w \in Pick({"call", "callp", "calls"}) : Put([s |-> w, x |-> x, e |-> e]) ELSE Put([s |-> "addr", x |-> x, e |-> e]))
             ELSE \E i \in Pick(Idx(x, e)), n \in Pick(1..99), w \in Pick({"read", "read2", "sread", "write", "add", "pread", "pwrite"}) :
                   Put([s |-> IF w = "read2" \/ (w = "sread" /\ ~Static(e)) \/ (kind[x] = "ptr" /\ w # "read") THEN "read" ELSE w, x |-> x, e |-> e, i |-> i, n |-> n])
          /\ ref' = [ref EXCEPT ![u] = IF Linked(e) THEN @ \cup {x} ELSE @]
       /\ plan' = plan - 1 /\ Keep /\ UNCHANGED <<lk, env, nloc>>
BForms(x) == IF kind[x] = "fn" THEN {"bextern", "bplain"} ELSE {"bextern", "bstatic", "bauto"}
BDeclare ==
   /\ In
   /\ \E x \in Pick({y \in X : y \notin DOMAIN env[1]}) : \E f \in Pick(BForms(x)), n \in Pick(1..99) :
      IF f \in {"bstatic", "bauto"}
      THEN IF kind[x] = "ptr" THEN Nop
           ELSE /\ nloc' = nloc + 1
                /\ LET e == [t |-> IF f = "bauto" THEN "auto" ELSE "loc", x |-> x, u |-> nloc + 1] IN
                   env' = <<(x :> e) @@ env[1]>> \o Tail(env) /\ Put([s |-> f, x |-> x, e |-> e, n |-> n])
                /\ UNCHANGED <<lk, ref>>
      ELSE LET v == Seen(x)
               l == IF v # <<>> THEN (IF v[1].t = "int" THEN "int" ELSE "ext") ELSE "ext" IN
           IF lk[u][x] \in {"none", l} /\ inl[u][x] # "pure"
           THEN /\ lk' = [lk EXCEPT ![u][x] = l]
                /\ env' = <<(x :> Entity(l, x)) @@ env[1]>> \o Tail(env)
                /\ Put([s |-> f, x |-> x, b |-> IF kind[x] # "arr" THEN FALSE ELSE cnt[u][x] /\ vis[x] # "none"])
                /\ UNCHANGED <<ref, nloc>>
           ELSE Nop
   /\ plan' = plan - 1 /\ Keep
Open == /\ In /\ Len(env) < 4 /\ env' = <<<<>>>> \o env /\ Put([s |-> "open"]) /\ plan' = plan - 1 /\ Keep /\ UNCHANGED <<lk, ref, nloc>>
Close == /\ In /\ Len(env) > 1 /\ env' = Tail(env) /\ Put([s |-> "close"]) /\ plan' = plan - 1 /\ Keep /\ UNCHANGED <<lk, ref, nloc>>
EndFn == /\ ph = "unit" /\ fn # 0 /\ plan = 0
         /\ bodies' = [bodies EXCEPT ![u][fn] = body \o [i \in 1..(Len(env) - 1) |-> [s |-> "close"]]]
         /\ fn' = 0 /\ env' = <<>> /\ body' = <<>>
         /\ UNCHANGED <<ph, kind, u, vis, lk, def, init, inl, cnt, short, ref, plan, todo, top, nloc>>

(* ---------------------------------------------------------------- the end of a unit *)
Missing == {x \in X : lk[u][x] = "int" /\ kind[x] = "fn" /\ def[u][x] = "no"}
(* an inline function with external linkage that is used or defined gets a declaration without inline *)
Owing == {x \in X : kind[x] = "fn" /\ inl[u][x] = "mixed" /\ lk[u][x] = "ext" /\ vis[x] = "ext"}
UnitEnd == ph = "unit" /\ todo = 0 /\ fn = 0
EndDefine == /\ UnitEnd /\ Missing # {}
             /\ \E x \in Missing : Begin(x, "sinit")
             /\ todo' = 0 /\ plan' = 2
EndInline == /\ UnitEnd /\ Missing = {} /\ Owing # {}
             /\ \E x \in Owing, i \in BOOLEAN : Declare(x, "extern", FALSE, i, 0)
             /\ UNCHANGED <<ph, kind, u, short, env, fn, plan, body, bodies, nloc, todo>>
Whole2(w) == [x \in X |-> short[x] \/ (kind[x] = "arr" /\ lk[w][x] = "ext" /\ def[w][x] = "tent" /\ ~cnt[w][x])]
EndUnit == /\ UnitEnd /\ Missing = {} /\ Owing = {}
           /\ short' = Whole2(u)
           /\ IF u = 1 THEN ph' = "unit" /\ u' = 2 /\ \E n \in Pick(1..MaxTop) : todo' = n
              ELSE ph' = "emit" /\ u' = 2 /\ todo' = 0
           /\ vis' = All("none")
           /\ UNCHANGED <<kind, lk, def, init, inl, cnt, ref, env, fn, plan, body, bodies, top, nloc>>

(* ---------------------------------------------------------------- the run *)
Harness(e) == e.t = "ext" /\ ~(\E w \in U : lk[w][e.x] = "ext" /\ def[w][e.x] # "no" /\ inl[w][e.x] # "pure")
Owner(e) == IF e.t = "int" THEN e.u ELSE IF Harness(e) THEN 3 ELSE CHOOSE w \in U : lk[w][e.x] = "ext" /\ def[w][e.x] # "no" /\ inl[w][e.x] # "pure"
Start(e) == LET w == Owner(e) IN
   IF w = 3 THEN (IF kind[e.x] = "ptr" THEN [e |-> [t |-> "h", x |-> 0, u |-> 0], i |-> 0] ELSE [i \in 0..2 |-> 500 + e.x + i])
   ELSE IF def[w][e.x] = "tent" THEN (IF kind[e.x] = "ptr" THEN [e |-> [t |-> "null", x |-> 0, u |-> 0], i |-> 0] ELSE [i \in 0..2 |-> 0])
   ELSE IF kind[e.x] = "ptr" THEN [e |-> init[w][e.x].e, i |-> init[w][e.x].i] ELSE [i \in 0..2 |-> init[w][e.x].v + i]
Get(m, e) == IF e \in DOMAIN m THEN m[e] ELSE Start(e)
Set(m, e, v) == (e :> v) @@ m
(* m: memory, o: output *)
RECURSIVE Run(_, _, _)
Call(r, e) == LET w == Owner(e) IN
   IF w = 3 THEN [m |-> r.m, o |-> Append(r.o, 700 + e.x)]
   ELSE LET q == Run(r, bodies[w][e.x], 1) IN [m |-> q.m, o |-> Append(q.o, 100 + e.x + 10 * w)]
PtrVal(m, p) == IF p.e.t = "null" THEN -1 ELSE IF p.e.t = "h" THEN 55 ELSE Get(m, p.e)[p.i]
Step(r, st) ==
   CASE st.s \in {"open", "close", "bextern", "bplain"} -> r
     [] st.s \in {"call", "callp", "calls"} -> Call(r, st.e)
     [] st.s = "addr" -> [r EXCEPT !.o = Append(@, 1)]
     [] st.s = "bauto" -> [r EXCEPT !.m = Set(@, st.e, [i \in 0..2 |-> st.n + i])]
     [] st.s = "bstatic" -> IF st.e \in DOMAIN r.m THEN r ELSE [r EXCEPT !.m = Set(@, st.e, [i \in 0..2 |-> st.n + i])]
     [] st.s \in {"read", "sread", "pread"} -> [r EXCEPT !.o = Append(@, IF kind[st.x] = "ptr" THEN PtrVal(r.m, Get(r.m, st.e)) ELSE Get(r.m, st.e)[st.i])]
     [] st.s \in {"write", "pwrite"} -> [r EXCEPT !.m = Set(@, st.e, [Get(r.m, st.e) EXCEPT ![st.i] = st.n])]
     [] st.s = "add" -> [r EXCEPT !.m = Set(@, st.e, [Get(r.m, st.e) EXCEPT ![st.i] = @ + st.n])]
Run(r, b, i) == IF i > Len(b) THEN r ELSE Run(Step(r, b[i]), b, i + 1)
Entries == SelectSeq([i \in 1..(2 * Names) |-> <<((i - 1) \div Names) + 1, (((i - 1) % Names) + 1)>>],
                     LAMBDA p : kind[p[2]] = "fn" /\ lk[p[1]][p[2]] = "ext" /\ def[p[1]][p[2]] = "yes" /\ inl[p[1]][p[2]] # "pure")
Whole3 == LET once(r) == FoldLeft(LAMBDA a, p : Call(a, Ext(p[2])), r, Entries) IN once(once([m |-> (Ext(0) :> 0), o |-> <<>>]))
(* what the symbol table of a unit says of a name *)
Symbol(w, x) == CASE lk[w][x] = "int" -> "local"
                  [] lk[w][x] = "ext" /\ def[w][x] # "no" /\ inl[w][x] # "pure" -> "global"
                  [] lk[w][x] = "ext" /\ def[w][x] # "no" -> "local"      \* an inline definition says nothing to other units
                  [] lk[w][x] = "ext" /\ x \in ref[w] -> "undef"
                  [] OTHER -> "absent"
(* the storage a unit has to reserve for an object it defines: an array whose bound is never given has one element *)
Extent(w, x) == IF kind[x] = "fn" \/ def[w][x] = "no" THEN 0
                ELSE CASE kind[x] = "ptr" -> 8 [] kind[x] = "obj" -> 4 [] OTHER -> IF def[w][x] = "tent" /\ ~cnt[w][x] THEN 4 ELSE 12
Init == /\ ph = "kinds" /\ kind = <<>> /\ u = 1 /\ vis = All("none") /\ lk = Both("none") /\ def = Both("no") /\ init = Both(0)
        /\ inl = Both("no") /\ cnt = Both(FALSE) /\ short = All(FALSE) /\ ref = [w \in U |-> {}] /\ env = <<>> /\ fn = 0 /\ plan = 0
        /\ todo = 0 /\ body = <<>> /\ bodies = Both(<<>>) /\ top = [w \in U |-> <<>>] /\ nloc = 0
Setup == /\ ph = "kinds"
         /\ \E k \in Pick(Kinds), a \in Pick(1..8), b \in Pick(1..8) :
              /\ kind' = Append(kind, Base(k))
              /\ inl' = [w \in U |-> [inl[w] EXCEPT ![Len(kind) + 1] =
                           IF Base(k) # "fn" THEN "no" ELSE LET z == IF w = 1 THEN a ELSE b IN IF z = 1 THEN "pure" ELSE IF z <= 3 THEN "mixed" ELSE "no"]]
              /\ IF Len(kind) + 1 = Names THEN ph' = "unit" /\ \E n \in Pick(1..MaxTop) : todo' = n ELSE ph' = ph /\ todo' = todo
         /\ UNCHANGED <<u, vis, lk, def, init, cnt, short, ref, env, fn, plan, body, bodies, top, nloc>>
Finish == /\ ph = "emit" /\ ph' = "done"
          /\ UNCHANGED <<kind, u, vis, lk, def, init, inl, cnt, short, ref, env, fn, plan, todo, body, bodies, top, nloc>>
Next == Setup \/ DeclareAny \/ DefineAny \/ Use \/ BDeclare \/ Open \/ Close \/ EndFn \/ EndDefine \/ EndInline \/ EndUnit \/ Finish
Spec == Init /\ [][Next]_vars

(* one identifier never has both linkages in a unit, and no external name is defined twice *)
Sound == /\ \A x \in X : vis[x] # "none" => vis[x] = lk[u][x]
         /\ (ph \in {"emit", "done"} => \A x \in DOMAIN kind : Cardinality({w \in U : Symbol(w, x) = "global"}) <= 1)
Emit == ph = "emit" => PrintT(ToJson([kind |-> kind, top |-> top, bodies |-> bodies, out |-> Whole3.o, entries |-> Entries,
                                      sym |-> [w \in U |-> [x \in X |-> Symbol(w, x)]], short |-> short, ext |-> [w \in U |-> [x \in X |-> Extent(w, x)]],
                                      rest |-> {x \in X : Harness(Ext(x)) /\ \E w \in U : lk[w][x] = "ext"}]))
=============================================================================
