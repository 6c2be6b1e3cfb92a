--------------------------------- MODULE Scopes ---------------------------------
(* Scopes and name spaces (6.2.1, 6.2.3): declarations enter the innermost scope, from the place the rules give, and a
   use denotes the innermost visible one of its own name space.  Every declared thing carries one number that its use
   shows: a value or a size.  A behaviour with Bad ends with one declaration or use that the rules forbid.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Names, MaxStmt, Bad, Pick(_)
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, env, kinds, ents, toks, outp, labels, live
vars == <<ph, env, kinds, ents, toks, outp, labels, live>>
(* env: scopes, the innermost first, each from <<name space, name>> to a thing; kinds: what opened each scope;
   ents: the size of each tagged type, 0 while it is incomplete; live: FALSE in code that is jumped over *)
X == 1..Names
Thing(k, v) == [k |-> k, v |-> v, id |-> 0, m |-> <<>>]
RECURSIVE Look(_, _, _)
Look(e, n, x) == IF e = <<>> THEN <<>> ELSE IF <<n, x>> \in DOMAIN e[1] THEN <<e[1][<<n, x>>]>> ELSE Look(Tail(e), n, x)
Ord(x) == Look(env, "ord", x)
Tag(x) == Look(env, "tag", x)
Kind(x) == IF Ord(x) = <<>> THEN "none" ELSE Ord(x)[1].k
Free(n) == {x \in X : <<n, x>> \notin DOMAIN env[1]}
Enter(e, n, x, t) == <<(<<n, x>> :> t) @@ e[1]>> \o Tail(e)
Up(a, b) == ((a + b - 1) \div b) * b
File == Len(env) = 1
Put(t) == toks' = Append(toks, t)
Show(v) == outp' = IF live THEN Append(outp, v) ELSE outp
On == ph = "build" /\ Len(toks) < MaxStmt
Quiet == UNCHANGED <<ph, kinds, labels, live>>

(* what the use of an ordinary name shows *)
Shows(t) == IF t.k = "tptr" THEN ents[t.id] ELSE t.v
Plain == {x \in X : Ord(x) # <<>> /\ Kind(x) # "fn" /\ (Kind(x) = "tptr" => ents[Ord(x)[1].id] # 0)}
(* ordinary names that an integer constant expression can mention *)
Const == {x \in Plain : Kind(x) \in {"enumc", "arr", "type"}}
Types == {x \in X : Kind(x) = "type"}

(* ---------------------------------------------------------------- declarations *)
Var == /\ On
       /\ \E x \in Pick(Free("ord")), w \in Pick({"int", "arr", "self", "lself", "addr", "two", "stat"}), n \in Pick(1..60) :
            \E y \in Pick(IF w = "two" THEN Free("ord") \ {x} ELSE {x}) :
            LET k == IF w = "arr" THEN "arr" ELSE IF w = "addr" THEN "addr" ELSE "int"
                v == CASE w = "self" -> 4 [] w = "lself" -> 8 [] w = "addr" -> 1 [] OTHER -> n
                e1 == Enter(env, "ord", x, Thing(k, v)) IN
            /\ env' = (IF w = "two" THEN Enter(e1, "ord", y, Thing("int", v)) ELSE e1)
            /\ Put([s |-> IF w = "two" /\ File THEN "twof" ELSE w, x |-> x, y |-> y, n |-> n, c |-> v])
       /\ Quiet /\ UNCHANGED <<ents, outp>>
(* the scope of an object begins after its declarator: its own bound still sees the outer name *)
Outer == /\ On
         /\ \E x \in Pick(Free("ord") \cap Const), w \in Pick({"arr", "type", "enumc", "parr"}) :
              LET o == Ord(x)[1] v == o.v + (IF w = "enumc" THEN 1 ELSE 2) IN
              /\ env' = Enter(env, "ord", x, Thing(w, v))
              /\ Put([s |-> "outer", x |-> x, w |-> w, k |-> o.k])
         /\ Quiet /\ UNCHANGED <<ents, outp>>
(* an enumerator is visible from the next one on *)
Enum == /\ On
        /\ \E x \in Pick(Free("ord")), w \in Pick({"one", "next", "expr", "tag", "insize", "instruct"}), n \in Pick(1..60) :
             \E y \in Pick(IF w \in {"next", "expr"} THEN Free("ord") \ {x} ELSE {x}) :
             LET e1 == Enter(env, "ord", x, Thing("enumc", n))
                 e2 == CASE w = "next" -> Enter(e1, "ord", y, Thing("enumc", n + 1)) [] w = "expr" -> Enter(e1, "ord", y, Thing("enumc", n + 3)) [] OTHER -> e1 IN
             /\ IF w = "tag" /\ y \notin Free("tag") THEN UNCHANGED <<env, toks>>
                ELSE /\ env' = (IF w = "tag" THEN Enter(e2, "tag", y, Thing("enum", 4)) ELSE e2)
                     /\ Put([s |-> IF w = "insize" /\ File THEN "enumone" ELSE "enum" \o w, x |-> x, y |-> y, n |-> n])
        /\ Quiet /\ UNCHANGED <<ents, outp>>
Typedef == /\ On
           /\ \E x \in Pick(Free("ord")), n \in Pick(1..60), w \in Pick({"new", "alias", "var", "parens"}) :
                IF w = "new" \/ Types = {} THEN env' = Enter(env, "ord", x, Thing("type", n)) /\ Put([s |-> "type", x |-> x, n |-> n])
                ELSE \E y \in Pick(Types) :
                     /\ env' = Enter(env, "ord", x, Thing(IF w = "alias" THEN "type" ELSE "arr", Ord(y)[1].v))
                     /\ Put([s |-> w, x |-> x, y |-> y])
           /\ Quiet /\ UNCHANGED <<ents, outp>>
(* members have a name space of their own, whatever their names denote outside *)
Record == /\ On
          /\ \E x \in Pick(Free("ord")), y \in Pick(X), z \in Pick(X), n \in Pick(1..60), k \in Pick(1..60) :
               /\ env' = Enter(env, "ord", x, [Thing("rec", 0) EXCEPT !.m = IF y = z THEN <<<<y, n>>>> ELSE <<<<y, n>>, <<z, k>>>>])
               /\ Put([s |-> "rec", x |-> x, y |-> y, z |-> z, n |-> n, k |-> k])
          /\ Quiet /\ UNCHANGED <<ents, outp>>
(* a tag: defined, declared alone, or mentioned first in a pointer *)
StructSize(w, n) == IF w = "selfp" THEN 8 + Up(n, 8) ELSE n
Complete(x) == IF <<"tag", x>> \in DOMAIN env[1] THEN env[1][<<"tag", x>>].k = "struct" /\ ents[env[1][<<"tag", x>>].id] = 0 ELSE TRUE
DefTag == /\ On
          /\ \E x \in Pick({y \in X : Complete(y)}), w \in Pick({"plain", "selfp", "insize", "member", "var"}), n \in Pick(1..60) :
               LET old == <<"tag", x>> \in DOMAIN env[1]
                   id == IF old THEN env[1][<<"tag", x>>].id ELSE Len(ents) + 1
                   w2 == IF w = "insize" /\ File THEN "plain" ELSE IF w = "var" /\ x \notin Free("ord") THEN "plain" ELSE w
                   e1 == IF old THEN env ELSE Enter(env, "tag", x, [Thing("struct", 0) EXCEPT !.id = id]) IN
               /\ ents' = (IF old THEN [ents EXCEPT ![id] = StructSize(w2, n)] ELSE Append(ents, StructSize(w2, n)))
               /\ env' = (IF w2 = "var" THEN Enter(e1, "ord", x, Thing("svar", n)) ELSE e1)
               /\ Put([s |-> "tag" \o w2, x |-> x, n |-> n])
               /\ IF w2 = "insize" THEN Show(n) ELSE UNCHANGED outp
          /\ Quiet
Forward == /\ On
           /\ \E x \in Pick(Free("tag")) :
                /\ env' = Enter(env, "tag", x, [Thing("struct", 0) EXCEPT !.id = Len(ents) + 1])
                /\ ents' = Append(ents, 0) /\ Put([s |-> "fwd", x |-> x])
           /\ Quiet /\ UNCHANGED outp
TagPtr == /\ On
          /\ \E x \in Pick(Free("ord")), y \in Pick(X) :
               LET t == Tag(y) id == IF t # <<>> THEN t[1].id ELSE Len(ents) + 1
                   e1 == IF t # <<>> THEN env ELSE Enter(env, "tag", y, [Thing("struct", 0) EXCEPT !.id = id]) IN
               IF t # <<>> /\ id = 0 THEN UNCHANGED <<env, ents, toks>>
               ELSE /\ env' = Enter(e1, "ord", x, [Thing("tptr", 0) EXCEPT !.id = id])
                    /\ ents' = (IF t # <<>> THEN ents ELSE Append(ents, 0))
                    /\ Put([s |-> "tptr", x |-> x, y |-> y])
          /\ Quiet /\ UNCHANGED outp
(* names declared in a prototype end with it *)
Proto == /\ On
         /\ \E x \in Pick(X), y \in Pick(X), n \in Pick(1..60), w \in Pick({"size", "enum", "struct", "type"}) :
              Put([s |-> "proto", w |-> IF w = "type" /\ Kind(y) # "type" THEN "size" ELSE w, x |-> x, y |-> IF (w = "size" \/ (w = "type" /\ Kind(y) # "type")) /\ x = y THEN (x % Names) + 1 ELSE y, n |-> n])
         /\ Quiet /\ UNCHANGED <<env, ents, outp>>

(* ---------------------------------------------------------------- uses *)
Use == /\ On /\ ~File
       /\ \E x \in Pick(X), w \in Pick({"ord", "ord2", "tag", "mem"}) :
            IF w = "tag" /\ Tag(x) # <<>>
            THEN LET t == Tag(x)[1] IN
                 IF t.k = "struct" /\ ents[t.id] # 0 THEN Put([s |-> "usetag", x |-> x, k |-> "struct"]) /\ Show(ents[t.id])
                 ELSE IF t.k = "enum" THEN Put([s |-> "usetag", x |-> x, k |-> "enum"]) /\ Show(4)
                 ELSE UNCHANGED <<toks, outp>>
            ELSE IF x \in Plain
            THEN LET t == Ord(x)[1] IN
                 IF t.k = "rec" THEN \E i \in Pick(DOMAIN t.m) : Put([s |-> "usemem", x |-> x, y |-> t.m[i][1]]) /\ Show(t.m[i][2])
                 ELSE Put([s |-> "use", x |-> x, k |-> t.k]) /\ Show(Shows(t))
            ELSE UNCHANGED <<toks, outp>>
       /\ Quiet /\ UNCHANGED <<env, ents>>
(* labels live in the function, and hide nothing *)
Label == /\ On /\ ~File /\ live
         /\ \E x \in Pick(X) : IF x \in labels THEN UNCHANGED <<toks, labels>>
                               ELSE Put([s |-> "label", x |-> x]) /\ labels' = labels \cup {x}
         /\ UNCHANGED <<ph, env, kinds, ents, outp, live>>

(* ---------------------------------------------------------------- scopes *)
Opens == {"block", "if", "for", "ifenum", "while", "switch", "elseenum"}
Open == /\ On /\ ~File /\ Len(env) < 7
        /\ \E w \in Pick(Opens), x \in Pick(X), n \in Pick(1..60) :
             LET new == CASE w = "for" -> (<<"ord", x>> :> Thing("int", n))
                          [] w \in {"ifenum", "switch", "while", "elseenum"} -> (<<"ord", x>> :> Thing("enumc", n))
                          [] OTHER -> <<>> IN
             /\ env' = <<<<>>>> \o (IF w \in {"block", "if"} THEN <<>> ELSE <<new>>) \o env
             /\ kinds' = <<w>> \o kinds
             /\ Put([s |-> "open", w |-> w, x |-> x, n |-> n])
        /\ UNCHANGED <<ph, ents, outp, labels, live>>
Drop(w) == IF w \in {"block", "if", "fn"} THEN 1 ELSE 2
Close == /\ ph = "build" /\ Len(env) > 2 /\ ~File /\ kinds[1] # "fn"
         /\ env' = SubSeq(env, 1 + Drop(kinds[1]), Len(env)) /\ kinds' = Tail(kinds)
         /\ Put([s |-> "close", w |-> kinds[1]])
         /\ UNCHANGED <<ph, ents, outp, labels, live>>
(* a statement that declares and is its own scope *)
Bare == /\ On /\ ~File
        /\ \E x \in Pick(X), n \in Pick(1..60), w \in Pick({"if", "else", "for", "while", "do"}) :
             Put([s |-> "bare", w |-> w, x |-> x, n |-> n]) /\ Show(n)
        /\ Quiet /\ UNCHANGED <<env, ents>>
(* functions: a parameter is visible in the ones after it, and in the body *)
Fn == /\ On /\ File
      /\ \E x \in Pick(X), y \in Pick(X), n \in Pick(1..60), w \in Pick({"none", "int", "int2", "ptr", "type"}) :
           LET w2 == IF w \in {"int2", "ptr"} /\ x = y THEN "int" ELSE IF w = "type" /\ Kind(x) # "type" THEN "int" ELSE w
               e0 == <<<<>>>> \o env
               e1 == CASE w2 = "none" -> e0
                       [] w2 = "type" -> Enter(e0, "ord", x, Thing("arr", 8))
                       [] OTHER -> Enter(e0, "ord", x, Thing("int", n))
               e2 == CASE w2 = "int2" -> Enter(e1, "ord", y, Thing("int", n + 1)) [] w2 = "ptr" -> Enter(e1, "ord", y, Thing("parr", 4)) [] OTHER -> e1 IN
           env' = e2 /\ Put([s |-> "fn", w |-> w2, x |-> x, y |-> y, n |-> n])
      /\ kinds' = <<"fn">> \o kinds /\ labels' = {} /\ UNCHANGED <<ph, ents, outp, live>>
CloseFn == /\ ph = "build" /\ ~File /\ kinds[1] = "fn"
           /\ env' = Tail(env) /\ kinds' = Tail(kinds) /\ Put([s |-> "closefn"])
           /\ UNCHANGED <<ph, ents, outp, labels, live>>

(* ---------------------------------------------------------------- what is forbidden *)
Taken == {x \in X : <<"ord", x>> \in DOMAIN env[1] /\ env[1][<<"ord", x>>].k # "fn"}
TakenTag == {x \in X : IF <<"tag", x>> \in DOMAIN env[1] THEN env[1][<<"tag", x>>].k = "enum" \/ ents[env[1][<<"tag", x>>].id] # 0 ELSE FALSE}
Wrongs == {[s |-> "bad", w |-> "undeclared", x |-> x] : x \in {y \in X : Ord(y) = <<>> /\ ~File}}
     \cup {[s |-> "bad", w |-> "incomplete", x |-> x] : x \in {y \in X : ~File /\ (Tag(y) = <<>> \/ (IF Tag(y)[1].k = "struct" THEN ents[Tag(y)[1].id] = 0 ELSE FALSE))}}
     \cup {[s |-> "bad", w |-> "kind", x |-> x] : x \in {y \in X : Tag(y) # <<>> /\ <<"tag", y>> \in DOMAIN env[1]}}
     \cup {[s |-> "bad", w |-> w, x |-> x] : x \in {y \in Taken : env[1][<<"ord", y>>].k # "enumc"}, w \in {"reenum"}}
     \cup {[s |-> "bad", w |-> w, x |-> x] : x \in {y \in Taken : env[1][<<"ord", y>>].k \notin {"type"}}, w \in {"retype"}}
     \cup {[s |-> "bad", w |-> w, x |-> x] : x \in {y \in Taken : ~File \/ env[1][<<"ord", y>>].k \in {"enumc", "type", "addr", "tptr", "svar", "rec"}}, w \in {"revar"}}
     \cup {[s |-> "bad", w |-> w, x |-> x] : x \in {y \in Taken : env[1][<<"ord", y>>].k = "enumc"}, w \in {"reenum2"}}
     \cup {[s |-> "bad", w |-> "restruct", x |-> x] : x \in {y \in TakenTag : env[1][<<"tag", y>>].k = "struct"}}
     \cup {[s |-> "bad", w |-> "retag", x |-> x] : x \in TakenTag}
     \cup {[s |-> "bad", w |-> "member", x |-> x, y |-> y] : x \in {z \in X : Kind(z) = "rec" /\ ~File}, y \in X}
     \cup {[s |-> "bad", w |-> "label", x |-> x] : x \in {y \in X : ~File}}
     \cup {[s |-> "bad", w |-> "relabel", x |-> x] : x \in {y \in labels : ~File}}
     \cup {[s |-> "bad", w |-> w, x |-> x] : x \in X, w \in {"param", "members", "enums"}}
     \cup {[s |-> "bad", w |-> "notype", x |-> x] : x \in {y \in X : Kind(y) # "type"}}
     \cup {[s |-> "bad", w |-> "typeuse", x |-> x] : x \in {y \in X : Kind(y) = "type" /\ ~File}}
Right(b) == CASE b.w = "member" -> ~\E i \in DOMAIN Ord(b.x)[1].m : Ord(b.x)[1].m[i][1] = b.y
              [] b.w = "label" -> b.x \notin labels
              [] OTHER -> TRUE
Wrong == /\ ph = "build" /\ Bad /\ Len(toks) >= 2
         /\ \E w \in Pick({b.w : b \in {c \in Wrongs : Right(c)}}) : \E b \in Pick({c \in Wrongs : c.w = w /\ Right(c)}) : Put(b)
         /\ ph' = "end" /\ UNCHANGED <<env, kinds, ents, outp, labels, live>>
Full == /\ ph = "build" /\ ~Bad /\ Len(toks) >= MaxStmt /\ ph' = "end" /\ UNCHANGED <<env, kinds, ents, toks, outp, labels, live>>
EndClose == /\ ph = "end" /\ ~File
            /\ IF kinds[1] = "fn" THEN env' = Tail(env) /\ Put([s |-> "closefn"])
               ELSE env' = SubSeq(env, 1 + Drop(kinds[1]), Len(env)) /\ Put([s |-> "close", w |-> kinds[1]])
            /\ kinds' = Tail(kinds) /\ UNCHANGED <<ph, ents, outp, labels, live>>
EndAll == /\ ph = "end" /\ File /\ ph' = "emit" /\ UNCHANGED <<env, kinds, ents, toks, outp, labels, live>>
Finish == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<env, kinds, ents, toks, outp, labels, live>>
Init == ph = "build" /\ env = <<<<>>>> /\ kinds = <<>> /\ ents = <<>> /\ toks = <<>> /\ outp = <<>> /\ labels = {} /\ live = TRUE
Next == \/ Var \/ Outer \/ Enum \/ Typedef \/ Record \/ DefTag \/ Forward \/ TagPtr \/ Proto \/ Use \/ Label \/ Open \/ Close \/ Bare
        \/ Fn \/ CloseFn \/ Wrong \/ Full \/ EndClose \/ EndAll \/ Finish
Spec == Init /\ [][Next]_vars
Sound == ph = "build" => Len(env) >= 1
Emit == ph = "emit" => PrintT(ToJson([toks |-> toks, out |-> outp]))
=============================================================================
