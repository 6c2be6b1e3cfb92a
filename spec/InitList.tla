-------------------------------- MODULE InitList --------------------------------
(* Initialization (6.7.9): a cursor walks over the subobjects of the object while the initializer is read token by
   token.  A frame is an open brace: the subobject it is for and the subobject that comes next.  The contents are a
   map from paths to values; what was never designated is zero.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxAgg, MaxMem, MaxItems, MaxLeaves, Strings, Unknown, Kinds, Roots, MaxWidth, FieldTypes, Scalars, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, cur, pool, root, frames, val, act, toks, n, des, top, strs
vars == <<ph, cur, pool, root, frames, val, act, toks, n, des, top, strs>>
(* strs: the arrays that got a string.  frames: sequence of [base, next, end, shut]; next is a path from the root, end says that nothing follows;
   des: a designation was just read; top: one more than the largest index used of an array of unknown bound *)

S(x) == [k |-> "s", n |-> x]
Arr(e, c) == [k |-> "arr", e |-> e, c |-> c]
(* members: t, hidden: unnamed bit-field, anon: anonymous structure or union, w: width of a bit-field or -1 *)
Agg(ms, u) == [k |-> "agg", ms |-> ms, u |-> u]
StrElem(t) == IF t.k = "arr" /\ t.e.k = "s" THEN t.e.n \in {"char", "schar", "uchar", "wchar", "char16"} ELSE FALSE
RECURSIVE Count(_)
Count(t) == CASE t.k = "s" -> 1 [] t.k = "arr" -> (IF t.c = -1 THEN 4 ELSE t.c) * Count(t.e) [] OTHER -> FoldLeft(LAMBDA a, m : a + Count(m.t), 0, t.ms)

(* ---------------------------------------------------------------- navigation *)
Child(t, i) == IF t.k = "arr" THEN t.e ELSE t.ms[i].t
RECURSIVE At(_, _)
At(t, path) == IF path = <<>> THEN t ELSE At(Child(t, path[1]), Tail(path))
Type(path) == At(root, path)
Bound(t) == IF t.c = -1 THEN 1000 ELSE t.c
(* the next child after number i that takes an initializer, 0 without one; children of arrays are counted from 1 *)
RECURSIVE After(_, _)
After(t, i) == CASE t.k = "arr" -> IF i + 1 <= Bound(t) THEN i + 1 ELSE 0
                 [] OTHER -> IF i + 1 > Len(t.ms) THEN 0 ELSE IF t.ms[i + 1].hidden THEN After(t, i + 1) ELSE i + 1
FirstOf(t) == After(t, 0)
(* the subobject behind path inside base: <<found, path>> *)
RECURSIVE Next1(_, _)
Next1(base, path) ==
  IF Len(path) <= Len(base) THEN <<FALSE, path>>
  ELSE LET up == Front(path)
           t == Type(up)
           i == IF t.k = "agg" THEN (IF t.u THEN 0 ELSE After(t, Last(path))) ELSE After(t, Last(path))
       IN IF i # 0 THEN <<TRUE, Append(up, i)>> ELSE Next1(base, up)
(* down to the first scalar, or to the first array of characters on the way *)
RECURSIVE Descend(_, _)
Descend(path, str) == IF Type(path).k = "s" \/ (IF str THEN StrElem(Type(path)) ELSE FALSE) THEN path ELSE Descend(Append(path, FirstOf(Type(path))), str)

(* ---------------------------------------------------------------- building the type *)
Vis(ms) == \E i \in DOMAIN ms : ~ms[i].hidden
M(t) == [t |-> t, hidden |-> FALSE, anon |-> FALSE, w |-> -1]
Widths(x) == IF x \in {"uchar", "schar"} /\ MaxWidth > 8 THEN 5..8 ELSE 5..MaxWidth
Member(P(_)) == \E w \in Pick(Kinds) :
   CASE w = "arr" -> \E x \in Pick(Scalars), c \in Pick(1..4) : P(M(Arr(S(x), c)))
     [] w = "arr2" -> \E x \in Pick(Scalars), c \in Pick(1..3), d \in Pick(1..3) : P(M(Arr(Arr(S(x), c), d)))
     [] w = "str" /\ Strings -> \E x \in Pick({"char", "char", "schar", "uchar", "wchar", "char16"}), c \in Pick(1..6) : P(M(Arr(S(x), c)))
     [] w \in {"agg", "agg2"} /\ pool # <<>> -> \E i \in Pick(DOMAIN pool) : P(M(pool[i]))
     [] w = "aggarr" /\ pool # <<>> -> \E i \in Pick(DOMAIN pool), c \in Pick(1..3) : P(M(Arr(pool[i], c)))
     [] w = "anon" /\ pool # <<>> -> \E i \in Pick(DOMAIN pool) : P([M(pool[i]) EXCEPT !.anon = TRUE])
     [] w \in {"bf", "bf2", "bf3"} -> \E x \in Pick(FieldTypes) : \E b \in Pick(Widths(x)) : P([M(S(x)) EXCEPT !.w = b])
     [] w = "pad" -> \E x \in Pick({"int", "ushort"}) : \E b \in Pick(Widths(x)) : P([M(S(x)) EXCEPT !.w = b, !.hidden = TRUE])
     [] OTHER -> \E x \in Pick(Scalars) : P(M(S(x)))
AddMember == /\ ph = "types" /\ Len(pool) < MaxAgg /\ Len(cur) < MaxMem
             /\ Member(LAMBDA m : Count(Agg(Append(cur, m), FALSE)) <= MaxLeaves /\ cur' = Append(cur, m))
             /\ UNCHANGED <<ph, pool, root, frames, val, act, toks, n, des, top, strs>>
CloseAgg == /\ ph = "types" /\ Len(pool) < MaxAgg /\ Vis(cur)
            /\ \E u \in Pick(1..4) : pool' = Append(pool, Agg(cur, u = 1)) /\ cur' = <<>>
            /\ UNCHANGED <<ph, root, frames, val, act, toks, n, des, top, strs>>
Start == /\ ph = "types" /\ Len(pool) = MaxAgg
         /\ \E w \in Pick(Roots), i \in Pick(DOMAIN pool), x \in Pick(Scalars), c \in Pick(1..4), d \in Pick(1..3), unk \in Pick(1..3), y \in Pick({"char", "uchar", "wchar", "char16"}) :
              LET b == IF Unknown /\ unk # 1 THEN -1 ELSE c IN
              root' = CASE w = "arr" -> Arr(pool[i], b) [] w = "sarr" -> Arr(S(x), b) [] w = "arr2" -> Arr(Arr(S(x), d), b)
                        [] w = "str" /\ Strings -> Arr(S(y), b) [] w = "scalar" /\ ~Unknown -> S(x) [] OTHER -> pool[i]
         /\ ph' = "first" /\ UNCHANGED <<cur, pool, frames, val, act, toks, n, des, top, strs>>

(* ---------------------------------------------------------------- contents *)
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Wipe(m, P(_)) == [p \in {q \in DOMAIN m : ~P(q)} |-> m[p]]
(* entering path makes it the stored member of every union it goes through; what other members held is gone *)
Through(path) == {k \in 1..Len(path) : LET t == Type(SubSeq(path, 1, k - 1)) IN IF t.k = "agg" THEN t.u ELSE FALSE}
Gone(path) == {k \in Through(path) : LET u == SubSeq(path, 1, k - 1) IN u \in DOMAIN act /\ act[u] # path[k]}
InGone(path, q) == \E k \in Gone(path) : Under(SubSeq(path, 1, k - 1), q)
Enter(path) == [u \in {SubSeq(path, 1, k - 1) : k \in Through(path)} |-> path[Len(u) + 1]] @@ Wipe(act, LAMBDA q : InGone(path, q) /\ \A k \in Through(path) : q # SubSeq(path, 1, k - 1))
Kept(path) == Wipe(val, LAMBDA q : InGone(path, q))
Grow(path) == IF root.k = "arr" /\ path # <<>> /\ path[1] > top THEN path[1] ELSE top
Frame == Last(frames)
Open(base) == [base |-> base, next |-> IF Type(base).k = "s" THEN base ELSE Append(base, FirstOf(Type(base))), end |-> FALSE, shut |-> FALSE]
Advance(fs, path) == LET f == Last(fs)
                         x == Next1(f.base, path)
                     IN Append(Front(fs), IF x[1] THEN [f EXCEPT !.next = x[2]] ELSE [f EXCEPT !.end = TRUE])
Tok(x) == toks' = Append(toks, x)
Same == UNCHANGED <<cur, pool, root>>

(* the outermost initializer: a brace, or for a character array perhaps just a string *)
Begin == /\ ph = "first" /\ Same /\ ph' = "list" /\ act' = act /\ n' = n /\ des' = FALSE
         /\ \E bare \in Pick(1..2) :
              IF (StrElem(root) /\ Strings /\ bare = 1) \/ (root.k = "s" /\ bare = 1)
              THEN frames' = <<[base |-> <<>>, next |-> <<>>, end |-> FALSE, shut |-> FALSE]>> /\ Tok([t |-> "bare"])
              ELSE frames' = <<Open(<<>>)>> /\ Tok([t |-> "open"])
         /\ UNCHANGED <<val, top, strs>>
Bare == Len(toks) >= 1 /\ toks[1].t = "bare"
Cursor == Frame.next
(* bit-fields get values that fill them *)
Value(p) == LET t == IF p = <<>> THEN root ELSE Type(Front(p))
                w == IF t.k = "agg" THEN t.ms[Last(p)].w ELSE -1
            IN IF w = -1 THEN n + 1 ELSE 2 ^ (w - 1) - 1 - n
Can == ph = "list" /\ frames # <<>> /\ ~Frame.end
(* a value for the first scalar at the cursor *)
Scalar == /\ Can /\ (Bare => root.k = "s") /\ n < MaxItems
          /\ LET p == Descend(Cursor, FALSE)
             \* a string that an elided brace goes into again is left out: compilers differ
             IN /\ \A q \in strs : Under(q, p) => des /\ Len(Cursor) > Len(q)
                /\ strs' = strs
                /\ val' = (p :> Value(p)) @@ Kept(p) /\ act' = Enter(p) /\ top' = Grow(p)
                /\ Tok([t |-> "val", v |-> Value(p), p |-> p]) /\ frames' = Advance(frames, p)
          /\ n' = n + 1 /\ des' = FALSE /\ ph' = ph /\ Same
(* a string for the first array of characters on the way down *)
Str == /\ Can /\ Strings /\ n < MaxItems
       \* behind a designation a string counts only where it is named itself: gcc looks at an earlier array otherwise
       /\ (des \/ Last(toks).t = "open" \/ \A i \in DOMAIN toks : toks[i].t # "des")
       /\ LET inside == StrElem(Type(Frame.base)) /\ Len(Cursor) = Len(Frame.base) + 1 /\ ~des /\ Last(Cursor) = 1 /\ Last(toks).t = "open"
              p == IF inside THEN Frame.base ELSE Descend(Cursor, TRUE)
              t == Type(p)
          IN /\ StrElem(t)
             /\ \E len \in Pick(0..(IF t.c = -1 THEN 5 ELSE t.c)) :
                  /\ (t.c = -1 \/ len <= t.c)
                  /\ val' = [q \in {Append(p, i) : i \in 1..len} |-> 64 + n + Last(q)] @@ Wipe(Kept(p), LAMBDA q : Under(p, q)) /\ act' = Enter(p)
                  /\ top' = (IF p = <<>> THEN (IF len + 1 > top THEN len + 1 ELSE top) ELSE Grow(p))
                  /\ Tok([t |-> "str", vs |-> [i \in 1..len |-> 64 + n + i], p |-> p])
             /\ frames' = (IF inside THEN Append(Front(frames), [Frame EXCEPT !.end = TRUE, !.shut = TRUE]) ELSE Advance(frames, p))
             /\ strs' = strs \cup {p}
       /\ n' = n + 1 /\ des' = FALSE /\ ph' = ph /\ Same
(* a brace for the subobject at the cursor; it starts from nothing *)
Brace == /\ Can /\ ~Bare /\ n < MaxItems /\ Len(frames) < 6
         /\ Frame.base # Cursor                       \* no second pair around a scalar
         /\ frames' = Append(frames, Open(Cursor))
         /\ val' = Wipe(Kept(Cursor), LAMBDA q : Under(Cursor, q)) /\ act' = [p \in {q \in DOMAIN Enter(Cursor) : ~Under(Cursor, q)} |-> Enter(Cursor)[p]]
         /\ top' = Grow(Cursor) /\ Tok([t |-> "open"]) /\ des' = FALSE /\ UNCHANGED <<ph, n>> /\ Same /\ strs' = {q \in strs : ~Under(Cursor, q)}
CloseBrace == /\ ph = "list" /\ frames # <<>> /\ ~Bare /\ ~des /\ Last(toks).t # "open"
              /\ IF Len(frames) = 1 THEN frames' = <<>> ELSE frames' = Advance(Front(frames), Frame.base)
              /\ Tok([t |-> "close"]) /\ UNCHANGED <<ph, n, val, act, top, strs>> /\ des' = FALSE /\ Same
(* a designation: one step into the brace's object, perhaps more *)
Steps(t) == IF t.k = "s" THEN {} ELSE IF t.k = "arr" THEN 1..(IF t.c = -1 THEN 5 ELSE t.c) ELSE {i \in DOMAIN t.ms : ~t.ms[i].hidden}
MustGoOn(path) == LET t == Type(Front(path)) IN IF t.k = "agg" THEN t.ms[Last(path)].anon ELSE FALSE
Designate == /\ ph = "list" /\ frames # <<>> /\ ~Frame.shut /\ ~Bare /\ ~des /\ n < MaxItems /\ Steps(Type(Frame.base)) # {} /\ (Type(Frame.base).k # "s")
             /\ \E i \in Pick(Steps(Type(Frame.base))) : \E j \in (IF Steps(Child(Type(Frame.base), i)) = {} THEN {0} ELSE Pick(Steps(Child(Type(Frame.base), i)))), g \in Pick(1..3) :
                  LET p1 == Append(Frame.base, i)
                      p2 == Append(p1, j)
                      p == IF j # 0 /\ (MustGoOn(p1) \/ g = 1) THEN p2 ELSE p1
                  IN /\ ~MustGoOn(p)
                     /\ frames' = Append(Front(frames), [Frame EXCEPT !.next = p, !.end = FALSE])
                     /\ Tok([t |-> "des", p |-> p, b |-> Frame.base])
             /\ des' = TRUE /\ UNCHANGED <<ph, n, val, act, top, strs>> /\ Same
Finish == /\ ph = "list" /\ (frames = <<>> \/ (Bare /\ Len(toks) > 1)) /\ ph' = "emit" /\ UNCHANGED <<cur, pool, root, frames, val, act, toks, n, des, top, strs>>
Go == ph = "list" /\ frames # <<>> /\ ~(Bare /\ Len(toks) > 1)
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<cur, pool, root, frames, val, act, toks, n, des, top, strs>>
Init == ph = "types" /\ cur = <<>> /\ pool = <<>> /\ root = <<>> /\ frames = <<>> /\ val = <<>> /\ act = <<>> /\ toks = <<>> /\ n = 0 /\ des = FALSE /\ top = 0 /\ strs = {}
NextS == AddMember \/ CloseAgg \/ Start \/ Begin \/ (Go /\ Scalar) \/ (Go /\ (Scalar \/ Str)) \/ (Go /\ Str) \/ (Go /\ Brace) \/ (Go /\ Designate) \/ (Go /\ CloseBrace) \/ Finish \/ Done
Spec == Init /\ [][NextS]_vars

(* ---------------------------------------------------------------- what must be read back *)
Length == IF root.k = "arr" THEN (IF root.c = -1 THEN top ELSE root.c) ELSE 0
RECURSIVE Leaves(_, _)
Leaves(t, p) ==
   CASE t.k = "s" -> <<[p |-> p, v |-> IF p \in DOMAIN val THEN val[p] ELSE 0]>>
     [] t.k = "arr" -> FlattenSeq([i \in 1..(IF t.c = -1 THEN top ELSE t.c) |-> Leaves(t.e, Append(p, i))])
     [] t.u -> LET i == IF p \in DOMAIN act THEN act[p] ELSE FirstOf(t) IN Leaves(t.ms[i].t, Append(p, i))
     [] OTHER -> FlattenSeq([i \in DOMAIN t.ms |-> IF t.ms[i].hidden THEN <<>> ELSE Leaves(t.ms[i].t, Append(p, i))])
(* every stored value is found again at a scalar, and no frame points outside its object *)
Sound == /\ ph = "list" => \A i \in DOMAIN frames : frames[i].end \/ Under(frames[i].base, frames[i].next)
         /\ ph = "emit" => {p \in DOMAIN val : val[p] # 0} = {l.p : l \in {x \in ToSet(Leaves(root, <<>>)) : x.v # 0}}
Emit == ph = "emit" => PrintT(ToJson([root |-> root, toks |-> toks, leaves |-> Leaves(root, <<>>), len |-> Length]))
=============================================================================
