--------------------------------- MODULE Objects ---------------------------------
(* Objects and lvalues: memory is one map from bytes to values per object; a statement reads or writes the bytes of
   the lvalues it names, whichever way they are named.  A pointer is eight bytes that stand for an entry of ptrs.
   Statements inside an untaken branch have no effect.                                                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxAgg, MaxMem, MaxObj, MaxSize, MaxStmt, Scalars, ObjKinds, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, cur, pool, objs, mem, ptrs, prog, live, seed
vars == <<ph, cur, pool, objs, mem, ptrs, prog, live, seed>>

S(n) == [k |-> "s", n |-> n]
G(i) == [k |-> "g", i |-> i]
P(t) == [k |-> "p", t |-> t]
Arr(e, c) == [k |-> "arr", e |-> e, c |-> c]
Up(o, a) == ((o + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b
SSize(n) == CASE n \in {"char", "schar", "uchar"} -> 1 [] n \in {"short", "ushort"} -> 2 [] n \in {"int", "uint", "float"} -> 4 [] OTHER -> 8
RECURSIVE Align(_), Size(_)
Align(t) == CASE t.k = "s" -> SSize(t.n) [] t.k = "p" -> 8 [] t.k = "arr" -> Align(t.e) [] OTHER -> pool[t.i].align
Size(t) == CASE t.k = "s" -> SSize(t.n) [] t.k = "p" -> 8 [] t.k = "arr" -> t.c * Size(t.e) [] OTHER -> pool[t.i].size
Scalar(t) == t.k \in {"s", "p"}
Has(t, f) == CASE t.k = f -> TRUE [] OTHER -> FALSE
(* members at their offsets *)
Placed(ms, u) == FoldLeft(LAMBDA a, t : LET p == IF u THEN 0 ELSE Up(a.at, Align(t)) IN
                     [at |-> p + Size(t), end |-> Max2(a.end, p + Size(t)), align |-> Max2(a.align, Align(t)), ms |-> Append(a.ms, [t |-> t, off |-> p])],
                     [at |-> 0, end |-> 0, align |-> 1, ms |-> <<>>], ms)
Agg(ms, u) == LET a == Placed(ms, u) IN [ms |-> a.ms, u |-> u, align |-> a.align, size |-> Up(a.end, a.align)]

(* ---------------------------------------------------------------- declarations *)
SomeType(Q(_)) == \E w \in Pick(ObjKinds) :
   CASE w = "arr" -> \E x \in Pick(Scalars), c \in Pick(2..4) : Q(Arr(S(x), c))
     [] w = "arr2" -> \E x \in Pick(Scalars), c \in Pick(1..3), d \in Pick(1..3) : Q(Arr(Arr(S(x), c), d))
     [] w \in {"agg", "agg2"} /\ pool # <<>> -> \E i \in Pick(DOMAIN pool) : Q(G(i))
     [] w = "aggarr" /\ pool # <<>> -> \E i \in Pick(DOMAIN pool), c \in Pick(2..3) : Q(Arr(G(i), c))
     [] w = "ptr" -> \E x \in Pick(Scalars) : Q(P(S(x)))
     [] w = "ptrarr" -> \E x \in Pick(Scalars), c \in Pick(2..3) : Q(Arr(P(S(x)), c))
     [] w = "ptrptr" -> \E x \in Pick(Scalars) : Q(P(P(S(x))))
     [] w = "aggptr" /\ pool # <<>> -> \E i \in Pick(DOMAIN pool) : Q(P(G(i)))
     [] w = "rowptr" -> \E x \in Pick(Scalars), c \in Pick(2..3) : Q(P(Arr(S(x), c)))
     [] OTHER -> \E x \in Pick(Scalars) : Q(S(x))
AddMember == /\ ph = "types" /\ Len(pool) < MaxAgg /\ Len(cur) < MaxMem
             /\ \E self \in Pick(1..8) :
                  IF self = 1 THEN cur' = Append(cur, P(G(Len(pool) + 1)))
                  ELSE SomeType(LAMBDA t : Size(t) <= MaxSize /\ cur' = Append(cur, t))
             /\ UNCHANGED <<ph, pool, objs, mem, ptrs, prog, live, seed>>
CloseAgg == /\ ph = "types" /\ Len(pool) < MaxAgg /\ cur # <<>>
            /\ \E u \in Pick(1..4) : LET a == Agg(cur, u = 1) IN a.size <= MaxSize /\ pool' = Append(pool, a) /\ cur' = <<>>
            /\ UNCHANGED <<ph, objs, mem, ptrs, prog, live, seed>>
AddObj == /\ ph = "types" /\ Len(pool) = MaxAgg /\ Len(objs) < MaxObj
          /\ SomeType(LAMBDA t : Size(t) <= MaxSize /\ objs' = Append(objs, t) /\ mem' = Append(mem, [b \in 0..(Size(t) - 1) |-> 0]))
          /\ ph' = (IF Len(objs) + 1 = MaxObj THEN "run" ELSE ph)
          /\ UNCHANGED <<cur, pool, ptrs, prog, live, seed>>

(* ---------------------------------------------------------------- places *)
(* a place: object, first byte, type; base and path say how it is named: base is an object or a pointer's place with
   an index, path the members and elements from there; arr: the array it is an element of <<first byte, elements>> *)
RECURSIVE Inside(_)
Inside(l) == {l} \cup CASE l.t.k = "arr" -> UNION {Inside([l EXCEPT !.off = l.off + (i - 1) * Size(l.t.e), !.t = l.t.e, !.path = Append(@, i), !.arr = <<l.off, l.t.c>>]) : i \in 1..l.t.c}
                        [] l.t.k = "g" -> UNION {Inside([l EXCEPT !.off = l.off + pool[l.t.i].ms[i].off, !.t = pool[l.t.i].ms[i].t, !.path = Append(@, i), !.arr = <<>>]) : i \in DOMAIN pool[l.t.i].ms}
                        [] OTHER -> {}
Object(o) == [o |-> o, off |-> 0, t |-> objs[o], base |-> [k |-> "o", o |-> o], path |-> <<>>, arr |-> <<>>]
Direct == UNION {Inside(Object(o)) : o \in DOMAIN objs}
Bytes(l) == [i \in 1..Size(l.t) |-> mem[l.o][l.off + i - 1]]
(* the entry of ptrs that a place of pointer type holds, 0 when it holds none *)
Holds(l) == LET b == Bytes(l) IN IF b[1] >= 1000 /\ \A i \in 1..8 : b[i] = b[1] + i - 1 THEN (b[1] - 1000) \div 8 ELSE 0
Pointer(l) == ptrs[Holds(l)]
Count(q) == IF q.arr = <<>> THEN 1 ELSE q.arr[2]
Index(q) == IF q.arr = <<>> THEN q.past ELSE (q.off - q.arr[1]) \div Size(q.t)
(* a pointer of another type in the same bytes of a union is not used *)
Holders(ls) == {l \in ls : IF l.t.k = "p" THEN (IF Holds(l) = 0 THEN FALSE ELSE ptrs[Holds(l)].t = l.t.t) ELSE FALSE}
Target(l, k) == LET q == Pointer(l) IN
   [o |-> q.o, off |-> q.off + k * Size(q.t), t |-> q.t, base |-> [k |-> "p", l |-> [o |-> l.o, base |-> l.base, path |-> l.path], i |-> k], path |-> <<>>, arr |-> q.arr]
Within(l) == {k \in (0 - Index(Pointer(l)))..(Count(Pointer(l)) - 1 - Index(Pointer(l))) : TRUE}
Deref1 == {l \in Holders(Direct) : Within(l) # {}}
(* all the ways to a place: an object, or what some pointer points to, or what that points to *)
Way(Q(_)) == \E w \in Pick(1..4) :
   IF w <= 2 \/ Deref1 = {} THEN \E o \in Pick(DOMAIN objs) : \E l \in Pick(Inside(Object(o))) : Q(l)
   ELSE \E p \in Pick(Deref1) : \E k \in Pick(Within(p)) : LET t1 == Inside(Target(p, k))
                                                            h == {l \in Holders(t1) : Within(l) # {}}
        IN IF w = 3 \/ h = {} THEN \E l \in Pick(t1) : Q(l)
           ELSE \E p2 \in Pick(h) : \E k2 \in Pick(Within(p2)) : \E l \in Pick(Inside(Target(p2, k2))) : Q(l)
Ref(l) == [o |-> l.o, base |-> l.base, path |-> l.path]
Live == \A i \in DOMAIN live : live[i].on
Put(o, off, bs) == IF ~Live THEN mem' = mem ELSE mem' = [mem EXCEPT ![o] = [b \in DOMAIN @ |-> IF b >= off /\ b < off + Len(bs) THEN bs[b - off + 1] ELSE @[b]]]
Say(x) == prog' = Append(prog, x)
Can == ph = "run" /\ Len(prog) < MaxStmt
Stay == UNCHANGED <<ph, cur, pool, objs, live>>

(* ---------------------------------------------------------------- statements *)
FloatBits(n, v) == IF n = "float" THEN <<0, 0, 64 * (v % 4), 64>> ELSE <<0, 0, 0, 0, 0, 0, 2 * (v % 8), 64>>
Pattern(n, v) == IF n \in {"float", "double"} THEN FloatBits(n, v) ELSE [i \in 1..SSize(n) |-> (v * 37 + i * 59 + (v % 7) * 31) % 256]
Store == /\ Can
         /\ Way(LAMBDA l : l.t.k = "s" /\ Put(l.o, l.off, Pattern(l.t.n, seed)) /\ Say([s |-> "store", l |-> Ref(l), t |-> l.t, v |-> Pattern(l.t.n, seed)]))
         /\ seed' = seed + 1 /\ UNCHANGED ptrs /\ Stay
(* the address of a place, or for an element of an array perhaps the place behind the last *)
PtrTypes == {l.t : l \in {m \in Direct : m.t.k = "p"}}
Point == /\ Can /\ PtrTypes # {}
         /\ \E p \in Pick({l \in Direct : l.t.k = "p"}) : \E l \in Pick({m \in Direct : m.t = p.t.t}), past \in Pick(1..6) :
              LET e == IF past = 1 THEN 1 ELSE 0
                  last == IF l.arr = <<>> THEN TRUE ELSE (l.off - l.arr[1]) \div Size(l.t) = l.arr[2] - 1
                  n == Len(ptrs) + 1
              IN /\ e = 1 => last
                 /\ ptrs' = Append(ptrs, [o |-> l.o, off |-> l.off + e * Size(l.t), t |-> l.t, arr |-> l.arr, past |-> e])
                 /\ Put(p.o, p.off, [i \in 1..8 |-> 1000 + n * 8 + i - 1])
                 /\ Say([s |-> "point", l |-> Ref(p), r |-> Ref(l), e |-> e])
         /\ UNCHANGED seed /\ Stay
Move == /\ Can
        /\ \E p \in Pick(Holders(Direct)) : \E k \in Pick((0 - Index(Pointer(p)))..(Count(Pointer(p)) - Index(Pointer(p)))) :
             LET q == Pointer(p)
                 n == Len(ptrs) + 1
             IN /\ ptrs' = Append(ptrs, [q EXCEPT !.off = @ + k * Size(q.t), !.past = IF q.arr = <<>> THEN @ + k ELSE @])
                /\ Put(p.o, p.off, [i \in 1..8 |-> 1000 + n * 8 + i - 1])
                /\ Say([s |-> "move", l |-> Ref(p), k |-> k])
        /\ UNCHANGED seed /\ Stay
Overlap(a, b) == a.o = b.o /\ a.off < b.off + Size(b.t) /\ b.off < a.off + Size(a.t)
FloatOk(l) == IF l.t.k = "s" THEN l.t.n \notin {"float", "double"} ELSE TRUE
(* arrays are not assigned *)
Copy == /\ Can
        /\ Way(LAMBDA a : /\ a.t.k # "arr"
                          /\ Way(LAMBDA b : /\ b.t = a.t /\ (~Overlap(a, b) \/ a.off = b.off)
                                            /\ Put(a.o, a.off, Bytes(b)) /\ Say([s |-> "copy", l |-> Ref(a), r |-> Ref(b), t |-> a.t])))
        /\ UNCHANGED <<seed, ptrs>> /\ Stay
SameType == {l \in Direct : l.t.k # "arr"}
CopyD == /\ Can
         /\ Way(LAMBDA a : /\ a.t.k # "arr"
                           /\ \E b \in Pick({l \in SameType : l.t = a.t /\ (~Overlap(a, l) \/ a.off = l.off)}), c \in Pick(SameType) :
                                LET d == IF c.t = b.t THEN c ELSE b IN
                                /\ Put(a.o, a.off, Bytes(b)) /\ Say([s |-> "copy", l |-> Ref(a), r |-> Ref(b), alt |-> Ref(d), t |-> a.t]))
         /\ UNCHANGED <<seed, ptrs>> /\ Stay
(* a function gets a structure by value, stores into a scalar of its copy, and returns it *)
Leaf(t) == {l \in Inside([o |-> 1, off |-> 0, t |-> t, base |-> 0, path |-> <<>>, arr |-> <<>>]) : l.t.k = "s"}
Pass == /\ Can
        /\ Way(LAMBDA a : /\ a.t.k = "g"
                          /\ \E b \in Pick({l \in Direct : l.t = a.t /\ (~Overlap(a, l) \/ a.off = l.off)}), x \in Pick(Leaf(a.t)) :
                               LET bs == Bytes(b)
                                   v == Pattern(x.t.n, seed)
                               IN /\ Put(a.o, a.off, [i \in DOMAIN bs |-> IF i > x.off /\ i <= x.off + Len(v) THEN v[i - x.off] ELSE bs[i]])
                                  /\ Say([s |-> "pass", l |-> Ref(a), r |-> Ref(b), t |-> a.t, x |-> x.path, xt |-> x.t, v |-> v]))
        /\ seed' = seed + 1 /\ UNCHANGED ptrs /\ Stay
(* what a read of a scalar gives; a pointer is told by its distance from its object *)
Value(l) == IF l.t.k = "s" THEN [k |-> "v", b |-> Bytes(l), t |-> l.t.n] ELSE [k |-> "p", o |-> Pointer(l).o, off |-> Pointer(l).off]
NoPtrBytes(l) == \A i \in 1..Size(l.t) : mem[l.o][l.off + i - 1] < 1000
Known(l) == IF l.t.k = "s" THEN /\ NoPtrBytes(l)
                               /\ IF l.t.n = "float" THEN Bytes(l) \in ({<<0, 0, 0, 0>>} \cup {FloatBits("float", v) : v \in 0..3})
                                  ELSE IF l.t.n = "double" THEN Bytes(l) \in ({<<0, 0, 0, 0, 0, 0, 0, 0>>} \cup {FloatBits("double", v) : v \in 0..7}) ELSE TRUE
            ELSE l.t.k = "p" /\ Holds(l) # 0
Read == /\ Can
        /\ Way(LAMBDA l : Known(l) /\ Say([s |-> "read", l |-> Ref(l), t |-> l.t, v |-> Value(l), on |-> Live]))
        /\ UNCHANGED <<mem, seed, ptrs>> /\ Stay
(* one byte of an object through a pointer to characters *)
Byte == /\ Can
        /\ Way(LAMBDA l : l.t.k = "s" /\ \E i \in Pick(0..(Size(l.t) - 1)), w \in Pick(1..2) :
             IF w = 1 \/ ~FloatOk(l) THEN NoPtrBytes(l) /\ mem' = mem /\ Say([s |-> "rbyte", l |-> Ref(l), i |-> i, v |-> mem[l.o][l.off + i], on |-> Live])
             ELSE Put(l.o, l.off + i, <<seed % 256>>) /\ Say([s |-> "wbyte", l |-> Ref(l), i |-> i, v |-> seed % 256]))
        /\ seed' = seed + 1 /\ UNCHANGED ptrs /\ Stay
(* difference and order of two pointers into one array *)
Diff == /\ Can
        /\ \E p \in Pick(Holders(Direct)) :
             \E q \in Pick({l \in Holders(Direct) : Pointer(l).t = Pointer(p).t /\ Pointer(l).o = Pointer(p).o /\ Pointer(l).arr = Pointer(p).arr /\ Pointer(p).arr # <<>>}) :
               Say([s |-> "diff", l |-> Ref(p), r |-> Ref(q), v |-> Index(Pointer(p)) - Index(Pointer(q)), on |-> Live])
        /\ UNCHANGED <<mem, seed, ptrs>> /\ Stay
(* branches: taken or not, loops of one turn or of none *)
Open == /\ Can /\ Len(live) < 3 /\ Len(prog) < MaxStmt - 3
        /\ \E k \in Pick({"if", "loop", "do", "switch"}), on \in Pick({TRUE, TRUE, FALSE}) :
             /\ live' = Append(live, [k |-> k, on |-> (k = "do" \/ on)]) /\ Say([s |-> "open", k |-> k, on |-> (k = "do" \/ on)])
        /\ UNCHANGED <<ph, cur, pool, objs, mem, seed, ptrs>>
Else == /\ Can /\ live # <<>> /\ Last(live).k = "if" /\ Last(prog).s # "open"
        /\ live' = Append(Front(live), [k |-> "else", on |-> ~Last(live).on]) /\ Say([s |-> "else"])
        /\ UNCHANGED <<ph, cur, pool, objs, mem, seed, ptrs>>
Close == /\ ph = "run" /\ live # <<>> /\ Last(prog).s \notin {"open", "else"} /\ live' = Front(live) /\ Say([s |-> "close"])
         /\ UNCHANGED <<ph, cur, pool, objs, mem, seed, ptrs>>
Full == ph = "run" /\ Len(prog) >= MaxStmt /\ live = <<>> /\ ph' = "emit" /\ UNCHANGED <<cur, pool, objs, mem, ptrs, prog, live, seed>>
Drain == ph = "run" /\ Len(prog) >= MaxStmt /\ live # <<>> /\ Last(prog).s \in {"open", "else"} /\ Say([s |-> "nop"]) /\ UNCHANGED <<ph, cur, pool, objs, mem, ptrs, live, seed>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<cur, pool, objs, mem, ptrs, prog, live, seed>>
Init == ph = "types" /\ cur = <<>> /\ pool = <<>> /\ objs = <<>> /\ mem = <<>> /\ ptrs = <<>> /\ prog = <<>> /\ live = <<>> /\ seed = 1
Next == AddMember \/ CloseAgg \/ AddObj \/ Store \/ Store \/ Point \/ Move \/ Copy \/ CopyD \/ Pass \/ Read \/ Byte \/ Diff \/ Open \/ Else \/ Close \/ Full \/ Drain \/ Done
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- at the end everything is read once more *)
Final == LET ls == SetToSeq({l \in Direct : Scalar(l.t)}) IN
         [i \in DOMAIN ls |-> [l |-> Ref(ls[i]), t |-> ls[i].t, v |-> IF Known(ls[i]) THEN Value(ls[i]) ELSE [k |-> "none"]]]
(* every pointer stays inside its object or just behind it; no byte is outside its range *)
Sound == /\ \A i \in DOMAIN ptrs : ptrs[i].off >= 0 /\ ptrs[i].off <= Size(objs[ptrs[i].o])
         /\ \A o \in DOMAIN objs : \A b \in DOMAIN mem[o] : mem[o][b] >= 0 /\ (mem[o][b] < 256 \/ mem[o][b] >= 1000) /\ b < Size(objs[o])
Emit == ph = "emit" => PrintT(ToJson([pool |-> pool, objs |-> objs, prog |-> prog, final |-> Final]))
=============================================================================
