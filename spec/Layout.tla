--------------------------------- MODULE Layout ---------------------------------
(* Object layout: a cursor over the bits of a structure places one member per step, with the sizes of the
   System V or the Microsoft scalars; #pragma pack is a stack that the declarations see the top of.  Closed structures join a pool
   from which later ones are built (nested, in arrays, anonymous).                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Abi, MaxAgg, MaxMem, Kinds, Fields, Widths, Packs, Events, MaxSize, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, open, pool, events, pack, stack
vars == <<ph, open, pool, events, pack, stack>>

Scalars == {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "ptr", "fptr", "enum", "float", "double"}
SSize(n) == CASE n \in {"bool", "char", "schar", "uchar"} -> 1 [] n \in {"short", "ushort"} -> 2 [] n \in {"int", "uint", "float", "enum"} -> 4
              [] n \in {"long", "ulong"} -> (IF Abi = "ms" THEN 4 ELSE 8) [] OTHER -> 8
Up(o, a) == ((o + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* member types: a scalar, a structure of the pool, an array of either *)
S(n) == [k |-> "s", n |-> n]
G(i) == [k |-> "g", i |-> i]
Arr(e, c) == [k |-> "arr", e |-> e, c |-> c]
RECURSIVE Align(_), Size(_)
Align(t) == CASE t.k = "s" -> SSize(t.n) [] t.k = "arr" -> Align(t.e) [] OTHER -> pool[t.i].align
Size(t) == CASE t.k = "s" -> SSize(t.n) [] t.k = "arr" -> t.c * Size(t.e) [] OTHER -> pool[t.i].size

(* ---------------------------------------------------------------- one structure under construction *)
Fresh(u, p, attr) == [u |-> u, pack |-> p, attr |-> attr, ms |-> <<>>, at |-> 0, end |-> 0, align |-> 1, flex |-> FALSE]
Limit(o) == IF o.attr THEN 1 ELSE o.pack
Cap(o, a) == IF Limit(o) = 0 THEN a ELSE Min2(a, Limit(o))
(* member m at bit p, occupying bits up to e; the structure needs alignment a *)
Put(o, m, p, e, a) ==
   [o EXCEPT !.ms = Append(@, m @@ [pos |-> p]), !.at = (IF o.u THEN 0 ELSE e), !.end = Max2(@, e), !.align = Max2(@, a)]
(* al is the alignment requested with _Alignas, 0 without *)
Plain(o, m) == LET a == Max2(Cap(o, Align(m.t)), m.al)
                   p == Up(o.at, 8 * a)
               IN Put(o, m, p, p + 8 * Size(m.t), a)
(* a bit-field lies inside one naturally aligned unit of its type *)
Field(o, m) == LET b == 8 * SSize(m.t.n)
                       p == IF m.w = 0 \/ o.at \div b # (o.at + m.w - 1) \div b THEN Up(o.at, b) ELSE o.at
                   IN Put(o, m, p, p + m.w, IF m.named THEN SSize(m.t.n) ELSE 1)
Add(o, m) == IF m.w = -1 THEN Plain(o, m) ELSE Field(o, m)
Closed(o) == [u |-> o.u, pack |-> o.pack, attr |-> o.attr, ms |-> o.ms, align |-> o.align, size |-> Up((o.end + 7) \div 8, o.align), flex |-> o.flex]

(* ---------------------------------------------------------------- choices *)
Mem(t, w, named, al, anon) == [t |-> t, w |-> w, named |-> named, al |-> al, anon |-> anon]
NoFlex == {i \in DOMAIN pool : ~pool[i].flex}
(* an anonymous member is written in place, so it sees the packing of this place *)
Anonymous == {i \in NoFlex : pool[i].pack = pack /\ \E j \in DOMAIN pool[i].ms : pool[i].ms[j].named}
Member(P(_)) == \E w \in Pick(Kinds) :
   CASE w = "arr" -> \E n \in Pick(Scalars), c \in Pick(1..5) : P(Mem(Arr(S(n), c), -1, TRUE, 0, FALSE))
     [] w = "arr2" -> \E n \in Pick(Scalars), c \in Pick(1..3), d \in Pick(1..3) : P(Mem(Arr(Arr(S(n), c), d), -1, TRUE, 0, FALSE))
     [] w = "agg" /\ NoFlex # {} -> \E i \in Pick(NoFlex) : P(Mem(G(i), -1, TRUE, 0, FALSE))
     [] w = "anon" /\ Anonymous # {} -> \E i \in Pick(Anonymous) : P(Mem(G(i), -1, TRUE, 0, TRUE))
     [] w = "aggarr" /\ NoFlex # {} -> \E i \in Pick(NoFlex), c \in Pick(1..3) : P(Mem(Arr(G(i), c), -1, TRUE, 0, FALSE))
     [] w = "alignas" /\ Limit(open) = 0 -> \E n \in Pick(Scalars), a \in Pick({1, 2, 4, 8, 16, 32}) : P(Mem(S(n), -1, TRUE, Max2(a, SSize(n)), FALSE))
     \* bit-fields of packed structures have no agreed layout
     [] w = "field" /\ Limit(open) = 0 -> \E n \in Pick(Fields), b \in Pick(Widths), nm \in Pick(1..6) :
                            LET v == Min2(b, IF n = "bool" THEN 1 ELSE 8 * SSize(n)) IN P(Mem(S(n), v, nm # 1 /\ v > 0, 0, FALSE))
     [] OTHER -> \E n \in Pick(Scalars) : P(Mem(S(n), -1, TRUE, 0, FALSE))
Start == /\ ph = "file" /\ Len(pool) < MaxAgg
         /\ \E u \in Pick(1..4), a \in Pick(1..6) : open' = Fresh(u = 1, pack, a = 1 /\ Packs # {})
         /\ ph' = "in" /\ UNCHANGED <<pool, events, pack, stack>>
AddMember == /\ ph = "in" /\ Len(open.ms) < MaxMem /\ ~open.flex
             /\ Member(LAMBDA m : LET o == Add(open, m) IN (o.end + 7) \div 8 <= MaxSize /\ open' = o)
             /\ UNCHANGED <<ph, pool, events, pack, stack>>
(* a flexible array member adds alignment but no size *)
Flexible == /\ ph = "in" /\ "flex" \in Kinds /\ ~open.u /\ ~open.flex /\ \E j \in DOMAIN open.ms : open.ms[j].named
            /\ \E n \in Pick(Scalars), g \in Pick(1..6) : g = 1 /\ open' = [Plain(open, Mem(Arr(S(n), 0), -1, TRUE, 0, FALSE)) EXCEPT !.flex = TRUE]
            /\ UNCHANGED <<ph, pool, events, pack, stack>>
Close == /\ ph = "in" /\ \E j \in DOMAIN open.ms : open.ms[j].named
         /\ pool' = Append(pool, Closed(open)) /\ events' = Append(events, [e |-> "decl", n |-> Len(pool) + 1])
         /\ ph' = "file" /\ UNCHANGED <<open, pack, stack>>
Pragma == /\ ph = "file" /\ Packs # {} /\ Len(events) < Events
          /\ \E k \in Pick({"set", "clear", "push", "pushn", "pop"}), n \in Pick(Packs) :
               /\ (k = "pop" => stack # <<>>) /\ (k \in {"push", "pushn"} => Len(stack) < 3)
               /\ events' = Append(events, [e |-> k, n |-> n])
               /\ pack' = (CASE k = "set" -> n [] k = "clear" -> 0 [] k = "pushn" -> n [] k = "pop" -> IF stack = <<>> THEN 0 ELSE Last(stack) [] OTHER -> pack)
               /\ stack' = (CASE k \in {"push", "pushn"} -> Append(stack, pack) [] k = "pop" -> IF stack = <<>> THEN stack ELSE Front(stack) [] OTHER -> stack)
          /\ UNCHANGED <<ph, open, pool>>
Stop == ph = "file" /\ Len(pool) = MaxAgg /\ ph' = "emit" /\ UNCHANGED <<open, pool, events, pack, stack>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<open, pool, events, pack, stack>>
Init == ph = "file" /\ open = Fresh(FALSE, 0, FALSE) /\ pool = <<>> /\ events = <<>> /\ pack = 0 /\ stack = <<>>
Next == Start \/ AddMember \/ Flexible \/ Close \/ Pragma \/ Stop \/ Done
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- the bits of every named scalar *)
RECURSIVE Leaves(_, _, _)
(* path: member numbers, and -(index + 1) for an element of an array; the last element stands for all *)
Leaves(t, b, path) ==
   CASE t.k = "s" -> <<[path |-> path, pos |-> b, w |-> -1, n |-> t.n]>>
     [] t.k = "arr" -> IF t.c = 0 THEN <<[path |-> Append(path, -1), pos |-> b, w |-> -1, n |-> t.e.n]>> ELSE Leaves(t.e, b + 8 * (t.c - 1) * Size(t.e), Append(path, 0 - t.c))
     [] OTHER -> FlattenSeq([j \in DOMAIN pool[t.i].ms |->
                    LET m == pool[t.i].ms[j] IN
                    IF ~m.named THEN <<>> ELSE IF m.w >= 0 THEN <<[path |-> Append(path, j), pos |-> b + m.pos, w |-> m.w, n |-> m.t.n]>> ELSE Leaves(m.t, b + m.pos, Append(path, j))])
Bits(l) == IF l.w >= 0 THEN l.w ELSE 8 * SSize(l.n)
(* no two scalars of a structure without unions share a bit; everything lies inside *)
NoUnions == \A i \in DOMAIN pool : ~pool[i].u
Sound == ph = "emit" => \A i \in DOMAIN pool :
           LET ls == Leaves(G(i), 0, <<>>) IN
           /\ pool[i].size % pool[i].align = 0
           /\ \A j \in DOMAIN ls : ls[j].path[Len(ls[j].path)] = -1 \/ ls[j].pos + Bits(ls[j]) <= 8 * pool[i].size
           /\ NoUnions => \A j \in 1..Len(ls) - 1 : ls[j].pos + Bits(ls[j]) <= ls[j + 1].pos
Emit == ph = "emit" => PrintT(ToJson([events |-> events, pool |-> [i \in DOMAIN pool |-> pool[i] @@ [leaves |-> Leaves(G(i), 0, <<>>)]]]))
=============================================================================
