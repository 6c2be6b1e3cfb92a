---------------------------------- MODULE SysV ----------------------------------
(* The System V AMD64 calling sequence (psABI 3.2.3) as a machine that hands out registers and stack slots to the
   parameters of a call in order.  Types are built first (scalars, arrays, structures, unions, with their layout),
   then a signature, then every parameter is passed in one step; the state says where each eightbyte of it lives.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxAgg, MaxPar, MaxMem, Variadic, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, cur, pool, sig, gp, sse, stk, locs
vars == <<ph, cur, pool, sig, gp, sse, stk, locs>>

Scalars == {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "ptr", "float", "double"}
SSize(n) == CASE n \in {"bool", "char", "schar", "uchar"} -> 1 [] n \in {"short", "ushort"} -> 2 [] n \in {"int", "uint", "float"} -> 4 [] OTHER -> 8
Floating(n) == n \in {"float", "double"}
S(n) == [k |-> "s", n |-> n]
Arr(e, c) == [k |-> "arr", e |-> e, c |-> c]
Agg(ms, u) == [k |-> "agg", ms |-> ms, u |-> u]
Up(o, a) == ((o + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Align(_), Size(_), End(_, _), Leaves(_, _)
Align(t) == CASE t.k = "s" -> SSize(t.n) [] t.k = "arr" -> Align(t.e) [] OTHER -> FoldLeft(LAMBDA a, m : Max2(a, Align(m)), 1, t.ms)
(* offset behind the first i members *)
End(t, i) == IF i = 0 THEN 0 ELSE IF t.u THEN Max2(End(t, i - 1), Size(t.ms[i])) ELSE Up(End(t, i - 1), Align(t.ms[i])) + Size(t.ms[i])
Off(t, i) == IF t.u THEN 0 ELSE Up(End(t, i - 1), Align(t.ms[i]))
Size(t) == CASE t.k = "s" -> SSize(t.n) [] t.k = "arr" -> t.c * Size(t.e) [] OTHER -> Up(End(t, Len(t.ms)), Align(t))
(* the scalars inside, with their offsets *)
Leaves(t, b) == CASE t.k = "s" -> <<[o |-> b, n |-> t.n]>>
                  [] t.k = "arr" -> FlattenSeq([i \in 1..t.c |-> Leaves(t.e, b + (i - 1) * Size(t.e))])
                  [] OTHER -> FlattenSeq([i \in DOMAIN t.ms |-> Leaves(t.ms[i], b + Off(t, i))])
Eights(t) == (Size(t) + 7) \div 8
(* classes: every eightbyte of an object of at most 16 bytes is INTEGER as soon as one scalar in it is *)
Class(t, i) == LET ls == SelectSeq(Leaves(t, 0), LAMBDA l : l.o \div 8 = i) IN IF \E j \in DOMAIN ls : ~Floating(ls[j].n) THEN "gp" ELSE "sse"
InMem(t) == Size(t) > 16
Count(t, c) == Cardinality({i \in 0..Eights(t) - 1 : Class(t, i) = c})

(* ---------------------------------------------------------------- types and signatures *)
Full == Len(pool) >= MaxAgg
Elem == S("int")
Scal(P(_)) == \E n \in Pick(Scalars) : P(S(n))
Member(P(_)) == \E w \in Pick({"s", "s2", "f", "arr", "agg", "aggarr"}) :
   CASE w = "f" -> \E n \in Pick({"float", "double"}) : P(S(n))
     [] w = "arr" -> \E n \in Pick(Scalars), c \in Pick(1..5) : P(Arr(S(n), c))
     [] w = "agg" /\ pool # <<>> -> \E i \in Pick(DOMAIN pool) : P(pool[i])
     [] w = "aggarr" /\ pool # <<>> -> \E i \in Pick(DOMAIN pool), c \in Pick(1..3) : P(Arr(pool[i], c))
     [] OTHER -> Scal(P)
AddMember == /\ ph = "types" /\ ~Full /\ Len(cur) < 6
             /\ Member(LAMBDA m : Size(Agg(Append(cur, m), FALSE)) <= MaxMem /\ cur' = Append(cur, m))
             /\ UNCHANGED <<ph, pool, sig, gp, sse, stk, locs>>
CloseAgg == /\ ph = "types" /\ ~Full /\ cur # <<>>
            /\ \E u \in Pick(1..4) : pool' = Append(pool, Agg(cur, u = 1)) /\ cur' = <<>>
            /\ UNCHANGED <<ph, sig, gp, sse, stk, locs>>
Void == [k |-> "void"]
Value(P(_)) == \E w \in Pick({"s", "f", "agg", "agg2"}) :
   CASE w = "f" -> \E n \in Pick({"float", "double"}) : P(S(n))
     [] w \in {"agg", "agg2"} /\ pool # <<>> -> \E i \in Pick(DOMAIN pool) : P(pool[i])
     [] OTHER -> Scal(P)
(* default argument promotions *)
Promoted(t) == IF t.k = "s" THEN t.n \in {"int", "uint", "long", "ulong", "llong", "ullong", "ptr", "double"} ELSE TRUE
Start == /\ ph = "types" /\ (Full \/ (cur = <<>> /\ \E g \in Pick({1, 2}) : g = 1)) /\ ph' = "sig"
         /\ \E v \in Pick({"void", "value", "value2", "value3"}) : IF v = "void" THEN sig' = [ret |-> Void, ps |-> <<>>, fixed |-> -1] ELSE Value(LAMBDA r : sig' = [ret |-> r, ps |-> <<>>, fixed |-> -1])
         /\ cur' = <<>> /\ UNCHANGED <<pool, gp, sse, stk, locs>>
(* fixed: number of parameters before the ellipsis, -1 without one *)
Param == /\ ph = "sig" /\ Len(sig.ps) < MaxPar
         /\ Value(LAMBDA p : (IF sig.fixed >= 0 THEN Promoted(p) ELSE TRUE) /\ sig' = [sig EXCEPT !.ps = Append(@, p)])
         /\ UNCHANGED <<ph, cur, pool, gp, sse, stk, locs>>
Ellipsis == /\ ph = "sig" /\ Variadic /\ sig.fixed = -1 /\ Len(sig.ps) >= 1 /\ sig' = [sig EXCEPT !.fixed = Len(sig.ps)]
            /\ UNCHANGED <<ph, cur, pool, gp, sse, stk, locs>>
Begin == /\ ph = "sig" /\ (Len(sig.ps) = MaxPar \/ \E g \in Pick(1..8) : g = 1) /\ (Variadic => sig.fixed >= 0) /\ ph' = "pass"
         \* a result in memory takes the first register for its address
         /\ gp' = (IF sig.ret.k # "void" /\ InMem(sig.ret) THEN 1 ELSE 0)
         /\ UNCHANGED <<cur, pool, sig, sse, stk, locs>>

(* ---------------------------------------------------------------- passing *)
Before(t, i, c) == Cardinality({j \in 0..i - 1 : Class(t, j) = c})
Pass == /\ ph = "pass" /\ Len(locs) < Len(sig.ps)
        /\ LET t == sig.ps[Len(locs) + 1]
               g == Count(t, "gp")
               s == Count(t, "sse")
               regs == ~InMem(t) /\ gp + g <= 6 /\ sse + s <= 8
           IN IF regs
              THEN /\ locs' = Append(locs, [i \in 1..Eights(t) |-> IF Class(t, i - 1) = "gp" THEN <<"gp", gp + Before(t, i - 1, "gp")>> ELSE <<"sse", sse + Before(t, i - 1, "sse")>>])
                   /\ gp' = gp + g /\ sse' = sse + s /\ stk' = stk
              \* all of it or nothing: registers are not given back to, or split with, the stack
              ELSE /\ locs' = Append(locs, [i \in 1..Eights(t) |-> <<"stk", stk + i - 1>>])
                   /\ stk' = stk + Eights(t) /\ UNCHANGED <<gp, sse>>
        /\ UNCHANGED <<ph, cur, pool, sig>>
RetLocs == IF sig.ret.k = "void" \/ InMem(sig.ret) THEN <<>>
           ELSE [i \in 1..Eights(sig.ret) |-> IF Class(sig.ret, i - 1) = "gp" THEN <<"gp", Before(sig.ret, i - 1, "gp")>> ELSE <<"sse", Before(sig.ret, i - 1, "sse")>>]
Stop == ph = "pass" /\ Len(locs) = Len(sig.ps) /\ ph' = "emit" /\ UNCHANGED <<cur, pool, sig, gp, sse, stk, locs>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<cur, pool, sig, gp, sse, stk, locs>>
Init == ph = "types" /\ cur = <<>> /\ pool = <<>> /\ sig = <<>> /\ gp = 0 /\ sse = 0 /\ stk = 0 /\ locs = <<>>
Next == AddMember \/ CloseAgg \/ Start \/ Param \/ Ellipsis \/ Begin \/ Pass \/ Stop \/ Done
Spec == Init /\ [][Next]_vars

(* no place is used twice and the register files are not exceeded *)
AllLocs == FlattenSeq(locs)
Distinct == ph \in {"pass", "emit"} => /\ gp <= 6 /\ sse <= 8
                                      /\ Cardinality(ToSet(AllLocs)) = Len(AllLocs)
                                      /\ \A i \in DOMAIN AllLocs : AllLocs[i][2] < (CASE AllLocs[i][1] = "gp" -> gp [] AllLocs[i][1] = "sse" -> sse [] OTHER -> stk)
(* members do not overlap and lie inside *)
Laid == \A i \in DOMAIN pool : LET t == pool[i] ls == Leaves(t, 0) IN
          /\ \A j \in DOMAIN ls : ls[j].o % SSize(ls[j].n) = 0 /\ ls[j].o + SSize(ls[j].n) <= Size(t)
          /\ Size(t) % Align(t) = 0
Desc(t) == IF t.k = "void" THEN [t |-> t, size |-> 0, leaves |-> <<>>] ELSE [t |-> t, size |-> Size(t), leaves |-> Leaves(t, 0)]
Emit == ph = "emit" => PrintT(ToJson([ret |-> Desc(sig.ret), ps |-> [i \in DOMAIN sig.ps |-> Desc(sig.ps[i])], fixed |-> sig.fixed, locs |-> locs, rlocs |-> RetLocs,
                                      sret |-> sig.ret.k # "void" /\ InMem(sig.ret), nsse |-> sse, ngp |-> gp, nstk |-> stk]))
=============================================================================
