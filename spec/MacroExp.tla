------------------------------ MODULE MacroExp ------------------------------
(* Macro replacement (6.10.3).  A behaviour builds a history of directives (#define, #undef, #pragma push_macro /
   pop_macro) and uses; a use is the text  XSTR ( ... )  whose replacement is carried out one token at a time, so
   that what it leaves is one string token holding the fully replaced text.  A token carries two hide sets: `lo`
   contains only the names C says are painted for it, `hi` also those for which C leaves it unspecified whether
   replacement is nested (6.10.3.4p4).  Behaviours that depend on the difference, or have no meaning in C, end in
   phase "drop".  A string token keeps the tokens it was made of; spelling it is left to the reader.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Names, MaxDefs, MaxBody, MaxUse, MaxUses, MaxLen, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES ph, hist, defs, stacks, cur, inp, outp, fuel
vars == <<ph, hist, defs, stacks, cur, inp, outp, fuel>>

T(k, s, w) == [k |-> k, s |-> s, w |-> w, lo |-> {}, hi |-> {}, parts |-> <<>>]
Id(s) == T("id", s, 1)
Num(s) == T("num", s, 1)
P(s, w) == T("p", s, w)
PM == T("pm", "", 1)          \* placemarker
BadT == T("bad", "", 1)
Is(t, s) == t.k = "p" /\ t.s = s
StrOf(ts, w) == [T("str", "", w) EXCEPT !.parts = [i \in DOMAIN ts |-> [k |-> ts[i].k, s |-> ts[i].s, w |-> IF i = 1 THEN 0 ELSE ts[i].w, parts |-> ts[i].parts]]]

Undef == [def |-> FALSE, func |-> FALSE, params |-> <<>>, va |-> FALSE, body |-> <<>>]
Xstr_ == [def |-> TRUE, func |-> TRUE, params |-> <<>>, va |-> TRUE, body |-> <<P("#", 1), Id("__VA_ARGS__")>>]
Xstr == [def |-> TRUE, func |-> TRUE, params |-> <<>>, va |-> TRUE, body |-> <<Id("XSTR_"), P("(", 1), Id("__VA_ARGS__"), P(")", 1)>>]
AllNames == Names \cup {"XSTR", "XSTR_"}
Get(d, n) == IF n \in DOMAIN d THEN d[n] ELSE Undef

(* ---------------------------------------------------------------- pasting *)
PastePunct(a, b) ==
  CASE a = "<" /\ b = "<" -> "<<" [] a = ">" /\ b = ">" -> ">>" [] a = "+" /\ b = "+" -> "++" [] a = "-" /\ b = "-" -> "--" [] a = "-" /\ b = ">" -> "->"
    [] a = "=" /\ b = "=" -> "==" [] a = "!" /\ b = "=" -> "!=" [] a = "<" /\ b = "=" -> "<=" [] a = ">" /\ b = "=" -> ">=" [] a = "&" /\ b = "&" -> "&&"
    [] a = "|" /\ b = "|" -> "||" [] a = "+" /\ b = "=" -> "+=" [] a = "-" /\ b = "=" -> "-=" [] a = "*" /\ b = "=" -> "*=" [] a = "/" /\ b = "=" -> "/="
    [] a = "%" /\ b = "=" -> "%=" [] a = "&" /\ b = "=" -> "&=" [] a = "|" /\ b = "=" -> "|=" [] a = "^" /\ b = "=" -> "^=" [] a = "<<" /\ b = "=" -> "<<="
    [] a = ">>" /\ b = "=" -> ">>=" [] a = "<" /\ b = "<=" -> "<<=" [] a = ">" /\ b = ">=" -> ">>=" [] OTHER -> ""
Glue(a, b) ==
  IF a.k = "pm" THEN [b EXCEPT !.w = a.w] ELSE IF b.k = "pm" THEN [a EXCEPT !.w = a.w]
  ELSE IF a.k = "id" /\ a.s = "L" /\ b.k = "lit" THEN [b EXCEPT !.s = "L" \o @, !.w = a.w]
  ELSE IF a.k = "id" /\ a.s = "L" /\ b.k = "str" /\ b.s = "" THEN [b EXCEPT !.s = "L", !.w = a.w]      \* s of a string is its prefix
  ELSE LET nk == IF a.k = "id" /\ b.k \in {"id", "num"} THEN "id" ELSE IF a.k = "num" /\ b.k \in {"id", "num"} THEN "num"
                 ELSE IF a.k = "p" /\ b.k = "p" /\ PastePunct(a.s, b.s) # "" THEN "p" ELSE "bad"
       IN [k |-> nk, s |-> IF nk = "p" THEN PastePunct(a.s, b.s) ELSE a.s \o b.s, w |-> a.w, lo |-> {}, hi |-> a.hi \cup b.hi, parts |-> <<>>]

(* ---------------------------------------------------------------- substitution *)
FirstW(ts, w) == IF ts = <<>> THEN <<>> ELSE <<[ts[1] EXCEPT !.w = w]>> \o Tail(ts)
Index(m, t) == IF t.k # "id" THEN 0
               ELSE IF m.va /\ t.s = "__VA_ARGS__" THEN Len(m.params) + 1
               ELSE LET S == {i \in DOMAIN m.params : m.params[i] = t.s} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
OrPM(ts) == IF ts = <<>> THEN <<PM>> ELSE ts
RECURSIVE Sub(_, _, _, _, _)
Sub(m, i, os, raw, exp) ==
  IF i > Len(m.body) THEN os
  ELSE LET t == m.body[i] nx == IF i < Len(m.body) THEN m.body[i + 1] ELSE BadT IN
       IF m.func /\ Is(t, "#")
       THEN (IF nx.k # "bad" /\ Index(m, nx) > 0 THEN Sub(m, i + 2, Append(os, StrOf(raw[Index(m, nx)], t.w)), raw, exp) ELSE <<BadT>>)
       ELSE IF Is(t, "##")
       THEN (IF i = 1 \/ i = Len(m.body) \/ Is(nx, "##") \/ (Is(nx, "#") /\ ~m.func) THEN <<BadT>>
             ELSE IF Is(nx, "#") THEN (IF i + 2 > Len(m.body) \/ Index(m, m.body[i + 2]) = 0 \/ (i + 3 <= Len(m.body) /\ Is(m.body[i + 3], "##")) THEN <<BadT>>
                  ELSE Sub(m, i + 3, SubSeq(os, 1, Len(os) - 1) \o <<Glue(os[Len(os)], StrOf(raw[Index(m, m.body[i + 2])], 1))>>, raw, exp))
             ELSE LET r == IF Index(m, nx) > 0 THEN OrPM(raw[Index(m, nx)]) ELSE <<nx>> IN
                  \* a chain of ## is only given meaning where its order does not matter
                  IF i > 2 /\ i + 2 <= Len(m.body) /\ Is(m.body[i + 2], "##") /\ (Len(r) # 1 \/ r[1].k \notin {"id", "num", "pm"} \/ os[Len(os)].k \notin {"id", "num", "pm"})
                  THEN <<BadT>>
                  ELSE Sub(m, i + 2, SubSeq(os, 1, Len(os) - 1) \o <<Glue(os[Len(os)], r[1])>> \o Tail(r), raw, exp))
       ELSE IF Index(m, t) > 0
       THEN Sub(m, i + 1, os \o FirstW(IF Is(nx, "##") THEN OrPM(raw[Index(m, t)]) ELSE exp[Index(m, t)], t.w), raw, exp)
       ELSE Sub(m, i + 1, Append(os, t), raw, exp)
HasBad(ts) == \E i \in DOMAIN ts : ts[i].k = "bad"
Subst(m, raw, exp, lo, hi, w) ==
  LET r == Sub(m, 1, <<>>, raw, exp) IN
  IF HasBad(r) THEN <<BadT>>
  ELSE FirstW(LET q == SelectSeq(r, LAMBDA t : t.k # "pm") IN [i \in DOMAIN q |-> [q[i] EXCEPT !.lo = @ \cup lo, !.hi = @ \cup hi]], w)

(* ---------------------------------------------------------------- arguments: ts begins after the ( *)
RECURSIVE Collect(_, _, _, _, _)
Collect(ts, i, depth, args, cura) ==
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> <<>>, rp |-> 0]
  ELSE LET t == ts[i] IN
       IF Is(t, ")") /\ depth = 0 THEN [ok |-> TRUE, args |-> Append(args, cura), rp |-> i]
       ELSE IF Is(t, ",") /\ depth = 0 THEN Collect(ts, i + 1, 0, args \o <<cura, <<t>>>>, <<>>)
       ELSE Collect(ts, i + 1, depth + (IF Is(t, "(") THEN 1 ELSE IF Is(t, ")") THEN -1 ELSE 0), args, Append(cura, t))
\* args alternate with the commas that separate them: arguments at odd places
RECURSIVE Join(_, _)
Join(a, i) == IF i > Len(a) THEN <<>> ELSE a[i] \o Join(a, i + 1)
Actuals(m, a) ==
  LET n == (Len(a) + 1) \div 2 np == Len(m.params) IN
  IF ~m.va THEN (IF np = 0 THEN IF n = 1 /\ a[1] = <<>> THEN <<>> ELSE <<<<BadT>>>>
                 ELSE IF n = np THEN [i \in 1..np |-> a[2 * i - 1]] ELSE <<<<BadT>>>>)
  ELSE IF np > n THEN <<<<BadT>>>>
  ELSE Append([i \in 1..np |-> a[2 * i - 1]], IF n > np THEN Join(SubSeq(a, 2 * np + 1, Len(a)), 1) ELSE <<>>)

(* ---------------------------------------------------------------- one step at the head of ts: [ts, out, st] *)
R(ts, o, st) == [ts |-> ts, o |-> o, st |-> st]
RECURSIVE Full(_, _, _, _)
\* white space before a macro that leaves nothing is not lost
After(r, t, rest) == IF r = <<>> /\ rest # <<>> /\ t.w = 1 THEN FirstW(rest, 1) ELSE rest
Head1(d, ts, f) ==
  LET t == ts[1] m == Get(d, t.s) IN
  IF t.k # "id" \/ ~m.def THEN R(Tail(ts), <<t>>, "ok")
  ELSE IF m.func /\ (Len(ts) < 2 \/ ~Is(ts[2], "(")) THEN R(Tail(ts), <<t>>, "ok")
  ELSE IF t.s \in t.lo THEN R(Tail(ts), <<t>>, "ok")
  ELSE IF t.s \in t.hi THEN R(<<>>, <<>>, "unspecified")
  ELSE IF ~m.func THEN LET r == Subst(m, <<>>, <<>>, t.lo \cup {t.s}, t.hi \cup {t.s}, t.w) IN
                       IF HasBad(r) THEN R(<<>>, <<>>, "invalid") ELSE R(r \o After(r, t, Tail(ts)), <<>>, "ok")
  ELSE LET c == Collect(ts, 3, 0, <<>>, <<>>) IN
       IF ~c.ok THEN R(<<>>, <<>>, "invalid")
       ELSE LET raw == Actuals(m, c.args) IN
            IF \E i \in DOMAIN raw : HasBad(raw[i]) THEN R(<<>>, <<>>, "invalid")
            ELSE LET ex == [i \in DOMAIN raw |-> Full(d, raw[i], <<>>, f)]
                     rp == ts[c.rp]
                     r == Subst(m, raw, [i \in DOMAIN raw |-> ex[i].o], (t.lo \cap rp.lo) \cup {t.s}, t.hi \cup {t.s}, t.w)
                 IN IF \E i \in DOMAIN raw : ex[i].st # "ok" THEN R(<<>>, <<>>, "invalid")
                    ELSE IF HasBad(r) \/ Len(r) > MaxLen THEN R(<<>>, <<>>, "invalid")
                    ELSE R(r \o After(r, t, SubSeq(ts, c.rp + 1, Len(ts))), <<>>, "ok")
Full(d, ts, o, f) == IF ts = <<>> THEN R(<<>>, o, "ok")
                     ELSE IF f = 0 \/ Len(o) > MaxLen \/ Len(ts) > MaxLen THEN R(<<>>, <<>>, "long")
                     ELSE LET h == Head1(d, ts, f - 1) IN IF h.st # "ok" THEN h ELSE Full(d, h.ts, o \o h.o, f - 1)

(* ---------------------------------------------------------------- histories *)
Clean(ts) == [i \in DOMAIN ts |-> [k |-> ts[i].k, s |-> ts[i].s, w |-> ts[i].w, parts |-> ts[i].parts]]
Defined == {n \in Names : Get(defs, n).def}
\* unit: a few tokens added at once, so that calls are frequent
Ops == {"+", "-", "<", ">", "=", "&", "*", "/", "%", "|", "^", "!", "<=", ">=", "<<"}
Lits == {"'x'", "'\"'", "'\\n'", "'\\\\'", "\"a\"", "\"\\\"(\"", "\"\\t,\"", "','", "\")\"", "\"//\""}
Call(n, a, w1, w2) == <<Id(n), P("(", w1)>> \o FirstW(a, w2) \o <<P(")", w2)>>
Simple(ps, func) ==
  {<<Id(x)>> : x \in {"x", "y", "L"}} \cup (IF func THEN {} ELSE {<<P("#", 1)>>}) \cup {<<Num("1")>>, <<Num("2")>>} \cup {<<T("lit", x, 1)>> : x \in Pick(Lits)} \cup {<<P(o, 1)>> : o \in Pick(Ops)}
  \cup {<<P(",", w)>> : w \in {0, 1}} \cup {<<Id(n)>> : n \in Names} \cup {<<Id(n), P("(", 1)>> : n \in Names} \cup {<<P(")", 1)>>, <<P("(", 1)>>}
Units(ps, func) ==
  UNION {IF k = 1 THEN Simple(ps, func)
         ELSE {Call(n, a, w1, w2) : n \in Pick(Names), a \in Pick({<<>>, <<Id("x")>>, <<Num("2"), P(",", 0), Id("y")>>} \cup {<<Id(q)>> : q \in Names \cup ps}), w1 \in Pick({0, 1}), w2 \in Pick({0, 1})}
         : k \in Pick({1, 2})}
Params(m) == {m.params[i] : i \in DOMAIN m.params} \cup (IF m.va THEN {"__VA_ARGS__"} ELSE {})
Operands(m) == (IF m.func THEN {<<P("#", 1), Id(q)>> : q \in Params(m)} ELSE {}) \cup {<<Id(q)>> : q \in Params(m)} \cup {<<Id("x")>>, <<Num("1")>>, <<P("+", 1)>>, <<P("<", 1)>>, <<P("=", 1)>>, <<P("<=", 1)>>, <<P(">=", 1)>>, <<P(">", 1)>>, <<P("&", 1)>>, <<P("|", 1)>>} \cup {<<Id(n)>> : n \in Names}
BodyKinds(m) == (IF Len(m.body) > 0 THEN {"##"} ELSE {}) \cup (IF Params(m) # {} THEN {"par", "par2", "#"} ELSE {}) \cup {"unit", "end"}
BodyUnits(m, k) ==
  CASE k = "end" -> {<<>>}
    [] k \in {"par", "par2"} -> {<<Id(q)>> : q \in Params(m)}
    [] k = "#" -> IF m.func THEN {<<P("#", 1), Id(q)>> : q \in Params(m)} ELSE {<<P("#", 1)>>}
    [] k = "##" -> IF Is(m.body[Len(m.body)], ",") THEN {<<Id("x")>>} ELSE {<<P("##", 1)>> \o o : o \in Operands(m)}
    [] k = "unit" -> Units(Params(m), m.func)

Init == ph = "hist" /\ hist = <<>> /\ defs = [n \in {} |-> Undef] /\ stacks = [n \in Names |-> <<>>] /\ cur = Undef /\ inp = <<>> /\ outp = <<>> /\ fuel = 0
NDefs == Len(SelectSeq(hist, LAMBDA h : h.op = "define"))
NUses == Len(SelectSeq(hist, LAMBDA h : h.op = "use"))
H(op, n) == [op |-> op, n |-> n, m |-> cur, toks |-> <<>>, res |-> <<>>]
StartDef == /\ ph = "hist" /\ NDefs < MaxDefs
            /\ \E n \in Pick(Names \ Defined), func \in Pick({TRUE, TRUE, FALSE}), ps \in Pick({<<>>, <<"p">>, <<"p", "q">>}), va \in Pick({TRUE, FALSE, FALSE}) :
               cur' = [def |-> TRUE, func |-> func, params |-> IF func THEN ps ELSE <<>>, va |-> func /\ va, body |-> <<>>]
               /\ inp' = <<Id(n)>>
            /\ ph' = "body" /\ UNCHANGED <<hist, defs, stacks, outp, fuel>>
Body == /\ ph = "body"
        /\ \E k \in Pick(IF Len(cur.body) >= MaxBody THEN {"end"} ELSE BodyKinds(cur)) :
           \E u \in Pick(BodyUnits(cur, k)) :
             IF k = "end"
             THEN /\ ph' = "hist" /\ hist' = Append(hist, H("define", inp[1].s)) /\ defs' = [x \in DOMAIN defs \cup {inp[1].s} |-> IF x = inp[1].s THEN cur ELSE defs[x]]
                  /\ inp' = <<>> /\ UNCHANGED <<stacks, cur, outp, fuel>>
             ELSE cur' = [cur EXCEPT !.body = @ \o u] /\ UNCHANGED <<ph, hist, defs, stacks, inp, outp, fuel>>
Forget == /\ ph = "hist" /\ NUses > 0 /\ NUses < MaxUses /\ Len(hist) < MaxDefs + 6
          /\ \E n \in Pick(Defined) : hist' = Append(hist, H("undef", n)) /\ defs' = [defs EXCEPT ![n] = Undef]
          /\ UNCHANGED <<ph, stacks, cur, inp, outp, fuel>>
PushM == /\ ph = "hist" /\ (\E g \in Pick({1, 2, 3, 4}) : g = 1) /\ Len(hist) < MaxDefs + 4 /\ NUses < MaxUses
         /\ \E n \in Pick(Names) : Len(stacks[n]) < 2 /\ hist' = Append(hist, H("push", n)) /\ stacks' = [stacks EXCEPT ![n] = Append(@, Get(defs, n))]
         /\ UNCHANGED <<ph, defs, cur, inp, outp, fuel>>
PopM == /\ ph = "hist" /\ NUses < MaxUses
        /\ \E n \in Pick({x \in Names : stacks[x] # <<>>}) :
           /\ hist' = Append(hist, H("pop", n)) /\ stacks' = [stacks EXCEPT ![n] = SubSeq(@, 1, Len(@) - 1)]
           /\ defs' = [x \in DOMAIN defs \cup {n} |-> IF x = n THEN stacks[n][Len(stacks[n])] ELSE defs[x]]
        /\ UNCHANGED <<ph, cur, inp, outp, fuel>>
StartUse == /\ ph = "hist" /\ NDefs >= 1 /\ NUses < MaxUses /\ ph' = "use" /\ inp' = <<>> /\ UNCHANGED <<hist, defs, stacks, cur, outp, fuel>>
\* an invocation left open by `)` units is closed at the end
UseKinds == {"unit", "name", "call"} \cup (IF Len(inp) > 0 THEN {"end"} ELSE {})
Depth(ts) == Len(SelectSeq(ts, LAMBDA t : Is(t, "("))) - Len(SelectSeq(ts, LAMBDA t : Is(t, ")")))
CallN(n) == LET m == Get(defs, n) IN
            {<<Id(n), P("(", w)>> \o a \o (IF Len(m.params) > 1 THEN <<P(",", 0)>> \o b ELSE <<>>) \o (IF m.va THEN <<P(",", 1)>> \o b ELSE <<>>) \o <<P(")", w)>> :
               w \in Pick({0, 1}), a \in Pick(IF Len(m.params) = 0 THEN {<<>>} ELSE {<<P(o, 1)>> : o \in Ops} \cup {<<>>, <<Id("x")>>, <<Num("1"), P("+", 1), Id("y")>>} \cup {<<T("lit", x, 1)>> : x \in Lits} \cup {<<Id(q)>> : q \in Names}),
               b \in Pick({<<>>, <<Id("y")>>} \cup {<<P(o, 1)>> : o \in Ops} \cup {<<Id(q)>> : q \in Names})}
Use == /\ ph = "use"
       /\ \E k \in Pick(IF Len(inp) >= MaxUse THEN {"end"} ELSE UseKinds) :
          \E u \in Pick(CASE k = "unit" -> Units({}, TRUE) [] k = "name" -> {<<Id(n)>> : n \in Names} [] k = "call" -> UNION {CallN(n) : n \in Pick({x \in Defined : defs[x].func})}
                          [] k = "end" -> {<<P(")", 1)>>}) :
          IF k = "end"
          THEN LET bal == inp \o [i \in 1..Depth(inp) |-> P(")", 1)] IN
               /\ ph' = "run" /\ hist' = Append(hist, [H("use", "") EXCEPT !.toks = Clean(bal)])
               /\ inp' = <<Id("XSTR"), P("(", 0)>> \o bal \o <<P(")", 0)>> /\ outp' = <<>> /\ fuel' = 120
          ELSE inp' = inp \o u /\ UNCHANGED <<ph, hist, outp, fuel>>
       /\ UNCHANGED <<defs, stacks, cur>>
AllDefs == [n \in AllNames |-> IF n = "XSTR" THEN Xstr ELSE IF n = "XSTR_" THEN Xstr_ ELSE Get(defs, n)]
Run == /\ ph = "run" /\ inp # <<>>
       /\ LET h == Head1(AllDefs, inp, 60) IN
          IF h.st # "ok" \/ Len(h.ts) > MaxLen \/ fuel = 0 THEN ph' = "drop" /\ UNCHANGED <<inp, outp, fuel>>
          ELSE inp' = h.ts /\ outp' = outp \o h.o /\ fuel' = fuel - 1 /\ UNCHANGED ph
       /\ UNCHANGED <<hist, defs, stacks, cur>>
EndUse == /\ ph = "run" /\ inp = <<>>
          /\ IF Len(outp) = 1 /\ outp[1].k = "str"
             THEN ph' = "hist" /\ hist' = [hist EXCEPT ![Len(hist)].res = outp[1].parts]
             ELSE ph' = "drop" /\ UNCHANGED hist
          /\ UNCHANGED <<defs, stacks, cur, inp, outp, fuel>>
Finish == ph = "hist" /\ NUses > 0 /\ ph' = "emit" /\ UNCHANGED <<hist, defs, stacks, cur, inp, outp, fuel>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<hist, defs, stacks, cur, inp, outp, fuel>>
Next == StartDef \/ Body \/ Forget \/ PushM \/ PopM \/ StartUse \/ Use \/ Run \/ EndUse \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

(* what C says is painted is among what may be painted; a painted name names a macro being replaced *)
Painted == ph = "run" => \A i \in DOMAIN inp : inp[i].lo \subseteq inp[i].hi
(* the replaced text of a use has no macro left that C requires to be replaced: replacing it again from its unpainted form
   would be a different text only because of painting; here: no object-like macro survives unless painted *)
NoneLeft == ph = "run" => \A i \in DOMAIN outp : outp[i].k = "id" => (LET m == Get(AllDefs, outp[i].s) IN ~m.def \/ m.func \/ outp[i].s \in outp[i].lo)
Emit == ph = "emit" => PrintT(ToJson([h |-> [i \in DOMAIN hist |->
   [op |-> hist[i].op, n |-> hist[i].n, func |-> hist[i].m.func, params |-> hist[i].m.params, va |-> hist[i].m.va, body |-> Clean(hist[i].m.body), toks |-> hist[i].toks, res |-> hist[i].res]]]))
=============================================================================
