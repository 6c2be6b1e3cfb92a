------------------------------- MODULE CondIncl -------------------------------
(* Conditional inclusion (6.10.1) as a pushdown machine over the lines of a file.  Each step chooses the next line and
   carries it out: text lines of processed groups are recorded, directives of skipped groups only move the stack.
   A file whose conditionals do not balance, or where #else is followed by #elif or #else, has outcome "reject".
   Controlling expressions are over the macros A B C (undefined, or a small number).                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxLines, MaxDepth, Faults, Pick(_), Full
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, stk, defs, lines, out
vars == <<ph, stk, defs, lines, out>>
Names == {"A", "B", "C"}
Undef == -1
Val(n) == IF defs[n] = Undef THEN 0 ELSE defs[n]
\* a frame: the enclosing group is processed; some group was processed; this group is processed; #else was seen
Active == stk = <<>> \/ stk[Len(stk)].on
Top == stk[Len(stk)]
Frame(c) == [par |-> Active, taken |-> Active /\ c, on |-> Active /\ c, els |-> FALSE]
B(x) == IF x THEN 1 ELSE 0
(* <<text, value>> of conditions that are evaluated *)
Conds == {<<"0", 0>>, <<"1", 1>>, <<"-1", 1>>, <<"0x0", 0>>}
  \cup {<<"defined " \o n, B(defs[n] # Undef)>> : n \in Names} \cup {<<"!defined(" \o n \o ")", B(defs[n] = Undef)>> : n \in Names}
  \cup {<<n, Val(n)>> : n \in Names} \cup {<<n \o " == 2", B(Val(n) = 2)>> : n \in Names} \cup {<<n \o " > " \o m, B(Val(n) > Val(m))>> : n \in Names, m \in Names}
  \cup {<<"defined(" \o n \o ") && " \o n \o " >= 1 || defined " \o m, B((defs[n] # Undef /\ Val(n) >= 1) \/ defs[m] # Undef)>> : n \in Names, m \in Names}
  \cup {<<n \o " ? " \o m \o " : 1", IF Val(n) # 0 THEN Val(m) ELSE 1>> : n \in Names, m \in Names}
  \cup {<<n \o " != 0 && 6 / " \o n \o " > 2", B(Val(n) # 0 /\ 6 \div (IF Val(n) = 0 THEN 1 ELSE Val(n)) > 2)>> : n \in Names}
  \cup {<<"ID(" \o n \o ") - 1", Val(n) - 1>> : n \in Names} \cup {<<"__LINE__ > 0", 1>>}
SmallConds == {<<"0", 0>>, <<"1", 1>>, <<"A", Val("A")>>}
Junk == {"1 / 0", "(", "+", "1 2 3", "defined", "FOO(1", "", "0 0", "1 ? 2", "$", "1.5"}
Say(kind, s) == lines' = Append(lines, [k |-> kind, s |-> s])
Keep == UNCHANGED <<ph, defs, out>>
C0 == IF Full THEN Conds ELSE SmallConds
(* <<line after #, truth>> for a conditional that is / is not evaluated *)
IfLine(w, ev) == IF ev THEN {<<w \o " " \o c[1], c[2] # 0>> : c \in C0} ELSE {<<w \o " " \o j, FALSE>> : j \in IF Full THEN Junk \cup {"1", "0"} ELSE {"1", "("}}
DefLine(w, pos, ev) == {<<w \o " " \o n, (defs[n] # Undef) = pos>> : n \in IF Full THEN Names ELSE {"A"}} \cup (IF ev \/ ~Full THEN {} ELSE {<<w, FALSE>>})
OpenLines(k) == CASE k = "if" -> IfLine("if", Active) [] k = "ifdef" -> DefLine("ifdef", TRUE, Active) [] k = "ifndef" -> DefLine("ifndef", FALSE, Active)
Open == /\ ph = "run" /\ Len(stk) < MaxDepth
        /\ \E k \in Pick({"if", "ifdef", "ifndef"}) : \E l \in Pick(OpenLines(k)) : Say("dir", l[1]) /\ stk' = Append(stk, Frame(l[2]))
        /\ Keep
ElifEval == Top.par /\ ~Top.taken
ElifLines(k) == CASE k = "elif" -> IfLine("elif", ElifEval) [] k = "elifdef" -> DefLine("elifdef", TRUE, ElifEval) [] k = "elifndef" -> DefLine("elifndef", FALSE, ElifEval)
SetTop(on) == stk' = [stk EXCEPT ![Len(stk)].on = on, ![Len(stk)].taken = @ \/ on]
Elif == /\ ph = "run" /\ stk # <<>> /\ ~Top.els
        /\ \E k \in Pick({"elif", "elifdef", "elifndef"}) : \E l \in Pick(ElifLines(k)) : Say("dir", l[1]) /\ SetTop(ElifEval /\ l[2])
        /\ Keep
Else == /\ ph = "run" /\ stk # <<>> /\ ~Top.els
        /\ stk' = [stk EXCEPT ![Len(stk)].on = ElifEval, ![Len(stk)].taken = TRUE, ![Len(stk)].els = TRUE] /\ Say("dir", "else") /\ Keep
Endif == /\ ph = "run" /\ stk # <<>> /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ Say("dir", "endif") /\ Keep
Text == /\ ph = "run" /\ Say("text", ToString(Len(lines))) /\ out' = IF Active THEN Append(out, Len(lines)) ELSE out
        /\ UNCHANGED <<ph, stk, defs>>
Define == /\ ph = "run" /\ Full
          /\ \E n \in Pick(Names), v \in Pick({0, 1, 2, 3, Undef}) :
             IF v = Undef THEN Say("dir", "undef " \o n) /\ defs' = (IF Active THEN [defs EXCEPT ![n] = Undef] ELSE defs)
             ELSE IF Active /\ defs[n] # Undef THEN Say("dir", "define " \o n \o " " \o ToString(defs[n])) /\ UNCHANGED defs
             ELSE Say("dir", "define " \o n \o " " \o ToString(v)) /\ defs' = (IF Active THEN [defs EXCEPT ![n] = v] ELSE defs)
          /\ UNCHANGED <<ph, stk, out>>
(* anything goes in a skipped group, and null directives anywhere *)
SkipJunk == {"error not this", "include <no/such/file.h>", "include \"nope.h\"", "bogus 1 2", "define", "define 3", "undef", "line none", "pragma once", "ident", "123 xyz", "ifx", "elseif", "endifx", "define ID(",
             "pragma pop_macro(3)", "warning", "include", "! elif 1"}
Noise == /\ ph = "run" /\ Full
         /\ IF Active THEN Say("dir", "") ELSE \E s \in Pick(SkipJunk \cup {"", "text"}) : IF s = "text" THEN (\E j \in Pick({"} } (", "x ## # y", "\"str\" )", "defined A", "@ `", "if 0", "else", "endif", "A B C("}) : Say("text", j)) ELSE Say("dir", s)
         /\ UNCHANGED <<ph, stk, defs, out>>
(* the ways of not balancing *)
Bad == /\ ph = "run" /\ Faults
       /\ IF stk = <<>> THEN \E s \in Pick({"endif", "else", "elif 1", "elif 0", "elifdef A", "elifndef A"}) : Say("dir", s)
          ELSE IF Top.els THEN \E s \in Pick({"else", "elif 1", "elif 0", "elifdef A", "elifndef A"}) : Say("dir", s)
          ELSE UNCHANGED lines /\ Len(lines) > 1
       /\ ph' = "reject" /\ UNCHANGED <<stk, defs, out>>
Init == ph = "run" /\ stk = <<>> /\ defs = [n \in Names |-> IF n = "A" THEN 1 ELSE Undef] /\ lines = <<>> /\ out = <<>>
Room == Len(lines) + Len(stk) < MaxLines
Finish == ph = "run" /\ stk = <<>> /\ Len(lines) > 0 /\ ph' = "accept" /\ UNCHANGED <<stk, defs, lines, out>>
Done == ph \in {"accept", "reject"} /\ ph' = "done" /\ UNCHANGED <<stk, defs, lines, out>>
Next == (Room /\ (Open \/ Elif \/ Else \/ Text \/ Define \/ Noise)) \/ Endif \/ (Len(lines) < MaxLines + 1 /\ Bad) \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
(* at most one group of each section is processed, and only inside processed groups *)
Nested == \A i \in DOMAIN stk : (stk[i].on => stk[i].par /\ stk[i].taken) /\ (stk[i].par = (i = 1 \/ stk[i - 1].on))
Emit == ph \in {"accept", "reject"} => PrintT(ToJson([o |-> ph, l |-> lines, r |-> out, d |-> [n \in Names |-> defs[n]]]))
=============================================================================
