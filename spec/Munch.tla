--------------------------------- MODULE Munch ---------------------------------
(* Tokens by maximal munch (6.4p4).  Expressions are built as token sequences in postfix order; a source text is a
   sequence of tokens with separators between them, and a separator may be left out only where the scanner below,
   which always takes the longest token, finds the same two tokens.  Texts of the same tokens are the same program. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, stk, n, toks, seps
vars == <<ph, stk, n, toks, seps>>

Punct == {<<"+">>, <<"-">>, <<"*">>, <<"/">>, <<"%">>, <<"&">>, <<"|">>, <<"^">>, <<"<">>, <<">">>, <<"=">>, <<"!">>, <<"~">>, <<"?">>, <<":">>, <<",">>, <<".">>, <<"(">>, <<")">>, <<"[">>, <<"]">>,
          <<"+", "+">>, <<"-", "-">>, <<"-", ">">>, <<"<", "<">>, <<">", ">">>, <<"<", "=">>, <<">", "=">>, <<"=", "=">>, <<"!", "=">>, <<"&", "&">>, <<"|", "|">>,
          <<"+", "=">>, <<"-", "=">>, <<"*", "=">>, <<"/", "=">>, <<"%", "=">>, <<"&", "=">>, <<"|", "=">>, <<"^", "=">>, <<"<", "<", "=">>, <<">", ">", "=">>, <<".", ".", ".">>,
          \* digraphs, and the beginnings of comments: never to be formed by accident
          <<"<", ":">>, <<":", ">">>, <<"<", "%">>, <<"%", ">">>, <<"%", ":">>, <<"/", "/">>, <<"/", "*">>}
Letter == {"a", "b", "c", "d", "e", "f", "i", "l", "L", "m", "o", "p", "q", "r", "s", "t", "u", "U", "x", "z", "E", "_", "Z"}   \* Z stands for a letter outside ASCII, written as itself or as a universal character name
Digit == {"0", "1", "2", "3", "5", "8"}
(* length of the longest identifier, pp-number or punctuator at place i *)
RECURSIVE IdLen(_, _), NumLen(_, _)
IdLen(s, i) == IF i > Len(s) \/ s[i] \notin Letter \cup Digit THEN i ELSE IdLen(s, i + 1)
NumLen(s, i) == IF i > Len(s) THEN i
                ELSE IF s[i] \in {"e", "E", "p"} /\ i < Len(s) /\ s[i + 1] \in {"+", "-"} THEN NumLen(s, i + 2)
                ELSE IF s[i] \in Letter \cup Digit \cup {"."} THEN NumLen(s, i + 1) ELSE i
PLen(s, i) == LET c(k) == i + k - 1 <= Len(s) /\ SubSeq(s, i, i + k - 1) \in Punct IN IF c(3) THEN i + 3 ELSE IF c(2) THEN i + 2 ELSE i + 1
EndOf(s, i) == IF s[i] \in Letter THEN IdLen(s, i) ELSE IF s[i] \in Digit \/ (s[i] = "." /\ i < Len(s) /\ s[i + 1] \in Digit) THEN NumLen(s, i) ELSE PLen(s, i)
RECURSIVE Lex(_, _)
Lex(s, i) == IF i > Len(s) THEN <<>> ELSE LET j == EndOf(s, i) IN <<SubSeq(s, i, j - 1)>> \o Lex(s, j)
Glued(a, b) == Lex(a \o b, 1) = <<a, b>>

(* ---------------------------------------------------------------- expressions: i int, l int lvalue, d double, p int pointer, q struct pointer, s struct *)
E(ts, t, p) == [ts |-> ts, t |-> t, p |-> p]
Par(e, p) == IF e.p >= p THEN e.ts ELSE <<<<"(">>>> \o e.ts \o <<<<")">>>>
Leaves == {E(<<x>>, "l", 16) : x \in {<<"a">>, <<"b">>, <<"e">>, <<"x", "L">>}} \cup {E(<<x>>, "i", 16) : x \in {<<"1">>, <<"0", "x", "e">>, <<"2", "u">>, <<"0">>, <<"8", "L">>, <<"0", "x", "1", "E">>}}
  \cup {E(<<x>>, "d", 16) : x \in {<<"1", ".">>, <<".", "5">>, <<"2", "e", "1">>, <<"1", ".", "e", "-", "1">>, <<"0", "x", "1", "p", "3">>, <<"5", ".", "f">>}}
  \cup {E(<<<<"p">>>>, "p", 16), E(<<<<"q">>>>, "q", 16), E(<<<<"s">>>>, "s", 16)}
Num(e) == e.t \in {"i", "l", "d"}
IntTok(e) == e.t \in {"i", "l"}
Top == stk[Len(stk)]
Snd == stk[Len(stk) - 1]
Push(e, d) == stk' = Append(SubSeq(stk, 1, Len(stk) - d), e) /\ n' = n + 1
T1 == {<<"+">>, <<"-">>, <<"!">>, <<"~">>, <<"*">>, <<"&">>, <<"+", "+">>, <<"-", "-">>}
Un == \E o \in Pick(T1) : LET e == Top IN
        \/ o \in {<<"+">>, <<"-">>} /\ Num(e) /\ Push(E(<<o>> \o Par(e, 15), IF e.t = "d" THEN "d" ELSE "i", 15), 1)
        \/ o = <<"!">> /\ e.t # "s" /\ Push(E(<<o>> \o Par(e, 15), "i", 15), 1)
        \/ o = <<"~">> /\ IntTok(e) /\ Push(E(<<o>> \o Par(e, 15), "i", 15), 1)
        \/ o = <<"*">> /\ e.t = "p" /\ Push(E(<<o>> \o Par(e, 15), "l", 15), 1)
        \/ o = <<"&">> /\ e.t = "l" /\ Push(E(<<o>> \o Par(e, 15), "p", 15), 1)
        \/ o \in {<<"+", "+">>, <<"-", "-">>} /\ e.t = "l" /\ Push(E(<<o>> \o Par(e, 15), "i", 15), 1)
        \/ o \in {<<"+", "+">>, <<"-", "-">>} /\ e.t = "l" /\ Push(E(Par(e, 16) \o <<o>>, "i", 16), 1)
Mem == LET e == Top IN \/ e.t = "s" /\ Push(E(Par(e, 16) \o <<<<".">>, <<"m">>>>, "l", 16), 1)
                       \/ e.t = "q" /\ Push(E(Par(e, 16) \o <<<<"-", ">">>, <<"m">>>>, "l", 16), 1)
                       \/ e.t = "p" /\ Push(E(Par(e, 16) \o <<<<"[">>, <<"1">>, <<"]">>>>, "l", 16), 1)
Bin == {<<<<"*">>, 13>>, <<<<"/">>, 13>>, <<<<"%">>, 13>>, <<<<"+">>, 12>>, <<<<"-">>, 12>>, <<<<"<", "<">>, 11>>, <<<<">", ">">>, 11>>, <<<<"<">>, 10>>, <<<<">">>, 10>>, <<<<"<", "=">>, 10>>, <<<<">", "=">>, 10>>,
        <<<<"=", "=">>, 9>>, <<<<"!", "=">>, 9>>, <<<<"&">>, 8>>, <<<<"^">>, 7>>, <<<<"|">>, 6>>, <<<<"&", "&">>, 5>>, <<<<"|", "|">>, 4>>, <<<<",">>, 1>>}
IntOnly == {<<"%">>, <<"<", "<">>, <<">", ">">>, <<"&">>, <<"^">>, <<"|">>}
Binary == \E o \in Pick(Bin) : LET a == Snd b == Top IN
            /\ Num(a) /\ Num(b) /\ (o[1] \in IntOnly => IntTok(a) /\ IntTok(b))
            /\ Push(E(Par(a, o[2]) \o <<o[1]>> \o Par(b, o[2] + 1), IF o[1] = <<",">> THEN (IF b.t = "d" THEN "d" ELSE "i") ELSE IF o[2] >= 12 /\ (a.t = "d" \/ b.t = "d") THEN "d" ELSE "i", o[2]), 2)
Assign == \E o \in Pick({<<"=">>, <<"+", "=">>, <<"-", "=">>, <<"*", "=">>, <<"&", "=">>, <<"|", "=">>, <<"^", "=">>, <<"<", "<", "=">>, <<">", ">", "=">>, <<"/", "=">>, <<"%", "=">>}) : LET a == Snd b == Top IN
            /\ a.t = "l" /\ IntTok(b) /\ Push(E(Par(a, 15) \o <<o>> \o Par(b, 2), "i", 2), 2)
Tern == Len(stk) >= 3 /\ LET c == stk[Len(stk) - 2] a == Snd b == Top IN Num(c) /\ IntTok(a) /\ IntTok(b) /\ Push(E(Par(c, 4) \o <<<<"?">>>> \o Par(a, 1) \o <<<<":">>>> \o Par(b, 3), "i", 3), 3)
Size == LET e == Top IN Push(E(<<<<"s", "i", "z", "e", "o", "f">>>> \o (IF e.t = "p" THEN e.ts ELSE Par(e, 15)), "i", 15), 1)
Leaf == \E e \in Pick(Leaves) : Push(e, 0)
Build == /\ ph = "build" /\ UNCHANGED <<ph, toks, seps>>
         /\ \/ n < MaxOps /\ Len(stk) < 4 /\ Leaf
            \/ n < 2 * MaxOps /\ Len(stk) >= 1 /\ (Un \/ Mem \/ (Size /\ n % 4 = 0))
            \/ Len(stk) >= 2 /\ (Binary \/ Assign)
            \/ Tern
Start == /\ ph = "build" /\ Len(stk) = 1 /\ Len(Top.ts) > 2 /\ ph' = "space" /\ toks' = Top.ts /\ seps' = <<>> /\ UNCHANGED <<stk, n>>
(* separators: nothing, or a splice, only between tokens that stay apart *)
Space == /\ ph = "space" /\ Len(seps) < Len(toks) - 1
         /\ LET a == toks[Len(seps) + 1] b == toks[Len(seps) + 2] IN
            \E s \in Pick(IF Glued(a, b) THEN {"none", "tight", "glue", "splice", "space"} ELSE {"space", "tab", "comment", "newline", "line", "feed"}) : seps' = Append(seps, s)
         /\ UNCHANGED <<ph, stk, n, toks>>
Fin == ph = "space" /\ Len(seps) = Len(toks) - 1 /\ ph' = "emit" /\ UNCHANGED <<stk, n, toks, seps>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<stk, n, toks, seps>>
Init == ph = "build" /\ stk = <<>> /\ n = 0 /\ toks = <<>> /\ seps = <<>>
Next == Build \/ Start \/ Space \/ Fin \/ Done
Spec == Init /\ [][Next]_vars
Sticky == {"none", "tight", "glue", "splice"}
(* the maximal runs without separator are scanned back into their tokens *)
RECURSIVE Run(_, _)
Run(i, s) == IF i >= Len(toks) \/ seps[i] \notin Sticky THEN <<s, i>> ELSE Run(i + 1, s \o toks[i + 1])
Scans == ph = "emit" => \A i \in DOMAIN toks : (i = 1 \/ seps[i - 1] \notin Sticky) => LET r == Run(i, toks[i]) IN Lex(r[1], 1) = SubSeq(toks, i, r[2])
Emit == ph = "emit" => PrintT(ToJson([t |-> toks, s |-> seps, k |-> Top.t]))
=============================================================================
