------------------------------- MODULE SyntaxMut -------------------------------
(* Long token sequences for the judge of Syntax: a random derivation of the grammar, then at most one deletion, insertion,
   replacement or exchange of tokens. *)
EXTENDS Syntax, SequencesExt
VARIABLES pend, fuel, op
mvars == <<s, ph, pend, fuel, op>>
(* derivation: pend is the sentential form, the leftmost nonterminal is rewritten *)
EProd(n) ==
   IF fuel <= 0 THEN (CASE n = "E" -> {<<"x">>, <<"1">>, <<"a", "[", "1", "]">>} [] n = "L" -> {<<"x">>} [] n = "P" -> {<<"p">>, <<"a">>} [] n = "S" -> {<<"x;">>, <<";">>} [] n = "I" -> {<<>>} [] OTHER -> {<<n>>})
   ELSE CASE n = "E" -> {<<"L">>, <<"(", "E", ")">>, <<"E", "+", "(", "E", ")">>, <<"(", "E", ")", "*", "L">>, <<"L", "++">>, <<"++", "L">>, <<"+", "L">>, <<"!", "P">>, <<"!", "L">>, <<"sizeof", "P">>, <<"sizeof", "L">>,
                          <<"f", "(", "L", "=", "E", ")">>, <<"f", "(", "(", "E", ",", "E", ")", ")">>, <<"(", "*", "f", ")", "(", "x", ")">>,
                          <<"(", "L", "=", "E", ")">>, <<"(", "E", "?", "E", ":", "L", ")">>, <<"(", "P", "?", "E", ",", "E", ":", "L", ")">>, <<"L", "*", "L">>}
          [] n = "L" -> {<<"x">>, <<"(", "L", ")">>, <<"(", "*", "P", ")">>, <<"a", "[", "E", "]">>, <<"1", "[", "P", "]">>, <<"(", "P", ")", "[", "E", "]">>}
          [] n = "P" -> {<<"p">>, <<"a">>, <<"p", "++">>, <<"(", "p", "=", "P", ")">>, <<"(", "P", "+", "L", ")">>, <<"(", "x", "+", "P", ")">>, <<"(", "E", ",", "P", ")">>, <<"(", "x", "?", "P", ":", "P", ")">>}
          [] n = "S" -> {<<"x;">>, <<"{", "I", "}">>, <<"if(x)", "S">>, <<"if(x)", "{", "I", "}", "else", "S">>, <<"while(x)", "{", "I", "break;", "I", "}">>, <<"for(;x;)", "S">>, <<"for(int k=0;k;)", "{", "I", "continue;", "}">>,
                          <<"do", "S", "while(x)", ";">>, <<"do", "{", "I", "}", "while(x)", ";">>, <<"switch(x)", "{", "case #:", "S", "I", "default:", "break;", "}">>, <<"L#:", "S">>, <<"return;">>}
          [] n = "I" -> {<<"S">>, <<"S", "I">>, <<"int y#;", "I">>, <<"S", "_Static_assert(1,\"\");", "I">>, <<>>}
          [] OTHER -> {<<n>>}
NT == IF Lang = "expr" THEN {"E", "L", "P"} ELSE {"S", "I"}
Lead == CHOOSE i \in 1..Len(pend) : pend[i] \in NT /\ \A j \in 1..(i - 1) : pend[j] \notin NT
MInit == s = <<>> /\ ph = "derive" /\ pend = (IF Lang = "expr" THEN <<"E">> ELSE <<"S", "I">>) /\ fuel = MaxLen /\ op = ""
Derive == /\ ph = "derive" /\ \E i \in 1..Len(pend) : pend[i] \in NT
          /\ \E r \in Pick(EProd(pend[Lead])) : pend' = SubSeq(pend, 1, Lead - 1) \o r \o SubSeq(pend, Lead + 1, Len(pend))
          /\ fuel' = fuel - 1 /\ UNCHANGED <<s, ph, op>>
Mutate == /\ ph = "derive" /\ ~\E i \in 1..Len(pend) : pend[i] \in NT
          /\ \E o \in Pick({"none", "del", "ins", "rep", "swap", "del"}), i \in Pick(1..Len(pend)), t \in Pick(Vocab) :
               /\ s' = (CASE o = "none" -> pend [] o = "del" -> RemoveAt(pend, i) [] o = "ins" -> InsertAt(pend, i, t) [] o = "rep" -> [pend EXCEPT ![i] = t]
                          [] o = "swap" -> IF i < Len(pend) THEN [pend EXCEPT ![i] = pend[i + 1], ![i + 1] = pend[i]] ELSE pend)
               /\ op' = o
          /\ ph' = "emit" /\ UNCHANGED <<pend, fuel>>
MNext == Derive \/ Mutate \/ (ph = "emit" /\ ph' = "done" /\ UNCHANGED <<s, pend, fuel, op>>)
MSpec == MInit /\ [][MNext]_mvars
(* the judge accepts everything that the grammar derives *)
MSound == ph = "emit" /\ op = "none" => (Judge \/ Twice)
MEmit == (ph = "emit" /\ s # <<>> /\ Len(s) < 60 /\ ~Twice) => PrintT(ToJson([s |-> s, ok |-> Judge]))
=============================================================================
