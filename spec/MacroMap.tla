------------------------------ MODULE MacroMap ------------------------------
(* The set of defined macros as a map under #define, #undef, benign redefinition, push_macro and pop_macro, for
   populations large enough that every bucket of an implementation holds several names.  At the end every name is
   asked for its value (0: not defined).                                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS N, Steps, Pick(_)
PickAll(S) == S
PickOne(S) == {RandomElement(S)}
VARIABLES ph, map, stacks, hist
vars == <<ph, map, stacks, hist>>
Names == 1..N
Init == ph = "run" /\ map = [n \in Names |-> 0] /\ stacks = [n \in Names |-> <<>>] /\ hist = <<>>
Add(op, n, v) == hist' = Append(hist, <<op, n, v>>)
Step == /\ ph = "run" /\ Len(hist) < Steps
        /\ \E n \in Pick(Names), op \in Pick(1..8) :
             \/ op \in {1, 2, 3, 4} /\ map[n] = 0 /\ map' = [map EXCEPT ![n] = Len(hist) + 1] /\ Add("define", n, Len(hist) + 1) /\ UNCHANGED stacks
             \/ op = 4 /\ map[n] # 0 /\ Add("define", n, map[n]) /\ UNCHANGED <<map, stacks>>
             \/ op \in {1, 2, 3} /\ map[n] # 0 /\ map' = [map EXCEPT ![n] = 0] /\ Add("undef", n, 0) /\ UNCHANGED stacks
             \/ op = 5 /\ map' = [map EXCEPT ![n] = 0] /\ Add("undef", n, 0) /\ UNCHANGED stacks
             \/ op = 6 /\ stacks' = [stacks EXCEPT ![n] = Append(@, map[n])] /\ Add("push", n, 0) /\ UNCHANGED map
             \/ op \in {7, 8} /\ \E m \in Pick({n} \cup {x \in Names : stacks[x] # <<>>}) :
                  IF stacks[m] = <<>> THEN Add("ask", m, map[m]) /\ UNCHANGED <<map, stacks>>
                  ELSE /\ map' = [map EXCEPT ![m] = stacks[m][Len(stacks[m])]]
                       /\ stacks' = [stacks EXCEPT ![m] = SubSeq(@, 1, Len(@) - 1)] /\ Add("pop", m, 0)
        /\ UNCHANGED ph
Finish == ph = "run" /\ Len(hist) = Steps /\ ph' = "emit" /\ UNCHANGED <<map, stacks, hist>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<map, stacks, hist>>
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == \A n \in Names : map[n] \in 0..Steps
Emit == ph = "emit" => PrintT(ToJson([h |-> hist, map |-> map]))
=============================================================================
