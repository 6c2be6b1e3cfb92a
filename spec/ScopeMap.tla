------------------------------ MODULE ScopeMap ------------------------------
(* The set of visible declarations as a map from names to stacks of bindings, for populations of names large  *)
(* enough that every bucket of an implementation holds several of them.  Two name spaces: ordinary names       *)
(* (objects, enumeration constants, external objects redeclared in blocks) and tags.  A name used denotes the  *)
(* innermost binding that has not been closed.                                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS N, Globals, Steps, MaxDepth, Pick(_)
PickOne(S) == {RandomElement(S)}
VARIABLES ph, bind, tags, depth, inner, hist
vars == <<ph, bind, tags, depth, inner, hist>>
Names == 1..N
\* names above N - Globals are external objects, defined after the function with their number as value; they become visible when declared
Ext == (N - Globals + 1)..N
Init == ph = "run" /\ bind = [n \in Names |-> <<>>] /\ tags = [n \in Names |-> <<>>] /\ depth = 0 /\ inner = <<{}>> /\ hist = <<>>
Add(op, n, v) == hist' = Append(hist, <<op, n, v>>)
Top(s) == s[Len(s)]
Free(b) == IF b = <<>> THEN TRUE ELSE Top(b)[1] < depth
Step ==
    /\ ph = "run" /\ Len(hist) < Steps
    /\ \E op \in Pick(1..24) : \E n \in Pick(IF op \in 8..9 THEN Ext ELSE Names) :
         \/ op \in 1..7 /\ Free(bind[n]) /\ (depth = 0 => n \notin Ext)
            /\ LET v == Len(hist) + 1 IN
               /\ bind' = [bind EXCEPT ![n] = Append(@, <<depth, v>>)] /\ Add(IF op < 5 THEN "obj" ELSE "enum", n, v)
               /\ inner' = [inner EXCEPT ![depth + 1] = @ \cup {n}] /\ UNCHANGED <<tags, depth>>
         \/ op \in 8..9 /\ depth > 0 /\ Free(bind[n])
            /\ bind' = [bind EXCEPT ![n] = Append(@, <<depth, n>>)] /\ Add("extern", n, n)
            /\ inner' = [inner EXCEPT ![depth + 1] = @ \cup {n}] /\ UNCHANGED <<tags, depth>>
         \/ op \in 10..13 /\ Free(tags[n])
            /\ LET v == Len(hist) + 1 IN
               /\ tags' = [tags EXCEPT ![n] = Append(@, <<depth, v>>)] /\ Add("tag", n, v)
               /\ inner' = [inner EXCEPT ![depth + 1] = @ \cup {n}] /\ UNCHANGED <<bind, depth>>
         \/ op = 14 /\ depth < MaxDepth /\ Len(hist) > (depth + 1) * (Steps \div (2 * MaxDepth))
            /\ depth' = depth + 1 /\ inner' = Append(inner, {}) /\ Add("open", 0, 0) /\ UNCHANGED <<bind, tags>>
         \/ op = 15 /\ depth > 1 /\ Cardinality(inner[depth + 1]) > 20
            /\ LET pop == [f \in {"b", "t"} |-> [m \in Names |->
                    LET b == IF f = "b" THEN bind[m] ELSE tags[m]
                    IN  IF m \in inner[depth + 1] /\ b # <<>> /\ Top(b)[1] = depth THEN SubSeq(b, 1, Len(b) - 1) ELSE b]]
               IN  bind' = pop["b"] /\ tags' = pop["t"]
            /\ depth' = depth - 1 /\ inner' = SubSeq(inner, 1, depth) /\ Add("close", 0, 0)
         \/ op \in 16..21 /\ depth > 0 /\ bind[n] # <<>> /\ Add("use", n, Top(bind[n])[2]) /\ UNCHANGED <<bind, tags, depth, inner>>
         \/ op \in 22..24 /\ depth > 0 /\ tags[n] # <<>> /\ Add("usetag", n, Top(tags[n])[2]) /\ UNCHANGED <<bind, tags, depth, inner>>
    /\ UNCHANGED ph
Finish == ph = "run" /\ Len(hist) = Steps /\ depth > 0 /\ ph' = "emit" /\ UNCHANGED <<bind, tags, depth, inner, hist>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<bind, tags, depth, inner, hist>>
\* a choice that is not possible is made again
Idle == ph = "run" /\ Len(hist) < Steps /\ UNCHANGED vars
Next == Step \/ Idle \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
\* bindings of a name lie in ever deeper scopes
Nested == ph = "emit" => \A n \in Names : \A i \in 1..(Len(bind[n]) - 1) : bind[n][i][1] < bind[n][i + 1][1]
Emit == ph = "emit" => PrintT(ToJson([h |-> hist, depth |-> depth,
            b |-> [n \in Names |-> IF bind[n] = <<>> THEN 0 ELSE Top(bind[n])[2]], t |-> [n \in Names |-> IF tags[n] = <<>> THEN 0 ELSE Top(tags[n])[2]]]))
=============================================================================
