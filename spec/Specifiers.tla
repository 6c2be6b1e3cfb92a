-------------------------------- MODULE Specifiers --------------------------------
(* The lists of type specifiers (6.7.2): every list up to MaxLen words, in every order, and the type it names. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES s
Words == {"void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "_Bool", "T", "S"}
N(w) == Len(SelectSeq(s, LAMBDA x : x = w))
Only(S) == \A i \in 1..Len(s) : s[i] \in S
Sgn == IF N("unsigned") = 0 THEN "" ELSE "u"
(* the type: "" for the ones that are left out (long double, typedef names and structures), "none" when there is no such type *)
Type ==
   IF \E w \in Words \ {"long"} : N(w) > 1 THEN "none"
   ELSE IF N("long") > 2 \/ N("signed") + N("unsigned") > 1 THEN "none"
   ELSE IF \E w \in {"void", "float", "_Bool", "T", "S"} : N(w) = 1 THEN
        IF Len(s) > 1 THEN "none" ELSE (CASE s[1] = "float" -> "float" [] s[1] = "_Bool" -> "bool" [] s[1] = "void" -> "void" [] OTHER -> "")
   ELSE IF N("double") = 1 THEN (IF Len(s) = 1 THEN "double" ELSE IF Len(s) = 2 /\ N("long") = 1 THEN "" ELSE "none")
   ELSE IF N("char") = 1 THEN (IF ~Only({"char", "signed", "unsigned"}) THEN "none" ELSE IF N("signed") = 1 THEN "schar" ELSE Sgn \o "char")
   ELSE IF N("short") = 1 THEN (IF N("long") > 0 THEN "none" ELSE Sgn \o "short")
   ELSE IF N("long") = 1 THEN Sgn \o "long"
   ELSE IF N("long") = 2 THEN Sgn \o "llong"
   ELSE Sgn \o "int"
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E w \in Words : s' = Append(s, w)
Spec == Init /\ [][Next]_s
Emit == s # <<>> => PrintT(ToJson([s |-> s, t |-> Type]))
=============================================================================
