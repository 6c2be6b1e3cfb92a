------------------------------- MODULE Operands -------------------------------
(* Functions whose operands lie at the boundaries of the encodings: frames   *)
(* and displacements around 127, 255 and 32767 bytes, constants around the   *)
(* boundaries of 8, 16 and 32 bits.  The machine is a store of bytes.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxObj, MaxStep, Pick(_)

PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES ph, objs, mem, prog
vars == <<ph, objs, mem, prog>>

Around(S) == UNION {{x - 1, x, x + 1} : x \in S}
Sizes == {1, 3, 8, 24} \cup Around({40, 48, 56, 64, 72, 80, 88, 96, 104, 112, 120, 127, 255, 4096})
\* constants as <<high, low 16 bits>>: value high * 65536 + low
Consts == {<<0, x>> : x \in {0, 1, 2, 42, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535}}
     \cup {<<-1, x>> : x \in {65535, 65534, 65410, 65409, 65408, 65407, 65281, 65280, 65279, 32769, 32768, 32767, 1, 0}}
     \cup {<<h, x>> : h \in {1, 32767, 32768, 65535, 65536, -32768, -32769, -65536, -65537}, x \in {0, 1, 2, 65534, 65535}}

Init == ph = "obj" /\ objs = <<>> /\ mem = <<>> /\ prog = <<>>

Declare ==
    /\ ph = "obj" /\ Len(objs) < MaxObj
    /\ \E z \in Pick(Sizes) : objs' = Append(objs, z)
    /\ UNCHANGED <<ph, mem, prog>>
Run == ph = "obj" /\ Len(objs) > 0 /\ ph' = "run" /\ UNCHANGED <<objs, mem, prog>>

Store ==
    /\ ph = "run" /\ Len(prog) < MaxStep
    /\ \E o \in Pick(DOMAIN objs) : \E i \in Pick({0, objs[o] - 1, objs[o] \div 2}) : \E v \in Pick({0, 1, 127, 128, 200, 255}) :
         /\ mem' = (<<o, i>> :> v) @@ mem
         /\ prog' = Append(prog, [s |-> "store", o |-> o, i |-> i, v |-> v])
    /\ UNCHANGED <<ph, objs>>
Load ==
    /\ ph = "run" /\ Len(prog) < MaxStep
    /\ \E a \in Pick(DOMAIN mem) : prog' = Append(prog, [s |-> "load", o |-> a[1], i |-> a[2], v |-> mem[a]])
    /\ UNCHANGED <<ph, objs, mem>>
Const ==
    /\ ph = "run" /\ Len(prog) < MaxStep
    /\ \E c \in Pick(Consts) : \E t \in Pick({"int", "long", "uint", "ulong", "short", "char"}) : prog' = Append(prog, [s |-> "const", c |-> c, t |-> t])
    /\ UNCHANGED <<ph, objs, mem>>
Out == ph = "run" /\ Len(prog) = MaxStep /\ ph' = "emit" /\ UNCHANGED <<objs, mem, prog>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<objs, mem, prog>>

Next == Declare \/ Run \/ Store \/ Load \/ Const \/ Out \/ Done
Spec == Init /\ [][Next]_vars

Sound == \A a \in DOMAIN mem : a[2] < objs[a[1]]
Emit == ph = "emit" => PrintT(ToJson([objs |-> objs, prog |-> prog]))
=============================================================================
