------------------------------- MODULE X86 -------------------------------
(* Assembly output and object output are the same program.                  *)
(*                                                                           *)
(* A trace is one translation unit: the lines of the assembly text (labels,  *)
(* data directives, instructions) in order, and the object: the bytes of     *)
(* each section and its relocations.  The machine reads the text line by     *)
(* line with one location counter per section, as an assembler does, and     *)
(* decodes the bytes of the object at the counter: prefixes, REX, opcode,    *)
(* ModRM, SIB, displacement, immediate.  The decoded instruction has to be   *)
(* the one printed; data has to be the data printed; and every address of    *)
(* the object has to denote the label printed (resolved at the end, when     *)
(* every label has its place).                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File           \* the recorded traces

Traces == JsonDeserialize(File)

VARIABLES u,             \* the trace
          k,             \* next line of the text
          sec,           \* current section
          off,           \* location counter of each section
          labs,          \* label -> <<section, offset>>
          refs,          \* references to be resolved: label printed, addend, what the object denotes
          glob,          \* labels declared global
          algn,          \* largest alignment asked for, per section
          err            \* why the trace is refused ("" while it is accepted)

vars == <<u, k, sec, off, labs, refs, glob, algn, err>>

Secs == {".text", ".rodata", ".data"}
Text == Traces[u].text
Obj == Traces[u].obj
Byte(o, i) == LET b == Obj.sections[sec].bytes IN IF o + i < Len(b) THEN b[o + i + 1] ELSE -1
Bytes(o, n) == [i \in 1..n |-> Byte(o, i - 1)]

\* ------------------------------------------------------------------ mnemonics
Suffix == [b |-> 1, w |-> 2, l |-> 4, q |-> 8]
Sfx == DOMAIN Suffix
Alu == <<"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp">>
CondName == <<"o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g">>
CondSyn == [nae |-> "b", c |-> "b", nb |-> "ae", nc |-> "ae", z |-> "e", nz |-> "ne", na |-> "be", nbe |-> "a", nge |-> "l", nl |-> "ge", ng |-> "le", nle |-> "g"]
Conds == {CondName[i] : i \in DOMAIN CondName} \cup DOMAIN CondSyn
CondOf(c) == IF c \in DOMAIN CondSyn THEN CondSyn[c] ELSE c
Based == {Alu[i] : i \in DOMAIN Alu} \cup {"mov", "lea", "push", "pop", "not", "neg", "mul", "imul", "div", "idiv", "sal", "shl", "sar", "shr", "test", "btc", "inc", "dec"}
Sse == {"movss", "movsd", "movaps", "movups", "cvtsi2ss", "cvtsi2sd", "cvtsd2ss", "cvtss2sd", "cvttss2si", "cvttsd2si", "xorps", "xorpd", "andps", "andpd",
        "addss", "addsd", "subss", "subsd", "mulss", "mulsd", "divss", "divsd", "ucomiss", "ucomisd", "sqrtss", "sqrtsd"}
Plain == {"cltd", "cqto", "leave", "ret", "ud2", "jmp", "nop", "cltq", "cwtl"}
\* canonical operation and operand size (0: from the registers)
Canon ==
    [m \in {b \o s : b \in Based, s \in Sfx} |->
        LET x == CHOOSE x \in Based \X Sfx : x[1] \o x[2] = m
        IN  <<IF x[1] = "sal" THEN "shl" ELSE x[1], Suffix[x[2]]>>]
    @@ [m \in Based |-> <<IF m = "sal" THEN "shl" ELSE m, 0>>]
    @@ [m \in Sse \cup Plain |-> <<m, 0>>]
    @@ [m \in {"j" \o c : c \in Conds} |-> <<"j" \o CondOf(CHOOSE c \in Conds : "j" \o c = m), 0>>]
    @@ [m \in {"set" \o c : c \in Conds} |-> <<"set" \o CondOf(CHOOSE c \in Conds : "set" \o c = m), 1>>]
    @@ ("setgl" :> <<"setl", 1>>)
    @@ [movabsq |-> <<"mov", 8>>, movd |-> <<"movx", 0>>, call |-> <<"call", 0>>, callq |-> <<"call", 0>>, retq |-> <<"ret", 0>>, leaveq |-> <<"leave", 0>>,
        movsbw |-> <<"movs1", 2>>, movsbl |-> <<"movs1", 4>>, movsbq |-> <<"movs1", 8>>, movswl |-> <<"movs2", 4>>, movswq |-> <<"movs2", 8>>, movslq |-> <<"movs4", 8>>,
        movzbw |-> <<"movz1", 2>>, movzbl |-> <<"movz1", 4>>, movzbq |-> <<"movz1", 8>>, movzwl |-> <<"movz2", 4>>, movzwq |-> <<"movz2", 8>>,
        cvtsi2ssl |-> <<"cvtsi2ss", 4>>, cvtsi2ssq |-> <<"cvtsi2ss", 8>>, cvtsi2sdl |-> <<"cvtsi2sd", 4>>, cvtsi2sdq |-> <<"cvtsi2sd", 8>>]

\* ------------------------------------------------------------------ decoding
Bit(b, i) == (b \div (2 ^ i)) % 2
Sext(bs) == LET n == Len(bs) IN [i \in 1..8 |-> IF i <= n THEN bs[i] ELSE IF bs[n] >= 128 THEN 255 ELSE 0]
SInt(bs) ==      \* signed value of up to four bytes
    LET n == Len(bs)
        top == IF bs[n] >= 128 THEN bs[n] - 256 ELSE bs[n]
        Low(i) == IF i < n THEN bs[i] * (256 ^ (i - 1)) ELSE 0
    IN  Low(1) + Low(2) + Low(3) + top * (256 ^ (n - 1))

Reg(n, s, hasrex) == [k |-> "r", n |-> IF s = 1 /\ ~hasrex /\ n \in 4..7 THEN n + 100 ELSE n, s |-> s]
Xmm(n) == [k |-> "x", n |-> n]

\* prefixes: a record with the flags, and the offset of the opcode
Prefix(o) ==
    LET b0 == Byte(o, 0)
        p1 == b0 \in {102, 242, 243}
        o1 == IF p1 THEN o + 1 ELSE o
        r == Byte(o1, 0)
        hasrex == r \in 64..79
    IN  [p |-> IF p1 THEN b0 ELSE 0, rex |-> hasrex, w |-> IF hasrex THEN Bit(r, 3) ELSE 0, r |-> IF hasrex THEN Bit(r, 2) ELSE 0,
         x |-> IF hasrex THEN Bit(r, 1) ELSE 0, b |-> IF hasrex THEN Bit(r, 0) ELSE 0, o |-> IF hasrex THEN o1 + 1 ELSE o1]

\* ModRM at offset o: register field, and register or memory operand of the other field; e: offset after it
ModRM(o, P) ==
    LET m == Byte(o, 0)
        mod == m \div 64
        reg == (m \div 8) % 8
        rm == m % 8
        sib == Byte(o, 1)
        hassib == mod # 3 /\ rm = 4
        a == IF hassib THEN o + 2 ELSE o + 1
        base == IF hassib THEN (sib % 8) + 8 * P.b ELSE rm + 8 * P.b
        none == (hassib /\ mod = 0 /\ sib % 8 = 5) \/ (~hassib /\ mod = 0 /\ rm = 5)
        index == IF hassib THEN ((sib \div 8) % 8) + 8 * P.x ELSE 4
        n == IF mod = 1 THEN 1 ELSE IF mod = 2 \/ none THEN 4 ELSE 0
        disp == IF n = 0 THEN [i \in 1..8 |-> 0] ELSE Sext(Bytes(a, n))
    IN  [reg |-> reg + 8 * P.r, ext |-> reg, isreg |-> mod = 3, n |-> rm + 8 * P.b, e |-> a + (IF mod = 3 THEN 0 ELSE n),
         mem |-> [k |-> "m", b |-> IF none THEN -1 ELSE base, i |-> IF index = 4 THEN -1 ELSE index, s |-> IF index = 4 THEN 0 ELSE sib \div 64, d |-> disp]]

RM(M, s, P) == IF M.isreg THEN Reg(M.n, s, P.rex) ELSE M.mem
XM(M) == IF M.isreg THEN Xmm(M.n) ELSE M.mem
Imm(o, n) == [k |-> "i", v |-> Sext(Bytes(o, n)), o |-> o]
Ins(o, s, ops, e) == [op |-> o, s |-> s, ops |-> ops, e |-> e]
Bad(o) == Ins("(bad)", 0, <<>>, o + 1)

FArith == (88 :> "add" @@ 89 :> "mul" @@ 92 :> "sub" @@ 94 :> "div" @@ 81 :> "sqrt")

Decode2(o, P) ==       \* two-byte opcodes; o: offset after 0f
    LET c == Byte(o, 0)
        M == ModRM(o + 1, P)
        s == IF P.w = 1 THEN 8 ELSE IF P.p = 102 THEN 2 ELSE 4
        ss == IF P.p = 243 THEN "ss" ELSE IF P.p = 242 THEN "sd" ELSE "??"
    IN  CASE c = 11 -> Ins("ud2", 0, <<>>, o + 1)
        [] c \in 128..143 -> Ins("j" \o CondName[c - 127], 0, <<[k |-> "t", n |-> 4, o |-> o + 1]>>, o + 5)
        [] c \in 144..159 -> Ins("set" \o CondName[c - 143], 1, <<RM(M, 1, P)>>, M.e)
        [] c = 175 -> Ins("imul", s, <<RM(M, s, P), Reg(M.reg, s, P.rex)>>, M.e)
        [] c \in {182, 183, 190, 191} ->
             LET f == IF c % 2 = 0 THEN 1 ELSE 2
             IN  Ins((IF c < 190 THEN "movz" ELSE "movs") \o ToString(f), s, <<RM(M, f, P), Reg(M.reg, s, P.rex)>>, M.e)
        [] c = 186 -> Ins(<<"?", "?", "?", "?", "bt", "bts", "btr", "btc">>[M.ext + 1], s, <<Imm(M.e, 1), RM(M, s, P)>>, M.e + 1)
        [] c \in {16, 17} /\ P.p \in {242, 243} -> Ins("mov" \o ss, 0, IF c = 16 THEN <<XM(M), Xmm(M.reg)>> ELSE <<Xmm(M.reg), XM(M)>>, M.e)
        [] c \in {40, 41} /\ P.p = 0 -> Ins("movaps", 0, IF c = 40 THEN <<XM(M), Xmm(M.reg)>> ELSE <<Xmm(M.reg), XM(M)>>, M.e)
        [] c = 42 /\ P.p \in {242, 243} -> Ins("cvtsi2" \o ss, s, <<RM(M, s, P), Xmm(M.reg)>>, M.e)
        [] c = 44 /\ P.p \in {242, 243} -> Ins("cvtt" \o ss \o "2si", s, <<XM(M), Reg(M.reg, s, P.rex)>>, M.e)
        [] c = 46 /\ P.p \in {0, 102} -> Ins(IF P.p = 0 THEN "ucomiss" ELSE "ucomisd", 0, <<XM(M), Xmm(M.reg)>>, M.e)
        [] c = 87 /\ P.p \in {0, 102} -> Ins(IF P.p = 0 THEN "xorps" ELSE "xorpd", 0, <<XM(M), Xmm(M.reg)>>, M.e)
        [] c = 90 /\ P.p \in {242, 243} -> Ins(IF P.p = 242 THEN "cvtsd2ss" ELSE "cvtss2sd", 0, <<XM(M), Xmm(M.reg)>>, M.e)
        [] c \in DOMAIN FArith /\ P.p \in {242, 243} -> Ins(FArith[c] \o ss, 0, <<XM(M), Xmm(M.reg)>>, M.e)
        [] c = 110 /\ P.p = 102 -> Ins("movx", IF P.w = 1 THEN 8 ELSE 4, <<RM(M, IF P.w = 1 THEN 8 ELSE 4, P), Xmm(M.reg)>>, M.e)
        [] c = 126 /\ P.p = 102 -> Ins("movx", IF P.w = 1 THEN 8 ELSE 4, <<Xmm(M.reg), RM(M, IF P.w = 1 THEN 8 ELSE 4, P)>>, M.e)
        [] c = 126 /\ P.p = 243 -> Ins("movx", 8, <<XM(M), Xmm(M.reg)>>, M.e)
        [] c = 214 /\ P.p = 102 -> Ins("movx", 8, <<Xmm(M.reg), XM(M)>>, M.e)
        [] OTHER -> Bad(o)

Decode(a) ==
    LET P == Prefix(a)
        o == P.o
        c == Byte(o, 0)
        M == ModRM(o + 1, P)
        s == IF P.w = 1 THEN 8 ELSE IF P.p = 102 THEN 2 ELSE 4
        s1 == IF c % 2 = 0 THEN 1 ELSE s          \* the byte form has an even opcode
        n == IF s1 = 8 THEN 4 ELSE s1             \* immediate bytes
    IN  IF c = 15 THEN Decode2(o + 1, P)
        ELSE IF P.p \in {242, 243} THEN Bad(a)
        ELSE CASE c < 64 /\ c % 8 \in {0, 1} -> Ins(Alu[(c \div 8) + 1], s1, <<Reg(M.reg, s1, P.rex), RM(M, s1, P)>>, M.e)
        [] c < 64 /\ c % 8 \in {2, 3} -> Ins(Alu[(c \div 8) + 1], s1, <<RM(M, s1, P), Reg(M.reg, s1, P.rex)>>, M.e)
        [] c < 64 /\ c % 8 \in {4, 5} -> Ins(Alu[(c \div 8) + 1], s1, <<Imm(o + 1, n), Reg(0, s1, P.rex)>>, o + 1 + n)
        [] c \in 80..87 -> Ins("push", 8, <<Reg(c - 80 + 8 * P.b, 8, P.rex)>>, o + 1)
        [] c \in 88..95 -> Ins("pop", 8, <<Reg(c - 88 + 8 * P.b, 8, P.rex)>>, o + 1)
        [] c = 99 -> Ins("movs4", s, <<RM(M, 4, P), Reg(M.reg, s, P.rex)>>, M.e)
        [] c \in {105, 107} -> LET i == IF c = 107 THEN 1 ELSE IF s = 2 THEN 2 ELSE 4
                               IN  Ins("imul", s, <<Imm(M.e, i), RM(M, s, P), Reg(M.reg, s, P.rex)>>, M.e + i)
        [] c \in 112..127 -> Ins("j" \o CondName[c - 111], 0, <<[k |-> "t", n |-> 1, o |-> o + 1]>>, o + 2)
        [] c \in {128, 129, 131} -> LET i == IF c = 129 THEN n ELSE 1
                                    IN  Ins(Alu[M.ext + 1], s1, <<Imm(M.e, i), RM(M, s1, P)>>, M.e + i)
        [] c \in {132, 133} -> Ins("test", s1, <<Reg(M.reg, s1, P.rex), RM(M, s1, P)>>, M.e)
        [] c \in {136, 137} -> Ins("mov", s1, <<Reg(M.reg, s1, P.rex), RM(M, s1, P)>>, M.e)
        [] c \in {138, 139} -> Ins("mov", s1, <<RM(M, s1, P), Reg(M.reg, s1, P.rex)>>, M.e)
        [] c = 141 -> Ins("lea", s, <<RM(M, s, P), Reg(M.reg, s, P.rex)>>, M.e)
        [] c = 144 -> Ins("nop", 0, <<>>, o + 1)
        [] c = 152 -> Ins(IF s = 8 THEN "cltq" ELSE "cwtl", 0, <<>>, o + 1)
        [] c = 153 -> Ins(IF s = 8 THEN "cqto" ELSE "cltd", 0, <<>>, o + 1)
        [] c \in {168, 169} -> Ins("test", s1, <<Imm(o + 1, n), Reg(0, s1, P.rex)>>, o + 1 + n)
        [] c \in 176..183 -> Ins("mov", 1, <<Imm(o + 1, 1), Reg(c - 176 + 8 * P.b, 1, P.rex)>>, o + 2)
        [] c \in 184..191 -> Ins("mov", s, <<Imm(o + 1, s), Reg(c - 184 + 8 * P.b, s, P.rex)>>, o + 1 + s)
        [] c \in {192, 193} -> Ins(<<"rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar">>[M.ext + 1], s1, <<Imm(M.e, 1), RM(M, s1, P)>>, M.e + 1)
        [] c = 195 -> Ins("ret", 0, <<>>, o + 1)
        [] c \in {198, 199} /\ M.ext = 0 -> Ins("mov", s1, <<Imm(M.e, n), RM(M, s1, P)>>, M.e + n)
        [] c = 201 -> Ins("leave", 0, <<>>, o + 1)
        [] c \in {208, 209} -> Ins(<<"rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar">>[M.ext + 1], s1, <<RM(M, s1, P)>>, M.e)
        [] c \in {210, 211} -> Ins(<<"rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar">>[M.ext + 1], s1, <<Reg(1, 1, FALSE), RM(M, s1, P)>>, M.e)
        [] c = 232 -> Ins("call", 0, <<[k |-> "t", n |-> 4, o |-> o + 1]>>, o + 5)
        [] c = 233 -> Ins("jmp", 0, <<[k |-> "t", n |-> 4, o |-> o + 1]>>, o + 5)
        [] c = 235 -> Ins("jmp", 0, <<[k |-> "t", n |-> 1, o |-> o + 1]>>, o + 2)
        [] c \in {246, 247} -> IF M.ext = 0 THEN Ins("test", s1, <<Imm(M.e, n), RM(M, s1, P)>>, M.e + n)
                               ELSE Ins(<<"?", "?", "not", "neg", "mul", "imul", "div", "idiv">>[M.ext + 1], s1, <<RM(M, s1, P)>>, M.e)
        [] c = 255 -> IF M.ext \in {2, 4} THEN Ins(IF M.ext = 2 THEN "call" ELSE "jmp", 0, <<[k |-> "*", o |-> RM(M, 8, P)]>>, M.e)
                      ELSE Ins(<<"inc", "dec", "?", "?", "?", "?", "push", "?">>[M.ext + 1], IF M.ext = 6 THEN 8 ELSE s, <<RM(M, IF M.ext = 6 THEN 8 ELSE s, P)>>, M.e)
        [] OTHER -> Bad(a)

\* ------------------------------------------------------------------ addresses of the object
\* relocation at offset o of the current section, if any; a target is [s, o] (section and offset) or [x, o] (undefined name and addend)
Rels == Obj.sections[sec].rels
RelAt(o) == IF ToString(o) \in DOMAIN Rels THEN <<Rels[ToString(o)]>> ELSE <<>>

\* does the operand decoded, d, denote the operand printed, t ?  s: operand size
OpOk(t, d, s) ==
    CASE t.k = "r" -> d.k = "r" /\ d.n = t.n /\ d.s = t.s
    [] t.k = "x" -> d.k = "x" /\ d.n = t.n
    [] t.k = "m" -> d.k = "m" /\ d.b = t.b /\ d.i = -1 /\ d.d = t.d
    [] t.k = "i" -> d.k = "i" /\ RelAt(d.o) = <<>> /\ (LET z == IF s = 0 THEN 8 ELSE s IN \A i \in 1..z : d.v[i] = t.v[i])
    [] t.k = "l" -> d.k = "i" /\ RelAt(d.o) # <<>> /\ RelAt(d.o)[1].t \in {"32S", "32", "64"}
    [] t.k = "t" -> d.k = "t"
    [] t.k = "*" -> d.k = "*" /\ d.o.k = "r" /\ d.o.n = t.n
    [] OTHER -> FALSE

SizeOk(t, d) ==      \* size printed, by the suffix or by the registers
    LET c == Canon[t.m][2]
        regs == {i \in DOMAIN t.ops : t.ops[i].k = "r"}
    IN  IF d.s = 0 \/ Canon[t.m][1] \in {"cvttss2si", "cvttsd2si"} THEN TRUE
        ELSE IF c # 0 THEN d.s = c
        ELSE IF Canon[t.m][1] = "movx" THEN \A i \in regs : t.ops[i].s = d.s
        ELSE regs # {} => \E i \in regs : t.ops[i].s = d.s

\* movq with an xmm operand is the 8-byte form of movd
OpName(t) ==
    IF t.m = "movq" /\ \E i \in DOMAIN t.ops : t.ops[i].k = "x" THEN "movx" ELSE Canon[t.m][1]
\* a three-operand multiplication may be printed with two
TextOps(t) == IF OpName(t) = "imul" /\ Len(t.ops) = 2 /\ t.ops[1].k = "i" THEN <<t.ops[1], t.ops[2], t.ops[2]>> ELSE t.ops

InsOk(t, d) ==
    LET ops == TextOps(t)
    IN  /\ t.m \in DOMAIN Canon
        /\ OpName(t) = d.op
        /\ Len(ops) = Len(d.ops)
        /\ SizeOk(t, d)
        /\ \A i \in DOMAIN ops : OpOk(ops[i], d.ops[i], d.s)
        /\ d.e <= Len(Obj.sections[sec].bytes)

\* every relocation lies on an address operand
RelsOk(t, d, a) ==
    \A o \in a..(d.e - 1) : RelAt(o) # <<>> => \E i \in DOMAIN d.ops : d.ops[i].k \in {"i", "t"} /\ d.ops[i].o = o

Target(d, i) ==      \* what operand i of the decoded instruction denotes
    LET x == d.ops[i]
        r == RelAt(x.o)
    IN  IF x.k = "i" THEN [w |-> r[1].w, s |-> r[1].s, o |-> r[1].o]
        ELSE IF r # <<>> THEN [w |-> r[1].w, s |-> r[1].s, o |-> r[1].o + (d.e - x.o)]
        ELSE [w |-> "s", s |-> ".text", o |-> d.e + SInt(Bytes(x.o, x.n))]

NewRefs(t, d) ==
    LET is == {i \in DOMAIN t.ops : t.ops[i].k \in {"l", "t"}}
    IN  IF is = {} THEN <<>> ELSE LET i == CHOOSE i \in is : TRUE IN <<[n |-> t.ops[i].n, a |-> t.ops[i].a, d |-> Target(d, i)]>>

\* ------------------------------------------------------------------ the machine
Init ==
    /\ u \in DOMAIN Traces
    /\ k = 1 /\ sec = ".text" /\ err = ""
    /\ off = [s \in Secs |-> 0] /\ algn = [s \in Secs |-> 1]
    /\ labs = <<>> /\ refs = <<>> /\ glob = {}

Fail(what) == err' = ToString(k) \o ": " \o what

Line == Text[k]
Common == k <= Len(Text) /\ err = "" /\ k' = k + 1 /\ u' = u

SectionL == Common /\ Line.k = "section" /\ sec' = Line.s /\ UNCHANGED <<off, labs, refs, glob, algn, err>>
GlobalL == Common /\ Line.k = "global" /\ glob' = glob \cup {Line.n} /\ UNCHANGED <<sec, off, labs, refs, algn, err>>

Label ==
    /\ Common /\ Line.k = "label"
    /\ IF Line.n \in DOMAIN labs THEN Fail("label " \o Line.n \o " defined twice") ELSE err' = err
    /\ labs' = (Line.n :> <<sec, off[sec]>>) @@ labs
    /\ UNCHANGED <<sec, off, refs, glob, algn>>

Put(bs) ==     \* bytes of data without relocations
    /\ IF Bytes(off[sec], Len(bs)) # bs \/ (\E i \in 0..(Len(bs) - 1) : RelAt(off[sec] + i) # <<>>) THEN Fail("data differs") ELSE err' = err
    /\ off' = [off EXCEPT ![sec] = @ + Len(bs)]
    /\ UNCHANGED <<sec, labs, refs, glob>>

Data == Common /\ Line.k = "data" /\ Put(Line.b) /\ algn' = algn
Zero == Common /\ Line.k = "zero" /\ Put([i \in 1..Line.n |-> 0]) /\ algn' = algn
Align ==
    /\ Common /\ Line.k = "align"
    /\ Put([i \in 1..((Line.n - (off[sec] % Line.n)) % Line.n) |-> 0])
    /\ algn' = [algn EXCEPT ![sec] = IF Line.n > @ THEN Line.n ELSE @]
Address ==     \* .quad label + addend
    /\ Common /\ Line.k = "addr"
    /\ LET r == RelAt(off[sec])
       IN  IF r = <<>> \/ Bytes(off[sec], 8) # [i \in 1..8 |-> 0] \/ (\E i \in 1..7 : RelAt(off[sec] + i) # <<>>)
           THEN Fail("address without relocation") /\ refs' = refs
           ELSE IF r[1].t # "64" THEN Fail("relocation of another kind") /\ refs' = refs
           ELSE err' = err /\ refs' = Append(refs, [n |-> Line.n, a |-> Line.a, d |-> [w |-> r[1].w, s |-> r[1].s, o |-> r[1].o]])
    /\ off' = [off EXCEPT ![sec] = @ + 8]
    /\ UNCHANGED <<sec, labs, glob, algn>>

Instruction ==
    /\ Common /\ Line.k = "ins"
    /\ LET d == Decode(off[sec])
       IN  IF ~InsOk(Line, d) THEN /\ Fail("instruction " \o Line.m \o " is encoded as " \o ToString(d))
                                   /\ UNCHANGED <<off, refs>>
           ELSE IF ~RelsOk(Line, d, off[sec]) THEN Fail("stray relocation") /\ UNCHANGED <<off, refs>>
           ELSE /\ err' = err
                /\ off' = [off EXCEPT ![sec] = d.e]
                /\ refs' = refs \o NewRefs(Line, d)
    /\ UNCHANGED <<sec, labs, glob, algn>>

RefOk(r) ==
    IF r.n \in DOMAIN labs
    THEN r.d.w = "s" /\ r.d.s = labs[r.n][1] /\ r.d.o = labs[r.n][2] + r.a
    ELSE r.d.w = "x" /\ r.d.s = r.n /\ r.d.o = r.a

\* symbols of the object: those it has are where the text puts them, with the binding of the text; names of the program are there
SymOk(n) ==
    LET s == Obj.syms[n]
    IN  IF n \in DOMAIN labs
        THEN s.s = labs[n][1] /\ s.o = labs[n][2] /\ s.g = (n \in glob)
        ELSE s.s = "" /\ s.g /\ \E i \in DOMAIN refs : refs[i].n = n

Finish ==
    /\ k = Len(Text) + 1 /\ err = "" /\ k' = k + 1 /\ UNCHANGED <<u, sec, off, labs, refs, glob, algn>>
    /\ LET badrefs == {i \in DOMAIN refs : ~RefOk(refs[i])}
           badsyms == {n \in DOMAIN Obj.syms : ~SymOk(n)}
       IN  IF badrefs # {} THEN err' = "address of " \o ToString(refs[CHOOSE i \in badrefs : TRUE])
           ELSE IF badsyms # {} THEN err' = "symbol " \o (CHOOSE n \in badsyms : TRUE)
           ELSE IF \E n \in glob : n \notin DOMAIN Obj.syms THEN err' = "missing symbol " \o (CHOOSE n \in glob : n \notin DOMAIN Obj.syms)
           ELSE IF \E s \in Secs : off[s] # Len(Obj.sections[s].bytes) THEN err' = "section sizes " \o ToString(off)
           ELSE IF \E s \in Secs : Obj.sections[s].w # (s = ".data") \/ Obj.sections[s].x # (s = ".text") THEN err' = "section flags"
           ELSE IF \E s \in Secs : Obj.sections[s].align % algn[s] # 0 THEN err' = "section alignment " \o ToString(algn)
           ELSE err' = err

Next == SectionL \/ GlobalL \/ Label \/ Data \/ Zero \/ Align \/ Address \/ Instruction \/ Finish

Spec == Init /\ [][Next]_vars

\* reports the refused traces
Verdict == err # "" => PrintT(ToJson([u |-> u, k |-> k, err |-> err]))
Done == (k = Len(Text) + 2 /\ err = "") => PrintT(ToJson([u |-> u, k |-> k, err |-> ""]))
=============================================================================
