-------------------------------- MODULE BitField --------------------------------
(* Accesses to bit-fields.  The object is a map from bits to 0/1; every access is one transition that reads the bits
   of a member or replaces exactly those bits, and that yields the value the C expression has.                      *)
EXTENDS Bits, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxMem, MaxOps, Types, Widths, Union, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES ph, ms, at, mem, ops, init
vars == <<ph, ms, at, mem, ops, init>>

Size(t) == CASE t \in {"bool", "char", "schar", "uchar"} -> 1 [] t \in {"short", "ushort"} -> 2 [] t \in {"int", "uint"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"char", "schar", "short", "int", "long", "llong"}
Long(t) == Size(t) = 8
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Up(o, a) == ((o + a - 1) \div a) * a

(* ---------------------------------------------------------------- words, bits and conversions *)
BitOf(v, i) == (v[i \div 8 + 1] \div P2(i % 8)) % 2
Trunc(v, w, sg) == IF w = 64 THEN v
                   ELSE LET f == IF sg /\ BitOf(v, w - 1) = 1 THEN 255 ELSE 0
                            q == w \div 8  r == w % 8
                        IN [i \in 1..8 |-> IF i <= q THEN v[i] ELSE IF i = q + 1 /\ r > 0 THEN (v[i] % P2(r)) + (IF f = 255 THEN 256 - P2(r) ELSE 0) ELSE f]
ToField(m, v) == IF m.t = "bool" THEN (IF v = Zero8 THEN Zero8 ELSE One8) ELSE Trunc(v, m.w, Signed(m.t))
Load(m, me) == LET b(i) == IF i < m.w THEN me[m.pos + i] ELSE 0
                   raw == [j \in 1..8 |-> LET k == 8 * (j - 1) IN b(k) + 2 * b(k + 1) + 4 * b(k + 2) + 8 * b(k + 3) + 16 * b(k + 4) + 32 * b(k + 5) + 64 * b(k + 6) + 128 * b(k + 7)]
               IN Trunc(raw, m.w, Signed(m.t))
Store(m, me, v) == [p \in DOMAIN me |-> IF p >= m.pos /\ p < m.pos + m.w THEN BitOf(v, p - m.pos) ELSE me[p]]
(* the type the member has after promotion; members of long types keep theirs here, where no case depends on it *)
Promoted(m) == IF Long(m.t) THEN m.t ELSE IF m.t = "uint" /\ m.w = 32 THEN "uint" ELSE "int"
Conv(t, v) == Trunc(v, 8 * Size(t), Signed(t))
Fits(t, v) == Conv(t, v) = v

(* ---------------------------------------------------------------- building *)
Place(t, w) == LET b == 8 * Size(t) IN IF w = 0 \/ at \div b # (at + w - 1) \div b THEN Up(at, b) ELSE at
AddField == /\ ph = "type" /\ Len(ms) < MaxMem
            /\ \E t \in Pick(Types), w0 \in Pick(Widths), nm \in Pick(1..7), bf0 \in Pick(1..5) :
                 LET bf == IF t = "bool" THEN 2 ELSE bf0      \* a _Bool of eight bits could hold other values
                     w == IF bf = 1 THEN 8 * Size(t) ELSE Min2(w0, IF t = "bool" THEN 1 ELSE 8 * Size(t))
                     named == w > 0 /\ (nm # 1 \/ bf = 1)
                     p == IF bf = 1 THEN Up(at, 8 * Size(t)) ELSE Place(t, w)
                 IN /\ p + w <= 256
                    /\ ms' = Append(ms, [t |-> t, w |-> w, named |-> named, bf |-> bf # 1, pos |-> p])
                    /\ at' = (IF Union THEN 0 ELSE p + w)
            /\ UNCHANGED <<ph, mem, ops, init>>
Named == {i \in DOMAIN ms : ms[i].named}
AlignOf == FoldLeft(LAMBDA a, m : IF m.named THEN Max2(a, Size(m.t)) ELSE a, 1, ms)
EndOf == FoldLeft(LAMBDA a, m : Max2(a, m.pos + m.w), 0, ms)
SizeOf == Up((EndOf + 7) \div 8, AlignOf)
(* values: bytes picked at random, or near the limits of the member *)
WithWord(P(_)) == \E k \in Pick({"small", "neg", "rnd", "rnd32", "edge"}), a \in Pick(0..255), b \in Pick(0..255), c \in Pick(0..255), w \in Pick(1..63) :
   CASE k = "small" -> P(W(a))
     [] k = "neg" -> P(W(0 - a))
     [] k = "rnd32" -> P(Trunc(<<a, b, c, (a + b) % 256, 0, 0, 0, 0>>, 32, a % 2 = 1))
     [] k = "edge" -> P(IF a % 2 = 0 THEN Shl8(One8, w) ELSE Sub8(Shl8(One8, w), One8))
     [] OTHER -> P(<<a, b, c, (a + 7 * b) % 256, (b + 3 * c) % 256, (a + b) % 256, (c + 5 * a) % 256, (a + b + c) % 256>>)
(* how the object starts: filled with ones or zeroes, or initialized member by member *)
Begin == /\ ph = "type" /\ Named # {} /\ (Len(ms) = MaxMem \/ \E g \in Pick(1..6) : g = 1)
         /\ \E k \in Pick({"zero", "ones", "static", "auto"}) :
              /\ mem' = [p \in 0..8 * SizeOf - 1 |-> IF k = "ones" THEN 1 ELSE 0]
              /\ init' = [k |-> k, vs |-> <<>>]
         /\ ph' = "init" /\ UNCHANGED <<ms, at, ops>>
(* initializers go to the named members in order, in a union to the first only *)
Todo == SelectSeq([i \in DOMAIN ms |-> i], LAMBDA i : ms[i].named)
InitOne == /\ ph = "init" /\ init.k \in {"static", "auto"} /\ Len(init.vs) < (IF Union THEN 1 ELSE Len(Todo))
           /\ WithWord(LAMBDA v : /\ init' = [init EXCEPT !.vs = Append(@, v)]
                                  /\ LET m == ms[Todo[Len(init.vs) + 1]] IN mem' = Store(m, mem, ToField(m, v)))
           /\ UNCHANGED <<ph, ms, at, ops>>
Ready == /\ ph = "init" /\ (init.k \in {"zero", "ones"} \/ Len(init.vs) = (IF Union THEN 1 ELSE Len(Todo)) \/ \E g \in Pick(1..5) : g = 1 /\ init.vs # <<>>)
         /\ ph' = "run" /\ UNCHANGED <<ms, at, mem, ops, init>>

(* ---------------------------------------------------------------- accesses *)
Log(r) == ops' = Append(ops, r)
Keep == UNCHANGED <<ph, ms, at, init>>
Set(i, v, r) == LET n == ToField(ms[i], v) IN mem' = Store(ms[i], mem, n) /\ Log(r @@ [v |-> n])
Assign == /\ \E i \in Pick(Named) : WithWord(LAMBDA v : Set(i, v, [k |-> "=", i |-> i, a |-> v]))
(* x.f = x.g = v *)
Chain == /\ \E i \in Pick(Named), j \in Pick(Named) :
              WithWord(LAMBDA v : LET n == ToField(ms[j], v)
                                      n2 == ToField(ms[i], n)
                                  IN mem' = Store(ms[i], Store(ms[j], mem, n), n2) /\ Log([k |-> "chain", i |-> i, j |-> j, a |-> v, v |-> n2]))
Copy == /\ \E i \in Pick(Named), j \in Pick(Named) : LET v == Load(ms[j], mem) IN Set(i, v, [k |-> "copy", i |-> i, j |-> j])
Operand(P(_)) == \E a \in Pick(0..120), s \in Pick(1..3) : P(W(IF s = 1 THEN 0 - a ELSE a))
(* the arithmetic is done in the promoted type; undefined cases are left out *)
Calc(op, t, x, y) ==
  LET r == CASE op = "+=" -> Add8(x, y) [] op = "-=" -> Sub8(x, y) [] op = "*=" -> Mul8(x, y)
             [] op = "&=" -> And8(x, y) [] op = "|=" -> Or8(x, y) [] op = "^=" -> Xor8(x, y)
             [] op = "<<=" -> Shl8(x, y[1] % 64) [] op = ">>=" -> Shr8(x, y[1] % 64, IF Signed(t) /\ IsNeg(x) THEN 255 ELSE 0)
             [] op = "/=" -> IF y = Zero8 THEN y ELSE IF Signed(t) THEN DivS(x, y)[1] ELSE DivU(x, y)[1]
             [] op = "%=" -> IF y = Zero8 THEN y ELSE IF Signed(t) THEN DivS(x, y)[2] ELSE DivU(x, y)[2]
      far(z) == Trunc(z, 56, TRUE) = z
      ok == CASE op \in {"/=", "%="} -> y # Zero8 /\ (Signed(t) => (Fits(t, r) /\ ~(y = Ones8 /\ x = Neg8(x)))) /\ (t \in {"ulong", "ullong"} => ~IsNeg(y))
              [] op = "<<=" -> ~IsNeg(y) /\ y[1] < 8 * Size(t) /\ (Signed(t) => (~IsNeg(x) /\ Shr8(r, y[1] % 64, 0) = x /\ ~IsNeg(r) /\ Fits(t, r)))
              [] op = ">>=" -> ~IsNeg(y) /\ y[1] < 8 * Size(t)
              [] op \in {"+=", "-="} -> Signed(t) => Fits(t, r) /\ (Size(t) = 8 => far(x))
              [] op = "*=" -> Signed(t) => Fits(t, r) /\ (Size(t) = 8 => Trunc(x, 48, TRUE) = x)
              [] OTHER -> TRUE
  IN <<ok, Conv(t, r)>>
Compound == \E i \in Pick(Named), op \in Pick({"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}) :
   Operand(LAMBDA y0 : LET m == ms[i]
                           t == Promoted(m)
                           y == IF op \in {"<<=", ">>="} THEN W(y0[1] % Min2(m.w, 8 * Size(t))) ELSE Conv(t, y0)
                           c == Calc(op, t, Load(m, mem), y)
                       IN c[1] /\ Set(i, c[2], [k |-> op, i |-> i, a |-> IF op \in {"<<=", ">>="} THEN y ELSE y0]))
Step == \E i \in Pick(Named), op \in Pick({"++p", "--p", "p++", "p--"}) :
   LET m == ms[i]
       old == Load(m, mem)
       c == Calc(IF op \in {"++p", "p++"} THEN "+=" ELSE "-=", Promoted(m), old, One8)
       n == ToField(m, c[2])
   IN c[1] /\ mem' = Store(m, mem, n) /\ Log([k |-> op, i |-> i, v |-> IF op \in {"++p", "--p"} THEN n ELSE old])
(* uses of the value; those that show the promotion only for members it is certain for *)
Read == \E i \in Pick(Named), u \in Pick({"val", "not", "cond", "neg", "cmp", "compl", "less", "shift", "switch", "logic"}), kk \in Pick(0..40) :
   LET m == ms[i]
       x == Load(m, mem)
       t == Promoted(m)
       narrow == ~Long(m.t)
       use == IF narrow \/ u \in {"val", "not", "cond", "logic"} THEN u ELSE "val"
       b(z) == IF z THEN One8 ELSE Zero8
       r == CASE use = "val" -> x [] use \in {"cond", "logic"} -> b(x # Zero8) [] use = "not" -> b(x = Zero8)
              [] use = "neg" -> Conv(t, Neg8(x)) [] use = "compl" -> Conv(t, Not8(x))
              [] use = "cmp" -> b(IF t = "uint" THEN FALSE ELSE IsNeg(Sub8(x, W(kk))))          \* x - kk < 0
              [] use = "less" -> b(IF t = "uint" THEN FALSE ELSE ~IsNeg(x))                     \* -1 < x
              [] use = "shift" -> Conv(t, Shr8(x, kk % 31, IF IsNeg(x) THEN 255 ELSE 0))
              [] use = "switch" -> b(x = W(kk))
   IN /\ (use = "neg" => x # W(-2147483647 - 1))
      /\ (use = "cmp" => Fits(t, Sub8(x, W(kk))) \/ t = "uint")
      /\ mem' = mem /\ Log([k |-> use, i |-> i, n |-> kk, v |-> r])
Move == mem' = mem /\ Log([k |-> "move", i |-> 0, v |-> Zero8])
Do == /\ ph = "run" /\ Len(ops) < MaxOps /\ Keep
      /\ \E a \in Pick({"=", "=", "chain", "copy", "op", "op2", "op3", "step", "step2", "read", "read2", "move"}) :
           CASE a = "=" -> Assign [] a = "chain" -> Chain [] a = "copy" -> Copy [] a \in {"op", "op2", "op3"} -> Compound
             [] a \in {"step", "step2"} -> Step [] a = "move" -> Move [] OTHER -> Read
Stop == ph = "run" /\ ops # <<>> /\ (Len(ops) = MaxOps \/ \E g \in Pick(1..30) : g = 1) /\ ph' = "emit" /\ UNCHANGED <<ms, at, mem, ops, init>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<ms, at, mem, ops, init>>
Init == ph = "type" /\ ms = <<>> /\ at = 0 /\ mem = <<>> /\ ops = <<>> /\ init = <<>>
Next == AddField \/ Begin \/ InitOne \/ Ready \/ Do \/ Stop \/ Done
Spec == Init /\ [][Next]_vars

(* writing a member changes only its own bits *)
Frame == [][ph = "run" /\ ops' # ops =>
            LET r == ops'[Len(ops')]
                touched == IF r.i = 0 THEN {} ELSE {r.i} \cup (IF r.k = "chain" THEN {r.j} ELSE {})
            IN \A p \in DOMAIN mem : mem'[p] # mem[p] => \E i \in touched : p >= ms[i].pos /\ p < ms[i].pos + ms[i].w]_vars
Loads == ph = "emit" => \A i \in Named : ToField(ms[i], Load(ms[i], mem)) = Load(ms[i], mem)
Bytes == [j \in 1..SizeOf |-> LET k == 8 * (j - 1) IN mem[k] + 2 * mem[k + 1] + 4 * mem[k + 2] + 8 * mem[k + 3] + 16 * mem[k + 4] + 32 * mem[k + 5] + 64 * mem[k + 6] + 128 * mem[k + 7]]
Hexed == [i \in DOMAIN ops |-> [ops[i] EXCEPT !.v = Hex8(@)] @@ (IF "a" \in DOMAIN ops[i] THEN [ah |-> Hex8(ops[i].a)] ELSE <<>>)]
Emit == ph = "emit" => PrintT(ToJson([ms |-> ms, ops |-> Hexed, init |-> [k |-> init.k, vs |-> [i \in DOMAIN init.vs |-> Hex8(init.vs[i])]], bytes |-> Bytes,
                                      vals |-> [i \in DOMAIN ms |-> IF ms[i].named THEN Hex8(Load(ms[i], mem)) ELSE ""], size |-> SizeOf, u |-> Union]))
=============================================================================
