------------------------------- MODULE CFlow -------------------------------
(* Control flow of C functions.  The Build phase writes a function body as a flat, well-bracketed
   list of tokens (constructs carry an identity that their else/case/break/end tokens repeat).
   The Run phase is the C abstract machine on that list: the whole control state is the program
   counter, so jumps into nested constructs (case labels, goto) need no special treatment.
   Observations: calls t(k), reads in(), the value returned.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS MaxTok,      \* tokens per body before only closing is possible
          MinTok,      \* tokens before the body may be finished
          MaxDepth,    \* nesting depth
          NRuns,       \* runs per program
          Cap,         \* observations per run after which the run is cut off
          Kinds,       \* token kinds in use
          Conds,       \* kinds of controlling expression in use
          Sets,        \* kinds of assignment in use
          Labels,      \* label names
          Ks,          \* small constants used in tokens
          SwKinds,     \* kinds of switch expression
          CaseKs,      \* case constants
          Pick(_)      \* PickAll: exhaustive; PickOne: seeded random choice

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES ph, code, open, nid, pc, env, ins, tr, runs
vars == <<ph, code, open, nid, pc, env, ins, tr, runs>>

----------------------------------------------------------------------------
(* Build *)
Loops == {"while", "do", "for"}
InLoop == \E i \in DOMAIN open : open[i].k \in Loops
InSwitch == \E i \in DOMAIN open : open[i].k = "switch"
InnerLoop == open[CHOOSE i \in DOMAIN open : open[i].k \in Loops /\ \A j \in DOMAIN open : open[j].k \in Loops => j <= i].id
Inner(S) == open[CHOOSE i \in DOMAIN open : open[i].k \in S /\ \A j \in DOMAIN open : open[j].k \in S => j <= i].id
Top == open[Len(open)]
Has(op, id) == \E i \in DOMAIN code : code[i].op = op /\ code[i].id = id
CaseVals(id) == {code[i].k : i \in {j \in DOMAIN code : code[j].op = "case" /\ code[j].id = id}}
LabelDefined(l) == \E i \in DOMAIN code : code[i].op = "label" /\ code[i].k = l
LabelUsed(l) == \E i \in DOMAIN code : code[i].op = "goto" /\ code[i].k = l

T(op, id, k) == [op |-> op, id |-> id, k |-> k]
NoC == [f |-> "none", k |-> 0]

Full == Len(code) >= MaxTok
CanOpen == ~Full /\ Len(open) < MaxDepth
Avail == {kd \in Kinds :
            CASE kd \in {"ev", "evv", "set", "ret"} -> ~Full
              [] kd \in {"if", "while", "do", "for", "switch", "block"} -> CanOpen
              [] kd = "else" -> ~Full /\ open # <<>> /\ Top.k = "if" /\ ~Has("else", Top.id)
              [] kd = "case" -> ~Full /\ InSwitch /\ CaseKs \ CaseVals(Inner({"switch"})) # {}
              [] kd = "default" -> ~Full /\ InSwitch /\ ~Has("default", Inner({"switch"}))
              [] kd = "break" -> ~Full /\ (InLoop \/ InSwitch)
              [] kd = "continue" -> ~Full /\ InLoop
              [] kd = "goto" -> ~Full
              [] kd = "label" -> ~Full /\ \E l \in Labels : ~LabelDefined(l)
              [] kd = "close" -> open # <<>>
              [] kd = "finish" -> open = <<>> /\ Len(code) >= MinTok
              [] OTHER -> FALSE}

Emit1(t) == code' = Append(code, t) /\ UNCHANGED <<open, nid>>
PickCond(ok(_)) == \E f \in Pick(Conds), k \in Pick(Ks) : ok([f |-> f, k |-> k])
NextId == nid + 1

Opened(kd, toks) == /\ code' = code \o toks
                    /\ open' = Append(open, [k |-> kd, id |-> NextId])
                    /\ nid' = NextId

(* every loop body and every label starts with an observation, so every cycle is observable *)
BuildTok(kd) ==
  CASE kd = "ev" -> \E k \in Pick(Ks) : Emit1(T("ev", 0, k))
    [] kd = "evv" -> \E v \in Pick({"x", "y", "z", "w"}) : Emit1(T("evv", 0, v))
    [] kd = "set" -> \E s \in Pick(Sets), k \in Pick(Ks) : Emit1(T("set", 0, <<s, k>>))
    [] kd = "ret" -> \E v \in Pick({"x", "y", "z", "w"}) : Emit1(T("ret", 0, v))
    [] kd = "if" -> PickCond(LAMBDA c : Opened("if", <<T("if", NextId, c)>>))
    [] kd = "block" -> Opened("block", <<T("block", NextId, 0)>>)
    [] kd = "while" -> PickCond(LAMBDA c : Opened("while", <<T("while", NextId, c), T("ev", 0, 10 + NextId)>>))
    [] kd = "do" -> PickCond(LAMBDA c : Opened("do", <<T("do", NextId, c), T("ev", 0, 10 + NextId)>>))
    [] kd = "for" -> \E s \in Pick(Sets), k \in Pick(Ks), s2 \in Pick(Sets), k2 \in Pick(Ks), nc \in Pick({0, 0, 1}) :
                       PickCond(LAMBDA c : Opened("for",
                         <<T("forinit", NextId, <<s, k>>),
                           T("for", NextId, [c |-> IF nc = 1 THEN NoC ELSE c, adv |-> <<s2, k2>>]),
                           T("ev", 0, 10 + NextId)>>))
    [] kd = "switch" -> \E f \in Pick(SwKinds) :
                          Opened("switch", <<T("switch", NextId, f)>>)
    [] kd = "else" -> Emit1(T("else", Top.id, 0))
    [] kd = "case" -> LET id == Inner({"switch"}) IN
                      \E k \in Pick(CaseKs \ CaseVals(id)) : Emit1(T("case", id, k))
    [] kd = "default" -> Emit1(T("default", Inner({"switch"}), 0))
    [] kd = "break" -> Emit1(T("break", Inner(Loops \cup {"switch"}), 0))
    [] kd = "continue" -> Emit1(T("continue", InnerLoop, 0))
    [] kd = "goto" -> \E l \in Pick(Labels) : Emit1(T("goto", 0, l))
    [] kd = "label" -> \E l \in Pick({m \in Labels : ~LabelDefined(m)}) :
                          /\ code' = code \o <<T("label", 0, l), T("ev", 0, 30)>>
                          /\ UNCHANGED <<open, nid>>
    [] kd = "close" -> /\ code' = Append(code, T("end", Top.id, Top.k))
                       /\ open' = SubSeq(open, 1, Len(open) - 1)
                       /\ UNCHANGED nid

Missing == {l \in Labels : LabelUsed(l) /\ ~LabelDefined(l)}
Env0(r) == [x |-> 3 * r + 1, y |-> (5 * r + 2) % 7, z |-> 5, w |-> 9]

Build == /\ ph = "build"
         /\ \E kd \in Pick(Avail) :
              IF kd = "finish"
              THEN /\ ph' = "run"
                   /\ code' = code \o FoldSet(LAMBDA l, acc : acc \o <<T("label", 0, l), T("ev", 0, 31)>>, <<>>, Missing)
                                   \o <<T("ret", 0, "x")>>
                   /\ pc' = 1 /\ env' = Env0(0)
                   /\ UNCHANGED <<open, nid, ins, tr, runs>>
              ELSE BuildTok(kd) /\ UNCHANGED <<ph, pc, env, ins, tr, runs>>

----------------------------------------------------------------------------
(* Run: the abstract machine *)
PosOf(op, id) == CHOOSE i \in DOMAIN code : code[i].op = op /\ code[i].id = id
EndOf(id) == PosOf("end", id)
LabelPos(l) == CHOOSE i \in DOMAIN code : code[i].op = "label" /\ code[i].k = l
M(v) == v % 64

Assign(s, k, e) ==
  CASE s = "x3k" -> [e EXCEPT !.x = M(e.x * 3 + k)]
    [] s = "xy" -> [e EXCEPT !.x = e.y]
    [] s = "yxz" -> [e EXCEPT !.y = M(e.x + e.z)]
    [] s = "pz" -> [e EXCEPT !.z = M(e.x + k)]
    [] s = "zw" -> [e EXCEPT !.z = M(e.z + e.w + 1)]
    [] s = "wx" -> [e EXCEPT !.w = M(e.w + e.x)]
    [] s = "xwy" -> [e EXCEPT !.x = M(e.w * 2 + e.y)]
    [] s = "swap" -> [e EXCEPT !.x = e.y, !.y = e.x]
    [] s = "rot" -> [e EXCEPT !.x = e.y, !.y = e.w, !.w = e.x]
    [] s = "lost" -> [e EXCEPT !.y = e.x, !.x = M(e.x + 1)]
    [] s = "wk" -> [e EXCEPT !.w = k]

(* value of a controlling expression: v result, n inputs consumed, o observations, e environment after *)
R(v, n, o, e) == [v |-> v, n |-> n, o |-> o, e |-> e]
B(p) == IF p THEN 1 ELSE 0
Thr(k) == 8 * k + 3
Cond(c, b1, b2, e) ==
  CASE c.f = "none" -> R(1, 0, <<>>, e)
    [] c.f \in {"in", "inlong", "indbl", "inflt", "inptr", "inbool", "inchar", "inull"} -> R(b1, 1, <<"i">>, e)
    [] c.f = "not" -> R(1 - b1, 1, <<"i">>, e)
    [] c.f = "xlt" -> R(B(e.x < Thr(c.k)), 0, <<>>, e)
    [] c.f = "xodd" -> R(e.x % 2, 0, <<>>, e)
    [] c.f = "xy" -> R(B(e.x < e.y), 0, <<>>, e)
    [] c.f = "zne" -> R(B(e.z # c.k), 0, <<>>, e)
    [] c.f = "and" -> IF b1 = 1 THEN R(b2, 2, <<"i", "i">>, e) ELSE R(0, 1, <<"i">>, e)
    [] c.f = "or" -> IF b1 = 1 THEN R(1, 1, <<"i">>, e) ELSE R(b2, 2, <<"i", "i">>, e)
    [] c.f = "andx" -> IF e.x < Thr(c.k) THEN R(b1, 1, <<"i">>, e) ELSE R(0, 0, <<>>, e)
    [] c.f = "orx" -> IF e.y % 2 = 1 THEN R(1, 0, <<>>, e) ELSE R(1 - b1, 1, <<"i">>, e)
    [] c.f = "tern" -> IF b1 = 1 THEN R(B(e.x < Thr(c.k)), 1, <<"i">>, e) ELSE R(e.y % 2, 1, <<"i">>, e)
    [] c.f = "comma" -> R(b1, 1, <<ToString(40 + c.k), "i">>, e)
    [] c.f = "asg" -> LET nx == M(e.x + 1 + c.k) IN R(B(nx % 4 # 0), 0, <<>>, [e EXCEPT !.x = nx])
    [] c.f = "dec" -> R(B(e.w # 0), 0, <<>>, [e EXCEPT !.w = (e.w + 63) % 64])
    [] c.f = "zero" -> R(0, 0, <<>>, e)
    [] c.f = "one" -> R(1, 0, <<>>, e)

SwitchVal(f, b1, b2, e) ==
  IF f = "x3" THEN R(e.x % 5, 0, <<>>, e) ELSE R(2 * b1 + b2, 2, <<"i", "i">>, e)

RunDone(ret) == \* end of one run; start the next or stop
  LET rec == [x0 |-> Env0(Len(runs)).x, y0 |-> Env0(Len(runs)).y, ins |-> ins', tr |-> tr', ret |-> ret] IN
  /\ runs' = Append(runs, rec)
  /\ ph' = IF Len(runs) + 1 = NRuns THEN "emit" ELSE "next"

(* take the observations o and inputs i of one step, then go to p with environment e *)
Go(o, i, e, p) ==
  /\ tr' = SubSeq(tr \o o, 1, IF Len(tr) + Len(o) > Cap THEN Cap ELSE Len(tr) + Len(o))
  /\ ins' = ins \o i
  /\ env' = e
  /\ pc' = p
  /\ IF Len(tr) + Len(o) >= Cap THEN RunDone("cut") ELSE UNCHANGED <<ph, runs>>

StepCond(r, b1, b2, pt, pf) == Go(r.o, SubSeq(<<b1, b2>>, 1, r.n), r.e, IF r.v # 0 THEN pt ELSE pf)

Exec(t) ==
  CASE t.op = "ev" -> Go(<<ToString(t.k)>>, <<>>, env, pc + 1)
    [] t.op = "evv" -> Go(<<ToString(env[t.k])>>, <<>>, env, pc + 1)
    [] t.op \in {"set", "forinit"} -> Go(<<>>, <<>>, Assign(t.k[1], t.k[2], env), pc + 1)
    [] t.op \in {"label", "case", "default", "do", "block"} -> Go(<<>>, <<>>, env, pc + 1)
    [] t.op = "if" -> \E b1 \in Pick({0, 1}), b2 \in Pick({0, 1}) :
                        StepCond(Cond(t.k, b1, b2, env), b1, b2, pc + 1,
                                 (IF Has("else", t.id) THEN PosOf("else", t.id) ELSE EndOf(t.id)) + 1)
    [] t.op = "else" -> Go(<<>>, <<>>, env, EndOf(t.id) + 1)
    [] t.op = "while" -> \E b1 \in Pick({0, 1}), b2 \in Pick({0, 1}) :
                        StepCond(Cond(t.k, b1, b2, env), b1, b2, pc + 1, EndOf(t.id) + 1)
    [] t.op = "for" -> \E b1 \in Pick({0, 1}), b2 \in Pick({0, 1}) :
                        StepCond(Cond(t.k.c, b1, b2, env), b1, b2, pc + 1, EndOf(t.id) + 1)
    [] t.op = "end" ->
         (CASE t.k = "while" -> Go(<<>>, <<>>, env, PosOf("while", t.id))
            [] t.k = "for" -> LET f == PosOf("for", t.id) IN
                              Go(<<>>, <<>>, Assign(code[f].k.adv[1], code[f].k.adv[2], env), f)
            [] t.k = "do" -> \E b1 \in Pick({0, 1}), b2 \in Pick({0, 1}) :
                             LET d == PosOf("do", t.id) IN
                             StepCond(Cond(code[d].k, b1, b2, env), b1, b2, d + 1, pc + 1)
            [] OTHER -> Go(<<>>, <<>>, env, pc + 1))
    [] t.op = "switch" -> \E b1 \in Pick({0, 1}), b2 \in Pick({0, 1}) :
         LET r == SwitchVal(t.k, b1, b2, env)
             hit == {i \in DOMAIN code : code[i].op = "case" /\ code[i].id = t.id /\ code[i].k = r.v}
             p == IF hit # {} THEN CHOOSE i \in hit : TRUE
                  ELSE IF Has("default", t.id) THEN PosOf("default", t.id) ELSE EndOf(t.id)
         IN Go(r.o, SubSeq(<<b1, b2>>, 1, r.n), r.e, p + 1)
    [] t.op = "break" -> Go(<<>>, <<>>, env, EndOf(t.id) + 1)
    [] t.op = "continue" -> Go(<<>>, <<>>, env, EndOf(t.id))
    [] t.op = "goto" -> Go(<<>>, <<>>, env, LabelPos(t.k))

Run == /\ ph = "run"
       /\ IF code[pc].op = "ret"
          THEN UNCHANGED <<ins, tr, pc, env>> /\ RunDone(ToString(env[code[pc].k]))
          ELSE Exec(code[pc])
       /\ UNCHANGED <<code, open, nid>>

NextRun == /\ ph = "next"
           /\ ph' = "run" /\ pc' = 1 /\ env' = Env0(Len(runs)) /\ ins' = <<>> /\ tr' = <<>>
           /\ UNCHANGED <<code, open, nid, runs>>

Finish == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<code, open, nid, pc, env, ins, tr, runs>>

Init == /\ ph = "build" /\ code = <<>> /\ open = <<>> /\ nid = 0 /\ pc = 0
        /\ env = Env0(0) /\ ins = <<>> /\ tr = <<>> /\ runs = <<>>
Next == Build \/ Run \/ NextRun \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Design-level properties *)
TypeOK == /\ ph \in {"build", "run", "next", "emit", "done"}
          /\ ph = "run" => pc \in 1..Len(code)
          /\ Len(tr) <= Cap
          /\ \A v \in {"x", "y", "z", "w"} : env[v] \in 0..63
(* every construct is closed exactly once, after everything that refers to it *)
Bracketed == ph # "build" =>
   \A i \in DOMAIN code : code[i].id # 0 =>
      /\ Cardinality({j \in DOMAIN code : code[j].op = "end" /\ code[j].id = code[i].id}) = 1
      /\ i <= EndOf(code[i].id)
(* an else part is never entered by falling out of the then part, and a run never leaves the body *)
JumpsInside == [][(ph = "run" /\ ph' = "run") => pc' \in 1..Len(code)]_vars
ElseSkipped == [][(ph = "run" /\ ph' = "run" /\ code[pc].op = "else") => pc' = EndOf(code[pc].id) + 1]_vars

Emit == ph = "done" => PrintT(ToJson([code |-> code, runs |-> runs]))
=============================================================================
