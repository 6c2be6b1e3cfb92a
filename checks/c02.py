"""C02 integer expressions: evaluations of spec/IntExpr.tla replayed in compiled functions."""
import random
TYPES = '{"bool","char","schar","uchar","short","ushort","int","uint","long","ulong","llong","ullong"}'
BIN = '"+","-","*","/","%","&","|","^","<<",">>","<",">","<=",">=","==","!="'
ASG = '"=","+=","-=","*=","/=","%=","&=","|=","^=","<<=",">>="'
UN = '"neg","pos","~","!","cast","++x","--x","x++","x--"'
FORMS = '{"g","l","c","q","m","s","pm","a","pa","reg","lit"}'
INV = "INVARIANT Canonical\nINVARIANT OneWrite\nINVARIANT Promoted\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"


def cfg(minops, maxops, leaves, ops, forms, ctxs, pick, vals, types=TYPES):
    return ("CONSTANTS\nMinOps = %d\nMaxOps = %d\nMaxLeaves = %d\nTypes = %s\nOps = %s\nForms = %s\nCtxs = %s\nPick <- %s\nValSel = \"%s\"\n"
            % (minops, maxops, leaves, types, ops, forms, ctxs, pick, vals)) + INV


def lit(v, t):
    u = int(v, 16)
    return "(%s)0x%xUL" % (t, u)


def item(o, rng):
    objs = o["objs"]
    glob, loc, params, args, members, finals = [], [], [], [], [], []
    e = o["s"]
    for i, b in enumerate(objs, 1):
        st, t, v = b["st"], b["t"], b["v"]
        if st == "none":
            continue
        n = {"g": "g@_%d", "l": "l%d", "c": "l%d", "q": "*q%d", "m": "sm.f%d", "pm": "pm->f%d", "s": "z%d", "a": "l%d[1]", "pa": "l%d", "reg": "l%d"}[st] % i
        val = lit(v, t)
        if st == "g":
            glob.append("static %s g@_%d;" % (t, i))
            loc.append("g@_%d = %s;" % (i, val))
        elif st == "l":
            loc.append("%s l%d; l%d = %s;" % (t, i, i, val))
        elif st == "c":
            loc.append("const %s l%d = %s;" % (t, i, val))
        elif st == "q":
            loc.append("%s w%d[3] = {0, %s}, *q%d = w%d + 1;" % (t, i, val, i, i))
        elif st in ("m", "pm"):
            members.append((t, i, val))
        elif st == "s":
            loc.append("static %s z%d; z%d = %s;" % (t, i, i, val))
        elif st == "a":
            loc.append("%s l%d[2]; l%d[1] = %s;" % (t, i, i, val))
        elif st == "pa":
            params.append("%s l%d" % (t, i))
            args.append(val)
        elif st == "reg":
            loc.append("register %s l%d = %s;" % (t, i, val))
        finals.append((n, b["fin"]))
    if members:
        loc.insert(0, "struct S@ sm, *pm = &sm;" if True else "")
        glob.append("struct S@ { char pad; %s };" % " ".join("%s f%d;" % (t, i) for t, i, _ in members))
        loc += ["sm.f%d = %s;" % (i, v) for _, i, v in members]
    cx = o["cx"]
    code = ""
    exp = []
    par = ", ".join(params) or "void"
    if cx == "rx":
        use = "rx_((unsigned long)(%s));" % e
        exp.append(o["v"])
    elif cx == "store":
        use = "%s d_; d_ = %s; rx_((unsigned long)d_);" % (o["t2"], "(" + e + ")" if "," in e else e)
        exp.append(o["v2"])
    elif cx == "init":
        use = "%s d_ = (%s); rx_((unsigned long)d_);" % (o["t2"], e)
        exp.append(o["v2"])
    elif cx == "cond":
        use = rng.choice(["if (%s) rx_(1); else rx_(0);", "rx_((%s) ? 1 : 0);", "rx_(!!(%s));", "rx_((%s) && 1);"]) % e
        exp.append("1" if o["truth"] else "0")
    elif cx == "ret":
        use = "return %s;" % e
        exp.append(o["v2"])
    szof = rng.random() < 0.5
    rest = ""
    if szof:
        rest += " rx_(sizeof(%s));" % e
        exp.append("%x" % o["sz"])
    if cx == "ret":
        rt = o["t2"]
        code = "\n".join(glob) + "\nstatic %s f@(%s) { %s %s }\nvoid t@(void) { rx_((unsigned long)f@(%s)); }\n" % (rt, par, " ".join(loc), use, ", ".join(args))
        exp = exp[:1]
    else:
        for n, f in finals:
            rest += " rx_((unsigned long)%s);" % n
            exp.append(f)
        code = "\n".join(glob) + "\nstatic void f@(%s) { %s %s%s }\nvoid t@(void) { f@(%s); }\n" % (par, " ".join(loc), use, rest, ", ".join(args))
    return dict(code=code, expect=" ".join(exp), desc="%s expression %s" % (o["tn"], e))


CTX = '{"rx","store","init","cond","ret"}'


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    q = c.quick
    objs = []
    # exhaustive: every operator on every pair of operand types
    ex = []
    ex += c.tlc("IntExpr", cfg(1, 1, 2, "{%s,%s}" % (BIN, ASG), '{"pa"}', '{"rx"}', "PickAll", "few",
                '{"schar","ushort","bool","int","uint","long","ulong"}' if q else TYPES), workers=8, timeout=1500)
    ex += c.tlc("IntExpr", cfg(1, 1, 1, "{%s}" % UN, '{"pa"}', '{"rx"}', "PickAll", "all"), workers=8)
    c.stats["exhaustive_expressions"] = len(ex)
    ex.sort(key=lambda o: repr(o))
    items = [item(o, rng) for o in ex]
    c.replay(items, "", batch=1500)
    sim = c.tlc("IntExpr", cfg(2, 7, 7, "{%s,%s,%s,\"sizeof\",\"&&\",\"||\",\",\",\"?:\"}" % (BIN, ASG, UN), FORMS, CTX, "PickOne", "rand"),
                mode="sim", num=16000 if q else 120000, depth=40, seed_salt=2)
    c.stats["random_expressions"] = len(sim)
    items = [item(o, rng) for o in sim]
    c.replay(items, "", batch=400)
    if items:
        c.sample({"source": items[0]["code"], "expected": items[0]["expect"]})
