"""C15 conditional inclusion: expressions of PPExpr.tla and directive sequences of CondIncl.tla."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import vf

PRE = """#define ONE 1
#define BIG 0xffffffff
#define UNS 5u
#define EMPTY
#define NEG (-4)
#define ID(x) x
#define SELF SELF
#define FUNC(x) 1
"""
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "?:", "u-", "u+", "~", "!", "()"]


def st(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def xcfg(maxops, ops, val, pick):
    return ("CONSTANTS\nMaxOps = %d\nOps = %s\nValSel = \"%s\"\nPick <- %s\nINVARIANT BoolSigned\nINVARIANT WordOK\nINVARIANT Emit\n"
            "CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (maxops, st(ops), val, pick))


def xitem(o, rng):
    e = o["s"]
    tests = [(e, o["t"]), ("(%s) == %s" % (e, o["lit"]), 1), ("(%s) * 0 - 1 > 0" % e, o["u"]), ("0 ? 1 : %s" % e, o["t"]), ("!(%s)" % e, 1 - o["t"])]
    w = rng.randrange(3)
    code = []
    for i, (c, v) in enumerate(tests):
        head = ["#if %s", "#if 0\nx\n#elif %s", "# if %s // c"][w] % c
        code.append("static const int x@_%d =\n%s\n1\n#else\n0\n#endif\n;" % (i, head))
    code.append("void t@(void) { %s }" % " ".join("r_(x@_%d);" % i for i in range(len(tests))))
    return dict(code="\n".join(code), expect=" ".join(str(v) for _, v in tests), desc="controlling expression %s" % e)


def ccfg(lines, depth, faults, pick, full):
    return ("CONSTANTS\nMaxLines = %d\nMaxDepth = %d\nFaults = %s\nPick <- %s\nFull = %s\nINVARIANT Nested\nINVARIANT Emit\n"
            "CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (lines, depth, faults, pick, full))


def body(o, rng):
    ls = ["#define A 1"]
    for l in o["l"]:
        if l["k"] == "text":
            ls.append("m(%s)" % l["s"] if l["s"].isdigit() else l["s"])
        else:
            hash_ = rng.choice(["#", "#", "#", " #", "# ", "\t#", "/* c */ #"])
            s = hash_ + l["s"]
            if rng.random() < 0.08:
                s = s.replace(" ", " \\\n", 1) if l["s"] else s
            if rng.random() < 0.08:
                s += rng.choice([" // #endif", " /* #else\n#endif */", " /* c */"])
            ls.append(s)
    return "\n".join(ls)


def citem(o, rng):
    b = body(o, rng)
    code = "#define m(x) x,\nstatic const int v@[] = {\n%s\n-1};\n#undef m\n#undef A\n#undef B\n#undef C\n" % b
    code += "void t@(void) { for (int i = 0; i < (int)(sizeof v@ / sizeof *v@); i++) r_(v@[i]); }\n"
    return dict(code=code, expect=" ".join(str(x) for x in o["r"] + [-1]), desc="conditional inclusion")


def rejects(c, objs, rng, desc):
    """every translation unit must be refused with status 1, and without a crash"""
    c.nfail = 0
    def one(o):
        if c.nfail > 3:
            return None
        b = "#define ID(x) x\n#define m(x) enum { E##x };\n" + body(o, rng_of(o)) + "\nint last;\n"
        src = c.tmp(".c")
        open(src, "w").write(b)
        rc, so, se = vf.sh([c.cc, "-c", src, "-o", src + ".o"] if not c.ref else c.ref.split() + ["-w", "-c", src, "-o", src + ".o"], timeout=20)
        c.drop(src, src + ".o")
        c.executions += 1
        if rc != 1:
            c.nfail += 1
            return b, rc, (so + se).decode(errors="replace")[-300:]
    def rng_of(o):
        return random.Random(str(o))
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for r in ex.map(one, objs):
            if r:
                c.violation(desc, {"expected": "exit status 1 and a message", "actual": "status %s %s" % r[1:]}, {"input.c": r[0]})
    c.traces += len(objs)


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    q = c.quick
    xs = c.tlc("PPExpr", xcfg(1, OPS, "all", "PickAll"), workers=4) if not q else []
    one = c.tlc("PPExpr", xcfg(2, OPS, "rand", "PickOne"), mode="sim", num=16000 if q else 160000, depth=30, seed_salt=150)
    big = c.tlc("PPExpr", xcfg(9, OPS, "rand", "PickOne"), mode="sim", num=24000 if q else 240000, depth=60, seed_salt=151)
    big += c.tlc("PPExpr", xcfg(7, ["&&", "||", "&&", "?:", "+", "()"], "bomb", "PickOne"), mode="sim", num=24000 if q else 240000, depth=60, seed_salt=154)
    exprs = {o["s"]: o for o in xs + one + big}
    c.stats["expressions"] = len(exprs)
    items = [xitem(o, rng) for o in exprs.values()]
    c.replay(items, PRE, batch=300, modes=("c",))
    if items:
        c.sample({"source": items[-1]["code"], "expected": items[-1]["expect"]})
    small = c.tlc("CondIncl", ccfg(5 if q else 6, 3, "TRUE", "PickAll", "FALSE"), workers=4)
    c.stats["exhaustive_files"] = len(small)
    sim = c.tlc("CondIncl", ccfg(24, 5, "TRUE", "PickOne", "TRUE"), mode="sim", num=12000 if q else 120000, depth=80, seed_salt=152)
    sim += c.tlc("CondIncl", ccfg(40, 8, "FALSE", "PickOne", "TRUE"), mode="sim", num=6000 if q else 60000, depth=120, seed_salt=153)
    good = [o for o in small + sim if o["o"] == "accept"]
    bad = [o for o in small + sim if o["o"] == "reject"]
    rng.shuffle(bad)
    bad = bad[:2500 if q else 20000]
    c.stats["files_accepted"] = len(good)
    c.stats["files_rejected"] = len(bad)
    c.replay([citem(o, rng) for o in good], "#define ID(x) x\n", batch=300, modes=("c",))
    rejects(c, bad, rng, "a file whose conditionals do not balance was accepted")
