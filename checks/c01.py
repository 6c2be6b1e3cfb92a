"""C01 control flow: behaviours of spec/CFlow.tla replayed in compiled functions."""
import random

HARNESS = r"""
#include <stdio.h>
#include <setjmp.h>
#define CAP %d
static jmp_buf jb; static const char *script; static int nev;
static void ev(void) { if (++nev >= CAP) longjmp(jb, 1); }
void t(int v) { printf(" %%d", v); ev(); }
int in(void) { int v = *script ? *script++ - '0' : 7; printf(" i"); ev(); return v; }
void tp(int *p, int v) { *p = v; t(*p); }
int in2(void) { int a = in(), b = in(); return 2 * a + b; }
long g_; 
void run_(int (*f)(int, int), int x, int y, const char *s) {
	script = s; nev = 0; printf(" |");
	if (!setjmp(jb)) { int r = f(x, y); printf(" =%%d", r); } else printf(" cut");
}
"""
PRELUDE = """void t(int v); void tp(int *p, int v); int in(void); int in2(void); extern long g_;
void run_(int (*f)(int, int), int x, int y, const char *s);
"""
K2 = lambda k: 8 * k + 3


def cond(c):
    f, k = c["f"], c["k"]
    return {
        "none": "", "in": "in()", "inlong": "(long)in() << 40", "indbl": "in() * 0.5", "inflt": "in() * 0.25f",
        "inptr": "in() ? &g_ : 0", "inbool": "(_Bool)in()", "inchar": "(char)(in() * 64)",
        "inull": "(unsigned long long)in() << 32",
        "not": "!in()", "xlt": "x < %d" % K2(k), "xodd": "x & 1", "xy": "x < y", "zne": "*pz != %d" % k,
        "and": "in() && in()", "or": "in() || in()", "andx": "x < %d && in()" % K2(k),
        "orx": "(y & 1) || !in()", "tern": "in() ? x < %d : y & 1" % K2(k), "comma": "(t(%d), in())" % (40 + k),
        "asg": "(x = (x + %d) & 63) & 3" % (1 + k), "dec": "w ? w-- : !(w = 63)", "zero": "0", "one": "1",
    }[f]


def assign(s):
    s, k = s
    return {
        "x3k": "x = (x * 3 + %d) & 63" % k, "xy": "x = y", "yxz": "y = (x + z) & 63", "pz": "*pz = (x + %d) & 63" % k,
        "zw": "z = (z + w + 1) & 63", "wx": "w += x, w &= 63", "xwy": "x = (w * 2 + y) & 63",
        "swap": "s_ = x, x = y, y = s_", "rot": "s_ = x, x = y, y = w, w = s_",
        "lost": "y = x++, x &= 63", "wk": "w = %d" % k,
    }[s]


SW = {"in2": ("in2()", "%d"), "x3": ("x % 5", "%d"), "long": ("(long)in2() << 32", "%dL << 32"),
      "char": ("(char)(in2() * 30)", "%d * 30"), "neg": ("in2() - 2", "%d - 2"), "u": ("in2() + 4294967290u", "%d + 4294967290u")}


def parse(code, pos, stop):
    """code tokens -> nested list of statements up to a token whose op is in stop"""
    out = []
    while code[pos]["op"] not in stop:
        t = code[pos]
        op = t["op"]
        if op in ("if", "while", "do", "block", "switch"):
            body, pos = parse(code, pos + 1, ("else", "end"))
            els = None
            if code[pos]["op"] == "else":
                els, pos = parse(code, pos + 1, ("end",))
            out.append((op, t, body, els))
            pos += 1
        elif op == "forinit":
            f = code[pos + 1]
            body, pos = parse(code, pos + 2, ("end",))
            out.append(("for", (t, f), body, None))
            pos += 1
        else:
            out.append((op, t, None, None))
            pos += 1
        if pos >= len(code):
            break
    return out, pos


SIMPLE = ("ev", "evv", "set", "break", "continue", "goto", "ret")


def fixw(s):
    return s


class R:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.sw = {}
        self.mem = self.rng.random() < 0.5

    def body(self, b, ind, allow_if=True):
        """a statement used as the body of a construct; sometimes without braces when that is equivalent"""
        if len(b) == 1 and b[0][0] in SIMPLE and self.rng.random() < 0.5:
            if b[0][0] != "set" or "," not in assign(b[0][1]["k"]) or True:
                return self.stmts(b, ind + 1)
        if len(b) == 1 and b[0][0] in ("while", "for", "switch", "do", "if") and self.rng.random() < 0.5 and allow_if:
            return self.stmts(b, ind + 1)
        if not b and self.rng.random() < 0.3:
            return "\t" * ind + ";\n"
        return "\t" * (ind - 1) + "{\n" + self.stmts(b, ind) + "\t" * (ind - 1) + "}\n"

    def stmts(self, b, ind):
        o = ""
        for n, (op, t, body, els) in enumerate(b):
            p = "\t" * ind
            last = n == len(b) - 1
            if op == "ev":
                # an object in memory may be addressed in any part of the body
                o += p + ("tp(&m%d_, %d);\n" % (self.rng.randrange(3), t["k"]) if self.mem and self.rng.random() < 0.5 else "t(%d);\n" % t["k"])
            elif op == "evv":
                o += p + "t(%s);\n" % t["k"]
            elif op == "set":
                o += p + assign(t["k"]) + ";\n"
            elif op == "break" or op == "continue":
                o += p + op + ";\n"
            elif op == "goto":
                o += p + "goto %s;\n" % t["k"]
            elif op == "label":
                o += p + "%s:%s\n" % (t["k"], " ;" if last else "")
            elif op == "ret":
                o += p + "return %s;\n" % t["k"]
            elif op == "case":
                o += p + "case %s:%s\n" % (SW[self.sw[t["id"]]][1] % t["k"], " ;" if last else "")
            elif op == "default":
                o += p + "default:%s\n" % (" ;" if last else "")
            elif op == "block":
                o += p + "{\n" + self.stmts(body, ind + 1) + p + "}\n"
            elif op == "if":
                # without braces an inner if would capture the else
                o += p + "if (%s)\n" % cond(t["k"]) + self.body(body, ind + 1, allow_if=els is None)
                if els is not None:
                    o += p + "else\n" + self.body(els, ind + 1)
            elif op == "while":
                o += p + "while (%s)\n" % cond(t["k"]) + self.body(body, ind + 1)
            elif op == "do":
                o += p + "do\n" + self.body(body, ind + 1) + p + "while (%s);\n" % cond(t["k"])
            elif op == "for":
                a, f = t
                o += p + "for (%s; %s; %s)\n" % (assign(a["k"]), cond(f["k"]["c"]), assign(f["k"]["adv"])) + self.body(body, ind + 1)
            elif op == "switch":
                self.sw[t["id"]] = t["k"]
                o += p + "switch (%s)\n" % SW[t["k"]][0] + self.body(body, ind + 1)
        return o


def render(o, seed):
    r = R(seed)
    tree, _ = parse(o["code"] + [{"op": "eof"}], 0, ("eof",))
    body = r.stmts(tree, 1)
    # parameters live in memory, plain locals whose address is not taken become SSA values
    if r.mem:
        body = "\tint m0_, m1_, m2_;\n" + body
    if r.rng.random() < 0.3:
        return "static int f@(int x, int y) {\n\tint z = 5, w = 9, s_; int *pz = &z;\n%s}\n" % body
    pz = "int z = 5; int *pz = &z;"
    if r.rng.random() < 0.5:
        pz, body = "int z; z = 5;", body.replace("*pz", "z")
    return "static int f@(int px_, int py_) {\n\tint x, y, w = 9, s_; %s x = px_; y = py_;\n%s}\n" % (pz, body)


def items_of(objs, seed):
    by = {}
    for o in objs:
        key = repr(o["code"])
        if key not in by:
            by[key] = (o, [])
        for r in o["runs"]:
            if r not in by[key][1]:
                by[key][1].append(r)
    items = []
    for n, (o, runs) in enumerate(by.values()):
        code = render(o, seed + n)
        code += "void t@(void) {\n"
        exp = []
        for r in runs:
            code += '\trun_(f@, %d, %d, "%s");\n' % (r["x0"], r["y0"], "".join(map(str, r["ins"])))
            exp.append("| " + "".join(e + " " for e in r["tr"]) + ("cut" if r["ret"] == "cut" else "=" + r["ret"]))
        code += "}\n"
        items.append(dict(code=code, expect=" ".join(exp), desc="control flow of a generated function"))
    return items


KINDS = '{"ev","evv","set","if","while","do","for","switch","block","else","case","default","break","continue","goto","label","close","finish","ret"}'
CONDS = '{"in","inlong","indbl","inflt","inptr","inbool","inchar","inull","not","xlt","xodd","xy","zne","and","or","andx","orx","tern","comma","asg","dec","zero","one"}'
SETS = '{"x3k","xy","yxz","pz","zw","wx","xwy","swap","rot","lost","wk"}'
INV = "INVARIANT TypeOK\nINVARIANT Bracketed\nINVARIANT Emit\nPROPERTY ElseSkipped\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"


def cfg(maxtok, mintok, depth, nruns, cap, kinds, conds, sets, labels, pick, ks="{0,1,2,3,4,5,6,7}", sw='{"in2","x3","long","char","neg","u"}', cks="{0,1,2,3,4}"):
    return ("CONSTANTS\nMaxTok = %d\nMinTok = %d\nMaxDepth = %d\nNRuns = %d\nCap = %d\nKinds = %s\nConds = %s\nSets = %s\nLabels = %s\nPick <- %s\nKs = %s\nSwKinds = %s\nCaseKs = %s\n"
            % (maxtok, mintok, depth, nruns, cap, kinds, conds, sets, labels, pick, ks, sw, cks)) + INV


def run(c):
    c.build_cc()
    objs = []
    # exhaustive small scope: all bodies and input sequences over a small vocabulary
    small = [
        (6 if c.quick else 8, '{"ev","if","else","while","do","break","continue","close","finish"}', '{"in"}', '{"xy"}', "{}"),
        (6 if c.quick else 8, '{"ev","switch","case","default","break","close","finish","do"}', '{"in"}', '{"xy"}', "{}"),
        (6 if c.quick else 8, '{"ev","if","goto","label","close","finish","while"}', '{"in"}', '{"xy"}', '{"l1"}'),
    ]
    small_objs = []
    for n, k, cs, ss, ls in small:
        o = c.tlc("CFlow", cfg(n, 1, 3, 1, 10, k, cs, ss, ls, "PickAll", "{1}", '{"in2"}', "{0,1}"), workers=8)
        small_objs += o
    it = items_of(small_objs, c.seed)
    c.stats["exhaustive_programs"] = len(it)
    c.replay(it, PRELUDE, HARNESS % 10, batch=300)
    sim = c.tlc("CFlow", cfg(26, 8, 4, 4, 40, KINDS, CONDS, SETS, '{"l1","l2"}', "PickOne"), mode="sim",
                num=3000 if c.quick else 40000, depth=600, seed_salt=1)
    # jumps between conditionals: flow graphs no structured statement gives
    sim += c.tlc("CFlow", cfg(22, 8, 3, 4, 40, '{"ev","evv","set","if","goto","label","close","finish"}', CONDS, SETS,
                 '{"l1","l2","l3","l4"}', "PickOne"), mode="sim", num=2000 if c.quick else 20000, depth=600, seed_salt=2)
    it = items_of(sim, c.seed)
    c.stats["random_programs"] = len(it)
    c.replay(it, PRELUDE, HARNESS % 40, batch=60)
    if it:
        c.sample({"source": it[0]["code"], "expected": it[0]["expect"]})
