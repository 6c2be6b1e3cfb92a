"""C17 tokenization and literals: LexText.tla, Munch.tla, Literal.tla, NumConst.tla."""
import os, random, struct
from concurrent.futures import ThreadPoolExecutor
import vf

PRE = """#define S(...) #__VA_ARGS__
void e_(int n, const void *p, int size, int t);
#define TY(x) _Generic((x), char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, long long: 10, unsigned long long: 11, float: 12, double: 13, default: 0)
"""
HARN = vf.HARNESS + r"""
void e_(int n, const void *p, int size, int t) { printf(" t%d:%d:", t, n); const unsigned char *c = p; for (int i = 0; i < size; i++) printf("%02x", c[i]); }
"""
TYID = dict(int=6, uint=7, long=8, ulong=9, llong=10, ullong=11)


def base(extra, invs):
    return "CONSTANTS\n%s\nPick <- PickOne\n%s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (extra, "\n".join("INVARIANT " + i for i in invs))


def lex_item(o, rng):
    src = "".join(o["s"])
    if rng.random() < 0.1:
        src = src.replace("\\\n", "\\\r\n")
    out = "".join(o["o"]).rstrip(" ")
    code = "static const char s@[] = S(%s);\nstatic const int n@ = __LINE__;\nvoid t@(void) { rb_(s@, sizeof s@); }\n" % src
    return dict(code=code, expect=out.encode().hex() + "00", desc="phases 2 to 4 on %r" % src)


def splice(s, rng, p=0.04, crlf=0.2):
    """splices between the characters of s"""
    out = ""
    for i, ch in enumerate(s):
        if i and rng.random() < p:
            out += "\\\r\n" if rng.random() < crlf else "\\\n"
        out += ch
    return out


def spell(e, rng):
    k, v, d = e["k"], e["v"], e["d"]
    if k == "chr":
        return chr(v) if v != 64 else "\\100"          # @ is the item number
    if k == "simple":
        return "\\" + {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r", 39: "'", 34: '"', 63: "?", 92: "\\"}[v]
    if k == "oct":
        return "\\" + format(v, "o").zfill(d)
    f = rng.choice(["x", "X"])
    if k == "hex":
        return "\\x" + format(v, f).zfill(d)
    return ("\\u" if d == 4 else "\\U") + format(v, f).zfill(d)


SIZE = {"": 1, "u8": 1, "u": 2, "U": 4, "L": 4}
SCODE = {"": 1, "u8": 1, "u": 5, "U": 7, "L": 6}


def lit_item(o, rng):
    p, sz = o["p"], SIZE[o["p"]]
    if o["kind"] == "chr":
        s = p + "'" + "".join(spell(e, rng) for e in o["l"][0]["es"]) + "'"
        v = o["u"][0]
        t = {"": 6, "u": 5, "U": 7, "L": 6}[p]
        if p == "":
            v = v - 256 if v > 127 else v
        data = struct.pack({5: "<H", 6: "<i", 7: "<I"}[t], v)
        s = splice(s, rng)
        ty = {5: "unsigned short", 6: "int", 7: "unsigned"}[t]
        return dict(code="static %s c@ = %s;\nvoid t@(void) { %s l = %s; e_(sizeof(%s), &c@, sizeof c@, TY(%s)); e_(sizeof l, &l, sizeof l, 0); }\n" % (ty, s, ty, s, s, s),
                    expect="t%d:%d:%s t0:%d:%s" % (t, len(data), data.hex(), len(data), data.hex()), desc="character constant " + s)
    parts = [splice(l["p"] + '"' + "".join(spell(e, rng) for e in l["es"]) + '"', rng) for l in o["l"]]
    s = "".join(x + rng.choice([" ", "", "\n", " /**/ "]) for x in parts)
    for a, b in (("\"L\"", "\" L\""), ("\"u\"", "\" u\""), ("\"U\"", "\" U\""), ("\"u8\"", "\" u8\"")):
        pass
    u = o["u"] + [0]
    data = b"".join(struct.pack({1: "<B", 2: "<H", 4: "<I"}[sz], x) for x in u)
    ty = {1: "char", 2: "unsigned short", 4: "unsigned" if p == "U" else "int"}[sz]
    return dict(code="static %s s@[] = %s;\nstatic const %s *q@ = %s;\nvoid t@(void) { e_(sizeof(%s), s@, sizeof s@, TY((%s)[0])); e_(sizeof s@, q@, %d, 0); }\n" % (ty, s, ty, s, s, s, len(data)),
                expect="t%d:%d:%s t0:%d:%s" % (SCODE[p], len(data), data.hex(), len(data), data.hex()), desc="string literal " + s)


def num_item(o, rng):
    if o["k"] == "int":
        v = int(o["w"], 16)
        b = o["base"]
        d = {"dec": "%d" % v, "hex": "%x" % v, "HEX": "%X" % v, "oct": "%o" % v, "bin": bin(v)[2:]}[b]
        z = o["z"]
        s = {"dec": "", "hex": rng.choice(["0x", "0X"]), "HEX": rng.choice(["0x", "0X"]), "oct": "0", "bin": rng.choice(["0b", "0B"])}[b] + ("" if b == "dec" else z) + d + o["suf"]
        if b == "dec" and v == 0:
            b = "oct"
        t = TYID[o["t"]]
        data = struct.pack("<I" if t in (6, 7) else "<Q", v).hex()
        s = splice(s, rng, 0.02)
        return dict(code="void t@(void) { __typeof__(1 ? (%s) : (%s)) l; unsigned long v = %s; e_(sizeof(%s), &v, sizeof(%s), TY(%s)); }\n".replace("__typeof__(1 ? (%s) : (%s)) l; ", "") % (s, s, s, s),
                    expect="t%d:%d:%s" % (t, len(data) // 2, data), desc="integer constant " + s)
    m, e, f, x = o["m"], o["e"], o["f"], o["x"]
    val = float(m) * 2.0 ** e
    if o["k"] == "dec":
        digs, want = "%d" % o["d"], f
    else:
        digs, want = (format(m, "x" if rng.random() < 0.5 else "X")), f
    if want < 0:
        digs += "0" * -want
        want = 0
    digs = digs.rjust(want, "0")
    ip, fp = digs[:len(digs) - want], digs[len(digs) - want:]
    if ip == "" and fp == "":
        ip = "0"
    ip = o["z"] + ip
    s = ip + ("." + fp if fp or rng.random() < 0.5 else "")
    if s == ".":
        s = "0."
    if o["k"] == "dec":
        if x != 0 or "." not in s or rng.random() < 0.5:
            s += o["ex"] + (o["plus"] if x >= 0 else "") + str(x)
    else:
        s = rng.choice(["0x", "0X"]) + s + o["ex"] + (o["plus"] if x >= 0 else "") + str(x)
    s += o["suf"]
    t = 12 if o["suf"] else 13
    data = struct.pack("<f" if o["suf"] else "<d", val).hex()
    s = splice(s, rng, 0.02)
    return dict(code="static %s g@ = %s;\nvoid t@(void) { %s l = %s; e_(sizeof(%s), &l, sizeof l, TY(%s)); e_(sizeof g@, &g@, sizeof g@, 0); }\n" % (("float" if o["suf"] else "double"), s, ("float" if o["suf"] else "double"), s, s, s),
                expect="t%d:%d:%s t0:%d:%s" % (t, len(data) // 2, data, len(data) // 2, data), desc="floating constant " + s)


SEP = {"none": [""], "tight": [""], "glue": [""], "splice": ["\\\n", "\\\r\n"], "space": [" ", "   "], "tab": ["\t", " \t"], "feed": ["\v", "\f", " \f\v"],
       "comment": ["/*+*/", "/**/", "/***/", "/* **/", "/*/*/", "/*//*/", "/*'*/", '/*"*/', "/*\n*\n*/", "/*\\\n*\\\n/", "/\\\n*-*\\\n*/"],
       "newline": ["\n", "\r\n", "\n\n"], "line": ["//-\n", "//*\n", "//\\\n+\n", "/\\\n/'\n", "//\"\r\n"]}


def munch(c, objs, rng):
    """a text with few separators must give the same assembly as the text with all of them"""
    head = "struct s_ { int m; };\nint f@(int a, int b, int e, int xL, int *p, struct s_ *q, struct s_ s, int \u00e9, int u\u00e98) { return %s; }\n"
    its = []
    for o in objs:
        ts = ["".join(t) for t in o["t"]]
        wild = lambda t: splice(t, rng, 0.03) .replace("Z", rng.choice(["\u00e9", "\u00e9", "\\u00e9", "\\U000000E9"]))
        tight = wild(ts[0])
        for sp, t in zip(o["s"], ts[1:]):
            tight += rng.choice(SEP[sp]) + wild(t)
        its.append((tight, " ".join(ts).replace("Z", "\u00e9")))
    size = 60
    batches = [its[i:i + size] for i in range(0, len(its), size)]
    def asm(texts, tag):
        src = c.tmp(".c")
        open(src, "w", newline="").write("struct s_ { int m; };\n" + "".join(head.split("\n", 1)[1].replace("@", str(i)) % ("((int)(%s\n))" % t) for i, t in enumerate(texts)))
        out = src[:-2] + ".s"
        if c.ref:
            rc, so, se = vf.sh(c.ref.split() + ["-w", "-S", src, "-o", out], timeout=60)
        else:
            rc, so, se = vf.sh([c.cc, "-S", src, "-o", out], timeout=30)
        txt = open(out).read() if rc == 0 else None
        c.drop(src, out)
        c.executions += 1
        return rc, (so + se).decode(errors="replace")[-400:], "\n".join(l for l in (txt or "").split("\n") if ".file" not in l)
    c.nfail = 0
    def one(b):
        if c.nfail > 4:
            return []
        x, y = asm([t for t, _ in b], "t"), asm([t for _, t in b], "s")
        if x[0] == 0 and y[0] == 0 and x[2] == y[2]:
            return []
        bad = []
        for t in b:
            x, y = asm([t[0]], "t"), asm([t[1]], "s")
            if not (x[0] == 0 and y[0] == 0 and x[2] == y[2]):
                bad.append((t, x, y))
                c.nfail += 1
                break
        return bad
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for bad in ex.map(one, batches):
            for t, x, y in bad:
                if len(c.violations) < 5:
                    c.violation("maximal munch: %s" % t[0], {"expected": "the code of: %s" % t[1], "actual": "status %s and %s %s%s" % (x[0], y[0], x[1], y[1])},
                                {"tight.c": t[0], "spaced.c": t[1]})
    c.traces += len(its)


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    k = 1 if c.quick else 10
    lex = c.tlc("LexText", base("MaxLen = 26\nMinLen = 8\nChars <- CharsAll", ["Collapsed"]), mode="sim", num=12000 * k, depth=60, seed_salt=170)
    lex += c.tlc("LexText", base('MaxLen = 16\nMinLen = 4\nChars <- CharsFew', ["Collapsed"]), mode="sim", num=12000 * k, depth=60, seed_salt=171)
    lits = c.tlc("Literal", base("MaxElems = 7\nMaxLits = 3", ["UnitRange"]), mode="sim", num=16000 * k, depth=40, seed_salt=172)
    nums = c.tlc("NumConst", base("", []), mode="sim", num=16000 * k, depth=5, seed_salt=173)
    mun = c.tlc("Munch", base("MaxOps = 7", ["Scans"]), mode="sim", num=16000 * k, depth=120, seed_salt=174)
    c.stats.update(texts=len(lex), literals=len(lits), numbers=len(nums), expressions=len(mun))
    items = [lex_item(o, rng) for o in lex] + [lit_item(o, rng) for o in lits] + [num_item(o, rng) for o in nums]
    for o in (lits[0], nums[0]):
        c.sample(o)
    c.replay(items, PRE, HARN, batch=250, modes=("c",))
    munch(c, mun, rng)
