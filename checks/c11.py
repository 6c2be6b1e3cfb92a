"""C11 scopes and name spaces: programs from Scopes.tla; valid ones are run, ones with a forbidden declaration or use must be refused."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import vf

NAMES = ["a@", "b@", "c@", "d@", "e@"]
USE = {"int": ["%s", "(%s) - 0", "(%s)", "+ %s"], "enumc": ["%s", "(%s) + 0", "(%s) - 0", "1 ? %s : 0"], "arr": ["sizeof %s", "sizeof(%s)"],
       "svar": ["sizeof %s", "sizeof(%s)"], "type": ["sizeof(%s)"], "addr": ["%s == (void *)&%s"], "parr": ["sizeof *%s", "sizeof(*%s)"], "tptr": ["sizeof *%s"]}


def cfg(names, stmts, bad):
    return "CONSTANTS\nNames = %d\nMaxStmt = %d\nBad = %s\nPick <- PickOne\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (names, stmts, bad)


def render(o, rng):
    N = lambda i: NAMES[i - 1]
    out, calls, u, nf, depth = "", "", 0, 0, 0
    for t in o["toks"]:
        s, u = t["s"], u + 1
        x = N(t["x"]) if "x" in t else ""
        y = N(t["y"]) if "y" in t else ""
        n = t.get("n", 0)
        q = "q%d_@" % u
        if s == "int": r = "int %s = %d;" % (x, n)
        elif s == "stat": r = "static int %s = %d;" % (x, n)
        elif s == "arr": r = "char %s[%d];" % (x, n)
        elif s == "self": r = "int %s = sizeof %s;" % (x, rng.choice([x, "(%s)" % x]))
        elif s == "lself": r = "long %s = sizeof %s;" % (x, x)
        elif s == "addr": r = "void *%s = &%s;" % (x, x)
        elif s == "two": r = "int %s = %d, %s = %s;" % (x, n, y, x)
        elif s == "twof": r = "int %s = %d, %s = %d;" % (x, n, y, n)
        elif s == "outer":
            c = x if t["k"] == "enumc" else "sizeof(%s)" % x
            r = {"arr": "char %s[%s + 2];", "type": "typedef char %s[%s + 2];", "enumc": "enum { %s = %s + 1 };", "parr": "char (*%s)[%s + 2];"}[t["w"]] % (x, c)
        elif s == "enumone": r = "enum { %s = %d };" % (x, n)
        elif s == "enumnext": r = "enum { %s = %d, %s };" % (x, n, y)
        elif s == "enumexpr": r = "enum { %s = %d, %s = %s + 3 };" % (x, n, y, x)
        elif s == "enumtag": r = "enum %s { %s = %d };" % (y, x, n)
        elif s == "enuminsize": r = "(void)sizeof(enum { %s = %d });" % (x, n)
        elif s == "enuminstruct": r = "struct { enum { %s = %d } m; } *%s;" % (x, n, q)
        elif s == "type": r = "typedef char %s[%d];" % (x, n)
        elif s == "alias": r = rng.choice(["typedef %s %s;", "%s typedef %s;", "typedef %s (%s);"]) % (y, x)
        elif s in ("var", "parens"): r = ("%s (%s);" if s == "parens" else rng.choice(["%s %s;", "const %s %s;", "%s const %s;"])) % (y, x)
        elif s == "rec": r = ("struct { char %s[%d]; } %s;" % (y, n, x)) if t["y"] == t["z"] else "struct { char %s[%d]; char %s[%d]; } %s;" % (y, n, N(t["z"]), t["k"], x)
        elif s == "tagplain": r = "struct %s { char m[%d]; };" % (x, n)
        elif s == "tagselfp": r = "struct %s { struct %s *p; char m[%d]; };" % (x, x, n)
        elif s == "taginsize": r = "r_(sizeof(struct %s { char m[%d]; }));" % (x, n)
        elif s == "tagmember": r = "struct { struct %s { char m[%d]; } s; } *%s;" % (x, n, q)
        elif s == "tagvar": r = "struct %s { char m[%d]; } %s;" % (x, n, x)
        elif s == "fwd": r = "struct %s;" % x
        elif s == "tptr": r = "struct %s *%s;" % (y, x)
        elif s == "proto":
            r = "void %s(%s);" % (q, {"size": "int %s, char (*%s)[sizeof %s]" % (x, y, x), "enum": "enum { %s = %d } p, char (*q)[%s]" % (x, n, x),
                                     "struct": "struct %s { char m[%d]; } *p, char (*q)[sizeof(struct %s)]" % (x, n, x), "type": "%s %s" % (y, x)}[t["w"]])
        elif s == "usetag": r = "r_(sizeof(%s %s));" % (t["k"], x)
        elif s == "usemem": r = "r_(sizeof %s.%s);" % (x, y)
        elif s == "use":
            f = rng.choice(USE[t["k"]])
            r = "r_(%s);" % (f % ((x,) * f.count("%s")))
        elif s == "label": r = "goto %s; r_(999); %s:;" % (x, x)
        elif s == "open":
            r = {"block": "{", "if": "if (1) {", "for": "for (int %s = %d, o_ = 1; o_; o_ = 0) {" % (x, n), "ifenum": "if (sizeof(enum { %s = %d })) {" % (x, n),
                 "while": "while (sizeof(enum { %s = %d })) {" % (x, n), "switch": "switch (sizeof(enum { %s = %d })) { default:;" % (x, n),
                 "elseenum": "if (sizeof(enum { %s = %d }) == 0) ; else {" % (x, n)}[t["w"]]
        elif s == "close": r = "break; }" if t["w"] == "while" else "}"
        elif s == "bare":
            e = "r_(sizeof(struct %s { char m[%d]; }));" % (x, n)
            r = {"if": "if (1) %s", "else": "if (0) ; else %s", "for": "for (int o_ = 1; o_; o_ = 0) %s", "while": "switch (1) case 1: %s", "do": "do %s while (0);"}[t["w"]] % e
        elif s == "fn":
            nf += 1
            w = t["w"]
            r = "static void f%d_@(%s) {" % (nf, {"none": "void", "int": "int %s" % x, "int2": "int %s, int %s" % (x, y), "ptr": "int %s, char (*%s)[sizeof %s]" % (x, y, x), "type": "%s %s" % (x, x)}[w])
            calls += "f%d_@(%s);\n" % (nf, {"none": "", "int": "%d" % n, "int2": "%d, %d" % (n, n + 1), "ptr": "%d, 0" % n, "type": "0"}[w])
        elif s == "closefn": r = "}"
        elif s == "bad":
            r = {"undeclared": "r_(%s);" % x, "incomplete": "r_(sizeof(struct %s));" % x, "kind": "union %s { int q; };" % x, "reenum": "enum { %s };" % x,
                 "retype": "typedef int %s[3];" % x, "revar": "int %s[7];" % x, "reenum2": "enum { %s = 1 };" % x, "restruct": "struct %s { int q; };" % x,
                 "retag": "enum %s { %s };" % (x, q), "member": "r_(sizeof %s.%s);" % (x, y), "label": "goto %s;" % x, "relabel": "%s:;" % x, "notype": "%s %s;" % (x, q),
                 "param": "void %s(int %s, char %s);" % (q, x, x), "members": "struct { int %s; char *%s; } %s;" % (x, x, q), "enums": "enum %s { w_, %s, v_, %s };" % (q, q, q),
                 "typeuse": "r_(%s);" % x}[t["w"]]
        out += r + "\n"
    return out + "void t@(void) {\n%s}" % calls


def refused(c, items, what):
    """every item's program must be refused with a message and status 1"""
    def one(it):
        f = c.tmp(".c")
        open(f, "w").write(vf.DECLS + it["code"].replace("@", "9"))
        rc, so, se = vf.sh(c.ref.split() + (["-fsyntax-only", f] if "pedantic" in c.ref else ["-w", "-fsyntax-only", f]) if c.ref else [c.cc, "-c", f, "-o", f + ".o"])
        c.drop(f, f + ".o")
        c.executions += 1
        return None if rc == 1 and so + se else (it, rc, (so + se).decode(errors="replace"))
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for r in ex.map(one, items):
            if r and len(c.violations) < 5:
                it, rc, msg = r
                c.violation(what, dict(bad=it["bad"], expected="refused with a message and status 1", actual="status %s, %s" % (rc, msg[-300:])),
                            {"input.c": vf.DECLS + it["code"].replace("@", "9")})
    c.traces += len(items)


def pname(n):
    return ["_%d_", "A%dx", "val_%d", "f%d", "max_%d", "v%d", "Q%dQ%d"][n % 7].replace("%d", str(n))


def population(o):
    """one history of ScopeMap.tla, every visible name is asked at the end"""
    code, exp, d, ext = "", [], 0, ""
    def use(n, v):
        exp.append(v)
        return "r_(%s);\n" % pname(n)
    def usetag(n, v):
        exp.append(v)
        return "r_(sizeof(struct %s));\n" % pname(n)
    for op, n, v in o["h"]:
        if op == "open":
            code += "void t@(void) {\n" if d == 0 else "{\n"
            d += 1
        elif op == "close":
            code += "}\n"
            d -= 1
        elif op == "obj":
            code += "%sint %s = %d;\n" % ("static " if d == 0 else "", pname(n), v)
        elif op == "enum":
            code += "enum { %s = %d };\n" % (pname(n), v)
        elif op == "extern":
            code += "extern int %s;\n" % pname(n)
            ext += "" if "int %s =" % pname(n) in ext else "int %s = %d;\n" % (pname(n), n)
        elif op == "tag":
            code += "struct %s { char c[%d]; };\n" % (pname(n), v)
        elif op == "use":
            code += use(n, v)
        else:
            code += usetag(n, v)
    for n, (b, t) in enumerate(zip(o["b"], o["t"]), 1):
        code += (use(n, b) if b else "") + (usetag(n, t) if t else "")
    return dict(code=code + "}\n" * o["depth"] + ext, expect=" ".join(map(str, exp)), desc="a population of names")


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 1 if c.quick else 8
    sim = c.tlc("Scopes", cfg(3, 45, "FALSE"), mode="sim", num=3000 * n, depth=120, seed_salt=110)
    sim += c.tlc("Scopes", cfg(2, 30, "FALSE"), mode="sim", num=2000 * n, depth=120, seed_salt=111)
    sim += c.tlc("Scopes", cfg(5, 70, "FALSE"), mode="sim", num=1000 * n, depth=160, seed_salt=112)
    items = [dict(code=render(o, rng), expect=" ".join(map(str, o["out"])), desc="scopes") for o in sim]
    c.replay(items, "", None, batch=100)
    pops = c.tlc("ScopeMap", "CONSTANTS\nN = 2400\nGlobals = 400\nSteps = 3600\nMaxDepth = 5\nPick <- PickOne\nINVARIANT Emit\nINVARIANT Nested\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n",
                 mode="sim", num=8 * n, depth=30000, seed_salt=114)
    c.stats["populations"] = len(pops)
    c.replay([population(o) for o in pops], "", None, batch=1, modes=("c",))
    neg = c.tlc("Scopes", cfg(3, 40, "TRUE"), mode="sim", num=3000 * n, depth=120, seed_salt=113)
    bad = [dict(code=render(o, rng), bad=[t for t in o["toks"] if t["s"] == "bad"][0]["w"]) for o in neg]
    refused(c, bad, "scopes: a forbidden declaration or use")
    st = {}
    for b in bad:
        st[b["bad"]] = st.get(b["bad"], 0) + 1
    c.stats.update(forbidden=st)
    c.sample({"source": items[-1]["code"], "expected": items[-1]["expect"]})
