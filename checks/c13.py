"""C13 types: pools of types, expressions and redeclarations generated by Types.tla; sizes and selections of _Generic are compared,
declarations with incompatible types must be refused.  Specifiers.tla enumerates the lists of type specifiers."""
import json, random
import vf
from c11 import refused

SPELL = {"bool": [["_Bool"]], "char": [["char"]], "schar": [["signed", "char"]], "uchar": [["unsigned", "char"]],
         "short": [["short"], ["short", "int"], ["signed", "short"], ["signed", "short", "int"]],
         "ushort": [["unsigned", "short"], ["unsigned", "short", "int"]],
         "int": [["int"], ["signed"], ["signed", "int"]], "uint": [["unsigned"], ["unsigned", "int"]],
         "long": [["long"], ["long", "int"], ["signed", "long"], ["signed", "long", "int"]],
         "ulong": [["unsigned", "long"], ["unsigned", "long", "int"]],
         "llong": [["long", "long"], ["long", "long", "int"], ["signed", "long", "long"], ["signed", "long", "long", "int"]],
         "ullong": [["unsigned", "long", "long"], ["unsigned", "long", "long", "int"]],
         "float": [["float"]], "double": [["double"]], "void": [["void"]]}


def key(t):
    return json.dumps(t, sort_keys=True)


class R:
    def __init__(self, o, rng, n):
        self.o, self.rng, self.n = o, rng, n
        self.td = {}

    def spec(self, words, const):
        w = list(words)
        if const:
            w += ["const"] * self.rng.choice([1, 1, 1, 2])
        self.rng.shuffle(w)
        return " ".join(w)

    def unconst(self, t):
        if t["k"] == "a":
            r = self.unconst(t["t"])
            return None if r is None else dict(t, t=r)
        return dict(t, c=False) if t.get("c") else None

    def decl(self, t, name, param=False):
        """declaration of name with the type t"""
        rng = self.rng
        if rng.random() < .35:
            for u, c in ((t, False), (self.unconst(t), True)):
                if u is not None and key(u) in self.td:
                    return self.spec([rng.choice(self.td[key(u)])], c) + " " + name
        k = t["k"]
        if k == "b":
            return self.spec(rng.choice(SPELL[t["b"]]), t["c"]) + " " + name
        if k == "s":
            s = "struct S%d_@" % t["id"]
            return (rng.choice(["const %s", "%s const"]) % s if t["c"] else s) + " " + name
        if rng.random() < .12 and name:
            name = "(%s)" % name
        if k == "p":
            u = t["t"]
            if param and not t["c"] and rng.random() < .5:
                if u["k"] == "f":
                    return self.decl(u, name)
                if not (u["k"] == "b" and u["b"] == "void") and not (u["k"] == "a" and u["n"] == 0):
                    return self.decl(u, name + rng.choice(["[]", "[3]", "[static 2]", "[const]", "[const 4]"]))
            n = "*" + ("const " if t["c"] else "") + name
            if u["k"] in ("a", "f"):
                n = "(%s)" % n
            return self.decl(u, n)
        if k == "a":
            return self.decl(t["t"], "%s[%s]" % (name, t["n"] or ""))
        return self.decl(t["r"], "%s(%s)" % (name, self.params(t)))

    def params(self, t, names=False):
        if not t["p"]:
            return ""
        if not t["ps"]:
            return "void"
        out = []
        for p in t["ps"]:
            self.n += 1
            out.append(self.decl(p, "p%d" % self.n if names or self.rng.random() < .4 else "", True))
        return ", ".join(out) + (", ..." if t["v"] else "")

    def ty(self, t):
        return self.decl(t, "").strip()

    def pool(self, objects=True):
        out, ns = "", 0
        for i, t in enumerate(self.o["pool"]):
            if t["k"] == "s" and not t["c"] and t["id"] > ns:
                ns += 1
                ms = self.o["sts"][ns - 1]
                out += "struct S%d_@ {\n%s};\n" % (ns, "".join("  %s;\n" % self.decl(m, "m%d" % (j + 1)) for j, m in enumerate(ms)))
            if self.rng.random() < .6:
                out += "typedef " + self.decl(t, "T%d_@" % i) + ";\n"
                self.td.setdefault(key(t), []).append("T%d_@" % i)
            if objects:
                out += ("extern " if t["k"] != "f" or self.rng.random() < .5 else "") + self.decl(t, "x%d_@" % (i + 1)) + ";\n"
        return out

    def arg(self, t):
        return "*(%s)0" % self.ty(dict(k="p", t=t, c=False)) if t["k"] == "s" else self.rng.choice(["0", "0", "0"])

    def ex(self, e):
        o = e["o"]
        if o == "obj":
            return "x%d_@" % e["i"]
        if o == "lit":
            return e["s"]
        if o == "clit":
            return "(%s){0}" % self.ty(e["t"])
        a = self.ex(e["a"])
        if e["a"]["o"] in ("un", "bin", "cast", "clit"):
            a = "(%s)" % a
        if o == "cast":
            return "(%s)%s" % (self.ty(e["t"]), a)
        if o == "mem":
            return "%s%sm%d" % (a, e["op"], e["i"])
        if o == "call":
            return "%s(%s)" % (a, ", ".join([self.arg(p) for p in e["ps"]] + (["1", "2.5"] if e["v"] else [])))
        if o == "bin":
            b = self.ex(e["b"])
            if e["b"]["o"] in ("un", "bin", "cast", "clit"):
                b = "(%s)" % b
            return "x0_@ ? %s : %s" % (a, b) if e["op"] == "?" else "%s %s %s" % (a, e["op"], b)
        op = e["op"]
        return {"[2]": "%s[2]", "2[]": "2[%s]", "+2": "%s + 2", "2+": "2 + %s", "-2": "%s - 2", "u+": "+%s", "&&": "%s && 1", "||": "0 || %s",
                "==0": "%s == 0", "!=0": "0 != %s", "=0": "%s = 0", "++x": "++%s", "x++": "%s++", "--x": "--%s", "x--": "%s--", "+=1": "%s += 1", "-=1": "%s -= 1",
                "sizeof": "sizeof %s", "0,": "0, %s", "()": "(%s)", "generic": "_Generic(1, int: %s, default: 3)"}.get(op, op.replace("%", "%%") + "%s") % a if op != "=self" else "%s = %s" % (a, a)

    def generic(self, e, ts, sel, dflt):
        al = ["%s: %d" % (self.ty(t), i + 1) for i, t in enumerate(ts)]
        if dflt or not al:
            al.append("default: 0")
        self.rng.shuffle(al)
        return "_Generic(%s, %s)" % (e, ", ".join(al))

    def queries(self):
        code, exp = self.pool() + "extern int x0_@;\nvoid t@(void) {\n", []
        for q in self.o["queries"]:
            e = self.ex(q["e"])
            par = "(%s)" % e
            code += "r_(%s);\n" % self.generic(par if q["e"]["o"] == "bin" or q["e"].get("op") == "0," else e, q["ts"], q["sel"], q["dflt"])
            exp.append(q["sel"])
            s = q["size"]
            if not (s["k"] == "b" and s["b"] == "void"):
                code += "r_(sizeof%s == sizeof(%s));\n" % (par, self.ty(s))
                exp.append(1)
        return code + "}\n", exp

    def pair(self, p):
        """the program of one pair of declarations"""
        name = "y@"
        code = self.pool(False)
        ext = lambda t: self.rng.choice(["extern ", "extern " if t["k"] != "f" else ""])
        code += ext(p["a"]).replace("extern ", "extern ") + self.decl(p["a"], name) + ";\n" if p["a"]["k"] == "f" else "extern " + self.decl(p["a"], name) + ";\n"
        b = p["b"]
        ask = "r_(%s);\n" % self.generic("&" + name, p["ts"], 1, False) if p["ok"] else ""
        if p["w"] == "def":
            if b["k"] != "f":
                code += self.decl(b, name) + ";\n"
            else:
                code += self.fdef(b, name)
            code += "void t@(void) {\n" + ask + "}\n"
        elif p["w"] == "file":
            code += "extern " + self.decl(b, name) + ";\nvoid t@(void) {\n" + ask + "}\n"
        else:
            code += "void t@(void) {\nextern " + self.decl(b, name) + ";\n" + ask + "}\n"
        return code

    def fdef(self, t, name):
        return self.decl(t["r"], "%s(%s)" % (name, self.params(t, True))) + " { while (1); }\n"


def cfg(pool, steps, pairs):
    return ("CONSTANTS\nMaxPool = %d\nMaxSteps = %d\nMaxPairs = %d\nPick <- PickOne\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (pool, steps, pairs))


NAME = {"T": "T@", "S": "struct S@"}


def specifiers(c):
    """every list of type specifiers up to a length: valid ones must select their type, the others must be refused"""
    beh = c.tlc("Specifiers", "CONSTANTS\nMaxLen = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (3 if c.quick else 4), mode="bfs")
    items, bad = [], []
    al = ["%s: %d" % (" ".join(SPELL[b][-1]), i) for i, b in enumerate(sorted(SPELL)) if b != "void"]
    for o in beh:
        s = " ".join(NAME.get(w, w) for w in o["s"])
        pre = "typedef short *T@;\nstruct S@ { int a; };\n"
        if o["t"] in SPELL and o["t"] != "void":
            items.append(dict(code=pre + "extern %s x@;\nvoid t@(void) { r_(_Generic(x@, %s)); r_(sizeof(%s)); }\n" % (s, ", ".join(al), s),
                              expect="%d %d" % (sorted(SPELL).index(o["t"]), {"bool": 1, "char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "float": 4}.get(o["t"], 8))))
        elif o["t"] == "none":
            bad.append(dict(code=pre + "extern %s x@;\n" % s, bad=s))
    return items, bad


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 1 if c.quick else 8
    sim = c.tlc("Types", cfg(12, 70, 6), mode="sim", num=600 * n, depth=120, seed_salt=130)
    sim += c.tlc("Types", cfg(6, 40, 8), mode="sim", num=600 * n, depth=100, seed_salt=131)
    sim += c.tlc("Types", cfg(20, 110, 6), mode="sim", num=200 * n, depth=160, seed_salt=132)
    items, bad = specifiers(c)
    stats = dict(specifier_lists=len(items) + len(bad), questions=0, compatible=0, incompatible=0)
    seen = set()
    for o in sim:
        r = R(o, rng, 0)
        code, exp = r.queries()
        items.append(dict(code=code, expect=" ".join(map(str, exp))))
        stats["questions"] += len(exp)
        for p in o["pairs"]:
            r = R(o, rng, 0)
            code = r.pair(p)
            if p["ok"]:
                items.append(dict(code=code, expect="1"))
                stats["compatible"] += 1
            elif len(bad) < (2800 if c.quick else 14000):
                stats["incompatible"] += 1
                bad.append(dict(code=code, bad="%s and %s are not compatible" % (r.ty(p["a"]), r.ty(p["b"]))))
    c.stats.update(stats)
    c.sample({"code": items[-1]["code"]})
    c.replay(items, modes=("c",), batch=60)
    refused(c, bad, "accepted types")
