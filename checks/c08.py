"""C08 initialization: initializers of InitList.tla for objects of every storage, read back member by member in compiled code."""
import random
import vf
from c06 import st

CT = dict(bool="_Bool", char="char", schar="signed char", uchar="unsigned char", short="short", ushort="unsigned short", int="int", uint="unsigned",
          long="long", ulong="unsigned long", float="float", double="double", wchar="int", char16="unsigned short")
SC = ["char", "schar", "uchar", "short", "int", "uint", "long", "ulong", "float", "double", "ptr"]
PRE = "extern char g_[];\nint id_(int);\ntypedef char *ptr;\n"
KINDS = ["s", "s2", "arr", "arr2", "str", "agg", "agg2", "aggarr", "anon", "bf", "pad"]
FIELDS = ["int", "uint", "ulong", "ushort", "short", "uchar", "schar"]
ROOTS = ["agg", "agg2", "arr", "sarr", "arr2", "str", "scalar"]
HARN = vf.HARNESS + "char g_[1000];\nint id_(int x) { return x; }\n"


def cfg(agg, mem, items, leaves, strings, unknown, pick="PickOne", scal=SC, kinds=KINDS, fields=FIELDS, roots=ROOTS, width=15):
    return ("CONSTANTS\nMaxAgg = %d\nMaxMem = %d\nMaxItems = %d\nMaxLeaves = %d\nStrings = %s\nUnknown = %s\nKinds = %s\nRoots = %s\nMaxWidth = %d\nFieldTypes = %s\nScalars = %s\nPick <- %s\n"
            "INVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (agg, mem, items, leaves, strings, unknown, st(kinds), st(roots), width, st(fields), st(scal), pick))


class R:
    def __init__(self, o, rng):
        self.o, self.rng, self.names, self.decls = o, rng, {}, []
        self.root = o["root"]

    def spec(self, t):
        """type specifier and array dimensions"""
        dims = ""
        while t["k"] == "arr":
            dims += "[%s]" % ("" if t["c"] == -1 else t["c"])
            t = t["e"]
        if t["k"] == "s":
            return ("ptr" if t["n"] == "ptr" else CT[t["n"]]), dims
        key = repr(t)
        if key not in self.names:
            b = self.body(t, "m")
            n = "%s S@_%d" % ("union" if t["u"] else "struct", len(self.decls))
            self.decls.append("%s { %s};\n" % (n, b))
            self.names[key] = n
        return self.names[key], dims

    def body(self, t, prefix):
        s = ""
        for i, m in enumerate(t["ms"], 1):
            nm = "%s%d" % (prefix, i)
            if m["anon"]:
                s += "%s { %s}; " % ("union" if m["t"]["u"] else "struct", self.body(m["t"], nm + "_"))
                continue
            b, d = self.spec(m["t"])
            s += "%s %s%s%s; " % (b, "" if m["hidden"] else nm, d, ": %d" % m["w"] if m["w"] >= 0 else "")
        return s

    def walk(self, t, path, prefix="m"):
        """C text of the steps of path inside type t; list of (text, type)"""
        out = []
        for x in path:
            if t["k"] == "arr":
                t = t["e"]
                out.append(("[%d]" % (x - 1), t, "m"))
                prefix = "m"
            else:
                m = t["ms"][x - 1]
                t = m["t"]
                if m["anon"]:
                    prefix = "%s%d_" % (prefix, x)
                    out.append(("", t, prefix))
                else:
                    out.append((".%s%d" % (prefix, x), t, "m"))
                    prefix = "m"
        return out

    def at(self, path):
        w = self.walk(self.root, path)
        return (w[-1][1], w[-1][2]) if w else (self.root, "m")

    def value(self, v, t, dyn):
        n = t["n"]
        if n == "ptr":
            return self.rng.choice(["&g_[%d]", "g_ + %d"]) % v
        w = self.rng.random()
        if dyn and w < 0.3:
            return "id_(%d)" % v
        if w < 0.1 and n in ("float", "double", "int", "long", "short"):
            return "%d.0" % v
        if w < 0.2:
            return "%d + %d" % (v - 1, 1)
        if w < 0.25 and v < 128:
            return "(char)%d" % v
        if w < 0.3 and v < 128:
            return "'\\%o'" % v
        return "%d" % v

    def string(self, vs, elem):
        pre = {"wchar": "L", "char16": "u"}.get(elem, "")
        s = "".join(chr(v) if v not in (34, 92) else "\\" + chr(v) for v in vs)
        if len(s) > 1 and self.rng.random() < 0.15 and "\\" not in s:
            return '%s"%s" %s"%s"' % (pre, s[:1], pre, s[1:])
        return '%s"%s"' % (pre, s)

    def text(self, dyn):
        out, first = "", True
        for tk in self.o["toks"]:
            k = tk["t"]
            if k == "bare":
                continue
            if k == "close":
                out += self.rng.choice(["}", "}", ", }"])
                first = False
                continue
            if not first:
                out += ", "
            if k == "open":
                out += "{"
                first = True
                continue
            if k == "des":
                t, p = self.at(tk["b"])
                w = self.walk(t, tk["p"][len(tk["b"]):], p)
                out += "".join(x for x, _, _ in w) + " = "
                first = True
                continue
            if k == "val":
                out += self.value(tk["v"], self.at(tk["p"])[0], dyn)
            else:
                out += self.string(tk["vs"], self.at(tk["p"])[0]["e"]["n"])
            first = False
        return out

    def read(self, obj, lim=40):
        body, exp = "", []
        ls = self.o["leaves"]
        if len(ls) > lim:
            nz = [l for l in ls if l["v"]]
            z = [l for l in ls if not l["v"]]
            ls = nz + self.rng.sample(z, min(len(z), max(lim - len(nz), 10)))
        for l in ls:
            t, _ = self.at(l["p"])
            e = obj + "".join(x for x, _, _ in self.walk(self.root, l["p"]))
            v = l["v"]
            if t["n"] == "ptr":
                body += "r_(%s ? %s - g_ : 0);" % (e, e)
            elif t["n"] in ("float", "double"):
                body += "r_((long)(%s * 8));" % e
                v *= 8
            else:
                body += "r_(%s);" % e
            exp.append(v)
        return body, exp


def item(o, rng):
    r = R(o, rng)
    spec, dims = r.spec(r.root)
    mode = rng.choice(["static", "file", "auto", "auto", "lit", "flit", "loop"])
    txt = r.text(mode in ("auto", "lit", "loop"))
    if mode in ("lit", "flit") and not txt.startswith("{"):
        mode = "static" if mode == "flit" else "auto"
    glob, body = "".join(r.decls), ""
    dirty = "int k = one; char d[%d]; for (int i = 0; i < %d; i++) d[i] = 85 * k;" % (64, 64)
    obj = "x"
    if mode == "static":
        body = "static %s x%s = %s;\n" % (spec, dims, txt)
    elif mode == "file":
        glob += "%s x@%s = %s;\n" % (rng.choice(["", "static ", "const ", "static const "]) + spec, dims, txt)
        obj = "x@"
    elif mode == "auto":
        body = "%s%s x%s = %s;\n" % (rng.choice(["", "const "]), spec, dims, txt)
    elif mode == "loop":      # initialized again on every entry
        rd, e = r.read("x")
        body = ""
        one = R(o, rng)
    if mode in ("static", "file", "auto"):
        rd, exp = r.read(obj)
        body += rd
        if r.root["k"] == "arr":
            body += "r_(sizeof %s / sizeof %s[0]);" % (obj, obj)
            exp.append(o["len"])
    elif mode == "loop":
        rd, exp = r.read("x")
        body = "for (int q = 0; q < 2; q++) { %s x%s = %s; if (q) { %s } for (int i = 0; i < sizeof x; i++) ((char *)&x)[i] = 77; }" % (spec, dims, txt, rd)
    else:
        ty = "%s%s" % (spec, dims)
        acc = "p" if r.root["k"] == "arr" else "(*p)"
        rd, exp = r.read(acc)
        pt = ("%s (*q)%s" if dims else "%s *q%s") % (spec, dims)
        e0 = r.root["e"] if r.root["k"] == "arr" else None
        if e0 is not None:
            s0, d0 = r.spec(e0)
            pdecl = ("%s (*p)%s" if d0 else "%s *p%s") % (s0, d0)
            val = "(%s)%s" % (ty, txt)
        else:
            pdecl = "%s *p" % spec
            val = "&(%s)%s" % (ty, txt)
        if mode == "flit":
            glob += "static %s = %s;\n" % (pdecl.replace("*p", "*p@"), val)
            body = rd.replace("(*p)", "(*p@)") if e0 is None else rd.replace("r_(p", "r_(p@").replace("((long)(p", "((long)(p@").replace("? p[", "? p@[")
        else:
            body = "%s = %s;\n%s" % (pdecl, val, rd)
            if e0 is not None:
                body += "r_(sizeof (%s)%s / sizeof *p);" % (ty, txt)
                exp.append(o["len"])
    code = glob + "void t@(void) {\n%s\n}\n" % body
    return dict(code=code, expect=" ".join(str(x) for x in exp), desc="initialization (%s)" % mode)


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 1 if c.quick else 8
    sim = c.tlc("InitList", cfg(3, 4, 14, 24, "TRUE", "FALSE"), mode="sim", num=8000 * n, depth=80, seed_salt=80)
    sim += c.tlc("InitList", cfg(2, 4, 14, 16, "TRUE", "TRUE"), mode="sim", num=5000 * n, depth=80, seed_salt=81)
    sim += c.tlc("InitList", cfg(1, 3, 8, 10, "FALSE", "FALSE", scal=["int", "char", "double"]), mode="sim", num=4000 * n, depth=60, seed_salt=82)
    for i, (f, w) in enumerate(((["ushort", "short"], 6), (["ushort", "uint", "ulong"], 7), (["uint", "int"], 15), (FIELDS, 12))):
        sim += c.tlc("InitList", cfg(2, 6, 12, 24, "FALSE", "FALSE", kinds=["bf", "bf2", "bf3", "pad", "agg"], fields=f, roots=["agg", "agg2", "arr"], width=w), mode="sim", num=600 * n, depth=60, seed_salt=83 + i)
    items = [item(o, rng) for o in sim]
    c.stats["initializers"] = len(items)
    c.replay(items, PRE, HARN, batch=100)
    c.sample({"source": items[-1]["code"], "expected": items[-1]["expect"]})
