"""C06 layout: structures of Layout.tla; sizes, alignments, offsets and the bits each member occupies, in compiled code."""
import random
import vf

CT = dict(bool="_Bool", char="char", schar="signed char", uchar="unsigned char", short="short", ushort="unsigned short", int="int", uint="unsigned",
          long="long", ulong="unsigned long", llong="long long", ullong="unsigned long long", float="float", double="double", enum="enum E_")
PRE = "enum E_ { e0_, e1_ };\n"
FIELDS = ["bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"]
KINDS = ["s", "s2", "arr", "arr2", "agg", "aggarr", "anon", "alignas", "field", "field2", "flex"]


def st(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


def cfg(abi, agg, mem, kinds, fields, widths, packs, pick, size=400, events=12):
    return ('CONSTANTS\nAbi = "%s"\nMaxAgg = %d\nMaxMem = %d\nKinds = %s\nFields = %s\nWidths = %s\nPacks = %s\nEvents = %d\nMaxSize = %d\nPick <- %s\n'
            "INVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"
            % (abi, agg, mem, st(kinds), st(fields), st(widths), st(packs), events, size, pick))


class Render:
    def __init__(self, o, rng):
        self.o, self.rng = o, rng
        self.pool = o["pool"]

    def member(self, m, name):
        """declaration of one member"""
        t, dims = m["t"], ""
        while t["k"] == "arr":
            dims = dims + "[%s]" % (t["c"] or "")
            t = t["e"]
        if m["anon"]:
            return self.body(t["i"], name + "_") + ";"
        if m["w"] >= 0:
            return "%s %s: %d;" % (CT[t["n"]], name if m["named"] else "", m["w"])
        al = ""
        if m["al"]:
            al = "_Alignas(%s) " % (m["al"] if m["al"] > 8 or self.rng.random() < 0.6 else {1: "char", 2: "short", 4: "int", 8: "double"}[m["al"]])
        if t["k"] == "g":
            return "%s%s %s%s;" % (al, self.tag(t["i"]), name, dims)
        if t["n"] == "ptr":
            return "%schar *%s%s;" % (al, name, dims)
        if t["n"] == "fptr":
            return "%svoid (*%s%s)(int);" % (al, name, dims)
        return "%s%s %s%s;" % (al, CT[t["n"]], name, dims)

    def tag(self, i):
        return "%s S@_%d" % ("union" if self.pool[i - 1]["u"] else "struct", i)

    def body(self, i, prefix, tag=""):
        p = self.pool[i - 1]
        ms = " ".join(self.member(m, prefix + "m%d" % (j + 1)) for j, m in enumerate(p["ms"]))
        kw = "union" if p["u"] else "struct"
        a = "__attribute__((packed))" if p["attr"] else ""
        return "%s %s { %s } %s" % (kw, tag, ms, a) if self.rng.random() < 0.5 else "%s %s %s { %s }" % (kw, a, tag, ms)

    def decls(self):
        out = []
        for e in self.o["events"]:
            k, n = e["e"], e["n"]
            if k == "decl":
                out.append(self.body(n, "", "S@_%d" % n) + ";")
            else:
                out.append("#pragma pack(%s)" % {"set": str(n), "clear": "", "push": "push", "pushn": "push, %d" % n, "pop": "pop"}[k])
        return "\n".join(out) + "\n#pragma pack()\n"

    def path(self, i, path):
        """C spelling of a path from an object of structure i"""
        s, prefix, t = "", "", dict(k="g", i=i)
        for x in path:
            if x < 0:
                s += "[%d]" % (-x - 1)
                t = t["e"]
                prefix = ""
            else:
                m = self.pool[t["i"] - 1]["ms"][x - 1]
                if m["anon"]:
                    prefix += "m%d_" % x
                else:
                    s += ".%sm%d" % (prefix, x)
                    prefix = ""
                t = m["t"]
        return s


def item(o, rng):
    r = Render(o, rng)
    code = r.decls()
    body, exp, stat = "", [], 0
    for i, p in enumerate(r.pool, 1):
        tg = r.tag(i)
        body += "r_(sizeof(%s)); r_(_Alignof(%s));" % (tg, tg)
        exp += [p["size"], p["align"]]
        body += "{ static union { char b[%d]; %s s; } u; char *p = (char *)&u;" % (p["size"] + 64, tg)
        ls = p["leaves"]
        if len(ls) > 12:
            ls = rng.sample(ls, 12)
        for l in ls:
            pa = r.path(i, l["path"])
            if l["w"] < 0:
                w = rng.randrange(3)
                if w == 0:
                    body += "r_((char *)&u.s%s - p);" % pa
                elif w == 1:
                    body += "r_((unsigned long)&((%s *)0)->%s);" % (tg, pa[1:])
                else:
                    body += "{ %s *q = &u.s; r_((char *)&q->%s - p); }" % (tg, pa[1:])
                exp.append(l["pos"] // 8)
            else:
                n = p["size"]
                body += "for (int i = 0; i < %d; i++) p[i] = 0; u.s%s = %s; rb_(p, %d);" % (n, pa, "1" if l["n"] == "bool" else "-1", n)
                v = ((1 << l["w"]) - 1) << l["pos"]
                exp.append(v.to_bytes(n, "little").hex())
        body += "}"
        body += "{ static %s a[2]; r_((char *)&a[1] - (char *)a); r_(sizeof a); }" % tg
        exp += [p["size"], 2 * p["size"]]
    code += "void t@(void) { %s }" % body
    return dict(code=code, expect=" ".join(str(x) for x in exp), desc="layout")


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    q = c.quick
    W = list(range(0, 34)) + [63, 64]
    n = 1 if q else 8
    for abi, salt in (("sysv", 60), ("ms", 65)):
        fl = ("-fabi=ms",) if abi == "ms" else ()
        if abi == "ms" and c.ref:         # long has four bytes
            CT["long"], CT["ulong"] = "int", "unsigned"
        sim = c.tlc("Layout", cfg(abi, 4, 8, KINDS, FIELDS, W, [1, 2, 4, 8, 16], "PickOne"), mode="sim", num=4000 * n, depth=60, seed_salt=salt)
        sim += c.tlc("Layout", cfg(abi, 2, 14, ["s", "field", "field2", "field3", "field4"], FIELDS, W, [], "PickOne"), mode="sim", num=3000 * n, depth=60, seed_salt=salt + 1)
        sim += c.tlc("Layout", cfg(abi, 3, 5, ["s", "agg", "aggarr", "anon"], FIELDS, W, [1, 2, 4, 8], "PickOne"), mode="sim", num=2000 * n, depth=60, seed_salt=salt + 2)
        items = [item(o, rng) for o in sim]
        c.stats["structures_" + abi] = sum(len(o["pool"]) for o in sim)
        c.replay(items, PRE, batch=100, modes=("c",), flags=fl)
        c.sample({"source": items[-1]["code"], "expected": items[-1]["expect"]})
