"""C05 objects: memory histories from Objects.tla, replayed in compiled code over objects of every storage duration."""
import random, struct
import vf
from c06 import CT as CT6, st

CT = dict(CT6, float="float", double="double")
SC = ["char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
KINDS = ["s", "s2", "arr", "arr2", "agg", "agg2", "aggarr", "ptr", "ptrarr", "ptrptr", "aggptr", "rowptr"]
SIZE = dict(char=1, schar=1, uchar=1, short=2, ushort=2, int=4, uint=4, float=4, long=8, ulong=8, double=8)
HARN = vf.HARNESS + "int one = 1, zero = 0;\n"


def cfg(agg, mem, obj, size, stmt, scal=SC, kinds=KINDS, pick="PickOne"):
    return ("CONSTANTS\nMaxAgg = %d\nMaxMem = %d\nMaxObj = %d\nMaxSize = %d\nMaxStmt = %d\nScalars = %s\nObjKinds = %s\nPick <- %s\n"
            "INVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (agg, mem, obj, size, stmt, st(scal), st(kinds), pick))


class R:
    def __init__(self, o, rng):
        self.o, self.rng, self.pool, self.objs = o, rng, o["pool"], o["objs"]
        self.glob = "".join("%s G%d@;\n" % (self.kw(i), i) for i in range(1, len(self.pool) + 1))
        for i, p in enumerate(self.pool, 1):
            self.glob += "%s G%d@ { %s };\n" % (self.kw(i), i, " ".join(self.decl(m["t"], "m%d" % j) + ";" for j, m in enumerate(p["ms"], 1)))
        self.nf = 0

    def kw(self, i):
        return "union" if self.pool[i - 1]["u"] else "struct"

    def decl(self, t, name):
        if t["k"] == "s":
            return "%s %s" % (CT[t["n"]], name)
        if t["k"] == "g":
            return "%s G%d@ %s" % (self.kw(t["i"]), t["i"], name)
        if t["k"] == "arr":
            return self.decl(t["e"], "%s[%d]" % (name, t["c"]))
        return self.decl(t["t"], "(*%s)" % name if t["t"]["k"] == "arr" else "*" + name)

    def has_union(self, t):
        if t["k"] == "g":
            return self.pool[t["i"] - 1]["u"] or any(self.has_union(m["t"]) for m in self.pool[t["i"] - 1]["ms"])
        return t["k"] == "arr" and self.has_union(t["e"])

    def idx(self, i):
        w = self.rng.random()
        if w < 0.5:
            return "%d" % i
        if w < 0.6:
            return "%d * one" % i
        if w < 0.7:
            return "(zero + %d)" % i
        if w < 0.8:
            return "(char)%d" % i
        if w < 0.9 or i < 0:
            return "%dL * one" % i
        return "(%du + zero)" % i

    def elem(self, a, i):
        w = self.rng.random()
        if w < 0.65:
            return "%s[%s]" % (a, self.idx(i))
        if w < 0.9:
            return "(*(%s + %s))" % (a, self.idx(i)) if i >= 0 else "(*(%s - %s))" % (a, self.idx(-i))
        return "(%s)[%s]" % (self.idx(i), a) if i >= 0 else "%s[%d]" % (a, i)

    def walk(self, ref):
        """(text, type, text of the array and index if the last step is an element)"""
        b, path = ref["base"], ref["path"]
        part = None
        if b["k"] == "o":
            x, t = self.name[b["o"]], self.objs[b["o"] - 1]
        else:
            px, pt, _ = self.walk(b["l"])
            t = pt["t"]
            if b["i"] == 0 and path and t["k"] == "g" and self.rng.random() < 0.7:
                x, t = "%s->m%d" % (px, path[0]), self.pool[t["i"] - 1]["ms"][path[0] - 1]["t"]
                path = path[1:]
            elif b["i"] == 0 and self.rng.random() < 0.6:
                x = "(*%s)" % px
            else:
                x, part = self.elem(px, b["i"]), (px, b["i"])
        for s in path:
            if t["k"] == "arr":
                part = (x, s - 1)
                x, t = self.elem(x, s - 1), t["e"]
            else:
                part = None
                x, t = "%s.m%d" % (x, s), self.pool[t["i"] - 1]["ms"][s - 1]["t"]
                if self.rng.random() < 0.05:
                    x = "(%s)" % x
        return x, t, part

    def lv(self, ref):
        x = self.walk(ref)[0]
        return "(*&%s)" % x if self.rng.random() < 0.05 else x

    def value(self, bs, n):
        b = bytes(bs)
        if n == "float":
            return repr(struct.unpack("<f", b)[0]) + self.rng.choice(["", "f"])
        if n == "double":
            return repr(struct.unpack("<d", b)[0])
        return "%s%s" % (self.int_(bs, n) if self.int_(bs, n) != -(1 << 63) else "(-9223372036854775807L - 1)", "ul" if n == "ulong" else "")

    def int_(self, bs, n):
        return int.from_bytes(bytes(bs), "little", signed=n not in ("uchar", "ushort", "uint", "ulong"))

    def show(self, x, t, v):
        """statement that prints a scalar, and what it prints"""
        if v["k"] == "p":
            return "r_((char *)%s - (char *)&%s);" % (x, self.name[v["o"]]), v["off"]
        n = v["t"]
        if n in ("float", "double"):
            f = struct.unpack("<f" if n == "float" else "<d", bytes(v["b"]))[0]
            return "r_((long)(%s * 16));" % x, int(f * 16)
        i = self.int_(v["b"], n)
        return "r_((long)%s);" % x, i - (1 << 64) if i >= 1 << 63 else i

    def item(self):
        rng = self.rng
        self.name, body, exp, self.open = {}, "", [], []
        for i, t in enumerate(self.objs, 1):
            w = rng.random()
            self.name[i] = "o%d" % i
            if w < 0.15:
                self.name[i] = "o%d@" % i
                self.glob += rng.choice(["", "static "]) + self.decl(t, self.name[i]) + ";\n"
            elif w < 0.25:
                body += "static %s;\n" % self.decl(t, self.name[i])
            elif t["k"] == "arr" and w < 0.45:
                body += self.decl(t["e"], "%s[%s]" % (self.name[i], rng.choice(["one * %d", "zero + %d"]) % t["c"])) + ";\n"
                body += "for (unsigned long q = 0; q < sizeof %s; q++) ((char *)%s)[q] = 0;\n" % (self.name[i], self.name[i])
            elif self.has_union(t):
                body += self.decl(t, self.name[i]) + ";\n"
                body += "for (unsigned long q = 0; q < sizeof %s; q++) ((char *)&%s)[q] = 0;\n" % (self.name[i], self.name[i])
            elif t["k"] == "g" and w < 0.6:      # reached through a compound literal
                body += "%s = &(%s){0};\n" % (self.decl(dict(k="p", t=t), "cl%d" % i), self.decl(t, ""))
                self.name[i] = "(*cl%d)" % i
            else:
                body += "%s = %s;\n" % (self.decl(t, self.name[i]), "0" if t["k"] in ("s", "p") else "{0}")
        for s in self.o["prog"]:
            body += self.stmt(s, exp) + "\n"
        for f in self.o["final"]:
            if f["v"]["k"] != "none":
                x, e = self.show(self.lv(f["l"]), f["t"], f["v"])
                body += x
                exp.append(e)
        return dict(code=self.glob + "void t@(void) {\n%s}" % body, expect=" ".join(str(x) for x in exp), desc="objects")

    def stmt(self, s, exp):
        rng, k = self.rng, s["s"]
        if k == "store":
            return "%s = %s;" % (self.lv(s["l"]), self.value(s["v"], s["t"]["n"]))
        if k == "point":
            x, t, part = self.walk(s["r"])
            if part and rng.random() < 0.5:
                x = "%s + %s" % (part[0], self.idx(part[1] + s["e"])) if part[1] + s["e"] >= 0 else "%s - %d" % (part[0], -part[1] - s["e"])
            else:
                x = "&%s%s" % (x, " + 1" if s["e"] else "")
            return "%s = %s;" % (self.lv(s["l"]), x)
        if k == "move":
            x, n = self.lv(s["l"]), s["k"]
            w = rng.random()
            if n in (1, -1) and w < 0.5:
                return (rng.choice(["%s++;", "++%s;"]) if n == 1 else rng.choice(["%s--;", "--%s;"])) % x
            if w < 0.6:
                return "%s += %s;" % (x, self.idx(n))
            if w < 0.8 or n < 0:
                return "%s -= %s;" % (x, self.idx(-n)) if n <= 0 else "%s -= %d;" % (x, -n)
            return rng.choice(["%s = &%s[%d];", "%s = %s + %d;"]) % (x, self.lv(s["l"]), n)
        if k == "copy":
            a, b = self.lv(s["l"]), self.lv(s["r"])
            if "alt" in s:
                d = self.lv(s["alt"])
                b = rng.choice(["one ? %s : %s" % (b, d), "zero ? %s : %s" % (d, b), "(zero, %s)" % b])
            return "%s = %s;" % (a, b)
        if k == "pass":
            self.nf += 1
            p = self.inner("x", s["t"], s["x"])
            self.glob += "static %s { %s = %s; return x; }\n" % (self.decl(s["t"], "f%d_@(%s)" % (self.nf, self.decl(s["t"], "x"))), p, self.value(s["v"], s["xt"]["n"]))
            return "%s = f%d_@(%s);" % (self.lv(s["l"]), self.nf, self.lv(s["r"]))
        if k == "read":
            x, e = self.show(self.lv(s["l"]), s["t"], s["v"])
            if s["on"]:
                exp.append(e)
            return x
        if k in ("rbyte", "wbyte"):
            x = self.lv(s["l"])
            x = rng.choice(["((unsigned char *)&%s)[%d]", "*((unsigned char *)&%s + %d)"]) % (x, s["i"])
            if k == "wbyte":
                return "%s = %d;" % (x, s["v"])
            if s["on"]:
                exp.append(s["v"])
            return "r_(%s);" % x
        if k == "diff":
            a, b = self.lv(s["l"]), self.lv(s["r"])
            if s["on"]:
                d = s["v"]
                exp.extend([d, (d < 0) + 2 * (d <= 0) + 4 * (d == 0) + 8 * (d != 0) + 16 * (d > 0) + 32 * (d >= 0)])
            return "r_(%s - %s); r_((%s < %s) + 2 * (%s <= %s) + 4 * (%s == %s) + 8 * (%s != %s) + 16 * (%s > %s) + 32 * (%s >= %s));" % ((a, b) * 7)
        if k == "open":
            on = s["on"]
            self.open.append(s["k"])
            return {"if": "if (%s) {" % (rng.choice(["one", "!zero"]) if on else rng.choice(["zero", "one > 1"])),
                    "loop": rng.choice(["for (int k = 0; k < %s; k++) {", "for (int w = %s; w; w--) {"]) % ("one" if on else "zero"),
                    "do": "do {", "switch": "switch (one) { case 7:; break; case %d: {" % (1 if on else 2)}[s["k"]]
        if k == "else":
            return "} else {"
        if k == "close":
            return {"do": "} while (zero);", "switch": "} }"}.get(self.open.pop(), "}")
        return ";"

    def inner(self, x, t, path):
        for s in path:
            if t["k"] == "arr":
                x, t = "%s[%d]" % (x, s - 1), t["e"]
            else:
                x, t = "%s.m%d" % (x, s), self.pool[t["i"] - 1]["ms"][s - 1]["t"]
        return x


PRE = "extern int one, zero;\n"


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 1 if c.quick else 8
    sim = c.tlc("Objects", cfg(2, 3, 4, 48, 20), mode="sim", num=3000 * n, depth=70, seed_salt=50)
    sim += c.tlc("Objects", cfg(0, 1, 4, 24, 24, kinds=["s", "s2", "ptr", "ptr2", "ptrptr", "arr"]), mode="sim", num=3000 * n, depth=70, seed_salt=51)
    sim += c.tlc("Objects", cfg(2, 3, 3, 40, 24, scal=["char", "ushort", "int", "long"], kinds=["s", "arr", "agg", "agg2", "aggptr", "aggptr2", "aggarr"]), mode="sim", num=2000 * n, depth=70, seed_salt=52)
    items = [R(o, rng).item() for o in sim]
    c.stats["histories"] = len(items)
    c.replay(items, PRE, HARN, batch=60)
    c.sample({"source": items[-1]["code"], "expected": items[-1]["expect"]})
