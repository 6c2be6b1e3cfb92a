"""C12 linkage: two units generated by Linkage.tla; the symbol table of the compiled units and the run of the program are compared."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import vf, c21


def cfg(names, top, body):
    return "CONSTANTS\nNames = %d\nMaxTop = %d\nMaxBody = %d\nPick <- PickOne\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (names, top, body)


class R:
    def __init__(self, o, rng):
        self.o, self.rng, self.nq = o, rng, 0

    def nm(self, x):
        return "n%d_@" % x

    def decl(self, x, b):
        k = self.o["kind"][x - 1]
        return {"obj": "int %s", "fn": "int %s(void)", "ptr": "int *%s", "arr": "int %s[3]" if b else "int %s[]"}[k] % self.nm(x)

    def unit(self, w):
        out, rng = "", self.rng
        for d in self.o["top"][w - 1]:
            s, x, k = d["s"], d["x"], self.o["kind"][d["x"] - 1]
            pre = {"plain": "", "init": "", "extern": "extern ", "einit": "extern ", "static": "static ", "sinit": "static "}[s]
            if d["i"]:
                pre = rng.choice([pre + "inline ", "inline " + pre])
            if k == "fn":
                if s in ("plain", "extern", "static"):
                    out += pre + self.decl(x, False) + ";\n"
                else:
                    out += pre + self.decl(x, False) + " {\n" + "".join(self.stmt(t) + "\n" for t in self.body(w, x)) + "return %d;\n}\n" % d["v"]["v"]
            else:
                t = pre + self.decl(x, d["b"])
                if s in ("init", "sinit", "einit"):
                    if k == "ptr":
                        y = d["v"]["x"]
                        t += " = " + (self.nm(y) if self.o["kind"][y - 1] == "arr" else "&" + self.nm(y))
                    else:
                        t += " = " + self.ini(k, d["v"]["v"])
                out += t + ";\n"
        return out

    def body(self, w, x):
        return self.o["bodies"][w - 1][x - 1]

    def ini(self, k, v):
        return "%d" % v if k == "obj" else "{%d, %d, %d}" % (v, v + 1, v + 2)

    def stmt(self, t):
        s, rng = t["s"], self.rng
        if s == "open":
            return rng.choice(["{", "if (1) {", "for (int k = 0; k < 1; k++) {"])
        if s == "close":
            return "}"
        x, k = t["x"], self.o["kind"][t["x"] - 1]
        n = self.nm(x)
        if s in ("bextern", "bplain"):
            return ("extern " if s == "bextern" else "") + self.decl(x, t["b"]) + ";"
        if s in ("bstatic", "bauto"):
            return ("static " if s == "bstatic" else rng.choice(["", "auto "])) + self.decl(x, True) + " = " + self.ini(k, t["n"]) + ";"
        self.nq += 1
        q = "q%d" % self.nq
        if s == "call":
            return "r_(%s());" % n
        if s == "callp":
            return "{ int (*%s)(void) = %s%s; r_(%s()); }" % (q, rng.choice(["", "&"]), n, q)
        if s == "calls":
            return "{ static int (*%s)(void) = %s; r_((*%s)()); }" % (q, n, q)
        if s == "addr":
            return "r_(%s != 0);" % n
        if k == "ptr":
            return "r_(%s ? *%s : -1);" % (n, n)
        e = n if k == "obj" else rng.choice(["%s[%d]", "*(%s + %d)"]) % (n, t["i"])
        a = "&" + n if k == "obj" else rng.choice(["%s + %d", "&%s[%d]"]) % (n, t["i"])
        return {"read": "r_(%s);" % e, "write": "%s = %d;" % (e, t["n"]), "add": "%s += %d;" % (e, t["n"]),
                "sread": "{ static int *%s = %s; r_(*%s); }" % (q, a, q), "pread": "{ int *%s = %s; r_(*%s); }" % (q, a, q),
                "pwrite": "{ int *%s = %s; *%s = %d; }" % (q, a, q, t["n"])}[s]

    def rest(self):
        out = ""
        for x in self.o["rest"]:
            k, n = self.o["kind"][x - 1], self.nm(x)
            out += {"obj": "int %s = %d;\n" % (n, 500 + x), "arr": "int %s[3] = {%d, %d, %d};\n" % (n, 500 + x, 501 + x, 502 + x),
                    "ptr": "static int h%s = 55; int *%s = &h%s;\n" % (n, n, n), "fn": "int %s(void) { return %d; }\n" % (n, 700 + x)}[k]
        return out

    def entries(self):
        return list(self.o["entries"]) * 2


def symbols(obj):
    rc, so, se = vf.sh(["nm", obj])
    if rc:
        raise vf.CheckError("nm: " + se.decode())
    t = {}
    for l in so.decode().splitlines():
        f = l.split()
        t.setdefault(f[-1], set()).add("undef" if f[-2] == "U" else "global" if f[-2].isupper() else "local")
    return t


def extents(obj):
    """bytes from every symbol to the next one of its section"""
    o = c21.elf(obj)
    at = {}
    for y in o["syms"].values():
        at.setdefault(y["s"], set()).add(y["o"])
    res = {}
    for n, y in o["syms"].items():
        if y["s"] in o["sections"] and y["s"] != ".bss":
            res[n] = min([a for a in at[y["s"]] if a > y["o"]] + [len(o["sections"][y["s"]]["bytes"])]) - y["o"]
    return res


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 1 if c.quick else 8
    sim = c.tlc("Linkage", cfg(4, 10, 7), mode="sim", num=4000 * n, depth=260, seed_salt=120)
    sim += c.tlc("Linkage", cfg(7, 22, 10), mode="sim", num=1500 * n, depth=500, seed_salt=121)
    sim += c.tlc("Linkage", cfg(2, 10, 12), mode="sim", num=1500 * n, depth=260, seed_salt=122)
    rs = [R(o, rng) for o in sim]
    items = [dict(r=r, u=[r.unit(1), r.unit(2)], rest=r.rest(), expect=" ".join(map(str, r.o["out"]))) for r in rs]
    ho = c.harness_obj()
    jobs = [(m, k) for m in ("c", "S") for k in range(0, len(items), 60)]

    def attempt(its, mode):
        """list of (item, what is wrong)"""
        base = c.tmp("")
        objs = []
        def text(i, s):
            return s.replace("@", str(i))
        for w in (0, 1):
            f = base + ".%d.c" % (w + 1)
            open(f, "w").write("void r_(long);\n" + "".join(text(i, it["u"][w]) for i, it in its))
            # the second unit comes from the reference compiler in one half of the batches
            if w == 1 and its[0][0] // 60 % 2:
                rc, so, se = vf.sh(["gcc", "-w", "-O0", "-fno-common", "-fno-pie", "-c", f, "-o", f[:-2] + ".o"])
                if rc:
                    raise vf.CheckError("gcc refuses: " + se.decode(errors="replace")[:2000])
            else:
                ok, msg = c.compile(f, f[:-2] + ".o", mode)
                if not ok:
                    if len(its) == 1:
                        return [(its[0], msg)]
                    h = len(its) // 2
                    return attempt(its[:h], mode) + attempt(its[h:], mode)
            objs.append(f[:-2] + ".o")
        bad = []
        for w in (0, 1):
            t = symbols(objs[w])
            room = extents(objs[w])
            for i, it in its:
                for x in range(1, len(it["r"].o["kind"]) + 1):
                    got, want = t.get("n%d_%d" % (x, i), {"absent"}), it["r"].o["sym"][w][x - 1]
                    if want == "local" and got & {"global", "undef"} or want != "local" and got != {want} and not (want == "undef" and got == {"absent"}):
                        bad.append(((i, it), "unit %d: n%d is %s in the symbol table, %s expected" % (w + 1, x, "/".join(sorted(got)), want)))
                        break
                    need, have = it["r"].o["ext"][w][x - 1], room.get("n%d_%d" % (x, i), 64)
                    if have < need:
                        bad.append(((i, it), "unit %d: n%d needs %d bytes and has %d" % (w + 1, x, need, have)))
                        break
        if bad:
            wrong = {i for (i, _), _ in bad}
            good = [p for p in its if p[0] not in wrong]
            return bad + (attempt(good, mode) if good else [])
        m = base + ".m.c"
        with open(m, "w") as f:
            f.write("#include <stdio.h>\n#include <stdlib.h>\nvoid r_(long);\n")
            for i, it in its:
                f.write(text(i, it["rest"]))
                ents = it["r"].entries()
                for e in sorted({e[1] for e in ents}):
                    f.write("int n%d_%d(void);\n" % (e, i))
                f.write("static void t%d(void) {%s}\n" % (i, "".join(" r_(n%d_%d());" % (e[1], i) for e in ents)))
            f.write("int main(int argc, char **argv) { switch (atoi(argv[1])) {\n" +
                    "".join('case %d: printf("#%d"); t%d(); puts(""); fflush(stdout);\n' % (k, i, i) for k, (i, it) in enumerate(its)) + "} return 0; }\n")
        x = base + ".x"
        rc, so, se = vf.sh(["gcc", "-w", "-no-pie", "-fno-pie", "-z", "noexecstack", m, *objs, ho, "-o", x])
        if rc:
            if len(its) == 1:
                return [(its[0], "the units do not link: " + se.decode(errors="replace")[-800:])]
            h = len(its) // 2
            return attempt(its[:h], mode) + attempt(its[h:], mode)
        k = 0
        while k < len(its):
            rc, so, se = vf.sh([x, str(k)], timeout=10, mem_mb=2048)
            lines = [l for l in so.decode(errors="replace").split("\n") if l.startswith("#")]
            for l in lines:
                i, _, v = l[1:].partition(" ")
                if int(i) != its[k][0]:
                    break
                if v != its[k][1]["expect"]:
                    bad.append((its[k], "output %s" % v))
                k += 1
            if k < len(its) and rc:
                bad.append((its[k], "the program ended with %s" % rc))
                k += 1
            elif k < len(its):
                break
        c.executions += len(its)
        c.drop(*objs, m, x, *(base + ".%d.c" % w for w in (1, 2)))
        return bad

    c.traces += len(items)
    stop = [0]
    def job(j):
        mode, k = j
        if stop[0] > 5:
            return mode, []
        r = attempt(list(enumerate(items))[k:k + 60], mode)
        stop[0] += len(r)
        return mode, r
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for mode, bad in ex.map(job, jobs):
            for (i, it), why in bad:
                again = attempt([(i, it)], mode) if len(c.violations) < 5 else []
                if again:
                    c.violation("linkage", dict(mode="-" + mode, what=again[0][1], expected=it["expect"]),
                                {"unit1.c": it["u"][0].replace("@", str(i)), "unit2.c": it["u"][1].replace("@", str(i)), "rest.c": it["rest"].replace("@", str(i))})
    st = {}
    for it in items:
        for w in (0, 1):
            for v in it["r"].o["sym"][w]:
                st[v] = st.get(v, 0) + 1
    c.stats.update(symbols=st)
    c.sample({"unit1": items[-1]["u"][0], "unit2": items[-1]["u"][1], "expected": items[-1]["expect"], "symbols": items[-1]["r"].o["sym"]})
