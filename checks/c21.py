"""C21 the text written with -S and the object written with -c are the same program: X86.tla reads the text, decodes the bytes."""
import json, os, random, re, struct
from concurrent.futures import ThreadPoolExecutor
import vf, c01, c02, c03, c05, c08, c09

REG = {}
for _i, _n in enumerate("ax cx dx bx sp bp si di".split()):
    REG["r" + _n] = (_i, 8)
    REG["e" + _n] = (_i, 4)
    REG[_n] = (_i, 2)
    REG[_n[0] + "l" if _i < 4 else _n + "l"] = (_i, 1)
    if _i < 4:
        REG[_n[0] + "h"] = (_i + 104, 1)
for _i in range(8, 16):
    REG["r%d" % _i], REG["r%dd" % _i], REG["r%dw" % _i], REG["r%db" % _i] = (_i, 8), (_i, 4), (_i, 2), (_i, 1)
SECS = (".text", ".rodata", ".data")
RTYPE = {1: "64", 2: "PC32", 4: "PC32", 10: "32", 11: "32S"}
ESC = dict(n=10, t=9, r=13, b=8, f=12)


def le(v, n=8):
    return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))


def num(s):
    return int(s, 0)


def label(s):
    m = re.fullmatch(r"(.+?)([+-]\d+)?", s)
    return m[1], int(m[2] or 0)


def isnum(s):
    return re.fullmatch(r"[+-]?(0x[0-9a-fA-F]+|\d+)", s)


def operand(s):
    if s.startswith("*%"):
        return dict(k="*", n=REG[s[2:]][0])
    if s.startswith("%xmm"):
        return dict(k="x", n=int(s[4:]))
    if s.startswith("%"):
        n, z = REG[s[1:]]
        return dict(k="r", n=n, s=z)
    if s.startswith("$"):
        if isnum(s[1:]):
            return dict(k="i", v=le(num(s[1:])))
        n, a = label(s[1:])
        return dict(k="l", n=n, a=a)
    m = re.fullmatch(r"([+-]?\d*)\(%(\w+)\)", s)
    if m:
        return dict(k="m", b=REG[m[2]][0], d=le(int(m[1] or 0)))
    n, a = label(s)
    return dict(k="t", n=n, a=a)


def string(s):
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode("latin-1")
            i += 1
            continue
        m = re.match(r"[0-7]{1,3}", s[i + 1:])
        if m:
            out.append(int(m[0], 8) & 255)
            i += 1 + len(m[0])
        else:
            out.append(ESC.get(s[i + 1], ord(s[i + 1])))
            i += 2
    return out


def parse(text):
    """lines of the assembly text"""
    out = []
    def data(b):
        if out and out[-1]["k"] == "data" and len(out[-1]["b"]) < 64:
            out[-1]["b"] += b
        else:
            out.append(dict(k="data", b=list(b)))
    for l in text.split("\n"):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        w = l.split(None, 1)
        a = w[1].strip() if len(w) > 1 else ""
        if w[0] in (".section", ".text", ".data"):
            out.append(dict(k="section", s=a if w[0] == ".section" else w[0]))
        elif w[0] in (".global", ".globl"):
            out.append(dict(k="global", n=a))
        elif w[0] == ".align":
            out.append(dict(k="align", n=int(a)))
        elif w[0] == ".zero":
            out.append(dict(k="zero", n=int(a)))
        elif w[0] == ".byte" and isnum(a):
            data(le(num(a), 1))
        elif w[0] in (".quad", ".long", ".word", ".short") and isnum(a):
            data(le(num(a), dict(zip((".quad", ".long", ".word", ".short"), (8, 4, 2, 2)))[w[0]]))
        elif w[0] == ".quad":
            n, d = label(a)
            out.append(dict(k="addr", n=n, a=d))
        elif w[0] in (".string", ".ascii", ".asciz"):
            b = string(a[1:-1]) + ([] if w[0] == ".ascii" else [0])
            for i in range(0, len(b), 64):
                data(b[i:i + 64])
        elif w[0].endswith(":"):
            out.append(dict(k="label", n=w[0][:-1]))
        elif w[0].startswith("."):
            raise vf.CheckError("directive not known: " + l)
        else:
            out.append(dict(k="ins", m=w[0], ops=[operand(x.strip()) for x in a.split(",")] if a else []))
    return out


def elf(path):
    d = open(path, "rb").read()
    if d[:6] != b"\x7fELF\x02\x01":
        return None
    shoff, = struct.unpack_from("<Q", d, 0x28)
    shes, shn, shstr = struct.unpack_from("<HHH", d, 0x3a)
    sh = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * shes) for i in range(shn)]
    def s0(tab, o):
        b = sh[tab][4] + o
        return d[b:d.index(b"\0", b)].decode("latin-1")
    names = [s0(shstr, s[0]) for s in sh]
    secs = {n: dict(bytes=[], rels={}, align=64, w=n == ".data", x=n == ".text") for n in SECS}
    for n, s in zip(names, sh):
        if s[5] and n in secs and s[1] != 8:
            secs[n].update(bytes=list(d[s[4]:s[4] + s[5]]), align=max(s[8], 1), w=bool(s[2] & 1), x=bool(s[2] & 4))
        elif s[5] and s[1] in (1, 8) and s[2] & 2 and n not in secs:
            secs[n] = dict(bytes=list(d[s[4]:s[4] + s[5]]), rels={}, align=max(s[8], 1), w=bool(s[2] & 1), x=bool(s[2] & 4))
    syms, tab = {}, []
    for n, s in zip(names, sh):
        if s[1] != 2:
            continue
        for i in range(s[5] // 24):
            nm, info, oth, shx, val, size = struct.unpack_from("<IBBHQQ", d, s[4] + 24 * i)
            sec = names[shx] if 0 < shx < 0xff00 else ""
            name = s0(s[6], nm) if info & 15 != 3 else sec
            tab.append((name, sec, val))
            if i and info & 15 in (0, 1, 2):
                syms[name] = dict(s=sec, o=val, g=info >> 4 == 1)
    for n, s in zip(names, sh):
        if s[1] == 4:
            for i in range(s[5] // 24):
                off, info, add = struct.unpack_from("<QQq", d, s[4] + 24 * i)
                name, sec, val = tab[info >> 32]
                r = dict(t=RTYPE.get(info & 0xffffffff, "?"), w="s" if sec else "x", s=sec or name, o=(val if sec else 0) + add)
                secs[names[s[7]]]["rels"][str(off)] = r
    return dict(sections=secs, syms=syms)


def cut(items, size):
    for i in range(0, len(items), size):
        yield items[i:i + size]


def unit(prelude, items):
    return vf.DECLS + prelude + "\n" + "\n".join(it["code"].replace("@", "_%d" % j) for j, it in enumerate(items)) + "\n"


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    k = 1 if c.quick else 6
    units = []
    def add(prelude, items, n, per):
        if len(items) > n:
            items = rng.sample(items, n)
        for part in cut(items, per):
            units.append(unit(prelude, part))
    sim = c.tlc("CFlow", c01.cfg(26, 6, 4, 1, 24, c01.KINDS, c01.CONDS, c01.SETS, '{"l1","l2"}', "PickOne"), mode="sim", num=32 * k, depth=400, seed_salt=210)
    add(c01.PRELUDE, c01.items_of(sim, c.seed), 16 * k, 4)
    sim = c.tlc("IntExpr", c02.cfg(2, 7, 7, "{%s,%s,%s,\"sizeof\",\"&&\",\"||\",\",\",\"?:\"}" % (c02.BIN, c02.ASG, c02.UN), c02.FORMS, c02.CTX, "PickOne", "rand"), mode="sim", num=96 * k, depth=40, seed_salt=211)
    add("", [c02.item(o, rng) for o in sim], 64 * k, 8)
    sim = c.tlc("FloatExpr", c03.cfg(1, 6, 6, c03.OPS, '{"g","l","c","q","m","a","pa","lit"}', '{"val","store","cond","ret","arg"}', "PickOne"), mode="sim", num=96 * k, depth=120, seed_salt=212)
    add(c03.SETUP, [c03.item(o, rng) for o in sim], 64 * k, 8)
    sim = c.tlc("Objects", c05.cfg(2, 3, 4, 400, 20), mode="sim", num=80 * k, depth=70, seed_salt=213)
    add(c05.PRE, [c05.R(o, rng).item() for o in sim], 32 * k, 4)
    sim = c.tlc("InitList", c08.cfg(3, 4, 14, 24, "TRUE", "FALSE"), mode="sim", num=96 * k, depth=80, seed_salt=214)
    add(c08.PRE, [c08.item(o, rng) for o in sim], 64 * k, 8)
    sim = c.tlc("SysV", "CONSTANTS\nMaxAgg = 2\nMaxPar = 12\nMaxMem = 24\nVariadic = FALSE\nPick <- PickOne\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n", mode="sim", num=64 * k, depth=100, seed_salt=216)
    add("typedef __builtin_va_list va_list;\n" + c09.PRE, [f(o, rng) for o in sim for f in (c09.callee, c09.caller)], 32 * k, 4)
    sim = c.tlc("Operands", "CONSTANTS\nMaxObj = 6\nMaxStep = 14\nPick <- PickOne\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n", mode="sim", num=240 * k, depth=60, seed_salt=215)
    ops = [operands(o, rng) for o in sim]
    c.replay(ops, "", batch=40)
    add("", ops, 80 * k, 5)
    traces, srcs = [], []
    def one(j):
        src = os.path.join(c.dir, "u%d.c" % j)
        open(src, "w").write(units[j])
        s, o, g = src[:-2] + ".s", src[:-2] + ".o", src[:-2] + ".g.o"
        res = [vf.sh([c.cc, "-S", src, "-o", s], timeout=30), vf.sh([c.cc, "-c", src, "-o", o], timeout=30)]
        for m, (rc, so, se) in zip("Sc", res):
            if rc != 0:
                return "compiler(-%s) ended with %s: %s" % (m, rc, (so + se).decode(errors="replace")[-500:])
        rc, so, se = vf.sh(["as", s, "-o", g], timeout=30)
        if rc != 0:
            return "the assembler refuses the text: " + (so + se).decode(errors="replace")[:500]
        try:
            text = parse(open(s, encoding="latin-1").read())
        except (KeyError, ValueError, IndexError) as e:
            return "the text is not understood: %r" % e
        a, b = elf(o), elf(g)
        if a is None:
            return "the object is not an ELF object"
        return text, a, b
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for j, r in enumerate(ex.map(one, range(len(units)))):
            if isinstance(r, str):
                c.violation(r, {}, {"unit.c": units[j]})
            else:
                traces += [dict(text=r[0], obj=r[1]), dict(text=r[0], obj=r[2])]
                srcs += [(j, "object written with -c"), (j, "text assembled by as")]
    c.stats.update(units=len(units), lines=sum(len(t["text"]) for t in traces) // 2)
    f = os.path.join(c.dir, "traces.json")
    json.dump(traces, open(f, "w"))
    out = c.tlc("X86", 'CONSTANTS\nFile = "%s"\nINVARIANT Verdict\nINVARIANT Done\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n' % f, workers=vf.NCPU, timeout=1500)
    os.unlink(f)
    got = {}
    for o in out:
        got[o["u"]] = o
    for n, (j, what) in enumerate(srcs, 1):
        o = got.get(n)
        if o is None:
            raise vf.CheckError("no verdict on a trace")
        c.traces += 1
        c.executions += 1
        if o["err"]:
            ln = traces[n - 1]["text"][min(o["k"] - 2, len(traces[n - 1]["text"]) - 1)]
            c.violation("%s: %s" % (what, o["err"]), dict(line=ln), {"unit.c": units[j]})
    if units:
        c.sample({"source": units[-1][:1200]})


def operands(o, rng):
    """a function with objects of boundary sizes and constants at boundaries"""
    body, exp = "", []
    for i, z in enumerate(o["objs"], 1):
        body += "unsigned char o%d[%d];\n" % (i, z)
    for s in o["prog"]:
        if s["s"] == "store":
            body += "o%d[%d] = %d;\n" % (s["o"], s["i"], s["v"])
        elif s["s"] == "load":
            body += "r_(o%d[%d]);\n" % (s["o"], s["i"])
            exp.append(str(s["v"]))
        else:
            hi, lo = s["c"]
            v = (hi << 16) | lo if hi >= 0 else -(((-hi) << 16) - lo)
            t = s["t"]
            n = {"int": 32, "long": 64, "uint": 32, "ulong": 64, "short": 16, "char": 8}[t]
            r = v & ((1 << n) - 1)
            if t in ("int", "long", "short", "char") and r >> (n - 1):
                r -= 1 << n
            ct = {"uint": "unsigned", "ulong": "unsigned long"}.get(t, t)
            body += "{ %s v = (%s)%dL; rx_((unsigned long)(long)v); rx_((unsigned long)(v + (%s)%dL - (%s)1)); }\n" % (ct, ct, v, ct, 0, ct)
            w = r - 1
            if n == 32:
                w &= (1 << 32) - 1
                if t == "int" and w >> 31:
                    w -= 1 << 32
            exp += ["%x" % (r & (2 ** 64 - 1)), "%x" % (w & (2 ** 64 - 1))]
    return dict(code="void t@(void) {\n%s}" % body, expect=" ".join(exp), desc="operands at boundaries")
