"""C07 bit-fields: histories of accesses from BitField.tla, replayed in compiled code through every way to reach the object."""
import random
import vf
from c06 import CT, st

TYPES = ["bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"]


def cfg(mem, ops, types, widths, union, pick):
    return ("CONSTANTS\nMaxMem = %d\nMaxOps = %d\nTypes = %s\nWidths = %s\nUnion = %s\nPick <- %s\nPROPERTY Frame\nINVARIANT Loads\nINVARIANT Emit\n"
            "CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n" % (mem, ops, st(types), st(widths), union, pick))


def lit(h):
    v = int(h, 16)
    if v >= 1 << 63:
        v -= 1 << 64
    if v == -(1 << 63):
        return "(-9223372036854775807 - 1)", v
    return ("%d" % v if v >= 0 else "(%d)" % v), v


def item(o, rng):
    kw = "union" if o["u"] else "struct"
    ms = o["ms"]
    decl = "%s S@ { " % kw
    for i, m in enumerate(ms, 1):
        nm = "m%d" % i if m["named"] else ""
        decl += ("%s %s: %d; " % (CT[m["t"]], nm, m["w"])) if m["bf"] else "%s %s; " % (CT[m["t"]], nm)
    decl += "};\n"
    paths = rng.choice([["x"], ["p->"], ["(*p)"], ["a[1]", "p->"], ["a[one]"], ["n.b", "p->"], ["get@()->"], ["a[k++]"], ["x", "p->"], ["(*pp)->", "p->"]])
    first = paths[0]
    T = "%s S@" % kw
    ini = o["init"]
    auto = ini["k"] == "auto" and not o["u"]
    names = [i for i, m in enumerate(ms, 1) if m["named"]]
    vs = [lit(h)[0] for h in ini["vs"]]
    if ini["k"] in ("static", "auto"):
        if rng.random() < 0.3:
            lst = [".m%d = %s" % (i, v) for i, v in zip(names, vs)]
            rng.shuffle(lst)
            ilist = "{ " + ", ".join(lst) + " }"
        else:
            ilist = "{ " + ", ".join(vs) + " }"
    else:
        ilist = "{0}"
    body = ""
    if first.startswith("a["):
        obj, dcl, ini_s = "a[1]", "%s a[3]" % T, "{ %s, %s, %s }" % (ilist, ilist, ilist) if ini["k"] in ("static", "auto") else "{ {0} }"
    elif first == "n.b":
        obj, dcl, ini_s = "n.b", "struct { char a; %s b; char c; } n" % T, "{ -1, %s, -1 }" % ilist
    else:
        obj, dcl, ini_s = "x", "%s x" % T, ilist
    glob = ""
    if first == "get@()->":
        glob = "static %s *gp@; static int gc@; static %s *get@(void) { gc@++; return gp@; }\n" % (T, T)
    body += ("" if auto else "static ") + "%s = %s; %s *p = &%s; %s **pp = &p; int one = 1; int k = 1; %s y; (void)one; (void)k; (void)pp; (void)y;\n" % (dcl, ini_s, T, obj, T, T)
    if glob:
        body += "gp@ = p; gc@ = 0;\n"
    if ini["k"] in ("zero", "ones"):
        body += "for (int i = 0; i < %d; i++) ((unsigned char *)p)[i] = %d;\n" % (o["size"], 255 if ini["k"] == "ones" else 0)
    exp = []
    cnt = {"k": 0, "get": 0}
    def acc(i):
        pa = rng.choice(paths)
        if pa == "a[k++]":       # at most once for each operation
            if cnt["k"]:
                pa = "p->"
            cnt["k"] += 1
            if cnt["k"] > 1:
                cnt["k"] = 1
        if pa.startswith("get"):
            cnt["get"] += 1
        return pa + ("" if pa.endswith(">") else ".") + "m%d" % i
    for op in o["ops"]:
        k = op["k"]
        v = int(op["v"], 16)
        sv = v - (1 << 64) if v >= 1 << 63 else v
        if paths == ["a[k++]"]:
            body += "k = 1; "
            cnt["k"] = 0
        i = op["i"]
        if k == "move":
            body += rng.choice(["y = *p; for (int i = 0; i < %d; i++) ((unsigned char *)p)[i] = 90; *p = y;\n" % o["size"], "y = *p; *p = y;\n"])
            continue
        if k in ("=", "chain", "copy") or k.endswith("="):
            if k == "chain":
                e = "%s = %s = %s" % (acc(i), acc(op["j"]), lit(op["ah"])[0])
            elif k == "copy":
                e = "%s = %s" % (acc(i), acc(op["j"]))
            else:
                l, n = lit(op["ah"])
                if rng.random() < 0.4:
                    body += "{ %s w = %s; " % ("long" if abs(n) >= 1 << 31 or (k == "=" and rng.random() < .5) else rng.choice(["int", "int", "short" if abs(n) < 30000 else "int"]), l)
                    l, close = "w", "}"
                else:
                    close = ""
                e = "%s %s %s" % (acc(i), k, l)
                if rng.random() < 0.6:
                    body += "r_(%s);%s\n" % (e, close)
                    exp.append(sv)
                else:
                    body += "%s;%s\n" % (e, close)
                e = None
            if e:
                if rng.random() < 0.6:
                    body += "r_(%s);\n" % e
                    exp.append(sv)
                else:
                    body += "%s;\n" % e
        elif k in ("++p", "--p", "p++", "p--"):
            e = acc(i)
            e = k[:2] + e if k[2] == "p" else e + k[1:]
            if rng.random() < 0.6:
                body += "r_(%s);\n" % e
                exp.append(sv)
            else:
                body += "%s;\n" % e
        else:
            a = acc(i)
            n = op["n"]
            if k == "switch":
                body += "switch (%s) { case %d: r_(1); break; default: r_(0); }\n" % (a, n)
            elif k == "cond":
                body += rng.choice(["r_(%s ? 1 : 0);\n", "if (%s) r_(1); else r_(0);\n", "r_(!!%s);\n", "r_((_Bool)%s);\n"]) % a
            else:
                body += "r_(%s);\n" % {"val": a, "not": "!" + a, "logic": rng.choice(["%s && 1", "0 || %s"]) % a, "neg": "-" + a, "cmp": "%s - %d < 0" % (a, n), "compl": "~" + a,
                                        "less": "-1 < %s" % a, "shift": "%s >> %d" % (a, n % 31)}[k]
            exp.append(sv)
        if paths == ["a[k++]"]:
            body += "r_(k);"
            exp.append(1 + cnt["k"])
    if first == "get@()->":
        body += "r_(gc@);"
        exp.append(cnt["get"])
    for i in names:
        v = int(o["vals"][i - 1], 16)
        body += "r_(p->m%d);" % i
        exp.append(v - (1 << 64) if v >= 1 << 63 else v)
    if not auto:
        body += "rb_(p, %d);" % o["size"]
        exp.append(bytes(o["bytes"]).hex())
    if first == "n.b":
        body += "r_(n.a); r_(n.c);"
        exp += [-1, -1]
    code = decl + glob + "void t@(void) {\n%s}\n" % body
    return dict(code=code, expect=" ".join(str(x) for x in exp), desc="bit-field accesses")


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 1 if c.quick else 8
    W = list(range(0, 34)) + [40, 47, 63, 64]
    sim = c.tlc("BitField", cfg(6, 14, TYPES, W, "FALSE", "PickOne"), mode="sim", num=8000 * n, depth=60, seed_salt=70)
    sim += c.tlc("BitField", cfg(12, 10, ["int", "uint", "bool", "schar", "ushort"], list(range(0, 12)), "FALSE", "PickOne"), mode="sim", num=4000 * n, depth=60, seed_salt=71)
    sim += c.tlc("BitField", cfg(3, 10, TYPES, W, "TRUE", "PickOne"), mode="sim", num=3000 * n, depth=60, seed_salt=72)
    sim += c.tlc("BitField", cfg(3, 6, ["int", "uint", "long", "ulong", "uchar", "short"], [1, 7, 8, 15, 16, 31, 32, 33, 63, 64], "FALSE", "PickOne"), mode="sim", num=4000 * n, depth=40, seed_salt=73)
    items = [item(o, rng) for o in sim]
    c.stats["histories"] = len(items)
    c.stats["accesses"] = sum(len(o["ops"]) for o in sim)
    c.replay(items, "", batch=100)
    c.sample({"source": items[-1]["code"], "expected": items[-1]["expect"]})
