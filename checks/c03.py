"""C03 floating expressions: evaluations of spec/FloatExpr.tla replayed in compiled functions."""
import random, re, struct
TYPES = '{"float","double","int","uint","long","ulong","schar","uchar","short","ushort","bool"}'
OPS = ["+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "?:", ",", "cast", "=", "+=", "-=", "*=", "/=", "neg", "pos", "!", "++x", "--x", "x++", "x--"]
HARNESS = r"""
#include <stdio.h>
#include <string.h>
void rx_(unsigned long v) { printf(" %lx", v); }
void rd_(double d) { unsigned long u; memcpy(&u, &d, 8); if (d != d) printf(" nan"); else printf(" d%016lx", u); }
void rf_(float d) { unsigned u; memcpy(&u, &d, 4); if (d != d) printf(" nan"); else printf(" f%08x", u); }
"""
SETUP = "#define BITSD(u) (*(double *)(unsigned long[]){u})\n#define BITSF(u) (*(float *)(unsigned[]){u})\n"


def val(v):
    """python number of a spec value"""
    if v["k"] == "nan":
        return float("nan")
    if v["k"] == "inf":
        return float("-inf") if v["sg"] else float("inf")
    if v["n"] == 0:
        return -0.0 if v["sg"] else 0.0
    from math import ldexp
    r = ldexp(v["n"], v["e"])
    return -r if v["sg"] else r


def ival(v):
    r = v["n"] << v["e"] if v["n"] else 0
    return (-r if v["sg"] else r)


def show(t, v):
    """what the harness prints for a value of type t"""
    if t == "double":
        x = val(v)
        return "nan" if x != x else "d" + struct.pack(">d", x).hex()
    if t == "float":
        x = val(v)
        return "nan" if x != x else "f" + struct.pack(">f", x).hex()
    return "%x" % (ival(v) & (2 ** 64 - 1))


def printer(t, e):
    return "rd_(%s);" % e if t == "double" else "rf_(%s);" % e if t == "float" else "rx_((unsigned long)(%s));" % e


def const(t, v):
    """an initialiser that does not rely on floating literals"""
    if t == "double":
        return "BITSD(0x%sUL)" % struct.pack(">d", val(v)).hex()
    if t == "float":
        return "BITSF(0x%sU)" % struct.pack(">f", val(v)).hex()
    return "(%s)0x%xUL" % (t, ival(v) & (2 ** 64 - 1))


def literal(t, v, rng):
    if t in ("double", "float"):
        x = val(v)
        s = rng.choice([repr(x), "%.17e" % x, x.hex()])
        if rng.random() < 0.3 and x == int(x) and x < 1e15:
            s = rng.choice(["%d." % x, "%de0" % x, "%d.0E+0" % x])
        return s + (rng.choice("fF") if t == "float" else "")
    if t == "float":
        return repr(val(v)) + "f"
    return "%d%s" % (ival(v), {"int": "", "uint": "u", "unsigned int": "u", "long": "l", "unsigned long": "ul"}[t])


def item(o, rng):
    glob, loc, params, args, members, finals = [], [], [], [], [], []
    names = {}
    for i, b in enumerate(o["objs"], 1):
        st, t, v = b["st"], b["t"], b["v"]
        c = const(t, v)
        if st == "lit":
            names[i] = literal(t, v, rng)
            continue
        n = {"g": "g@_%d", "l": "l%d", "c": "l%d", "q": "*q%d", "m": "sm.f%d", "a": "l%d[1]", "pa": "l%d"}[st] % i
        names[i] = n
        if st == "g":
            glob.append("static %s g@_%d;" % (t, i))
            loc.append("g@_%d = %s;" % (i, c))
        elif st == "l":
            loc.append("%s l%d; l%d = %s;" % (t, i, i, c))
        elif st == "c":
            loc.append("const %s l%d = %s;" % (t, i, c))
        elif st == "q":
            loc.append("%s w%d[3], *q%d = w%d + 1; *q%d = %s;" % (t, i, i, i, i, c))
        elif st == "m":
            members.append("%s f%d;" % (t, i))
            loc.append("sm.f%d = %s;" % (i, c))
        elif st == "a":
            loc.append("%s l%d[2]; l%d[1] = %s;" % (t, i, i, c))
        elif st == "pa":
            params.append("%s l%d" % (t, i))
            args.append(c)
        finals.append((n, t, b["fin"]))
    if members:
        glob.append("struct S@ { char pad; %s };" % " ".join(members))
        loc.insert(0, "struct S@ sm;")
    e = re.sub(r"\$(\d+)\$", lambda m: names[int(m[1])], o["s"])
    cx, t, t2 = o["cx"], o["t"], o["t2"]
    if cx in ("store", "ret", "arg") and o["v2"]["k"] == "bad":
        cx = "val"
    exp, rest = [], ""
    par = ", ".join(params) or "void"
    if cx == "val":
        use = printer(t, e if t not in ("double", "float") else "(" + e + ")")
        exp.append(show(t, o["v"]))
    elif cx == "store":
        use = "%s d_; d_ = (%s); %s" % (t2, e, printer(t2, "d_"))
        exp.append(show(t2, o["v2"]))
    elif cx == "arg":
        glob.append("static %s id@(%s x) { return x; }" % (t2, t2))
        use = printer(t2, "id@((%s))" % e)
        exp.append(show(t2, o["v2"]))
    elif cx == "cond":
        use = rng.choice(["if (%s) rx_(1); else rx_(0);", "rx_((%s) ? 1 : 0);", "rx_(!!(%s));", "rx_((%s) && 1);", "{ int n_ = 0; while (%s) { n_ = 1; break; } rx_(n_); }"]) % e
        exp.append("1" if o["truth"] else "0")
    elif cx == "ret":
        code = "\n".join(glob) + "\nstatic %s f@(%s) { %s return %s; }\nvoid t@(void) { %s }\n" % (t2, par, " ".join(loc), e, printer(t2, "f@(%s)" % ", ".join(args)))
        return dict(code=code, expect=show(t2, o["v2"]), desc="%s expression %s" % (t, e))
    if rng.random() < 0.3:
        rest += " rx_(sizeof(%s));" % e
        exp.append("%x" % o["sz"])
    for n, ft, f in finals:
        rest += " " + printer(ft, n)
        exp.append(show(ft, f))
    code = "\n".join(glob) + "\nstatic void f@(%s) { %s %s%s }\nvoid t@(void) { f@(%s); }\n" % (par, " ".join(loc), use, rest, ", ".join(args))
    return dict(code=code, expect=" ".join(exp), desc="%s expression %s" % (t, e))


def citem(o, rng):
    """expression over literals where C requires a constant"""
    names = {i: literal(b["t"], b["v"], rng) for i, b in enumerate(o["objs"], 1)}
    e = re.sub(r"\$(\d+)\$", lambda m: names[int(m[1])], o["s"])
    t2, v2 = (o["t2"], o["v2"]) if o["v2"]["k"] != "bad" else (o["t"], o["v"])
    cx = rng.choice(["gvar", "garr", "local", "assert", "enum"] if o["t"] not in ("float", "double") else ["gvar", "garr", "local"])
    exp = show(t2, v2) + " " + show(o["t"], o["v"])
    d = "constant %s expression %s" % (o["t"], e)
    if cx == "enum" and o["t"] in ("int", "signed char", "short", "_Bool"):
        return dict(code="enum { E@_ = %s };\nvoid t@(void) { rx_(E@_); }\n" % e, expect=show(o["t"], o["v"]), desc=d)
    if cx == "assert":
        return dict(code="_Static_assert((%s) == (%s)0x%xUL, \"\");\nvoid t@(void) { rx_(1); }\n" % (e, o["t"], ival(o["v"]) & (2 ** 64 - 1)), expect="1", desc=d)
    if cx == "garr":
        return dict(code="static struct { char c; %s a[2]; } g@_ = {3, {0, %s}};\nvoid t@(void) { %s %s rx_(g@_.c); }\n" % (t2, e, printer(t2, "g@_.a[1]"), printer(o["t"], "(%s)" % e)),
                    expect=exp + " 3", desc=d)
    if cx == "local":
        return dict(code="void t@(void) { static %s g = %s; %s %s }\n" % (t2, e, printer(t2, "g"), printer(o["t"], "(%s)" % e)), expect=exp, desc=d)
    return dict(code="static %s g@_ = %s;\nvoid t@(void) { %s %s }\n" % (t2, e, printer(t2, "g@_"), printer(o["t"], "(%s)" % e)), expect=exp, desc=d)


def constants(c, n, rng, salt):
    ops = [o for o in OPS if o not in (",", "=", "+=", "-=", "*=", "/=", "++x", "--x", "x++", "x--")]
    con = c.tlc("FloatExpr", cfg(1, 4, 4, ops, '{"lit"}', '{"val"}', "PickOne", '{"float","double","int","uint","long","ulong"}'), mode="sim", num=n, depth=120, seed_salt=salt)
    con += c.tlc("FloatExpr", cfg(1, 2, 1, ["cast", "!", "neg"], '{"lit"}', '{"val"}', "PickOne"), mode="sim", num=n // 2, depth=120, seed_salt=salt + 1)
    c.stats["floating_constant_expressions"] = len(con)
    c.replay([citem(o, rng) for o in con], SETUP, HARNESS, batch=400)


def cfg(minops, maxops, leaves, ops, forms, ctxs, pick, types=TYPES):
    return ("CONSTANTS\nMinOps = %d\nMaxOps = %d\nMaxLeaves = %d\nTypes = %s\nOps = {%s}\nForms = %s\nCtxs = %s\nPick <- %s\n"
            % (minops, maxops, leaves, types, ",".join('"%s"' % o for o in ops), forms, ctxs, pick)) + \
        "INVARIANT InFormat\nINVARIANT Antisym\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 16000 if c.quick else 120000
    FORMS = '{"g","l","c","q","m","a","pa","lit"}'
    sim = c.tlc("FloatExpr", cfg(1, 6, 6, OPS, FORMS, '{"val","store","cond","ret","arg"}', "PickOne"), mode="sim", num=n, depth=120, seed_salt=3)
    # one or two operators, so every operator meets every pair of types often
    sim += c.tlc("FloatExpr", cfg(1, 1, 2, OPS, '{"pa","l"}', '{"val","store"}', "PickOne"), mode="sim", num=n, depth=120, seed_salt=4)
    sim += c.tlc("FloatExpr", cfg(1, 1, 1, ["cast"], '{"l"}', '{"val"}', "PickOne"), mode="sim", num=n, depth=120, seed_salt=5)
    c.stats["expressions"] = len(sim)
    items = [item(o, rng) for o in sim]
    c.replay(items, SETUP, HARNESS, batch=400)
    constants(c, n // 4, rng, 6)
    if items:
        c.sample({"source": items[0]["code"], "expected": items[0]["expect"]})
