"""C04 constant expressions: evaluations of spec/IntExpr.tla over literals, used where C requires a constant."""
import random
import c02
import c03

TYPES = c02.TYPES
OPS = '{%s,"neg","pos","~","!","cast","sizeof","&&","||","?:"}' % c02.BIN
CTX = '{"gvar","garr","enum","assert","case","bits","local","dim"}'


def num(o, key="v"):
    return int(o[key], 16)


def signed64(x):
    return x - (1 << 64) if x >> 63 else x


SG = {"char": 1, "signed char": 1, "short": 2, "int": 4, "long": 8, "long long": 8}


def item(o, rng):
    e, cx = o["s"], o["cx"]
    v = num(o)
    sv = signed64(v) if o["tn"] in SG else v
    d = "constant expression %s" % e
    if cx == "enum" and not -2 ** 31 <= sv < 2 ** 31 or cx == "dim" and not 1 <= sv <= 100000 or cx == "bits" and not 1 <= sv <= 32:
        cx = "gvar"
    if cx == "gvar":
        return dict(code="static %s g@_ = %s;\nvoid t@(void) { rx_((unsigned long)g@_); rx_(sizeof(%s)); }\n" % (o["t2"], e, e), expect="%s %x" % (o["v2"], o["sz"]), desc=d)
    if cx == "garr":
        return dict(code="static %s g@_[3] = {1, %s, (%s)};\nvoid t@(void) { rx_((unsigned long)g@_[1]); rx_((unsigned long)g@_[2]); rx_(g@_[0]); }\n" % (o["t2"], e, e),
                    expect="%s %s 1" % (o["v2"], o["v2"]), desc=d)
    if cx == "enum":
        return dict(code="enum { E@_ = %s, F@_ };\nvoid t@(void) { rx_((unsigned long)(long)E@_); }\n" % e, expect="%x" % (sv & (2 ** 64 - 1)), desc=d) if sv < 2 ** 31 - 1 else \
            dict(code="enum { E@_ = %s };\nvoid t@(void) { rx_((unsigned long)(long)E@_); }\n" % e, expect="%x" % (sv & (2 ** 64 - 1)), desc=d)
    if cx == "assert":
        return dict(code="_Static_assert((%s) == (%s)0x%sUL, \"value\");\n_Static_assert(sizeof(%s) == %d, \"size\");\nvoid t@(void) { _Static_assert(!((%s) != (%s)0x%sUL), \"again\"); rx_(7); }\n"
                    % (e, o["tn"], o["v"], e, o["sz"], e, o["tn"], o["v"]), expect="7", desc=d)
    if cx == "case":
        return dict(code="static int f@(%s x) { switch (x) { case (%s)(%s): return 5; default: return 6; } }\nvoid t@(void) { rx_(f@(0x%sUL)); }\n"
                    % (o["tn"], o["tn"], e, o["v"]), expect="5", desc=d)
    if cx == "bits":
        return dict(code="struct B@ { unsigned b : %s; };\nvoid t@(void) { struct B@ s; s.b = -1; rx_(s.b); }\n" % e, expect="%x" % ((1 << sv) - 1), desc=d)
    if cx == "dim":
        return dict(code="static char a@_[%s];\nvoid t@(void) { char b[2][%s]; rx_(sizeof(a@_)); rx_(sizeof(b)); }\n" % (e, e), expect="%x %x" % (sv, 2 * sv), desc=d)
    return dict(code="void t@(void) { static %s z = %s; rx_((unsigned long)z); rx_((unsigned long)(%s)); }\n" % (o["t2"], e, e), expect="%s %s" % (o["v2"], o["v"]), desc=d)


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    q = c.quick
    ex = c.tlc("IntExpr", c02.cfg(1, 1, 2, "{%s}" % c02.BIN, '{"litc"}', '{"gvar"}', "PickAll", "few", '{"schar","int","uint","long","ulong"}' if q else TYPES), workers=8, timeout=1500)
    seen, items = set(), []
    ex.sort(key=repr)
    for o in ex:
        if o["s"] not in seen:
            seen.add(o["s"])
            items.append(o)
    c.stats["exhaustive_expressions"] = len(items)
    c.replay([item(o, rng) for o in items], "", batch=1500)
    n = 12000 if q else 100000
    sim = c.tlc("IntExpr", c02.cfg(1, 6, 6, OPS, '{"lit","lit","litc"}', CTX, "PickOne", "rand"), mode="sim", num=n, depth=40, seed_salt=4)
    sim += c.tlc("IntExpr", c02.cfg(1, 5, 5, OPS, '{"lit"}', '{"dim","bits","enum","case"}', "PickOne", "all", '{"schar","int"}'), mode="sim", num=n // 3, depth=40, seed_salt=5)
    c.stats["random_expressions"] = len(sim)
    items = [item(o, rng) for o in sim]
    c.replay(items, "", batch=400)
    c03.constants(c, n, rng, 8)
    if items:
        c.sample({"source": items[0]["code"], "expected": items[0]["expect"]})
