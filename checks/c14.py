"""C14 macro replacement: histories of spec/MacroExp.tla replayed through the preprocessor."""
import random, re
PUN = ["<<=", ">>=", "...", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"]
TOK = re.compile(r'[A-Za-z_]\w*|\.?\d(?:[eE][+-]|[\w.])*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|' + "|".join(map(re.escape, PUN)) + r"|\S")


def spell(t):
    if t["k"] == "str":
        return t["s"] + string(content(t["parts"]))
    return t["s"]


def string(s):
    """the spelling of a string literal with content s; s only contains spelled tokens"""
    return '"' + s + '"'


def content(parts):
    """the text a stringified token list has; quotes and backslashes inside string tokens are escaped"""
    r = ""
    for i, p in enumerate(parts):
        if i and p["w"]:
            r += " "
        sp = spell(p)
        r += re.sub(r'(["\\])', r"\\\1", sp) if p["k"] in ("str", "lit") else sp
    return r


def text(parts):
    """characters of the string literal whose parts these are"""
    return "".join((" " if i and p["w"] else "") + spell(p) for i, p in enumerate(parts))


def src(toks):
    return "".join((" " if i and t["w"] else "") + t["s"] for i, t in enumerate(toks))


def norm(s, _=None):
    """one | separated text per use -> token lists"""
    return "\n".join(" ".join(TOK.findall(x)) for x in s.split("|$"))


def item(o, rng):
    lines, uses, exp, names, pushed = [], [], [], set(), {}
    for k, h in enumerate(o["h"]):
        n = h["n"]
        if h["op"] == "define":
            names.add(n)
            ps = h["params"] + (["..."] if h["va"] else [])
            lines.append("#define %s%s %s" % (n, "(%s)" % rng.choice([", ", ","]).join(ps) if h["func"] else "", src(h["body"])))
        elif h["op"] == "undef":
            lines.append("#undef %s" % n)
        elif h["op"] in ("push", "pop"):
            lines.append('#pragma %s_macro("%s")' % (h["op"], n))
            pushed[n] = pushed.get(n, 0) + (1 if h["op"] == "push" else -1)
        else:
            t = h["toks"]
            s = src(t)
            if rng.random() < 0.15:       # an invocation may span lines
                s = s.replace(" ", "\n", rng.randint(1, 3))
            if rng.random() < 0.1:
                s = s.replace(" ", " /* , ) */ ", 1)
            s = s.replace("\n#", "\n #")
            lines.append("static const char s@_%d[] = XSTR(%s);" % (k, s))
            uses.append("s@_%d" % k)
            exp.append(text(h["res"]))
    for n, d in pushed.items():
        lines += ['#pragma pop_macro("%s")' % n] * d
    for n in sorted(names):
        lines.append("#undef %s" % n)
    code = "\n".join(lines) + "\nvoid t@(void) { %s }\n" % ' rs_("|$"); '.join("rs_(%s);" % u for u in uses)
    return dict(code=code, expect=norm("|$".join(exp)), desc="macro replacement")


PRE = "#define XSTR_(...) #__VA_ARGS__\n#define XSTR(...) XSTR_(__VA_ARGS__)\n"


def cfg(names, defs, body, use, uses, pick="PickOne"):
    return "CONSTANTS\nNames = %s\nMaxDefs = %d\nMaxBody = %d\nMaxUse = %d\nMaxUses = %d\nMaxLen = 60\nPick <- %s\n" % (names, defs, body, use, uses, pick) + \
        "INVARIANT Painted\nINVARIANT NoneLeft\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"


def name(n):
    """realistic spread of spellings"""
    return ["_%d_", "A%dx", "CONFIG_%d", "__f%d", "max_%d", "v%d", "Q%dQ%d"][n % 7].replace("%d", str(n))


def population(o):
    """one history of MacroMap.tla, every name is asked at the end"""
    lines = []
    for op, n, v in o["h"]:
        lines.append({"define": "#define %s %d", "undef": "#undef %s", "push": '#pragma push_macro("%s")',
                      "pop": '#pragma pop_macro("%s")', "ask": ""}[op] % ((name(n), v) if op == "define" else (name(n),) if op != "ask" else ()))
    vals = list(enumerate(o["map"], 1))
    lines.append("static const char *const m@[] = {%s};" % ",\n".join("XSTR(%s)" % name(n) for n, v in vals))
    for n, v in vals:
        lines.append("#undef %s" % name(n))
    return dict(code="\n".join(lines) + "\nvoid t@(void) { for (int i = 0; i < %d; i++) rs_(m@[i]); }\n" % len(vals),
                expect=" ".join(str(v) if v else name(n) for n, v in vals), desc="a population of macros")


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    n = 30000 if c.quick else 300000
    sim = c.tlc("MacroExp", cfg('{"A","F","G"}', 4, 7, 9, 3), mode="sim", num=n, depth=400, seed_salt=14)
    sim += c.tlc("MacroExp", cfg('{"A","B","F","G","H"}', 6, 5, 12, 2), mode="sim", num=n // 2, depth=400, seed_salt=15)
    c.stats["histories"] = len(sim)
    c.stats["uses"] = sum(h["op"] == "use" for o in sim for h in o["h"])
    items = [item(o, rng) for o in sim]
    c.replay(items, PRE, batch=300, norm=norm, modes=("c",))
    if items:
        c.sample({"source": items[0]["code"], "expected": items[0]["expect"]})
    pops = c.tlc("MacroMap", "CONSTANTS\nN = 2500\nSteps = 4000\nPick <- PickOne\nINVARIANT Emit\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n",
                 mode="sim", num=8 if c.quick else 64, depth=6000, seed_salt=16)
    c.stats["populations"] = len(pops)
    c.replay([population(o) for o in pops], PRE, batch=1, modes=("c",))
