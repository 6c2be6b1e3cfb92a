"""C20 rejection: sequences judged by Syntax.tla, expressions with one forbidden operation from Types.tla, rule instances of Rules.tla.
Invalid programs must be refused with a message and status 1, valid ones accepted."""
import random
from concurrent.futures import ThreadPoolExecutor
import vf
from c11 import refused


def accepted(c, items, what, batch=200):
    """valid programs: whole batches are compiled, a refused batch is split"""
    def attempt(its):
        f = c.tmp(".c")
        src = vf.DECLS + "".join(it["code"].replace("@", str(i)) for i, it in its)
        open(f, "w").write(src)
        rc, so, se = vf.sh(c.ref.split() + (["-fsyntax-only", f] if "pedantic" in c.ref else ["-w", "-fsyntax-only", f]) if c.ref else [c.cc, "-c", f, "-o", f + ".o"])
        c.drop(f, f + ".o")
        c.executions += 1
        if rc == 0:
            return []
        if len(its) == 1:
            return [(its[0][1], src, rc, (so + se).decode(errors="replace"))]
        h = len(its) // 2
        return attempt(its[:h]) + attempt(its[h:])
    jobs = [list(enumerate(items))[k:k + batch] for k in range(0, len(items), batch)]
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for r in ex.map(attempt, jobs):
            for it, src, rc, msg in r:
                if len(c.violations) < 5:
                    c.violation(what, dict(valid=it["bad"], expected="accepted", actual="status %s, %s" % (rc, msg[-300:])), {"input.c": src})
    c.traces += len(items)


EXPR = ["x", "1", "(", ")", "+", "*", "++", "=", "?", ":", ",", "[", "]", "a", "p", "f", "!", "sizeof"]
STMT = [";", "x;", "{", "}", "if(x)", "else", "while(x)", "do", "for(;x;)", "for(int k=0;k;)", "break;", "continue;", "return;", "switch(x)", "case #:", "default:", "L#:", "int y#;",
        "_Static_assert(1,\"\");"]


def tla_set(v):
    return "{" + ", ".join('"%s"' % x.replace('"', '\\"') for x in v) + "}"


def sentence(s, lang):
    t = " ".join(x.replace("#", str(i)) for i, x in enumerate(s))
    if lang == "expr":
        return "int f(int); void t@(int x, int *p) { static int a[4]; (void)0, %s; }\n" % t
    return "void t@(int x) {\n%s\n}\n" % t


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    good, bad, seen = [], [], set()

    def judge(beh, lang, cap=10 ** 9):
        for o in beh:
            k = (lang, tuple(o["s"]))
            if k in seen:
                continue
            seen.add(k)
            it = dict(code=sentence(o["s"], lang), bad=" ".join(o["s"]))
            if o["ok"]:
                good.append(it)
            elif len(bad) < cap or not c.quick:
                bad.append(it)

    def cfg(lang, vocab, n, rnd):
        m = "M" if rnd else ""
        return ("CONSTANTS\nLang = \"%s\"\nVocab = %s\nMaxLen = %d\nRandom = FALSE\nPick <- %s\nINVARIANT %sEmit\n%sCHECK_DEADLOCK FALSE\nSPECIFICATION %sSpec\n"
                % (lang, tla_set(vocab), n, "PickOne" if rnd else "PickAll", m, "INVARIANT MSound\n" if rnd else "", m))
    q = c.quick
    judge(c.tlc("Syntax", cfg("expr", EXPR, 3, False), mode="bfs"), "expr")
    judge(c.tlc("Syntax", cfg("expr", ["x", "(", ")", "+", "=", ",", "++", "?", ":"], 4 if q else 5, False), mode="bfs"), "expr")
    judge(c.tlc("Syntax", cfg("stmt", STMT, 2 if q else 3, False), mode="bfs"), "stmt")
    judge(c.tlc("Syntax", cfg("stmt", ["x;", "{", "}", "if(x)", "else", "while(x)", "do", ";"], 4 if q else 5, False), mode="bfs"), "stmt")
    n = 1 if q else 8
    judge(c.tlc("SyntaxMut", cfg("expr", EXPR, 8, True), mode="sim", num=1000 * n, depth=60, seed_salt=200), "expr")
    judge(c.tlc("SyntaxMut", cfg("stmt", STMT, 12, True), mode="sim", num=1000 * n, depth=60, seed_salt=201), "stmt")
    c.stats.update(sentences_valid=len(good), sentences_invalid=len(bad))
    accepted(c, good, "valid program refused")
    refused(c, bad, "invalid program accepted")
