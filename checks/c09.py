"""C09 System V calls: SysV.tla; cc-compiled callees entered from, and cc-compiled callers leaving to, assembly stubs."""
import random, struct
import vf

PRE = """void o_(const void *p, const char *leaves);
void cp_(void *to, const void *from, int n);
void gp_(int i, unsigned long v); void sse_(int i, unsigned long v); void stk_(int i, unsigned long v); void al_(int n);
void enter_(void *fn, int sret, const char *leaves);
void ret_(int i, unsigned long v, int j, unsigned long w); void retm_(const void *img, int n);
void seen_(const char *leaves, int min, int max);
void stub_(void); void mark_(void); void same_(void);
typedef char *ptr;
"""
HARN = vf.HARNESS + r"""
struct { void *fn; unsigned long gp[6], x[8], al, *stk, nstk, rax, rdx, x0, x1, ok; } ctx_;
unsigned long stack_[64], seen_gp[6], seen_x[8], seen_al, seen_rsp, seen_stk[64], ret_gp[2], ret_x[2], ret_sret;
unsigned char ret_img[256];
unsigned long ret_n;
void tramp_(void *);
asm(".text\n.globl tramp_\ntramp_:\n"
 "push %rbp\nmov %rsp, %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdi\n"
 "mov %rdi, %r10\nmov 136(%r10), %rcx\nmov 128(%r10), %rsi\ntest $1, %rcx\njz 1f\nsub $8, %rsp\n"
 "1: test %rcx, %rcx\njz 2f\ndec %rcx\npush (%rsi,%rcx,8)\njmp 1b\n2:\n"
 "mov $0x1111222233334444, %rbx\nmov %rsp, %r12\nmov $0x5555666677778888, %r13\nmov $0x9999aaaabbbbcccc, %r14\nmov $0xddddeeeeffff0123, %r15\n"
 "mov (%r10), %r11\nmov 8(%r10), %rdi\nmov 16(%r10), %rsi\nmov 24(%r10), %rdx\nmov 32(%r10), %rcx\nmov 40(%r10), %r8\nmov 48(%r10), %r9\n"
 "movsd 56(%r10), %xmm0\nmovsd 64(%r10), %xmm1\nmovsd 72(%r10), %xmm2\nmovsd 80(%r10), %xmm3\nmovsd 88(%r10), %xmm4\nmovsd 96(%r10), %xmm5\nmovsd 104(%r10), %xmm6\nmovsd 112(%r10), %xmm7\n"
 "mov 120(%r10), %rax\nmov $-1, %r10\ncall *%r11\n"
 "mov -48(%rbp), %r10\nmov %rax, 144(%r10)\nmov %rdx, 152(%r10)\nmovsd %xmm0, 160(%r10)\nmovsd %xmm1, 168(%r10)\nmovq $0, 176(%r10)\n"
 "cmp %rsp, %r12\njne 3f\nmov $0x1111222233334444, %rax\ncmp %rax, %rbx\njne 3f\nmov $0x5555666677778888, %rax\ncmp %rax, %r13\njne 3f\n"
 "mov $0x9999aaaabbbbcccc, %rax\ncmp %rax, %r14\njne 3f\nmov $0xddddeeeeffff0123, %rax\ncmp %rax, %r15\njne 3f\nmovq $1, 176(%r10)\n"
 "3: lea -40(%rbp), %rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
 ".globl stub_\nstub_:\n"
 "mov %rdi, seen_gp\nmov %rsi, seen_gp+8\nmov %rdx, seen_gp+16\nmov %rcx, seen_gp+24\nmov %r8, seen_gp+32\nmov %r9, seen_gp+40\n"
 "movsd %xmm0, seen_x\nmovsd %xmm1, seen_x+8\nmovsd %xmm2, seen_x+16\nmovsd %xmm3, seen_x+24\nmovsd %xmm4, seen_x+32\nmovsd %xmm5, seen_x+40\nmovsd %xmm6, seen_x+48\nmovsd %xmm7, seen_x+56\n"
 "mov %rax, seen_al\nmov %rsp, seen_rsp\nlea 8(%rsp), %rsi\nmov $seen_stk, %rdi\nmov $64, %ecx\ncld\nrep movsq\n"
 "mov ret_gp, %rax\nmov ret_gp+8, %rdx\nmovsd ret_x, %xmm0\nmovsd ret_x+8, %xmm1\n"
 "cmpq $0, ret_sret\nje 4f\nmov seen_gp, %rdi\nmov %rdi, %rax\nmov $ret_img, %rsi\nmov ret_n, %rcx\nrep movsb\n"
 "4: mov $0x0bad0bad0bad0bad, %rcx\nmov %rcx, %rsi\nmov %rcx, %rdi\nmov %rcx, %r8\nmov %rcx, %r9\nmov %rcx, %r10\nmov %rcx, %r11\n"
 "movq %rcx, %xmm2\nmovq %rcx, %xmm3\nmovq %rcx, %xmm4\nmovq %rcx, %xmm5\nmovq %rcx, %xmm6\nmovq %rcx, %xmm7\nmovq %rcx, %xmm8\nmovq %rcx, %xmm15\nret\n");
static unsigned long mark_rsp;
void mark_(void) { mark_rsp = seen_rsp; }
void same_(void) { printf(" %s", seen_rsp == mark_rsp ? "ok" : "RSP"); }
void o_(const void *p, const char *l) { int o, s, n; while (sscanf(l, "%d,%d;%n", &o, &s, &n) == 2) { rb_((const char *)p + o, s); l += n; } }
void cp_(void *t, const void *f, int n) { memcpy(t, f, n); }
void gp_(int i, unsigned long v) { ctx_.gp[i] = v; }
void sse_(int i, unsigned long v) { ctx_.x[i] = v; }
void stk_(int i, unsigned long v) { stack_[i] = v; if (ctx_.nstk < i + 1) ctx_.nstk = i + 1; }
void al_(int n) { ctx_.al = n; }
static unsigned char big_[256];
void enter_(void *fn, int sret, const char *l) {
  ctx_.fn = fn; ctx_.stk = stack_; ctx_.ok = 0; memset(big_, 0xaa, sizeof big_);
  if (sret) ctx_.gp[0] = (unsigned long)big_;
  tramp_(&ctx_);
  printf(" %s", ctx_.ok ? "ok" : "CALLEE-SAVED");
  if (sret) printf(" %s", ctx_.rax == (unsigned long)big_ ? "ok" : "RAX");
  int where, i, o, s, n;
  while (sscanf(l, "%d,%d,%d,%d;%n", &where, &i, &o, &s, &n) == 4) {
    const char *p = where == 0 ? (char *)(i ? &ctx_.rdx : &ctx_.rax) : where == 1 ? (char *)(i ? &ctx_.x1 : &ctx_.x0) : (char *)big_ + 8 * i;
    rb_(p + o, s); l += n;
  }
  ctx_.nstk = 0; for (i = 0; i < 6; i++) ctx_.gp[i] = 0xdeadbeef00000000 + i; for (i = 0; i < 8; i++) ctx_.x[i] = 0xfeedbeef00000000 + i; ctx_.al = 0;
}
void ret_(int i, unsigned long v, int j, unsigned long w) { ret_sret = 0; ret_gp[0] = ret_gp[1] = ret_x[0] = ret_x[1] = 0x7878787878787878;
  if (i == 0) ret_gp[0] = v; else if (i == 1) ret_x[0] = v;
  if (j == 0) ret_gp[i == 0] = w; else if (j == 1) ret_x[i == 1] = w; }
void retm_(const void *img, int n) { ret_sret = 1; ret_n = n; memcpy(ret_img, img, n); }
void seen_(const char *l, int min, int max) {
  int where, i, o, s, n;
  while (sscanf(l, "%d,%d,%d,%d;%n", &where, &i, &o, &s, &n) == 4) {
    const char *p = (char *)(where == 0 ? &seen_gp[i] : where == 1 ? &seen_x[i] : &seen_stk[i]);
    rb_(p + o, s); l += n;
  }
  printf(" %s", (seen_rsp + 8) % 16 ? "ALIGN" : "ok");
  int al = seen_al & 255;
  if (max) printf(" %s", al >= min && al <= max ? "ok" : "AL");
}
"""
SZ = dict(bool=1, char=1, schar=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8, llong=8, ullong=8, ptr=8, float=4, double=8)
CT = dict(bool="_Bool", char="char", schar="signed char", uchar="unsigned char", short="short", ushort="unsigned short", int="int", uint="unsigned",
          long="long", ulong="unsigned long", llong="long long", ullong="unsigned long long", ptr="ptr", float="float", double="double")
W = {"gp": 0, "sse": 1, "stk": 2}


class Types:
    def __init__(self):
        self.names, self.decls = {}, []

    def name(self, t):
        if t["k"] == "s":
            return CT[t["n"]]
        if t["k"] == "void":
            return "void"
        key = repr(t)
        if key not in self.names:
            ms = ""
            for i, m in enumerate(t["ms"]):
                dims = ""
                while m["k"] == "arr":
                    dims += "[%d]" % m["c"]
                    m = m["e"]
                ms += " %s m%d%s;" % (self.name(m), i, dims)
            kw = "union" if t["u"] else "struct"
            n = "%s S@_%d" % (kw, len(self.decls))
            self.decls.append("%s {%s };\n" % (n, ms))
            self.names[key] = n
        return self.names[key]


def image(d, rng, fill):
    """bytes of an object: every leaf gets a value, padding is filled"""
    b = bytearray(fill() for _ in range((d["size"] + 7) // 8 * 8))
    for l in d["leaves"]:
        n = SZ[l["n"]]
        if l["n"] == "bool":
            v = bytes([rng.randrange(2)])
        elif l["n"] == "float":
            v = struct.pack("<f", rng.randrange(-9999, 9999) / 16)
        elif l["n"] == "double":
            v = struct.pack("<d", rng.randrange(-999999, 999999) / 32)
        else:
            v = bytes(rng.randrange(256) for _ in range(n))
        b[l["o"]:l["o"] + n] = v
    # in a union a later member may have left a bool or part of a float behind: bools are 0 or 1
    for l in d["leaves"]:
        if l["n"] == "bool":
            b[l["o"]] &= 1
    return bytes(b)


def leaves(d):
    return "".join("%d,%d;" % (l["o"], SZ[l["n"]]) for l in d["leaves"])


def locs(d, ls):
    return "".join("%d,%d,%d,%d;" % (W[ls[l["o"] // 8][0]], ls[l["o"] // 8][1], l["o"] % 8, SZ[l["n"]]) for l in d["leaves"])


def out(d, im):
    return [im[l["o"]:l["o"] + SZ[l["n"]]].hex() for l in d["leaves"]]


def u64(im, i):
    return "0x%xUL" % struct.unpack_from("<Q", im, 8 * i)[0]


def arr(im):
    return "{%s}" % ", ".join(str(x) for x in im)


def proto(ts, o, names=True):
    ps = ["%s%s" % (ts.name(p["t"]), " p%d" % i if names else "") for i, p in enumerate(o["ps"])]
    if o["fixed"] >= 0:
        ps = ps[:o["fixed"]] + ["..."]
    return ", ".join(ps) or "void"


def callee(o, rng):
    ts = Types()
    garbage = lambda: rng.randrange(256)
    rt = ts.name(o["ret"]["t"])
    sig = proto(ts, o)
    ims = [image(p, rng, garbage) for p in o["ps"]]
    body, load = "", ""
    var = o["fixed"] >= 0
    if var:
        body += " va_list ap; va_start(ap, p%d);" % (o["fixed"] - 1)
    order = list(range(len(o["ps"])))
    if not var:
        rng.shuffle(order)
    split = rng.randrange(o["fixed"], len(order) + 1) if var and rng.random() < 0.3 else None
    for i in order:
        p = o["ps"][i]
        if var and i >= o["fixed"]:
            if i == split:
                body += " va_list aq; va_copy(aq, ap);"
            body += " %s p%d = va_arg(ap, %s);" % (ts.name(p["t"]), i, ts.name(p["t"]))
        body += ' o_(&p%d, "%s");' % (i, leaves(p))
    exp = [x for i in order for x in out(o["ps"][i], ims[i])]
    if split is not None and split < len(order):
        for i in range(split, len(order)):
            p = o["ps"][i]
            body += ' { %s q = va_arg(aq, %s); o_(&q, "%s"); }' % (ts.name(p["t"]), ts.name(p["t"]), leaves(p))
            exp += out(p, ims[i])
    for p, im, ls in zip(o["ps"], ims, o["locs"]):
        for i, (w, n) in enumerate(ls):
            load += " %s_(%d, %s);" % (w, n, u64(im, i))
    if var:
        load += " al_(%d);" % rng.choice([o["nsse"], 8])
    code, rl = "", ""
    rim = b""
    if rt != "void":
        rim = image(o["ret"], rng, garbage)
        body += rng.choice([" return r@;", " %s x = r@; return x;" % rt, " %s *x = &r@; return *x;" % rt, " return g@ ? r@ : r@;"])
        rl = locs(o["ret"], o["rlocs"] or [("stk", i) for i in range((o["ret"]["size"] + 7) // 8)])
    exp += ["ok"] + (["ok"] if o["sret"] else []) + out(o["ret"], rim)
    code = "".join(ts.decls) + ("static %s r@; static const unsigned char i@[] = %s; static int g@;\n" % (rt, arr(rim)) if rim else "")
    code += "%s f@(%s) {%s }\n" % (rt, sig, body)
    code += 'void t@(void) {%s%s enter_((void *)f@, %d, "%s"); }\n' % (" cp_(&r@, i@, %d);" % o["ret"]["size"] if rim else "", load, o["sret"], rl)
    return dict(code=code, expect=" ".join(exp), desc="%s callee %s f(%s)" % ("variadic" if var else "fixed", rt, sig))


def caller(o, rng, unproto=False):
    ts = Types()
    garbage = lambda: rng.randrange(256)
    rt = ts.name(o["ret"]["t"])
    ims = [image(p, rng, garbage) for p in o["ps"]]
    var = o["fixed"] >= 0
    code, body, args, spec, exp = "", "", [], "", []
    for i, (p, im, ls) in enumerate(zip(o["ps"], ims, o["locs"])):
        n = ts.name(p["t"])
        code += "static const unsigned char i@_%d[] = %s;\n" % (i, arr(im))
        body += " %s a%d; cp_(&a%d, i@_%d, %d);" % (n, i, i, i, p["size"])
        how = rng.choice(["var", "var", "id", "id9", "ptr", "cond", "comma"])
        if how == "id":
            code += "DECL static %s id@_%d(%s x) { return x; }\n" % (n, i, n)
            args.append("id@_%d(a%d)" % (i, i))
        elif how == "id9":
            code += "DECL static %s id@_%d(long a, long b, char c, long d, int e, long f, long g, %s x, double h) { return a + b + c + d + e + f + g == 28 && h == 2.5 ? x : a0@_%d; }\n" % (n, i, n, i)
            code = "DECL static %s a0@_%d;\n" % (n, i) + code
            args.append("id@_%d(1, 2, 3, 4, 5, 6, 7, a%d, 2.5)" % (i, i))
        elif how == "ptr":
            args.append("*&a%d" % i)
        elif how == "comma":
            args.append("(a0, a%d)" % i)
        elif how == "cond" and (p["t"]["k"] != "s" or SZ[p["t"]["n"]] >= 4):
            args.append("(z@ ? a%d : a%d)" % (i, i))
        else:
            args.append("a%d" % i)
        spec += locs(p, ls)
        exp += out(p, im)
    post = []
    rim = b""
    if rt != "void":
        rim = image(o["ret"], rng, garbage)
        if o["sret"]:
            code += "static const unsigned char ir@[] = %s;\n" % arr(rim)
            body += " retm_(ir@, %d);" % o["ret"]["size"]
        else:
            r = [(W[w], u64(rim, i)) for i, (w, n) in enumerate(o["rlocs"])] + [(9, "0")] * 2
            body += " ret_(%d, %s, %d, %s);" % (r[0] + r[1])
    else:
        body += " ret_(9, 0, 9, 0);"
    fp = "((%s (*)(%s))stub_)" % (rt, "" if unproto else proto(ts, o, False))
    call = "%s(%s)" % (fp, ", ".join(args))
    mm = (o["nsse"], 8) if var or unproto else (0, 0)
    seen = ' seen_("%s", %d, %d);' % (spec, mm[0], mm[1])
    twice = rng.random() < 0.3
    if twice:
        body += " for (int k = 0; k < 2; k++) { if (k) mark_(); %s; }" % call
        seen += " same_();"
    if rt == "void":
        body += " %s;%s" % (call, seen)
    else:
        how = rng.choice(["init", "assign", "mem"])
        body += {"init": " %s r = %s;%s o_(&r, \"%s\");", "assign": " %s r; r = %s;%s o_(&r, \"%s\");", "mem": " struct { int x; %s r; } s; s.r = %s;%s o_(&s.r, \"%s\");"}[how] % (rt, call, seen, leaves(o["ret"]))
    exp += ["ok"] + (["ok"] if mm[1] else []) + (["ok"] if twice else []) + out(o["ret"], rim)
    code = "".join(ts.decls) + "static int z@;\n" + "\n".join(l[5:] if l.startswith("DECL ") else l for l in code.split("\n"))
    code += "void t@(void) {%s }\n" % body
    return dict(code=code, expect=" ".join(exp), desc="caller of %s f(%s)%s" % (rt, proto(ts, o, False), " without prototype" if unproto else ""))


PROMO = {"int", "uint", "long", "ulong", "llong", "ullong", "ptr", "double"}


def run(c):
    c.build_cc()
    rng = random.Random(c.seed)
    k = 1 if c.quick else 8
    cfg = "CONSTANTS\nMaxAgg = %d\nMaxPar = %d\nMaxMem = %d\nVariadic = %s\nPick <- PickOne\nINVARIANT Distinct\nINVARIANT Laid\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"
    objs = c.tlc("SysV", cfg % (3, 9, 16, "FALSE"), mode="sim", num=2400 * k, depth=80, seed_salt=90)
    objs += c.tlc("SysV", cfg % (3, 18, 40, "FALSE"), mode="sim", num=1600 * k, depth=120, seed_salt=91)
    objs += c.tlc("SysV", cfg % (1, 3, 16, "FALSE"), mode="sim", num=1600 * k, depth=60, seed_salt=93)
    objs += c.tlc("SysV", cfg % (2, 14, 24, "TRUE"), mode="sim", num=2000 * k, depth=100, seed_salt=92)
    items = []
    for o in objs:
        items.append(callee(o, rng))
        items.append(caller(o, rng))
        if o["fixed"] < 0 and all(p["t"]["k"] != "s" or p["t"]["n"] in PROMO for p in o["ps"]):
            items.append(caller(o, rng, True))
    c.sample(objs[0])
    c.stats.update(signatures=len(objs))
    c.replay(items, "typedef __builtin_va_list va_list;\n#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\n#define va_copy(a, b) (*(a) = *(b))\n" + PRE, HARN, batch=60)
