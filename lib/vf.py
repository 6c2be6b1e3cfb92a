"""Framework: builds the compiler from /repo, runs TLC, runs generated programs, judges and reports."""
import ctypes, json, os, re, shutil, subprocess, sys, tempfile, time, resource, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_libc = ctypes.CDLL(None)
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, timeout=60, cwd=None, inp=None, env=None, mem_mb=4096, cpu=None):
    """Run a command; returns (rc, stdout, stderr). rc = 'timeout' on timeout."""
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) + 5, int(timeout) + 6))
        _libc.prctl(1, signal.SIGKILL)           # children die with the check
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=lim)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return "timeout", o, e


HARNESS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void r_(long v) { printf(" %ld", v); }
void ru_(unsigned long v) { printf(" %lu", v); }
void rx_(unsigned long v) { printf(" %lx", v); }
void rs_(const char *s) { printf(" %s", s); }
void rb_(const void *p, int n) { const unsigned char *c = p; putchar(' '); for (int i = 0; i < n; i++) printf("%02x", c[i]); }
void rd_(double d) { unsigned long u; memcpy(&u, &d, 8); printf(" d%016lx", u); }
void rf_(float d) { unsigned u; memcpy(&u, &d, 4); printf(" f%08x", u); }
"""
DECLS = ("void r_(long v); void ru_(unsigned long v); void rx_(unsigned long v); void rs_(const char *s);\n"
         "void rb_(const void *p, int n); void rd_(double d); void rf_(float d);\n")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + ".", dir=base)
        self.outdir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.outdir, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0          # behaviours of the specification replayed in / traces of the code accepted
        self.executions = 0
        self.samples = []
        self.stats = {}
        self.violations = []
        self.known = []
        self.cc = None
        self._n = 0
        self.nfail = 0
        self.max_fail = 6
        self.ref = os.environ.get("VF_REF")      # development: run the spec against gcc instead
        self.exhaustive = False

    # ---------------------------------------------------------------- build
    def build_cc(self, cflags=("-O0",)):
        bd = os.path.join(self.dir, "ccbuild")
        os.makedirs(bd)
        d = open(os.path.join(REPO, "config.def.h")).read()
        d = d.replace('"include/linux/"', '"%s/include/linux/"' % REPO)
        d = d.replace('"/usr/include/",', '"/usr/include/",\n\t"/usr/include/x86_64-linux-gnu/",')
        cfg = os.path.join(bd, "config.h")
        open(cfg, "w").write(d)
        srcs = []
        for root, _, files in os.walk(os.path.join(REPO, "src")):
            depth = os.path.relpath(root, os.path.join(REPO, "src")).count("/")
            if depth > 0:
                continue
            for f in files:
                if f.endswith(".c"):
                    srcs.append(os.path.join(root, f))
        srcs.sort()
        def one(i):
            o = os.path.join(bd, "%d.o" % i)
            rc, so, se = sh(["gcc", "-std=gnu17", "-w", *cflags, "-I", os.path.join(REPO, "src"), "-I", REPO,
                             '-DCONFIG_PATH="%s"' % cfg, "-c", srcs[i], "-o", o], timeout=300)
            if rc != 0:
                raise CheckError("building %s: %s" % (srcs[i], se.decode(errors="replace")[:2000]))
            return o
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, range(len(srcs))))
        exe = os.path.join(bd, "cc")
        rc, so, se = sh(["gcc", *cflags, "-o", exe] + objs, timeout=300)
        if rc != 0:
            raise CheckError("linking the compiler: " + se.decode(errors="replace")[:2000])
        self.cc = exe
        return exe

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, mode="bfs", num=1000, depth=200, shards=None, workers=1, timeout=600, seed_salt=0,
            want_coverage=False):
        """Run TLC on spec/<module>.tla with the given cfg text; returns the list of exported JSON objects.
        mode 'sim': `shards` JVMs of num/shards behaviours each, seeded from VERIF_SEED; 'bfs': exhaustive."""
        wd = tempfile.mkdtemp(prefix="tlc.", dir=self.dir)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), wd)
        open(os.path.join(wd, "run.cfg"), "w").write(cfg)
        if mode == "bfs":
            shards = 1
        elif shards is None:
            shards = NCPU
        def one(k):
            java = ["java", "-XX:+UseSerialGC" if mode == "sim" else "-XX:+UseParallelGC",
                    "-Xmx%dm" % (1800 if mode == "sim" else 8000), "-Xss64m",
                    "-Djava.io.tmpdir=" + wd, "-cp", TLAJARS, "tlc2.TLC",
                    "-config", "run.cfg", "-metadir", os.path.join(wd, "meta%d" % k), "-noGenerateSpecTE"]
            if want_coverage:
                java += ["-coverage", "1"]
            if mode == "sim":
                n = num // shards + (1 if k < num % shards else 0)
                if n == 0:
                    return [], 0, 0
                java += ["-simulate", "num=%d" % n, "-depth", str(depth),
                         "-seed", str(self.seed * 1000003 + seed_salt * 1009 + k), "-workers", "1"]
            else:
                java += ["-workers", str(workers)]
            java.append(module + ".tla")
            rc, so, se = sh(java, timeout=timeout, cwd=wd, mem_mb=None)
            txt = so.decode(errors="replace")
            if rc != 0:
                open(os.path.join(VERIF, "build", "tlc_error.txt"), "w").write(txt + se.decode(errors="replace"))
                lines = [l for l in txt.splitlines() if not l.startswith(('"', "Parsing file", "Semantic proc", "Linting"))]
                raise CheckError("TLC on %s ended with %s:\n%s" % (module, rc, "\n".join(lines[-60:])[:6000]))
            objs, st, dist = [], 0, 0
            for l in txt.splitlines():
                if l.startswith('"'):
                    objs.append(json.loads(json.loads(l)))
                else:
                    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
                    if m:
                        st, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
                    m = re.match(r"Progress: ([\d,]+) states checked", l)
                    if m:
                        st = dist = int(m[1].replace(",", ""))
            if want_coverage:
                sys.stderr.write("\n".join(l for l in txt.splitlines() if not l.startswith('"')) + "\n")
            return objs, st, dist
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        objs = []
        for o, st, dist in rs:
            objs += o
            self.states += dist
            self.transitions += st
        shutil.rmtree(wd, ignore_errors=True)
        return objs

    # ---------------------------------------------------------------- running programs
    def compile(self, src, out, mode, flags=(), timeout=20, cwd=None):
        """mode 'c' -> object, 'S' -> assembly, assembled by as. Returns (ok, message)."""
        if self.ref:
            extra = self.ref.split()
            rc, so, se = sh(extra + ["-w", "-no-pie", "-fno-strict-aliasing", "-c", src, "-o", out] +
                            [f for f in flags if not f.startswith("-f")], timeout=timeout * 4, cwd=cwd)
        elif mode == "c":
            rc, so, se = sh([self.cc, "-c", src, "-o", out, *flags], timeout=timeout, cwd=cwd)
        else:
            s = out[:-2] + ".s"
            rc, so, se = sh([self.cc, "-S", src, "-o", s, *flags], timeout=timeout, cwd=cwd)
            if rc == 0:
                rc, so2, se = sh(["as", s, "-o", out], timeout=timeout)
                so += so2
                if os.path.exists(s):
                    os.unlink(s)
        if rc != 0:
            return False, "compiler(-%s) ended with %s: %s" % (mode, rc, (so + se).decode(errors="replace")[-1500:])
        return True, ""

    def tmp(self, suffix):
        self._n += 1
        return os.path.join(self.dir, "t%d%s" % (self._n, suffix))

    def harness_obj(self, text=None, flags=()):
        """Compile the (gcc-built) harness once; returns the object path."""
        src = self.tmp(".h.c")
        open(src, "w").write(text if text is not None else HARNESS)
        o = src[:-2] + ".o"
        rc, so, se = sh(["gcc", "-w", "-O1", "-fno-pie", *flags, "-c", src, "-o", o])
        if rc != 0:
            raise CheckError("harness: " + se.decode(errors="replace")[:3000])
        return o

    def run_batch(self, items, prelude, harness_o, mode, flags=(), timeout=20, extra_objs=()):
        """items: list of (index, function text defining `void t<index>(void)`). Every function prints through
        the r_ family. Returns {index: output string or ('fail', message)}; splits on any failure."""
        src = self.tmp(".c")
        with open(src, "w") as f:
            f.write(prelude)
            for i, code in items:
                f.write(code)
                f.write("\n")
        res = {}
        o = src[:-2] + ".o"
        ok, msg = self.compile(src, o, mode, flags)
        if ok:
            mainc = src[:-2] + ".m.c"
            with open(mainc, "w") as f:
                f.write("#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\n")
                for i, _ in items:
                    f.write("%svoid t%d(void);\n" % ("__attribute__((ms_abi)) " if "-fabi=ms" in flags and not self.ref else "", i))
                f.write("static struct { int n; void (%s*f)(void); } tab[] = {\n" % ("__attribute__((ms_abi)) " if "-fabi=ms" in flags and not self.ref else ""))
                for i, _ in items:
                    f.write("{%d, t%d},\n" % (i, i))
                f.write("};\nint main(int argc, char **argv){ int i = atoi(argv[1]); (void)argc;\n"
                        "for (; i < %d; i++) { printf(\"#%%d\", tab[i].n); fflush(stdout); alarm(6); tab[i].f(); alarm(0);"
                        " printf(\" \\n\"); fflush(stdout); }\nreturn 0; }\n" % len(items))
            exe = src[:-2] + ".x"
            rc, so, se = sh(["gcc", "-w", "-no-pie", "-fno-pie", "-z", "noexecstack", mainc, o, harness_o, *extra_objs,
                             "-o", exe, "-lm"], timeout=60)
            os.unlink(mainc)
            if rc != 0:
                ok, msg = False, "link failed: " + se.decode(errors="replace")[-1000:]
            else:
                start = 0
                while start < len(items):
                    rc, so, se = sh([exe, str(start)], timeout=timeout + 10, mem_mb=2048)
                    last = None
                    for line in so.decode(errors="replace").split("\n"):
                        if line.startswith("#"):
                            h, _, rest = line[1:].partition(" ")
                            if h.isdigit():
                                last = int(h)
                                if line.endswith(" "):
                                    res[last] = rest.rstrip(" ")
                                    last = None
                    if rc == 0:
                        break
                    if last is None:       # ended between two items
                        break
                    res[last] = ("fail", "program ended with %s; output %s" % (rc, so.decode(errors="replace")[-300:]))
                    self.nfail += 1
                    if self.nfail >= self.max_fail or self.late():
                        os.unlink(exe)
                        self.drop(src, o)
                        return res
                    start = [n for n, (i, _) in enumerate(items) if i == last][0] + 1
                os.unlink(exe)
        self.drop(src, o)
        if ok:
            for i, _ in items:
                if i not in res:
                    res[i] = ("fail", "no output line")
            return res
        if len(items) == 1:
            self.nfail += 1
            return {items[0][0]: ("fail", msg)}
        if self.nfail >= self.max_fail or self.late():
            return {}
        h = len(items) // 2
        res = self.run_batch(items[:h], prelude, harness_o, mode, flags, timeout, extra_objs)
        res.update(self.run_batch(items[h:], prelude, harness_o, mode, flags, timeout, extra_objs))
        return res

    def drop(self, *files):
        for p in files:
            if os.path.exists(p):
                os.unlink(p)

    def late(self):
        """a systematic failure must not use up the time limit"""
        return self.quick and time.time() - self.t0 > 500

    def replay(self, items, prelude="", harness=None, modes=("c", "S"), flags=(), batch=100, timeout=20,
               describe=None, extra_objs=(), max_report=5, norm=None):
        """items: list of dict(code, expect (string), desc). Runs every item under every mode and reports
        the ones whose output differs. code contains `t@` for the function's own name."""
        if "-fabi=ms" in flags and not self.ref:        # the compiled code calls and is called by the Microsoft convention
            prelude = DECLS.replace("long", "long long") + prelude
            harness = re.sub(r"^void (?=r)", "__attribute__((ms_abi)) void ", harness or HARNESS, flags=re.M)
        else:
            prelude = DECLS + prelude
        ho = self.harness_obj(harness)
        jobs = []
        self.nfail = 0
        for mode in (modes if not self.ref else modes[:1]):
            fl = list(flags)
            for k in range(0, len(items), batch):
                jobs.append((mode, k, fl))
        def job(j):
            mode, k, fl = j
            if self.nfail >= self.max_fail or (self.nfail and self.late()):      # a systematic failure must not take for ever
                return mode, fl, {}
            its = [(i, items[i]["code"].replace("t@", "t%d" % i).replace("@", str(i))) for i in range(k, min(k + batch, len(items)))]
            return mode, fl, nrm(self.run_batch(its, prelude, ho, mode, fl, timeout, extra_objs))
        def nrm(res):
            return {i: norm(v, items[i]) if norm and isinstance(v, str) else v for i, v in res.items()}
        bad = []
        with ThreadPoolExecutor(NCPU) as ex:
            for mode, fl, res in ex.map(job, jobs):
                for i, v in res.items():
                    self.executions += 1
                    exp = items[i]["expect"]
                    okv = (v in exp) if isinstance(exp, (list, set, tuple)) else (v == exp)
                    if not okv:
                        bad.append((i, mode, fl, v))
        self.traces += len(items)
        self.nfail = -10 ** 6
        # confirm: run each failing item alone, twice
        seen = set()
        for i, mode, fl, v in bad:
            if len(self.violations) >= max_report:
                break
            if i in seen:
                continue
            it = items[i]
            code = it["code"].replace("t@", "t%d" % i).replace("@", str(i))
            again = nrm(self.run_batch([(i, code)], prelude, ho, mode, fl, timeout, extra_objs)).get(i)
            exp = it["expect"]
            okv = (again in exp) if isinstance(exp, (list, set, tuple)) else (again == exp)
            if okv:
                # only fails in company: keep the whole batch as replay if that repeats
                k = i // batch * batch
                _, _, res2 = job((mode, k, fl))
                v2 = res2.get(i)
                okv2 = (v2 in exp) if isinstance(exp, (list, set, tuple)) else (v2 == exp)
                if okv2:
                    continue
                again = v2
            seen.add(i)
            self.violation(it.get("desc", ""), {"mode": "-" + mode, "flags": " ".join(fl), "expected": str(exp), "actual": str(again)},
                           {"input.c": prelude + code})
        return bad

    # ---------------------------------------------------------------- reporting
    def violation(self, desc, info, files=None):
        n = len(self.violations)
        d = os.path.join(self.outdir, "v%d" % n)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "info.txt"), "w") as f:
            f.write("property %s\n%s\n" % (self.pid, desc))
            for k, v in info.items():
                f.write("%s: %s\n" % (k, v))
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "wb" if isinstance(text, bytes) else "w") as f:
                f.write(text)
        self.violations.append(d)
        sys.stderr.write("%s violation: %s\n%s\n" % (self.pid, desc, "\n".join("  %s: %s" % (k, str(v)[:600]) for k, v in info.items())))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                           "program_executions": self.executions, **self.stats},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.exhaustive:
            ev["coverage"]["exhaustive_part"] = self.exhaustive
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            for v in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(v, VERIF)))
            return 1
        print("%s held: %d states, %d behaviours replayed, %d executions, %.1fs" %
              (self.pid, self.states, self.traces, self.executions, time.time() - self.t0))
        return 0
