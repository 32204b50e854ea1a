"""Shared machinery: builds the encoding from /repo, runs the solver engine, reports."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob, fcntl, atexit, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
NPROC = os.cpu_count() or 8

def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", RUSTUP_TOOLCHAIN=TOOLCHAIN,
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("CARGO_TARGET_DIR", "CHELANG_HOME", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e

class BuildError(Exception):
    pass

def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def _prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(CACHE, prefix + "-*")), key=os.path.getmtime)
    for d in ds[:-keep]:
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)

def build_engine():
    src = os.path.join(VERIF, "engine")
    key = _hash_tree([src])
    out = os.path.join(CACHE, "engine-" + key)
    with Lock("engine"):
        exe = os.path.join(out, "symx")
        if not os.path.exists(exe):
            _prune("engine", 3)
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            r = subprocess.run(["make", "-s", "-j4", "-C", src, "B=" + tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("engine build failed:\n" + r.stderr[-3000:])
            os.rename(tmp, out)
    return exe

def build_che():
    """Compile /repo's crate once: returns (native binary, textual LLVM IR of the whole program)."""
    key = _hash_tree([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")])
    out = os.path.join(CACHE, "che-" + key)
    with Lock("che"):
        if not os.path.exists(os.path.join(out, "ok")):
            _prune("che", 3)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            crate = tempfile.mkdtemp(prefix="che-build-")
            try:
                for n in ("src", "Cargo.toml", "Cargo.lock"):
                    s = os.path.join(REPO, n)
                    (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(crate, n))
                if os.path.exists(os.path.join(REPO, "build.rs")):
                    shutil.copy(os.path.join(REPO, "build.rs"), crate)
                e = env()
                e.update(CARGO_TARGET_DIR=os.path.join(crate, "t"), CARGO_PROFILE_RELEASE_LTO="fat", CARGO_PROFILE_RELEASE_PANIC="abort",
                         CARGO_PROFILE_RELEASE_CODEGEN_UNITS="1", CARGO_PROFILE_RELEASE_OPT_LEVEL="1",
                         CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true", CARGO_PROFILE_RELEASE_DEBUG="0")
                r = subprocess.run(["cargo", "rustc", "--release", "--offline", "--locked", "--bin", "che", "--", "-C", "save-temps"],
                                   cwd=crate, env=e, capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("cargo build of /repo failed:\n" + r.stderr[-4000:])
                d = os.path.join(crate, "t/release/deps")
                bcs = [f for f in glob.glob(d + "/che-*.rcgu.bc")]
                if len(bcs) != 1:
                    raise BuildError("expected one LTO bitcode file, found %r" % bcs)
                tb = subprocess.run(["rustc", "--print", "target-libdir"], env=env(), capture_output=True, text=True).stdout.strip()
                opt = os.path.join(os.path.dirname(tb), "bin", "opt")
                r = subprocess.run([opt, "--strip-debug", "-passes=function(lower-invoke,simplifycfg),globaldce", "-S", bcs[0], "-o", os.path.join(out, "che.ll")],
                                   capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("opt failed: " + r.stderr[-2000:])
                shutil.copy(os.path.join(crate, "t/release/che"), os.path.join(out, "che"))
                open(os.path.join(out, "ok"), "w").close()
            finally:
                shutil.rmtree(crate, ignore_errors=True)
    return os.path.join(out, "che"), os.path.join(out, "che.ll")

def build_all():
    """Engine and IR in parallel."""
    res = {}
    def go(k, f):
        try:
            res[k] = f()
        except BaseException as ex:
            res[k] = ex
    ts = [threading.Thread(target=go, args=a) for a in (("engine", build_engine), ("che", build_che))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for v in res.values():
        if isinstance(v, BaseException):
            raise v
    return res["engine"], res["che"][0], res["che"][1]

def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()

class Cho:
    """A slot: one of several strings, selected by the symbolic variable `name`; padded to equal length with blanks."""
    def __init__(self, name, alts, pad=" "):
        w = max(len(a.encode()) for a in alts)
        self.name, self.raw = name, list(alts)
        self.alts = [a + pad * (w - len(a.encode())) for a in alts]

class Sym:
    """One symbolic byte restricted to a set."""
    def __init__(self, name, allowed=None):
        self.name = name
        if allowed is None:
            self.allowed = bytes(range(256))
        else:
            self.allowed = allowed if isinstance(allowed, bytes) else allowed.encode()

class Spec:
    def __init__(self, args=("genc", "/w/a.c", "/w/out")):
        self.args = ["che"] + list(args)
        self.files = {}
        self.extra = []
        self.envv = {"CHELANG_HOME": "/h"}
        self.dirs = {"/", "/w", "/h", "/h/lib", "/tmp"}
        self.split = []
        self.note = ""
        self.ids = {}
        self.lims = {}
        self.assumes = []
        self.pcs = False
        self.mut = {}      # file -> (position variable, byte variable, allowed bytes)
        self.trunc = {}    # file -> length variable
        self.maxinst = 40000000
        self.faults = None      # {operation: number of symbolic failures}
        self.children = False   # the command starts other programs (replays use stand-ins)
    def file(self, path, *parts):
        self.files[path] = list(parts)
        d = os.path.dirname(path)
        while d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)
        return self
    def vars(self):
        r = []
        for ps in self.files.values():
            for p in ps:
                if not isinstance(p, (str, bytes)) and p.name not in r:
                    r.append(p.name)
        return r
    def var(self, name, limit):
        """A symbolic variable that occurs in no file (exit statuses, positions, lengths)."""
        self.extra.append("var %s %d" % (name, limit))
        self.lims[name] = limit
        return self
    def status(self, k, limit):
        """Child number k ends with a symbolic status below limit (128 + s: killed by signal s)."""
        self.children = True
        self.extra.append("status status%d %d" % (k, limit))
        self.ids["status%d" % k] = 8
        self.lims["status%d" % k] = limit
        return self
    def assume(self, smt):
        self.assumes.append(smt)
        return self
    def widths(self):
        r = {n: 8 for n in self.vars()}
        r.update({n: 8 for n in self.lims})
        r.update(self.ids)
        return r
    def domains(self, decls):
        import z3
        fs = []
        for ps in self.files.values():
            for p in ps:
                if isinstance(p, Cho):
                    fs.append(z3.ULT(decls[p.name], len(p.alts)))
                elif isinstance(p, Sym) and len(p.allowed) < 256:
                    fs.append(z3.Or(*[decls[p.name] == x for x in p.allowed]))
        for n, l in self.lims.items():
            if l < 256:
                fs.append(z3.ULT(decls[n], l))
        return fs
    def text(self, deadline):
        o = ["arg " + hx(a) for a in self.args] + ["env %s %s" % (k, hx(v)) for k, v in self.envv.items()] + ["cwd /w"]
        o += ["dir " + d for d in sorted(self.dirs)]
        for p, parts in self.files.items():
            o.append("file " + p)
            for x in parts:
                if isinstance(x, (str, bytes)):
                    if x:
                        o.append("lit " + hx(x))
                elif isinstance(x, Cho):
                    o.append("cho %s %s" % (x.name, " ".join(hx(a) or "-" for a in x.alts)))
                else:
                    o.append("sym %s %s" % (x.name, "*" if len(x.allowed) == 256 else hx(x.allowed)))
            if p in self.mut:
                n, v, al = self.mut[p]
                o.append("mutate %s %s %s" % (n, v, "*" if len(al) == 256 else hx(al)))
            if p in self.trunc:
                o.append("trunc " + self.trunc[p])
        o += self.extra + ["assume " + a for a in self.assumes]
        if self.pcs:
            o.append("pc")
        if self.split:
            o.append("split " + " ".join(self.split))
        o.append("maxinst %d" % self.maxinst)
        if deadline:
            o.append("deadline %f" % deadline)
        return "\n".join(o) + "\n"
    def render(self, model):
        r = {}
        for p, parts in self.files.items():
            b = b""
            for x in parts:
                if isinstance(x, bytes):
                    b += x
                elif isinstance(x, str):
                    b += x.encode()
                elif isinstance(x, Cho):
                    b += x.alts[model[x.name]].encode()
                else:
                    b += bytes([model[x.name]])
            if p in self.mut:
                i = model[self.mut[p][0]]
                b = b[:i] + bytes([model[self.mut[p][1]]]) + b[i + 1:]
            if p in self.trunc:
                b = b[:model[self.trunc[p]]]
            r[p] = b
        return r

class Path:
    def __init__(self, spec, d):
        self.spec, self.d = spec, d
        self.st, self.code, self.msg, self.model, self.free = d["st"], d["code"], d["msg"], d["model"], d["free"]
        self.events = [e.split("\x1f") for e in d["events"]]
    def out(self):
        return bytes.fromhex(self.d["out"]["hex"])
    def err(self):
        return bytes.fromhex(self.d["err"]["hex"])
    def files(self):
        return {k: bytes.fromhex(v["hex"]) for k, v in self.d["files"].items()}
    def symbolic(self):
        """Output positions that still depend on free variables: {(file, pos): smt term}."""
        r = {}
        for n, v in [("<stdout>", self.d["out"]), ("<stderr>", self.d["err"])] + list(self.d["files"].items()):
            for p, t in v["sym"].items():
                r[(n, int(p))] = t
        return r
    def inputs(self):
        return self.spec.render(self.model)
    def res(self):
        return {"st": self.st, "code": self.code, "out": self.out(), "err": self.err(), "files": self.files(), "events": self.events, "msg": self.msg}
    def pc(self):
        """Path condition and domains as one list of z3 formulas over the spec's variables."""
        import z3
        decls = {n: z3.BitVec(n, b) for n, b in self.spec.widths().items()}
        fs = list(z3.parse_smt2_string("".join("(assert %s)" % x for x in self.d["pc"] + self.spec.assumes), decls=decls)) if self.d["pc"] or self.spec.assumes else []
        return fs + self.spec.domains(decls)

HARD = ("unsupported", "unknown", "deadline", "error")

class Native:
    """Runs the natively built compiler on concrete inputs inside a scratch directory (for replays)."""
    def __init__(self, che):
        self.che = che
    def run(self, spec, files, timeout=20, model=None):
        d = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            for x in spec.dirs:
                os.makedirs(d + x, exist_ok=True)
            for p, b in files.items():
                with open(d + p, "wb") as f:
                    f.write(b)
            conv = lambda s: d + s if s.startswith("/w") or s.startswith("/h") else s
            e = {"CHELANG_HOME": d + "/h", "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"}
            if spec.children:
                e["PATH"] = d + "/bin:" + e["PATH"]
                fake(d, spec, model or {})
            if spec.faults:
                e.update(LD_PRELOAD=shim(d), VF_ROOT=d, VF_FAULTS=" ".join(k for k, v in (model or {}).items() if v))
            before = set(os.path.join(a, f) for a, _, ff in os.walk(d) for f in ff)
            try:
                r = subprocess.run([self.che] + [conv(a) for a in spec.args[1:]], cwd=d + "/w", env=e, capture_output=True, timeout=timeout)
                code, out, err = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired:
                code, out, err = "timeout", b"", b""
            gen = {}
            for a, _, ff in os.walk(d):
                for f in ff:
                    p = os.path.join(a, f)
                    if p not in before:
                        with open(p, "rb") as fh:
                            gen[p[len(d):]] = fh.read()
            events = []
            if spec.children:
                events = [x.split("\x1f") for x in gen.pop("/log", b"").replace(d.encode(), b"").decode().split("\n") if x]
                gen = {k: v for k, v in gen.items() if not k.startswith(("/bin", "/child"))}
            gen = {k: v for k, v in gen.items() if not k.startswith("/shim")}
            return {"code": code, "events": events, "out": out.replace(d.encode(), b""), "err": err.replace(d.encode(), b""), "files": gen}
        finally:
            shutil.rmtree(d, ignore_errors=True)

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static int cnt[7]; static const char *nm[] = {"open", "create", "read", "write", "mkdir", "spawn", "short"}; static char mine[1024];
static int fails(int k) { char b[32]; const char *f = getenv("VF_FAULTS"); snprintf(b, 32, "%s%d", nm[k], cnt[k]++); size_t n = strlen(b); for (const char *p = f ? f : ""; (p = strstr(p, b)); p += n) if ((p == f || p[-1] == ' ') && (p[n] == ' ' || !p[n])) return 1; return 0; }
static int in(const char *p) { const char *r = getenv("VF_ROOT"); return r && (p[0] != '/' || !strncmp(p, r, strlen(r))); }
#define REAL(n) static typeof(n) *r; if (!r) r = dlsym(RTLD_NEXT, #n)
int open64(const char *p, int fl, ...) { REAL(open64); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (in(p) && fails(fl & O_CREAT ? 1 : 0)) { errno = EACCES; return -1; } int fd = r(p, fl, m); if (fd >= 0 && fd < 1024) mine[fd] = in(p); return fd; }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (fd >= 0 && fd < 1024 && mine[fd] && fails(2)) { errno = EIO; return -1; } return r(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (fd >= 0 && fd < 1024 && mine[fd] && fails(3)) { errno = ENOSPC; return -1; } if (fd >= 0 && fd < 1024 && mine[fd] && n > 1 && fails(6)) n /= 2; return r(fd, b, n); }
int close(int fd) { REAL(close); if (fd >= 0 && fd < 1024) mine[fd] = 0; return r(fd); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (in(p) && fails(4)) { errno = EACCES; return -1; } return r(p, m); }
int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const v[], char *const e[]) { REAL(posix_spawnp); unsetenv("LD_PRELOAD"); if (fails(5)) return ENOENT; return r(p, f, fa, at, v, environ); }
"""

def shim(d):
    """A library that makes chosen file and process operations fail, for the replay of fault schedules."""
    os.makedirs(d + "/shim")
    with open(d + "/shim/s.c", "w") as f:
        f.write(SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", d + "/shim/s.so", d + "/shim/s.c", "-ldl"], check=True, capture_output=True)
    return d + "/shim/s.so"

def fake(d, spec, model):
    """Stand-ins for the C compiler and for the programs it makes: they log their arguments and end as the model says."""
    os.makedirs(d + "/bin")
    run = """#!/bin/bash
cd %(d)s
k=$(cat child/n 2>/dev/null || echo 0)
echo $((k + 1)) > child/n
{ printf '%%s' "$EV"; for a in "$@"; do printf '\\x1f%%s' "$a"; done; echo; } >> log
cat child/$k.out 2>/dev/null
cat child/$k.err >&2 2>/dev/null
s=$(cat child/$k.st 2>/dev/null || echo 0)
[ $s -gt 128 ] && kill -$((s - 128)) $$
exit $s
""" % {"d": d}
    os.makedirs(d + "/child", exist_ok=True)
    for n, v in model.items():
        if n.startswith("status"):
            with open(d + "/child/%s.st" % n[6:], "w") as f:
                f.write(str(v))
    with open(d + "/bin/run", "w") as f:
        f.write(run)
    with open(d + "/bin/c99", "w") as f:
        f.write("""#!/bin/bash
o=a.out
args=("$@")
for ((i = 0; i < ${#args[@]}; i++)); do [ "${args[$i]}" = -o ] && o="${args[$((i + 1))]}"; done
printf '#!/bin/bash\nb="$0"\n[ "$0" = /tmp/chebuild ] && rm -f "$0"\nEV="spawn\x1f$b" exec %s/bin/run "$@"\n' > "$o"
chmod +x "$o"
EV=$(printf 'spawn\x1fc99') exec %s/bin/run "$@"
""" % (d, d))
    os.chmod(d + "/bin/run", 0o755)
    os.chmod(d + "/bin/c99", 0o755)

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.stats = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, insts=0, engine_wall_s=0.0)
        self.functions = set()
        self.samples = []
        self.asserts = 0
        self.assert_solver_s = 0.0
        self.replayed = 0
        self.incomplete = []
        self.bounds = []
        self.assumptions = []
        self.witness = {}
        self.spec_count = 0
        self.explain = ""
        self.extra_cov = {}
        self.notrep = []
        self.failed = False
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        kf = os.path.join(VERIF, "known_findings.json")
        self.kf = json.load(open(kf)) if os.path.exists(kf) else {"findings": []}
        rd = os.path.join(VERIF, "replays", pid)
        shutil.rmtree(rd, ignore_errors=True)
        self._engine = None
        self.queue = []
    # -- build
    def setup(self):
        self._engine, self.che, self.ll = build_all()
        self.native = Native(self.che)
    def budget(self):
        return 780 if self.tier == "quick" else 6 * 3600
    # -- run the engine
    def start(self, spec, deadline=None, ll=None):
        """Launches the engine on a spec; `collect` waits for it."""
        if self._engine is None:
            self.setup()
        n = self.spec_count
        self.spec_count += 1
        sp, out = os.path.join(self.scratch, "s%d" % n), os.path.join(self.scratch, "o%d" % n)
        left = self.budget() - (time.time() - self.t0)
        dl = max(5, min(deadline or 1e9, left))
        with open(sp, "w") as f:
            f.write(spec.text(dl))
        so = open(sp + ".out", "w+")
        p = subprocess.Popen([self._engine, ll or self.ll, sp, out], stdout=so, stderr=subprocess.PIPE, text=True)
        return spec, p, so, out
    def collect(self, h):
        spec, p, so, out = h
        err = p.stderr.read()
        if p.wait() != 0:
            raise BuildError("engine failed (%d): %s" % (p.returncode, err[-2000:]))
        so.seek(0)
        s = json.loads(so.read())
        so.close()
        for k in ("paths", "forks", "queries", "sat", "unsat", "unknown", "solver_s", "insts"):
            self.stats[k] += s[k]
        self.stats["engine_wall_s"] += s["wall_s"]
        self.functions.update(s["functions"])
        if s["crashed"]:
            self.incomplete.append("%d engine process(es) died in %s" % (s["crashed"], spec.note))
        res = []
        with open(out) as f:
            for l in f:
                p = Path(spec, json.loads(l))
                if p.st in HARD:
                    self.incomplete.append("%s: %s %s" % (spec.note, p.st, p.msg[:300]))
                else:
                    res.append(p)
        os.unlink(out)
        if not res and not self.incomplete:
            self.incomplete.append("no path finished in " + spec.note)
        return res
    def run(self, spec, deadline=None, ll=None):
        return self.collect(self.start(spec, deadline, ll))
    # -- reporting
    def violation(self, what, files, info=None):
        """files: {name: bytes}. Records a replayable counterexample (already reproduced natively)."""
        for k in self.kf["findings"]:
            if k["property"] == self.pid and k["status"] == "known" and re.search(k["match"], what):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, "replays", self.pid, "%d" % len(self.violations))
        os.makedirs(d, exist_ok=True)
        for n, b in files.items():
            p = os.path.join(d, n.strip("/").replace("/", "_"))
            with open(p, "wb") as f:
                f.write(b if isinstance(b, bytes) else b.encode())
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s\n%s\n%s\n" % (self.pid, what, json.dumps(info, indent=1, default=str) if info else ""))
        self.violations.append((what, d))
        print("counterexample: %s" % what)
    def not_reproduced(self, what):
        self.notrep.append(what)
    def vacuity(self, name, ok):
        self.witness[name] = bool(ok)
    def finish(self):
        cov = {
            "explanation": self.explain,
            "functions_encoded": sorted(x for x in self.functions if "3che" in x or not x.startswith("_R"))[:400],
            "functions_encoded_count": len(self.functions),
            "bounds": self.bounds,
            "paths": self.stats["paths"], "branch_forks": self.stats["forks"],
            "solver_queries": self.stats["queries"] , "solver_sat": self.stats["sat"], "solver_unsat": self.stats["unsat"], "solver_unknown": self.stats["unknown"],
            "solver_time_s": round(self.stats["solver_s"], 3), "assertion_checks": self.asserts, "assertion_solver_time_s": round(self.assert_solver_s, 3),
            "instructions_executed": self.stats["insts"], "native_replays": self.replayed,
            "vacuity_witnesses": self.witness, "incomplete": self.incomplete[:20], "samples": self.samples[:8],
            "not_reproduced": self.notrep[:10],
        }
        cov.update(self.extra_cov)
        nv = len(self.violations)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": nv}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for i in self.incomplete[:5]:
            print("INCOMPLETE: " + i)
        for i in self.notrep[:5]:
            print("NOT-REPRODUCED: " + i)
        bad = [k for k, v in self.witness.items() if not v]
        if bad and not nv:
            print("VACUOUS: witness not reached: " + ", ".join(bad))
        print("%s %s: %d paths, %d solver queries, %d assertions, %.1f s, violations: %d" % (self.pid, self.tier, self.stats["paths"], self.stats["queries"], self.asserts, time.time() - self.t0, nv))
        if nv:
            for v in self.violations:
                if v:
                    print("VIOLATION property=%s replay=%s" % (self.pid, v[1]))
            sys.exit(1)
        if self.failed or not self.stats["paths"]:
            sys.exit(2)     # nothing was decided
        sys.exit(0)
