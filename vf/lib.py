"""Checks of the standard library and the programs: Che harnesses are compiled by the tree's own compiler,
the generated C becomes LLVM IR together with a small C library, and the engine executes it symbolically."""
import os, re, shutil, subprocess, tempfile, glob
from . import core

LIB = os.path.join(core.VERIF, "lib")
BIN = "/usr/lib/llvm-18/bin/"
CFLAGS = ["-std=c99", "-D_XOPEN_SOURCE=700", "-D__NO_CTYPE", "-w", "-include", os.path.join(LIB, "vf.h")]
SAN = ["-fsanitize=array-bounds,integer-divide-by-zero,shift-exponent,unreachable,return,vla-bound", "-fsanitize-trap=all"]
FATAL = ("assert", "segv", "ub", "abort", "stack", "oom", "unreachable", "cap")

class Harness:
    """name: lib/<name>.c; inputs: number of symbolic bytes, or a list of limits (byte i < limit); panics: may the harness end in a panic?"""
    def __init__(self, name, inputs, panics=False, text=None, cover=(), maxinst=200000000, note="", assumes=(), define=None):
        self.name, self.panics, self.cover, self.maxinst, self.note, self.assumes = name, panics, cover, maxinst, note or name, list(assumes)
        self.lims = [256] * inputs if isinstance(inputs, int) else list(inputs)
        self.text = text
        self.define = define or {}

class LSpec(core.Spec):
    def __init__(self, h):
        core.Spec.__init__(self, ())
        self.args = ["harness"]
        self.maxinst = h.maxinst
        self.note = h.note
        for i, l in enumerate(h.lims):
            self.var("in%d" % i, l)
        self.assumes = list(h.assumes)
        self.extra.append("memcheck")

def source(h):
    s = h.text
    if s is None:
        with open(os.path.join(LIB, h.name + ".c")) as f:
            s = f.read()
    for k, v in h.define.items():
        s = re.sub(r"\b%s\b" % re.escape(k), str(v), s)
    return s

def sh(cmd, what, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise core.BuildError("%s failed: %s" % (what, (r.stdout + r.stderr)[-2500:]))
    return r

def build(chk, h):
    """Translates and compiles one harness; returns its directory (c/*.c, all.ll)."""
    d = os.path.join(chk.scratch, "lib-" + h.note.replace("/", "_"))
    os.makedirs(d + "/c")
    home = d + "/home"
    os.makedirs(home)
    os.symlink(os.path.join(core.REPO, "lib"), home + "/lib")
    os.symlink(os.path.join(core.REPO, "prog"), home + "/prog")
    with open(home + "/h.c", "w") as f:
        f.write(source(h))
    e = core.env()
    e["CHELANG_HOME"] = home
    sh([chk.che, "genc", home + "/h.c", d + "/c"], "translation of harness " + h.note, cwd=home, env=e)
    cs = sorted(glob.glob(d + "/c/*.c"))
    procs = []
    for c in cs + [os.path.join(LIB, "libc.c")]:
        o = os.path.join(d, os.path.basename(c) + ".bc")
        procs.append((o, c, subprocess.Popen(["clang", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-ffp-contract=off", "-emit-llvm", "-c", c, "-o", o] + (CFLAGS + SAN if c in cs else ["-std=c99", "-w"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for o, c, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise core.BuildError("clang failed on %s: %s" % (h.note, out[-2000:]))
    sh([BIN + "llvm-link"] + [o for o, _, _ in procs] + ["-o", d + "/all.bc"], "llvm-link")
    sh([BIN + "opt", "--strip-debug", "-passes=function(sroa,simplifycfg),internalize,globaldce", "--internalize-public-api-list=main", "-S", d + "/all.bc", "-o", d + "/all.ll"], "opt")
    return d

STUB = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
size_t __sanitizer_get_current_allocated_bytes(void);
int vf_in(int i) { const char *e = getenv("VF_IN"); int v = 0; if (e && strlen(e) >= 2u * i + 2) sscanf(e + 2 * i, "%2x", &v); return v; }
void vf_assume(int c) { if (!c) { fflush(stdout); _Exit(78); } }
void vf_assert(int c, const char *what) { if (!c) { fflush(stdout); fprintf(stderr, "ASSERT %s\n", what); _Exit(77); } }
int vf_live(void) { return (int)__sanitizer_get_current_allocated_bytes(); }
void vf_cover(const char *what) { (void)what; }
FILE *vf_file(const char *data, size_t n) { FILE *f = tmpfile(); fwrite(data, 1, n, f); rewind(f); return f; }
FILE *vf_sink(void) { return tmpfile(); }
size_t vf_sunk(FILE *f, char *b, size_t n) { fflush(f); rewind(f); return fread(b, 1, n, f); }
void vf_stdin(const char *data, size_t n) { stdin = vf_file(data, n); }
void vf_stdout(FILE *f) { stdout = f; }
unsigned vf_u32(int i) { return (unsigned)vf_in(i) | (unsigned)vf_in(i + 1) << 8 | (unsigned)vf_in(i + 2) << 16 | (unsigned)vf_in(i + 3) << 24; }
unsigned char vf_u8(int i) { return (unsigned char)vf_in(i); }
char vf_c(int i) { return (char)vf_in(i); }
void vf_eq(long a, long b, const char *what) { vf_assert(a == b, what); }
int vf_i(long x) { return (int)x; }
int vf_pick(int i) { return vf_in(i); }
"""

def native(chk, h, d, model):
    """Compiles the same C natively with sanitizers and runs it on the counterexample."""
    exe = d + "/native"
    if not os.path.exists(exe):
        with open(d + "/stub.c", "w") as f:
            f.write(STUB)
        sh(["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow", "-fno-sanitize-recover=all", "-o", exe] + CFLAGS + sorted(glob.glob(d + "/c/*.c")) + [d + "/stub.c", "-lm"], "native build of " + h.note)
    e = core.env()
    e["VF_IN"] = "".join("%02x" % model.get("in%d" % i, 0) for i in range(len(h.lims)))
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=79"
    e["UBSAN_OPTIONS"] = "exitcode=79"
    tmp = tempfile.mkdtemp(dir=chk.scratch)
    try:
        r = subprocess.run([exe], cwd=tmp, env=e, capture_output=True, timeout=60)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", b"", b"timeout"

def start(chk, h):
    d = build(chk, h)
    return h, d, chk.start(LSpec(h), ll=d + "/all.ll")

def finish(chk, t):
    h, d, hd = t
    ps = chk.collect(hd)
    covered = set()
    done = 0
    seen = set()
    for p in ps:
        chk.asserts += 1
        for e in p.events:
            if e[0].startswith("cover "):
                covered.add(e[0][6:])
        if p.st == "skip":
            continue
        done += 1
        bad = None
        if p.st in FATAL:
            bad = p.msg if p.st == "assert" else "%s: %s" % (p.st, p.msg)
        elif p.st == "exit" and p.code != 0 and not (h.panics and p.code == 1):
            bad = "ended with status %d %s" % (p.code, p.err()[-200:].decode("utf-8", "replace"))
        elif p.st == "exit" and p.code != 0 and any(e[0] == "cover must not exit" for e in p.events):
            bad = "must not exit: ended with status %d %s" % (p.code, p.err()[-200:].decode("utf-8", "replace"))
        if bad:
            kind = re.sub(r"\b[0-9a-f]{6,}\b", "", bad)[:160]
            if kind in seen:
                continue
            seen.add(kind)
            chk.replayed += 1
            code, out, err = native(chk, h, d, p.model)
            t = err.decode("utf-8", "replace")
            if code == 0 or code == 78 or (h.panics and code == 1 and not bad.startswith("must not exit")):
                chk.not_reproduced("%s: %s (native exit %s) %r" % (h.note, bad, code, p.model))
                continue
            m = re.search(r"ASSERT (.*)|ERROR: AddressSanitizer: (.*)|runtime error: (.*)", t)
            what = "%s: %s" % (h.note, m.group(0) if m else bad)
            chk.violation(what[:300], {"harness.c": source(h), "native.stderr": err, "native.stdout": out}, {"model": p.model, "engine": bad, "native_exit": code})
    for c in h.cover:
        chk.vacuity("%s: %s" % (h.note, c), c in covered)
    if not done and not seen:
        chk.vacuity("%s: some input completes" % h.note, False)
    if not seen:
        shutil.rmtree(d, ignore_errors=True)
    return ps

def run(chk, hs, ahead=3):
    live = []
    only = os.environ.get("VERIF_ONLY")
    q = [h for h in hs if not only or h.note in only.split(",")]
    while q or live:
        while q and len(live) < ahead:
            live.append(start(chk, q.pop(0)))
        finish(chk, live.pop(0))
