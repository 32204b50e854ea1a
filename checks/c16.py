"""C16: the compiler's output depends on its input only."""
from vf.common import *

NAMES = ["zza", "zzb", "zzc"]

def texts(res):
    return (res["st"], res["code"], res["out"], res["err"], tuple(sorted(res["files"].items())), tuple("\x1f".join(e) for e in res["events"]))

def go(chk, note, files, args=("genc", "/w/a.c", "/w/out"), bits=2, names=NAMES, children=False):
    sp = Spec(list(args))
    sp.note = note
    for f in files:
        sp.file(*f)
    for n in names:
        sp.extra.append("hashsym %s %d" % (n, bits))
        sp.ids["h_" + n] = bits
    if children:
        sp.children = True
        sp.dirs.add("/h/bin")
        sp.dirs.add("/h/tmp")
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st in ("exit", "exec") for p in ps))
        seen = {}
        for p in ps:
            chk.asserts += 1
            inp = p.inputs()
            k = repr(sorted(inp.items()))
            t = texts(p.res())
            if seen.setdefault(k, (t, p.model))[0] != t:
                confirm(chk, sp, inp, note, seen[k], (t, p.model))
                break
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:260], "hashes": ps[0].model})
    later(chk, sp, None, after)

def confirm(chk, sp, inp, note, one, two):
    """Hash seeds of the native build are random: repeat until two runs differ."""
    outs = {}
    for _ in range(400):
        chk.replayed += 1
        n = chk.native.run(sp, inp)
        n["st"] = ""
        outs.setdefault(texts(n), n)
        if len(outs) > 1:
            a, b = list(outs.values())[:2]
            files = dict(inp)
            for i, x in enumerate((a, b)):
                files["run%d.stdout" % i], files["run%d.stderr" % i] = x["out"], x["err"]
                for k, v in x["files"].items():
                    files["run%d%s" % (i, k)] = v
            chk.violation("two runs on the same input differ (%s): %s" % (note, inp["/w/a.c"].decode().strip()), files, {"models": [one[1], two[1]], "args": sp.args})
            return
    chk.not_reproduced("outputs differ with the order of hashed names (%s), but 400 native runs agree" % note)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically with symbolic hash values for the program's names, so that the hash maps of the compiler place and enumerate them in every order; all paths of one input must end with the same output, "
                   "messages, files and commands.")
    chk.assumptions = ["hash values range over %d values per name, the other keys share one value" % (8 if th else 4)]
    b = 3 if th else 2
    M = "int main() { OS.g(%s); return 0; }\n"
    f = [("/w/%s.c" % n, "pub typedef { int m; } T;\npub enum { K = %d }\npub int f(T *t) { return t->m + %d; }\n" % (i, i)) for i, n in enumerate(NAMES)]
    lib = [("/h/lib/%s.c" % n, "pub typedef { int m; } T;\npub enum { K = %d }\npub int f(T *t) { return t->m + %d; }\n" % (i, i)) for i, n in enumerate(NAMES)]
    I = "".join("#import %s.c\n" % n for n in NAMES)
    LI = "".join("#import %s\n" % n for n in NAMES)
    U = "zza.T a = {}; zzb.T b = {}; zzc.T c = {}; OS.h(zza.f(&a), zzb.f(&b), zzc.f(&c), zza.K, zzb.K, zzc.K); "
    main = "int main() { %s return 0; }\n"
    go(chk, "imports", [("/w/a.c", I, main % U)] + f, bits=b)
    go(chk, "library imports", [("/w/a.c", LI, main % U)] + lib, bits=b)
    go(chk, "imports of imports", [("/w/a.c", "#import zza.c\n", main % "zza.T a = {}; OS.h(zza.f(&a));"), ("/w/zza.c", "#import zzb.c\n#import zzc.c\npub typedef { zzb.T b; zzc.T c; } T;\npub int f(T *t) { return zzb.f(&t->b) + zzc.f(&t->c); }\n")] + f[1:], bits=b)
    go(chk, "dependency tree", [("/w/a.c", I, main % U)] + f, args=["deptree", "/w/a.c"], bits=b)
    go(chk, "exports", [("/w/a.c", "pub enum { zza, zzb, zzc }\npub typedef { int zza; zzb_t *zzb; } zza_t;\npub typedef { int x; } zzb_t;\npub int zzc_f(zzb_t *zzb, zza_t *zza) { return OS.x(zza, zzb); }\n")], args=["exports", "/w/a.c"], bits=b)
    go(chk, "structs", [("/w/a.c", "typedef { int x; } zza;\ntypedef { zza a; int y; } zzb;\ntypedef { zzb b; zza *a; } zzc;\nint f(zza *a, zzb *b, zzc *c) { return OS.x(a, b, c); }\n", M % "&f")], bits=b)
    go(chk, "structs in reverse", [("/w/a.c", "typedef { zzb b; zza *a; } zzc;\ntypedef { zza a; int y; } zzb;\ntypedef { int x; } zza;\nint f(zza *a, zzb *b, zzc *c) { return OS.x(a, b, c); }\n", M % "&f")], bits=b)
    go(chk, "unrelated structs", [("/w/a.c", "pub typedef { int x; } zza;\npub typedef { int y; } zzb;\ntypedef { int z; } zzc;\nint f(zza *a, zzb *b, zzc *c) { return OS.x(a, b, c); }\n", M % "&f")], bits=b)
    go(chk, "type aliases", [("/w/a.c", "pub typedef int zza;\npub typedef zza *zzb;\npub typedef zzb zzc(zza);\n", M % "sizeof(zza), sizeof(zzb)")], bits=b)
    go(chk, "unrelated aliases", [("/w/a.c", "typedef int zza;\ntypedef char zzb;\ntypedef int zzc(int);\nzza f(zzc *p) { zzb b = 1; return OS.x(p, b); }\n", M % "&f")], bits=b)
    go(chk, "enums", [("/w/a.c", "pub enum { zza, zzb = 4, zzc }\nenum { zza2 = zza + 1, zzb2 = zzb + 1 }\n", M % "zza, zzb, zzc, zza2, zzb2")], bits=b)
    go(chk, "functions and variables", [("/w/a.c", "int zza(int x) { return zzb(x) + zzc_v; }\nint zzb(int x) { return zza(x); }\nint zzc_v = 3;\npub int zzc(int x) { return x; }\n", M % "zza(1)")], bits=b)
    go(chk, "locals", [("/w/a.c", "int f(int zza, zzb) { int zzc = zza + zzb; if (zzc) { int zza = zzb; return zza; } return zzc; }\n", M % "f(1, 2)")], bits=b)
    go(chk, "unused names", [("/w/a.c", "int f() { int zza = 1; int zzb = 2; int zzc = 3; return ", Cho("v", ["zza", "zzb", "1  "]), "; }\n", M % "f()")], bits=b)
    go(chk, "unused functions", [("/w/a.c", "int zza() { return 1; }\nint zzb() { return 1; }\nint zzc() { return 1; }\n", M % "1")], bits=b)
    go(chk, "unused imports", [("/w/a.c", I, main % "zza.T a = {}; OS.g(a);")] + f, bits=b)
    go(chk, "all imports unused", [("/w/a.c", I, main % "")] + f, bits=b)
    go(chk, "undefined names", [("/w/a.c", "int f() { return zza + zzb + zzc; }\nint g() { return zzc; }\n", M % "f(), g()")], bits=b)
    go(chk, "errors in modules", [("/w/a.c", I, main % U)] + [("/w/%s.c" % n, "pub int f() { return yy; }\n") for n in NAMES], bits=b)
    go(chk, "name clashes", [("/w/a.c", "int zza() { return 1; }\nint zzb = 1;\nint zza = 2;\nint zzb() { return 1; }\n", M % "zza, zzb")], bits=b)
    go(chk, "macros", [("/w/a.c", "#define zza 1\n#define zzb 2\n#define zzc 3\n", M % "zza, zzb, zzc")], bits=b)
    go(chk, "libraries to link", [("/w/a.c", "#link zza\n#link zzb\n#link zzc\n", M % "1")], args=["build", "/w/a.c", "/w/o"], children=True, bits=b)
    go(chk, "build", [("/w/a.c", I, main % U)] + f, args=["build", "/w/a.c", "/w/o"], children=True, bits=b)
    go(chk, "import loops", [("/w/a.c", I, main % U), ("/w/zza.c", "#import zzb.c\npub int f() { return zzb.f(); }\n"), ("/w/zzb.c", "#import zzc.c\npub int f() { return zzc.f(); }\n"), ("/w/zzc.c", "#import zza.c\npub int f() { return zza.f(); }\n")], bits=b)
