"""C14: build, install, run and test pass on exactly what is needed and report the truth."""
from vf.common import *

OKS = "int f() { return 1; }\nint main() { return f(); }\n"
BAD = "int f() { return zz; }\nint main() { return f(); }\n"

def spawned(res, prog):
    return [e for e in res["events"] if e[0] in ("spawn", "exec") and e[1] == prog]

def c99(e, gen, out, libs):
    """The C compiler gets every generated file once, the output name and the libraries."""
    a = e[2:]
    if "-o" not in a or a.count("-o") != 1:
        return "no single -o among the arguments of the C compiler: %s" % a
    i = a.index("-o")
    if a[i + 1] != out:
        return "the output is %s instead of %s" % (a[i + 1], out)
    srcs = sorted(x for x in a if x.endswith(".c"))
    if srcs != sorted(gen):
        return "the C compiler gets %s, generated are %s" % (srcs, sorted(gen))
    got = sorted(a[j + 1] for j in range(len(a)) if a[j] == "-l") + sorted(x[2:] for x in a if x.startswith("-l") and len(x) > 2)
    if set(got) != set(libs):
        return "linked libraries: %s, wanted %s" % (sorted(got), sorted(libs))
    return None

def judge_build(out, mods, libs=lambda m: ["m"], bad=lambda m: False, cmd="build", rargs=()):
    def judge(res, inp, model):
        st = model.get("status0", 0)
        text = "%s with C compiler status %d: %s" % (cmd, st, " | ".join(v.decode().strip() for k, v in inp.items() if k.endswith(".c")))
        if crashed(res):
            return "crash: %s: %s" % (crash_text(res), text)
        cc = spawned(res, "c99")
        run = [e for e in res["events"] if e[0] in ("spawn", "exec") and e[1] != "c99"]
        if bad(model):
            if res["code"] == 0 and res["st"] == "exit" or res["st"] == "exec":
                return "success for a program that does not compile: %s" % text
            if cc or run:
                return "a program that does not compile was passed on: %s" % text
            return None if res["err"] else "no diagnostic: %s" % text
        if len(cc) != 1:
            return "the C compiler is started %d times (%s): %s" % (len(cc), res["err"].decode()[:100], text)
        gen = [k for k in res["files"] if k.startswith("/h/tmp/") and k.endswith(".c")]
        if len(gen) != mods:
            return "%d files generated for %d modules: %s" % (len(gen), mods, text)
        m = c99(cc[0], gen, out, libs(model))
        if m:
            return "%s: %s" % (m, text)
        if st:
            if run or res["st"] == "exec":
                return "the program is run although the C compiler failed: %s" % text
            if res["code"] == 0:
                return "success although the C compiler failed: %s" % text
            if not res["out"] + res["err"]:
                return "no diagnostic: %s" % text
            cerr = inp.get("/child/0.err", b"").decode().strip()
            for l in cerr.split("\n"):
                if l not in (res["out"] + res["err"]).decode():
                    return "the C compiler's message %r is lost: %s" % (l, text)
            return None
        if cmd == "run":
            if len(run) != 1 or run[0][1:] != ["/tmp/chebuild"] + list(rargs):
                return "run starts %s instead of the program with %s: %s" % (run, list(rargs), text)
            want = model.get("status1", 0) if res["st"] != "exec" else None
            if want is not None and res["code"] != want:
                return "run ends with %s, the program with %s: %s" % (res["code"], want, text)
            return None
        if run:
            return "%s starts %s: %s" % (cmd, run, text)
        return None if res["code"] == 0 else "failure (%s) although everything succeeded: %s" % (res["err"].decode()[:100], text)
    return judge

def go(chk, note, args, judge, files, lim=140, children=1, fails=False):
    sp = Spec(args)
    sp.note = note
    for f in files:
        sp.file(*f)
    for k in range(children):
        sp.status(k, lim if k == 0 else 3)
    sp.dirs.add("/h/bin")
    sp.dirs.add("/h/tmp") if len(note) % 2 else None
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st in ("exit", "exec") and (p.code == 0 or fails) for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "args": args, "events": [" ".join(e) for e in ps[0].events]})
    later(chk, sp, judge, after)

def judge_test(tests, dirs):
    """tests: [(path, model -> accepted by the compiler)] in any order."""
    def judge(res, inp, model):
        text = "che test %s: %s %s" % (" ".join(dirs), {k: v.decode().strip()[:40] for k, v in inp.items()}, {k: v for k, v in model.items() if k.startswith("status")})
        if crashed(res):
            return "crash: %s: %s" % (crash_text(res), text)
        out = res["out"].decode()
        k, fails, notbuilt = 0, set(), set()
        # children are numbered in the order in which they are started
        order = [re.match(r"(OK|FAIL) (\S+?)(: .*)?$", l) for l in out.split("\n")]
        order = [(m.group(1), m.group(2)) for m in order if m and m.group(2).endswith(".test.c")]
        if sorted(p for _, p in order) != sorted(p for p, _ in tests):
            return "tests reported: %s, present: %s: %s" % (order, [p for p, _ in tests], text)
        acc = dict(tests)
        for verdict, p in order:
            ok = acc[p](model)
            if ok:
                ok = model.get("status%d" % k, 0) == 0
                k += 1
                if not ok:
                    notbuilt.add(p)
                if ok:
                    ok = model.get("status%d" % k, 0) == 0
                    k += 1
            else:
                notbuilt.add(p)
            if not ok:
                fails.add(p)
            if (verdict == "OK") != ok:
                return "test %s reported as %s, it %s: %s" % (p, verdict, "passed" if ok else "failed", text)
        nsp = len([e for e in res["events"] if e[0] == "spawn"])
        if nsp != k:
            return "%d programs started, %d expected: %s" % (nsp, k, text)
        if fails and res["code"] == 0:
            return "exit status 0 although %s%s: %s" % ("a test did not build" if fails == notbuilt else "a test failed", " and was reported" if "FAIL" in out else "", text)
        if not fails and res["code"] != 0:
            return "exit status %s although all tests passed: %s" % (res["code"], text)
        return None
    return judge

def run(chk):
    chk.explain = ("The commands build, install, run and test executed symbolically; the statuses of the child processes (C compiler, programs, tests), the sources' validity, libraries and imports are symbolic; on each path the started "
                   "commands, the exit status and the messages are compared with what the statuses call for.")
    chk.assumptions = ["child processes are modelled by their exit status or signal (0-128, signals 1-11) and output; the real C compiler is not part of the encoding"]
    a = lambda *p: ("/w/a.c",) + p
    go(chk, "build", ["build", "/w/a.c", "/w/prog"], judge_build("/w/prog", 1), [a(OKS)])
    go(chk, "build with a message", ["build", "/w/a.c", "/w/prog"], judge_build("/w/prog", 1), [a(OKS), ("/child/0.err", "some.c:1:2: error: bad thing\n  1 | x\n")])
    go(chk, "build with a default output", ["build", "/w/a.c"], judge_build("a", 1), [a(OKS)], lim=3)
    go(chk, "build with a default output elsewhere", ["build", "/w/d/prog.x.c"], judge_build("prog.x", 1), [("/w/d/prog.x.c", OKS)], lim=3)
    go(chk, "install", ["install", "/w/a.c"], judge_build("/h/bin/a", 1, cmd="install"), [a(OKS)], lim=140)
    go(chk, "install elsewhere", ["install", "d/prog.c"], judge_build("/h/bin/prog", 1, cmd="install"), [("/w/d/prog.c", OKS)], lim=3)
    for n, args in enumerate([[], ["x"], ["--flag", "", "a b", "-o", "run"]]):
        go(chk, "run with %d arguments" % len(args), ["run", "/w/a.c"] + args, judge_build("/tmp/chebuild", 1, cmd="run", rargs=args), [a(OKS)], lim=140 if n == 0 else 3, children=2)
    V = Cho("v", ["f()", "zz ", "1 +", "g()"])
    for cmd, out in (("build", "a"), ("install", "/h/bin/a"), ("run", "/tmp/chebuild")):
        go(chk, "%s of right and wrong sources" % cmd, [cmd, "/w/a.c"], judge_build(out, 1, cmd=cmd, bad=lambda m: m["v"] > 0), [a("int f() { return 1; }\nint main() { return ", V, "; }\n")], lim=3, children=2 if cmd == "run" else 1)
        go(chk, "%s of right and wrong imports" % cmd, [cmd, "/w/a.c"], judge_build(out, 2, cmd=cmd, bad=lambda m: m["v"] > 0), [a("#import b.c\nint main() { return b.g(); }\n"), ("/w/b.c", "int f() { return 1; }\npub int g() { return ", Cho("v", ["f()", "zz ", "1 +", "h()"]), "; }\n")], lim=2, children=2 if cmd == "run" else 1)
        go(chk, "%s without the file" % cmd, [cmd, "/w/b.c"] if cmd != "build" else [cmd, "/w/b.c", "/w/o"], judge_build(out, 1, cmd=cmd, bad=lambda m: True), [a(OKS)], lim=2, fails=True)
    for args in ([], ["x"], ["build"], ["build", "/w/a.c", "o", "x"], ["run"], ["install"], ["install", "/w/a.c", "x"], ["genc"], ["genc", "/w/a.c"], ["genc", "/w/a.c", "/w/o", "x"], ["deptree"], ["deptree", "/w/a.c", "x"], ["Build", "/w/a.c"]):
        go(chk, "misuse: che " + " ".join(args), args, judge_build("a", 1, cmd=" ".join(args), bad=lambda m: True), [a(OKS)], lim=2, fails=True)
    L = [["", "m"], ["#link curl\n", "m curl"], ["#link m\n", "m"], ["#link xcb\n#link curl\n", "m curl xcb"], ["#link curl\n#link curl\n", "m curl"]]
    lib = lambda v: lambda m: L[m[v]][1].split()
    go(chk, "libraries", ["build", "/w/a.c"], judge_build("a", 1, libs=lib("l")), [a(Cho("l", [x[0] for x in L]), OKS)], lim=2)
    both = lambda m: sorted(set(L[m["l"]][1].split() + L[m["k"]][1].split()))
    go(chk, "libraries of imports", ["build", "/w/a.c"], judge_build("a", 2, libs=both), [a("#import b.c\n", Cho("l", [x[0] for x in L]), "int main() { return b.g(); }\n"), ("/w/b.c", Cho("k", [x[0] for x in L]), "pub int g() { return 1; }\n")], lim=2)
    go(chk, "several modules", ["build", "/w/a.c"], judge_build("a", 4), [a("#import b.c\n#import x/c.c\nint main() { return b.g() + c.h(); }\n"), ("/w/b.c", "#import x/c.c\npub int g() { return c.h(); }\n"), ("/w/x/c.c", "#import s\npub int h() { return s.k(); }\n"), ("/h/lib/s.c", "pub int k() { return 1; }\n")], lim=2)
    T = "int main() { return %s; }\n"
    v = lambda n: Cho(n, ["0 ", "zz"])
    ok = lambda n: lambda m: m[n] == 0
    go(chk, "test of one", ["test", "/w/d"], judge_test([("/w/d/x.test.c", ok("v"))], ["/w/d"]), [("/w/d/x.test.c", "int main() { return ", v("v"), "; }\n"), ("/w/d/y.c", OKS)], lim=6, children=2)
    go(chk, "test of two", ["test", "/w/d"], judge_test([("/w/d/x.test.c", ok("v")), ("/w/d/e/y.test.c", ok("u"))], ["/w/d"]), [("/w/d/x.test.c", "int main() { return ", v("v"), "; }\n"), ("/w/d/e/y.test.c", "int main() { return ", v("u"), "; }\n")], lim=3, children=4)
    go(chk, "test of two directories", ["test", "/w/d", "/w/e"], judge_test([("/w/d/x.test.c", ok("v")), ("/w/e/y.test.c", ok("u"))], ["/w/d", "/w/e"]), [("/w/d/x.test.c", "int main() { return ", v("v"), "; }\n"), ("/w/e/y.test.c", "int main() { return ", v("u"), "; }\n")], lim=2, children=4)
