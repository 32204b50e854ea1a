"""C15: a failing file or process operation is never taken for success."""
from vf.common import *

MOD = {"/w/a.c": "#import b.c\nint main() { return b.f(2); }\n", "/w/b.c": "pub int f(int x) { return x + 1; }\n"}
KINDS = ("open", "create", "read", "write", "mkdir", "spawn", "short")

def go(chk, note, args, counts, children=False, dirs=(), files=MOD):
    """counts: {kind: number of symbolic failures}"""
    ref = Spec(list(args))
    for f, t in files.items():
        ref.file(f, t)
    ref.dirs.update(dirs)
    ref.children = children
    ref.note = note + " without faults"
    want = chk.run(ref)
    if len(want) != 1 or want[0].code != 0 and want[0].st != "exec":
        chk.vacuity(note, False)
        return
    want = want[0].res()
    sp = Spec(list(args))
    sp.note = note
    sp.files, sp.dirs, sp.children = ref.files, ref.dirs, children
    for k, n in counts.items():
        vs = ["%s%d" % (k, i) for i in range(n)]
        sp.extra.append("fault %s %s" % (k, " ".join(vs)))
        for v in vs:
            sp.ids[v] = 1
    sp.faults = counts
    def judge(res, inp, model):
        fl = ", ".join("%s #%s fails" % (re.sub(r"\d+$", "", k), re.search(r"\d+$", k).group()) for k, v in sorted(model.items()) if v)
        text = "%s, %s" % (" ".join(args), fl)
        if res["st"] in ("cap", "stack", "segv"):
            return "the compiler hangs or corrupts memory: %s" % text
        good = res["st"] == "exec" or res["st"] == "exit" and res["code"] == 0
        if good:
            if res["files"] != want["files"]:
                return "success with missing or incomplete files: %s" % text
            if res["out"] != want["out"]:
                return "success with incomplete output: %s" % text
            if [e for e in res["events"] if e[0] in ("spawn", "exec")] != [e for e in want["events"] if e[0] in ("spawn", "exec")]:
                return "success without the commands it takes: %s" % text
            if any(v for k, v in model.items() if k.startswith("spawn")):
                return "success although a command could not be started: %s" % text
        elif not res["err"] + res["out"]:
            return "failure without a message: %s" % text
        return None
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, len(ps) > 1 and any(p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "faults": ps[0].model, "code": ps[0].code})
    later(chk, sp, judge, after)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("The commands executed symbolically with a symbolic failure for each of the first file and process operations (open, create, read, write, short write, mkdir, spawn); each path with a failure must end with a nonzero status and a message, "
                   "or with exactly the files, output and commands of the run without failures.")
    chk.assumptions = ["a failing operation has no other effect", "a Rust panic counts as a failure with a message"]
    n = 8 if th else 5
    go(chk, "genc", ["genc", "/w/a.c", "/w/out"], dict(open=n, create=n, read=n, write=n, mkdir=2))
    go(chk, "genc with short writes", ["genc", "/w/a.c", "/w/out"], dict(short=n, write=n))
    go(chk, "genc into a directory", ["genc", "/w/a.c", "/w/out"], dict(open=n, create=n, read=n, write=n), dirs=["/w/out"])
    go(chk, "build", ["build", "/w/a.c", "/w/o"], dict(open=n, create=n, read=n, write=n, mkdir=2, spawn=1), children=True)
    go(chk, "install", ["install", "/w/a.c"], dict(open=n, create=n, read=n, write=n, mkdir=2, spawn=1), children=True, dirs=["/h/bin", "/h/tmp"])
    go(chk, "run", ["run", "/w/a.c"], dict(open=n, create=n, read=n, write=n, spawn=1), children=True, dirs=["/h/tmp"])
    go(chk, "exports", ["exports", "/w/b.c"], dict(open=n, read=n))
    go(chk, "deptree", ["deptree", "/w/a.c"], dict(open=n, read=n))
    go(chk, "library module", ["genc", "/w/a.c", "/w/out"], dict(open=n, read=n, create=n), files={"/w/a.c": "#import s\nint main() { return s.f(2); }\n", "/h/lib/s.c": "pub int f(int x) { return x; }\n"})
