"""Helpers shared by the checks."""
import os, pickle, re, shutil, subprocess, tempfile, time, traceback, z3
from . import core, cmini, sem
from .core import Spec, Cho, Sym, Check

def canon(n):
    """Drop the module prefix that keeps exported names apart."""
    return n.rsplit("__", 1)[-1] if "__" in n and not n.startswith("__") else n

def first(mod, kind, name):
    for x in mod:
        if x["k"] == kind and canon(x["name"]) == name:
            return x
    return None

def pmap(fn, items, n=core.NPROC):
    """[fn(x) for x in items] in forked workers; also adds up the workers' solver statistics."""
    if len(items) < 16:
        return [fn(x) for x in items]
    procs = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                q0, s0 = sem.Stat.queries, sem.Stat.secs
                try:
                    o = ("ok", [(i, fn(items[i])) for i in range(w, len(items), n)], sem.Stat.queries - q0, sem.Stat.secs - s0)
                except BaseException:
                    o = ("err", traceback.format_exc(), 0, 0)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(o, f)
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    res = [None] * len(items)
    bad = None
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        o = pickle.loads(b) if b else ("err", "a worker died", 0, 0)
        if o[0] == "err":
            bad = o[1]
            continue
        for i, v in o[1]:
            res[i] = v
        sem.Stat.queries += o[2]
        sem.Stat.secs += o[3]
    if bad:
        raise RuntimeError(bad)
    return res

def judge_paths(chk, spec, judge, ps):
    for p, m in zip(ps, pmap(lambda p: judge(p.res(), p.inputs(), p.model), ps)):
        chk.asserts += 1
        if m:
            replay(chk, spec, p.inputs(), p.model, judge, m)

def judge_all(chk, spec, judge, deadline=None, paths=None):
    """Runs the spec; every path's result goes to judge(res, inputs, model) -> None | message.
    A message is replayed on the native build and reported only if the native result is judged the same way."""
    ps = chk.run(spec, deadline) if paths is None else paths
    judge_paths(chk, spec, judge, ps)
    return ps

def later(chk, spec, judge, after=None):
    """Queues a spec: `flush` overlaps its exploration with the judging of the previous ones."""
    chk.queue.append((spec, judge, after))

def flush(chk, ahead=2):
    q, chk.queue = chk.queue, []
    live = []
    for i in range(len(q)):
        while len(live) < ahead and i + len(live) < len(q):
            live.append(chk.start(q[i + len(live)][0]))
        ps = chk.collect(live.pop(0))
        if i + len(live) + 1 < len(q):
            live.append(chk.start(q[i + len(live) + 1][0]))
        spec, judge, after = q[i]
        if judge:
            judge_paths(chk, spec, judge, ps)
        if after:
            after(ps)

def replay(chk, spec, inp, model, judge, m):
    chk.replayed += 1
    if sum(1 for v in chk.violations if v is None) > 20:
        chk.violations.append(None)
        return
    n = chk.native.run(spec, inp, model=model)
    n["st"] = "exit" if isinstance(n["code"], int) and n["code"] >= 0 and n["code"] != 101 else "cap" if n["code"] == "timeout" else "abort"
    n["msg"] = ""
    m2 = judge(n, inp, model)
    if m2 and re.search("malformed|not linkable|not a valid|not valid C", m2) and gcc_accepts(generated(n)):
        chk.not_reproduced("%s (but gcc accepts the output)" % m2)
        return
    if m2:
        files = dict(inp)
        files["native.stdout"], files["native.stderr"] = n["out"], n["err"]
        for k, v in n["files"].items():
            files["generated" + k] = v
        chk.violation(m2, files, {"model": model, "exit": n["code"], "args": spec.args})
    else:
        chk.not_reproduced("%s (native: exit %s) %r" % (m, n["code"], {k: v[:300] for k, v in inp.items()}))

def gcc_accepts(files):
    """Second opinion on C the oracle's reader refuses: does a real C compiler take it? (Names from OS headers may be undeclared.)"""
    if not files:
        return False
    d = tempfile.mkdtemp(prefix="vf-gcc-")
    try:
        objs, bad = [], []
        for i, b in enumerate(files.values()):
            p = os.path.join(d, "%d.c" % i)
            with open(p, "wb") as f:
                f.write(b)
            r = subprocess.run(["gcc", "-std=c99", "-pedantic-errors", "-Werror=implicit-function-declaration", "-c", p, "-o", p + ".o"], capture_output=True, text=True, errors="replace")
            bad += [l for l in r.stderr.splitlines() if " error: " in l and not re.search("undeclared|implicit declaration", l) or re.search("error: .*__.*(undeclared)|error: implicit declaration.*__", l)]
            if r.returncode == 0:
                objs.append(p + ".o")
        if bad:
            return False
        if len(objs) == len(files):
            whole = any(re.search(rb"^int main\b[^;]*$", b, re.M) for b in files.values())
            r = subprocess.run(["gcc"] + ([] if whole else ["-r"]) + ["-o", os.path.join(d, "all.o")] + objs + ["-lm"], capture_output=True, text=True, errors="replace")
            return r.returncode == 0
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)

def counterexample(p, ok):
    """Solver verdict: is there an input on path p for which `ok` (a z3 formula over the inputs) is false?"""
    t = time.time()
    s = z3.Solver()
    s.add(*p.pc())
    s.add(z3.Not(ok))
    r = s.check()
    sem.Stat.queries += 1
    sem.Stat.secs += time.time() - t
    if r == z3.unsat:
        return None
    if r != z3.sat:
        raise sem.Unsupported("solver: %s" % r)
    m = s.model()
    return {n: m.eval(z3.BitVec(n, b), model_completion=True).as_long() for n, b in p.spec.widths().items()}

def B(name, k=None):
    v = z3.BitVec(name, 8)
    return v if k is None else v == k

def crashed(res):
    return res["st"] in ("abort", "cap", "stack", "segv", "oom", "unreachable")

def crash_text(res):
    e = res["err"].decode("utf-8", "replace")
    i = e.find("panicked")
    return (res["st"] + " " + (e[i:i + 200] if i >= 0 else e[-200:] or res["msg"][:200])).replace("\n", " ")

def walk(e):
    """All AST nodes (tuples with a string head) below e."""
    if isinstance(e, tuple) and e and isinstance(e[0], str):
        yield e
    if isinstance(e, dict):
        for v in e.values():
            yield from walk(v)
    elif isinstance(e, (list, tuple)):
        for v in e:
            yield from walk(v)

def generated(res):
    return {k: v for k, v in res["files"].items() if k.startswith("/w/out/") and k.endswith(".c")}

class Linked:
    """The generated files as one C program: static definitions are file-local, the others global.
    Raises CErr on a clash or on a call that resolves to nothing and is not from C's library."""
    def __init__(self, files, libc=()):
        self.mods = {fn: cmini.parse_c(src) for fn, src in files.items()}
        self.funcs, glob = {}, {}
        for fn, m in self.mods.items():
            seen = set()
            local = {x["name"] for x in m if x["k"] == "proto" and x.get("static")}
            for x in m:
                if x["k"] == "var" and not x["static"] and not x.get("extern"):
                    if x["name"] in glob:
                        raise cmini.CErr("%s is defined in two files" % x["name"])
                    glob[x["name"]] = fn
                if x["k"] == "func":
                    if x["name"] in seen:
                        raise cmini.CErr("%s defined twice in one file" % x["name"])
                    seen.add(x["name"])
                    self.funcs[fn, x["name"]] = x
                    if not x["static"] and x["name"] not in local:
                        if x["name"] in glob:
                            raise cmini.CErr("%s is defined in two files" % x["name"])
                        glob[x["name"]] = fn
        self.glob, self.libc = glob, libc
    def resolve(self, fn, name):
        if (fn, name) in self.funcs:
            return fn, name
        if name in self.glob:
            if not any(x["k"] == "proto" and x["name"] == name for x in self.mods[fn]):
                raise cmini.CErr("%s is called without a prototype" % name)
            return self.glob[name], name
        if name in self.libc:
            return None
        raise cmini.CErr("%s is not defined anywhere" % name)
    def calls(self, fn, name):
        r = []
        for n in walk(self.funcs[fn, name]["body"]):
            if n[0] == "call" and n[1][0] == "id":
                x = self.resolve(fn, n[1][1])
                if x:
                    r.append(x)
        return r
    def find(self, cname):
        return [k for k in self.funcs if canon(k[1]) == cname]
