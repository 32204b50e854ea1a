"""C03: every module of the import graph is loaded and generated exactly once; loops and missing modules are rejected."""
from vf.common import *

def owner(mods, L):
    """{module: [(generated file, C name) of its function f]}, told apart by the constant each f returns."""
    r = {m: [] for m in mods}
    for k in L.find("f"):
        ns = [int(x[1]) for x in walk(L.funcs[k]["body"]) if x[0] == "num"]
        for i, m in enumerate(mods):
            if 10 + i in ns:
                r[m].append(k)
    return r

def graph(mods, edges):
    """Spec with one symbolic bit per possible import, and the z3 formulas of reachability and of loops."""
    sp = Spec()
    sp.pcs = True
    for i, m in enumerate(mods):
        out = [n for n in edges if n[0] == m]
        parts = []
        for a, b in out:
            parts.append(Cho("e%s%s" % (a, b), ["", "#import %s.c\n" % b]))
        parts.append("int main() { return f(); }\n" if m == mods[0] else "")
        parts.append("%sint f() { return %d" % ("" if m == mods[0] else "pub ", 10 + i))
        for a, b in out:
            parts.append(Cho("e%s%s" % (a, b), ["", " + %s.f()" % b]))
        parts.append("; }\n")
        sp.file("/w/%s.c" % m, *parts)
    E = {e: B("e%s%s" % e, 1) for e in edges}
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    reach = {m: T if m == mods[0] else F for m in mods}
    for _ in mods:
        reach = {m: z3.Or(reach[m], *[z3.And(reach[a], E[a, b]) for a, b in edges if b == m]) for m in mods}
    # a loop is reachable iff some reachable module reaches itself in 1..n steps
    walk = {(a, b): E.get((a, b), F) for a in mods for b in mods}
    for _ in range(3):
        walk = {(a, b): z3.Or(walk[a, b], *[z3.And(walk[a, c], walk[c, b]) for c in mods]) for a in mods for b in mods}
    loop = z3.Or(*[z3.And(reach[m], walk[m, m]) for m in mods])
    return sp, reach, loop, E

def check_graph(chk, note, mods, edges):
    sp, reach, loop, E = graph(mods, edges)
    sp.note = note
    seen = {"accepted": 0, "loop": 0}
    def formula(res):
        """The condition on the inputs under which this outcome is right, or a string for an outcome that is never right."""
        if crashed(res):
            return "crash: " + crash_text(res)
        gen = generated(res)
        if res["code"] != 0:
            if b"loop" not in res["err"]:
                return "rejected without naming the loop: " + res["err"].decode()[:200]
            return loop
        fs = [z3.Not(loop)]
        try:
            L = Linked(gen)
            own = owner(mods, L)
            for m in mods:
                fs.append(reach[m] if len(own[m]) == 1 else z3.Not(reach[m]) if not own[m] else z3.BoolVal(False))
            if len(gen) != sum(len(x) for x in own.values()):
                return "stray generated files: %d files for %s" % (len(gen), own)
            for m in mods:
                if own[m]:
                    got = L.calls(*own[m][0])
                    for b in mods:
                        if (m, b) in E:
                            n = got.count(own[b][0]) if own[b] else 0
                            fs.append(E[m, b] if n == 1 else z3.Not(E[m, b]) if n == 0 else z3.BoolVal(False))
        except cmini.CErr as e:
            return "generated program does not link: %s" % e
        return z3.And(*fs)
    def verdict(p):
        f = formula(p.res())
        return (f, p.model) if isinstance(f, str) else ("wrong set of modules or wrong verdict", m) if (m := counterexample(p, f)) else None
    def after(ps):
        chk.bounds.append("%s: %d modules, %d possible imports, %d paths" % (note, len(mods), len(edges), len(ps)))
        seen["accepted"] = sum(1 for p in ps if p.st == "exit" and p.code == 0)
        seen["loop"] = sum(1 for p in ps if p.st == "exit" and p.code == 1)
        chk.vacuity(note + ": accepted graphs", seen["accepted"] > 0)
        chk.vacuity(note + ": rejected loops", seen["loop"] > 0 or not any(a > b for a, b in edges))
        for p, r in zip(ps, pmap(verdict, ps)):
            chk.asserts += 1
            if r:
                def judge(res, inp, model):
                    f = formula(res)
                    if isinstance(f, str):
                        return f + " for " + desc(model)
                    s = z3.Solver()
                    s.add(z3.Not(f), *[z3.BitVec(k, 8) == v for k, v in model.items()])
                    if s.check() == z3.sat:
                        return "%s for imports %s: exit %s, %d generated files" % (r[0], desc(model), res["code"], len(res["files"]))
                desc = lambda m: ", ".join("%s->%s" % e for e in edges if m["e%s%s" % e]) or "(none)"
                m = r[1]
                replay(chk, sp, sp.render(m), m, judge, r[0])
    later(chk, sp, None, after)

SPELL = ["m.c", "./m.c", "s/../m.c", "../w/m.c", "././m.c"]
SPELL2 = ["../m.c", "./../m.c", "../s/../m.c", "../../w/m.c"]

def spelled(chk):
    """The same module imported through different spellings of its path is one module."""
    sp = Spec()
    sp.note = "one module through two spellings of its path"
    sp.file("/w/a.c", "#import ", Cho("x", SPELL), "\n#import s/n.c\nint main() { return m.f() + n.g(); }\n")
    sp.file("/w/s/n.c", "#import ", Cho("y", SPELL2), "\npub int g() { return m.f(); }\n")
    sp.file("/w/m.c", "pub int f() { return 1; }\n")
    sp.split = ["x", "y"]
    def judge(res, inp, model):
        t = "imports %s and %s" % (SPELL[model["x"]], SPELL2[model["y"]])
        if crashed(res) or res["code"] != 0:
            return "%s: rejected: %s" % (t, crash_text(res))
        if len(generated(res)) != 3:
            return "%s: %d generated files instead of 3" % (t, len(generated(res)))
        try:
            L = Linked(generated(res))
            f, g, m = L.find("f"), L.find("g"), L.find("main")
            if len(f) != 1 or len(g) != 1 or len(m) != 1 or L.calls(*g[0]) != f or L.calls(*m[0]) != f + g:
                return "%s: the calls do not reach the one module" % t
        except cmini.CErr as e:
            return "%s: does not link: %s" % (t, e)
    later(chk, sp, judge, lambda ps: chk.vacuity(sp.note, len(ps) == len(SPELL) * len(SPELL2)))
    sp2 = Spec()
    sp2.note = "loop across directories"
    sp2.maxinst = 20000000
    sp2.file("/w/a.c", "#import s/n.c\nint main() { return n.g(); }\n")
    sp2.file("/w/s/n.c", "#import ", Cho("y", SPELL2), "\npub int g() { return m.f(); }\n")
    sp2.file("/w/m.c", "#import ", Cho("x", ["s/n.c", "./s/n.c", "../w/s/n.c", "s/../s/n.c"]), "\npub int f() { return n.g(); }\n")
    sp2.split = ["x", "y"]
    def judge2(res, inp, model):
        if crashed(res) or res["code"] != 1 or b"loop" not in res["err"]:
            return "loop across directories through %s not reported: %s" % (SPELL2[model["y"]], crash_text(res))
    later(chk, sp2, judge2, lambda ps: chk.vacuity(sp2.note, len(ps) > 0))

def lookup(chk):
    """Names with .c are relative to the importer, names without it come from the library; a missing one is rejected."""
    N = ["x.c", "x", "s/x.c", "s/x", "y.c", "y", "t/x.c", "x.c.c"]
    WHERE = {"x.c": "/w/x.c", "x": "/h/lib/x.c", "s/x.c": "/w/s/x.c", "s/x": "/h/lib/s/x.c"}
    VAL = {"/w/x.c": 1, "/h/lib/x.c": 2, "/w/s/x.c": 3, "/h/lib/s/x.c": 4}
    sp = Spec()
    sp.note = "module lookup"
    sp.file("/w/a.c", "#import ", Cho("n", N), "\nint main() { return x.f(); }\n")
    for p, v in VAL.items():
        sp.file(p, "pub int f() { return %d; }\n" % v)
    sp.split = ["n"]
    def judge(res, inp, model):
        n = N[model["n"]]
        if crashed(res):
            return "import of %s: crash: %s" % (n, crash_text(res))
        if n not in WHERE:
            return None if res["code"] == 1 and res["err"] else "missing module %s accepted" % n
        if res["code"] != 0:
            return "import of %s rejected: %s" % (n, res["err"].decode()[:200])
        gen = generated(res)
        bodies = [v for v in gen.values() if b"return %d" % VAL[WHERE[n]] in v]
        if len(gen) != 2 or len(bodies) != 1:
            return "import of %s resolved to the wrong file" % n
    later(chk, sp, judge, lambda ps: chk.vacuity(sp.note, sum(1 for p in ps if p.code == 0) == len(WHERE)))

def homonyms(chk):
    """Modules with one base name in different directories are different modules."""
    W = [("x/m.c", 1), ("y/m.c", 2), ("m", 3), ("./m.c", 4)]
    sp = Spec()
    sp.note = "modules with equal base names"
    KS = ["k", "l", "n"]
    for i, k in enumerate(KS):
        sp.file("/w/%s.c" % k, "#import ", Cho("m" + k, [w for w, _ in W]), "\npub int q() { return m.f() + m.K; }\n")
    for (w, v), p in zip(W, ["/w/x/m.c", "/w/y/m.c", "/h/lib/m.c", "/w/m.c"]):
        sp.file(p, "pub int f() { return g() + %d; }\nint g() { return %d; }\npub enum { K = %d }\n" % (v, 10 * v, 100 * v))
    sp.file("/w/a.c", "".join("#import %s.c\n" % k for k in KS) + "int main() { return " + " + ".join("%s.q()" % k for k in KS) + "; }\n")
    sp.split = ["m" + k for k in KS]
    def judge(res, inp, model):
        vs = [W[model["m" + k]][1] for k in KS]
        t = "modules %s" % [W[model["m" + k]][0] for k in KS]
        if crashed(res) or res["code"] != 0:
            return "%s: rejected: %s" % (t, crash_text(res))
        if len(generated(res)) != 1 + len(KS) + len(set(vs)):
            return "%s: %d generated files instead of %d" % (t, len(generated(res)), 1 + len(KS) + len(set(vs)))
        try:
            from .c04 import Eval
            L = Linked(generated(res))
            v = Eval(L).call(*L.find("main")[0])
        except cmini.CErr as e:
            return "%s: the generated program is not linkable: %s" % (t, e)
        if v != 111 * sum(vs):
            return "%s: calls or constants reached the wrong module: the program computes %d, not %d" % (t, v, 111 * sum(vs))
    later(chk, sp, judge, lambda ps: chk.vacuity(sp.note, len(ps) == len(W) ** len(KS)))

def layers(chk, depth):
    """Two modules per layer, each importing both of the next: the work must not grow with the number of import chains."""
    sp = Spec()
    sp.note = "layered graph of depth %d" % depth
    sp.maxinst = 400000000
    for i in range(depth):
        for s in "ab":
            nxt = i + 1 < depth
            sp.file("/w/%s%d.c" % (s, i), Cho("e%d" % i, ["#import a%d.c\n#import b%d.c\n" % (i + 1, i + 1), "#import b%d.c\n#import a%d.c\n" % (i + 1, i + 1)]) if nxt and i < 1 else "#import a%d.c\n#import b%d.c\n" % (i + 1, i + 1) if nxt else "",
                    "pub int f() { return %s; }\n" % ("a%d.f() + b%d.f()" % (i + 1, i + 1) if nxt else "1"))
    sp.file("/w/a.c", "#import a0.c\n#import b0.c\nint main() { return a0.f() + b0.f(); }\n")
    def judge(res, inp, model):
        if crashed(res) or res["code"] != 0 or len(generated(res)) != 2 * depth + 1:
            return "layered import graph of depth %d: %s" % (depth, crash_text(res))
    later(chk, sp, judge, lambda ps: chk.vacuity(sp.note, len(ps) > 0))

def deptree(chk):
    sp, reach, loop, E = graph("abc", [(a, b) for a in "abc" for b in "abc" if a < b])
    sp.args = ["che", "deptree", "/w/a.c"]
    sp.note = "dependency tree listing"
    sp.split = sp.vars()
    def want(m, model, ind):
        r = ["%s%s/w/%s.c" % ("  " * ind, "- " if ind else "", m)]
        for b in "abc":
            if (m, b) in E and model["e" + m + b]:
                r += want(b, model, ind + 1)
        return r
    def judge(res, inp, model):
        got = [x.strip(" -") for x in res["out"].decode().splitlines()]
        dep = [(len(x) - len(x.lstrip(" "))) // 2 for x in res["out"].decode().splitlines()]
        w = want("a", model, 0)
        if crashed(res) or res["code"] != 0 or got != [x.strip(" -") for x in w] or dep != [(len(x) - len(x.lstrip(" "))) // 2 for x in w]:
            return "deptree printed %r, expected %r" % (res["out"].decode(), w)
    later(chk, sp, judge, lambda ps: chk.vacuity(sp.note, len(ps) == 8))

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on a set of modules whose import lines are symbolic bits; per path the solver decides that the verdict, the set of generated files and the "
                   "resolved cross-module calls agree with reachability and cycle formulas over those bits.")
    chk.assumptions = ["the oracle's linkage rules are C's: static definitions are file-local, others global"]
    check_graph(chk, "all graphs with self-imports", "abc", [(a, b) for a in "abc" for b in "abc"])
    check_graph(chk, "all graphs without edges back to main", "abcd", [(a, b) for a in "abcd" for b in "bcd" if a != b])
    check_graph(chk, "all graphs on four modules with self-imports", "abcd", [(a, b) for a in "abcd" for b in "abcd"])
    check_graph(chk, "acyclic graphs on five modules", "abcde", [(a, b) for a in "abcde" for b in "abcde" if a < b])
    if th:
        check_graph(chk, "graphs on five modules without edges back to main", "abcde", [(a, b) for a in "abcde" for b in "bcde" if a != b])
        check_graph(chk, "acyclic graphs on six modules", "abcdef", [(a, b) for a in "abcdef" for b in "abcdef" if a < b])
    spelled(chk)
    lookup(chk)
    homonyms(chk)
    deptree(chk)
    layers(chk, 16)
