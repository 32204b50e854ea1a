"""C04: names belong to their module: only exported ones are reachable from importers, and equal names never mix."""
from vf.common import *

class Eval:
    """Evaluates constant-returning functions of the linked generated program (ints, enum constants, calls, +)."""
    def __init__(self, L):
        self.vars = {}
        self.L, self.enums = L, {}
        for fn, m in L.mods.items():
            for x in m:
                if x["k"] == "enum":
                    v = -1
                    for e in x["entries"]:
                        n, ex = e[0], e[1]
                        v = self.expr(fn, ex) if ex is not None else v + 1
                        if self.enums.get((fn, n), v) != v:
                            raise cmini.CErr("enum constant %s has two values" % n)
                        self.enums[fn, n] = v
        self.vars = {}
        for fn, m in L.mods.items():
            for x in m:
                if x["k"] == "var":
                    self.vars[fn, x["name"]] = self.expr(fn, x["init"])
    def expr(self, fn, e):
        k = e[0]
        if k == "num":
            return int(e[1], 0)
        if k == "bin" and e[1] == "+":
            return self.expr(fn, e[2]) + self.expr(fn, e[3])
        if k == "id":
            for d in (self.enums, getattr(self, "vars", {})):
                if (fn, e[1]) in d:
                    return d[fn, e[1]]
            raise cmini.CErr("%s is not declared" % e[1])
        if k == "call":
            f, n = self.L.resolve(fn, e[1][1])
            return self.call(f, n)
        if k == "sizeof_t":
            return self.size(fn, e[1])
        raise cmini.CErr("unexpected " + k)
    def size(self, fn, t):
        """Size in ints of a struct of int fields, through its typedef."""
        name = t[1]
        for x in self.L.mods[fn]:
            if x["k"] == "typedef" and x["name"] == name:
                name = x["type"][1]
                break
        if name == "int":
            return 4
        name = name.replace("struct ", "")
        for x in self.L.mods[fn]:
            if x["k"] == "struct" and x["name"] == name:
                return 4 * len(x["fields"])
        raise cmini.CErr("incomplete type " + t[1])
    def call(self, fn, n):
        for s in self.L.funcs[fn, n]["body"][1]:
            if s[0] == "return":
                return self.expr(fn, s[1])
        raise cmini.CErr("no return")

MODSRC = lambda pf, pg, pk, pt, v, n: [
    Cho(pf, ["pub ", ""]), "int f() { return g() + %d; }\n" % v, Cho(pg, ["pub ", ""]), "int g() { return x + %d; }\n" % (v + 1),
    "int x = %d;\n" % (v + 2), Cho(pk, ["pub ", ""]), "enum { K = %d, L }\n" % (v + 3), Cho(pt, ["pub ", ""]), "typedef { int %s; } T;\n" % ", ".join("abcdefgh"[:n]), Cho(pt, ["pub ", ""]), "typedef int U;\n",
    "pub int u() { return f() + K + L + sizeof(T); }\n"]
# value of each name by module
def values(v, n):
    g = 2 * v + 3
    f = g + v
    return {"f()": f, "g()": g, "K": v + 3, "L": v + 4, "u()": f + 2 * v + 7 + 4 * n}
USES = ["b.f()", "b.g()", "b.K", "b.L", "b.u()", "c.f()", "c.g()", "c.K", "c.L", "c.u()", "f()", "g()", "K", "L", "b.x", "c.x", "x", "b.h()", "h()", "d.f()", "sizeof(b.T)", "sizeof(c.T)", "sizeof(T)", "b.main()", "sizeof(b.S)", "sizeof(b.U)", "sizeof(c.U)", "sizeof(U)"]
FEW = ["b.f()", "b.K", "c.g()", "c.L", "f()", "K", "sizeof(b.T)", "sizeof(c.T)", "b.x", "h()", "sizeof(b.U)"]

def run(chk):
    chk.explain = ("Whole compiler executed symbolically on modules with equal names, symbolic export markers and a symbolic use; the solver decides per path that the verdict matches the visibility formula and that the "
                   "value computed by the linked C program is the one of the module the name was qualified with.")
    chk.assumptions = ["the oracle applies C's linkage rules to the generated files (static is file-local)"]
    for note, u2 in (("one use", False), ("two uses", True)):
        sp = Spec()
        sp.note = note
        sp.pcs = True
        uses = FEW if u2 else USES
        # in the second family the markers are tied: one bit per module
        names = (lambda m: [m + "p"] * 4) if u2 else (lambda m: [m + "pf", m + "pg", m + "pk", m + "pt"])
        if not u2 and chk.tier == "quick":
            names = lambda m: [m + "pf", m + "pf", m + "pk", m + "pt"] if m == "b" else ["cpf", "cpg", "cpf", "cpg"]
        mark = lambda m: dict(zip(["f()", "g()", "K", "T"], names(m)), L=names(m)[2])
        sp.file("/w/b.c", *MODSRC(*names("b"), 100, 2))
        sp.file("/w/c.c", *MODSRC(*names("c"), 1000, 3))
        second = ["; }\nint r() { return ", Cho("w", uses)] if u2 else []
        sp.file("/w/a.c", "#import b.c\n#import c.c\nint main() { return b.u() + c.u() + f() + q()%s; }\nint q() { return " % (" + r()" if u2 else ""), Cho("use", uses), *second, "; }\nint f() { return g() + x + K + L + sizeof(T); }\nint g() { return 1; }\nint x = 2;\nenum { K = 3, L }\ntypedef { int a; } T;\n")
        sp.split = ["use", "w"] if u2 else ["use"]
        mine = {"f()": 1 + 2 + 3 + 4 + 4, "g()": 1, "K": 3, "L": 4, "x": 2}
        base = values(100, 2)["u()"] + values(1000, 3)["u()"] + mine["f()"]
        def table(var, uses=uses, mark=mark):
            """[(choice, condition on markers under which it is visible, value)]"""
            r = []
            for i, u in enumerate(uses):
                szof = u.startswith("sizeof(")
                t = u[7:-1] if szof else u
                m, n = t.split(".", 1) if "." in t else ("", t)
                if szof:
                    vis = B(mark(m)["T"], 0) if m and n in "TU" else z3.BoolVal(n == "T")
                    val = {"b": 8, "c": 12, "": 4}[m] if n == "T" else 4
                elif m in ("b", "c"):
                    v = values(100, 2) if m == "b" else values(1000, 3)
                    vis, val = (z3.BoolVal(True) if n == "u()" else B(mark(m)[n], 0) if n in mark(m) and n != "T" else z3.BoolVal(False)), v.get(n, 0)
                else:
                    vis, val = z3.BoolVal(m == "" and n in mine), mine.get(n, 0)
                r.append((i, vis, val))
            ok = z3.Or(*[z3.And(B(var, i), vis) for i, vis, _ in r])
            value = z3.BitVecVal(0, 32)
            for i, _, val in r:
                value = z3.If(B(var, i), z3.BitVecVal(val, 32), value)
            return ok, value
        T = [table("use")] + ([table("w")] if u2 else [])
        ok = z3.And(*[t[0] for t in T])
        total = sum([t[1] for t in T], z3.BitVecVal(base, 32))
        def formula(res, ok=ok, total=total):
            if crashed(res):
                return "crash: " + crash_text(res)
            if res["code"] != 0:
                return z3.Not(ok) if res["err"].strip() else "rejected silently"
            try:
                L = Linked(generated(res))
                E = Eval(L)
                m = L.find("main")
                if len(m) != 1 or m[0][1] not in L.glob:
                    return "main is not a global function of the program"
                v = E.call(*m[0])
            except cmini.CErr as e:
                return "generated program is not linkable: %s" % e
            return z3.And(ok, total == v)
        def verdict(p, formula=formula):
            f = formula(p.res())
            if isinstance(f, str):
                return f, p.model
            m = counterexample(p, f)
            return ("a name resolved to the wrong module or visibility was not respected", m) if m else None
        def after(ps, sp=sp, note=note, formula=formula, verdict=verdict, uses=uses):
            chk.bounds.append("%s: %d paths" % (note, len(ps)))
            chk.vacuity(note + ": accepted", any(p.code == 0 for p in ps))
            chk.vacuity(note + ": rejected", any(p.code == 1 for p in ps))
            for p, r in zip(ps, pmap(verdict, ps)):
                chk.asserts += 1
                if r:
                    def judge(res, inp, model):
                        f = formula(res)
                        if not isinstance(f, str):
                            s = z3.Solver()
                            s.add(z3.Not(f), *[z3.BitVec(k, 8) == v for k, v in model.items()])
                            f = r[0] if s.check() == z3.sat else None
                        if f:
                            return "%s: use of %s%s with markers %s: exit %s %s" % (f, uses[model["use"]], " and " + uses[model["w"]] if "w" in model else "", {k: ["pub", "private"][v] for k, v in model.items() if k[0] in "bc"}, res["code"], res["err"].decode()[:150].strip())
                    replay(chk, sp, sp.render(r[1]), r[1], judge, r[0])
        later(chk, sp, None, after)

    shadow(chk)

def shadow(chk):
    """Parameters, locals and loop counters hide the module's own names, exported or not, inside their scope only."""
    KINDS = ["int f(int a) { return a + 1000; }\n", "enum { f = 1000 }\n", "int f = 1000;\n"]
    for i, k in enumerate(KINDS):
        sp = Spec()
        sp.note = "shadowing of " + k.strip()
        use = "f(0)" if i == 0 else "f"
        pub = [Cho("p", ["pub ", ""])] if i < 2 else []
        sp.file("/w/a.c", *pub, k,
                Cho("h", ["", "pub "]), "int h(int ", Cho("n", ["f", "v", "h"]), ", int d) {\n",
                "int r = d + ", Cho("n", ["f", "v", "h"]), ";\nif (r) { int ", Cho("l", ["f", "w", "h"]), " = 20; r += ", Cho("l", ["f", "w", "h"]), "; }\n",
                "for (int ", Cho("c", ["f", "i", "h"]), " = 300; r > 0; r--) { r += ", Cho("c", ["f", "i", "h"]), "; }\nreturn r + ", Cho("n", ["f", "v", "h"]), ";\n}\n",
                "pub int z() { return ", use, "; }\nint main() { return h(1, 2) + z(); }\n")
        sp.split = sp.vars()
        def judge(res, inp, model):
            src = inp["/w/a.c"].decode()
            if crashed(res) or res["code"] != 0:
                return "a name that shadows another is rejected: %s in %r" % (crash_text(res), src)
            try:
                S, L = cmini.parse_che(inp["/w/a.c"]), Linked(generated(res))
                for fn in ("h", "z"):
                    a, k = first(S, "func", fn), L.find(fn)
                    if len(k) != 1:
                        return "function %s is missing or ambiguous in the generated program of %r" % (fn, src)
                    b = L.funcs[k[0]]
                    # what each name means: its own declaration (position) or the module's definition
                    A, G = names(a), names(b)
                    if A != G:
                        return "a name means something else in the generated function %s: %s became %s in %r" % (fn, A, G, src)
            except cmini.CErr as e:
                return "generated program is not linkable: %s for %r" % (e, src)
        later(chk, sp, judge, lambda ps, sp=sp: chk.vacuity(sp.note, len(ps) > 50))

def names(f):
    """The uses of names in a function as a list of (name without module prefix, where it was declared)."""
    out = []
    def look(sc, n):
        for d in range(len(sc) - 1, -1, -1):
            if n in sc[d]:
                return "declaration %d" % sc[d][n]
        return "module"
    count = [0]
    def declare(sc, n):
        sc[-1][n] = count[0]
        count[0] += 1
    def ex(e, sc):
        for x in walk(e):
            if x[0] == "id":
                out.append((canon(x[1]), look(sc, x[1])))
    def st(s, sc):
        k = s[0]
        if k == "block":
            sc = sc + [{}]
            for x in s[1]:
                st(x, sc)
        elif k == "decl":
            for d in s[1]:
                declare(sc, d[2])
                ex(d[4], sc)
        elif k == "if":
            ex(s[1], sc), st(s[2], sc)
            if s[3]:
                st(s[3], sc)
        elif k == "while":
            ex(s[1], sc), st(s[2], sc)
        elif k == "for":
            sc = sc + [{}]
            if s[1]:
                st(s[1], sc) if s[1][0] in ("decl", "expr") else ex(s[1], sc)
            ex(s[2], sc), ex(s[3], sc), st(s[4], sc)
        else:
            ex(s[1:], sc)
    top = [{}]
    for p in f["params"]:
        declare(top, p[2])
    st(f["body"], top)
    return out
