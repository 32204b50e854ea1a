"""C05: a name must be declared before it is used and used once declared; everything else is rejected."""
from vf.common import *

class Tpl:
    """A template: literal text, declaration slots and use slots. Builds the spec and the z3 condition under which it is a correct program."""
    def __init__(self, glob=()):
        self.parts, self.ev, self.names = [], [], {}
        self.glob = list(glob)
    def t(self, s):
        self.parts.append(s)
        return self
    def open(self):
        self.ev.append(("open",))
        return self
    def close(self):
        self.ev.append(("close",))
        return self
    def decl(self, var, names, exported=None):
        """A declaration; `exported` is a z3 condition under which it needs no use."""
        self.parts.append(Cho(var, names))
        self.ev.append(("decl", var, names, exported))
        return self
    def use(self, var, names):
        self.parts.append(Cho(var, names))
        self.ev.append(("use", var, names))
        return self
    def correct(self):
        same = lambda a, an, b, bn: z3.Or(*[z3.And(B(a, i), B(b, j)) for i, x in enumerate(an) for j, y in enumerate(bn) if x == y])
        scopes, decls, ok = [[]], [], []
        used = {}
        # module level declarations are visible everywhere
        lvl = 0
        for e in self.ev:
            if e[0] == "open":
                lvl += 1
            elif e[0] == "close":
                lvl -= 1
            elif e[0] == "decl" and lvl == 0:
                scopes[0].append(e)
        for i, e in enumerate(scopes[0]):
            ok += [z3.Not(same(e[1], e[2], f[1], f[2])) for f in scopes[0][:i]]
            used[e[1]] = []
        for e in self.ev:
            if e[0] == "open":
                scopes.append([])
            elif e[0] == "close":
                scopes.pop()
            elif e[0] == "decl" and len(scopes) > 1:
                ok += [z3.Not(same(e[1], e[2], f[1], f[2])) for f in scopes[-1]]
                scopes[-1].append(e)
                used[e[1]] = []
            elif e[0] == "use":
                shadow = z3.BoolVal(False)
                hit = []
                for sc in reversed(scopes):
                    for d in reversed(sc):
                        m = z3.And(z3.Not(shadow), same(e[1], e[2], d[1], d[2]))
                        used[d[1]].append(m)
                        hit.append(m)
                        shadow = z3.Or(shadow, same(e[1], e[2], d[1], d[2]))
                hit += [B(e[1], i) for i, n in enumerate(e[2]) if n in self.glob]
                ok.append(z3.Or(*hit))
        for e in self.ev:
            if e[0] == "decl":
                ok.append(z3.Or(*used[e[1]], *([e[3]] if e[3] is not None else [])))
        return z3.And(*ok)
    def run(self, chk, note, extra=None, files=(), accept=True):
        sp = Spec()
        sp.note = note
        sp.pcs = True
        sp.file("/w/a.c", *self.parts)
        for n, *ps in files:
            sp.file(n, *ps)
        ok = self.correct()
        if extra is not None:
            ok = z3.And(ok, extra)
        go(chk, sp, ok, accept)

def go(chk, sp, ok, accept=True):
    def formula(res):
        if crashed(res):
            return "crash: " + crash_text(res)
        if res["code"] == 0:
            return ok
        return z3.Not(ok) if res["err"].strip() else "rejected without a diagnostic"
    def verdict(p):
        f = formula(p.res())
        if isinstance(f, str):
            return f, p.model
        m = counterexample(p, f)
        return ("a correct program is rejected" if p.code else "a program with an undefined, unused or doubly defined name is accepted", m) if m else None
    def after(ps):
        chk.bounds.append("%s: %d paths" % (sp.note, len(ps)))
        chk.vacuity(sp.note + ": accepted", any(p.code == 0 for p in ps) or not accept)
        chk.vacuity(sp.note + ": rejected", any(p.code == 1 for p in ps))
        for p, r in zip(ps, pmap(verdict, ps)):
            chk.asserts += 1
            if r:
                def judge(res, inp, model):
                    f = formula(res)
                    if not isinstance(f, str):
                        s = z3.Solver()
                        s.add(z3.Not(f), *[z3.BitVec(k, 8) == v for k, v in model.items()])
                        f = r[0] if s.check() == z3.sat else None
                    if f:
                        return "%s: %r: exit %s %s" % (f, b"\n".join(inp.values()).decode(), res["code"], res["err"].decode()[:160].strip())
                replay(chk, sp, sp.render(r[1]), r[1], judge, r[0])
    later(chk, sp, None, after)

CONTEXTS = ["OS.g(%s);", "OS.r = %s;", "%s = 1;", "%s++;", "--%s;", "%s += 2;", "OS.r = OS.v[%s];", "OS.r = -%s;", "OS.r = !%s;", "OS.r = ~%s;", "OS.g(&%s);", "OS.r = sizeof(%s);", "OS.r = (char)%s;",
            "OS.r = (char)(%s);", "if (%s) { OS.h(); }", "if (OS.c) { } else { OS.g(%s); }", "while (%s) { OS.h(); }", "for (OS.i = %s; OS.i; OS.i++) { }", "for (; %s; OS.i++) { }", "for (; OS.i; %s++) { }", "for (int q = %s; q; q++) { }",
            "for (; OS.i; OS.i++) { OS.g(%s); }", "int q = %s; OS.g(q);", "int q[2] = {1, %s}; OS.g(q);", "T q = {.m = %s}; OS.g(q);", "int q[] = {[%s] = 1}; OS.g(q);", "int q[%s]; OS.g(q);",
            "switch (%s) { case 1: { } }", "switch (OS.c) { case 1: { OS.g(%s); } }", "switch (OS.c) { case 1: { } default: { OS.g(%s); } }", "switch (OS.c) { case %s: { } }", "switch (OS.c) { case 1, %s: { } }",
            "switch str (OS.s) { case \"a\": { OS.g(%s); } }", "switch str (OS.s) { case \"a\": { } default: { OS.g(%s); } }", "panic(\"%%d\", %s);", "return %s;", "OS.r = OS.g(OS.k(%s));",
            "OS.r = (OS.a + %s) * 2;", "OS.r = %s == 1 && OS.a;", "OS.r = OS.a || %s;", "OS.r = OS.a << %s;", "%s;", "while (OS.c) { if (OS.d) { OS.g(%s); } }", "OS.r = nelem(%s);", "OS.r = OS.p[%s].m;", "OS.r = OS.p->m[%s];", "OS.r[%s] = 1;"]

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on programs whose declared and used names, export markers and imports are symbolic; per path the solver decides that the verdict "
                   "equals a scoping formula over those choices.")
    chk.assumptions = ["a parameter and a local of the function's outermost block are taken as different scopes"]
    # every place where a name can be used counts as a use and is checked
    for c in CONTEXTS:
        a, b = c.split("%s")
        pre, post = "typedef { int m; } T;\nint f() { T z = {.m = 1}; OS.g(z);\nint ", "; return 0; }\nint main() { return f(); }\n"
        Tpl().t(pre.replace("%%", "%")).open().decl("d", ["x", "xx"]).t(" = 1;\n" + a.replace("%%", "%")).use("u", ["x", "xx", "X", "_x"]).t(b).close().t(post.replace("; return", "return", 1)).run(chk, "use in: " + c.replace("%s", "x"))
    N = ["x", "y", "z"] if th else ["x", "y"]
    U = N + ["w"]
    # nested scopes
    (Tpl().t("int ").decl("m", N).t(" = 1;\nint f(int ").open().decl("p", N).t(") {\nOS.g(").open().use("u1", U).t(");\nint ").decl("l", N).t(" = 2;\nif (OS.c) {\nint ").open().decl("i", N).t(" = 3;\nOS.g(").use("u2", U)
     .t(");\n}\nOS.g(").close().use("u3", U).t(");\nreturn 0;\n}\nint main() { return f(1) + ").close().close().open().use("u4", U).t("; }\n").close().run(chk, "nested scopes"))
    (Tpl().t("int f() {\nint ").open().decl("l", N).t(" = 2;\nfor (int ").open().decl("c", N).t(" = 1; ").use("u1", U).t("; ").use("u2", U).t("++) {\nint ").open().decl("i", N).t(" = ").use("u3", U).t(";\nOS.g(").use("u4", U)
     .t(");\n}\nreturn ").close().close().use("u5", U).t(";\n}\nint main() { return f(); }\n").close().run(chk, "loop counters"))
    (Tpl().t("int f() {\nif (OS.c) {\nint ").open().open().decl("a", N).t(" = 1; OS.g(").use("u1", U).t(");\n} else {\nint ").close().open().decl("b", N).t(" = 2; OS.g(").use("u2", U)
     .t(");\n}\nwhile (OS.c) { int ").close().open().decl("c", N).t(" = 1; OS.g(").use("u3", U).t("); }\nswitch (OS.c) { case 1: { int ").close().open().decl("d", N).t(" = 4; OS.g(").use("u4", U)
     .t("); } }\nreturn 0;\n}\nint main() { return f(); }\n").close().close().run(chk, "sibling blocks"))
    (Tpl().t("int f(int ").open().decl("p", N).t(", ").decl("q", N).t(") {\nOS.g(").open().use("u1", U).t(");\nOS.g(").use("u2", U).t(");\nint ").decl("l", N).t(" = 1;\nint ").decl("k", N).t(" = ").use("u3", U).t(";\nOS.g(").use("u4", U)
     .t(");\nreturn 0;\n}\nint main() { return f(1, 2); }\n").close().close().run(chk, "parameters and locals of one block"))
    # module level: functions, enum constants, variables and macros in any order, used before or after their definition
    G = ["x", "y", "main1"]
    pub = Cho("pf", ["pub ", ""]), Cho("pe", ["pub ", ""])
    t = Tpl().t("int main() { return ").open().use("u1", U).t(" + 1; }\n").close()
    t.parts.append(pub[0])
    t.t("int ").decl("f", N + ["z"], B("pf", 0)).t("() { return ").open().use("u2", U + ["z"]).t(" + 1; }\n").close()
    t.parts.append(pub[1])
    t.t("enum { ").decl("e", N, B("pe", 0)).t(" = 1 }\nint ").decl("v", N).t(" = 4;\n")
    # a function is called, the others are values: only judged where the use is a name the type rules do not look at
    fn = lambda u, ns: z3.Not(z3.Or(*[z3.And(B(u, i), B("f", j)) for i, a in enumerate(ns) for j, b in enumerate(N + ["z"]) if a == b]))
    sp_note = "module level names"
    t2 = Tpl()
    t2.t("int main() { OS.g(").open().use("u1", U + ["z"]).t("); return 0; }\n").close()
    t2.parts.append(pub[0])
    t2.t("int ").decl("f", N + ["z"], B("pf", 0)).t("() { OS.g(").open().use("u2", U + ["z"]).t("); return 0; }\n").close()
    t2.parts.append(pub[1])
    t2.t("enum { ").decl("e", N, B("pe", 0)).t(" = 1 }\nint ").decl("v", N).t(" = 4;\n").run(chk, sp_note)
    (Tpl().t("#define ").decl("m", N).t(" 1\nenum { ").decl("a", N + ["z"]).t(", ").decl("b", N + ["z"]).t(" }\nint main() { OS.g(").open().use("u1", U + ["z"]).t("); OS.g(").use("u2", U + ["z"]).t("); OS.g(").use("u3", U + ["z"])
     .t("); return 0; }\n").close().run(chk, "macros and enum constants"))
    # the C library is always there, but only what it has
    LIBC = ["printf", "strlen", "free", "exit", "stderr", "EOF", "errno", "isdigit", "INT_MAX", "NULL", "true", "memcpy", "SEEK_SET", "nelem"]
    NOT = ["println", "strlne", "Printf", "gets1", "unlink", "stdErr", "foo", "struct_", "calloc_or"]
    sp = Spec()
    sp.note = "names of the C library"
    sp.pcs = True
    sp.file("/w/a.c", "int main() { OS.g(", Cho("u", LIBC + NOT), "); return 0; }\n")
    go(chk, sp, z3.Or(*[B("u", i) for i in range(len(LIBC))]))
    # types
    TY = [("int", 1), ("char", 1), ("size_t", 1), ("FILE", 1), ("uint8_t", 1), ("T", 1), ("U", 1), ("H", 1), ("V", 0), ("t", 0), ("Int", 0), ("b.P", 1), ("b.Q", 0), ("b.R", 0)]
    # (casts to imported types are not part of the language)
    for c in ["%s x; OS.g(x);", "%s *x = OS.p; OS.g(x);", "OS.g((%s *) OS.p);", "OS.g(sizeof(%s));", "for (%s i = 0; i < 3; i++) { OS.g(1); }"]:
        a, b = c.split("%s")
        sp = Spec()
        sp.note = "types in: " + c.replace("%s", "T")
        sp.pcs = True
        sp.file("/w/a.c", "#import b.c\n#type H\ntypedef { int m; } T;\ntypedef int U;\nint main() { OS.g(b.K); " + a, Cho("t", [x for x, _ in TY]), b + " return 0; }\n")
        sp.file("/w/b.c", "pub enum { K = 1 }\npub typedef { int m; } P;\ntypedef { int m; } Q;\npub int f(Q *q) { return q->m; }\n")
        ok = z3.Or(*[B("t", i) for i, (_, v) in enumerate(TY) if v])
        skip = [i for i, (x, _) in enumerate(TY) if c.startswith("for") and x in ("T", "FILE", "b.P", "H", "OS.anything")] + [i for i, (x, v) in enumerate(TY) if not v and not c[0] == "%" and not c.startswith("for") and "." not in x]
        # a cast or sizeof with an unknown word is an expression with an undefined name: also wrong, nothing to skip
        if c.startswith("OS.g(("):
            skip.append([x for x, _ in TY].index("b.P"))
        for i in skip:
            if TY[i][1]:
                sp.assume("(not (= t (_ bv%d 8)))" % i)
        go(chk, sp, ok)
    TYP = [("int", 1), ("T", 1), ("V", 0), ("b.P", 1), ("b.Q", 0), ("FILE", 1), ("void", 1)]
    for c in ["int f(%s *x) { return x == NULL; }", "%s *f(int x) { return x + OS.p; }", "typedef { %s *a; int b; } S;\nint f(S *x) { return x->b; }", "%s *v = {};\nint f(int x) { OS.g(v); return x; }", "typedef %s *S;\nint f(S x) { return x == NULL; }",
              "typedef int S(%s *);\nint f(S *x) { return x == NULL; }", "typedef { int k; union { %s *a; int b; } u; } S;\nint f(S *x) { return x->k; }"]:
        a, b = c.split("%s")
        sp = Spec()
        sp.note = "types in: " + c.replace("%s", "T").replace("\n", " ")
        sp.pcs = True
        sp.file("/w/a.c", "#import b.c\ntypedef { int m; } T;\n" + a, Cho("t", [x for x, _ in TYP]), b + "\nint main() { OS.g(f); return b.K; }\n")
        sp.file("/w/b.c", "pub enum { K = 1 }\npub typedef { int m; } P;\ntypedef { int m; } Q;\npub int f(Q *q) { return q->m; }\n")
        go(chk, sp, z3.Or(*[B("t", i) for i, (_, v) in enumerate(TYP) if v]))
    # imports: every one of them has to be used, and only what is imported can be
    US = ["1", "b.f()", "b.K", "sizeof(b.T)", "c.f()", "c.K", "sizeof(c.T)"]
    WHO = [None, "b", "b", "b", "c", "c", "c"]
    sp = Spec()
    sp.note = "imports"
    sp.pcs = True
    sp.file("/w/a.c", Cho("ib", ["", "#import b.c\n"]), Cho("ic", ["", "#import c.c\n"]), "int main() { OS.g(", Cho("u1", US), "); OS.g(", Cho("u2", US), "); return 0; }\n")
    for m in "bc":
        sp.file("/w/%s.c" % m, "pub int f() { return 1; }\npub enum { K = 1 }\npub typedef { int m; } T;\n")
    usedby = lambda m: z3.Or(*[B(u, i) for u in ("u1", "u2") for i, w in enumerate(WHO) if w == m])
    go(chk, sp, z3.And(usedby("b") == B("ib", 1), usedby("c") == B("ic", 1)))
    # an import used only outside of function bodies is used
    PL = ["", "b.T v = {.m = 1};", "b.T *g(b.T *p) { return p; }", "typedef { b.T t; } S;", "typedef b.T *S;", "enum { Z = b.K }", "int v = b.K;", "int v[b.K] = {};", "pub int g(b.T *p) { return p == NULL; }", "typedef { int a[b.K]; } S;"]
    USE = ["", "OS.h(v);", "OS.h(g);", "", "", "OS.h(Z);", "OS.h(v);", "OS.h(v);", "OS.h(g);", ""]
    sp = Spec()
    sp.note = "imports used at module level"
    sp.pcs = True
    sp.file("/w/a.c", "#import b.c\n", Cho("p", PL), "\nint main() { ", Cho("p", USE), " return 0; }\n")
    sp.file("/w/b.c", "pub int f() { return 1; }\npub enum { K = 1 }\npub typedef { int m; } T;\n")
    go(chk, sp, z3.Not(B("p", 0)))
