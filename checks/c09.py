"""C09: every declaration has the same type, name, order and value in the generated C as in the source."""
from vf.common import *

def last(n):
    return canon(n.rsplit(".", 1)[-1])

class Types:
    """Structural view of the types of one module (or, for C, one translation unit)."""
    def __init__(self, mods, che):
        self.td, self.st = {}, {}
        self.che = che
        for m in mods:
            for x in m:
                if x["k"] == "structdef":
                    self.st[last(x["name"])] = x["fields"]
                elif x["k"] == "struct":
                    self.st["struct " + x["name"]] = x["fields"]
                elif x["k"] == "typedef":
                    self.td[last(x["name"])] = x
    def t(self, t, stars, dims, seen=()):
        """(const, base, [modifiers]) -> a nested tuple."""
        n = t[1] if t[1].startswith("struct ") else last(t[1])
        return ("const " if t[0] else "") + self.named(n, seen), stars, tuple(self.e(d) for d in dims)
    def named(self, n, seen):
        if n in self.td and n not in seen:
            x = self.td[n]
            if not self.che and x["type"][1].startswith("struct ") and not x["stars"] and not x["params"] and not x["dims"]:
                return n
        return n
    def e(self, d):
        if d is None:
            return None
        if d[0] == "num":
            return ("num", sem.num(d[1]))
        if d[0] == "id":
            return ("id", last(d[1]))
        return tuple(self.e(y) if isinstance(y, tuple) else tuple(self.e(z) if isinstance(z, tuple) else z for z in y) if isinstance(y, list) else y for y in d)
    def fields(self, fs):
        return tuple(("u", self.fields(f[1]), f[2], f[3], tuple(self.e(d) for d in f[4])) if f[0] == "u" else ("f", f[3], self.t(f[1], f[2], f[4])) for f in fs)
    def struct(self, n):
        if n in self.st:
            return self.fields(self.st[n])
        x = self.td.get(n)
        if x and x["type"][1].startswith("struct ") and not x["stars"] and x["type"][1] in self.st:
            return self.fields(self.st[x["type"][1]])
        return None
    def typedef(self, n):
        x = self.td.get(n)
        if x is None:
            return None
        return self.t(x["type"], x["stars"], x["dims"]), None if x["params"] is None else (tuple(self.t(p[:2], p[2], []) for p in x["params"][0]), x["params"][1])
    def sig(self, f):
        return self.t(f["type"], f["stars"], []), tuple((p[2], self.t(p[0], p[1], p[3])) for p in f["params"]), f["variadic"]
    def locals(self, f):
        return tuple((d[2], self.t(d[0], d[1], d[3])) for n in walk(f["body"]) if n[0] == "decl" for d in n[1])

def diff(S, C, imps):
    """First difference between the source module S and the C file that holds its definitions."""
    ts, tc = Types([S], True), Types([C], False)
    cfuncs = {canon(x["name"]): x for x in C if x["k"] == "func"}
    cprotos = {}
    for x in C:
        if x["k"] == "proto":
            cprotos.setdefault(canon(x["name"]), x)
    cvars = {x["name"]: x for x in C if x["k"] == "var"}
    cenums = [(canon(n), tc.e(v)) for x in C if x["k"] == "enum" for n, v in x["entries"]]
    for x in S:
        if x["k"] == "func":
            y = cfuncs.get(x["name"])
            if not y:
                return "function %s is missing" % x["name"]
            if ts.sig(x) != tc.sig(y):
                return "function %s: %s became %s" % (x["name"], ts.sig(x), tc.sig(y))
            if ts.locals(x) != tc.locals(y):
                return "locals of %s: %s became %s" % (x["name"], ts.locals(x), tc.locals(y))
            p = cprotos.get(x["name"])
            if p and (tc.sig(p)[0], [q[1] for q in tc.sig(p)[1]], tc.sig(p)[2]) != (tc.sig(y)[0], [q[1] for q in tc.sig(y)[1]], tc.sig(y)[2]):
                return "prototype of %s does not match its definition" % x["name"]
        elif x["k"] == "var":
            y = cvars.get(x["name"])
            if not y:
                return "variable %s is missing" % x["name"]
            a, b = ts.t(x["type"], x["stars"], x["dims"]), tc.t(y["type"], y["stars"], y["dims"])
            if a != b:
                return "variable %s: %s became %s" % (x["name"], a, b)
        elif x["k"] == "structdef":
            a, b = ts.struct(x["name"]), tc.struct(x["name"])
            if a != b:
                return "struct %s: %s became %s" % (x["name"], a, b)
        elif x["k"] == "typedef":
            a, b = ts.typedef(x["name"]), tc.typedef(x["name"])
            if a != b:
                return "type %s: %s became %s" % (x["name"], a, b)
        elif x["k"] == "enum":
            es = [(n, ts.e(v)) for n, v in x["entries"]]
            k = len(es)
            if not any(cenums[i:i + k] == es for i in range(len(cenums) - k + 1)):
                return "enum %s is not in %s" % (es, cenums)
    return None

def judge_with(must):
    def judge(res, inp, model):
        src = inp["/w/a.c"]
        if crashed(res):
            return "compiler crash: " + crash_text(res)
        text = src.decode("utf-8", "replace").strip()
        if res["code"] != 0:
            return "well-formed declarations rejected: %s: %s" % (text[:300], res["err"].decode()[:160].strip()) if must(model) else None
        S = cmini.parse_che(src, types=("b.T",))
        try:
            mods = {k: cmini.parse_c(v) for k, v in generated(res).items()}
        except cmini.CErr as e:
            return "generated C is malformed (%s) for: %s" % (e, text)
        names = {x["name"] for x in S if x["k"] == "func"}
        for k, m in mods.items():
            if {canon(x["name"]) for x in m if x["k"] == "func"} & {"main"}:
                d = diff(S, m, None)
                return "declaration changed: %s: %s" % (d, text) if d else None
        return "no generated file holds the main function"
    return judge

def go(chk, note, *parts, must=lambda m: True):
    sp = Spec()
    sp.note = note
    sp.file("/w/a.c", *parts)
    sp.file("/w/b.c", "pub typedef { int m; } T;\npub enum { K = 3 }\n")
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st == "exit" and p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:260]})
    later(chk, sp, judge_with(must), after)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on declarations whose type names, pointer depths, array sizes, qualifiers, list shapes and values are symbolic; on each path the types of all generated declarations "
                   "are compared structurally with the source's.")
    chk.assumptions = ["types are compared by name, qualifier, pointer depth, array sizes, fields and parameters"]
    I = "#import b.c\ntypedef { int m; } T;\ntypedef T *TP;\nenum { A = 2, Z = 7 }\n"
    M = "\nint main() { T t = {}; TP tp = &t; b.T bt = {}; OS.g(tp, bt, A, Z, b.K);"
    ME = " return 0; }\n"
    TY = ["int", "char", "const char", "size_t", "T", "TP", "b.T", "double", "uint8_t", "int64_t", "bool", "float"]
    ST = ["", "*", "**"]
    DIM = ["", "[2]", "[2][3]", "[A]", "[b.K]", "[A + 1]"]
    PD = ["", "[]", "[4]"]
    t, s, d = lambda v="t": Cho(v, TY), lambda v="s": Cho(v, ST), lambda v="d", D=DIM: Cho(v, D)
    go(chk, "module variable", I, t(), " ", s(), "x", d(), " = {};", M, " OS.g(x);", ME)
    go(chk, "local variable", I, "int f() { ", t(), " ", s(), "x", d(), " = {}; OS.g(x); return 1; }", M, " f();", ME)
    go(chk, "local variable without a value", I, "int f() { ", t(), " ", s(), "x", d(), "; OS.g(x); return 1; }", M, " f();", ME)
    go(chk, "loop counter", I, "int f() { for (", Cho("t", ["int", "size_t", "char", "uint8_t", "uint64_t"]), " ", Cho("s", ["", "*"]), "i = 0; OS.c(i); OS.h()) { } return 1; }", M, " f();", ME)
    go(chk, "parameter", I, "int f(", t(), " ", s(), "x", d("d", PD), ") { OS.g(x); return 1; }", M, " OS.g(f);", ME)
    go(chk, "two parameters", I, "int f(", Cho("t", TY[:7]), " ", s(), "x, ", Cho("u", TY[:7]), " ", s("r"), "y) { OS.g(x, y); return 1; }", M, " OS.g(f);", ME)
    go(chk, "parameters that share a type", I, "int f(", t(), " ", s(), "x, ", s("r"), "y", d("d", PD), ", char z) { OS.g(x, y, z); return 1; }", M, " OS.g(f);", ME)
    go(chk, "three parameters that share a type", I, "int f(int k, ", Cho("t", TY[:7]), " ", s(), "x, ", s("r"), "y, ", s("q"), "z) { OS.g(k, x, y, z); return 1; }", M, " OS.g(f);", ME)
    go(chk, "variadic functions", I, Cho("p", ["pub ", ""]), "int f(", t(), " ", s(), "x", Cho("e", ["", ", ...", ", int y, ...", ", int y, z, ..."]), ") { OS.g(x", Cho("e", ["", "", ", y", ", y, z"]), "); return 1; }", M, " OS.g(f);", ME)
    go(chk, "results", I, Cho("p", ["pub ", ""]), t(), " ", s(), "f() { return OS.x; }", M, " OS.g(f);", ME)
    go(chk, "void functions", I, Cho("p", ["pub ", ""]), "void f(", Cho("a", ["", "int x", "void *x"]), ") { OS.g(", Cho("a", ["", "x", "x"]), "); }", M, " OS.g(f);", ME)
    go(chk, "struct field", I, Cho("p", ["pub ", ""]), "typedef { int k; ", t(), " ", s(), "x", d(), "; char z; } S;", M, " S v = {}; OS.g(v);", ME)
    go(chk, "struct field list", I, "typedef { ", Cho("t", TY[:7]), " ", s(), "x, ", s("r"), "y", d(), "; } S;", M, " S v = {}; OS.g(v);", ME)
    go(chk, "union field", I, "typedef { int k; union { int a; ", t(), " ", s(), "x", d(), "; } u", d("c", ["", "[2]"]), "; } S;", M, " S v = {}; OS.g(v);", ME)
    go(chk, "alias", I, Cho("p", ["pub ", ""]), "typedef ", t(), " ", s(), "S;", M, " S *v = NULL; OS.g(v);", ME)
    go(chk, "array type", I, "typedef ", Cho("t", ["int", "char", "double", "size_t"]), " S[", Cho("d", ["2", "A", "Z + 1"]), "];", M, " S v = {}; OS.g(v);", ME, must=lambda m: False)
    go(chk, "function type", I, Cho("p", ["pub ", ""]), "typedef ", t(), " ", s(), "S(", Cho("u", ["", "int", "char *", "T *, int", "b.T *, const char *, size_t", "TP, void **"]), ");", M, " S *v = NULL; OS.g(v);", ME)
    V = ["", " = 1", " = 'x'", " = 0x10", " = A + 1", " = 1 << 3", " = -1"]
    go(chk, "enum values", I, Cho("p", ["pub ", ""]), "enum { P", Cho("a", V), ", Q", Cho("b", V), ", R", Cho("c", ["", " = 5", " = P", " = b.K"]), Cho("e", ["", ","]), " }", M, " OS.g(P, Q, R);", ME)
    go(chk, "two enums", I, "enum { P", Cho("a", V[:4]), " }\nenum { Q", Cho("b", V[:4]), ", R }", M, " OS.g(P, Q, R);", ME)
    go(chk, "structs in structs", I, "typedef { ", Cho("t", ["int", "T", "b.T", "TP"]), " ", Cho("s", ST[:2]), "a; } S;\ntypedef { S ", Cho("r", ST[:2]), "b", Cho("d", ["", "[2]"]), "; int c; } R;\n", Cho("u", ["R", "S"]), " *g(", Cho("w", ["R", "S"]), " *x, R y) { OS.g(y); return OS.x(x); }", M, " OS.g(g);", ME)
    go(chk, "locals in blocks", I, "int f() { ", t(), " x = OS.x; if (OS.c) { ", Cho("u", TY[:7]), " *x = OS.y; OS.g(x); } OS.g(x); return 1; }", M, " f();", ME)
