"""C10: operators, calls and dereferences are checked against the operands' types."""
from vf.common import *
from .c05 import go as judged

HEAD = """#import b.c
typedef { int m; char *s; int *q; } T;
typedef int F(int, char *);
typedef { int k; F *cb; T t; T *next; int arr[4]; } R;
typedef int U;
enum { A = 1 }
int mi = 1;
char *ms = NULL;
int fi() { return mi; }
char *fs() { return ms; }
int *fp() { return OS.x; }
double fd() { return OS.x; }
size_t fz() { return OS.x; }
void fv() { OS.h(); }
T *ft() { return OS.x; }
int f2(int x, y) { OS.g(x, y); return 1; }
int fvar(char *fmt, ...) { OS.g(fmt); return 1; }
int fmany(int x, char *y, int z, w) { OS.g(x, y, z, w); return 1; }
"""
B_ = "pub int one(int x) { return x; }\npub int two(int x, char *y) { OS.g(x, y); return 1; }\npub int none() { return 1; }\npub int many(char *fmt, int a, ...) { OS.g(fmt, a); return 1; }\npub char *str() { return OS.x; }\npub void nothing() { OS.h(); }\n"
PAR = "int f(int i, size_t z, double d, char c, char *s, int *p, int **pp, T *tp, R *r, F *cb, U u, uint8_t u8, int64_t i64, bool bo, float fl) {\nT t = {}; int a[3] = {}; char *sa[2] = {}; T ta[2] = {};\nOS.use(i, z, d, c, s, p, pp, tp, r, cb, u, u8, i64, bo, fl, t, a, sa, ta, fi, fs, fp, fd, fz, fv, ft, f2, fvar, fmany, A, b.one, b.two, b.none, b.many, b.str, b.nothing);\n"
TAIL = "\nreturn 1;\n}\nint main() { OS.g(f); return 0; }\n"

# (expression, class): I signed, Z unsigned, D floating, C char, P pointer, L array, S struct, B bool, V void, N constant, F function
E = [("i", "I"), ("z", "Z"), ("d", "D"), ("c", "C"), ("s", "P"), ("p", "P"), ("t", "S"), ("bo", "B"), ("fv()", "V"), ("1", "N"), ("a", "L"), ("u", "?"),
     ("pp", "P"), ("tp", "P"), ("u8", "Z"), ("i64", "I"), ("fl", "D"), ("fi()", "I"), ("fs()", "P"), ("fp()", "P"), ("fd()", "D"), ("fz()", "Z"), ("ft()", "P"), ("*p", "I"), ("*pp", "P"), ("**pp", "I"), ("p[1]", "I"), ("pp[1]", "P"), ("a[1]", "I"), ("sa[1]", "P"),
     ("ta[1]", "S"), ("ta", "L"), ("s[1]", "C"), ("*s", "C"), ("tp->m", "I"), ("t.s", "P"), ("tp->q", "P"), ("r->k", "I"), ("r->next", "P"), ("r->t", "S"), ("r->arr", "L"), ("r->arr[1]", "I"), ("&i", "P"), ("&t", "P"), ("&p", "P"), ("-i", "I"), ("-d", "D"), ("~z", "Z"), ("i++", "I"),
     ("p++", "P"), ("--i", "I"), ("(int) z", "I"), ("(char *) p", "P"), ("(double) i", "D"), ("(size_t) i", "Z"), ("'x'", "C"), ("\"s\"", "P"), ("sizeof(i)", "Z"), ("(i + 1)", "?"), ("(p + 1)", "P"), ("(p + i)", "P"), ("(i * 2)", "I"), ("(z * z)", "Z"), ("*ft()", "S"), ("ft()->m", "I"), ("b.one(1)", "I"), ("b.str()", "P"), ("b.nothing()", "V"),
     ("cb(1, s)", "I"), ("r->cb(1, s)", "I"), ("mi", "I"), ("ms", "P"), ("strlen(s)", "Z"), ("&a[1]", "P"), ("*&i", "I"), ("&*p", "P"), ("(*tp).m", "I"), ("(&t)->s", "P"), ("*sa[0]", "C"), ("!p", "B"), ("(i == 1)", "B"), ("(2 + 3)", "N"), ("A", "?"), ("OS.x", "?")]
OPS = ["*", "<<", "&", "+", "-", "==", "<", "&&"]

def rule(op, x, y):
    """True: legal and has to be accepted; False: nonsense that has to be rejected; None: not promised either way."""
    if "?" in (x, y):
        return None
    if "V" in (x, y) or "S" in (x, y) or "F" in (x, y):
        return False
    num = "IZDN"
    if op in ("*", "<<", "&", "/", "%", ">>", "|", "^"):
        if "P" in (x, y) or "L" in (x, y):
            return False
        if op not in ("*", "/") and "D" in (x, y):
            return None
        return True if x in num and y in num and not {x, y} == {"D", "I"} and not {x, y} == {"D", "Z"} and not {x, y} == {"I", "Z"} else None
    if op in ("+", "-"):
        if x == y == "P":
            return op == "-"
        if x in "PL":
            return False if y in "DP" else True if y in "INZ" and x == "P" else None
        if y in "PL":
            return False if op == "-" or x == "D" else True if x in "INZ" and y == "P" else None
        return True if x in num and y in num and (x == y or "N" in (x, y)) else None
    if op in ("==", "<", "!=", ">", "<=", ">="):
        if x == y == "P":
            return True
        if "P" in (x, y) and (x in "IZDNC" or y in "IZDNC"):
            return False
        return True if (x == y and x in "IZDCN") or ("N" in (x, y) and (x in "IZDC" and y in "NIZDC")) or (x == "N" and y in "IZDC") else None
    if op in ("&&", "||"):
        return True if x in "PIZB" and y in "PIZB" else None

def pair(chk, note, ex, ey, ops, wrap=("OS.r = ", ";")):
    sp = Spec()
    sp.note = note
    sp.pcs = True
    sp.file("/w/a.c", HEAD + PAR + wrap[0], Cho("x", [e for e, _ in ex]), " ", Cho("o", ops), " ", Cho("y", [e for e, _ in ey]), wrap[1] + TAIL)
    sp.file("/w/b.c", B_)
    free, bad = [], []
    for i, (_, a) in enumerate(ex):
        for j, (_, b) in enumerate(ey):
            for k, o in enumerate(ops):
                r = rule(o, a, b)
                if r is not True:
                    (bad if r is False else free).append((i, k, j))
    f = lambda l: z3.Or(*[z3.And(B("x", i), B("o", k), B("y", j)) for i, k, j in l])
    three(chk, sp, f(bad), f(free))

def three(chk, sp, bad, free):
    """Accepted => not bad; rejected => bad or free."""
    def formula(res):
        if crashed(res):
            return "crash: " + crash_text(res)
        if res["code"] == 0:
            return z3.Not(bad)
        return z3.Or(bad, free) if res["err"].strip() else "rejected without a diagnostic"
    def verdict(p):
        f = formula(p.res())
        if isinstance(f, str):
            return f, p.model
        m = counterexample(p, f)
        return ("correctly typed code is rejected" if p.code else "a type error is accepted", m) if m else None
    def after(ps):
        chk.bounds.append("%s: %d paths" % (sp.note, len(ps)))
        chk.vacuity(sp.note + ": accepted", any(p.code == 0 for p in ps))
        chk.vacuity(sp.note + ": rejected", any(p.code == 1 for p in ps))
        for p, r in zip(ps, pmap(verdict, ps)):
            chk.asserts += 1
            if r:
                def judge(res, inp, model):
                    f = formula(res)
                    if not isinstance(f, str):
                        s = z3.Solver()
                        s.add(z3.Not(f), *[z3.BitVec(k, 8) == v for k, v in model.items()])
                        f = r[0] if s.check() == z3.sat else None
                    if f:
                        t = inp["/w/a.c"].decode().split("b.nothing);\n")[-1].split("\nreturn 1;\n}\nint main")[0]
                        return "%s: `%s`: exit %s %s" % (f, re.sub(" +", " ", t), res["code"], res["err"].decode()[:160].strip())
                replay(chk, sp, sp.render(r[1]), r[1], judge, r[0])
    later(chk, sp, None, after)

def one(chk, note, pre, alts, post):
    """alts: (text, True|False|None)."""
    sp = Spec()
    sp.note = note
    sp.pcs = True
    sp.file("/w/a.c", HEAD + PAR + pre, Cho("x", [a for a, _ in alts]), post + TAIL)
    sp.file("/w/b.c", B_)
    three(chk, sp, z3.Or(*[B("x", i) for i, (_, r) in enumerate(alts) if r is False]), z3.Or(*[B("x", i) for i, (_, r) in enumerate(alts) if r is None]))

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on operators, calls and dereferences whose operator and operand expressions are symbolic; per path the solver decides that what is accepted is no type error and that what is "
                   "rejected is not a correctly typed combination, from a table of C's type rules.")
    chk.assumptions = ["combinations C allows but the dialect does not promise (char arithmetic, mixed signedness in sums, bool arithmetic, array operands) are not judged"]
    REP = E[:11]
    ALLOPS = "* / % << >> & | ^ + - == != < > <= >= && ||".split()
    pair(chk, "operators on basic operands", REP, REP, OPS)
    pair(chk, "every operator", [E[i] for i in (0, 4, 8)], [E[i] for i in (0, 5, 9)], ALLOPS)
    R6 = [E[i] for i in (0, 4, 9)]
    OPS5 = OPS if th else ["*", "+", "-", "==", "&&"]
    pair(chk, "every expression form on the left", E, R6, OPS5)
    pair(chk, "every expression form on the right", R6, E, OPS5)
    if th:
        pair(chk, "all pairs", E, E, ["*", "+", "-", "=="])
    for c in ["if (OS.k(%s)) { OS.h(); }", "OS.g(1, %s);", "return %s;", "int q = %s; OS.g(q);", "a[%s] = 1;", "p[i] = %s;", "OS.g((%s) == OS.x);", "for (i = %s; OS.c; OS.h()) { }", "switch (%s) { case 1: { OS.h(); } }", "T q = {.m = %s}; OS.g(q);", "OS.r = OS.t[OS.g(%s)];", "i += %s;", "panic(\"x\", %s);"]:
        a, b = c.split("%s")
        pair(chk, "in " + c.replace("%s", "x o y"), [E[i] for i in (1, 5, 8)], [E[i] for i in (1, 4, 9)], ["*", "+", "=="], (a, b))
    # conditions
    CL = [(e, True if c in "PIZB" else False if c in "VS" else None) for e, c in E if c != "?"]
    for c in ["while (%s) { OS.h(); }", "for (; %s; OS.h()) { }", "OS.r = %s && i;", "OS.r = i || %s;"]:
        a, b = c.split("%s")
        one(chk, "condition in " + c.replace("%s", "x"), a, [("(" + e + ")", r) for e, r in CL], b)
    # dereference
    DL = [("*" + ("(%s)" % e if re.search(r"^\(\w+ ?\*?\)| \S ", e) else e), True if c == "P" and not e.startswith("&*") else None if c in "L?" or e == "*pp" else False) for e, c in E if not e.startswith("&")]
    DL = [(e, None if e in ("*p++", "*(2 + 3)") else r) for e, r in DL]
    DL = [(e, True) if e == "**pp" else (e, r) for e, r in DL]
    one(chk, "dereference", "OS.r = ", [(e, r) for e, r in DL if not e.startswith("*-") and not e.startswith("*~")], ";")
    one(chk, "dereferenced target", "", [(e, r) for e, r in DL if re.fullmatch(r"\*[\w.>()\[\]-]+", e)], " = 1;")
    # calls
    NF = [(e + "()", False) for e in ("i", "z", "d", "c", "s", "p", "pp", "tp", "t", "a", "1", "\"s\"", "'x'", "mi", "ms", "fi()", "tp->m", "t.s", "p[1]", "(i + 1)", "(&i)", "(*p)", "r->t", "b.none()", "strlen(s)", "u")]
    one(chk, "calls of values", "OS.g(", NF + [("fi()", True)], ");")
    ARG = ["", "1", "1, s", "1, s, 3", "1, s, 3, 4", "1, s, 3, 4, 5"]
    FN = [("fi", 0, 0), ("f2", 2, 2), ("fvar", 1, 9), ("fmany", 4, 4), ("b.one", 1, 1), ("b.two", 2, 2), ("b.none", 0, 0), ("b.many", 2, 9), ("cb", 2, 2), ("r->cb", 2, 2), ("strlen", 1, 1), ("memcpy", 3, 3), ("exit", 1, 1), ("printf", 1, 9), ("strcmp", 2, 2), ("isdigit", 1, 1), ("ft()->m + f2", 2, 2), ("fv", 0, 0), ("(f2)", 2, 2)]
    for c in ["OS.g(%s);", "%s;", "OS.r = OS.y + %s + OS.z;", "if (%s) { OS.h(); }", "while (OS.c) { if (OS.d) { %s; } }", "OS.g(OS.k(%s));", "return OS.g(%s);", "OS.r = %s;", "OS.r = OS.t[%s];", "switch (%s) { case 1: { OS.h(); } }", "int q = OS.g(%s); OS.g(q);", "for (int q = OS.g(%s); q; q++) { }", "for (; OS.c; %s) { }", "OS.r = (char *) %s;", "T q = {.m = %s}; OS.g(q);", "OS.r = !%s;"][::1 if th else 2]:
        a, b = c.split("%s")
        sp = Spec()
        sp.note = "arguments in " + c.replace("%s", "f()")
        sp.pcs = True
        fns = [f for f in FN if not (c in ("%s;", "while (OS.c) { if (OS.d) { %s; } }", "for (; OS.c; %s) { }", "OS.r = (char *) %s;", "OS.r = !%s;") and "+" in f[0]) and not ("*" in c and f[0] == "fv")]
        sp.file("/w/a.c", HEAD + PAR + a, Cho("x", [f[0] for f in fns]), "(", Cho("y", ARG), ")", b + TAIL)
        sp.file("/w/b.c", B_)
        bad = z3.Or(*[z3.And(B("x", i), B("y", j)) for i, f in enumerate(fns) for j in range(len(ARG)) if not f[1] <= j <= f[2]])
        void = z3.Or(*[B("x", i) for i, f in enumerate(fns) if f[0] == "fv" or f[0] == "exit"])
        three(chk, sp, bad, z3.Or(void, *[z3.And(B("x", i), B("y", j)) for i, f in enumerate(fns) for j in range(len(ARG)) if "ft()" in f[0] or f[0] in ("memcpy",)]))
