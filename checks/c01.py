"""C01: the generated C computes what the source expression says under C's own precedence and grouping."""
from vf.common import *

OPS = "+ - * / % << >> < > <= >= == != & ^ | && ||".split()
LEVEL = "- * << < == & ^ | && ||".split()

def judge_body(fname="f", must=None, nfiles=1, loop=3):
    head = re.compile(r"[^;}]*\b%s ?\([^()]*\) ?\{" % fname)
    body_of = lambda src: src.decode("utf-8", "replace")[head.search(src.decode("utf-8", "replace")).end():].strip()
    def judge(res, inp, model):
        src = inp["/w/a.c"]
        S = first(cmini.parse_che(src), "func", fname)
        try:
            want = sem.Sem(lambda n: n.rsplit(".", 1)[-1], loop=loop)
            ws = want.func(S)
        except sem.Unsupported:
            return None      # not a C expression (e.g. `&(a + b)`): nothing to preserve
        if crashed(res):
            return "compiler crash on well-formed code: %s: %s" % (body_of(src)[:120], crash_text(res)) if must and must(model) else None
        if res["code"] != 0:
            if must and must(model):
                return "well-formed code rejected: %s: %s" % (body_of(src)[:120], res["err"].decode()[:160].strip())
            return None
        text = body_of(src)
        lines = [i + 1 for i, l in enumerate(src.decode("utf-8", "replace").splitlines()) for _ in re.findall(r"\bpanic\b", l)]
        where = lambda t: any("a.c:%d:" % n in t for n in lines)
        outs = [v for k, v in res["files"].items() if k.startswith("/w/out/")]
        if len(outs) != nfiles:
            return "expected %d generated file(s) for: %s" % (nfiles, text)
        outs = [v for v in outs if fname.encode() + b" (" in v or fname.encode() + b"(" in v]
        try:
            O = None
            for v in outs:
                O = first(cmini.parse_c(v), "func", fname)
                if O:
                    outs = [v]
                    break
        except cmini.CErr as e:
            return "generated C is malformed (%s) for: %s" % (e, text)
        if O is None:
            return "function missing from the output: " + text
        body = cfunc_text(outs[0], O["name"])
        try:
            d = sem.differ(ws, sem.Sem(canon, loop=loop, c=True).func(O), where=where)
        except sem.Unsupported as e:
            return "generated C is not a valid expression (%s): %s => %s" % (e, text, body)
        if d:
            vals = ", ".join("%s=%s" % (x.name(), d[0][x]) for x in d[0].decls() if x.arity() == 0 and d[0][x].sort().kind() == 4 - 0) if False else ""
            return "meaning changed (%s%s): source `%s` generated `%s`" % (d[1], vals, text, body)
        return None
    return judge

def cfunc_text(b, name):
    t = b.decode("utf-8", "replace")
    i = t.rfind(" " + name + " (")
    return " ".join(t[i:].split("{", 1)[1].split()) if i >= 0 else ""

def go(chk, note, *parts, must=None, fname="f"):
    sp = Spec()
    sp.note = note
    sp.file("/w/a.c", *parts)
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st == "exit" and p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:160]})
    later(chk, sp, judge_body(fname, must), after)

MAIN = "\nint main() { return f(1, 2, 3); }\n"
MAIN4 = "\nint main() { return f(1, 2, 3, 4); }\n"
ARITH = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"}

def run(chk):
    chk.explain = ("Real compiler (whole program, LLVM IR) executed symbolically on source templates whose operators, groupings and operand forms are symbolic; "
                   "for every path the generated function and the source function are encoded in SMT (8-bit values, array memory, calls as events) and the solver decides that no operand values separate them.")
    chk.assumptions = ["HashMap hashes are a constant (iteration order is C16's subject)", "values are 8-bit in the equivalence queries",
                       "operands are evaluated left to right on both sides", "the oracle's reader of C (vf/cmini.py) implements C's expression grammar"]
    th = chk.tier == "thorough"
    arith = lambda ops: (lambda m: all(ops[m[k]] in ARITH for k in m if k.startswith("o")))
    P3 = "int f(int a, b, c) { return "
    go(chk, "a o b o c", P3, "a ", Cho("o1", OPS), " b ", Cho("o2", OPS), " c; }", MAIN, must=arith(OPS))
    go(chk, "a o (b o c)", P3, "a ", Cho("o1", OPS), " (b ", Cho("o2", OPS), " c); }", MAIN, must=arith(OPS))
    go(chk, "(a o b) o c", P3, "(a ", Cho("o1", OPS), " b) ", Cho("o2", OPS), " c; }", MAIN, must=arith(OPS))
    P4 = "int f(int a, b, c, d) { return "
    o3 = OPS if th else LEVEL
    o = lambda i: Cho("o%d" % i, o3)
    L3 = arith(o3)
    go(chk, "a o b o c o d", P4, "a ", o(1), " b ", o(2), " c ", o(3), " d; }", MAIN4, must=L3)
    for note, q in (("a o (b o (c o d))", ["a ", o(1), " (b ", o(2), " (c ", o(3), " d)); }"]),
                    ("a o ((b o c) o d)", ["a ", o(1), " ((b ", o(2), " c) ", o(3), " d); }"]),
                    ("(a o b) o (c o d)", ["(a ", o(1), " b) ", o(2), " (c ", o(3), " d); }"]),
                    ("(a o (b o c)) o d", ["(a ", o(1), " (b ", o(2), " c)) ", o(3), " d; }"])):
        go(chk, note, P4, *q, MAIN4, must=L3)
    # unary, postfix, member, index, call, cast and sizeof around operands of unknown type
    X = "OS.r = "
    M = "\nint main() { f(); return 0; }\n"
    PRE = ["", "-", "~", "!", "*", "&", "++", "--", "- ", "(int)", "(char *)", "(T)", "(T *)"]
    POST = ["", "++", "--", "[OS.i]", ".m", "->m", "(OS.i)", "[1].m"]
    T = "typedef { int m; } T;\nvoid f() { "
    go(chk, "p(q x)s", T, X, Cho("p", PRE), "(", Cho("q", PRE), "OS.x)", Cho("s", POST), "; }", M)
    go(chk, "p q x s", T, X, Cho("p", PRE), " ", Cho("q", PRE), " OS.x", Cho("s", POST), "; }", M)
    go(chk, "p(x t)s", T, X, Cho("p", PRE), "(OS.x", Cho("t", POST), ")", Cho("s", POST), "; }", M)
    BO = ["", "+ OS.y", "- OS.y", "* OS.y", "& OS.y", "&& OS.y", "= OS.y", "== OS.y", "<< OS.y", "|| OS.y"]
    go(chk, "p(x o y)s", T, X, Cho("p", PRE), "(OS.x ", Cho("b", BO), ")", Cho("s", POST), "; }", M)
    go(chk, "(p x) o (q y)", T, X, "(", Cho("p", PRE), "OS.x) ", Cho("o1", LEVEL), " (", Cho("q", PRE), "OS.y); }", M)
    go(chk, "x s o y t", T, X, "OS.x", Cho("s", POST), " ", Cho("o1", OPS), " OS.y", Cho("t", POST), "; }", M)
    go(chk, "(p(x)s)t", T, X, "(", Cho("p", PRE), "(OS.x)", Cho("s", POST), ")", Cho("t", POST), "; }", M)
    AS = "= += -= *= /= %= &= ^= |= <<= >>=".split()
    AS1 = [a for a in AS if a not in ("<<=", ">>=")]
    go(chk, "x a y o z", T, "OS.x ", Cho("a", AS), " OS.y ", Cho("o1", OPS), " OS.z; }", M, must=lambda m: True)
    go(chk, "x a (y b z)", T, "OS.x ", Cho("a", AS1), " (OS.y ", Cho("b", AS1), " OS.z); }", M)
    go(chk, "x = y b z", T, "OS.x = OS.y ", Cho("b", AS1), " OS.z; }", M)
    go(chk, "(x a y) o z", T, "OS.r = (OS.x ", Cho("a", AS1), " OS.y) ", Cho("o1", OPS), " OS.z; }", M)
    go(chk, "x o (y a z)", T, "OS.r = OS.x ", Cho("o1", OPS), " (OS.y ", Cho("a", AS1), " OS.z); }", M)
    go(chk, "ps x a y", T, Cho("p", ["", "*", "++", "--"]), "OS.x", Cho("s", ["", "[OS.i]", ".m", "->m", "[OS.i].m", "->m[OS.i]"]), " ", Cho("a", AS1), " OS.y; }", M)
    # sizeof and contexts
    SZ = ["sizeof(OS.x)", "sizeof(T)", "sizeof(T *)", "sizeof(int)", "sizeof(*OS.x)", "nelem(OS.x)"]
    go(chk, "p sizeof o y", T, X, Cho("p", PRE[:4]), Cho("z", SZ), " ", Cho("o1", OPS), " OS.y; }", M)
    CTX = ["OS.g(%s);", "OS.g(1, %s);", "OS.v[%s] = 1;", "if (%s) { OS.h(); }", "while (%s) { OS.h(); }", "for (OS.i = %s; OS.i; OS.i++) { OS.h(); }",
           "for (; %s; OS.i++) { OS.h(); }", "for (; OS.i; %s) { OS.h(); }", "int v = %s; OS.g(v);", "switch (%s) { case 1: { OS.h(); } }", "T v = {.m = %s}; OS.g(v);", "int v[] = {%s, 2}; OS.g(v);",
           "OS.r = OS.g(OS.k(%s));", "OS.r = ((%s));"]
    for c in CTX:
        a, b = c.split("%s")
        go(chk, "context " + c, T, a, "(OS.x ", Cho("o1", LEVEL), " OS.y) ", Cho("o2", LEVEL), " -OS.z", b, " }", M)
