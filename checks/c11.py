"""C11: a diagnostic names the file, line and column of the offending text."""
from vf.common import *

def W(n):
    return z3.BitVecVal(n, 16)

def advance(pos, text):
    l, c = pos
    t = text if isinstance(text, str) else text.decode()
    n = t.count("\n")
    return (l + n, W(1 + len(t) - t.rfind("\n") - 1)) if n else (l, c + len(t))

def position(parts):
    """(line, column) after the parts, as z3 terms over their choices."""
    p = (W(1), W(1))
    for x in parts:
        if isinstance(x, (str, bytes)):
            p = advance(p, x)
        elif isinstance(x, Cho):
            alts = [advance(p, a) for a in x.alts]
            l, c = alts[-1]
            for i in range(len(alts) - 2, -1, -1):
                l, c = z3.If(B(x.name, i), alts[i][0], l), z3.If(B(x.name, i), alts[i][1], c)
            p = (l, c)
        else:
            p = z3.If(B(x.name, 10), p[0] + 1, p[0]), z3.If(B(x.name, 10), W(1), p[1] + 1)
    return p

def go(chk, note, before, after_, column=True, files=(), fn="a.c", must=True):
    """Every program before + after_ is wrong exactly at the start of after_."""
    sp = Spec()
    sp.note = note
    sp.pcs = True
    if fn == "a.c":
        sp.file("/w/a.c", *before, *after_)
    for n, *ps in files:
        sp.file(n, *ps)
    if fn != "a.c":
        sp.file("/w/" + fn, *before, *after_)
    line, col = position(before)
    def formula(res):
        if crashed(res):
            return "crash: " + crash_text(res)
        if res["code"] == 0:
            return "an error was not reported"
        e = res["err"].decode("utf-8", "replace")
        hits = re.findall(r"(?:^|[\s/])%s:(\d+):(\d+)" % re.escape(fn), e)
        if not hits:
            return "the diagnostic has no position in %s" % fn
        l, c = map(int, hits[0])
        return z3.And(line == l, col == c) if column else line == l
    def verdict(p):
        f = formula(p.res())
        if isinstance(f, str):
            return f, p.model
        m = counterexample(p, f)
        return ("wrong position", m) if m else None
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.code == 1 for p in ps))
        if len(chk.samples) < 6 and ps:
            chk.samples.append({"family": note, "diagnostic": ps[0].err().decode()[:120]})
        for p, r in zip(ps, pmap(verdict, ps)):
            chk.asserts += 1
            if r:
                def judge(res, inp, model):
                    f = formula(res)
                    s = z3.Solver()
                    s.add(*[z3.BitVec(k, 8) == v for k, v in model.items()])
                    if not isinstance(f, str):
                        s.add(z3.Not(f))
                        f = "wrong position" if s.check() == z3.sat else None
                    else:
                        s.check()
                    if f:
                        m = s.model()
                        return "%s: expected %s:%s:%s, got %r for %r" % (f, fn, m.eval(line, model_completion=True), m.eval(col, model_completion=True), res["err"].decode("utf-8", "replace").strip()[:160], inp["/w/" + fn].decode("utf-8", "replace"))
                replay(chk, sp, sp.render(r[1]), r[1], judge, r[0])
    later(chk, sp, None, after)

# @ marks the offending text; `line` only where the column is a matter of taste
ERR = [("int f() { return @y; }", 1), ("int f() { @g(); return 1; }", 1), ("int f() { int @x = 1; return 1; }", 1), ("int f(int a) { return a @* \"s\"; }", 1), ("int f(int a) { return @*a; }", 1), ("int f(int a) { return a@(); }", 0),
       ("int f(int a) { while (@fv()) {} return a; }\nvoid fv() {}", 1), ("@V x = 1;", 1), ("int f(@V *x) { return x == NULL; }", 1), ("int f() { OS.g(sizeof(@V)); return 1; }", 1), ("@int f() { OS.g(); }", 0), ("int f() { return 1 @}", 1), ("int f() { return 1 @2; }", 1),
       ("int f() { if @1 { } return 1; }", 1), ("@$", 1), ("int f() { OS.g(@'abc'); return 1; }", 1), ("int f() { OS.g(@0xg); return 1; }", 1), ("int f() { int x = 1; int @x = 2; OS.g(x); return 1; }", 1), ("@int f() { return 1; }", 1), ("typedef { int a @} T;", 1),
       ("enum { A = @}", 0), ("int f() { for (int i = 0; i @< fv(); i++) { } return 1; }\nvoid fv() {}", 1), ("pub int f() { return f2@(1); }\nint f2() { return 1; }", 0), ("pub int f(int *p) { return p @== 1; }", 1), ("enum { A }\n@enum { A }", 0), ("pub int f() { return 1; }\n@pub int f() { return 2; }", 0),
       ("pub int f() { switch (1) { case @x: { } } return 1; }", 1), ("pub int f() { @x = 1; return 1; }", 1), ("pub int f() { return 1 + @zz; }", 1), ("pub int f() { OS.g(1, @zz); return 1; }", 1), ("pub int f() { panic(\"x\", @zz); return 1; }", 1), ("pub int f() { if (OS.c) { OS.h(); } else { @zz(); } return 1; }", 1),
       ("int f() { int a[2] = {1, @zz}; OS.g(a); return 1; }", 1), ("T t = {.m = @zz};\ntypedef { int m; } T;", 1), ("int @3;", 1), ("typedef int @;", 1), ("int f(int @) { return 1; }", 1), ("int f() { return (1 @; }", 1), ("int f() { OS.x[1@; return 1; }", 1), ("pub int f() { while (@1) { } return 1; }", 1), ("pub int f() { while (@'x') { } return 1; }", 1), ("pub int f() { for (;@1.5;) { } return 1; }", 1), ("pub int f() { while (@-1) { } return 1; }", 1), ("pub int f() { while (@(double) 1) { } return 1; }", 1), ("pub int f() { OS.g(f@[1]); return 1; }", 0)]
MAIN = "\nint main() { return 0; }\n"

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on wrong programs with symbolic blanks, line breaks, comments and literals before the error; the line and column of the offending text are SMT terms over those symbols and the solver "
                   "decides that every path reports exactly them.")
    chk.assumptions = ["columns count characters from 1; a tab is one character", "for some errors only the line is judged (which token of a declaration or call is blamed is a matter of taste)"]
    # every error after symbolic blanks and comments
    G = ["\n", " ", "\t", "// x\n", "/* y */", "/*\n*/"]
    for e, c in ERR:
        a, b = e.split("@")
        i = a.rfind(" ") + 1
        go(chk, "at " + e.replace("\n", " "), [Cho("g", G), Cho("h", G), a[:i], Cho("k", ["", "\n", "\n\n", "/*\n*/"]), a[i:]], [b, MAIN], column=bool(c))
    # a comment, string or macro of arbitrary content before the error
    ALL = bytes(range(32, 127)) + b"\n\t"
    NC = bytes(x for x in ALL if x != ord("/"))
    k = 5 if th else 4
    v = lambda al: [Sym("v%d" % i, al) for i in range(k)]
    go(chk, "after an arbitrary comment", ["/*", *v(NC), "*/ int f() { return "], ["y; }", MAIN])
    NQ = bytes(x for x in ALL if x not in b"\"\\")
    go(chk, "after an arbitrary string", ["pub int f() { OS.g(\"", *v(NQ), "\", "], ["y); return 1; }", MAIN])
    go(chk, "after a string with escapes", ["pub int f() { OS.g(\"", Cho("a", ["\\n", "\\\\", "\\\"", "\\\n", "a\n", "\n\n"]), Cho("b", ["\\n", "\\\\", "\\\"", "\\\n", "a\n"]), "\" \"x\"", Cho("c", [" ", "\n"]), "\"y\", "], ["y); return 1; }", MAIN])
    NL = bytes(x for x in ALL if x != 10)
    go(chk, "after an arbitrary line comment", ["//", *v(NL), "\nint f() { return "], ["y; }", MAIN])
    go(chk, "after a macro", ["#define X ", Cho("m", ["1", "\"a\"", "(1 + 2)", "'x'"]), Cho("g", G[:3]), "\n", Cho("h", G), "pub int f() { return X + "], ["y; }", MAIN])
    go(chk, "after imports", ["#import b.c\n", Cho("g", G), "#import c.c\n", Cho("h", G), "pub int f() { return b.f() + c.f() + "], ["y; }", MAIN], files=[("/w/b.c", "pub int f() { return 1; }"), ("/w/c.c", "pub int f() { return 1; }")])
    go(chk, "unused imports", [Cho("g", G), "#import b.c\n", Cho("h", G)], ["#import c.c\npub int f() { return b.f(); }", MAIN], files=[("/w/b.c", "pub int f() { return 1; }"), ("/w/c.c", "pub int f() { return 1; }")])
    go(chk, "names of other modules", ["#import b.c\n", Cho("g", G), Cho("h", G), "pub int f() { return "], ["b.nope(); }", MAIN], files=[("/w/b.c", "pub int f() { return 1; }")])
    go(chk, "after text beyond ASCII", [Cho("g", ["/* é */", "/* éé */", "// ж\n", "/* 漢字 */", "/* a */"]), "pub int f() { OS.g(\"", Cho("h", ["é", "ж漢", "a", ""]), "\", "], ["y); return 1; }", MAIN])
    # errors in imported modules are attributed to them
    for d, imp in (("b.c", "#import b.c\n"), ("d/b.c", "#import d/b.c\n")):
        for e, c in ERR[:3] + ERR[11:13]:
            a, b = e.split("@")
            go(chk, "in %s: %s" % (d, e), [Cho("g", G), "pub int h() { return 1; }", Cho("h", G), a.replace("int f", "pub int f")], [b], column=bool(c), fn=d, files=[("/w/a.c", imp + "\n\n\n/* */ int main() { return b.h(); }\n")])
    # blanks within the statement
    tok = ["pub", "int", "f", "(", "int", "a", ")", "{", "OS.g", "(", "a", ",", "1", ")", ";", "if", "(", "a", "==", "2", ")", "{", "return", "a", "+"]
    for i in range(0, len(tok), 3):
        parts = []
        for j, t in enumerate(tok):
            parts += [t, Cho("g", [" ", "\n", "\t", "\n\n ", " /*\n\n*/ "]) if j in (i, i + 1) and j == i else Cho("h", [" ", "\n ", "//\n", "\n\t\n"]) if j == i + 1 else " "]
        go(chk, "blanks after token %d" % i, parts, ["zz; } return 1; }", MAIN])
