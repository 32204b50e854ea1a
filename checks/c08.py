"""C08: string, character and number literals keep their C meaning wherever they are written."""
from vf.common import *
from .c01 import judge_body

M = "\nint main() { f(); return 0; }\n"

def okstr(*ns):
    """The characters form one string literal that has to be accepted."""
    return lambda m: re.fullmatch(r'(?:[^"\\]|\\[abfnrtv\\\'"?0-7\n]|\\x[0-9a-fA-F])*', "".join(chr(m[n]) for n in ns), re.S) is not None

def okchr(*ns):
    return lambda m: re.fullmatch(r"[^'\\\n]|\\[abfnrtv\\'\"?0-7]", "".join(chr(m[n]) for n in ns)) is not None

def go(chk, note, *parts, must=lambda m: True, split=True):
    sp = Spec()
    sp.note = note
    sp.pcs = not split
    sp.file("/w/a.c", *parts)
    if split:
        sp.split = sp.vars()
    j = judge_body("f", must)
    def judge(res, inp, model):
        try:
            return j(res, inp, model)
        except cmini.CErr:
            return None       # the source itself is not C's spelling of a literal (unterminated, unknown escape)
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st == "exit" and p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:160]})
        if not split:
            for p in ps:
                raw(chk, sp, p, judge)
    later(chk, sp, judge, after)

def raw(chk, sp, p, judge):
    """Bytes that stayed symbolic on this path: the solver decides that each symbolic output byte equals the source byte it stands for, for all values; a
    disagreement is judged on the concrete literal before it is reported (an equivalent spelling is fine)."""
    if p.st != "exit" or p.code != 0:
        return
    names = sp.vars()
    src = [z3.BitVec(n, 8) for n in names]
    sym = {k: t for k, t in p.symbolic().items() if k[0].startswith("/w/out/")}
    out = [v for k, v in p.files().items() if k.startswith("/w/out/")][0]
    fn = [k for k in p.files() if k.startswith("/w/out/")][0]
    i = out.rfind(b"\ng") if out.rfind(b"\ng(") >= 0 else 0
    # the content between the markers < and >
    a, b = out.rfind(b"<[") + 2, out.rfind(b"]>")
    content = []
    for k in range(a, b):
        t = sym.get((fn, k))
        content.append(z3.BitVecVal(out[k], 8) if t is None else z3.parse_smt2_string("(declare-const zz (_ BitVec 8)) (assert (= zz %s))" % t, decls={n: z3.BitVec(n, 8) for n in names})[0].arg(1))
    chk.asserts += 1
    if len(content) == len(src):
        m = counterexample(p, z3.And(*[x == y for x, y in zip(content, src)]))
        if m is None:
            return
        cx = [m]
    else:
        cx = [p.model]
    for m in cx:
        replay(chk, sp, sp.render(m), m, judge, "literal changed")

ALPHA = b"an\\\"\nx40?%' 7"
CTX = ["OS.g(%s);", "OS.r = %s;", "const char *s = %s; OS.g(s);", "OS.g(1, OS.k(%s), 2);", "char *s[] = {%s, NULL}; OS.g(s);", "T t = {.m = %s}; OS.g(t);", "return %s;", "OS.g(%s[1]);", "if (OS.a == %s) { OS.h(); }",
       "switch str (OS.s) { case %s: { OS.h(); } default: { OS.k(1); } }", "switch str (OS.s) { case \"z\", %s: { OS.h(); } default: { OS.k(1); } }", "OS.g((char *) %s);", "OS.r = *%s;", "char s[] = %s; OS.g(s);", "OS.g(sizeof(%s));", "while (OS.c) { OS.g(%s); break; }"]

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on literals made of symbolic characters; per path the source and the generated function are encoded in SMT with literals decoded by C's rules and the solver decides they are equal; "
                   "characters that stay symbolic are compared as SMT terms over all their values.")
    chk.assumptions = ["literals are compared by the bytes C's escape rules give them", "source characters are ASCII or two-byte UTF-8"]
    T = "typedef { char *m; } T;\nchar *f() { OS.h(); "
    MS = "\nint main() { T q = {}; OS.g(q); f(); return 0; }\n"
    s = lambda n, al=ALPHA: Sym(n, al)
    END = " return OS.e; }"
    go(chk, "three characters in a string", T, "OS.g(\"", s("a"), s("b"), s("c"), "\");", END, MS, must=okstr(*"abc"))
    go(chk, "two strings in a row", T, "OS.g(\"", s("a", b"a\\\"x4"), s("b", b"a\\\"x40"), "\"", Cho("w", [" ", "\n", "", "\n\t "]), "\"", s("c", b"a\\\"4n"), "\");", END, MS, must=lambda m: okstr("a", "b")(m) and okstr("c")(m))
    go(chk, "three strings in a row", T, "OS.g(\"", s("a", b"a\\1"), s("b", b"a1x"), "\" \"", s("c", b"a1"), "\"\n\"", s("d", b"a1"), "\");", END, MS, must=okstr("a", "b"))
    for c in CTX:
        a, b = c.split("%s")
        go(chk, "string in " + c.replace("%s", "s"), T, a, "\"", s("a", b"an\\\"\n4?%'"), s("b", b"an\\\"\n4%"), "\"", b, END, MS, must=lambda m, c=c: okstr("a", "b")(m))
    # every printable character, escapes, lengths
    ALL = bytes(range(32, 127)) + b"\t"
    for k in ((1, 2) if not th else (1, 2, 3, 4)):
        go(chk, "%d arbitrary characters in a string" % k, T, "OS.g(\"<[", *[s("v%d" % i, ALL) for i in range(k)], "]>\");", END, MS, split=False, must=okstr(*["v%d" % i for i in range(k)]))
    U = ["é", "ß", "ж", "漢"[:0] + "Ω", "\\n"]
    go(chk, "characters beyond ASCII", T, "OS.g(\"", Cho("a", U), Cho("b", U), Cho("c", U), "\");", END, MS)
    go(chk, "module level strings", "const char *g[] = {\"", s("a", b"an\\\"\n4%"), s("b", b"an\\\"\n4%"), "\", \"q\"};\n" + T, "OS.g(\"", s("a", b"an\\\"\n4%"), s("b", b"an\\\"\n4%"), "\", g);", END, MS, must=okstr("a", "b"))
    # characters
    CA = b"an\\'\"\n0x? t%7"
    I = "int f(int v) { OS.h(); "
    MI = "\nint main() { return f(1); }\n"
    for c in ["OS.g(%s);", "return %s;", "switch (v) { case %s: { OS.h(); } case 99: { OS.k(1); } }", "switch (v) { case 98, %s: { OS.h(); } default: { OS.k(1); } }", "int w = %s; OS.g(w);", "char w[] = {%s, 0}; OS.g(w);", "OS.g(OS.t[%s]);", "if (v == %s) { OS.h(); }",
              "OS.r = OS.x + %s;", "int w[] = {[%s] = 1}; OS.g(w);", "OS.g(-%s);"]:
        a, b = c.split("%s")
        go(chk, "one character in " + c.replace("%s", "c"), I, a, "'", s("a", CA), "'", b, " return v; }", MI, must=okchr("a"))
        go(chk, "two characters in " + c.replace("%s", "c"), I, a, "'", s("a", CA), s("b", CA), "'", b, " return v; }", MI, must=okchr("a", "b"))
    go(chk, "next to other tokens", I, "OS.g('", s("a", CA), s("b", CA), "'", Cho("o", ["==", "<", "", ",", ",1,"]), "'", s("c", b"a\\'"), "');", " return v; }", MI, must=lambda m: okchr("a", "b")(m) and okchr("c")(m) and m["o"] != 2)
    # numbers
    D = "017"
    NUM = ["0", "1", "7", "9", "10", "012", "0x1", "0xfF", "0x0aB", "123456789", "2147483648", "4294967296", "18446744073709551615", "0xffffffff", "0x8000000000000000", "1U", "1L", "1UL", "1LL", "1ULL", "0x1UL", "1.0", "1.", "0.5", "1.5f", "1e3", "1E3", "1e-3", "1e+3", "1.5e2",
           "1.25e-2f", "1.5L", "100e0", "3.14159265358979", "0.1", "00", "0x0", "0xdeadBEEF", "017L", "1.e5"]
    for c in ["OS.g(%s);", "return %s;", "OS.r = -%s;", "OS.r = OS.x-%s;", "OS.r = OS.x+%s;", "OS.r = %s-OS.x;", "OS.r = %s+OS.x;", "OS.r = %s*-1;", "int w[] = {%s, 2}; OS.g(w);", "OS.g(1,%s,2);", "OS.r = (char) %s;", "OS.r = OS.t[%s];", "switch (v) { case %s: { OS.h(); } case 99: { OS.k(1); } }", "OS.r = !%s;", "for (int i=%s;i<%s;i++) { OS.g(i); }"]:
        q = c.split("%s")
        isint = "case" in c or "OS.t[" in c or "for" in c
        N = [n for n in NUM if not isint or not re.search(r"[.eE]", n) or n.startswith("0x")]
        ps = [q[0]]
        for x in q[1:]:
            ps += [Cho("n", N), x]
        go(chk, "number in " + c.replace("%s", "1"), I.replace("OS.h(); ", ""), *ps, " return v; }", MI)
    # every digit sequence of a form
    DG = lambda n, al=b"0179": s(n, al)
    H = b"09aFe"
    for note, ps, must in (("decimal digits", [DG("a"), DG("b"), DG("c")], None), ("hexadecimal digits", ["0x", s("a", H), s("b", H), s("c", H)], None), ("fraction", [DG("a"), ".", DG("b"), DG("c")], None),
                           ("exponent", [DG("a", b"19"), ".", DG("b"), s("e", b"eE"), s("s", b"+-1"), DG("c")], None), ("suffix", [DG("a"), s("x", b"UL17"), s("y", b"UL17"), s("z", b"UL17")], None)):
        bad = lambda m: True
        def must(m, note=note):
            if note == "decimal digits":
                t = "".join(chr(m[k]) for k in "abc")
                return not (t[0] == "0" and "9" in t)
            if note == "suffix":
                t = "".join(chr(m[k]) for k in "axyz")
                return re.fullmatch(r"([1-9]\d*|0[0-7]*)(U|L|UL|LU|LL|ULL|LLU)?", t) is not None
            return True
        go(chk, "digits: " + note, I, "OS.g(", *ps, "); return v; }", MI, must=must)
