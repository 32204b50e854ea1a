"""C13: `che exports` lists exactly what a module exports, with usable signatures."""
from vf.common import *

def public(src):
    """What the source marks public: constants, types, functions (name -> signature)."""
    c, t, f = [], [], []
    for x in cmini.parse_che(src, types=("b.T", "c.H")):
        if not x.get("pub"):
            continue
        if x["k"] == "enum":
            c += [n for n, _ in x["entries"]]
        elif x["k"] in ("typedef", "structdef"):
            t.append(x["name"])
        elif x["k"] == "func":
            f.append(sig(x))
    return sorted(c), sorted(t), sorted(f)

def sig(f):
    return repr((f["name"], f["type"], f["stars"], f["params"], f.get("variadic")))

def listing(out):
    """{module path: (constants, types, signatures)} from the command's output."""
    r, cur, sect = {}, None, None
    for l in out.decode().split("\n"):
        if l.startswith("mod "):
            if l[4:] in r:
                raise cmini.CErr("module %s is listed twice" % l[4:])
            cur = r[l[4:]] = ([], [], [])
            sect = None
        elif l.startswith("\t") and sect is not None:
            if sect == 2:
                l = sig([x for x in cmini.parse_che(("#import b.c\n#import c.c\n" + l + " {}\n").encode(), types=("b.T", "c.H", "T", "TP", "S", "Q")) if x["k"] == "func"][0])
            cur[sect].append(l.strip())
        elif l in ("constants", "types", "functions"):
            sect = ["constants", "types", "functions"].index(l)
        elif l:
            raise cmini.CErr("unexpected line %r" % l)
    return {k: tuple(sorted(x) for x in v) for k, v in r.items()}

def judge_for(mods, bad):
    def judge(res, inp, model):
        text = " | ".join(inp[m].decode().strip() for m in mods)
        if crashed(res):
            return "compiler crash: %s: %s" % (crash_text(res), text)
        if bad(model):
            return None if res["code"] == 1 and res["err"] else "no error for a module that does not compile: %s" % text
        if res["code"] != 0:
            return "exports failed: %s: %s" % (res["err"].decode()[:160].strip(), text)
        try:
            got = listing(res["out"])
        except (cmini.CErr, IndexError, KeyError) as e:
            return "the listing is malformed (%s) for: %s\n%s" % (e, text, res["out"].decode())
        want = {m: public(inp[m]) for m in mods}
        got = {os.path.normpath(os.path.join("/w", k)): v for k, v in got.items()}
        if set(got) != set(want):
            return "modules listed: %s, asked for: %s: %s" % (sorted(got), sorted(want), text)
        for m in mods:
            for a, b, w in zip(want[m], got[m], ("constants", "types", "functions")):
                if a != b:
                    return "%s of %s: exported %s, listed %s: %s" % (w, m, a, b, inp[m].decode().strip())
        return None
    return judge

def go(chk, note, *parts, more=(), ask=("/w/a.c",), bad=lambda m: False):
    sp = Spec(["exports"] + list(ask))
    sp.note = note
    sp.file("/w/a.c", *parts)
    sp.file("/w/b.c", "pub typedef { int m; } T;\npub enum { K = 3 }\n")
    for f in more:
        sp.file(*f)
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st == "exit" and p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:260]})
    later(chk, sp, judge_for([os.path.normpath(os.path.join("/w", a)) for a in ask], bad), after)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("`che exports` executed symbolically on modules whose public markers, kinds, types, pointer depths and parameter lists are symbolic; on each path the listing is read back as declarations and compared with the "
                   "declarations the source marks public.")
    chk.assumptions = ["the order of the entries within a section is not judged"]
    P = lambda n: Cho("p" + n, ["pub ", ""])
    I = "#import b.c\ntypedef { int m; b.T t; int k[b.K]; } T;\ntypedef T *TP;\nenum { A = 2, Z = 7 }\n"
    U = "\nint main() { OS.g(sizeof(T), sizeof(TP), A, Z, %s); return 0; }\n"
    TY = ["int", "char", "const char", "size_t", "T", "TP", "b.T", "double", "uint8_t", "bool"]
    ST = ["", "*", "**"]
    go(chk, "markers", P("a"), "enum { X, Y = 2 }\n", P("b"), "typedef { int m; } S;\n", P("c"), "typedef int Q;\n", P("d"), "int f(S *s, Q q) { OS.g(s, q); return X + Y; }\n", P("e"), "void *g() { return OS.x; }\nint v = 1;\nint main() { OS.g(v, &f, &g); return 0; }\n")
    go(chk, "two of a kind", P("a"), "enum { X }\n", P("b"), "enum { Y }\n", P("c"), "typedef { int m; } S;\n", P("d"), "typedef { S s; } Q;\n", P("e"), "int f() { return X; }\n", P("f"), "int g() { return Y; }\nint main() { Q q = {}; OS.g(q, &f, &g); return 0; }\n")
    go(chk, "kinds of types", P("a"), "typedef ", Cho("t", ["int S", "int *S", "S0 *S", "int S(int)", "void *S(const char *, S0 *)", "{ int m; } S", "{ int m; union { int a; char b; } u; } S", "char S[10]"]), ";\ntypedef { int k; } S0;\nint main() { S *s = NULL; S0 t = {}; OS.g(s, t); return 0; }\n")
    go(chk, "results", I, "pub ", Cho("t", TY), " ", Cho("s", ST), "f() { return OS.x; }", U % "&f")
    go(chk, "one parameter", I, "pub int f(", Cho("t", TY), " ", Cho("s", ST), "x", Cho("d", ["", "[]", "[4]", "[A + 1]", "[Z - (A - 1)]", "[2 * (A + 1)]"]), ") { OS.g(x); return 1; }", U % "&f")
    go(chk, "two parameters", I, "pub int f(", Cho("t", TY[:7]), " ", Cho("s", ST[:2]), "x, ", Cho("u", TY[:7]), " ", Cho("r", ST[:2]), "y) { OS.g(x, y); return 1; }", U % "&f")
    go(chk, "parameters that share a type", I, "pub int f(", Cho("t", TY[:7]), " ", Cho("s", ST), "x, ", Cho("r", ST), "y", Cho("e", ["", ", char z", ", z, char q"]), ") { OS.g(x, y", Cho("e", ["", ", z", ", z, q"]), "); return 1; }", U % "&f")
    go(chk, "variadic functions", I, "pub ", Cho("v", ["int", "void"]), " f(", Cho("t", TY[:7]), " ", Cho("s", ST[:2]), "x", Cho("e", ["", ", ...", ", int y, ...", ", int y, z, ..."]), ") { OS.g(x", Cho("e", ["", "", ", y", ", y, z"]), "); ", Cho("v", ["return 1;", ""]), " }", U % "&f")
    go(chk, "widths of results", I, "pub ", Cho("t", ["int", "const char", "b.T"]), " ", Cho("s", ST), "f(int x) { OS.g(x); return OS.x; }\npub ", Cho("u", ["int", "const char", "uint64_t"]), " ", Cho("r", ST), "g(char *y, z) { OS.g(y, z); return OS.x; }", U % "&f, &g")
    go(chk, "enum entries", P("a"), "enum { X", Cho("b", ["", " = 3", " = 'c'"]), Cho("c", ["", ", Y", ", Y = X + 1, W"]), Cho("d", ["", ","]), " }\nint main() { OS.g(X", Cho("c", ["", ", Y", ", Y, W"]), "); return 0; }\n")
    c = ("/w/c.c", Cho("pc", ["pub ", ""]), "int h(int h) { return h; }\npub typedef { int z; } H;\nint main() { OS.g(&h); return 0; }\n")
    go(chk, "two modules", P("a"), "int f() { return 1; }\nint main() { OS.g(&f); return 0; }\n", more=[c], ask=["/w/a.c", "/w/c.c"])
    go(chk, "imported modules", "#import b.c\n#import c.c\n", P("a"), "int f(b.T *p) { OS.g(p); return 1; }\nint main() { c.H x = {}; OS.g(x, &f); return 0; }\n", more=[c])
    go(chk, "relative paths", P("a"), "int f() { return 1; }\nint main() { OS.g(&f); return 0; }\n", ask=["a.c"])
    go(chk, "errors", P("a"), "int f() { return ", Cho("e", ["1", "zz", "g()", "1 +"]), "; }\nint main() { OS.g(&f); return 0; }\n", bad=lambda m: m["e"] > 0)
