"""C02: on any input the compiler ends with a verdict: no crash, no hang."""
from vf.common import *

def judge(res, inp, model):
    if crashed(res):
        return "compiler %s on %r" % (crash_text(res), inp["/w/a.c"].decode("utf-8", "replace")[-160:])
    if res["st"] == "exit" and res["code"] not in (0, 1):
        return "unexpected exit status %d on %r" % (res["code"], inp["/w/a.c"][-160:])
    if res["st"] == "exit" and res["code"] == 1 and not res["err"].strip() and not res["out"].strip():
        return "rejected without a diagnostic: %r" % inp["/w/a.c"][-160:]
    return None

SNIP = [
    ("types", "#type X\n#define N 3\nenum { A = 1, B }\ntypedef { int a, *b; union { int u; char v; } w; } T;\ntypedef int F(int, ...);\ntypedef char S[4];\n"),
    ("function", "int g[] = {1, [1] = 2};\npub int f(const char *s, int n, ...) { for (int i = 0; i < n; i++) { n += g[i] << 1; } return *s; }\n"),
    ("control", "int f(int n) { while (true) { if (!n) break; else continue; } switch (n) { case 1, 2: { panic(\"x\"); } default: { n--; } } return n; }\n"),
    ("strings", "int f(char *s) { switch str (s) { case \"a\\n\": { return -1; } } return sizeof(s) + (char)'\\n' + 0x1f; } // c\n"),
    ("imports", "#import m.c\ntypedef { int a; } T;\nint f() { T t = {.a = 1}; /* c */ return m.h(&t.a, (1.5e-3 * 2)); }\n"),
]
MOD = "pub int h(int *p, double d) { return *p + d; }\n"

def spec(note, *parts):
    sp = Spec()
    sp.note = note
    sp.file("/w/a.c", *parts)
    sp.file("/w/m.c", MOD)
    sp.maxinst = 60000000
    return sp

def go(chk, sp):
    def after(ps):
        chk.bounds.append("%s: %d paths" % (sp.note, len(ps)))
        chk.vacuity(sp.note, len(ps) > 0)
    later(chk, sp, judge, after)

TOK = ["break", "case", "const", "continue", "default", "else", "enum", "for", "if", "pub", "return", "sizeof", "struct", "switch", "typedef", "union", "while",
       "x", "int", "12", '"s"', "'c'", "calloc!", "panic", "NULL", "m", "T", "str",
       "<<=", "...", "++", "->", "<<", "<=", "&&", "+=", "==", "!", "~", "&", "*", "=", ":", ",", "<", "-", "{", "}", ";", "[", "]", "(", ")", ".", "?", "#x", "#import m.c\n", "/*", "//", "'", '"', "0x", "1e", "\n#define\n", "\n#type\n"]
FEW = ["case", "const", "return", "sizeof", "switch", "typedef", "x", "int", "12", '"s"', "T", "++", "-", "*", "=", ",", "{", "}", ";", "[", "(", ")", "."]
CONTEXTS = [("start of file", "", "\nint main() { return 0; }\n"), ("end of file", "int main() { return 0; }\n", ""), ("in a body", "typedef { int a; } T;\nint main() { ", " }\n"),
            ("in an expression", "int main() { int x = 1; return x ", "; }\n"), ("in parameters", "int g(", ") { return 0; }\nint main() { return 0; }\n"),
            ("in a switch", "int main() { switch (1) { ", " } }\n"), ("in a typedef", "typedef ", " T;\nint main() { return 0; }\n"), ("in a struct", "typedef { ", " } T;\n"),
            ("in a for", "int main() { for (", ") { } return 0; }\n"), ("unfinished body", "int main() { ", ""), ("unfinished call", "int main() { f(", "")
            , ("in an enum", "enum { A ", " }\n"), ("in a literal", "int a[] = { ", " };\n"), ("in a switch str", "int main() { switch str (\"\") { ", " } }\n"), ("in a condition", "int main() { if (", ") { } return 0; }\n")]

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = "Whole compiler executed symbolically over source files with symbolic bytes, positions, lengths and tokens; a path that panics, exceeds the instruction cap or exhausts memory is a violation."
    chk.assumptions = ["a run of more than 60 million IR instructions counts as a hang (normal runs of these inputs take under 2 million)", "allocation never fails"]
    for n, t in SNIP:
        s = spec("every truncation of: " + n, t)
        s.trunc["/w/a.c"] = "len"
        s.ids["len"] = 16
        go(chk, s)
    for n, t in SNIP:
        s = spec("any byte replaced at any position of: " + n, t)
        s.mut["/w/a.c"] = ("pos", "byte", bytes(range(128)) if th else b"\"';}(")
        s.ids.update(pos=16, byte=8)
        go(chk, s)
    for n, a, b in CONTEXTS:
        go(chk, spec("one token " + n, a, Cho("t1", TOK), b))
        t = TOK if th else FEW
        go(chk, spec("two tokens " + n, a, Cho("t1", t), " ", Cho("t2", t), b))
    for n, a, b in (("alone", "", ""), ("after a token", "x", ""), ("in a string", '"', '"'), ("in a char", "'", "'"), ("after a number", "1", " ")):
        go(chk, spec("3 free bytes " + n, a, Sym("b1"), Sym("b2"), Sym("b3"), b) if th else spec("2 free bytes " + n, a, Sym("b1"), Sym("b2"), b))
