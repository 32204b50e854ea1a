"""C07: statements run in the order, and under the conditions, that the source says."""
from vf.common import *
from .c01 import judge_body

M = "\nint main() { f(1); return 0; }\n"
P = "enum { A = 1, Z = 7 }\npub enum { Q = 5 }\n"
BASE = ["OS.h();", "return 7;", "", "v++;", "panic(\"p%d\", v);", "int w = v; OS.k(w);"]
LOOP = ["OS.h();", "break;", "continue;", "return 7;", "v++;", "if (OS.c) { break; }", "if (OS.c) { continue; } else { OS.k(v); }", "switch (v) { case 1: { break; } default: { OS.h(); } }", "switch str (OS.s) { case \"a\": { break; } }"]
COND = ["OS.c", "v", "!v", "v > 1", "OS.g(v)", "v++", "OS.c && OS.g(v)", "--v > 3", "OS.a == OS.b || v < 3"]

def go(chk, note, *parts, must=True):
    sp = Spec()
    sp.note = note
    sp.file("/w/a.c", "#import b.c\n" + P + "int f(int v) {\nOS.k(A + Z + b.B);\n", *parts, "\nreturn v;\n}", M)
    sp.file("/w/b.c", "pub enum { B = 9, B2 }\n")
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d paths" % (note, len(ps)))
        chk.vacuity(note, any(p.st == "exit" and p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:260]})
    later(chk, sp, judge_body("f", lambda m: must, nfiles=2, loop=2), after)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on functions with symbolic statements and conditions; for every path the source function (with Che's switch) and the generated C function are encoded as SMT transition "
                   "relations (calls as events, unknown results) and the solver decides that no inputs or call results separate them.")
    chk.assumptions = ["loops are unrolled twice in the equivalence queries", "values are 8-bit", "calls are events with arbitrary results and may change any memory"]
    b = lambda v, alts=BASE: Cho(v, alts)
    c = lambda v: Cho(v, COND)
    l = lambda v: Cho(v, LOOP)
    few = BASE[:4]
    go(chk, "if", "if (", c("c"), ") { ", b("s"), " ", b("t", few), " }\nOS.z();")
    go(chk, "if else", "if (", c("c"), ") { ", b("s"), " } else { ", b("t"), " }\nOS.z();")
    go(chk, "else if chain", "if (OS.a) { ", b("s", few), " } else if (", c("c"), ") { ", b("t", few), " } else { ", b("u", few), " }\nOS.z();")
    go(chk, "else if without else", "if (OS.a) { ", b("s"), " } else if (", c("c"), ") { ", b("t"), " }\nOS.z();")
    SIMPLE = ["OS.h();", "return 7;", "v++;", "panic(\"x\");"]
    go(chk, "dangling else", "if (OS.a) if (", Cho("c", COND[:5]), ") ", Cho("s", SIMPLE), " else ", Cho("t", SIMPLE), "\nOS.z();")
    go(chk, "statement bodies", "if (", Cho("c", COND[:5]), ") ", Cho("s", SIMPLE), " else if (OS.b) ", Cho("t", SIMPLE), " else ", Cho("u", SIMPLE), "\nOS.z();")
    go(chk, "nested if", "if (OS.a) { if (OS.b) { ", b("s", few), " } ", b("t", few), " } else { if (OS.d) { ", b("u", few), " } }\nOS.z();")
    go(chk, "while", "while (", c("c"), ") { ", l("s"), " OS.k(v); }\nOS.z();")
    go(chk, "while of two", "while (OS.c) { ", l("s"), " ", l("t"), " }\nOS.z();")
    go(chk, "while with a statement", "while (", c("c"), ") ", Cho("s", SIMPLE + ["break;", "continue;"]), "\nOS.z();")
    go(chk, "for", "for (", Cho("i", ["", "v = 0", "int i = v", "OS.g(1)", "OS.i = 1"]), "; ", Cho("c", ["", "OS.c", "v < 3", "OS.g(2)"]), "; ", Cho("a", ["", "v++", "OS.g(3)", "v += 2"]), ") { ", Cho("i", ["", "", "OS.k(i);", "", ""]), " ", Cho("s", LOOP[:6]), " }\nOS.z();")
    go(chk, "nested loops", "while (OS.c) { for (int i = 0; i < OS.n; i++) { ", Cho("s", LOOP[:4]), " } ", Cho("t", LOOP[:4]), " }\nOS.z();")
    go(chk, "loop in if", "if (OS.a) { while (OS.c) { ", Cho("s", LOOP[:5]), " } } else { ", b("t", few), " }\nOS.z();")
    VAL = ["1", "A", "b.B", "'x'", "Q", "0x0f"]
    CASEB = ["OS.h();", "return 7;", "", "break;", "v++; OS.k(v);", "int w = v; OS.k(w);"]
    # no fall-through, lists, constants of this and other modules
    go(chk, "switch", "switch (", Cho("e", ["v", "OS.g(v)", "v++", "OS.x"]), ") {\ncase ", Cho("a", VAL), ": { ", Cho("s", CASEB), " }\ncase 3: { ", Cho("t", CASEB), " }\n}\nOS.z();")
    go(chk, "switch with default", "switch (OS.x) {\ncase 2: { ", Cho("s", CASEB), " }\ncase 3: { ", Cho("t", CASEB), " }\ndefault: { ", Cho("u", CASEB), " }\n}\nOS.z();")
    go(chk, "case lists", "switch (OS.x) {\ncase ", Cho("a", VAL), ", 2, ", Cho("d", ["3", "b.B2", "Z"]), ": { ", Cho("s", CASEB), " }\ncase 20, 21: { ", Cho("t", CASEB[:4]), " }\ndefault: { OS.d(); }\n}\nOS.z();")
    go(chk, "long case lists", "switch (OS.x) {\ncase 1, 2, 3, 4, 5: { OS.h(); }\ncase 6", Cho("n", ["", ", 8", ", 8, 9", ", 8, 9, 10, 11"]), ": { ", Cho("s", CASEB), " }\ncase 12: { }\ncase 13: { OS.k(1); }\n", Cho("d", ["", "default: { OS.d(); }"]), "\n}\nOS.z();")
    go(chk, "switch in a loop", "while (OS.c) { switch (OS.x) {\ncase 1: { ", Cho("s", LOOP[:6]), " }\n", Cho("w", ["", "case 2, 4: { break; }", "case 2: { continue; }"]), "\ndefault: { ", Cho("t", LOOP[:5]), " }\n} OS.k(v); }\nOS.z();")
    go(chk, "nested switches", "switch (OS.x) {\ncase 1: { switch (OS.y) { case 2: { ", Cho("s", CASEB), " } default: { ", Cho("t", CASEB), " } } OS.k(3); }\ncase 4: { OS.h(); }\n}\nOS.z();")
    go(chk, "switch without cases", "switch (OS.g(v)) {\n", Cho("d", ["", "default: { OS.h(); }", "default: { return 2; }"]), "\n}\nOS.z();")
    # string switches
    SV = ['"a"', '"ab"', '""', '"a b"', '"\\n"']
    go(chk, "string switch", "switch str (", Cho("e", ["OS.s", "OS.g(v)", "OS.t[v++]"]), ") {\ncase ", Cho("a", SV), ": { ", Cho("s", CASEB[:3] + CASEB[4:]), " }\ncase \"b\": { ", Cho("t", CASEB[:3] + CASEB[4:]), " }\n}\nOS.z();")
    go(chk, "string switch with default", "switch str (OS.g(v)) {\ncase \"a\": { ", Cho("s", CASEB[:3]), " }\ncase \"b\": { ", Cho("t", CASEB[:3]), " }\ndefault: { ", Cho("u", CASEB[:3]), " }\n}\nOS.z();")
    go(chk, "string case lists", "switch str (", Cho("e", ["OS.s", "OS.g(v)"]), ") {\ncase ", Cho("a", SV), ", \"b\"", Cho("n", ["", ', "c"', ', "c", "d"']), ": { ", Cho("s", CASEB[:3]), " }\ncase \"e\", \"f\": { ", Cho("t", CASEB[:3]), " }\n", Cho("d", ["", "default: { OS.d(); }"]), "\n}\nOS.z();")
    go(chk, "string switch in a loop", "while (OS.c) { switch str (OS.g(v)) {\ncase \"a\": { ", Cho("s", LOOP[:6]), " }\ncase \"b\": { ", Cho("t", LOOP[:5]), " }\n", Cho("d", ["", "default: { break; }", "default: { continue; }"]), "\n} OS.k(v); }\nOS.z();")
    go(chk, "nested string switches", "switch str (OS.s) {\ncase \"a\": { switch str (", Cho("e", ["OS.t", "OS.g(v)", "OS.s"]), ") { case \"b\": { ", Cho("s", CASEB[:3]), " } default: { ", Cho("t", CASEB[:3]), " } } OS.k(3); }\ncase \"c\": { OS.h(); }\n}\nOS.z();")
    go(chk, "string switch without cases", "switch str (OS.g(v)) {\n", Cho("d", ["", "default: { OS.h(); }", "default: { return 2; }"]), "\n}\nOS.z();")
    go(chk, "mixed switches", "switch (OS.x) {\ncase 1: { switch str (OS.s) { case \"a\", \"b\": { ", Cho("s", CASEB[:3]), " } } ", Cho("t", CASEB), " }\ndefault: { ", Cho("u", CASEB[:4]), " }\n}\nOS.z();")
    # panic stops the program with status 1 after the message
    go(chk, "panic", Cho("a", ["if (1)", "if (OS.c)", "while (OS.c)"]), " { panic(", Cho("p", ["\"x\"", "\"x %d\", v", "\"%s %d\", OS.s, OS.g(v)", "\"%d%%\", v++"]), "); }\nOS.z();")
    if th:
        go(chk, "three statements in a loop", "while (OS.c) { ", l("s"), " ", l("t"), " ", l("u"), " }\nOS.z();")
        go(chk, "three nested", "if (OS.a) { while (OS.c) { ", l("s"), " switch (OS.x) { case 1: { ", l("t"), " } default: { ", Cho("u", LOOP[:6]), " } } } }\nOS.z();")
        go(chk, "four cases", "switch (OS.x) {\ncase 1: { ", Cho("s", CASEB), " }\ncase 2: { ", Cho("t", CASEB), " }\ncase 3: { ", Cho("u", CASEB), " }\ndefault: { ", Cho("w", CASEB), " }\n}\nOS.z();")
        go(chk, "four string cases", "switch str (OS.g(v)) {\ncase \"1\": { ", Cho("s", CASEB[:3]), " }\ncase \"2\": { ", Cho("t", CASEB[:3]), " }\ncase \"3\": { ", Cho("u", CASEB[:3]), " }\ndefault: { ", Cho("w", CASEB[:3]), " }\n}\nOS.z();")
