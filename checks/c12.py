"""C12: the order of a module's definitions does not matter."""
import itertools
from vf.common import *
from .c09 import diff, Types

def c_order(mod):
    """First use of something before its declaration in a C file, or None."""
    names = set()
    for x in mod:
        if x["k"] in ("func", "proto", "var", "typedef"):
            names.add(x["name"])
        elif x["k"] == "enum":
            names.update(n for n, _ in x["entries"])
        elif x["k"] == "pp" and x["text"].startswith("#define"):
            names.add(re.split(r"[\s(]", x["text"][7:].strip())[0])
    seen, td, complete = set(), {}, set()
    def need(n, local=()):
        if n in names and n not in seen and n not in local:
            raise cmini.CErr("%s is used before its declaration" % n)
    def ids(e, local=()):
        for y in walk(e):
            if y[0] == "id":
                need(y[1], local)
            elif y[0] in ("cast", "sizeof_t"):
                need(y[1][1], local)
            elif y[0] == "decl":
                for d in y[1]:
                    typ(d[0], d[1], True)
    def typ(t, stars, value):
        n, s = t[1], stars
        need(n)
        while n in td:
            x = td[n]
            if x["params"] is not None:
                return
            s += x["stars"]
            n = x["type"][1]
        if value and s == 0 and n.startswith("struct ") and n not in complete and n in {"struct " + x["name"] for x in mod if x["k"] == "struct"}:
            raise cmini.CErr("%s is used before its definition" % n)
    def field(f):
        if f[0] == "u":
            for g in f[1]:
                field(g)
            ids(f[4])
        else:
            typ(f[1], f[2], True)
            ids(f[4])
    for x in mod:
        k = x["k"]
        if k == "pp" and x["text"].startswith("#define"):
            seen.add(re.split(r"[\s(]", x["text"][7:].strip())[0])
        elif k == "typedef":
            if not x["type"][1].startswith("struct "):
                typ(x["type"], x["stars"], bool(x["dims"]))
            for p in (x["params"] or ([], 0))[0]:
                typ(p[:2], p[2], False)
            ids(x["dims"])
            td[x["name"]] = x
            seen.add(x["name"])
        elif k == "struct":
            for f in x["fields"]:
                field(f)
            complete.add("struct " + x["name"])
        elif k == "enum":
            for n, v in x["entries"]:
                if v is not None:
                    ids(v)
                seen.add(n)
        elif k in ("proto", "func"):
            typ(x["type"], x["stars"], k == "func")
            for p in x["params"]:
                typ(p[0], p[1], k == "func" and not p[3])
                ids([d for d in p[3] if d])
            seen.add(x["name"])
            if k == "func":
                local = {p[2] for p in x["params"]} | {d[2] for n in walk(x["body"]) if n[0] == "decl" for d in n[1]}
                ids(x["body"], local)
        elif k == "var":
            typ(x["type"], x["stars"], True)
            ids([d for d in x["dims"] if d])
            seen.add(x["name"])
            if x["init"] is not None:
                ids(x["init"])
    return None

def judge(res, inp, model):
    src = inp["/w/a.c"]
    text = src.decode().strip()
    if crashed(res):
        return "compiler crash: %s: %s" % (crash_text(res), text)
    if res["code"] != 0:
        return "definitions rejected in this order: %s: %s" % (res["err"].decode()[:160].strip(), text)
    S = cmini.parse_che(src, types=("b.T",))
    for k, v in generated(res).items():
        try:
            m = cmini.parse_c(v)
            c_order(m)
        except cmini.CErr as e:
            return "generated C is not valid C (%s) for: %s" % (e, text)
        if any(x["k"] == "func" and x["name"] == "main" for x in m):
            d = diff(S, m, None)
            if d:
                return "%s in: %s" % (d, text)
            for x in S:
                if x["k"] == "func":
                    y = first(m, "func", x["name"])
                    if sem.differ(sem.Sem(lambda n: n.rsplit(".", 1)[-1]).func(x), sem.Sem(canon, c=True).func(y)):
                        return "meaning of %s changed in: %s" % (x["name"], text)
    return None

def go(chk, note, elems, pre="", post="", files=(), last=True):
    sp = Spec()
    sp.note = note
    if last and chk.tier != "thorough":
        post = elems.pop() + "\n"
    orders = ["\n".join(o) + "\n" for o in itertools.permutations(elems)]
    sp.file("/w/a.c", pre, Cho("order", orders), post)
    for f in files:
        sp.file(*f)
    sp.split = sp.vars()
    def after(ps):
        chk.bounds.append("%s: %d orders" % (note, len(ps)))
        chk.vacuity(note, any(p.st == "exit" and p.code == 0 for p in ps))
        if len(chk.samples) < 8 and ps:
            chk.samples.append({"family": note, "source": ps[0].inputs()["/w/a.c"].decode()[:300]})
    later(chk, sp, judge, after)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on modules whose definitions stand in a symbolic order (a symbolic index over all permutations); on each path the generated C must declare everything before its use, hold "
                   "the same declarations, and its functions are SMT-equivalent to the source's.")
    chk.assumptions = ["C's declare-before-use rules as implemented in checks/c12.py; a suspicion is confirmed with gcc before it is reported"]
    M = "int main() { %s return 0; }"
    b = ("/w/b.c", "pub typedef { int m; } T;\npub enum { K = 3 }\npub int bf(T *t) { return t->m; }\n")
    go(chk, "nested structs", ["typedef { B x; int y; } A;", "typedef { C x[2]; } B;", "typedef { int z; D *d; } C;", "typedef { A *a; C c; } D;", M % "A a = {}; D d = {}; OS.g(a, d);"], last=False)
    go(chk, "structs, enums and dimensions", ["enum { N = 3 }", "enum { M = N + 1, L = 2 * N }", "typedef { int x[M]; } A;", "typedef { A a[N]; int k; } B;", M % "B b = {}; OS.g(b, L);"])
    go(chk, "enums in a chain", ["enum { P = 1 }", "enum { Q = P + 1 }", "enum { R = Q + P }", "enum { S = R << Q }", M % "OS.g(S);"])
    go(chk, "functions and variables", ["int f(int x) { return g(x) + v; }", "int g(int x) { if (x) { return f(x - 1); } return w[0]; }", "int v = 4;", "int w[] = {1, 2};", M % "OS.g(f(3));"], last=False)
    go(chk, "function types", ["typedef int F(A *);", "typedef { F *f; int x; } A;", "int cb(A *a) { return a->x; }", "A v = {.x = 1};", M % "v.f = &cb; OS.g(v);"])
    go(chk, "aliases", ["typedef A *AP;", "typedef { int m; AP next; } A;", "AP f(AP p) { return p->next; }", "typedef int U;", M % "U u = 1; OS.g(f(OS.x), u);"])
    go(chk, "aliases of structs", ["typedef A B;", "typedef { B x; int k; } C;", "typedef { int m; } A;", "B v[2] = {};", M % "C c = {}; OS.g(c, v);"])
    go(chk, "chains of aliases", ["typedef U *P;", "typedef int U;", "typedef P F(U);", "typedef { F *f; P p; } S;", M % "S s = {}; OS.g(s);"])
    go(chk, "tables of functions", ["typedef int F(int);", "int a(int x) { return x; }", "int b(int x) { return x + t[0].k; }", "typedef { F *f; int k; } E;", "E t[] = {{&a, 1}, {&b, 2}};", M % "OS.g(t);"] if th else ["typedef int F(int);", "int a(int x) { return x + t[0].k; }", "typedef { F *f; int k; } E;", "E t[] = {{&a, 1}};", M % "OS.g(t);"])
    go(chk, "imported types", ["typedef { b.T t; int a[b.K]; } A;", "A *f(A *x) { OS.g(b.bf(&x->t)); return x; }", "enum { Z = b.K + 1 }", "int v[Z] = {};", M % "OS.g(f(OS.x), v);"], pre="#import b.c\n", files=[b])
    go(chk, "public and private", ["pub typedef { P *p; Q q; } R;", "pub typedef { int x[N]; } Q;", "typedef { R *r; } P;", "pub enum { N = 2 }", "pub int f(R *r, P *p) { return r->q.x[0] + OS.x(p->r); }", "int h() { return N; }"][:5] if not th else ["pub typedef { P *p; Q q; } R;", "pub typedef { int x[N]; } Q;", "typedef { R *r; } P;", "pub enum { N = 2 }", "pub int f(R *r, P *p) { return r->q.x[0] + OS.x(p->r); }", "int h() { return N; }"], post=M % ("h(); " if th else ""), last=False)
    go(chk, "unions and macros", ["#define K 2", "typedef { int k; union { A a; int b[K]; } u; } B;", "typedef { int m[N]; } A;", "enum { N = K + 1 }", M % "B b = {}; OS.g(b, K);"])
    go(chk, "imports among definitions", ["#import b.c", "typedef { b.T t; } A;", "int f(b.T *t) { return b.bf(t); }", "enum { Z = b.K }", M % "A a = {}; OS.g(f(&a.t), Z);"], files=[b])
    go(chk, "pointers to structs defined elsewhere", ["A *f(B *b) { return b->a; }", "typedef { B *b; int k; } A;", "typedef { A *a; int j; } B;", "A *v = NULL;", M % "OS.g(f(OS.x), v);"])
