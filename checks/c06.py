"""C06: a function with a result never ends without a return; functions that always return are accepted."""
from vf.common import *

T, F = z3.BoolVal(True), z3.BoolVal(False)

class S:
    """A statement list with symbolic parts: its text parts, whether it can complete normally, whether it can break out of the innermost loop/switch,
    and whether it is in the form the compiler promises to recognise as always returning."""
    def __init__(self, parts, ends, brk=F, form=F, sbrk=None):
        self.parts, self.ends, self.brk, self.form = parts, ends, brk, form

class Leaf:
    #          text, completes, breaks, recognised as always returning
    ALL = [("return 1;", 0, 0, 1), ("OS.h();", 1, 0, 0), ("panic(\"x\");", 0, 0, 1), ("", 1, 0, 0), ("if (OS.c) { return 1; }", 1, 0, 0), ("if (OS.c) { return 1; } else { return 2; }", 0, 0, 1),
           ("if (OS.c) { return 1; } else { OS.h(); }", 1, 0, 0), ("if (OS.c) { OS.h(); } else { return 1; }", 1, 0, 0), ("while (true) { OS.h(); }", 0, 0, 1), ("while (OS.c) { return 1; }", 1, 0, 0),
           ("while (true) { if (OS.c) { break; } }", 1, 0, 0), ("for (;OS.c;) { return 1; }", 1, 0, 0), ("return 1; OS.h();", 0, 0, 0), ("if (OS.c) { panic(\"x\"); } else { return 1; }", 0, 0, 1)]
    LOOP = [("return 1;", 0, 0), ("OS.h();", 1, 0), ("break;", 0, 1), ("continue;", 0, 0), ("if (OS.c) { break; }", 1, 1), ("if (OS.c) { OS.h(); } else { break; }", 1, 1), ("while (OS.c) { break; }", 1, 0),
            ("switch (OS.c) { case 1: { break; } }", 1, 0), ("switch str (OS.s) { case \"a\": { break; } }", 1, 1), ("switch str (OS.s) { case \"a\": { } default: { break; } }", 1, 1), ("for (;OS.c;) { break; }", 1, 0),
            ("if (OS.c) { if (OS.d) { break; } }", 1, 1), ("if (OS.c) { while (OS.d) { break; } }", 1, 0), ("switch (OS.c) { case 1: { if (OS.d) { break; } } default: { break; } }", 1, 0)]

def leaf(v, alts=Leaf.ALL):
    pick = lambda k: z3.Or(*[B(v, i) for i, a in enumerate(alts) if a[k]])
    return S([Cho(v, [a[0] for a in alts])], pick(1), pick(2), pick(3) if len(alts[0]) > 3 else F)

def if_(c, a, b=None):
    if b is None:
        return S(["if (OS.c) { "] + a.parts + [" }\n"], T, a.brk, F)
    return S(["if (OS.c) { "] + a.parts + [" } else { "] + b.parts + [" }\n"], z3.Or(a.ends, b.ends), z3.Or(a.brk, b.brk), z3.And(a.form, b.form))

def switch(cases, d, isstr=False):
    parts = ["switch %s {\n" % ("str (OS.s)" if isstr else "(OS.c)")]
    for i, c in enumerate(cases):
        parts += ["case %s: { " % (('"k%d"' if isstr else "%d") % i)] + c.parts + [" }\n"]
    if d:
        parts += ["default: { "] + d.parts + [" }\n"]
    parts.append("}\n")
    bs = cases + ([d] if d else [])
    inner = z3.Or(*[x.brk for x in bs])
    ends = T if not d else z3.Or(*[x.ends for x in bs])
    if not isstr:
        return S(parts, z3.Or(ends, inner), F, z3.And(*[x.form for x in bs]) if d else F)
    return S(parts, ends, inner, z3.And(*[x.form for x in bs]) if d else F)

def seq(a, b):
    return S(a.parts + [" "] + b.parts, z3.And(a.ends, b.ends), z3.Or(a.brk, z3.And(a.ends, b.brk)), b.form)

def forever(body, simple=F):
    """while (true)"""
    return S(["while (true) { "] + body.parts + [" }\n"], body.brk, F, simple)

def run(chk):
    th = chk.tier == "thorough"
    chk.explain = ("Whole compiler executed symbolically on function bodies with symbolic statements; per path the solver decides that an accepted function with a result cannot complete normally "
                   "(for any condition values), and that every body of an always-returning form is accepted.")
    chk.assumptions = ["conditions other than the literal true are arbitrary", "calls other than panic return"]
    L = Leaf.ALL
    few = [L[i] for i in (0, 1, 2, 5, 6, 8, 10)]
    fams = [("one statement", leaf("s")), ("two statements", seq(leaf("s"), leaf("t"))), ("if", if_(0, leaf("s"))), ("if/else", if_(0, leaf("s"), leaf("t"))), ("nested if/else", if_(0, if_(0, leaf("s", few), leaf("t", few)), leaf("u", few))),
            ("else chain", if_(0, leaf("s", few), if_(0, leaf("t", few), leaf("u", few)))), ("if/else then statement", seq(if_(0, leaf("s", few), leaf("t", few)), leaf("u", few))),
            ("switch", switch([leaf("s", few), leaf("t", few)], leaf("u", few))), ("switch without default", switch([leaf("s"), leaf("t", few)], None)), ("switch with only default", switch([], leaf("u"))),
            ("string switch", switch([leaf("s", few), leaf("t", few)], leaf("u", few), True)), ("string switch without default", switch([leaf("s"), leaf("t", few)], None, True)),
            ("switch in if", if_(0, switch([leaf("s", few)], leaf("t", few)), leaf("u", few))), ("if in switch", switch([if_(0, leaf("s", few), leaf("t", few))], leaf("u", few))),
            ("endless loop", forever(leaf("s", Leaf.LOOP), B("s", 1))), ("endless loop of two", forever(seq(leaf("s", Leaf.LOOP), leaf("t", Leaf.LOOP)), z3.And(B("s", 1), B("t", 1)))),
            ("endless loop with if/else", forever(if_(0, leaf("s", Leaf.LOOP), leaf("t", Leaf.LOOP)))), ("endless loop with switch", forever(switch([leaf("s", Leaf.LOOP)], leaf("t", Leaf.LOOP)))),
            ("endless loop with string switch", forever(switch([leaf("s", Leaf.LOOP)], leaf("t", Leaf.LOOP), True))), ("endless loops nested", forever(seq(forever(leaf("s", Leaf.LOOP)), leaf("t", Leaf.LOOP)))),
            ("endless loop in if/else", if_(0, forever(leaf("s", Leaf.LOOP)), leaf("t", few))), ("endless loop in switch", switch([forever(leaf("s", Leaf.LOOP))], leaf("t", few)))]
    if th:
        fams += [("three statements", seq(leaf("s"), seq(leaf("t"), leaf("u")))), ("full nested if/else", if_(0, if_(0, leaf("s"), leaf("t")), leaf("u"))), ("full switch", switch([leaf("s"), leaf("t")], leaf("u"))),
                 ("full string switch", switch([leaf("s"), leaf("t")], leaf("u"), True)), ("deep loops", forever(if_(0, forever(leaf("s", Leaf.LOOP)), switch([leaf("t", Leaf.LOOP)], leaf("u", Leaf.LOOP), True))))]
    for note, s in fams:
        sp = Spec()
        sp.note = note
        sp.pcs = True
        sp.file("/w/a.c", "int f() {\n", *s.parts, "\n}\nint main() { return f(); }\n")
        # rejected: right iff not one of the promised forms; accepted: right iff it cannot complete
        judge_formula(chk, sp, z3.Not(s.ends), z3.Not(s.form), lambda sp, m: sp.render(m)["/w/a.c"].decode())
    # result types: only functions without any result may end without a return; main may too
    TY = [("void", 0), ("int", 1), ("void *", 1), ("char *", 1), ("T", 1), ("T *", 1), ("void **", 1), ("U", 1), ("bool", 1), ("const char *", 1), ("double", 1), ("b.T", 1), ("b.T *", 1), ("b.U", 1), ("size_t", 1)]
    BODY = [("", 0), ("OS.h();", 0), ("panic(\"x\");", 1), ("if (OS.c) { OS.h(); }", 0), ("while (true) { OS.h(); }", 1)]
    sp = Spec()
    sp.note = "result types"
    sp.pcs = True
    sp.file("/w/a.c", "#import b.c\ntypedef { int m; } T;\ntypedef int U;\n", Cho("p", ["", "pub "]), Cho("t", [x for x, _ in TY]), " ", Cho("n", ["f", "mainx", "min"]), "() { ", Cho("b", [x for x, _ in BODY]), " }\nint main() { OS.g(", Cho("n", ["f", "mainx", "min"]), "); OS.g(b.K); }\n")
    sp.file("/w/b.c", "pub typedef { int m; } T;\npub typedef int U;\npub enum { K = 1 }\n")
    needs = z3.Or(*[B("t", i) for i, (_, v) in enumerate(TY) if v])
    rets = z3.Or(*[B("b", i) for i, (_, v) in enumerate(BODY) if v])
    ok = z3.Or(z3.Not(needs), rets)
    judge_formula(chk, sp, ok, z3.Not(ok), lambda sp, m: sp.render(m)["/w/a.c"].decode())

def judge_formula(chk, sp, accepted, rejected, text):
    """`accepted`: the condition under which exit 0 is right; `rejected`: under which a rejection is right."""
    def formula(res):
        if crashed(res):
            return "crash: " + crash_text(res)
        if res["code"] == 0:
            return accepted
        return rejected if res["err"].strip() else "rejected without a diagnostic"
    def verdict(p):
        f = formula(p.res())
        if isinstance(f, str):
            return f, p.model
        m = counterexample(p, f)
        return ("a function that always returns is rejected" if p.code else "a function that can end without a return is accepted", m) if m else None
    def after(ps):
        chk.bounds.append("%s: %d paths" % (sp.note, len(ps)))
        s = z3.Solver()
        s.add(z3.Not(accepted), *sp.domains({n: z3.BitVec(n, 8) for n in sp.vars()}))
        if s.check() == z3.sat:
            chk.vacuity(sp.note + ": rejected", any(p.code == 1 for p in ps))
        for p, r in zip(ps, pmap(verdict, ps)):
            chk.asserts += 1
            if r:
                def judge(res, inp, model):
                    f = formula(res)
                    if not isinstance(f, str):
                        s = z3.Solver()
                        s.add(z3.Not(f), *[z3.BitVec(k, 8) == v for k, v in model.items()])
                        f = r[0] if s.check() == z3.sat else None
                    if f:
                        return "%s: %r: exit %s %s" % (f, text(sp, model), res["code"], res["err"].decode()[:160].strip())
                replay(chk, sp, sp.render(r[1]), r[1], judge, r[0])
    later(chk, sp, None, after)
