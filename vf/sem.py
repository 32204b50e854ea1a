"""Symbolic meaning of Che and C function bodies in SMT: states, traces of calls, values.

Both sides are evaluated by this one evaluator; they differ only in `switch` (no fall-through in Che).
Values are W-bit vectors; memory is an array indexed by addresses that come from uninterpreted
functions of (base, index), (base, field) and names; a call is an observable event that havocs memory
and returns an unknown value that depends only on its place in the trace."""
import z3, time, re

W = 8
BV = z3.BitVecSort(W)
MEM = z3.ArraySort(BV, BV)

class Unsupported(Exception):
    pass

class Stat:
    queries = 0
    secs = 0.0

def solve(*fs):
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*fs)
    t = time.time()
    r = s.check()
    Stat.queries += 1
    Stat.secs += time.time() - t
    return r, s

_uf = {}
def uf(name, n):
    k = (name, n)
    if k not in _uf:
        _uf[k] = z3.Function("%s/%d" % k, *([BV] * (n + 1)))
    return _uf[k]
_const = {}
def const(name):
    if name not in _const:
        _const[name] = z3.BitVec(name, W)
    return _const[name]

class St:
    __slots__ = ("pc", "env", "mem", "trace", "steps", "errs")
    def __init__(self):
        self.pc, self.env, self.mem, self.trace, self.steps, self.errs = [], [{}], z3.Const("mem0", MEM), [], 0, []
    def copy(self):
        s = St.__new__(St)
        s.pc, s.env, s.mem, s.trace, s.steps, s.errs = list(self.pc), [dict(e) for e in self.env], self.mem, list(self.trace), self.steps, list(self.errs)
        return s

def effects(e):
    k = e[0]
    if k in ("asg", "post", "call"):
        return True
    if k == "pre" and e[1] in ("++", "--"):
        return True
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and effects(x):
            return True
        if isinstance(x, list) and any(isinstance(y, tuple) and y and isinstance(y[0], str) and effects(y) for y in x):
            return True
    return False

def strid(b):
    return const("str:" + b.hex())

def truth(v):
    return v != 0
def b2v(c):
    return z3.If(c, z3.BitVecVal(1, W), z3.BitVecVal(0, W))

def num(text):
    t = text.rstrip("uUlL") if not re.search(r"[.eE]", text) or text.lower().startswith("0x") else text.rstrip("lLfF")
    if text.lower().startswith("0x"):
        return ("int", int(t, 16), text[len(t):].upper())
    if re.fullmatch(r"\d+", t):
        return ("int", int(t, 8) if t.startswith("0") and len(t) > 1 and re.fullmatch(r"[0-7]+", t) else int(t), text[len(t):].upper())
    return ("flt", float(t).hex(), text[len(t):].upper())

PANIC = object()

def printed(vs):
    """What printf(vs...) prints: a list of characters and (conversion, value)."""
    n = str(vs[0])
    if not n.startswith("str:"):
        return [("fmt", vs[0])] + [("arg", v) for v in vs[1:]]
    fmt, args, r = bytes.fromhex(n[4:]).decode("latin-1"), list(vs[1:]), []
    for lit, conv in re.findall(r"([^%]+)|(%(?:[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d*))?[hlzjtL]*[a-zA-Z]|%))", fmt):
        if lit:
            r += list(lit)
        elif conv == "%%":
            r.append("%")
        elif not args:
            raise Unsupported("missing printf argument")
        else:
            v = args.pop(0)
            if conv == "%s" and str(v).startswith("str:"):
                r += list(bytes.fromhex(str(v)[4:]).decode("latin-1"))
            else:
                r.append((conv, v))
    return r + [("extra", v) for v in args]

def same_errs(a, b, where=None):
    """Conditions under which the texts differ, or a message. `a` may have PANIC: stands for a notice with the position."""
    if PANIC in a:
        i = len(a) - 1 - a[::-1].index(PANIC)
        tail = a[i + 1:]
        head, b2 = b[:len(b) - len(tail)], b[len(b) - len(tail):]
        if len(b) < len(tail):
            return "panic message is too short"
        a, b = a[:i], head[:i]
        notice = head[i:]
        if not all(isinstance(x, str) for x in notice):
            return "panic notice is not a text"
        t = "".join(notice)
        if where and not where(t):
            return "panic message does not tell the position: %r" % t
        a, b = a + tail, b + b2
    if len(a) != len(b):
        return "different messages"
    d = []
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return "different messages"
        elif x[0] != y[0]:
            return "different messages"
        else:
            d.append(x[1] != y[1])
    return d

class Sem:
    def __init__(self, canon=lambda n: n, loop=3, pure=("strcmp",), canon_type=None, lits=None, c=False):
        self.canon, self.loop, self.pure = canon, loop, pure
        self.canon_type = canon_type or (lambda t: t)
        self.lits = set() if lits is None else lits
        self.cut = False
        self.c = canon_type is not None or c
    # ---- expressions: list of (state, value)
    def ev(self, e, s):
        k = e[0]
        if k == "num":
            v = num(e[1])
            if v[0] == "int":
                if v[1] < 2 ** W // 2 and not v[2]:
                    return [(s, z3.BitVecVal(v[1], W))]
                return [(s, const("int:%d%s" % (v[1], v[2])))]
            return [(s, const("flt:%s%s" % (v[1], v[2])))]
        if k == "chr":
            return [(s, z3.BitVecVal(e[1][0], W) if len(e[1]) == 1 else const("chr:" + e[1].hex()))]
        if k == "str":
            self.lits.add(e[1])
            return [(s, strid(e[1]))]
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                return self.logic(e, s)
            r = []
            for s1, a in self.ev(e[2], s):
                for s2, b in self.ev(e[3], s1):
                    r.append((s2, self.arith(op, a, b)))
            return r
        if k == "cond":
            r = []
            for s1, c in self.ev(e[1], s):
                for s2, t in self.branch(s1, truth(c)):
                    r += self.ev(e[2] if t else e[3], s2)
            return r
        if k == "comma":
            return [x for s1, _ in self.ev(e[1], s) for x in self.ev(e[2], s1)]
        if k == "pre":
            op = e[1]
            if op in ("++", "--"):
                r = []
                for s1, l in self.lv(e[2], s):
                    v = self.load(s1, l)
                    n = v + 1 if op == "++" else v - 1
                    self.store(s1, l, n)
                    r.append((s1, n))
                return r
            if op == "&":
                return [(s1, self.addr(s1, l)) for s1, l in self.lv(e[2], s)]
            if op == "*":
                return [(s1, self.load(s1, l)) for s1, l in self.lv(e, s)]
            r = []
            for s1, v in self.ev(e[2], s):
                r.append((s1, {"!": lambda: b2v(v == 0), "~": lambda: ~v, "-": lambda: -v, "+": lambda: v}[op]()))
            return r
        if k == "post":
            r = []
            for s1, l in self.lv(e[2], s):
                v = self.load(s1, l)
                self.store(s1, l, v + 1 if e[1] == "++" else v - 1)
                r.append((s1, v))
            return r
        if k in ("id", "idx", "fld"):
            if k == "id" and e[1] in ("true", "false", "NULL"):
                return [(s, z3.BitVecVal(1 if e[1] == "true" else 0, W))]
            return [(s1, self.load(s1, l)) for s1, l in self.lv(e, s)]
        if k == "asg":
            r = []
            for s1, l in self.lv(e[2], s):
                for s2, v in self.ev(e[3], s1):
                    if e[1] != "=":
                        v = self.arith(e[1][:-1], self.load(s2, l), v)
                    self.store(s2, l, v)
                    r.append((s2, v))
            return r
        if k == "cast":
            t = self.canon_type(e[1])
            return [(s1, uf("cast:%s%s%s" % ("c" if t[0] else "", t[1], "*" * t[2]), 1)(v)) for s1, v in self.ev(e[2], s)]
        if k == "sizeof_t":
            t = self.canon_type(e[1])
            return [(s, const("sizeof:%s%s" % (t[1], "*" * t[2])))]
        if k == "sizeof_e":
            return [(s, const("sizeofe:" + self.key(e[1])))]
        if k == "call":
            return self.call(e, s)
        if k == "lit":
            r = [(s, [])]
            for key, v in e[1]:
                r = [(s2, acc + [(self.ckey(key), x)]) for s1, acc in r for s2, x in self.ev(v, s1)]
            out = []
            for s1, acc in r:
                if all(a[0] is None for a in acc) and acc and all(z3.is_bv_value(a[1]) and a[1].as_long() == 0 for a in acc) and len(acc) == 1:
                    acc = []      # {0} and {} both zero-fill
                t = const("lit")
                for i, (key, x) in enumerate(acc):
                    t = uf("lit:%s" % (key if key is not None else "@%d" % i), 2)(t, x)
                out.append((s1, t))
            return out
        raise Unsupported(str(e)[:80])
    def ckey(self, k):
        if k is None:
            return None
        return "f" + k[1] if k[0] == "f" else "i" + self.key(k[1])
    def key(self, e):
        if isinstance(e, (list, tuple)):
            if e and e[0] == "id":
                return "id:" + self.canon(e[1])
            if e and e[0] == "num":
                return "num:%s" % (num(e[1]),)
            return "(" + " ".join(self.key(x) for x in e) + ")"
        return repr(e)
    def arith(self, op, a, b):
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
             "<<": lambda: a << (b & (W - 1)), ">>": lambda: a >> (b & (W - 1)),
             "/": lambda: z3.If(b == 0, uf("div0", 1)(a), a / b), "%": lambda: z3.If(b == 0, uf("mod0", 1)(a), z3.SRem(a, b)),
             "==": lambda: b2v(a == b), "!=": lambda: b2v(a != b), "<": lambda: b2v(a < b), ">": lambda: b2v(a > b), "<=": lambda: b2v(a <= b), ">=": lambda: b2v(a >= b)}
        if op not in f:
            raise Unsupported(op)
        return f[op]()
    def logic(self, e, s):
        op = e[1]
        r = []
        for s1, a in self.ev(e[2], s):
            if not effects(e[3]):
                for s2, b in self.ev(e[3], s1):
                    r.append((s2, b2v(z3.And(truth(a), truth(b)) if op == "&&" else z3.Or(truth(a), truth(b)))))
                continue
            for s2, t in self.branch(s1, truth(a)):
                if t == (op == "||"):
                    r.append((s2, z3.BitVecVal(1 if t else 0, W)))
                else:
                    r += [(s3, b2v(truth(b))) for s3, b in self.ev(e[3], s2)]
        return r
    def branch(self, s, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(s, True)]
        if z3.is_false(c):
            return [(s, False)]
        r = []
        for t in (True, False):
            g = c if t else z3.Not(c)
            if solve(*(s.pc + [g]))[0] != z3.unsat:
                n = s.copy()
                n.pc.append(g)
                r.append((n, t))
        return r
    # lvalues: ('v', scopeindex, name) or ('m', addr)
    def lv(self, e, s):
        k = e[0]
        if k == "id":
            for i in range(len(s.env) - 1, -1, -1):
                if e[1] in s.env[i]:
                    return [(s, ("v", i, e[1]))]
            return [(s, ("m", const("&" + self.canon(e[1]))))]
        if k == "pre" and e[1] == "*":
            return [(s1, ("m", v)) for s1, v in self.ev(e[2], s)]
        if k == "idx":
            return [(s2, ("m", uf("idx", 2)(a, i))) for s1, a in self.ev(e[1], s) for s2, i in self.ev(e[2], s1)]
        if k == "fld":
            if e[1] == "->":
                return [(s1, ("m", uf("fld:" + e[3], 1)(a))) for s1, a in self.ev(e[2], s)]
            r = []
            if e[2][0] in ("call", "cond", "asg"):
                return [(s1, ("m", uf("vfld:" + e[3], 1)(a))) for s1, a in self.ev(e[2], s)]
            for s1, l in self.lv(e[2], s):
                r.append((s1, ("m", uf("fld:" + e[3], 1)(self.addr(s1, l)))))
            return r
        if k == "cast":
            return [(s1, ("m", uf("castlv", 1)(v))) for s1, v in self.ev(e, s)]
        raise Unsupported("not an lvalue: " + str(e)[:80])
    def load(self, s, l):
        return s.env[l[1]][l[2]] if l[0] == "v" else z3.Select(s.mem, l[1])
    def store(self, s, l, v):
        if l[0] == "v":
            s.env[l[1]][l[2]] = v
        else:
            s.mem = z3.Store(s.mem, l[1], v)
    def addr(self, s, l):
        return const("&local:%s" % l[2]) if l[0] == "v" else l[1]
    def call(self, e, s):
        r = [(s, [])]
        for a in e[2]:
            r = [(s2, vs + [v]) for s1, vs in r for s2, v in self.ev(a, s1)]
        out = []
        direct = e[1][0] == "id" and not any(e[1][1] in x for x in s.env)
        for s1, vs in r:
            if direct:
                n = self.canon(e[1][1])
                fs = [(s1, n)]
            else:
                fs = self.ev(e[1], s1)
            for s2, f in fs:
                if isinstance(f, str) and f in self.pure:
                    if f == "strcmp":
                        a, b = vs
                        out.append((s2, b2v(uf("sid", 1)(a) != uf("sid", 1)(b))))
                    continue
                if isinstance(f, str) and f == "fprintf" and len(vs) > 1 and str(vs[0]).endswith("&stderr]"):
                    # printing to stderr changes no memory of the program; kept apart, so that text may be printed in pieces
                    s2.errs += printed(vs[1:])
                    out.append((s2, const("printed")))
                    continue
                if isinstance(f, str) and f == "panic" and not self.c:
                    s2.errs += [PANIC] + printed(vs) + ["\n"]
                    s2.trace.append(("exit", [z3.BitVecVal(1, W)]))
                    out.append((s2, "EXIT"))
                    continue
                if isinstance(f, str) and f in ("exit", "abort", "longjmp"):
                    s2.trace.append((f, vs))
                    s2.pc.append(z3.BoolVal(True))
                    out.append((s2, "EXIT"))
                    continue
                i = len(s2.trace)
                s2.trace.append((f, vs))
                s2.mem = z3.Const("mem%d" % (i + 1), MEM)
                out.append((s2, const("ret%d" % i)))
        return out
    # ---- statements: list of (state, outcome); outcome None|'break'|'continue'|('return', v|None)|'cut'|'exit'
    def block(self, ss, s):
        s.env.append({})
        r = self.seq(ss, s)
        for x, _ in r:
            x.env.pop()
        return r
    def seq(self, ss, s):
        cur = [(s, None)]
        for st in ss:
            nxt = []
            for s1, o in cur:
                if o is not None:
                    nxt.append((s1, o))
                else:
                    nxt += self.st(st, s1)
            cur = nxt
            if len(cur) > 3000:
                raise Unsupported("too many paths")
        return cur
    def evs(self, e, s):
        """Evaluate in statement position; a call to exit ends the path."""
        return [(s1, None if not isinstance(v, str) else "exit", v) for s1, v in self.ev(e, s)]
    def st(self, st, s):
        k = st[0]
        if k == "empty":
            return [(s, None)]
        if k == "block":
            return self.block(st[1], s)
        if k == "expr":
            return [(a, b) for a, b, _ in self.evs(st[1], s)]
        if k == "decl":
            cur = [s]
            for t, stars, n, dims, init in st[1]:
                nxt = []
                for s1 in cur:
                    if init is None:
                        s1.env[-1][n] = const("undef:%s" % n)
                        nxt.append(s1)
                    else:
                        for s2, v in self.ev(init, s1):
                            s2.env[-1][n] = v
                            nxt.append(s2)
                cur = nxt
            return [(x, None) for x in cur]
        if k == "return":
            if st[1] is None:
                return [(s, ("return", None))]
            return [(s1, ("return", v)) for s1, v in self.ev(st[1], s)]
        if k in ("break", "continue"):
            return [(s, k)]
        if k == "if":
            r = []
            for s1, c in self.ev(st[1], s):
                for s2, t in self.branch(s1, truth(c)):
                    if t:
                        r += self.block([st[2]], s2)
                    elif st[3] is not None:
                        r += self.block([st[3]], s2)
                    else:
                        r.append((s2, None))
            return r
        if k == "while":
            return self.loop_(s, st[1], None, st[2], False)
        if k == "do":
            return self.loop_(s, st[1], None, st[2], True)
        if k == "for":
            s.env.append({})
            r = []
            for s1, o in self.st(st[1], s):
                r += self.loop_(s1, st[2], st[3], st[4], False)
            for x, _ in r:
                x.env.pop()
            return r
        if k == "sw":
            return self.che_switch(st, s)
        if k == "csw":
            return self.c_switch(st, s)
        raise Unsupported(k)
    def loop_(self, s, cond, act, body, dofirst):
        done, cur = [], [s]
        for it in range(self.loop + 1):
            nxt = []
            for s1 in cur:
                if cond is None or (dofirst and it == 0):
                    conds = [(s1, True)]
                else:
                    conds = [x for s2, c in self.ev(cond, s1) for x in self.branch(s2, truth(c))]
                for s2, t in conds:
                    if not t:
                        done.append((s2, None))
                        continue
                    if it == self.loop:
                        done.append((s2, "cut"))
                        self.cut = True
                        continue
                    for s3, o in self.block([body], s2):
                        if o == "break":
                            done.append((s3, None))
                        elif o is None or o == "continue":
                            if act is None:
                                nxt.append(s3)
                            else:
                                nxt += [s4 for s4, _ in self.ev(act, s3)]
                        else:
                            done.append((s3, o))
            cur = nxt
        return done
    def che_switch(self, st, s):
        _, isstr, v, cases, dflt = st
        r = []
        for s1, x in self.ev(v, s):
            cur = [s1]
            for vals, body in cases:
                nxt = []
                for s2 in cur:
                    cs = [(s2, z3.BoolVal(False))]
                    for val in vals:
                        cs = [(s4, z3.Or(c, (uf("sid", 1)(x) == uf("sid", 1)(y)) if isstr else (x == y))) for s3, c in cs for s4, y in self.ev(val, s3)]
                    for s3, c in cs:
                        for s4, t in self.branch(s3, c):
                            if t:
                                r += self.block(body[1], s4)
                            else:
                                nxt.append(s4)
                cur = nxt
            for s2 in cur:
                if dflt is not None:
                    r += self.block(dflt[1], s2)
                else:
                    r.append((s2, None))
        # `break` inside a case leaves the switch (C's meaning, kept by the dialect)
        return [(a, None if o == "break" and not isstr else o) for a, o in r]
    def c_switch(self, st, s):
        _, v, items = st
        r = []
        for s1, x in self.ev(v, s):
            cur = [s1]
            for i, it in enumerate(items):
                if it[0] != "case":
                    continue
                nxt = []
                for s2 in cur:
                    for s3, y in self.ev(it[1], s2):
                        for s4, t in self.branch(s3, x == y):
                            if t:
                                r += self.block([z for z in items[i:] if z[0] not in ("case", "default")], s4)
                            else:
                                nxt.append(s4)
                cur = nxt
            d = [i for i, it in enumerate(items) if it[0] == "default"]
            for s2 in cur:
                if d:
                    r += self.block([z for z in items[d[0]:] if z[0] not in ("case", "default")], s2)
                else:
                    r.append((s2, None))
        return [(a, None if o == "break" else o) for a, o in r]
    def func(self, f):
        s = St()
        for i, p in enumerate(f["params"]):
            s.env[0][p[2]] = const("arg%d" % i)
        return self.block(f["body"][1] if f["body"][0] == "block" else [f["body"]], s)

def distinct_lits(lits):
    """Different string literals compare different; equal ones equal."""
    ids = [uf("sid", 1)(strid(b)) for b in sorted(lits)]
    return [z3.Distinct(*ids)] if len(ids) > 1 else []

def differ(ra, rb, lits=(), where=None):
    """None when the two result lists describe the same behaviour, else (model, what)."""
    base = distinct_lits(lits)
    for sa, oa in ra:
        for sb, ob in rb:
            g = base + sa.pc + sb.pc
            d = []
            ta, tb = sa.trace, sb.trace
            cut = oa == "cut" or ob == "cut"
            n = min(len(ta), len(tb))
            bad = None
            if not cut and len(ta) != len(tb):
                bad = "different number of calls"
            for i in range(n):
                (fa, va), (fb, vb) = ta[i], tb[i]
                if isinstance(fa, str) != isinstance(fb, str) or (isinstance(fa, str) and fa != fb) or len(va) != len(vb):
                    bad = bad or "different calls: %s / %s" % (fa, fb)
                    break
                if not isinstance(fa, str):
                    d.append(fa != fb)
                d += [x != y for x, y in zip(va, vb)]
            if not cut:
                ka, kb = oa[0] if isinstance(oa, tuple) else oa, ob[0] if isinstance(ob, tuple) else ob
                if ka != kb:
                    bad = bad or "different outcome: %s / %s" % (ka, kb)
                elif isinstance(oa, tuple):
                    if (oa[1] is None) != (ob[1] is None):
                        bad = bad or "value returned on one side only"
                    elif oa[1] is not None:
                        d.append(oa[1] != ob[1])
                e = same_errs(sa.errs, sb.errs, where)
                if isinstance(e, str):
                    bad = bad or e
                else:
                    d += e
                if sa.mem is not sb.mem:
                    d.append(sa.mem != sb.mem)
            r, s = solve(*(g + ([] if bad else [z3.Or(*d) if d else z3.BoolVal(False)])))
            if r == z3.sat:
                return s.model(), bad or "different values"
            if r == z3.unknown:
                raise Unsupported("solver gave up")
    return None
