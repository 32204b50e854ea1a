"""A small reader for C99 (the compiler's output) and Che (its input): tokens, declarations, statements, expressions.

It is the oracle's own reading of both languages and shares nothing with the code under test."""
import re

class CErr(Exception):
    pass

PUNCT = ["<<=", ">>=", "...", "++", "--", "->", "<<", ">>", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", "==", "!=",
         "!", "~", "&", "^", "*", "/", "%", "=", "|", ":", ",", "<", ">", "+", "-", "{", "}", ";", "[", "]", "(", ")", ".", "?"]
BUILTIN = set("char double float int void ptrdiff_t size_t int16_t int32_t int64_t int8_t uint16_t uint32_t uint64_t uint8_t bool FILE time_t jmp_buf va_list long short signed unsigned _Bool".split())
KW = set("break case const continue default else enum for if pub return sizeof struct switch typedef union while static do goto extern".split())
ESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}

def unescape(s, multiline=False):
    """Bytes denoted by the inside of a C string or character literal."""
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\n" and not multiline:
            raise CErr("newline in a literal")
        if c != "\\":
            out += c.encode("utf-8", "surrogateescape")
            i += 1
            continue
        i += 1
        if i >= len(s):
            raise CErr("backslash at the end of a literal")
        c = s[i]
        if c in ESC:
            out.append(ESC[c])
            i += 1
        elif c in "01234567":
            m = re.match(r"[0-7]{1,3}", s[i:])
            out.append(int(m.group(), 8) & 255)
            i += m.end()
        elif c == "x":
            m = re.match(r"x([0-9a-fA-F]+)", s[i:])
            if not m:
                raise CErr("bad \\x escape")
            out.append(int(m.group(1), 16) & 255)
            i += m.end()
        elif c == "\n":
            if multiline:
                raise CErr("line splice in a literal")
            i += 1
        else:
            raise CErr("unknown escape \\" + c)
    return bytes(out)

def lex(s, che=False):
    """[(kind, text, line, col)]; kinds: id num str chr p pp eof. String contents are decoded to bytes."""
    t = []
    i, line, bol = 0, 1, 0
    n = len(s)
    def adv(j):
        nonlocal line, bol
        k = s.count("\n", i, j)
        if k:
            line += k
            bol = s.rfind("\n", i, j) + 1
    while i < n:
        c = s[i]
        if c in " \t\r\n":
            adv(i + 1)
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise CErr("unterminated comment")
            adv(j + 2)
            i = j + 2
            continue
        col = i - bol + 1
        if c == "#":
            j = s.find("\n", i)
            j = n if j < 0 else j
            t.append(("pp", s[i:j].strip(), line, col))
            i = j
            continue
        if c.isascii() and (c.isalpha() or c == "_"):
            m = re.compile(r"calloc!|\w+", re.A).match(s, i) if che else re.compile(r"\w+", re.A).match(s, i)
            t.append(("id", m.group(), line, col))
            i = m.end()
            continue
        if c.isdigit() or (c == "." and i + 1 < n and s[i + 1].isdigit() and not che):
            m = re.compile(r"0[xX][0-9a-fA-F]+[uUlL]*|(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?[uUlLfF]*").match(s, i)
            j = m.end()
            if j < n and (s[j].isalnum() or s[j] == "_"):
                raise CErr("bad number")
            t.append(("num", m.group(), line, col))
            i = j
            continue
        if c == '"' or c == "'":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            if j >= n:
                raise CErr("unterminated literal")
            b = unescape(s[i + 1:j], multiline=che)
            if c == "'" and len(b) < 1:
                raise CErr("empty character literal")
            t.append(("str" if c == '"' else "chr", b, line, col))
            adv(j + 1)
            i = j + 1
            continue
        for p in PUNCT:
            if s.startswith(p, i):
                t.append(("p", p, line, col))
                i += len(p)
                break
        else:
            raise CErr("unexpected character %r" % c)
    t.append(("eof", "", line, 0))
    return t

BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]

class Parser:
    def __init__(self, text, che=False, types=(), ns=()):
        self.che = che
        self.t = lex(text, che)
        self.i = 0
        self.types = set(BUILTIN) | set(types)
        self.ns = set(ns) | ({"OS"} if che else set())
        if che:
            for k in range(len(self.t)):
                if self.t[k][0] == "id" and self.t[k][1] == "typedef":
                    self.types.add(self._typedef_name(k + 1))
                if self.t[k][0] == "pp" and self.t[k][1].startswith("#import"):
                    self.ns.add(self.t[k][1][7:].strip().split("/")[-1].replace(".c", ""))
                if self.t[k][0] == "pp" and self.t[k][1].startswith("#type"):
                    self.types.add(self.t[k][1][5:].strip())
    def _typedef_name(self, k):
        d, last = 0, None
        if self.t[k][1] == "{":
            while True:
                x = self.t[k][1]
                d += (x == "{") - (x == "}")
                k += 1
                if d == 0:
                    return self.t[k][1]
        while self.t[k][1] not in (";", "(", "["):
            last = self.t[k][1]
            k += 1
        return last
    # -- token helpers
    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]
    def is_(self, *ps):
        x = self.peek()
        return x[0] in ("p", "id") and x[1] in ps
    def eat(self, p):
        if self.is_(p):
            self.i += 1
            return True
        return False
    def need(self, p):
        if not self.eat(p):
            raise CErr("expected %r, got %r at %d:%d" % (p, self.peek()[1], self.peek()[2], self.peek()[3]))
    def ident(self):
        x = self.peek()
        if x[0] != "id" or x[1] in KW:
            raise CErr("expected a name, got %r at %d:%d" % (x[1], x[2], x[3]))
        self.i += 1
        return x[1]
    def is_type(self, k=0):
        x = self.peek(k)
        if x[0] != "id":
            return False
        if x[1] in ("const", "struct", "union", "enum") or x[1] in self.types:
            return True
        if self.che and x[1] in self.ns and self.peek(k + 1)[1] == "." and (x[1] + "." + str(self.peek(k + 2)[1])) in self.types:
            return True
        return False
    # -- types: returns (const, name)
    def typename(self):
        const = False
        while self.eat("const"):
            const = True
        if self.is_("struct", "union", "enum"):
            k = self.peek()[1]
            self.i += 1
            n = k + " " + self.ident()
        else:
            n = self.ident()
            if self.che and n in self.ns and self.is_("."):
                self.i += 1
                n = n + "." + self.ident()
            while n in ("long", "unsigned", "short", "signed") and self.is_("long", "int", "char", "short", "unsigned"):
                n += " " + self.ident()
        while self.eat("const"):
            const = True
        return (const, n)
    def abstract(self):
        """A type name with stars: (const, name, stars)."""
        c, n = self.typename()
        s = 0
        while self.eat("*"):
            s += 1
        return (c, n, s)
    def declarator(self):
        s = 0
        while self.eat("*"):
            s += 1
        name = self.ident()
        dims = []
        while self.eat("["):
            dims.append(None if self.is_("]") else self.expr())
            self.need("]")
        return (s, name, dims)
    # -- expressions
    def expr(self):
        e = self.assign()
        while not self.che and self.is_(",") and self.comma_ok:
            self.i += 1
            e = ("comma", e, self.assign())
        return e
    comma_ok = False
    def assign(self):
        a = self.cond()
        if self.peek()[0] == "p" and self.peek()[1] in ASG:
            op = self.peek()[1]
            self.i += 1
            return ("asg", op, a, self.assign())
        return a
    def cond(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            return ("cond", c, a, self.cond())
        return c
    def binary(self, lv):
        if lv == len(BIN):
            return self.unary()
        a = self.binary(lv + 1)
        while self.peek()[0] == "p" and self.peek()[1] in BIN[lv]:
            op = self.peek()[1]
            self.i += 1
            a = ("bin", op, a, self.binary(lv + 1))
        return a
    def unary(self):
        x = self.peek()
        if x[0] == "p" and x[1] in ("!", "~", "-", "+", "*", "&", "++", "--"):
            self.i += 1
            return ("pre", x[1], self.unary())
        if x[1] == "sizeof" and x[0] == "id":
            self.i += 1
            if self.is_("(") and self.is_type(1):
                self.i += 1
                t = self.abstract()
                self.need(")")
                return ("sizeof_t", t)
            return ("sizeof_e", self.unary())
        if x[1] == "(" and x[0] == "p" and self.is_type(1):
            self.i += 1
            t = self.abstract()
            self.need(")")
            if self.is_("{"):
                raise CErr("compound literal")
            return ("cast", t, self.unary())
        return self.postfix()
    def postfix(self):
        e = self.primary()
        while True:
            if self.eat("("):
                args = []
                if not self.is_(")"):
                    args.append(self.assign())
                    while self.eat(","):
                        args.append(self.assign())
                self.need(")")
                e = ("call", e, args)
            elif self.eat("["):
                i = self.expr()
                self.need("]")
                e = ("idx", e, i)
            elif self.is_("++", "--"):
                op = self.peek()[1]
                self.i += 1
                e = ("post", op, e)
            elif self.is_(".", "->"):
                op = self.peek()[1]
                self.i += 1
                e = ("fld", op, e, self.ident())
            else:
                return e
    def primary(self):
        x = self.peek()
        if x[0] == "num":
            self.i += 1
            return ("num", x[1])
        if x[0] == "str":
            b = b""
            while self.peek()[0] == "str":
                b += self.peek()[1]
                self.i += 1
            return ("str", b)
        if x[0] == "chr":
            self.i += 1
            return ("chr", x[1])
        if x[1] == "(" and x[0] == "p":
            self.i += 1
            e = self.expr()
            self.need(")")
            return e
        if x[1] == "{" and x[0] == "p":
            return self.complit()
        n = self.ident()
        if self.che and n in self.ns and self.is_(".") and self.peek(1)[0] == "id":
            self.i += 1
            m = self.ident()
            return ("id", m if n == "OS" else n + "." + m)
        return ("id", n)
    def complit(self):
        self.need("{")
        es = []
        while not self.is_("}"):
            if self.eat("."):
                k = ("f", self.ident())
                self.need("=")
            elif self.eat("["):
                k = ("i", self.expr())
                self.need("]")
                self.need("=")
            else:
                k = None
            es.append((k, self.assign()))
            if not self.eat(","):
                break
        self.need("}")
        return ("lit", es)
    # -- statements
    def block(self):
        self.need("{")
        r = []
        while not self.is_("}"):
            r.append(self.stmt())
        self.need("}")
        return ("block", r)
    def stmt(self):
        x = self.peek()
        if x[0] == "eof":
            raise CErr("end of file in a statement")
        if self.is_("{"):
            return self.block()
        if self.eat(";"):
            return ("empty",)
        if self.eat("break"):
            self.need(";")
            return ("break",)
        if self.eat("continue"):
            self.need(";")
            return ("continue",)
        if self.eat("return"):
            e = None if self.is_(";") else self.expr()
            self.need(";")
            return ("return", e)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else None
            return ("if", c, a, b)
        if self.eat("while"):
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("while", c, self.stmt())
        if self.eat("do"):
            b = self.stmt()
            self.need("while")
            self.need("(")
            c = self.expr()
            self.need(")")
            self.need(";")
            return ("do", c, b)
        if self.eat("for"):
            self.need("(")
            if self.is_(";"):
                init = ("empty",)
                self.i += 1
            elif self.is_type():
                init = self.decl()
            else:
                self.comma_ok = True
                init = ("expr", self.expr())
                self.comma_ok = False
                self.need(";")
            c = None if self.is_(";") else self.expr()
            self.need(";")
            self.comma_ok = True
            a = None if self.is_(")") else self.expr()
            self.comma_ok = False
            self.need(")")
            return ("for", init, c, a, self.stmt())
        if self.eat("switch"):
            return self.switch()
        if self.is_type() and not (self.peek(1)[0] == "p" and self.peek(1)[1] in ("(",)):
            return self.decl()
        e = self.expr()
        self.need(";")
        return ("expr", e)
    def decl(self):
        t = self.typename()
        ds = []
        while True:
            s, n, dims = self.declarator()
            init = self.assign() if self.eat("=") else None
            ds.append((t, s, n, dims, init))
            if self.che or not self.eat(","):
                break
        self.need(";")
        return ("decl", ds)
    def switch(self):
        if self.che:
            isstr = False
            if self.peek()[1] == "str" and self.peek()[0] == "id":
                self.i += 1
                isstr = True
            self.need("(")
            v = self.expr()
            self.need(")")
            self.need("{")
            cases, dflt = [], None
            while self.eat("case"):
                vs = [self.primary()]
                while self.eat(","):
                    vs.append(self.primary())
                self.need(":")
                cases.append((vs, self.block()))
            if self.eat("default"):
                self.need(":")
                dflt = self.block()
            self.need("}")
            return ("sw", isstr, v, cases, dflt)
        self.need("(")
        v = self.expr()
        self.need(")")
        if not self.is_("{"):
            raise CErr("switch body is not a block")
        self.i += 1
        items = []
        while not self.is_("}"):
            if self.eat("case"):
                e = self.cond()
                self.need(":")
                items.append(("case", e))
            elif self.eat("default"):
                self.need(":")
                items.append(("default",))
            else:
                items.append(self.stmt())
        self.need("}")
        return ("csw", v, items)
    # -- modules
    def params(self):
        self.need("(")
        ps, var = [], False
        if self.is_("void") and self.peek(1)[1] == ")":
            self.i += 1
        elif not self.is_(")"):
            while True:
                if self.eat("..."):
                    var = True
                    break
                t = self.typename()
                if self.che:
                    ps.append((t,) + self.declarator())
                    while self.is_(",") and not (self.is_type(1) or self.peek(1)[1] == "..."):
                        self.i += 1
                        ps.append((t,) + self.declarator())
                else:
                    s = 0
                    while self.eat("*"):
                        s += 1
                    if self.peek()[0] == "id":
                        ps.append((t, s) + self.declarator()[1:])
                    else:
                        dims = []
                        while self.eat("["):
                            dims.append(None if self.is_("]") else self.expr())
                            self.need("]")
                        ps.append((t, s, None, dims))
                if not self.eat(","):
                    break
        self.need(")")
        return ps, var
    def anon(self):
        self.need("(")
        ps, var = [], False
        if self.is_("void") and self.peek(1)[1] == ")":
            self.i += 1
        elif not self.is_(")"):
            while True:
                if self.eat("..."):
                    var = True
                    break
                ps.append(self.abstract())
                if not self.eat(","):
                    break
        self.need(")")
        return ps, var
    def fields(self):
        """Inside { }: [('f', type, stars, name, dims) | ('u', fields, stars, name, dims)]."""
        self.need("{")
        r = []
        while not self.is_("}"):
            if self.is_("union") and self.peek(1)[1] == "{":
                self.i += 1
                fs = self.fields()
                r.append(("u", fs) + self.declarator())
                self.need(";")
                continue
            t = self.typename()
            r.append(("f", t) + self.declarator())
            while self.eat(","):
                r.append(("f", t) + self.declarator())
            self.need(";")
        self.need("}")
        return r
    def module(self):
        """List of declarations in order, as dicts."""
        out = []
        while self.peek()[0] != "eof":
            x = self.peek()
            if x[0] == "pp":
                self.i += 1
                out.append(dict(k="pp", text=x[1]))
                continue
            if self.eat(";"):
                continue
            pub = self.eat("pub")
            static = self.eat("static")
            if self.is_("enum") and self.peek(1)[1] == "{":
                self.i += 2
                es = []
                while not self.is_("}"):
                    n = self.ident()
                    es.append((n, self.cond() if self.eat("=") else None))
                    if not self.eat(","):
                        break
                self.need("}")
                if self.che:
                    self.eat(";")
                else:
                    self.need(";")
                out.append(dict(k="enum", pub=pub, entries=es))
                continue
            if self.eat("typedef"):
                if self.che and self.is_("{"):
                    fs = self.fields()
                    n = self.ident()
                    self.need(";")
                    out.append(dict(k="structdef", pub=pub, name=n, fields=fs))
                    continue
                t = self.typename()
                s = 0
                while self.eat("*"):
                    s += 1
                n = self.ident()
                par = self.anon() if self.is_("(") else None
                dims = []
                while self.eat("["):
                    dims.append(None if self.is_("]") else self.expr())
                    self.need("]")
                self.need(";")
                self.types.add(n)
                out.append(dict(k="typedef", pub=pub, type=t, stars=s, name=n, params=par, dims=dims))
                continue
            if self.is_("struct") and self.peek(2)[1] in ("{", ";"):
                self.i += 1
                n = self.ident()
                if self.eat(";"):
                    out.append(dict(k="fwdstruct", name=n))
                    continue
                fs = self.fields()
                self.need(";")
                out.append(dict(k="struct", name=n, fields=fs))
                continue
            t = self.typename()
            s = 0
            while self.eat("*"):
                s += 1
            n = self.ident()
            if self.is_("("):
                ps, var = self.params()
                if not self.che and self.eat(";"):
                    out.append(dict(k="proto", static=static, type=t, stars=s, name=n, params=ps, variadic=var))
                    continue
                b = self.block() if self.is_("{") or not self.che else self.stmt()
                out.append(dict(k="func", static=static, pub=pub, type=t, stars=s, name=n, params=ps, variadic=var, body=b))
                continue
            dims = []
            while self.eat("["):
                dims.append(None if self.is_("]") else self.expr())
                self.need("]")
            init = self.assign() if self.eat("=") else None
            self.need(";")
            out.append(dict(k="var", static=static, type=t, stars=s, name=n, dims=dims, init=init))
        return out

def parse_c(b):
    return Parser(b.decode("utf-8", "surrogateescape") if isinstance(b, bytes) else b).module()

def parse_che(b, types=()):
    return Parser(b.decode("utf-8", "surrogateescape") if isinstance(b, bytes) else b, che=True, types=types).module()

def show(e):
    """Fully parenthesised rendering."""
    k = e[0]
    if k in ("id", "num"):
        return e[1]
    if k in ("str", "chr"):
        return repr(e[1])
    if k in ("bin", "asg"):
        return "(%s %s %s)" % (show(e[2]), e[1], show(e[3]))
    if k == "pre":
        return "(%s %s)" % (e[1], show(e[2]))
    if k == "post":
        return "(%s %s)" % (show(e[2]), e[1])
    if k == "idx":
        return "%s[%s]" % (show(e[1]), show(e[2]))
    if k == "fld":
        return "%s%s%s" % (show(e[2]), e[1], e[3])
    if k == "call":
        return "%s(%s)" % (show(e[1]), ", ".join(show(x) for x in e[2]))
    if k == "cast":
        return "((%s)%s)" % (tshow(e[1]), show(e[2]))
    if k == "sizeof_t":
        return "sizeof(%s)" % tshow(e[1])
    if k == "sizeof_e":
        return "sizeof %s" % show(e[1])
    return repr(e)

def tshow(t):
    return ("const " if t[0] else "") + t[1] + "*" * (t[2] if len(t) > 2 else 0)
