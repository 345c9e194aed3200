"""A small SystemVerilog simulator: the synthesisable subset the modules under hw/ are written in.

Modules are parsed, elaborated (parameters, includes, instances, generate blocks) and every
process is compiled to Python with the standard's widths and signs (IEEE 1800, 11.6-11.8).
Two-valued; all variables hold random values until they are driven, so that a module which
reads what nothing ever drives does not look deterministic.  Processes on edges take their
non-blocking assignments together; everything else is re-evaluated until nothing changes."""
import os, re, random


class SvError(Exception):
    pass


class Unsupported(SvError):
    pass


TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\(\*[^)]*?\*\))
 |(?P<num>\d*\s*'\s*[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ?_]+|'[01xXzZ](?![0-9a-zA-Z_])|\d[\d_]*)
 |(?P<str>"[^"]*")
 |(?P<id>[A-Za-z_$\\][A-Za-z0-9_$]*)
 |(?P<op><<<=|>>>=|===|!==|==\?|!=\?|<<<|>>>|<<=|>>=|\*\*|<=|>=|==|!=|&&|\|\||<<|>>|~&|~\||~\^|\^~|\+=|-=|\*=|/=|%=|&=|\|=|\^=|\+\+|--|\+:|-:|->|::|'\{|'\(|[-+*/%&|^~!<>=?:;,.()\[\]{}@\#'])
""", re.X | re.S)


def preprocess(path, seen, defs, find):
    """text of a file with includes and simple macros expanded; every file once"""
    real = os.path.realpath(path)
    if real in seen:
        return ""
    seen.add(real)
    text = open(path).read()
    text = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m[0]), text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    out, on = [], [True]
    for line in text.split("\n"):
        m = re.match(r"\s*`(\w+)\s*(.*)", line)
        if m and m[1] in ("include", "define", "undef", "ifdef", "ifndef", "else", "endif", "timescale", "default_nettype", "resetall"):
            d, a = m[1], m[2].strip()
            if d == "ifdef":
                on.append(on[-1] and a.split()[0] in defs)
            elif d == "ifndef":
                on.append(on[-1] and a.split()[0] not in defs)
            elif d == "else":
                on[-1] = on[-2] and not on[-1]
            elif d == "endif":
                on.pop()
            elif on[-1] and d == "include":
                f = a.strip().strip('"<>')
                p = os.path.join(os.path.dirname(path), f)
                if not os.path.exists(p):
                    p = find(os.path.basename(f))
                if p is None:
                    raise SvError("%s: include %s not found" % (path, f))
                out.append(preprocess(p, seen, defs, find))
            elif on[-1] and d == "define":
                k = re.match(r"(\w+)(\()?\s*(.*)", a)
                if k[2]:
                    raise Unsupported("macro with arguments")
                defs[k[1]] = k[3]
            elif on[-1] and d == "undef":
                defs.pop(a, None)
            continue
        if on[-1]:
            out.append(line)
    text = "\n".join(out)
    for _ in range(8):
        new = re.sub(r"`(\w+)", lambda m: defs[m[1]] if m[1] in defs else m[0], text)
        if new == text:
            break
        text = new
    return text


def lex(text):
    toks, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SvError("cannot read %r" % text[i:i + 30])
        i = m.end()
        if m.lastgroup != "ws":
            toks.append((m.lastgroup, m[0], text.count("\n", 0, m.start()) + 1))
    toks.append(("eof", "", 0))
    return toks


TYPES = {"logic", "wire", "reg", "bit", "int", "integer", "byte", "shortint", "longint", "tri", "var", "genvar"}
IWID = {"int": 32, "integer": 32, "byte": 8, "shortint": 16, "longint": 64, "genvar": 32}
BIN = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="], ["<", "<=", ">", ">="],
       ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]
PREC = {o: i for i, g in enumerate(BIN) for o in g}
ASG = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "<<<=", ">>>="}


class Parser:
    def __init__(self, toks):
        self.t, self.i, self.types = toks, 0, {}

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1] if self.t[min(self.i + k, len(self.t) - 1)][0] != "str" else "<str>"

    def kind(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def at(self, *s):
        return self.kind() in ("id", "op") and self.peek() in s

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise SvError("line %d: expected %s before %r" % (self.t[self.i][2], s, self.peek()))

    def ident(self):
        if self.kind() != "id":
            raise SvError("line %d: expected a name before %r" % (self.t[self.i][2], self.peek()))
        return self.next()

    # ------------------------------------------------------------ modules --
    def source(self):
        mods = {}
        while self.kind() != "eof":
            if self.at("module"):
                m = self.module()
                mods[m["name"]] = m
            elif self.at("typedef"):
                self.typedef()
            elif self.eat(";"):
                pass
            else:
                raise Unsupported("line %d: %r outside a module" % (self.t[self.i][2], self.peek()))
        return mods

    def module(self):
        self.need("module")
        self.eat("automatic")
        m = dict(name=self.ident(), params=[], ports=[], items=[], order=[])
        if self.eat("#"):
            self.need("(")
            typ = None
            while not self.eat(")"):
                local = self.at("localparam")
                if self.at("parameter", "localparam"):
                    self.next()
                    typ = self.ptype()
                m["params"].append((self.ident(), self.default(), typ, local))
                if not self.at(")"):
                    self.need(",")
        if self.eat("("):
            d, typ = None, None
            while not self.eat(")"):
                if self.at("input", "output", "inout"):
                    d = self.next()
                    typ = self.dtype()
                elif d is None:
                    m["order"].append(self.ident())
                    if not self.at(")"):
                        self.need(",")
                    continue
                n = self.ident()
                if self.at("["):
                    raise Unsupported("unpacked port")
                m["ports"].append((n, d, typ))
                if not self.at(")"):
                    self.need(",")
        self.need(";")
        self.items(m["items"], ("endmodule",), m)
        self.next()
        if self.eat(":"):
            self.ident()
        return m

    def ptype(self):
        if self.at(*TYPES) or self.at("[", "signed", "unsigned"):
            return self.dtype()
        return None

    def default(self):
        return self.expr() if self.eat("=") else None

    def dtype(self):
        """(range or None, signed)"""
        w, signed = None, False
        while self.at(*TYPES):
            t = self.next()
            if t in IWID:
                w, signed = ("int", IWID[t]), True
        if self.kind() == "id" and self.peek() in self.types:
            return self.types[self.next()]
        if self.eat("signed"):
            signed = True
        elif self.eat("unsigned"):
            signed = False
        if self.at("["):
            w = self.range()
            if self.at("["):
                raise Unsupported("several packed dimensions")
        return (w, signed)

    def range(self):
        self.need("[")
        a = self.expr()
        self.need(":")
        b = self.expr()
        self.need("]")
        return ("range", a, b)

    def typedef(self):
        self.need("typedef")
        consts = []
        if self.eat("enum"):
            t = self.dtype() if not self.at("{") else (("int", 32), True)
            self.need("{")
            prev = None
            while not self.eat("}"):
                n = self.ident()
                prev = self.default() or (("bin", "+", prev, ("num", 1, None, True)) if prev else ("num", 0, None, True))
                consts.append((n, prev, t, True))
                if not self.at("}"):
                    self.need(",")
        elif self.at("struct", "union"):
            raise Unsupported("struct")
        else:
            t = self.dtype()
        self.types[self.ident()] = t
        self.need(";")
        return consts

    def isdecl(self):
        return self.at(*TYPES) or (self.kind() == "id" and self.peek() in self.types)

    def items(self, out, ends, m=None):
        while not self.at(*ends):
            if self.kind() == "eof":
                raise SvError("unexpected end of file")
            if self.eat(";"):
                continue
            if self.at("input", "output", "inout"):
                d = self.next()
                typ = self.dtype()
                while True:
                    m["ports"].append((self.ident(), d, typ))
                    if not self.eat(","):
                        break
                self.need(";")
            elif self.at("typedef"):
                for c in self.typedef():
                    out.append(("param",) + c)
            elif self.at("localparam", "parameter"):
                local = self.next() == "localparam"
                typ = self.ptype()
                while True:
                    n = self.ident()
                    out.append(("param", n, self.default(), typ, local))
                    if not self.eat(","):
                        break
                self.need(";")
            elif self.isdecl():
                self.decls(out)
            elif self.eat("assign"):
                while True:
                    l = self.lvalue()
                    self.need("=")
                    out.append(("comb", ("=", l, self.expr(), False)))
                    if not self.eat(","):
                        break
                self.need(";")
            elif self.at("always_comb", "always_latch"):
                self.next()
                out.append(("comb", self.stmt()))
            elif self.at("always_ff", "always"):
                self.next()
                self.need("@")
                edges = self.sens()
                s = self.stmt()
                out.append(("ff", edges, s) if edges else ("comb", s))
            elif self.at("initial", "final"):
                raise Unsupported("initial block")
            elif self.at("function"):
                out.append(self.function())
            elif self.eat("generate"):
                self.items(out, ("endgenerate",), m)
                self.next()
            elif self.at("for"):
                out.append(self.genfor())
            elif self.at("if"):
                out.append(self.genif())
            elif self.at("begin"):
                out.append(("block", self.genblock()))
            elif self.at("assert", "assume", "cover", "property"):
                raise Unsupported("assertion")
            elif self.kind() == "id" and (self.kind(1) == "id" or self.peek(1) == "#"):
                self.instance(out)
            else:
                raise SvError("line %d: cannot read item at %r" % (self.t[self.i][2], self.peek()))

    def decls(self, out):
        gen, net = self.at("genvar"), self.at("wire", "tri")
        typ = self.dtype()
        while True:
            n = self.ident()
            dims = []
            while self.at("["):
                if self.peek(2) == "]":            # [size]
                    self.need("[")
                    e = self.expr()
                    self.need("]")
                    dims.append(("range", ("num", 0, None, True), ("bin", "-", e, ("num", 1, None, True))))
                else:
                    dims.append(self.range_or_size())
            if len(dims) > 1:
                raise Unsupported("several unpacked dimensions")
            if not gen:
                out.append(("var", n, typ, dims[0] if dims else None))
            if self.eat("="):
                out.append(("comb" if net else "init", ("=", ("id", n), self.expr(), False)))
            if not self.eat(","):
                break
        self.need(";")

    def range_or_size(self):
        self.need("[")
        a = self.expr()
        if self.eat(":"):
            b = self.expr()
            self.need("]")
            return ("range", a, b)
        self.need("]")
        return ("range", ("num", 0, None, True), ("bin", "-", a, ("num", 1, None, True)))

    def sens(self):
        edges = []
        if self.eat("*"):
            return []
        self.need("(")
        if self.eat("*"):
            self.need(")")
            return []
        while True:
            if self.at("posedge", "negedge"):
                e = self.next()
                edges.append((e, self.expr()))
            else:
                self.expr()
            if not (self.eat("or") or self.eat(",")):
                break
        self.need(")")
        return edges

    def function(self):
        self.need("function")
        self.eat("automatic") or self.eat("static")
        typ = (None, False)
        if self.eat("void"):
            raise Unsupported("void function")
        if not (self.kind() == "id" and self.peek(1) in ("(", ";")):
            typ = self.dtype()
        name = self.ident()
        args = []
        if self.eat("("):
            t = (None, False)
            while not self.eat(")"):
                if self.eat("input") or self.isdecl() or self.at("["):
                    t = self.dtype()
                args.append((self.ident(), t))
                if not self.at(")"):
                    self.need(",")
        self.need(";")
        body = []
        while not self.at("endfunction"):
            if self.eat("input"):
                t = self.dtype()
                while True:
                    args.append((self.ident(), t))
                    if not self.eat(","):
                        break
                self.need(";")
            else:
                body.append(self.stmt())
        self.next()
        if self.eat(":"):
            self.ident()
        return ("func", name, typ, args, ("begin", body))

    def genblock(self):
        out = []
        if self.eat("begin"):
            if self.eat(":"):
                self.ident()
            self.items(out, ("end",))
            self.next()
            if self.eat(":"):
                self.ident()
        else:
            self.single(out)
        return out

    def single(self, out):
        """one item"""
        if self.at("if"):
            out.append(self.genif())
        elif self.at("for"):
            out.append(self.genfor())
        elif self.eat("assign"):
            l = self.lvalue()
            self.need("=")
            out.append(("comb", ("=", l, self.expr(), False)))
            self.need(";")
        elif self.at("always_ff", "always"):
            self.next()
            self.need("@")
            edges = self.sens()
            s = self.stmt()
            out.append(("ff", edges, s) if edges else ("comb", s))
        elif self.eat("always_comb"):
            out.append(("comb", self.stmt()))
        elif self.kind() == "id":
            self.instance(out)
        else:
            raise Unsupported("generate item %r" % self.peek())

    def genfor(self):
        self.need("for")
        self.need("(")
        self.eat("genvar")
        self.eat("int")
        v = self.ident()
        self.need("=")
        a = self.expr()
        self.need(";")
        c = self.expr()
        self.need(";")
        s = self.step()
        self.need(")")
        return ("genfor", v, a, c, s, self.genblock())

    def genif(self):
        self.need("if")
        self.need("(")
        c = self.expr()
        self.need(")")
        a = self.genblock()
        b = []
        if self.eat("else"):
            b = [self.genif()] if self.at("if") else self.genblock()
        return ("genif", c, a, b)

    def instance(self, out):
        mod = self.ident()
        params = []
        if self.eat("#"):
            self.need("(")
            params = self.conns()
        while True:
            name = self.ident()
            if self.at("["):
                raise Unsupported("array of instances")
            self.need("(")
            out.append(("inst", mod, name, params, self.conns()))
            if not self.eat(","):
                break
        self.need(";")

    def conns(self):
        c = []
        while not self.eat(")"):
            if self.eat("."):
                if self.eat("*"):
                    c.append(("*", None))
                else:
                    n = self.ident()
                    if self.eat("("):
                        e = None if self.at(")") else self.expr()
                        self.need(")")
                    else:
                        e = ("id", n)
                    c.append((n, e))
            else:
                c.append((None, self.expr()))
            if not self.at(")"):
                self.need(",")
        return c

    # --------------------------------------------------------- statements --
    def step(self):
        if self.at("++", "--"):
            o = self.next()
            n = self.lvalue()
            return ("=", n, ("bin", o[0], n, ("num", 1, None, True)), False)
        l = self.lvalue()
        if self.at("++", "--"):
            return ("=", l, ("bin", self.next()[0], l, ("num", 1, None, True)), False)
        if self.at(*ASG):
            o = self.next()[:-1]
            return ("=", l, ("bin", o, l, self.expr()), False)
        if self.eat("="):
            return ("=", l, self.expr(), False)
        self.need("<=")
        return ("=", l, self.expr(), True)

    def stmt(self):
        if self.eat(";"):
            return ("begin", [])
        if self.at("unique", "unique0", "priority"):
            self.next()
        if self.eat("begin"):
            if self.eat(":"):
                self.ident()
            b = []
            while not self.eat("end"):
                b.append(self.stmt())
            if self.eat(":"):
                self.ident()
            return ("begin", b)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            return ("if", c, a, self.stmt() if self.eat("else") else ("begin", []))
        if self.at("case", "casez", "casex"):
            k = self.next()
            self.need("(")
            e = self.expr()
            self.need(")")
            if self.eat("inside"):
                raise Unsupported("case inside")
            arms, dflt = [], ("begin", [])
            while not self.eat("endcase"):
                if self.eat("default"):
                    self.eat(":")
                    dflt = self.stmt()
                else:
                    ls = [self.expr()]
                    while self.eat(","):
                        ls.append(self.expr())
                    self.need(":")
                    arms.append((ls, self.stmt()))
            return ("case", k, e, arms, dflt)
        if self.eat("for"):
            self.need("(")
            if self.isdecl():
                self.dtype()
                decl = True
            else:
                decl = False
            v = self.ident()
            self.need("=")
            a = self.expr()
            self.need(";")
            c = self.expr()
            self.need(";")
            s = self.step()
            self.need(")")
            return ("for", v, decl, a, c, s, self.stmt())
        if self.eat("return"):
            e = self.expr()
            self.need(";")
            return ("return", e)
        if self.at("automatic") or self.isdecl():
            self.eat("automatic")
            typ = self.dtype()
            ds = []
            while True:
                n = self.ident()
                ds.append((n, typ, self.default()))
                if not self.eat(","):
                    break
            self.need(";")
            return ("local", ds)
        if self.at("while", "repeat", "forever", "wait", "fork", "disable", "foreach", "do") or self.kind() == "id" and self.peek().startswith("$"):
            raise Unsupported("statement %r" % self.peek())
        s = self.step()
        self.need(";")
        return s

    def lvalue(self):
        if self.at("{"):
            self.next()
            ps = [self.lvalue()]
            while self.eat(","):
                ps.append(self.lvalue())
            self.need("}")
            return ("cat", ps)
        return self.selects(("id", self.ident()))

    # -------------------------------------------------------- expressions --
    def expr(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            return ("?", c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(BIN):
            return self.unary()
        a = self.binary(lv + 1)
        while self.kind() == "op" and self.peek() in BIN[lv]:
            o = self.next()
            a = ("bin", o, a, self.binary(lv + 1))
        return a

    def unary(self):
        if self.kind() == "op" and self.peek() in ("+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"):
            return ("un", self.next(), self.unary())
        return self.primary()

    def primary(self):
        k, x = self.kind(), self.peek()
        if k == "num":
            self.next()
            e = number(x)
            if e[0] == "num" and e[2] is None and self.at("'("):
                self.next()
                v = self.expr()
                self.need(")")
                return ("cast", e, v)
            return e
        if self.eat("("):
            e = self.expr()
            self.need(")")
            if self.at("'("):
                self.next()
                v = self.expr()
                self.need(")")
                return ("cast", e, v)
            return e
        if self.eat("{"):
            e = self.expr()
            if self.at("{"):
                self.need("{")
                ps = [self.expr()]
                while self.eat(","):
                    ps.append(self.expr())
                self.need("}")
                self.need("}")
                return self.selects(("rep", e, ("cat", ps)))
            ps = [e]
            while self.eat(","):
                ps.append(self.expr())
            self.need("}")
            return self.selects(("cat", ps))
        if k == "id":
            n = self.next()
            if self.at("'("):
                self.next()
                v = self.expr()
                self.need(")")
                if n in TYPES or n in self.types:
                    w, sg = self.types[n] if n in self.types else (("int", IWID[n]), True) if n in IWID else (None, False)
                    w = ("num", 1, None, True) if w is None else ("num", w[1], None, True) if w[0] == "int" else \
                        ("bin", "+", ("bin", "-", w[1], w[2]), ("num", 1, None, True))
                    return ("cast", ("id", "signed" if sg else "unsigned"), ("cast", w, v))
                return ("cast", ("id", n), v)
            if n in TYPES:
                raise Unsupported("type expression")
            if self.eat("("):
                a = []
                while not self.eat(")"):
                    a.append(self.expr())
                    if not self.at(")"):
                        self.need(",")
                return ("call", n, a)
            return self.selects(("id", n))
        if self.at("'{"):
            raise Unsupported("assignment pattern")
        raise SvError("line %d: cannot read expression at %r" % (self.t[self.i][2], x))

    def selects(self, e):
        while self.at("["):
            self.next()
            a = self.expr()
            if self.at(":", "+:", "-:"):
                o = self.next()
                e = ("part", e, o, a, self.expr())
            else:
                e = ("sel", e, a)
            self.need("]")
        if self.at(".") and self.kind(1) == "id":
            raise Unsupported("hierarchical name")
        return e


def number(x):
    x = re.sub(r"[\s_]", "", x)
    if x[0] == "'" and len(x) == 2:
        if x[1] in "xXzZ":
            return ("fill", 0)
        return ("fill", int(x[1]))
    if "'" not in x:
        return ("num", int(x), None, True)
    w, r = x.split("'")
    s = r[0] in "sS"
    r = r[1:] if s else r
    base = {"b": 2, "o": 8, "d": 10, "h": 16}[r[0].lower()]
    care = None
    if re.search("[xXzZ?]", r[1:]):
        if base != 2:
            raise Unsupported("unknown digits")
        care = int(re.sub("[xXzZ?]", "0", re.sub("[01]", "1", r[1:])), 2)
        r = r[0] + re.sub("[xXzZ?]", "0", r[1:])
    v = int(r[1:], base)
    w = int(w) if w else 32
    return ("num", v & ((1 << w) - 1), w, s) + ((care,) if care is not None else ())


# ------------------------------------------------------------ elaboration --
class Var:
    __slots__ = ("slot", "w", "s", "lo", "up", "n", "alo", "name", "local")

    def __init__(self, name, w, s=False, lo=0, up=True, n=None, alo=0):
        self.name, self.w, self.s, self.lo, self.up, self.n, self.alo = name, w, s, lo, up, n, alo
        self.slot, self.local = None, None


class Const:
    def __init__(self, v, w=32, s=True):
        self.v, self.w, self.s = v, w, s


class Design:
    """an elaborated module with its processes"""

    def __init__(self, top, params, lib):
        self.lib, self.slots, self.src, self.inits, self.nf = lib, [], [], [], 0
        self.comb, self.ff = [], []
        self.g = g = dict(bit=bit, sh=sh, at=at, put=put, ins=ins, sdiv=sdiv, smod=smod)
        scope = self.module(top, params, top)
        self.ports = {n: (d, scope[n]) for n, d, t in lib(top)["ports"]}
        exec(compile("\n\n".join(self.src) + "\n", "<sv %s>" % top, "exec"), g)
        self.comb = [g[f] for f in self.comb]
        self.ff = [(e, g[f]) for e, f in self.ff]
        self.edges = sorted({i for e, _ in self.ff for _, i in e})

    def alloc(self, v):
        v.slot = len(self.slots)
        for _ in range(v.n or 1):
            self.slots.append(v.w)
        return v

    def var(self, name, typ, sc, dims=None):
        rng, s = typ
        w, lo, up = 1, 0, True
        if rng is not None and rng[0] == "int":
            w = rng[1]
        elif rng is not None:
            a, b = self.const(rng[1], sc), self.const(rng[2], sc)
            w, lo, up = abs(a - b) + 1, min(a, b), a >= b
        n, alo = None, 0
        if dims:
            a, b = self.const(dims[1], sc), self.const(dims[2], sc)
            n, alo = abs(a - b) + 1, min(a, b)
        return Var(name, w, s, lo, up, n, alo)

    def module(self, name, over, path):
        m = self.lib(name)
        sc = {}
        names = [p[0] for p in m["params"] if not p[3]]
        for i, (k, v) in enumerate(over):
            if k is None:
                if i >= len(names):
                    raise SvError("too many parameters for " + name)
        over = {(names[i] if k is None else k): v for i, (k, v) in enumerate(over)}
        unknown = set(over) - set(names) - {i[1] for i in m["items"] if i[0] == "param" and not i[4]}
        if unknown:
            raise SvError("%s has no parameter %s" % (name, sorted(unknown)))
        for n, e, typ, local in m["params"]:
            self.param(n, e, typ, local, over, sc)
        sc["#over"] = over
        for n, d, t in m["ports"]:
            sc[n] = self.alloc(self.var(path + "." + n, t, sc))
        self.items(m["items"], sc, path)
        return sc

    def param(self, n, e, typ, local, over, sc):
        if not local and n in over:
            v = over[n]
        elif e is None:
            raise SvError("parameter %s has no value" % n)
        else:
            v = self.const(e, sc)
        if typ is not None and typ[0] is not None:
            t = self.var(n, typ, sc)
            v &= (1 << t.w) - 1
            if t.s and v >> (t.w - 1):
                v -= 1 << t.w
            sc[n] = Const(v, t.w, t.s)
        else:
            w, s = (32, True)
            if e is not None and not (not local and n in over):
                w, s = self.size(e, sc)
            sc[n] = Const(v, w, s)

    def items(self, items, sc, path):
        for it in items:                              # declarations first
            if it[0] == "param":
                self.param(it[1], it[2], it[3], it[4], sc.get("#over", {}), sc)
            elif it[0] == "var":
                if it[1] in sc and isinstance(sc[it[1]], Var):
                    continue                          # non-ANSI port redeclared
                sc[it[1]] = self.alloc(self.var(path + "." + it[1], it[2], sc, it[3]))
            elif it[0] == "func":
                self.nf += 1
                sc[it[1]] = ("func", "f%d_%s" % (self.nf, it[1]), self.var(it[1], it[2], sc), [self.var(a, t, sc) for a, t in it[3]], it[4])
        for it in items:
            if it[0] == "func":
                self.function(it[1], sc)
        for it in items:
            k = it[0]
            if k == "comb":
                self.process(it[1], sc, None)
            elif k == "init":
                v = self.look(it[1][1][1], sc)
                self.inits.append((v.slot, self.const(it[1][2], sc) & ((1 << v.w) - 1)))
            elif k == "ff":
                edges = []
                for e, x in it[1]:
                    if x[0] != "id" or not isinstance(sc.get(x[1]), Var) or sc[x[1]].w != 1:
                        raise Unsupported("edge of an expression")
                    edges.append((e, sc[x[1]].slot))
                self.process(it[2], sc, edges)
            elif k == "block":
                self.items(it[1], dict(sc), path)
            elif k == "genif":
                self.items(it[2] if self.const(it[1], sc) else it[3], dict(sc), path + ".g")
            elif k == "genfor":
                v = self.const(it[2], sc)
                for n in range(5000):
                    s2 = dict(sc)
                    s2[it[1]] = Const(v)
                    if not self.const(it[3], s2):
                        break
                    self.items(it[5], s2, "%s.g%d" % (path, n))
                    v = self.const(it[4][2], s2)
                else:
                    raise SvError("endless generate loop")
            elif k == "inst":
                self.instance(it, sc, path)

    def instance(self, it, sc, path):
        _, mod, name, params, conns = it
        over = [(k, self.const(e, sc)) for k, e in params]
        child = self.module(mod, over, path + "." + name)
        ports = self.lib(mod)["ports"]
        dirs = {n: d for n, d, _ in ports}
        done = {}
        for i, (k, e) in enumerate(conns):
            if k == "*":
                for n in dirs:
                    if n not in done and n not in [c[0] for c in conns]:
                        done[n] = ("id", n)
                continue
            if k is None:
                if i >= len(ports):
                    raise SvError("too many connections to " + mod)
                k = ports[i][0]
            if k not in dirs:
                raise SvError("%s has no port %s" % (mod, k))
            done[k] = e
        for n, e in done.items():
            if e is None:
                continue
            both = dict(sc)
            both["#port"] = child[n]
            if dirs[n] == "input":
                self.process(("=", ("id", "#port"), e, False), both, None)
            elif dirs[n] == "output":
                self.process(("=", e, ("id", "#port"), False), both, None)
            else:
                raise Unsupported("inout")

    # ------------------------------------------------------------ compile --
    def process(self, st, sc, edges):
        name = "p%d" % len([x for x in self.src if x.startswith("def p")])
        L = Lines(self, dict(sc), edges is not None)
        L.stmt(st, 1)
        self.src.append("\n".join(["def %s(V, N):" % name] + (L.out or ["  pass"])))
        if edges is None:
            self.comb.append(name)
        else:
            self.ff.append((edges, name))

    def function(self, n, sc):
        _, fn, ret, args, body = sc[n]
        s2 = dict(sc)
        L = Lines(self, s2, False, func=ret)
        for i, a in enumerate(args):
            a.local = "a%d" % i
            s2[a.name] = a
        ret.local = "r"
        s2[n + "#ret"] = ret
        L.fname = n
        L.stmt(body, 1)
        self.src.append("\n".join(["def %s(V%s):" % (fn, "".join(", a%d" % i for i in range(len(args)))), "  r = 0"] + L.out + ["  return r"]))

    def const(self, e, sc):
        """value of a constant expression, as a Python int (signed)"""
        w, s = self.size(e, sc)
        try:
            v = eval(self.ex(e, w, s, sc), dict(self.g))
        except NameError as x:
            raise Unsupported("not a constant: %s" % x)
        return v - (1 << w) if s and v >> (w - 1) else v

    def look(self, n, sc):
        if n not in sc:
            raise SvError("%s is not declared" % n)
        return sc[n]

    def size(self, e, sc):
        k = e[0]
        if k == "num":
            return (e[2] or max(32, e[1].bit_length() + 1), e[3])
        if k == "fill":
            return (1, False)
        if k == "id":
            v = self.look(e[1], sc)
            if isinstance(v, tuple):
                raise SvError("%s is a function" % e[1])
            return (v.w, v.s)
        if k == "sel":
            b = self.base(e, sc)
            if b.n is not None and e[1][0] == "id":
                return (b.w, b.s)
            return (1, False)
        if k == "part":
            if e[2] == ":":
                return (abs(self.const(e[3], sc) - self.const(e[4], sc)) + 1, False)
            return (self.const(e[4], sc), False)
        if k == "cat":
            return (sum(self.size(p, sc)[0] for p in e[1]), False)
        if k == "rep":
            return (self.const(e[1], sc) * self.size(e[2], sc)[0], False)
        if k == "un":
            if e[1] in ("+", "-", "~"):
                return self.size(e[2], sc)
            return (1, False)
        if k == "bin":
            o = e[1]
            if PREC[o] in (0, 1, 5, 6):
                return (1, False)
            a, b = self.size(e[2], sc), self.size(e[3], sc)
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            return (max(a[0], b[0]), a[1] and b[1])
        if k == "?":
            a, b = self.size(e[2], sc), self.size(e[3], sc)
            return (max(a[0], b[0]), a[1] and b[1])
        if k == "cast":
            if e[1] == ("id", "signed") or e[1] == ("id", "unsigned"):
                return (self.size(e[2], sc)[0], e[1][1] == "signed")
            return (self.const(e[1], sc), self.size(e[2], sc)[1])
        if k == "call":
            if e[1] in ("$signed", "$unsigned"):
                return (self.size(e[2][0], sc)[0], e[1] == "$signed")
            if e[1] in ("$clog2", "$bits", "$countones"):
                return (32, True)
            if e[1] in ("$onehot", "$onehot0"):
                return (1, False)
            f = self.look(e[1], sc)
            if not isinstance(f, tuple):
                raise SvError("%s is not a function" % e[1])
            return (f[2].w, f[2].s)
        raise Unsupported("expression %s" % k)

    def base(self, e, sc):
        while e[0] in ("sel", "part"):
            e = e[1]
        if e[0] != "id":
            return Var("", self.size(e, sc)[0])
        v = self.look(e[1], sc)
        return v if isinstance(v, (Var, Const)) and isinstance(v, Var) else Var(e[1], v.w, v.s)

    def self_(self, e, sc):
        w, s = self.size(e, sc)
        return self.ex(e, w, s, sc)

    def read(self, v):
        return v.local or "V[%d]" % v.slot

    def fit(self, src, w0, w, s):
        """extend w0 bits to w, signed or not"""
        if w <= w0:
            return src
        if not s:
            return src
        return "(((%s) ^ %d) - %d & %d)" % (src, 1 << (w0 - 1), 1 << (w0 - 1), (1 << w) - 1)

    def index(self, b, i, sc, array=False):
        """source of the position of a select"""
        w, s = self.size(i, sc)
        x = self.ex(i, w, s, sc)
        if s:
            x = "((%s ^ %d) - %d)" % (x, 1 << (w - 1), 1 << (w - 1))
        if array:
            return "(%s - %d)" % (x, b.alo)
        return "(%s - %d)" % (x, b.lo) if b.up else "(%d - %s)" % (b.lo + b.w - 1, x)

    def ex(self, e, w, s, sc):
        """Python source of e as an unsigned int of w bits, in a context of sign s"""
        k = e[0]
        M = (1 << w) - 1
        if k == "num":
            w0 = e[2] or max(32, e[1].bit_length() + 1)
            v = e[1]
            if s and e[3] and v >> (w0 - 1):
                v -= 1 << w0
            return str(v & M)
        if k == "fill":
            return str(M if e[1] else 0)
        if k == "id":
            v = self.look(e[1], sc)
            if isinstance(v, Const):
                x = v.v if v.s and s or v.v >= 0 else v.v & ((1 << v.w) - 1)
                return str(x & M)
            if isinstance(v, tuple) or v.n is not None:
                raise SvError("%s cannot be read as a value" % e[1])
            return self.fit(self.read(v), v.w, w, s)
        if k == "sel":
            if e[1][0] == "id":
                b = self.base(e, sc)
                if b.n is not None:
                    ix = self.index(b, e[2], sc, True)
                    return self.fit("at(V, %d, %d, %s)" % (b.slot, b.n, ix), b.w, w, s)
            else:
                b = Var("", self.size(e[1], sc)[0])
            return "bit(%s, %d, %s)" % (self.self_(e[1], sc), b.w, self.index(b, e[2], sc))
        if k == "part":
            b = self.base(e[1], sc) if e[1][0] == "id" else Var("", self.size(e[1], sc)[0])
            lo, pw = self.partpos(e, b, sc)
            return "(sh(%s, %s) & %d)" % (self.self_(e[1], sc), lo, (1 << pw) - 1)
        if k == "cat":
            out, sh = [], 0
            for p in reversed(e[1]):
                pw = self.size(p, sc)[0]
                out.append("(%s << %d)" % (self.self_(p, sc), sh))
                sh += pw
            return "(%s)" % " | ".join(out)
        if k == "rep":
            n, pw = self.const(e[1], sc), self.size(e[2], sc)[0]
            if n < 0:
                raise SvError("negative replication")
            return "(%s * %d)" % (self.self_(e[2], sc), sum(1 << (i * pw) for i in range(n)))
        if k == "un":
            o = e[1]
            if o == "+":
                return self.ex(e[2], w, s, sc)
            if o == "-":
                return "(-%s & %d)" % (self.ex(e[2], w, s, sc), M)
            if o == "~":
                return "(~%s & %d)" % (self.ex(e[2], w, s, sc), M)
            x, xw = self.self_(e[2], sc), self.size(e[2], sc)[0]
            r = {"!": "(0 if %s else 1)" % x, "|": "(1 if %s else 0)" % x, "~|": "(0 if %s else 1)" % x,
                 "&": "(1 if %s == %d else 0)" % (x, (1 << xw) - 1), "~&": "(0 if %s == %d else 1)" % (x, (1 << xw) - 1),
                 "^": "(bin(%s).count('1') & 1)" % x}
            if o in ("~^", "^~"):
                return "(bin(%s).count('1') & 1 ^ 1)" % x
            return r[o]
        if k == "?":
            return "(%s if %s else %s)" % (self.ex(e[2], w, s, sc), self.self_(e[1], sc), self.ex(e[3], w, s, sc))
        if k == "cast":
            if e[1] in (("id", "signed"), ("id", "unsigned")):
                return self.fit(self.self_(e[2], sc), self.size(e[2], sc)[0], w, s and e[1][1] == "signed")
            cw = self.const(e[1], sc)
            ew, es = self.size(e[2], sc)
            x = "(%s & %d)" % (self.ex(e[2], max(cw, ew), es, sc), (1 << cw) - 1)
            return self.fit(x, cw, w, s and es)
        if k == "call":
            n, a = e[1], e[2]
            if n in ("$signed", "$unsigned"):
                return self.fit(self.self_(a[0], sc), self.size(a[0], sc)[0], w, s and n == "$signed")
            if n == "$bits":
                return str(self.size(a[0], sc)[0])
            if n == "$clog2":
                v = self.const(a[0], sc)
                return str(max(v - 1, 0).bit_length())
            if n == "$countones":
                return "bin(%s).count('1')" % self.self_(a[0], sc)
            if n == "$onehot":
                return "(1 if bin(%s).count('1') == 1 else 0)" % self.self_(a[0], sc)
            f = self.look(n, sc)
            if not isinstance(f, tuple):
                raise SvError("%s is not a function" % n)
            if len(a) != len(f[3]):
                raise SvError("arguments of " + n)
            src = "%s(V%s)" % (f[1], "".join(", " + self.asg(v.w, x, sc) for v, x in zip(f[3], a)))
            return self.fit(src, f[2].w, w, s and f[2].s)
        # binary
        o, a, b = e[1], e[2], e[3]
        if o in ("&&", "||"):
            return "(1 if %s %s %s else 0)" % (self.self_(a, sc), {"&&": "and", "||": "or"}[o], self.self_(b, sc))
        if PREC[o] in (5, 6):
            (aw, as_), (bw, bs) = self.size(a, sc), self.size(b, sc)
            cw, cs = max(aw, bw), as_ and bs
            x, y = self.ex(a, cw, cs, sc), self.ex(b, cw, cs, sc)
            if cs and PREC[o] == 6:
                h = 1 << (cw - 1)
                x, y = "(%s ^ %d)" % (x, h), "(%s ^ %d)" % (y, h)
            return "(1 if %s %s %s else 0)" % (x, {"===": "==", "!==": "!="}.get(o, o), y)
        if o in ("<<", "<<<", ">>", ">>>"):
            x, y = self.ex(a, w, s, sc), self.self_(b, sc)
            if o in ("<<", "<<<"):
                return "(%s << min(%s, 64) & %d)" % (x, y, M)
            if o == ">>>" and s:
                h = 1 << (w - 1)
                return "(((%s ^ %d) - %d >> %s) & %d)" % (x, h, h, y, M)
            return "(%s >> %s)" % (x, y)
        if o == "**":
            return "(pow(%s, %s) & %d)" % (self.ex(a, w, s, sc), self.self_(b, sc), M)
        x, y = self.ex(a, w, s, sc), self.ex(b, w, s, sc)
        if o in ("+", "-", "*"):
            return "(%s %s %s & %d)" % (x, o, y, M)
        if o in ("/", "%"):
            if s:
                h = 1 << (w - 1)
                return "(%s((%s ^ %d) - %d, (%s ^ %d) - %d) & %d)" % ({"/": "sdiv", "%": "smod"}[o], x, h, h, y, h, h, M)
            return "(%s((%s), (%s)))" % ({"/": "sdiv", "%": "smod"}[o], x, y)
        if o in ("&", "|", "^"):
            return "(%s %s %s)" % (x, o, y)
        return "((%s ^ %s) ^ %d)" % (x, y, M)

    def partpos(self, e, b, sc):
        _, _, o, x, y = e
        if o == ":":
            p, q = self.const(x, sc), self.const(y, sc)
            pw = abs(p - q) + 1
            lo = (min(p, q) - b.lo) if b.up else (b.lo + b.w - 1 - max(p, q))
            return str(lo), pw
        pw = self.const(y, sc)
        i = self.index(b, x, sc)
        if o == "+:":
            return (i if b.up else "(%s - %d)" % (i, pw - 1)), pw
        return ("(%s - %d)" % (i, pw - 1) if b.up else i), pw

    def asg(self, w, e, sc):
        """source of e as assigned to w bits"""
        ew, es = self.size(e, sc)
        x = self.ex(e, max(w, ew), es, sc)
        return "(%s & %d)" % (x, (1 << w) - 1) if ew > w else x


class Lines:
    """statements of one process, as Python source"""

    def __init__(self, d, sc, ff, func=None):
        self.d, self.sc, self.ff, self.func, self.out, self.n = d, sc, ff, func, [], 0
        self.fname = None

    def put(self, ind, s):
        self.out.append("  " * ind + s)

    def local(self, v):
        self.n += 1
        v.local = "t%d" % self.n
        return v

    def stmt(self, s, ind):
        k = s[0]
        if k == "begin":
            sc = self.sc
            self.sc = dict(sc)
            for x in s[1]:
                self.stmt(x, ind)
            self.sc = sc
            if not s[1]:
                self.put(ind, "pass")
        elif k == "local":
            for n, typ, e in s[1]:
                v = self.local(self.d.var(n, typ, self.sc))
                self.put(ind, "%s = %s" % (v.local, self.d.asg(v.w, e, self.sc) if e else "0"))
                self.sc[n] = v
        elif k == "if":
            self.put(ind, "if %s:" % self.d.self_(s[1], self.sc))
            self.stmt(s[2], ind + 1)
            self.put(ind, "else:")
            self.stmt(s[3], ind + 1)
        elif k == "case":
            _, kind, e, arms, dflt = s
            labels = [l for ls, _ in arms for l in ls]
            sz = [self.d.size(x, self.sc) for x in [e] + labels]
            w, sg = max(x[0] for x in sz), all(x[1] for x in sz)
            self.n += 1
            t = "t%d" % self.n
            self.put(ind, "%s = %s" % (t, self.d.ex(e, w, sg, self.sc)))
            first = True
            for ls, b in arms:
                cond = []
                for l in ls:
                    if l[0] == "num" and len(l) > 4:
                        if kind == "case":
                            continue                 # x never matches two-valued data
                        cond.append("%s & %d == %d" % (t, ((1 << w) - 1) & ~(~l[4] & ((1 << (l[2] or 32)) - 1)), l[1]))
                    else:
                        cond.append("%s == %s" % (t, self.d.ex(l, w, sg, self.sc)))
                self.put(ind, "%s %s:" % ("if" if first else "elif", " or ".join(cond) or "False"))
                first = False
                self.stmt(b, ind + 1)
            if first:
                self.stmt(dflt, ind)
            else:
                self.put(ind, "else:")
                self.stmt(dflt, ind + 1)
        elif k == "for":
            _, n, decl, a, c, step, body = s
            sc = self.sc
            self.sc = dict(sc)
            if decl:
                v = self.sc[n] = self.local(Var(n, 32, True))
                self.put(ind, "%s = %s" % (v.local, self.d.asg(32, a, self.sc)))
            else:
                self.assign(("id", n), a, False, ind)
            self.put(ind, "while %s:" % self.d.self_(c, self.sc))
            self.stmt(body, ind + 1)
            self.stmt(step, ind + 1)
            self.sc = sc
        elif k == "return":
            if self.func is None:
                raise Unsupported("return outside a function")
            self.put(ind, "return %s" % self.d.asg(self.func.w, s[1], self.sc))
        elif k == "=":
            self.assign(s[1], s[2], s[3], ind)
        else:
            raise Unsupported("statement " + k)

    def assign(self, l, e, nba, ind):
        if l[0] == "id":
            v = self.target(l[1])
            return self.store(l, v, self.d.asg(v.w, e, self.sc), nba, ind)
        if l[0] == "cat":
            ws = [self.lw(p) for p in l[1]]
            W = sum(ws)
            self.n += 1
            t = "t%d" % self.n
            self.put(ind, "%s = %s" % (t, self.d.asg(W, e, self.sc)))
            sh = W
            for p, w in zip(l[1], ws):
                sh -= w
                self.store(p, None, "(%s >> %d & %d)" % (t, sh, (1 << w) - 1), nba, ind)
            return
        self.store(l, None, self.d.asg(self.lw(l), e, self.sc), nba, ind)

    def lw(self, l):
        return self.d.size(l, self.sc)[0]

    def target(self, n):
        if self.fname == n:
            return self.sc[n + "#ret"]
        v = self.d.look(n, self.sc)
        if not isinstance(v, Var):
            raise SvError("%s cannot be assigned" % n)
        return v

    def store(self, l, v, src, nba, ind):
        if l[0] == "id":
            v = v or self.target(l[1])
            if v.n is not None:
                raise Unsupported("array assignment")
            if v.local:
                self.put(ind, "%s = %s" % (v.local, src))
                return
            for D in self.dest(nba):
                self.put(ind, "%s[%d] = %s" % (D, v.slot, src if D != "V" or not self.two(nba) else "N[%d]" % v.slot))
            return
        b = self.d.base(l, self.sc)
        if l[0] == "sel" and l[1][0] == "id" and b.n is not None:
            for D in self.dest(nba):
                self.put(ind, "put(%s, %d, %d, %s, %s)" % (D, b.slot, b.n, self.d.index(b, l[2], self.sc, True), src))
            return
        if l[1][0] == "sel" and b.n is not None:
            raise Unsupported("bits of an array element")
        if l[1][0] != "id":
            raise Unsupported("nested select on the left")
        if l[0] == "sel":
            pos, w = self.d.index(b, l[2], self.sc), 1
        else:
            pos, w = self.d.partpos(l, b, self.sc)
        if b.local:
            self.put(ind, "%s = ins(%s, %d, %s, %d, %s)" % (b.local, b.local, b.w, pos, w, src))
            return
        for D in self.dest(nba):
            self.put(ind, "%s[%d] = ins(%s[%d], %d, %s, %d, %s)" % (D, b.slot, D, b.slot, b.w, pos, w, src))

    def two(self, nba):
        return self.ff and not nba

    def dest(self, nba):
        if not self.ff:
            return ["V"]
        return ["N"] if nba else ["N", "V"]


def bit(v, w, i):
    return v >> i & 1 if 0 <= i < w else 0


def sh(v, n):
    return v >> n if n >= 0 else v << -n


def at(V, slot, n, i):
    return V[slot + i] if 0 <= i < n else 0


def put(D, slot, n, i, x):
    if 0 <= i < n:
        D[slot + i] = x


def ins(old, w, pos, n, x):
    m = ((1 << n) - 1)
    if pos < 0:
        x, m, pos = x >> -pos, m >> -pos, 0
    return (old & ~(m << pos) | (x & m) << pos) & ((1 << w) - 1)


def sdiv(a, b):
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def smod(a, b):
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return -r if a < 0 else r


class Library:
    """modules by name, read from the source files below a directory"""

    def __init__(self, root, skip=("old",)):
        self.files, self.mods = {}, {}
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in skip)
            for f in sorted(fs):
                if f.endswith((".sv", ".v", ".svh", ".vh")):
                    self.files.setdefault(f, os.path.join(d, f))

    def load(self, top):
        p = self.files.get(top + ".sv") or self.files.get(top + ".v")
        if p is None:
            raise SvError("no file for module " + top)
        text = preprocess(p, set(), {}, self.files.get)
        mods = Parser(lex(text)).source()
        if top not in mods:
            raise SvError("%s does not define %s" % (p, top))
        for k, m in mods.items():
            self.mods.setdefault(k, m)

    def __call__(self, name):
        if name not in self.mods:
            self.load(name)
        return self.mods[name]


class Sim:
    """one running instance"""

    def __init__(self, design, seed=0):
        self.d = design
        r = random.Random(seed)
        self.V = [r.getrandbits(w) for w in design.slots]
        for i, v in design.inits:
            self.V[i] = v
        self.old = [self.V[i] for i in design.edges]
        self.settle()

    def comb(self):
        V = self.V
        for n in range(200):
            before = V[:]
            for p in self.d.comb:
                p(V, V)
            if V == before:
                return
        raise SvError("combinational loop")

    def settle(self):
        d = self.d
        for n in range(100):
            self.comb()
            new = [self.V[i] for i in d.edges]
            if new == self.old:
                return
            ev = {i: ("posedge" if b > a else "negedge") for i, a, b in zip(d.edges, self.old, new) if a != b}
            self.old = new
            run = [p for e, p in d.ff if any(ev.get(i) == k for k, i in e)]
            if run:
                N = self.V[:]
                for p in run:
                    p(self.V, N)
                self.V[:] = N
        raise SvError("endless activity")

    def set(self, **kw):
        for k, v in kw.items():
            x = self.d.ports[k][1]
            self.V[x.slot] = v & ((1 << x.w) - 1)
        self.settle()

    def get(self, k):
        return self.V[self.d.ports[k][1].slot]


def design(lib, top, **params):
    return Design(top, list(params.items()), lib)


def selftest():
    """the simulator against values worked out by hand from the standard"""
    import tempfile
    src = """
    module leaf #(parameter W=2, localparam T=W+1) (input logic [W-1:0] a, output logic [T-1:0] y);
      function automatic logic [T-1:0] twice(input logic [T-1:0] v); return v + v; endfunction
      assign y = twice(a);
    endmodule
    module top #(parameter W=4) (input logic clk, input logic rst_n, input logic [W-1:0] a, input logic [W-1:0] b,
       output logic [W:0] sum, output logic [W-1:0] diff, output logic lt, output logic [7:0] ext, output logic [7:0] sext,
       output logic [W-1:0] cat, output logic red, output logic [W-1:0] cnt, output logic [W:0] dbl, output logic [7:0] m,
       output logic [1:0] cs, output logic [W-1:0] rev, output logic slt, output logic [7:0] trunc);
      assign sum = a + b;  assign diff = a - b;  assign lt = a - b < 4;   // 32 bits: negative is large
      assign ext = -a;  logic signed [W-1:0] sa;  assign sa = a;  assign sext = sa;
      assign cat = {a[1:0], {2{b[0]}}};  assign red = ^a & ~|b[3:1];
      always_ff @(posedge clk or negedge rst_n) if (!rst_n) cnt <= {1'b1, {{W-1}{1'b0}}}; else cnt <= cnt + (a[0] ? 1 : -1);
      leaf #(.W(W)) u (.a(a), .y(dbl));
      assign m = (a * b) % 8'd7 + (a >> 1) - (b << 2);
      always_comb begin cs = 0; casez (a) 4'b1???: cs = 3; 4'b01??: cs = 2; default: cs = a[1]; endcase end
      genvar i; generate for (i = 0; i < W; i++) begin : g assign rev[i] = a[W-1-i]; end endgenerate
      assign slt = $signed(a) < $signed(b);  assign trunc = (a + b) >> 1;
    endmodule"""
    with tempfile.TemporaryDirectory() as d:
        open(d + "/top.sv", "w").write(src)
        x = Sim(design(Library(d), "top"), 5)
    x.set(clk=0, rst_n=1)
    x.set(rst_n=0)
    n, sg = 8, lambda v: v - 16 if v > 7 else v
    assert x.get("cnt") == 8
    x.set(rst_n=1)
    for a in range(16):
        for b in range(16):
            x.set(a=a, b=b, clk=1)
            n = (n + (1 if a & 1 else -1)) & 15 if a or b or True else n
            x.set(clk=0)
            # (the counter sees the operands set together with the edge settled first)
            want = dict(sum=a + b, diff=(a - b) % 16, lt=int(0 <= a - b < 4), ext=-a % 256, sext=sg(a) % 256,
                        cat=((a & 3) << 2) | 3 * (b & 1), red=bin(a).count("1") & 1 & int(b >> 1 == 0), cnt=n, dbl=2 * a,
                        m=(a * b % 256 % 7 + (a >> 1) - (b << 2)) % 256, cs=3 if a > 7 else 2 if a > 3 else a >> 1,
                        rev=int("{:04b}".format(a)[::-1], 2), slt=int(sg(a) < sg(b)), trunc=(a + b) >> 1)
            got = {k: x.get(k) for k in want}
            assert got == want, (a, b, {k: (got[k], want[k]) for k in want if got[k] != want[k]})


if __name__ == "__main__":
    selftest()
