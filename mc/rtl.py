"""A small SystemVerilog front end and cycle simulator for the synthesizable sources in hw/.

Values are numpy int64 arrays with one entry per lane, so one simulated cycle advances thousands of
histories.  Supported: ANSI module headers, parameters and localparams, vectors, continuous assignments,
always_ff with an optional asynchronous reset, always_comb / always @*, if/case/for, module instances,
`include, generate for/if, functions of expressions with the usual context-determined widths.
Anything else raises Unsupported."""
import os
import re
import numpy as np


class Unsupported(Exception):
    pass


class Bad(Exception):
    """The source is not legal (syntax, undeclared name, combinational loop)."""


# ---------------------------------------------------------------- lexer
TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|
(?P<num>(?:\d+\s*)?'[sS]?[bBdDhHoO]\s*[0-9a-fA-FxXzZ_?]+|'[01xXzZ](?![0-9a-zA-Z_])|\d[\d_]*)|
(?P<id>[$`]?[A-Za-z_][A-Za-z0-9_$]*)|
(?P<str>"[^"]*")|
(?P<op>\+\+|--|\+=|-=|\*=|&=|\|=|\^=|<<<|>>>|===|!==|==|!=|<=|>=|&&|\|\||<<|>>|~\^|\^~|~&|~\||::|[-+*/%&|^~!<>=?:;,.()\[\]{}\#@'])""", re.S | re.X)


def lex(text):
    out, p = [], 0
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise Bad("cannot read %r" % text[p:p + 20])
        p = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


def preprocess(path, seen):
    path = os.path.realpath(path)
    if path in seen:
        return ""
    seen.add(path)
    text = open(path).read()

    def inc(m):
        f = m.group(1)
        for base in (os.path.dirname(path),):
            p = os.path.join(base, f)
            if os.path.exists(p):
                return preprocess(p, seen)
        raise Bad("%s includes %s, which does not exist" % (os.path.basename(path), f))
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"`timescale[^\n]*|`default_nettype[^\n]*", "", text)
    macros = {}

    def define(m):
        macros[m.group(1)] = m.group(2).strip()
        return ""
    # include guards and simple defines
    m = re.match(r"\s*`ifndef\s+(\w+)\s+`define\s+\1\b[^\n]*(.*)`endif\s*$", text, re.S)
    if m:
        text = m.group(2)
    text = re.sub(r"`define\s+(\w+)[ \t]+([^\n]*)", define, text)
    text = re.sub(r'`include\s+"([^"]+)"', inc, text)
    for k, v in macros.items():
        text = re.sub(r"`" + k + r"\b", v, text)
    return text + "\n"


# ---------------------------------------------------------------- parser
BIN = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="], ["<", "<=", ">", ">="], ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"]]
TYPES = ("logic", "wire", "reg", "bit", "int", "integer", "genvar", "byte")


class Parser:
    def __init__(self, text):
        self.t, self.i = lex(text), 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("unexpected end of file")
        self.i += 1
        return self.t[self.i - 1][1]

    def acc(self, *s):
        if self.peek() in s:
            return self.next()
        return None

    def exp(self, s):
        if self.peek() != s:
            raise Bad("expected %r, found %r" % (s, " ".join(x[1] for x in self.t[self.i:self.i + 6])))
        return self.next()

    def ident(self):
        if self.kind() != "id":
            raise Bad("expected a name, found %r" % self.peek())
        return self.next()

    # expressions
    def expr(self):
        c = self.binary(0)
        if self.acc("?"):
            a = self.expr()
            self.exp(":")
            return ("?", c, a, self.expr())
        return c

    def binary(self, lvl):
        if lvl == len(BIN):
            return self.unary()
        a = self.binary(lvl + 1)
        while self.peek() in BIN[lvl]:
            op = self.next()
            a = ("b", op, a, self.binary(lvl + 1))
        return a

    def unary(self):
        if self.peek() in ("~", "!", "&", "|", "^", "~&", "~|", "~^", "^~", "+", "-"):
            op = self.next()
            return ("u", op, self.unary())
        return self.primary()

    def primary(self):
        k, p = self.kind(), self.peek()
        if k == "num":
            self.next()
            e = number(p)
            if self.peek() == "'" and self.peek(1) == "(":
                self.i += 2
                v = self.expr()
                self.exp(")")
                return ("cast", e, v)
            return e
        if self.acc("("):
            e = self.expr()
            self.exp(")")
            if self.peek() == "'" and self.peek(1) == "(":
                self.i += 2
                v = self.expr()
                self.exp(")")
                return ("cast", e, v)
            return self.select(e)
        if self.acc("{"):
            a = self.expr()
            if self.acc("{"):
                items = [self.expr()]
                while self.acc(","):
                    items.append(self.expr())
                self.exp("}")
                self.exp("}")
                return ("rep", a, ("cat", items))
            items = [a]
            while self.acc(","):
                items.append(self.expr())
            self.exp("}")
            return self.select(("cat", items))
        if k == "id":
            n = self.next()
            if n.startswith("$"):
                self.exp("(")
                a = self.expr()
                self.exp(")")
                return ("sys", n, a)
            if self.peek() == "'" and self.peek(1) == "(":
                self.i += 2
                v = self.expr()
                self.exp(")")
                return ("cast", ("id", n), v)
            return self.select(("id", n))
        raise Bad("unexpected %r in an expression" % p)

    def select(self, e):
        while self.peek() == "[":
            self.next()
            a = self.expr()
            if self.acc(":"):
                e = ("part", e, a, self.expr())
            elif self.peek() in ("+", "-") and self.peek(1) == ":":
                raise Unsupported("indexed part select")
            else:
                e = ("idx", e, a)
            self.exp("]")
        return e

    # statements
    def stmt(self):
        if self.acc(";"):
            return ("block", [])
        if self.acc("begin"):
            if self.acc(":"):
                self.ident()
            out = []
            while not self.acc("end"):
                if self.peek() in ("int", "integer", "logic", "bit", "automatic", "reg"):
                    out += self.localdecl()
                else:
                    out.append(self.stmt())
            if self.acc(":"):
                self.ident()
            return ("block", out)
        self.acc("unique", "priority")
        if self.acc("if"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            a = self.stmt()
            b = self.stmt() if self.acc("else") else None
            return ("if", c, a, b)
        if self.peek() in ("case", "casez", "casex"):
            if self.next() != "case":
                raise Unsupported("casez")
            self.exp("(")
            e = self.expr()
            self.exp(")")
            arms, dflt = [], None
            while not self.acc("endcase"):
                if self.acc("default"):
                    self.acc(":")
                    dflt = self.stmt()
                else:
                    ls = [self.expr()]
                    while self.acc(","):
                        ls.append(self.expr())
                    self.exp(":")
                    arms.append((ls, self.stmt()))
            return ("case", e, arms, dflt)
        if self.acc("for"):
            self.exp("(")
            while self.acc("int", "integer", "automatic", "genvar", "unsigned", "logic"):
                pass
            if self.peek() == "[":
                self.range()
            v = self.ident()
            self.exp("=")
            i = self.expr()
            self.exp(";")
            c = self.expr()
            self.exp(";")
            st = self.step()
            self.exp(")")
            return ("for", v, i, c, st, self.stmt())
        return self.assign()

    def localdecl(self):
        self.acc("automatic")
        ty = self.next()
        self.acc("unsigned", "signed")
        rng = self.range()
        out = []
        while True:
            n = self.ident()
            out.append(("local", n, rng, 32 if ty in ("int", "integer") else None))
            if self.acc("="):
                out.append(("set", True, ("id", n), self.expr()))
            if not self.acc(","):
                break
        self.exp(";")
        return out

    def step(self):
        pre = self.acc("++", "--")
        v = self.ident()
        if pre:
            op = pre
        else:
            op = self.next()
        one = ("num", 1, 32, False)
        if op in ("++", "--"):
            return (v, ("b", op[0], ("id", v), one))
        if op == "=":
            return (v, self.expr())
        if op in ("+=", "-="):
            return (v, ("b", op[0], ("id", v), self.expr()))
        raise Bad("bad loop step")

    def lhs(self):
        if self.acc("{"):
            items = [self.lhs()]
            while self.acc(","):
                items.append(self.lhs())
            self.exp("}")
            return ("cat", items)
        return self.select(("id", self.ident()))

    def assign(self):
        l = self.lhs()
        op = self.next()
        if op in ("=", "<="):
            r = self.expr()
        elif op in ("++", "--"):
            r, op = ("b", op[0], l, ("num", 1, 32, False)), "="
        elif op in ("+=", "-=", "*=", "&=", "|=", "^="):
            r, op = ("b", op[0], l, self.expr()), "="
        else:
            raise Bad("expected an assignment, found %r" % op)
        self.exp(";")
        return ("set", op == "=", l, r)

    # modules
    def range(self):
        if self.acc("["):
            a = self.expr()
            self.exp(":")
            b = self.expr()
            self.exp("]")
            return (a, b)
        return None

    def modules(self):
        out = {}
        while self.i < len(self.t):
            self.exp("module")
            m = self.module()
            out[m["name"]] = m
        return out

    def module(self):
        m = dict(name=self.ident(), params=[], ports=[], items=[])
        if self.acc("#"):
            self.exp("(")
            while True:
                self.acc("parameter")
                self.ptype()
                n = self.ident()
                self.exp("=")
                m["params"].append((n, self.expr()))
                if not self.acc(","):
                    break
            self.exp(")")
        self.exp("(")
        d = None
        while not self.acc(")"):
            x = self.acc("input", "output")
            if x:
                d, rng = x, None
                self.acc(*TYPES)
                self.acc("unsigned")
                rng = self.range()
            elif d is None:
                raise Unsupported("non-ANSI ports")
            m["ports"].append((self.ident(), d, rng))
            if self.peek() != ")":
                self.exp(",")
        self.exp(";")
        while not self.acc("endmodule"):
            m["items"].append(self.item())
        if self.acc(":"):
            self.ident()
        return m

    def ptype(self):
        while self.acc(*TYPES) or self.acc("unsigned", "signed"):
            pass
        self.range()

    def item(self):
        p = self.peek()
        if p in ("localparam", "parameter"):
            self.next()
            self.ptype()
            out = []
            while True:
                n = self.ident()
                self.exp("=")
                out.append((n, self.expr()))
                if not self.acc(","):
                    break
            self.exp(";")
            return ("localparam", out)
        if p in TYPES:
            ty = self.next()
            self.acc(*TYPES)
            if self.acc("signed"):
                raise Unsupported("signed")
            self.acc("unsigned")
            rng = self.range()
            if ty in ("int", "integer"):
                rng = (("num", 31, 32, False), ("num", 0, 32, False))
            out = []
            while True:
                n = self.ident()
                if self.peek() == "[":
                    raise Unsupported("unpacked arrays")
                init = self.expr() if self.acc("=") else None
                out.append((n, rng, init))
                if not self.acc(","):
                    break
            self.exp(";")
            return ("decl", ty, out)
        if self.acc("assign"):
            out = []
            while True:
                l = self.lhs()
                self.exp("=")
                out.append((l, self.expr()))
                if not self.acc(","):
                    break
            self.exp(";")
            return ("assign", out)
        if p in ("always_ff", "always", "always_comb", "always_latch"):
            self.next()
            if p == "always_latch":
                raise Unsupported(p)
            ev = None
            if p != "always_comb":
                self.exp("@")
                if self.acc("*"):
                    p = "always_comb"
                else:
                    self.exp("(")
                    if self.acc("*"):
                        p = "always_comb"
                    else:
                        ev = []
                        while True:
                            e = self.acc("posedge", "negedge")
                            if not e:
                                raise Unsupported("level-sensitive event list")
                            ev.append((e, self.ident()))
                            if not self.acc("or", ","):
                                break
                    self.exp(")")
            return ("comb", self.stmt()) if p == "always_comb" else ("ff", ev, self.stmt())
        if p in ("generate", "endgenerate"):
            self.next()
            return ("none",)
        if p == "for" or p == "if":
            return self.gen()
        if p == "initial" or p == "function" or p == "task":
            raise Unsupported(p)
        # instance
        mod = self.ident()
        ps = []
        if self.acc("#"):
            ps = self.conns()
        name = self.ident()
        cs = self.conns()
        self.exp(";")
        return ("inst", mod, ps, name, cs)

    def gen(self):
        def body():
            if self.acc("begin"):
                if self.acc(":"):
                    self.ident()
                out = []
                while not self.acc("end"):
                    out.append(self.item())
                if self.acc(":"):
                    self.ident()
                return out
            return [self.item()]
        if self.acc("if"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            a = body()
            b = body() if self.acc("else") else []
            return ("genif", c, a, b)
        self.exp("for")
        self.exp("(")
        self.acc("genvar")
        v = self.ident()
        self.exp("=")
        i = self.expr()
        self.exp(";")
        c = self.expr()
        self.exp(";")
        st = self.step()
        self.exp(")")
        return ("genfor", v, i, c, st, body())

    def conns(self):
        self.exp("(")
        out = []
        while not self.acc(")"):
            if self.acc("."):
                n = self.ident()
                if self.acc("("):
                    e = None if self.peek() == ")" else self.expr()
                    self.exp(")")
                else:
                    e = ("id", n)
                out.append((n, e))
            else:
                out.append((None, self.expr()))
            if self.peek() != ")":
                self.exp(",")
        return out


def number(s):
    s = s.replace("_", "").replace(" ", "")
    if "'" not in s:
        return ("num", int(s), 32, False)
    w, _, r = s.partition("'")
    if r[0] in "01" and len(r) == 1:
        return ("fill", int(r))
    r = r.lstrip("sS")
    base = dict(b=2, d=10, h=16, o=8)[r[0].lower()]
    if re.search("[xXzZ?]", r[1:]):
        raise Unsupported("unknown digits in a literal")
    return ("num", int(r[1:], base), int(w) if w else 32, bool(w))


# ---------------------------------------------------------------- elaboration
class Sim:
    """An elaborated module: set inputs, settle, clock."""

    def __init__(self, path, top, params=None):
        self.mods = Parser(preprocess(path, set())).modules()
        if top not in self.mods:
            raise Bad("module %s is not defined in %s" % (top, path))
        self.width, self.comb, self.ffs = {}, [], []
        self.inputs, self.outputs = [], []
        self.v = {}
        self.elab(top, "", dict(params or {}), None)

    def const(self, e, env):
        v = self.eval(e, env, 0)
        a = np.unique(np.asarray(v))
        if len(a) != 1:
            raise Bad("a constant was expected")
        return int(a[0])

    def elab(self, mod, pre, params, conn):
        if mod not in self.mods:
            raise Bad("module %s is not defined" % mod)
        m = self.mods[mod]
        env = dict(pre=pre, c={})
        names = [n for n, _ in m["params"]]
        for n in params:
            if n not in names:
                raise Bad("module %s has no parameter %s" % (mod, n))
        for n, e in m["params"]:
            env["c"][n] = params[n] if n in params else self.const(e, env)
        for n, d, rng in m["ports"]:
            self.declare(pre + n, rng, env)
            if not pre:
                (self.inputs if d == "input" else self.outputs).append(n)
        for it in m["items"]:
            self.build(it, env)
        return m

    def declare(self, name, rng, env):
        if name in self.width:
            raise Bad("%s is declared twice" % name)
        if rng is None:
            w = 1
        else:
            hi, lo = self.const(rng[0], env), self.const(rng[1], env)
            if lo != 0 or hi < -1 or hi > 60:
                raise Unsupported("vector range [%d:%d]" % (hi, lo))
            w = hi + 1
            if w == 0:
                w = 2  # [-1:0] is a two bit range; degenerate parameters are not explored
        self.width[name] = w

    def build(self, it, env):
        k = it[0]
        if k == "localparam":
            for n, e in it[1]:
                env["c"][n] = self.const(e, env)
        elif k == "decl":
            for n, rng, init in it[2]:
                if it[1] == "genvar":
                    continue
                self.declare(env["pre"] + n, rng, env)
                if init is not None:
                    self.comb.append((("set", True, ("id", n), init), env))
        elif k == "assign":
            for l, r in it[1]:
                self.comb.append((("set", True, l, r), env))
        elif k == "comb":
            self.comb.append((it[1], env))
        elif k == "ff":
            self.ffs.append((it[1], it[2], env))
        elif k == "genif":
            for x in it[2] if self.const(it[1], env) else it[3]:
                self.build(x, env)
        elif k == "genfor":
            _, v, i, c, st, body = it
            x = self.const(i, env)
            for _ in range(4096):
                e2 = dict(env, c=dict(env["c"], **{v: x}))
                if not self.const(c, e2):
                    return
                for b in body:
                    self.build(b, e2)
                x = self.const(st[1], e2)
            raise Bad("endless generate loop")
        elif k == "inst":
            _, mod, ps, name, cs = it
            if mod not in self.mods:
                raise Bad("module %s is not defined" % mod)
            m = self.mods[mod]
            params = {}
            for j, (n, e) in enumerate(ps):
                params[n or m["params"][j][0]] = self.const(e, env)
            pre = env["pre"] + name + "."
            self.elab(mod, pre, params, cs)
            dirs = {n: d for n, d, _ in m["ports"]}
            sub = dict(pre=pre, c={})
            for j, (n, e) in enumerate(cs):
                n = n or m["ports"][j][0]
                if n not in dirs:
                    raise Bad("module %s has no port %s" % (mod, n))
                if e is None:
                    continue
                if dirs[n] == "input":
                    self.comb.append((("link", pre + n, e), env))
                else:
                    self.comb.append((("set", True, e, ("abs", pre + n)), env))

    # -------------------------------------------------------- evaluation
    def wid(self, e, env):
        """Self-determined width."""
        k = e[0]
        if k == "num":
            return e[2]
        if k == "fill":
            return 1
        if k == "id":
            n = e[1]
            if n in env.get("l", {}):
                return env["lw"][n]
            if n in env["c"]:
                return 32
            if env["pre"] + n in self.width:
                return self.width[env["pre"] + n]
            raise Bad("%s is not declared" % (env["pre"] + n))
        if k == "abs":
            return self.width[e[1]]
        if k == "idx":
            return 1
        if k == "part":
            return self.const(e[2], env) - self.const(e[3], env) + 1
        if k == "cat":
            return sum(self.wid(x, env) for x in e[1])
        if k == "rep":
            return self.const(e[1], env) * self.wid(e[2], env)
        if k == "?":
            return max(self.wid(e[2], env), self.wid(e[3], env))
        if k == "u":
            return self.wid(e[2], env) if e[1] in ("~", "+", "-") else 1
        if k == "b":
            if e[1] in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return 1
            if e[1] in ("<<", ">>", "<<<", ">>>"):
                return self.wid(e[2], env)
            return max(self.wid(e[2], env), self.wid(e[3], env))
        if k == "cast":
            return self.const(e[1], env)
        if k == "sys":
            return 32
        raise Unsupported(k)

    def eval(self, e, env, ctx):
        """Value in max(context, own) width."""
        k = e[0]
        w = max(ctx, self.wid(e, env))
        mask = (1 << w) - 1
        if k == "num":
            return np.int64(e[1] & mask)
        if k == "fill":
            return np.int64(mask if e[1] else 0)
        if k == "id":
            n = e[1]
            if n in env.get("l", {}):
                return env["l"][n]
            if n in env["c"]:
                return np.int64(env["c"][n] & mask)
            return self.v[env["pre"] + n]
        if k == "abs":
            return self.v[e[1]]
        if k == "idx":
            a, i = self.eval(e[1], env, 0), self.eval(e[2], env, 0)
            aw = self.wid(e[1], env)
            ok = (i >= 0) & (i < aw)
            if not np.all(ok):
                self.oob = True
            return np.where(ok, (a >> np.where(ok, i, 0)) & 1, 0)
        if k == "part":
            lo = self.const(e[3], env)
            return (self.eval(e[1], env, 0) >> lo) & ((1 << self.wid(e, env)) - 1)
        if k == "cat":
            r = np.int64(0)
            for x in e[1]:
                xw = self.wid(x, env)
                r = (r << xw) | (self.eval(x, env, 0) & ((1 << xw) - 1))
            return r
        if k == "rep":
            n, xw = self.const(e[1], env), self.wid(e[2], env)
            x, r = self.eval(e[2], env, 0), np.int64(0)
            for _ in range(n):
                r = (r << xw) | x
            return r
        if k == "?":
            c = self.eval(e[1], env, 0) != 0
            return np.where(c, self.eval(e[2], env, w), self.eval(e[3], env, w))
        if k == "cast":
            return self.eval(e[2], env, 0) & ((1 << self.const(e[1], env)) - 1)
        if k == "sys":
            if e[1] != "$clog2":
                raise Unsupported(e[1])
            return np.int64(max(0, int(self.const(e[2], env) - 1).bit_length()))
        if k == "u":
            op = e[1]
            if op in ("~", "+", "-"):
                a = self.eval(e[2], env, w)
                return (~a if op == "~" else -a if op == "-" else a) & mask
            a = self.eval(e[2], env, 0)
            aw = self.wid(e[2], env)
            full = (1 << aw) - 1
            if op == "!":
                return np.int64(1) * (a == 0)
            if op in ("&", "~&"):
                r = a == full
            elif op in ("|", "~|"):
                r = a != 0
            else:
                r = np.zeros_like(a, dtype=bool)
                for i in range(aw):
                    r = r ^ (((a >> i) & 1) == 1)
            return np.int64(1) * (~r if op[0] == "~" or op == "^~" else r)
        if k == "b":
            op = e[1]
            if op in ("&&", "||"):
                a, b = self.eval(e[2], env, 0) != 0, self.eval(e[3], env, 0) != 0
                return np.int64(1) * (a & b if op == "&&" else a | b)
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                cw = max(self.wid(e[2], env), self.wid(e[3], env))
                a, b = self.eval(e[2], env, cw), self.eval(e[3], env, cw)
                r = {"==": a == b, "===": a == b, "!=": a != b, "!==": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
                return np.int64(1) * r
            if op in ("<<", ">>", "<<<", ">>>"):
                a, b = self.eval(e[2], env, w), self.eval(e[3], env, 0)
                b = np.minimum(b, 61)
                return (a << b if op[0] == "<" else a >> b) & mask
            a, b = self.eval(e[2], env, w), self.eval(e[3], env, w)
            if op in ("/", "%"):
                if np.any(b == 0):
                    raise Bad("division by zero")
                return (a // b if op == "/" else a % b) & mask
            r = {"+": a + b if op == "+" else 0, "-": a - b if op == "-" else 0, "*": a * b if op == "*" else 0, "&": a & b, "|": a | b, "^": a ^ b, "~^": ~(a ^ b), "^~": ~(a ^ b)}[op]
            return r & mask
        raise Unsupported(k)

    def lwidth(self, l, env):
        return self.wid(l, env)

    def store(self, l, val, en, env, dest, base):
        """Write val (already cut to the target's width) where en holds; dest collects whole-signal values."""
        k = l[0]
        if k == "cat":
            sh = self.wid(l, env)
            for x in l[1]:
                xw = self.wid(x, env)
                sh -= xw
                self.store(x, (val >> sh) & ((1 << xw) - 1), en, env, dest, base)
            return
        if k == "id" and l[1] in env.get("l", {}):
            env["l"][l[1]] = np.where(en, val, env["l"][l[1]])
            return
        lo, w, ie = 0, None, None
        if k == "idx":
            ie, l = self.eval(l[2], env, 0), l[1]
            w = 1
        elif k == "part":
            lo, w, l = self.const(l[3], env), self.wid(l, env), l[1]
        if l[0] != "id":
            raise Unsupported("nested selects on the left")
        n = env["pre"] + l[1]
        if n not in self.width:
            raise Bad("%s is not declared" % n)
        old = dest[n] if n in dest else base[n]
        tw = self.width[n]
        if w is None:
            new = val & ((1 << tw) - 1)
            wm = np.int64((1 << tw) - 1)
        else:
            sh = ie if ie is not None else np.int64(lo)
            ok = (sh >= 0) & (sh < tw)
            en = en & ok
            sh = np.where(ok, sh, 0)
            wm = (np.int64((1 << w) - 1) << sh) & ((1 << tw) - 1)
            new = (old & ~wm) | ((val << sh) & wm)
        dest[n] = np.where(en, new, old)
        if self.touched is not None:
            self.touched[n] = self.touched.get(n, np.int64(0)) | np.where(en, wm, 0)

    def run(self, st, env, en, nb, comb):
        k = st[0]
        if k == "block":
            for x in st[1]:
                self.run(x, env, en, nb, comb)
        elif k == "local":
            env.setdefault("l", {})[st[1]] = np.int64(0)
            env.setdefault("lw", {})[st[1]] = st[3] or (1 if st[2] is None else self.const(st[2][0], env) + 1)
        elif k == "if":
            c = self.eval(st[1], env, 0) != 0
            if np.any(en & c):
                self.run(st[2], env, en & c, nb, comb)
            if st[3] is not None and np.any(en & ~c):
                self.run(st[3], env, en & ~c, nb, comb)
        elif k == "case":
            w = max([self.wid(st[1], env)] + [self.wid(x, env) for ls, _ in st[2] for x in ls])
            v = self.eval(st[1], env, w)
            left = en
            for ls, s in st[2]:
                hit = np.zeros_like(left)
                for x in ls:
                    hit = hit | (v == self.eval(x, env, w))
                hit = hit & left
                if np.any(hit):
                    self.run(s, env, hit, nb, comb)
                left = left & ~hit
            if st[3] is not None and np.any(left):
                self.run(st[3], env, left, nb, comb)
        elif k == "for":
            _, v, i, c, step, body = st
            env = dict(env, l=dict(env.get("l", {})), lw=dict(env.get("lw", {}), **{v: 32}))
            env["l"][v] = self.eval(i, env, 32)
            for _ in range(4096):
                if not self.const(c, env):
                    return
                self.run(body, env, en, nb, comb)
                env["l"][v] = self.eval(step[1], env, 32)
            raise Bad("endless loop")
        elif k == "set":
            w = self.wid(st[2], env)
            val = self.eval(st[3], env, w) & ((1 << w) - 1)
            if comb or st[1]:
                self.store(st[2], val, en, env, self.v, self.v)
            else:
                self.store(st[2], val, en, env, nb, self.v)
        elif k == "link":
            w = self.width[st[1]]
            self.v[st[1]] = np.broadcast_to(self.eval(st[2], env, w) & ((1 << w) - 1), (self.n,)).astype(np.int64)
        else:
            raise Unsupported(k)

    # -------------------------------------------------------- simulation
    oob = False
    touched = None

    def settle(self):
        on = np.ones(self.n, dtype=bool)
        names = [k for k in self.v]
        for _ in range(len(self.comb) + 3):
            before = {k: self.v[k] for k in names}
            for st, env in self.comb:
                self.run(st, dict(env), on, None, True)
            if all(np.array_equal(before[k], np.broadcast_to(self.v[k], (self.n,))) for k in names):
                return
        raise Bad("combinational logic does not settle")

    def reset(self, n, clk="clk", rst="rst_n", garbage=0):
        """Asynchronous reset.  Bits no reset branch defines take `garbage`; returns the list of such bits."""
        self.n, self.clk, self.rst = n, clk, rst
        for k, w in self.width.items():
            self.v[k] = np.full(n, garbage & ((1 << w) - 1), dtype=np.int64)
        for i in self.inputs:
            self.v[i] = np.zeros(n, dtype=np.int64)
        self.v[rst] = np.zeros(n, dtype=np.int64)
        self.settle()
        on = np.ones(n, dtype=bool)
        self.touched = {}
        for _ in range(2):
            nb = {}
            for ev, st, env in self.ffs:
                if ("negedge", rst) in ev or ("negedge", rst) in [(a, b) for a, b in ev]:
                    self.run(st, dict(env), on, nb, False)
            self.v.update(nb)
            self.settle()
        t, self.touched = self.touched, None
        state = self.state_names()
        free = [k for k in state if np.any((t.get(k, np.int64(0)) & ((1 << self.width[k]) - 1)) != (1 << self.width[k]) - 1)]
        self.v[rst] = np.ones(n, dtype=np.int64)
        self.settle()
        return free

    def state_names(self):
        out = []

        def targets(st, env):
            if st is None:
                return
            k = st[0]
            if k == "block":
                for x in st[1]:
                    targets(x, env)
            elif k == "if":
                targets(st[2], env)
                targets(st[3], env)
            elif k == "case":
                for _, s in st[2]:
                    targets(s, env)
                targets(st[3], env)
            elif k == "for":
                targets(st[5], env)
            elif k == "set":
                def base(l):
                    if l[0] == "cat":
                        for x in l[1]:
                            base(x)
                        return
                    while l[0] != "id":
                        l = l[1]
                    n = env["pre"] + l[1]
                    if n in self.width and n not in out:
                        out.append(n)
                base(st[2])
        for ev, st, env in self.ffs:
            targets(st, env)
        return out

    def cycle(self, ins):
        """Apply inputs, settle, sample the outputs, then one rising clock edge."""
        for k, x in ins.items():
            if k not in self.inputs:
                raise Bad("there is no input %s" % k)
            self.v[k] = np.broadcast_to(np.asarray(x, dtype=np.int64) & ((1 << self.width[k]) - 1), (self.n,)).copy()
        self.settle()
        out = {o: np.broadcast_to(self.v[o], (self.n,)).copy() for o in self.outputs}
        on = np.ones(self.n, dtype=bool)
        nb = {}
        for ev, st, env in self.ffs:
            if ("posedge", self.clk) not in ev:
                raise Unsupported("clock %s" % (ev,))
            self.run(st, dict(env), on, nb, False)
        self.v.update(nb)
        self.settle()
        return out
