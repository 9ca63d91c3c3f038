"""Abstract execution of parsed C over a polynomial value domain.

Every assignment is recorded as an event (target, value, guarding context).  Integer expressions are
normalised to polynomials; counted loops with constant bounds are unrolled, others are summarised
by recognising linear induction variables (any other variable the loop changes is unknown inside
and after it); branches on undecided conditions are both followed and merged.
"""

import functools
import re

import sympy as sp

from . import ctext
from .cflow import strip
from .ctext import walk

S = sp.Symbol


class NS:
    """event; compared by identity"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f"<{self.kind} {self.__dict__.get('key', self.__dict__.get('name', ''))}>"


def F(name):
    return sp.Function(name)


class Addr:
    """pointer into (base, path); off None: address of that scalar object"""

    def __init__(self, base, path, off):
        self.base, self.path, self.off = base, path, off

    def __eq__(self, o):
        return isinstance(o, Addr) and (self.base, self.path, self.off) == (o.base, o.path, o.off)

    def __hash__(self):
        return hash((self.base, self.path))

    def sym(self):
        return S("&" + key(self.base, self.path) + ("" if self.off is None else f"[{self.off}]"))


@functools.lru_cache(maxsize=100000)
def _text(e):
    return f"{e}"


def text(e):
    return _text(e) if isinstance(e, sp.Basic) else f"{e}"


def key(base, path):
    out = base
    for p in path:
        out += f"[{text(p[1])}]" if p[0] == "i" else f".{p[1]}"
    return out


def shape(base, path):
    return (base,) + tuple(p[1] if p[0] == "m" else "[]" for p in path)


IDX = {
    "IDX3": lambda a: a[0] + S("Nxx_plus_2NGHOSTS0") * (a[1] + S("Nxx_plus_2NGHOSTS1") * a[2]),
    "IDX4": lambda a: a[1] + S("Nxx_plus_2NGHOSTS0") * (a[2] + S("Nxx_plus_2NGHOSTS1") * (a[3] + S("Nxx_plus_2NGHOSTS2") * a[0])),
    "IDX4pt": lambda a: a[1] + S("Nxx_plus_2NGHOSTS0") * S("Nxx_plus_2NGHOSTS1") * S("Nxx_plus_2NGHOSTS2") * a[0],
    "IDX3GENERAL": lambda a: a[0] + a[3] * (a[1] + a[4] * a[2]),
}
REALT = re.compile(r"\b(REAL|DOUBLE|double|float|CCTK_REAL|long double)\b")
INTT = re.compile(r"\b(int|short|long|int8_t|size_t|char|bool|int64_t|CCTK_INT|unsigned)\b")


def canon_neg(d):
    d = sp.expand(d)
    m = sp.expand(-d)
    return min((d, m), key=lambda x: str(x))


class CE:
    def __init__(self, env=None, types=None, macros=None, real=r"^(d?xx\d?|invdxx\d|xxmin|xxmax)$", unroll=12, exit_guards=False):
        self.env = dict(env or {})
        self.types = dict(types or {})
        self.macros = dict(IDX, **(macros or {}))
        self.real = re.compile(real)
        self.events = []
        self.ctx = ()
        self.unroll = unroll
        self.exit_guards = exit_guards
        self.fresh = 0
        self.shapes = {}  # key -> (base, path)

    # ------------------------------------------------------------ types
    def isreal(self, e):
        e0 = e
        while e0 is not None and e0.k == "paren":
            e0 = e0.e
        e = e0
        if e is None:
            return False
        k = e.k
        if k == "num":
            return bool(re.search(r"[.]|[eE](?!\w*x)", e.v)) and not e.v.lower().startswith("0x")
        if k == "cast":
            t = e._d.get("type") or e._d.get("ty") or ""
            t = t if isinstance(t, str) else " ".join(map(str, t))
            if REALT.search(t):
                return True
            if INTT.search(t):
                return False
            return self.isreal(e.e)
        if k == "id":
            t = self.types.get(e.name)
            if t is not None:
                return bool(REALT.search(t))
            return bool(self.real.search(e.name))
        if k in ("idx",):
            return self.isreal(e.a)
        if k == "mem":
            return bool(self.real.search(e.m))
        if k == "bin":
            if e.op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "%"):
                return False
            return self.isreal(e.a) or self.isreal(e.b)
        if k in ("un", "post"):
            return self.isreal(e.e)
        if k == "call":
            f = strip(e.f)
            return f.k == "id" and f.name in ("sqrt", "fabs", "pow", "sin", "cos", "exp", "log")
        if k == "cond":
            return self.isreal(e.a) or self.isreal(e.b)
        return False

    # ------------------------------------------------------------ lvalues
    def target(self, e):
        """(base, path) of the object an lvalue expression denotes"""
        e = strip(e)
        k = e.k
        if k == "id":
            return e.name, ()
        if k == "mem":
            if e.op == ".":
                b, p = self.target(e.a)
                return b, p + (("m", e.m),)
            b, p = self.deref(e.a, sp.Integer(0))
            return b, p + (("m", e.m),)
        if k == "idx":
            return self.deref(e.a, self.ev(e.i))
        if k == "un" and e.op == "*":
            return self.deref(e.e, sp.Integer(0))
        if k == "call":
            # object returned by a call
            return str(self.as_sym(self.ev(e))), ()
        return "?" + ctext.vtext(e), ()

    def deref(self, e, i):
        v = self.pointer(e)
        if v.off is None:
            if i == 0:
                return v.base, v.path
            return v.base, v.path + (("i", i),)
        return v.base, v.path + (("i", sp.expand(v.off + i)),)

    def pointer(self, e):
        e = strip(e)
        if e.k == "id" and isinstance(self.env.get(e.name), Addr):
            return self.env[e.name]
        if e.k == "un" and e.op == "&":
            b, p = self.target(e.e)
            if p and p[-1][0] == "i":
                return Addr(b, p[:-1], p[-1][1])
            return Addr(b, p, None)
        if e.k == "bin" and e.op in "+-":
            a = self.pointer(e.a)
            o = self.ev(e.b)
            if isinstance(o, sp.Basic):
                return Addr(a.base, a.path, sp.expand((a.off or 0) + (o if e.op == "+" else -o)))
        b, p = self.target(e)
        kk = key(b, p)
        if isinstance(self.env.get(kk), Addr):
            return self.env[kk]
        return Addr(b, p, sp.Integer(0))

    def load(self, b, p):
        k = key(b, p)
        if k in self.env:
            return self.env[k]
        return S(k)

    def kill(self, b, p):
        sh, own = shape(b, p), key(b, p)
        for k in list(self.env):
            t = self.shapes.get(k)
            if t is None or k == own:
                continue
            if shape(*t) == sh and not any(x[0] == "i" and y[0] == "i" and sp.sympify(x[1] - y[1]).is_Integer and x[1] != y[1] for x, y in zip(t[1], p)):
                del self.env[k]

    def store(self, b, p, v, node, op="="):
        k = key(b, p)
        self.kill(b, p)
        self.shapes[k] = (b, p)
        self.env[k] = v
        if isinstance(v, sp.Basic) and getattr(v.func, "__name__", "") in ("malloc", "calloc", "realloc"):
            # from here on the pointer denotes the object named after itself
            del self.env[k]
        self.events.append(NS(kind="store", key=k, base=b, path=p, val=v, ctx=self.ctx, node=node, op=op))

    # ------------------------------------------------------------ expressions
    def as_sym(self, v):
        if isinstance(v, Addr):
            return v.sym()
        return v

    def rel(self, op, x, y, real):
        x, y = self.as_sym(x), self.as_sym(y)
        d = sp.expand(x - y)
        if d.is_number and d.is_real:
            return sp.Integer(int({"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]))
        if op == "==":
            return F("eq")(canon_neg(d))
        if op == "!=":
            return F("ne")(canon_neg(d))
        if op == "<":
            return F("lt0")(d)
        if op == ">":
            return F("lt0")(sp.expand(-d))
        if real:
            return F("le0")(d if op == "<=" else sp.expand(-d))
        return F("lt0")(sp.expand(d - 1) if op == "<=" else sp.expand(-d - 1))

    def neg(self, c, real=False):
        if c.is_Integer:
            return sp.Integer(0 if c != 0 else 1)
        n = getattr(c.func, "__name__", "")
        if n == "eq":
            return F("ne")(*c.args)
        if n == "ne":
            return F("eq")(*c.args)
        if n == "not_":
            return c.args[0]
        if n == "lt0" and not real:
            return F("lt0")(sp.expand(-c.args[0] - 1))
        if n == "and_":
            return self.junction("or_", [self.neg(a) for a in c.args])
        if n == "or_":
            return self.junction("and_", [self.neg(a) for a in c.args])
        return F("not_")(c)

    def junction(self, name, args):
        out = []
        for a in args:
            if getattr(a.func, "__name__", "") == name:
                out += list(a.args)
            else:
                out.append(a)
        unit, zero = (1, 0) if name == "and_" else (0, 1)
        res = []
        for a in out:
            if a.is_Integer:
                t = 1 if a != 0 else 0
                if t == zero:
                    return sp.Integer(zero)
                continue
            if a not in res:
                res.append(a)
        if not res:
            return sp.Integer(unit)
        if len(res) == 1:
            return res[0]
        return F(name)(*sorted(res, key=str))

    def truth(self, c):
        c = self.as_sym(c)
        if c.is_number:
            return sp.Integer(0 if c == 0 else 1)
        if getattr(c.func, "__name__", "") in ("eq", "ne", "lt0", "le0", "and_", "or_", "not_"):
            return c
        return F("ne")(canon_neg(c))

    def ev(self, e):
        while e.k == "paren":
            e = e.e
        k = e.k
        if k == "num":
            t = re.sub(r"(?<=[0-9.])[uUlLfF]+$", "", e.v)
            try:
                return sp.Integer(int(t, 0))
            except ValueError:
                try:
                    return sp.Rational(t)
                except Exception:
                    return S(e.v)
        if k == "str":
            return S(e.v)
        if k == "id":
            v = self.env.get(e.name)
            return v if v is not None else S(e.name)
        if k == "cast":
            v = self.ev(e.e)
            t = e._d.get("type") or e._d.get("ty") or ""
            t = t if isinstance(t, str) else " ".join(map(str, t))
            if isinstance(v, Addr) or "*" in t:
                return v
            if INTT.search(t) and not REALT.search(t) and self.isreal(e.e):
                if v.is_Integer:
                    return v
                return F("int_")(v)
            return v
        if k == "bin":
            if e.op in ("&&", "||"):
                return self.junction("and_" if e.op == "&&" else "or_", [self.truth(self.ev(e.a)), self.truth(self.ev(e.b))])
            a, b = self.ev(e.a), self.ev(e.b)
            if isinstance(a, Addr) or isinstance(b, Addr):
                if e.op in "+-" and isinstance(a, Addr) and isinstance(b, sp.Basic):
                    return Addr(a.base, a.path, sp.expand((a.off or 0) + (b if e.op == "+" else -b)))
                a, b = self.as_sym(a), self.as_sym(b)
            if e.op in ("<", ">", "<=", ">=", "==", "!="):
                return self.rel(e.op, a, b, self.isreal(e.a) or self.isreal(e.b))
            if e.op == "+":
                return sp.expand(a + b)
            if e.op == "-":
                return sp.expand(a - b)
            if e.op == "*":
                return sp.expand(a * b)
            if e.op == "/":
                if self.isreal(e.a) or self.isreal(e.b):
                    return sp.expand(a / b) if b != 0 else F("div0")(a)
                if a.is_Integer and b.is_Integer and b != 0:
                    return sp.Integer(int(a) // int(b) if int(a) * int(b) >= 0 else -(-int(a) // int(b)))
                return F("idiv")(a, b)
            if e.op == "%":
                if a.is_Integer and b.is_Integer and b != 0:
                    return sp.Integer(int(sp.sign(a)) * (abs(int(a)) % abs(int(b))))
                return F("mod")(a, b)
            return F({"<<": "shl", ">>": "shr", "&": "band", "|": "bor", "^": "bxor"}.get(e.op, "op"))(a, b)
        if k == "un":
            if e.op == "&":
                return self.pointer(e)
            if e.op == "*":
                return self.load(*self.target(e))
            if e.op in ("++", "--"):
                return self.incdec(e.e, e.op, e)
            v = self.ev(e.e)
            if e.op == "-":
                return sp.expand(-self.as_sym(v))
            if e.op == "+":
                return v
            if e.op == "!":
                return self.neg(self.truth(v))
            return F("un" + {"~": "compl"}.get(e.op, "x"))(self.as_sym(v))
        if k == "post":
            b, p = self.target(e.e)
            old = self.load(b, p)
            self.incdec(e.e, e.op, e)
            return old
        if k in ("idx", "mem"):
            return self.load(*self.target(e))
        if k == "cond":
            c = self.truth(self.ev(e.c))
            if c.is_Integer:
                return self.ev(e.a if c != 0 else e.b)
            a, b = self.as_sym(self.ev(e.a)), self.as_sym(self.ev(e.b))
            return a if a == b else F("ite")(c, a, b)
        if k == "assign":
            return self.assign(e)
        if k == "comma":
            v = sp.Integer(0)
            for x in e.items:
                v = self.ev(x)
            return v
        if k == "sizeof":
            return S("sizeof(" + "".join(map(str, e.toks)).replace("restrict", "") + ")")
        if k == "call":
            f = strip(e.f)
            args = [self.ev(a) for a in e.args]
            n = f.name if f.k == "id" else ctext.vtext(f)
            self.events.append(NS(kind="call", name=n, args=args, ctx=self.ctx, node=e))
            sa = [self.as_sym(a) for a in args]
            if n in self.macros:
                try:
                    r = self.macros[n](sa)
                    if r is not None:
                        return sp.expand(r) if isinstance(r, sp.Basic) else r
                except (IndexError, TypeError):
                    pass
            # arguments passed by address may change
            for a in args:
                if isinstance(a, Addr):
                    for kk in list(self.env):
                        if kk == key(a.base, a.path) or kk.startswith(key(a.base, a.path) + "["):
                            if not isinstance(self.env[kk], Addr):
                                del self.env[kk]
            return F(re.sub(r"\W", "_", n))(*sa) if sa else S(n + "()")
        if k == "init":
            return None
        return S(ctext.vtext(e))

    def incdec(self, t, op, node):
        b, p = self.target(t)
        v = sp.expand(self.as_sym(self.load(b, p)) + (1 if op == "++" else -1))
        self.store(b, p, v, node, op)
        return v

    def assign(self, e):
        if e.op == "=":
            v = self.ev(e.b)
        else:
            b, p = self.target(e.a)
            old = self.as_sym(self.load(b, p))
            r = self.as_sym(self.ev(e.b))
            o = e.op[:-1]
            if o == "+":
                v = sp.expand(old + r)
            elif o == "-":
                v = sp.expand(old - r)
            elif o == "*":
                v = sp.expand(old * r)
            elif o == "/":
                v = old / r if (self.isreal(e.a) or self.isreal(e.b)) else F("idiv")(old, r)
            else:
                v = F("aug")(S(o), old, r)
        b, p = self.target(e.a)
        if e.op == "=" and isinstance(v, sp.Symbol) and isinstance(self.env.get(key(b, p)), Addr):
            v = self.pointer(e.b)
        self.store(b, p, v, e, e.op)
        return v

    # ------------------------------------------------------------ statements
    def run(self, stmts):
        n = len(self.ctx)
        saved = self.ctx
        for i, s in enumerate(stmts):
            t = self.stmt(s)
            if t == "stop":
                self.ctx = saved
                return "stop"
            if isinstance(t, tuple):  # guard for the remaining statements
                self.ctx = self.ctx + (t,)
        self.ctx = saved
        return None

    def body(self, b):
        return self.run(b if isinstance(b, list) else [b])

    def stmt(self, s):
        k = s.k
        if k == "decl":
            for d in s.decls:
                self.decl(s, d)
        elif k == "expr":
            v = self.ev(s.e)
            c = strip(s.e)
            if c.k == "call" and strip(c.f).k == "id" and strip(c.f).name in ("exit", "abort", "CkExit"):
                return "stop"
            return None
        elif k == "block":
            return self.body(s.body)
        elif k == "if":
            return self.if_(s)
        elif k == "for":
            self.for_(s)
        elif k in ("while", "do"):
            self.loop(None, None, None, None, s.body, s, kind="while", cond=s.cond)
        elif k == "macroloop":
            return self.macroloop(s)
        elif k == "switch":
            saved = self.ctx
            sel = self.as_sym(self.ev(s.cond))
            env0 = dict(self.env)
            lab = None
            items = s.body if isinstance(s.body, list) else [s.body]
            if len(items) == 1 and items[0].k == "block":
                items = items[0].body
            for x in items:
                if x.k == "case":
                    v = x.val
                    lab = S("default") if v is None else self.as_sym(self.ev(v))
                    self.env = dict(env0)
                    self.ctx = saved + (("case", sel, lab),)
                    b = x._d.get("body")
                    if b:
                        self.body(b)
                else:
                    self.stmt(x)
            self.ctx = saved
        elif k == "return":
            v = self.ev(s.e) if s._d.get("e") is not None else None
            self.events.append(NS(kind="return", val=v, ctx=self.ctx, node=s))
            return "stop"
        elif k in ("break", "continue"):
            self.events.append(NS(kind=k, ctx=self.ctx, node=s))
            return "stop"
        elif k in ("pragma", "pp"):
            self.events.append(NS(kind=k, ctx=self.ctx, node=s))
        return None

    def decl(self, s, d):
        t = " ".join(s._d.get("type", "") if isinstance(s._d.get("type"), list) else [str(s._d.get("type", ""))])
        self.types[d.name] = t
        for kk in [x for x in self.env if x == d.name or x.startswith(d.name + "[") or x.startswith(d.name + ".")]:
            del self.env[kk]
        if d.init is None:
            return
        if d.init.k == "init":
            self.init(d.name, (), d.init, s)
            return
        if d.ptr:
            v = self.ev(d.init)
            if isinstance(v, sp.Basic):
                i = strip(d.init)
                if i.k in ("id", "mem", "idx", "bin") or (i.k == "un" and i.op in "&*"):
                    v = self.pointer(d.init)
            self.store(d.name, (), v, s, "decl")
        else:
            self.store(d.name, (), self.ev(d.init), s, "decl")

    def init(self, b, p, n, s):
        for i, x in enumerate(n.items):
            q = p + (("i", sp.Integer(i)),)
            if x.k == "init":
                self.init(b, q, x, s)
            else:
                self.store(b, q, self.ev(x), s, "decl")

    def if_(self, s):
        c = self.truth(self.ev(s.cond))
        if c.is_Integer:
            if c != 0:
                return self.body(s.then)
            return self.body(s.els) if s.els is not None else None
        saved, env0 = self.ctx, dict(self.env)
        self.ctx = saved + (("if", c, True),)
        n0 = len(self.events)
        r1 = self.body(s.then)
        ev1 = self.events[n0:]
        e1 = self.env
        self.env = dict(env0)
        self.ctx = saved + (("if", c, False),)
        r2 = self.body(s.els) if s.els is not None else None
        e2 = self.env
        self.ctx = saved
        if r1 == "stop" and r2 == "stop":
            self.env = e2
            return "stop"
        if r1 == "stop" or r2 == "stop":
            self.env = e2 if r1 == "stop" else e1
            evs = ev1 if r1 == "stop" else self.events[n0:]
            if self.exit_guards or any(x.kind in ("continue", "return", "break") for x in evs):
                return ("if", c, r1 != "stop")
            return None
        out = {}
        for k in e1.keys() | e2.keys():
            a = e1.get(k, e1.get(k) if k in e1 else env0.get(k))
            b = e2.get(k, e2.get(k) if k in e2 else env0.get(k))
            if k in e1 and k in e2 and a == b:
                out[k] = a
            elif k in e1 and k in e2 and isinstance(a, sp.Basic) and isinstance(b, sp.Basic):
                out[k] = F("ite")(c, a, b)
            elif isinstance(a, Addr) or isinstance(b, Addr):
                if a is not None and b is None:
                    out[k] = a
                elif b is not None and a is None:
                    out[k] = b
            elif k in self.shapes and not self.shapes[k][1] and isinstance(a if a is not None else b, sp.Basic):
                # declared before, set on one path only
                out[k] = F("ite")(c, a if a is not None else S(k), b if b is not None else S(k))
        self.env = out
        return None

    def macroloop(self, s):
        c = s.call
        n = strip(c.f).name if strip(c.f).k == "id" else ""
        a = list(c.args)
        if n == "LOOP_OMP" and len(a) == 10:
            a = a[1:]
        if n in ("LOOP_OMP", "LOOP_NOOMP") and len(a) == 9:
            tr = [(strip(a[3 * d]).name, a[3 * d + 1], a[3 * d + 2]) for d in range(3)]
        elif n == "LOOP_REGION" and len(a) == 6:
            tr = [(f"i{d}", a[2 * d], a[2 * d + 1]) for d in range(3)]
        else:
            saved = self.ctx
            self.ctx += (("macro", n, tuple(self.as_sym(self.ev(x)) for x in a)),)
            self.body(s.body)
            self.ctx = saved
            return
        def nest(d):
            if d < 0:
                return self.body(s.body)
            v, lo, hi = tr[d]
            self.types[v] = "int"
            self.loop(v, self.as_sym(self.ev(lo)), self.as_sym(self.ev(hi)), sp.Integer(1), lambda: nest(d - 1), s)
        nest(2)

    def for_(self, s):
        if s.init is None or s.cond is None or s.step is None:
            return self.loop(None, None, None, None, s.body, s, kind="while", cond=s.cond)
        v = None
        if s.init.k == "decl" and len(s.init.decls) == 1 and s.init.decls[0].init is not None:
            d = s.init.decls[0]
            v, lo = d.name, self.as_sym(self.ev(d.init))
            self.types[v] = "int"
        elif s.init.k == "expr" and strip(s.init.e).k == "assign" and strip(strip(s.init.e).a).k == "id":
            a = strip(s.init.e)
            v, lo = strip(a.a).name, self.as_sym(self.ev(a.b))
        c = strip(s.cond)
        hi = st = None
        if v is not None and c.k == "bin":
            l, r = strip(c.a), strip(c.b)
            if l.k == "id" and l.name == v and c.op in ("<", "<=", "!=", ">", ">="):
                self.env.pop(v, None)
                hi = self.as_sym(self.ev(c.b)) + {"<=": 1, ">=": -1}.get(c.op, 0)
            elif r.k == "id" and r.name == v and c.op in (">", ">=", "!=", "<", "<="):
                self.env.pop(v, None)
                hi = self.as_sym(self.ev(c.a)) + {">=": 1, "<=": -1}.get(c.op, 0)
        x = strip(s.step)
        if v is not None and x.k in ("post", "un") and x.op in ("++", "--") and strip(x.e).k == "id" and strip(x.e).name == v:
            st = sp.Integer(1 if x.op == "++" else -1)
        elif v is not None and x.k == "assign" and strip(x.a).k == "id" and strip(x.a).name == v:
            r = self.as_sym(self.ev(x.b))
            st = r if x.op == "+=" else -r if x.op == "-=" else sp.expand(r - S(v)) if x.op == "=" else None
        if v is None or hi is None or st is None:
            return self.loop(None, None, None, None, s.body, s, kind="while", cond=s.cond)
        self.loop(v, sp.expand(lo), sp.expand(hi), st, s.body, s)

    def loop(self, v, lo, hi, st, b, node, kind="for", cond=None):
        run = b if callable(b) else (lambda: self.body(b))
        saved = self.ctx
        if v is not None and lo.is_Integer and hi.is_Integer and st.is_Integer and st != 0 and 0 <= (hi - lo) / st <= self.unroll:
            i = lo
            while (i < hi) if st > 0 else (i > hi):
                self.env[v] = i
                self.shapes[v] = (v, ())
                n0 = len(self.events)
                r = run()
                if r == "stop" and any(x.kind in ("break", "return") for x in self.events[n0:]) and self.ctx == saved:
                    break
                i += st
            self.env.pop(v, None)
            self.ctx = saved
            return
        frame = ("for", v, lo, hi, st) if kind == "for" else ("while", None if cond is None else ctext.vtext(cond))
        # pass 1: which scalars change, and how
        env0, n0, t0, sh0 = dict(self.env), len(self.events), dict(self.types), dict(self.shapes)
        if v is not None:
            self.env.pop(v, None)
        self.ctx = saved + (frame,)
        run()
        written = {}
        for x in self.events[n0:]:
            if x.kind == "store" and x.op != "decl":
                written[x.key] = (x.base, x.path)
        declared = {x.base for x in self.events[n0:] if x.kind == "store" and x.op == "decl"}
        del self.events[n0:]
        # pass 2: havoc, look for constant increments
        self.env, self.types = dict(env0), dict(t0)
        if v is not None:
            self.env.pop(v, None)
        hav = {}
        for k, (bb, pp) in written.items():
            if bb in declared and k not in env0:
                continue
            if isinstance(env0.get(k), Addr):
                continue
            if any(p[0] == "i" and not p[1].is_Integer for p in pp):
                self.env.pop(k, None)
                self.kill(bb, pp)
                continue
            self.fresh += 1
            hav[k] = S(f"{k}@{self.fresh}")
            self.env[k] = hav[k]
        self.ctx = saved + (frame,)
        run()
        ind = {}
        for k, h in hav.items():
            d = self.env.get(k)
            if isinstance(d, sp.Basic):
                d = sp.expand(d - h)
                if not any(str(y).find("@") >= 0 for y in d.free_symbols) and (v is None or S(v) not in d.free_symbols) and not d.atoms(sp.Function):
                    ind[k] = d
        after = {}
        del self.events[n0:]
        self.env, self.types = dict(env0), dict(t0)
        if v is not None:
            self.env.pop(v, None)
        for k, h in hav.items():
            if k in ind and v is not None:
                trip = sp.expand((S(v) - lo) / st)
                base = env0.get(k, S(k))
                self.env[k] = sp.expand(base + ind[k] * trip)
                after[k] = sp.expand(base + ind[k] * (hi - lo) / st)
            else:
                self.env[k] = h
                self.fresh += 1
                after[k] = S(f"{k}@{self.fresh}")
        self.ctx = saved + (frame,)
        run()
        self.ctx = saved
        for k, (bb, pp) in written.items():
            if k in after:
                self.env[k] = after[k]
            elif bb not in declared:
                self.env.pop(k, None)
                self.kill(bb, pp)
        for x in declared:
            for kk in [y for y in self.env if y == x or y.startswith(x + "[")]:
                if kk not in env0:
                    del self.env[kk]
        if v is not None:
            self.env.pop(v, None)

    # ------------------------------------------------------------ helpers
    def parse_eval(self, text):
        ast = ctext.parse(text + ";")[0]
        return self.as_sym(self.ev(ast[0].e))


def execute(body, params="", env=None, **k):
    """events of a function body; parameter types read from the parameter list"""
    body = re.sub(r"//[^\n]*", "", body)
    ce = CE(env=env, **k)
    for p in re.split(r",(?![^\[]*\])", params):
        m = re.search(r"(\w+)\s*(\[[^\]]*\])*\s*$", p.strip())
        if m:
            ce.types[m.group(1)] = p
    ast = ctext.parse(body)[0]
    ce.ast = ast
    ce.run(ast)
    return ce


def stores(ce, pat=None):
    return [e for e in ce.events if e.kind == "store" and (pat is None or re.search(pat, e.key))]


__all__ = ["CE", "execute", "stores", "walk", "Addr", "key", "F", "S"]
