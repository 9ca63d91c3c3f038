"""
Transfer events of pack/unpack routines (C++ text): what is transferred, allocated and aliased, in which
order, under which loops, once for the packing and once for the unpacking side.  Calls between the
routines are inlined; objects are named by the access path from the outermost routine, sizes are
polynomials over such paths.
"""

import re

import sympy as sp

from . import ctext
from .absint import AnalysisError
from .ctext import vtext, walk
from .ctyst import canon, fname, strip

CASTS = ("static_cast", "const_cast", "reinterpret_cast", "dynamic_cast")


def S(t):
    return sp.Symbol(t, positive=True)


class Ev:
    def __init__(self, kind, path, n, loops, fn, elem="", node=None, guard=()):
        self.kind, self.path, self.n, self.loops, self.fn, self.elem, self.node, self.guard = kind, path, n, tuple(loops), fn, elem, node, tuple(guard)

    def sig(self):
        return (self.kind, self.path, sp.expand(self.n) if self.n is not None else None, tuple((v, sp.expand(lo), sp.expand(hi)) for v, lo, hi in self.loops), self.guard)

    def __repr__(self):
        return f"{self.kind} {self.path} x{self.n} {self.loops} {self.guard}"


class Pup:
    def __init__(self, funcs, unpacking):
        self.funcs = funcs  # name -> (parameter names, body)
        self.unpacking = unpacking
        self.out = []
        self.loops = []
        self.guard = []
        self.depth = 0

    # ------------------------------------------------------------ paths and values
    def path(self, e, env):
        e = strip(e)
        if e.k == "id":
            return env.get("@" + e.name, e.name)
        if e.k in ("mem", "member"):
            return self.path(e.a, env) + "." + e.m
        if e.k == "idx":
            return f"{self.path(e.a, env)}[{self.idx(e.i, env)}]"
        if e.k == "un" and e.op in ("&", "*"):
            return self.path(e.e, env)
        if e.k == "call" and fname(e) in CASTS:
            return self.path(e.args[0], env)
        if e.k == "bin" and e.op == "+":
            raise AnalysisError(f"pointer arithmetic {vtext(e)[:60]}")
        return canon(e)

    def idx(self, e, env):
        return str(self.val(e, env)).replace(" ", "")

    def val(self, e, env):
        e = strip(e)
        if e.k == "num":
            return sp.Integer(int(re.sub(r"[uUlL]+$", "", e.v), 0))
        if e.k == "bin" and e.op in ("+", "-", "*"):
            a, b = self.val(e.a, env), self.val(e.b, env)
            return sp.expand({"+": a + b, "-": a - b, "*": a * b}[e.op])
        if e.k == "sizeof":
            return S("sizeof(" + re.sub(r"\b(restrict|struct|const)\b|\s", "", "".join(e.toks)) + ")")
        if e.k == "call" and fname(e) == "sizeof":
            return S("sizeof(" + re.sub(r"\brestrict\b|\s", "", ",".join(canon(a) for a in e.args)) + ")")
        if e.k == "call" and fname(e) in CASTS:
            return self.val(e.args[0], env)
        if e.k == "id":
            if e.name in env:
                return env[e.name]
            return S(env.get("@" + e.name, e.name))
        if e.k in ("mem", "member", "idx"):
            return S(self.path(e, env))
        if e.k == "un" and e.op == "-":
            return -self.val(e.e, env)
        raise AnalysisError(f"value of {vtext(e)[:60]}")

    # ------------------------------------------------------------ statements
    def emit(self, kind, path, n, fn, elem="", node=None):
        self.out.append(Ev(kind, path, n, self.loops, fn, elem, node, self.guard))

    def call(self, name, args, env):
        names, body = self.funcs[name]
        if self.depth > 10:
            raise AnalysisError("recursion")
        env2 = {}
        for n, a in zip(names, args):
            env2["@" + n] = self.path(a, env)
            if strip(a).k in ("id", "num") and (strip(a).k == "num" or strip(a).name in env):
                env2[n] = self.val(a, env)
        if len(names) != len(args):
            raise AnalysisError(f"{name} takes {len(names)} arguments, {len(args)} given")
        self.depth += 1
        self.run(body, env2, name)
        self.depth -= 1

    def run(self, stmts, env, fn):
        for s in stmts:
            if self.stmt(s, env, fn) == "stop":
                return "stop"

    def unpack_test(self, e):
        e = strip(e)
        if e.k == "call" and e.f.k in ("mem", "member") and e.f.m in ("isUnpacking", "isPacking", "isSizing"):
            return self.unpacking if e.f.m == "isUnpacking" else not self.unpacking
        if e.k == "un" and e.op == "!":
            v = self.unpack_test(e.e)
            return None if v is None else not v
        return None

    def stmt(self, s, env, fn):
        k = s.k
        if k == "block":
            return self.run(s.body, env, fn)
        if k == "decl":
            for d in s.decls:
                env.pop(d.name, None)
                env.pop("@" + d.name, None)
                if d.init is None:
                    continue
                if d.ptr or strip(d.init).k == "un" and strip(d.init).op == "&":
                    env["@" + d.name] = self.path(d.init, env)
                else:
                    env[d.name] = self.val(d.init, env)
                self.uses(d.init, env, fn)
            return None
        if k == "expr":
            return self.expr(s.e, env, fn)
        if k == "if":
            t = self.unpack_test(s.cond)
            if t is not None:
                return self.run(s.then if t else (s.els or []), dict(env) if not t else env, fn)
            c = self.cond(s.cond, env)
            self.guard.append(c)
            self.run(s.then, env, fn)
            self.guard.pop()
            if s.els:
                self.guard.append("not " + c)
                self.run(s.els, env, fn)
                self.guard.pop()
            return None
        if k == "for":
            return self.for_(s, env, fn)
        if k == "switch":
            c = self.path(s.cond, env)
            cur = set()
            for b in s.body:
                if b.k == "case":
                    cur.add(canon(b.val) if b.val is not None else "other")
                    continue
                if b.k in ("break", "return"):
                    cur = set()
                    continue
                if not cur:
                    continue
                self.guard.append(f"{c}=={','.join(sorted(cur))}")
                self.stmt(b, env, fn)
                self.guard.pop()
                if b.k == "block" and any(x.k in ("break", "return") for x in b.body):
                    cur = set()
            return None
        if k in ("return",):
            return "stop"
        if k in ("pp", "pragma", "empty", "func", "proto", "raw", "break", "case", "label", "hole", "using"):
            return None
        raise AnalysisError(f"{fn}: statement {k}")

    def cond(self, e, env):
        e = strip(e)
        if e.k == "bin" and e.op in ("<", ">", "<=", ">=", "==", "!="):
            return f"{self.val(e.a, env)}{e.op}{self.val(e.b, env)}"
        return canon(e)

    def uses(self, e, env, fn):
        pass

    def for_(self, s, env, fn):
        init = s.init
        if init is not None and init.k == "decl" and len(init.decls) == 1 and init.decls[0].init is not None:
            v, lo = init.decls[0].name, init.decls[0].init
        elif init is not None and init.k == "expr" and strip(init.e).k == "assign":
            v, lo = strip(strip(init.e).a).name, strip(init.e).b
        else:
            raise AnalysisError(f"{fn}: loop header")
        c = strip(s.cond)
        if not (c.k == "bin" and c.op in ("<", "<=") and strip(c.a).k == "id" and strip(c.a).name == v):
            raise AnalysisError(f"{fn}: loop condition {vtext(c)[:40]}")
        st = canon(s.step)
        if st not in (v + "++", "++" + v, f"{v}+=1", f"(++{v})", f"({v}++)"):
            st2 = strip(s.step)
            if not (getattr(st2, "op", "") == "++" or st.replace(" ", "") == f"{v}+=1"):
                raise AnalysisError(f"{fn}: loop step {st}")
        lo = self.val(lo, env)
        hi = self.val(c.b, env)
        if c.op == "<=":
            hi = sp.expand(hi + 1)
        name = f"L{len(self.loops)}"
        e2 = dict(env)
        e2[v] = S(name)
        self.loops.append((name, lo, hi))
        self.run(s.body if isinstance(s.body, list) else [s.body], e2, fn)
        self.loops.pop()
        return None

    def expr(self, e, env, fn):
        e = strip(e)
        if e is None:
            return None
        if e.k == "bin" and e.op == "|":
            items = []
            x = e
            while strip(x).k == "bin" and strip(x).op == "|":
                items.append(strip(x).b)
                x = strip(x).a
            if canon(x) != "p":
                return None
            for i in reversed(items):
                self.emit("xfer", self.path(i, env), sp.Integer(1), fn, node=i)
            return None
        if e.k == "call":
            f = fname(e)
            if f in ("PUParray", "PUPArray"):
                self.emit("xfer", self.path(e.args[1], env), self.val(e.args[2], env), fn, node=e, elem="[]")
                return None
            if f == "p" or (strip(e.f).k == "id" and strip(e.f).name == "p"):
                self.emit("xfer", self.path(e.args[0], env), self.val(e.args[1], env), fn, node=e, elem="[]")
                return None
            if f in self.funcs:
                self.call(f, e.args, env)
            return None
        if e.k == "assign" and e.op == "=":
            c = strip(e.b)
            if c.k == "call" and fname(c) in ("malloc", "calloc"):
                n = self.val(c.args[0], env) if fname(c) == "malloc" else sp.expand(self.val(c.args[0], env) * self.val(c.args[1], env))
                self.emit("alloc", self.path(e.a, env), n, fn, node=e)
                return None
            if strip(e.a).k == "id" and strip(e.a).name in env:
                env[strip(e.a).name] = self.val(e.b, env)
                return None
            if c.k == "id" and c.name in ("NULL", "nullptr") or c.k == "num" and c.v == "0":
                self.emit("alias", self.path(e.a, env), S("NULL"), fn, node=e)
            elif c.k in ("mem", "member", "idx", "id"):
                self.emit("alias", self.path(e.a, env), S(self.path(e.b, env)), fn, node=e)
            return None
        return None


def functions(text, extra=()):
    """{name: (parameter names, body)} of the routines defined in a text"""
    out = {}
    body, _ = ctext.parse(text)
    for s in walk(body):
        if s.k in ("func", "method"):
            out[s.name.split("::")[-1] if "::" in s.name and s.name not in extra else s.name] = (pnames(s), s.body if isinstance(s.body, list) else s.body.body)
    return out


def pnames(f):
    ps = f.params
    if isinstance(ps, list):
        ps = " ".join(str(p) for p in ps)
    return [(re.findall(r"\w+", re.sub(r"\[[^\]]*\]", "", p)) or [""])[-1] for p in ps.split(",")]


def events(funcs, root, args, unpacking):
    p = Pup(funcs, unpacking)
    names, body = funcs[root]
    env = {"@" + n: a for n, a in zip(names, args)}
    p.run(body, env, root)
    return p.out
