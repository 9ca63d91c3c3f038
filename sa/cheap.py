"""
Heap events of parsed C routines that allocate and release structure members: loops with constant
trip counts (after fixing a few named bounds) are unrolled over integer constants; statements that
neither allocate, release nor set such constants are skipped.
"""

import re

import sympy as sp

from . import ctext
from .absint import AnalysisError
from .ctext import vtext, walk
from .ctyst import canon, fname, strip

ALLOC = ("malloc", "calloc", "realloc")


def num(e, env):
    """integer value of an expression, or None"""
    e = strip(e)
    if e is None:
        return None
    if e.k == "num":
        try:
            return int(re.sub(r"[uUlL]+$", "", e.v), 0)
        except ValueError:
            return None
    if e.k == "id":
        return env.get(e.name)
    if e.k in ("mem", "member"):
        return env.get(canon(e).split("->")[-1].split(".")[-1])
    if e.k == "un" and e.op == "-":
        v = num(e.e, env)
        return None if v is None else -v
    if e.k == "bin":
        a, b = num(e.a, env), num(e.b, env)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: int(a / b) if b else None, "%": lambda: a % b if b else None, "<": lambda: int(a < b), "<=": lambda: int(a <= b), ">": lambda: int(a > b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b), "&&": lambda: int(bool(a and b)), "||": lambda: int(bool(a or b))}[e.op]()
        except KeyError:
            return None
    return None


def poly(e, env):
    """sympy polynomial of a size expression; locals replaced by their defining expressions"""
    e = strip(e)
    if e.k == "num":
        return sp.Integer(int(re.sub(r"[uUlL]+$", "", e.v), 0))
    if e.k == "id":
        d = env.get(e.name)
        if isinstance(d, ctext.N):
            return poly(d, {k: v for k, v in env.items() if k != e.name})
        if isinstance(d, int):
            return sp.Integer(d)
        return sp.Symbol(e.name, positive=True)
    if e.k == "bin" and e.op in "+-*":
        a, b = poly(e.a, env), poly(e.b, env)
        return sp.expand({"+": a + b, "-": a - b, "*": a * b}[e.op])
    if e.k == "call" and fname(e) == "sizeof":
        return sp.Symbol("sizeof(" + ",".join(canon(a) for a in e.args).replace("restrict", "") + ")", positive=True)
    return sp.Symbol(re.sub(r"^.*(->|\.)(?=\w+$)", "", canon(e)), positive=True)


def size_of(call, env):
    fn = fname(call)
    a = call.args
    if fn == "calloc":
        return sp.expand(poly(a[0], env) * poly(a[1], env))
    return poly(a[-1], env)


class Events:
    def __init__(self, bounds, funcs=None, cap=4000):
        self.bounds, self.funcs, self.cap = dict(bounds), funcs or {}, cap
        self.out = []  # (kind, key, size, function)
        self.ptr, self.local, self.depth, self.calls, self.trace, self.loops = {}, "", 0, 0, [], []

    def relevant(self, s):
        for n in walk([s]):
            if n.k == "call" and (fname(n) in ALLOC + ("free",) or fname(n) in self.funcs):
                return True
        return False

    def key(self, e, env):
        e = strip(e)
        if e.k == "id":
            v = env.get("@" + e.name)
            if v is not None:
                return v
            d = self.ptr.get(e.name)
            return d if d is not None else self.local + e.name
        if e.k in ("mem", "member"):
            return self.key(e.a, env) + "." + e.m
        if e.k == "idx":
            v = num(e.i, env)
            return f"{self.key(e.a, env)}[{v if v is not None else canon(e.i)}]"
        if e.k == "un" and e.op in ("&", "*"):
            return self.key(e.e, env)
        return canon(e)

    def inline(self, f, args, env):
        if self.depth > 8:
            raise AnalysisError(f"{f}: calls nest too deeply")
        names, body = self.funcs[f]
        env2 = dict(self.bounds)
        for n, a in zip(names, args):
            env2["@" + n] = self.key(a, env)
            v = num(a, env)
            if v is None and strip(a).k == "id" and canon(a) in ("true", "false"):
                v = int(canon(a) == "true")
            if v is not None:
                env2[n] = v
        saved = self.ptr, self.local
        self.calls += 1
        self.ptr, self.local, self.depth = {}, f"{f}#{self.calls}:", self.depth + 1
        self.trace.append(f)
        self.run([x for x in body if x.k != "func"], env2, {}, f)
        self.ptr, self.local = saved
        self.depth -= 1

    def run(self, stmts, env, defs, fn):
        for s in stmts:
            self.stmt(s, env, defs, fn)

    def stmt(self, s, env, defs, fn):
        if len(self.out) > self.cap:
            raise AnalysisError("heap events do not end")
        k = s.k
        if k == "block":
            return self.run(s.body, env, defs, fn)
        if k == "decl":
            for d in s.decls:
                env.pop(d.name, None)
                if d.init is not None:
                    if any(x.k == "call" and fname(x) in ALLOC for x in walk(d.init)):
                        self.out.append(("alloc", self.local + d.name, size_of(next(x for x in walk(d.init) if x.k == "call" and fname(x) in ALLOC), {**defs, **env}), fn))
                        continue
                    v = num(d.init, env)
                    if v is None and canon(d.init) in ("true", "false"):
                        v = int(canon(d.init) == "true")
                    if v is not None:
                        env[d.name] = v
                    else:
                        defs[d.name] = d.init
                        if strip(d.init).k in ("mem", "member", "id", "idx") or (strip(d.init).k == "un" and strip(d.init).op == "&"):
                            self.ptr[d.name] = self.key(d.init, env)
                if d.name in self.bounds:
                    env[d.name] = self.bounds[d.name]
            return
        if k == "expr":
            return self.expr(s.e, env, defs, fn)
        if k == "if":
            if not self.relevant(s):
                return
            c = strip(s.cond)
            v = num(c, env)
            if v is None and c.k == "bin" and c.op in ("!=", "==") and canon(c.b) in ("NULL", "nullptr"):
                v = int(c.op == "!=")
            if v is None and c.k in ("mem", "member", "idx", "id") and c.k != "id":
                v = 1
            if v is None and c.k == "id" and c.name in self.bounds:
                v = self.bounds[c.name]
            if v is None:
                raise AnalysisError(f"{fn}: allocation under a condition that is not decided: {vtext(c)[:80]}")
            return self.run(s.then if v else (s.els or []), env, defs, fn)
        if k == "for":
            if not self.relevant(s):
                for n in walk([s]):  # constants assigned inside are unknown afterwards
                    if n.k == "assign" and strip(n.a).k == "id":
                        env.pop(strip(n.a).name, None)
                return
            if s.init is not None:
                self.stmt(s.init, env, defs, fn)
            for _ in range(200):
                v = num(s.cond, env)
                if v is None:
                    raise AnalysisError(f"{fn}: loop around an allocation with unknown bound {vtext(s.cond)[:80]}")
                if not v:
                    return
                self.run(s.body if isinstance(s.body, list) else [s.body], env, defs, fn)
                self.expr(s.step, env, defs, fn)
            raise AnalysisError(f"{fn}: loop does not end")
        if k == "while" and self.relevant(s):
            # zero, one and two turns leave the same heap when every turn is neutral: one turn is unrolled
            n0 = len(self.out)
            self.run(s.body if isinstance(s.body, list) else [s.body], env, defs, fn)
            self.loops.append((n0, len(self.out)))
            return
        if k in ("while", "do", "switch", "macroloop", "rangefor"):
            if self.relevant(s):
                raise AnalysisError(f"{fn}: allocation inside {k}")
            return
        if k == "return":
            return

    def expr(self, e, env, defs, fn):
        e = strip(e)
        if e is None:
            return
        if e.k == "assign":
            a = strip(e.a)
            c = strip(e.b)
            if fname(c) in ALLOC:
                if fname(c) == "realloc":
                    self.out.append(("realloc", self.key(a, env), size_of(c, {**defs, **env}), fn))
                else:
                    self.out.append(("alloc", self.key(a, env), size_of(c, {**defs, **env}), fn))
                return
            if a.k == "id":
                v = num(e.b, env)
                if e.op == "=":
                    if v is None:
                        env.pop(a.name, None)
                        defs[a.name] = e.b
                    else:
                        env[a.name] = v
                elif e.op == "+=" and v is not None and a.name in env:
                    env[a.name] += v
                elif e.op == "-=" and v is not None and a.name in env:
                    env[a.name] -= v
                else:
                    env.pop(a.name, None)
                return
            if e.op == "=" and a.k in ("mem", "member", "idx"):
                self.out.append(("copy", self.key(a, env), self.key(c, env), fn))
            return
        if e.k in ("post", "un", "postfix") and getattr(e, "op", "") in ("++", "--"):
            t = strip(e.e)
            if t.k == "id" and t.name in env:
                env[t.name] += 1 if e.op == "++" else -1
            return
        if e.k == "call":
            f = fname(e)
            if f == "free":
                self.out.append(("free", self.key(e.args[0], env), None, fn))
            elif f in self.funcs:
                self.inline(f, e.args, env)
            return
        if e.k == "comma":
            for i in e.items:
                self.expr(i, env, defs, fn)


def events(text, bounds, funcs=None, name=""):
    b, _ = ctext.parse(text)
    ev = Events(bounds, funcs)
    ev.run([s for s in b if s.k != "func"], dict(bounds), {}, name)
    return ev.out


def events_ast(stmts, bounds, funcs=None, name=""):
    ev = Events(bounds, funcs)
    ev.run(stmts, dict(bounds), {}, name)
    return ev.out


def struct_members(text, name=None):
    """{struct name: {member: declarator text}} of typedef'd structures"""
    out = {}
    t = re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", text, flags=re.S))
    for m in re.finditer(r"(?:typedef\s+)?struct\s+(\w*)\s*\{(.*?)\}\s*([\w,\s]*);", t, re.S):
        mem = {}
        for d in m[2].split(";"):
            d = re.sub(r"^\s*#.*$", "", d, flags=re.M).strip()
            if not d:
                continue
            for part in d.split(","):
                q = re.search(r"(\w+)\s*((?:\[[^\]]*\]\s*)*)$", part.strip())
                if q:
                    mem[q[1]] = re.sub(r"\s+", " ", d)
        for n in re.findall(r"\w+", m[3]) or [m[1]]:
            out[n] = mem
    return out
