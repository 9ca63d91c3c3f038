"""Small static-analysis toolkit over parsed C: polynomial normal forms, loop summaries, local
constant propagation, macro expansion of the repository's indexing macros."""

import re

import sympy as sp

from . import ctext
from .ctext import N, vtext, walk


def strip(e):
    while e is not None and e.k in ("paren", "cast"):
        e = e.e
    return e


def text(e, env=None):
    """canonical text without casts, parentheses and spaces; env: local name -> replacement N"""
    if e is None:
        return ""
    e = strip(e)
    k = e.k
    if k == "id":
        if env and e.name in env and env[e.name] is not None:
            return text(env[e.name], {a: b for a, b in env.items() if a != e.name})
        return e.name
    if k == "num":
        return re.sub(r"(?<=[0-9])[uUlLfF]+$", "", e.v)
    if k == "str":
        return e.v
    if k == "call":
        return text(e.f) + "(" + ",".join(text(a, env) for a in e.args) + ")"
    if k == "idx":
        return text(e.a, env) + "[" + text(e.i, env) + "]"
    if k == "mem":
        a = strip(e.a)
        if a.k == "un" and a.op == "&":
            return text(a.e, env) + "." + e.m
        if a.k == "un" and a.op == "*":
            return text(a.e, env) + "->" + e.m
        t = text(e.a, env)
        if e.op == "->" and t.startswith("&"):
            return t[1:] + "." + e.m
        return t + e.op + e.m
    if k == "un":
        inner = text(e.e, env)
        if e.op == "*" and inner.startswith("&"):
            return inner[1:]
        if strip(e.e).k == "bin":
            inner = f"({inner})"
        return e.op + inner
    if k == "post":
        return text(e.e, env) + e.op
    if k == "bin":
        p = expr(e, env)
        return str(p).replace(" ", "")
    if k == "cond":
        return f"({text(e.c, env)}?{text(e.a, env)}:{text(e.b, env)})"
    if k == "sizeof":
        return "sizeof(" + "".join(e.toks) + ")"
    if k == "assign":
        return text(e.a, env) + e.op + text(e.b, env)
    return vtext(e)


N0, N1, N2 = (sp.Symbol(f"Nxx_plus_2NGHOSTS{i}") for i in range(3))


def _macro(name, a):
    if name == "IDX3" and len(a) == 3:
        return a[0] + N0 * (a[1] + N1 * a[2])
    if name == "IDX4" and len(a) == 4:
        return a[1] + N0 * (a[2] + N1 * (a[3] + N2 * a[0]))
    if name == "IDX4pt" and len(a) == 2:
        return a[1] + N0 * N1 * N2 * a[0]
    return None


def expr(e, env=None, deref=None):
    """polynomial (sympy) of an integer expression; anything else becomes a symbol named by its text"""
    e = strip(e)
    k = e.k
    if k == "num":
        t = re.sub(r"[uUlLfF]+$", "", e.v)
        try:
            return sp.Integer(int(t, 0))
        except ValueError:
            try:
                return sp.nsimplify(t)
            except Exception:
                return sp.Symbol(e.v)
    if k == "id":
        if env and e.name in env and env[e.name] is not None:
            v = env[e.name]
            return v if isinstance(v, sp.Basic) else expr(v, {a: b for a, b in env.items() if a != e.name}, deref)
        return sp.Symbol(e.name)
    if k == "bin" and e.op in "+-*":
        a, b = expr(e.a, env, deref), expr(e.b, env, deref)
        return sp.expand(a + b if e.op == "+" else a - b if e.op == "-" else a * b)
    if k == "bin":
        a, b = expr(e.a, env, deref), expr(e.b, env, deref)
        if e.op == "/":
            # one canonical spelling of truncating division
            return sp.Function("idiv")(a, b)
        return sp.Function({"%": "mod", "<<": "shl", ">>": "shr", "<": "lt", ">": "gt", "<=": "le", ">=": "ge", "==": "eq", "!=": "ne", "&&": "and_", "||": "or_", "&": "band", "|": "bor", "^": "bxor"}.get(e.op, "op"))(a, b)
    if k == "un" and e.op == "-":
        return sp.expand(-expr(e.e, env, deref))
    if k == "un" and e.op == "+":
        return expr(e.e, env, deref)
    if k == "call" and strip(e.f).k == "id":
        a = [expr(x, env, deref) for x in e.args]
        m = _macro(strip(e.f).name, a)
        if m is not None:
            return sp.expand(m)
        return sp.Function(strip(e.f).name)(*a)
    if k in ("mem", "idx"):
        t = text(e, env)
        return sp.Symbol(member_alias(t))
    return sp.Symbol(text(e, env))


def member_alias(t):
    """params->X, griddata[..].params.X and plain X denote the same grid parameter"""
    m = re.fullmatch(r"(?:\w+->|[\w\[\]\->.]*\bparams(?:->|\.))(Nxx_plus_2NGHOSTS\d|Nxx\d|dxx\d|invdxx\d)", t)
    return m.group(1) if m else t


def for_info(n, env=None):
    """(var, lo, hi_exclusive, step) of a canonical counted loop, else None"""
    if n.k != "for" or n.init is None or n.cond is None or n.step is None:
        return None
    if n.init.k == "decl" and len(n.init.decls) == 1 and n.init.decls[0].init is not None:
        v, lo = n.init.decls[0].name, expr(n.init.decls[0].init, env)
    elif n.init.k == "expr" and n.init.e.k == "assign" and n.init.e.op == "=" and strip(n.init.e.a).k == "id":
        v, lo = strip(n.init.e.a).name, expr(n.init.e.b, env)
    else:
        return None
    c = strip(n.cond)
    if c.k != "bin":
        return None
    a, b = strip(c.a), strip(c.b)
    if a.k == "id" and a.name == v and c.op in ("<", "<=", "!="):
        hi = expr(c.b, env) + (1 if c.op == "<=" else 0)
    elif b.k == "id" and b.name == v and c.op in (">", ">="):
        hi = expr(c.a, env) + (1 if c.op == ">=" else 0)
    elif a.k == "id" and a.name == v and c.op in (">", ">="):
        hi = expr(c.b, env) - (1 if c.op == ">=" else 0)
    else:
        return None
    s = strip(n.step)
    st = None
    if s.k in ("post", "un") and s.op in ("++", "--") and strip(s.e).k == "id" and strip(s.e).name == v:
        st = sp.Integer(1 if s.op == "++" else -1)
    elif s.k == "assign" and strip(s.a).k == "id" and strip(s.a).name == v:
        if s.op in ("+=", "-="):
            st = expr(s.b, env) * (1 if s.op == "+=" else -1)
        elif s.op == "=":
            st = sp.expand(expr(s.b, env) - sp.Symbol(v))
    if st is None:
        return None
    return v, sp.expand(lo), sp.expand(hi), st


def assigned_counts(stmts):
    """how often each plain local name is assigned (declarations with initialiser count)"""
    out = {}

    def bump(nm, k=1):
        out[nm] = out.get(nm, 0) + k

    for n in walk(stmts):
        if n.k == "dcl" and n.init is not None:
            bump(n.name)
        elif n.k == "assign" and strip(n.a).k == "id":
            bump(strip(n.a).name)
        elif n.k in ("post", "un") and n._d.get("op") in ("++", "--") and strip(n.e).k == "id":
            bump(strip(n.e).name, 2)
        elif n.k == "un" and n.op == "&" and strip(n.e).k == "id":
            bump(strip(n.e).name, 2)
    return out


def local_env(stmts):
    """single-assignment scalar/pointer locals with an initialiser: name -> initialiser"""
    cnt = assigned_counts(stmts)
    env = {}
    for n in walk(stmts):
        if n.k == "decl":
            for d in n.decls:
                if d.init is not None and not d.dims and d.init.k != "init" and cnt.get(d.name, 0) == 1:
                    if d.name in env:
                        env[d.name] = None  # redeclared in another scope: ambiguous unless identical
                    else:
                        env[d.name] = d.init
    # loop counters are never constants
    for n in walk(stmts):
        if n.k == "for" and n.init is not None and n.init.k == "decl":
            for d in n.init.decls:
                env.pop(d.name, None)
    return {a: b for a, b in env.items() if b is not None}


def calls(n, names=None):
    for x in walk(n):
        if x.k == "call" and strip(x.f).k == "id" and (names is None or strip(x.f).name in names):
            yield x


def is_alloc(e):
    e = strip(e)
    return e is not None and e.k == "call" and strip(e.f).k == "id" and strip(e.f).name in ("malloc", "calloc", "realloc", "bhah_malloc", "aligned_alloc")
