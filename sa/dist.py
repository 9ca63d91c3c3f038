"""
Abstract execution of the distributed back end's C++ texts: header macros are expanded as the
preprocessor would (by text), enumerators are their numbers, switches on a known selector follow
the selected case only, messages to other elements are events, reads of array elements whose index
is not constant are applications of an uninterpreted function to that index.
"""

import os
import re

import sympy as sp

from . import cexec, ctext
from .absint import REPO, AnalysisError
from .cexec import CE, F, NS, S, key
from .cflow import strip

TOK = re.compile(r"[A-Za-z_]\w*|\d[\w.]*|\s+|.")


def header_macros(text):
    """({name: ([params], body)}, {name: body}) of the #defines of a text"""
    text = re.sub(r"\\\n", " ", text)
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    fn, ob = {}, {}
    for line in text.split("\n"):
        line = re.sub(r"//.*", "", line)
        m = re.match(r"\s*#\s*define\s+(\w+)\(([^)]*)\)\s*(.*)$", line)
        if m:
            fn[m[1]] = ([p.strip() for p in m[2].split(",")], m[3].strip())
            continue
        m = re.match(r"\s*#\s*define\s+(\w+)\s+(\S.*)$", line)
        if m:
            ob[m[1]] = m[2].strip()
    return fn, ob


def superB_h():
    p = os.path.join(REPO, "nrpy/infrastructures/superB/superB/superB.h")
    with open(p, encoding="utf-8") as f:
        return header_macros(f.read())


def subst(body, names, texts):
    m = dict(zip(names, texts))
    return "".join(m.get(t, t) for t in TOK.findall(body))


class Dist(CE):
    def __init__(self, fn=None, ob=None, **k):
        super().__init__(**k)
        self.fn, self.ob = dict(fn or {}), dict(ob or {})
        idx = {
            "IDX3": (["i", "j", "k"], "((i) + Nxx_plus_2NGHOSTS0 * ((j) + Nxx_plus_2NGHOSTS1 * (k)))"),
            "IDX4": (["g", "i", "j", "k"], "((i) + Nxx_plus_2NGHOSTS0 * ((j) + Nxx_plus_2NGHOSTS1 * ((k) + Nxx_plus_2NGHOSTS2 * (g))))"),
            "IDX4pt": (["g", "idx"], "((idx) + (Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1 * Nxx_plus_2NGHOSTS2) * (g))"),
        }
        for n, d in idx.items():
            self.fn.setdefault(n, d)
        for n in self.fn:
            self.macros.pop(n, None)
        self.depth = 0

    def load(self, b, p):
        k = key(b, p)
        if k in self.env:
            return self.env[k]
        if p and p[-1][0] == "i" and not sp.sympify(p[-1][1]).is_number:
            return F(key(b, p[:-1]))(p[-1][1])
        return S(k)

    def expand(self, name, args):
        ps, body = self.fn[name]
        if len(ps) != len(args):
            raise AnalysisError(f"macro {name} used with {len(args)} arguments")
        return subst(body, ps, [ctext.vtext(a) for a in args])

    def ev(self, e):
        while e.k == "paren":
            e = e.e
        if e.k == "id" and e.name not in self.env and e.name in self.ob:
            self.depth += 1
            if self.depth > 20:
                raise AnalysisError(f"macro {e.name} does not terminate")
            v = self.ev(ctext.parse(self.ob[e.name] + ";")[0][0].e)
            self.depth -= 1
            return v
        if e.k == "call":
            f = strip(e.f)
            if f.k == "id" and f.name in self.fn and not self.fn[f.name][1].startswith("{"):
                return self.ev(ctext.parse(self.expand(f.name, e.args) + ";")[0][0].e)
            if f.k == "mem":
                o = strip(f.a)
                if o.k == "idx" and strip(o.a).k == "id" and strip(o.a).name == "thisProxy":
                    i = strip(o.i)
                    to = [self.as_sym(self.ev(a)) for a in i.args] if i.k == "call" else [self.as_sym(self.ev(i))]
                    self.events.append(NS(kind="send", name=f.m, to=to, args=[self.ev(a) for a in e.args], ctx=self.ctx, node=e))
                    return S("void")
        return super().ev(e)

    def stmt(self, s):
        if s.k == "expr":
            c = strip(s.e)
            if c.k == "call" and strip(c.f).k == "id" and strip(c.f).name in self.fn:
                n = strip(c.f).name
                if self.fn[n][1].startswith("{"):
                    return self.body(ctext.parse(self.expand(n, c.args))[0])
        if s.k == "switch":
            sel = self.as_sym(self.ev(s.cond))
            if sel.is_Integer:
                items = s.body if isinstance(s.body, list) else [s.body]
                if len(items) == 1 and items[0].k == "block":
                    items = items[0].body
                start = dflt = None
                for i, x in enumerate(items):
                    if x.k == "case":
                        if x.val is None:
                            dflt = i
                        else:
                            v = self.as_sym(self.ev(x.val))
                            if not v.is_Integer:
                                raise AnalysisError(f"case label {ctext.vtext(x.val)} has no known value")
                            if v == sel:
                                if start is not None:
                                    raise AnalysisError(f"two cases for the value {sel}")
                                start = i
                start = dflt if start is None else start
                if start is None:
                    return None
                for x in items[start:]:
                    if x.k == "case":
                        continue
                    n0 = len(self.events)
                    if self.stmt(x) == "stop":
                        if any(y.kind == "break" for y in self.events[n0:]) and self.events[-1].kind == "break":
                            return None
                        return "stop"
                return None
        return super().stmt(s)


def run(body, env=None, fn=None, ob=None, types=None, **k):
    ce = Dist(fn=fn, ob=ob, env=env, types=types, **k)
    ast = ctext.parse(re.sub(r"//[^\n]*", "", body))[0] if isinstance(body, str) else body
    ce.run(ast)
    return ce


# ---------------------------------------------------------------- normal forms
NX = {S(f"Nxx_plus_2NGHOSTS{d}"): S(f"Nxx{d}") + 2 * S("NGHOSTS") for d in range(3)}


def norm(e, ren=None):
    """members named like the grid extents stand for them; N+2*NGHOSTS is expanded"""
    e = sp.sympify(e)
    m = {}
    for s in e.free_symbols:
        q = re.search(r"(?:^|\.)(Nxx\d|Nxx_plus_2NGHOSTS\d|Nchare\d)$", s.name)
        if q and (ren is None or ren(s.name) is None):
            m[s] = S(q[1])
        elif ren is not None and ren(s.name) is not None:
            m[s] = S(ren(s.name))
    e = e.subs(m, simultaneous=True)
    return sp.expand(e.subs(NX, simultaneous=True))


class Loops:
    """the counted loops around an event, each running over t in [0, trip)"""

    def __init__(self, e, tag, nrm=norm):
        self.trip, self.sub, self.order = {}, {}, []
        i = 0
        for f in e.ctx:
            if f[0] == "for":
                _, v, lo, hi, st = f
                if st not in (1, -1):
                    raise AnalysisError(f"loop over {v} with step {st}")
                t = S(f"{tag}{i}")
                i += 1
                lo, hi = nrm(lo.subs(self.sub)), nrm(hi.subs(self.sub))
                self.trip[t] = sp.expand((hi - lo) * st)
                self.sub[S(v)] = lo + st * t
                self.order.append(t)
            elif f[0] in ("while", "macro"):
                raise AnalysisError(f"uncounted loop around {e}")
        self.nrm = nrm

    def of(self, x):
        return self.nrm(sp.sympify(x).subs(self.sub, simultaneous=True))


def linear(x, ts):
    """{t: coefficient}, constant part; None if not affine in the given variables"""
    x = sp.expand(x)
    co = {}
    rest = x
    for t in ts:
        c = sp.expand(x.coeff(t, 1))
        co[t] = c
        rest = sp.expand(rest - c * t)
        if any(y in c.free_symbols for y in ts):
            return None, None
    if any(y in rest.free_symbols for y in ts):
        return None, None
    return {t: c for t, c in co.items() if c != 0}, rest


def positive(c):
    """sign of a polynomial whose terms all have the same sign (symbols stand for counts)"""
    s = {sp.sign(k) for k in sp.Poly(c, *c.free_symbols).coeffs()} if c.free_symbols else {sp.sign(c)}
    return s.pop() if len(s) == 1 else None


def flips(x, trip):
    """substitution t -> trip-1-t making all coefficients positive"""
    co, _ = linear(x, list(trip))
    if co is None:
        raise AnalysisError(f"index {x} is not affine in the loop variables")
    out = {}
    for t, c in co.items():
        p = positive(c)
        if p is None:
            raise AnalysisError(f"coefficient {c} of unknown sign")
        if p < 0:
            out[t] = trip[t] - 1 - t
    return out


def exact_cover(x, trip, length):
    """None if x takes every value of [0, length) exactly once; else what is wrong"""
    co, c0 = linear(x, list(trip))
    if co is None:
        return f"index {x} is not affine"
    if set(co) != {t for t in trip if trip[t] != 1}:
        return "an enclosing loop does not change the index"
    if c0 != 0:
        return f"starts at {c0}"
    terms = [(co[t], trip[t]) for t in co]
    want = sp.Integer(1)
    while terms:
        nx = [q for q in terms if sp.expand(q[0] - want) == 0]
        if not nx:
            return f"strides {[str(q[0]) for q in terms]} do not continue at {want}"
        terms.remove(nx[0])
        want = sp.expand(want * nx[0][1])
    if sp.expand(want - length) != 0:
        return f"covers {want} elements, not {length}"
    return None


def guards(e):
    return tuple((f[1], f[2]) for f in e.ctx if f[0] == "if")


__all__ = ["Dist", "run", "norm", "Loops", "linear", "flips", "exact_cover", "guards", "header_macros", "superB_h", "S", "F", "cexec"]
