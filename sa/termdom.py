"""
Term domain for the abstract interpreter: symbolic-algebra expression nodes whose head is
refined on demand (narrowing) when the analysed code tests it.
"""

from fractions import Fraction

import sympy as sp

from .absint import Dom, Ext

ARITY = {
    "Pow": 2, "Abs": 1, "exp": 1, "log": 1, "sin": 1, "cos": 1, "sign": 1, "Symbol": 0, "tan": 1, "sinh": 1, "cosh": 1, "tanh": 1, "atan": 1, "nrpyAbs": 1,
    "AbsSIMD": 1, "ExpSIMD": 1, "LogSIMD": 1, "SinSIMD": 1, "CosSIMD": 1, "SignSIMD": 1, "SqrtSIMD": 1, "CbrtSIMD": 1, "PowSIMD": 2,
    "AddSIMD": 2, "SubSIMD": 2, "MulSIMD": 2, "DivSIMD": 2,
    "FusedMulAddSIMD": 3, "FusedMulSubSIMD": 3, "NegFusedMulAddSIMD": 3, "NegFusedMulSubSIMD": 3,
}
UNINT = {"exp": "exp", "ExpSIMD": "exp", "log": "log", "LogSIMD": "log", "sin": "sin", "SinSIMD": "sin", "cos": "cos", "CosSIMD": "cos", "Abs": "abs", "AbsSIMD": "abs", "nrpyAbs": "abs", "sign": "sign", "SignSIMD": "sign"}
EXPONENTS = [Fraction(n) for n in (*range(2, 18), 21, 32, *range(-13, 0))] + [Fraction(n, 2) for n in range(-11, 12, 2)] + [Fraction(n, 3) for n in (1, -1, 2, -2, 4)] + [Fraction(1, 4), Fraction(-1, 4)]
FLOAT_EXPONENTS = [Fraction(n, 2) for n in (1, -1, -3, -5, 3)]


class TermFault(Exception):
    """the analysed code would fail on this term"""


def hname(o):
    if isinstance(o, Ext):
        return o.name.split(".")[-1]
    if isinstance(o, Head):
        return o.name
    if isinstance(o, FuncRef):
        t = o.t
        return t.head if isinstance(t, Term) else t.hname
    return None


class Head(Dom):
    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        if isinstance(o, FuncRef):
            return o == self
        return hname(o) == self.name

    def __call__(self, *args, evaluate=True):
        n = ARITY.get(self.name)
        if n is not None and len(args) != n:
            raise TermFault(f"{self.name} applied to {len(args)} arguments")
        return Term(None, None, self.name, list(args))

    def __repr__(self):
        return self.name


class FuncRef(Dom):
    def __init__(self, t):
        self.t = t

    __hash__ = None

    def __eq__(self, o):
        n = hname(o)
        if n is None:
            return False
        if isinstance(self.t, Num):
            return n in (self.t.hname,)
        return self.t.is_head(n)

    def __call__(self, *args, evaluate=True):
        return Head(hname(self))(*args)

    def __repr__(self):
        return f"func({self.t!r})"


class Num(Dom):
    def __init__(self, v, isfloat=False):
        self.v = Fraction(v)
        self.isfloat = isfloat

    @property
    def hname(self):
        return "Float" if self.isfloat else ("NegativeOne" if self.v == -1 else "One" if self.v == 1 else "Zero" if self.v == 0 else "Half" if self.v == Fraction(1, 2) else "Integer" if self.v.denominator == 1 else "Rational")

    @property
    def func(self):
        return FuncRef(self)

    args = ()
    free_symbols = ()

    @property
    def p(self):
        return Num(self.v.numerator)

    @property
    def q(self):
        return Num(self.v.denominator)

    def dom_isinstance(self, names):
        if self.isfloat:
            return "Float" in names
        return "Rational" in names or "Number" in names or ("Integer" in names and self.v.denominator == 1) or "Basic" in names or "Expr" in names

    def __hash__(self):
        return hash(self.v)

    def _c(self, o):
        if isinstance(o, Num):
            return o.v
        if isinstance(o, (int, float, Fraction)):
            return Fraction(o)
        return None

    def __eq__(self, o):
        if isinstance(o, (RatVal, Term)):
            return o == self
        c = self._c(o)
        return c is not None and c == self.v

    def __lt__(self, o):
        return self.v < self._c(o)

    def __le__(self, o):
        return self.v <= self._c(o)

    def __gt__(self, o):
        return self.v > self._c(o)

    def __ge__(self, o):
        return self.v >= self._c(o)

    def __neg__(self):
        return Num(-self.v, self.isfloat)

    def __abs__(self):
        return Num(abs(self.v), self.isfloat)

    def __add__(self, o):
        return Num(self.v + self._c(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Num(self.v - self._c(o))

    def __rsub__(self, o):
        return Num(self._c(o) - self.v)

    def __mul__(self, o):
        if isinstance(o, Term):
            return o * self
        return Num(self.v * self._c(o))

    __rmul__ = __mul__

    def __mod__(self, o):
        return Num(self.v % self._c(o))

    def __floordiv__(self, o):
        return Num(self.v // self._c(o))

    def __truediv__(self, o):
        return Num(self.v / self._c(o))

    def __pow__(self, o):
        return Num(self.v ** int(self._c(o)))

    def __int__(self):
        return int(self.v)

    __index__ = __int__

    def __float__(self):
        return float(self.v)

    def __bool__(self):
        return self.v != 0

    def __str__(self):
        return str(self.v)

    __repr__ = __str__


class Term(Dom):
    maxarity = 3

    def __init__(self, I, key, head=None, args=None, name=None):
        self.I, self.key, self.head, self.name = I, key, head, name
        self._args = args
        self.negh = set()
        self.val = None  # bound rational value
        self.negv = set()
        self.indict = None
        if key is None and head == "Symbol":
            self.key = name

    # ---- heads
    def is_head(self, n):
        if self.val is not None and self.head is None:
            return n in ("NegativeOne", "One", "Integer", "Rational")
        if self.head is not None:
            return self.head == n
        if n in self.negh:
            return False
        if n not in ARITY and n not in ("Add", "Mul"):
            return False
        if self.I.decide(f"{self.key}.head=={n}"):
            self.refine(n)
            return True
        self.negh.add(n)
        return False

    def refine(self, n):
        self.head = n
        I, k = self.I, self.key
        if n in ("Add", "Mul"):
            a = 2
            while a < self.maxarity and I.decide(f"{k}.arity>{a}"):
                a += 1
        else:
            a = ARITY[n]
        if n == "Pow":
            base = Term(I, k + ".0")
            for viasym in (False, True):
                if viasym and not I.decide(f"{k}.exp via symbol"):
                    break
                for e in EXPONENTS:
                    if I.decide(f"{k}.exp=={e}{'s' if viasym else ''}"):
                        if viasym:
                            x = Term(I, k + ".1", "Symbol", [])
                            x.indict, x.val = True, e
                        else:
                            x = Num(e)
                        self._args = [base, x]
                        return
                if not viasym:
                    for e in FLOAT_EXPONENTS:
                        if I.decide(f"{k}.exp==float {e}"):
                            self._args = [base, Num(e, True)]
                            return
            x = Term(I, k + ".1", "Symbol", [])
            x.indict = False
            self._args = [base, x]
            return
        self._args = [Term(I, f"{k}.{i}") for i in range(a)]

    @property
    def func(self):
        return FuncRef(self)

    @property
    def args(self):
        if self.head is None and self.val is None:
            return ArgsView(self)
        return tuple(self._args or ())

    @property
    def free_symbols(self):
        return set(t for t in self.symbols())

    def symbols(self, out=None):
        out = [] if out is None else out
        if self.head == "Symbol":
            out.append(self)
        for a in self._args or ():
            if isinstance(a, Term):
                a.symbols(out)
        return out

    def dom_isinstance(self, names):
        if "Symbol" in names and self.is_head("Symbol"):
            return True
        if "Rational" in names or "Number" in names:
            return False
        if "Function" in names:
            if self.head is None:
                return False
            return self.head not in ("Add", "Mul", "Pow", "Symbol")
        return "Basic" in names or "Expr" in names

    # ---- equality
    def __hash__(self):
        return hash(self.name) if self.name else id(self)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Term):
            if self.head == "Symbol" and o.head == "Symbol" and self.name is not None and o.name is not None:
                return self.name == o.name
            if self.head is not None and self.head == o.head and self.head != "Symbol" and len(self._args) == len(o._args):
                return all(a == b for a, b in zip(self._args, o._args))
            return False  # distinct arguments of canonical sums and products
        if isinstance(o, (Num, int, Fraction, float)):
            v = o.v if isinstance(o, Num) else Fraction(o)
            if self.head is not None:
                return False
            if self.val is not None:
                return self.val == v
            if v in self.negv:
                return False
            if self.I.decide(f"{self.key}=={v}"):
                self.val = v
                return True
            self.negv.add(v)
            return False
        return False

    def __mul__(self, o):
        if isinstance(o, int) or isinstance(o, Num):
            v = o.v if isinstance(o, Num) else Fraction(o)
            if v == 1:
                return self
            o = Num(v)
            return Term(None, None, "Mul", [o, self])
        fl = lambda t: list(t._args) if isinstance(t, Term) and t.head == "Mul" else [t]
        return Term(None, None, "Mul", fl(self) + fl(o))

    __rmul__ = __mul__

    def __add__(self, o):
        o = Num(o) if isinstance(o, int) else o
        fl = lambda t: list(t._args) if isinstance(t, Term) and t.head == "Add" else [t]
        return Term(None, None, "Add", fl(self) + fl(o))

    __radd__ = __add__

    def __neg__(self):
        return Term(None, None, "Mul", [Num(-1), self])

    def __sub__(self, o):
        return self + (-o)

    def __truediv__(self, o):
        return self * Term(None, None, "Pow", [o, Num(-1)])

    def __pow__(self, o):
        return Term(None, None, "Pow", [self, Num(o) if isinstance(o, (int, Fraction)) else o])

    def __str__(self):
        if self.head == "Symbol" and self.name:
            return self.name
        if self.head is None:
            return f"?{self.key}" if self.val is None else f"({self.val})"
        if self.head == "Symbol":
            return f"sym:{self.key}" + (f"[={self.val}]" if self.val is not None else "")
        return f"{self.head}({', '.join(map(str, self._args))})"

    __repr__ = __str__


class ArgsView(Dom):
    """arguments of a node whose kind has not been tested yet"""

    def __init__(self, t):
        self.t = t

    def _get(self):
        t = self.t
        if t.head is None:
            raise TermFault(f"arguments of {t} used before its kind was tested (a leaf has none)")
        return tuple(t._args)

    def __getitem__(self, i):
        return self._get()[i]

    def __len__(self):
        return len(self._get())

    def __iter__(self):
        return iter(self._get())


class RatVal(Dom):
    """value of a symbol that stands for an unknown rational constant"""

    def __init__(self, t):
        self.t = t

    __hash__ = None

    def dom_isinstance(self, names):
        return False if self.t.val is None else Num(self.t.val).dom_isinstance(names)

    def __eq__(self, o):
        t = self.t
        if isinstance(o, RatVal):
            return o.t is t
        v = o.v if isinstance(o, Num) else (Fraction(o) if isinstance(o, (int, float, Fraction)) else None)
        if v is None:
            return False
        if t.val is not None:
            return t.val == v
        if v in t.negv:
            return False
        if t.I.decide(f"value({t.key})=={v}"):
            t.val = v
            return True
        t.negv.add(v)
        return False

    @property
    def func(self):
        return FuncRef(Num(Fraction(1, 7)))


class RatDict(Dom):
    """symbol -> rational dictionary: known entries plus unknown ones decided on demand"""

    def __init__(self, entries=()):
        self.d = {}
        for n, v in entries:
            self.d[n] = (Term(None, None, "Symbol", [], n), Num(v))

    def _known(self, k):
        return isinstance(k, Term) and k.head == "Symbol" and k.name is not None

    def has(self, k):
        if self._known(k):
            return k.name in self.d
        if isinstance(k, Term) and k.head == "Symbol":
            if k.indict is None:
                k.indict = k.I.decide(f"{k.key} is a constant")
            return k.indict
        return False

    def __contains__(self, k):
        return self.has(k)

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        if self._known(k):
            return self.d[k.name][1]
        return RatVal(k) if k.val is None else Num(k.val)

    def __setitem__(self, k, v):
        self.d[k.name] = (k, v if isinstance(v, Num) else Num(v))

    def __delitem__(self, k):
        del self.d[k.name]

    def __iter__(self):
        return iter([t for t, v in self.d.values()])

    def __bool__(self):
        return bool(self.d)

    def __len__(self):
        return len(self.d)

    def get(self, k, default=None):
        return self[k] if self.has(k) else default

    def keys(self):
        return list(self)

    def values(self):
        return [v for t, v in self.d.values()]

    def items(self):
        return [(t, v) for t, v in self.d.values()]

    def pop(self, k, default=None):
        if self.has(k):
            v = self[k]
            del self[k]
            return v
        return default

    def __repr__(self):
        return "{" + ", ".join(f"{n}: {v}" for n, (t, v) in self.d.items()) + "}"


def value(t, rd, undefined=None):
    """exact value of a term"""
    if isinstance(t, Num):
        return sp.Rational(t.v.numerator, t.v.denominator)
    if isinstance(t, (int, Fraction)):
        return sp.Rational(Fraction(t).numerator, Fraction(t).denominator)
    if isinstance(t, RatVal):
        t = t.t
    if not isinstance(t, Term):
        raise TermFault(f"{t!r} is not an expression")
    if t.val is not None:
        return sp.Rational(t.val.numerator, t.val.denominator)
    if t.head is None or (t.head == "Symbol" and t.name is None):
        return sp.Symbol(t.key, positive=True)
    if t.head == "Symbol":
        if t.name in rd.d:
            v = rd.d[t.name][1].v
            return sp.Rational(v.numerator, v.denominator)
        if undefined is not None:
            undefined.append(t.name)
        return sp.Symbol(t.name, positive=True)
    a = [value(x, rd, undefined) for x in t._args]
    h = t.head
    if h in ("Add", "AddSIMD"):
        return sp.Add(*a)
    if h in ("Mul", "MulSIMD"):
        return sp.Mul(*a)
    if h == "SubSIMD":
        return a[0] - a[1]
    if h == "DivSIMD":
        return a[0] / a[1]
    if h in ("Pow", "PowSIMD"):
        return a[0] ** a[1]
    if h == "SqrtSIMD":
        return a[0] ** sp.Rational(1, 2)
    if h == "CbrtSIMD":
        return a[0] ** sp.Rational(1, 3)
    if h == "FusedMulAddSIMD":
        return a[0] * a[1] + a[2]
    if h == "FusedMulSubSIMD":
        return a[0] * a[1] - a[2]
    if h == "NegFusedMulAddSIMD":
        return -a[0] * a[1] + a[2]
    if h == "NegFusedMulSubSIMD":
        return -a[0] * a[1] - a[2]
    if h in UNINT:
        return sp.Function(UNINT[h] + "_")(*a)
    return sp.Function(h)(*a)


def same(x, y):
    d = x - y
    if d == 0:
        return True
    d = sp.expand(sp.powsimp(sp.expand(d)))
    return d == 0 or sp.simplify(d) == 0
