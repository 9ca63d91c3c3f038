"""
Symbolic evaluation of C macro headers of vector operations.

A header is preprocessed for one set of predefined macros (only the conditional structure
and the #defines are interpreted), a macro call is expanded textually, parsed, and
evaluated over lanes of exact algebraic terms (sympy expressions used as a term algebra).
"""

import re
from fractions import Fraction

import sympy as sp

TOK = re.compile(r"\s*(?:(0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?)[fFlLuU]*|([A-Za-z_]\w*)|(&&|\|\||==|!=|<=|>=|.))", re.S)


class EvalError(Exception):
    pass


def preprocess(text, defined):
    """-> dict name -> (params|None, body) of the branch selected by `defined` (set of names)."""
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"\\\n", " ", text)
    defs = {}
    stack = []  # [taken_now, taken_any, parent_active]
    defined = dict.fromkeys(defined, 1)

    def cond(e):
        e = re.sub(r"defined\s*\(?\s*(\w+)\s*\)?", lambda m: "1" if m.group(1) in defined or m.group(1) in defs else "0", e)
        e = re.sub(r"//.*", "", e)
        e = re.sub(r"\b(\d+)[uUlL]+\b", r"\1", e)
        e = re.sub(r"[A-Za-z_]\w*", lambda m: "1" if m.group(0) in defined or m.group(0) in defs else "0", e)
        e = e.replace("&&", " and ").replace("||", " or ")
        e = re.sub(r"!(?!=)", " not ", e)
        try:
            return bool(eval(e, {"__builtins__": {}}, {}))
        except Exception:
            raise EvalError(f"condition {e!r}")

    for line in text.split("\n"):
        m = re.match(r"\s*#\s*(\w+)\s*(.*)", line)
        if not m:
            continue
        d, rest = m.group(1), m.group(2)
        active = all(s[0] for s in stack)
        if d in ("ifdef", "ifndef", "if"):
            if d == "if":
                c = cond(rest) if active else False
            else:
                nm = rest.split()[0]
                c = (nm in defined or nm in defs) == (d == "ifdef")
            stack.append([c, c])
        elif d == "elif":
            pa = all(s[0] for s in stack[:-1])
            c = (not stack[-1][1]) and pa and cond(rest)
            stack[-1][0] = c
            stack[-1][1] = stack[-1][1] or c
        elif d == "else":
            c = not stack[-1][1]
            stack[-1] = [c, True]
        elif d == "endif":
            stack.pop()
        elif d == "define" and active:
            rest = re.sub(r"//.*", "", rest)
            mm = re.match(r"(\w+)\(([^)]*)\)\s*(.*)", rest)
            if mm:
                defs[mm.group(1)] = ([x.strip() for x in mm.group(2).split(",") if x.strip()], mm.group(3).strip())
            else:
                mm = re.match(r"(\w+)\s*(.*)", rest)
                defs[mm.group(1)] = (None, mm.group(2).strip())
        elif d == "undef" and active:
            defs.pop(rest.split()[0], None)
    return defs


def toks(s):
    out = []
    i = 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            break
        i = m.end()
        if m.group(1):
            out.append(("n", m.group(1)))
        elif m.group(2):
            out.append(("i", m.group(2)))
        else:
            out.append(("p", m.group(3)))
    return out


def expand(tk, defs, hide=frozenset(), depth=0):
    if depth > 12:
        raise EvalError("macro recursion")
    out = []
    i = 0
    while i < len(tk):
        k, v = tk[i]
        if k == "i" and v in defs and v not in hide:
            params, body = defs[v]
            if params is None:
                out += expand(toks(body), defs, hide | {v}, depth + 1)
                i += 1
                continue
            if i + 1 < len(tk) and tk[i + 1] == ("p", "("):
                j, d, args, cur = i + 2, 1, [], []
                while d:
                    if j >= len(tk):
                        raise EvalError(f"unterminated call of {v}")
                    t = tk[j]
                    if t == ("p", "("):
                        d += 1
                    elif t == ("p", ")"):
                        d -= 1
                        if d == 0:
                            break
                    if t == ("p", ",") and d == 1:
                        args.append(cur)
                        cur = []
                    else:
                        cur.append(t)
                    j += 1
                args.append(cur)
                if len(args) != len(params):
                    raise EvalError(f"{v} called with {len(args)} arguments, defined with {len(params)}")
                args = [expand(a, defs, hide, depth + 1) for a in args]
                sub = []
                for t in toks(body):
                    if t[0] == "i" and t[1] in params:
                        sub += args[params.index(t[1])]
                    else:
                        sub.append(t)
                out += expand(sub, defs, hide | {v}, depth + 1)
                i = j + 1
                continue
        out.append(tk[i])
        i += 1
    return out


# --------------------------------------------------------------------- values
class Vec:
    def __init__(self, lanes):
        self.l = list(lanes)

    @property
    def w(self):
        return len(self.l)


class Bits:
    """constant bit pattern per 64-bit lane"""

    def __init__(self, kind, w=None):
        self.kind, self.w = kind, w


class Mask:
    def __init__(self, conds, packed):
        self.c, self.packed = conds, packed


class Ptr:
    def __init__(self, name):
        self.name = name


class Store:
    def __init__(self, ptr, val):
        self.ptr, self.val = ptr, val


SEL = sp.Function("SEL")
GT = sp.Function("GT")
GE = sp.Function("GE")
NEGZERO = sp.Symbol("__negzero")


def cmpf(op, a, b):
    if op == ">":
        return GT(a - b)
    if op == "<":
        return GT(b - a)
    if op == ">=":
        return GE(a - b)
    if op == "<=":
        return GE(b - a)
    raise EvalError(f"comparison {op}")


CMPNAMES = {"_CMP_GT_OQ": ">", "_CMP_GT_OS": ">", "_CMP_LT_OQ": "<", "_CMP_LT_OS": "<", "_CMP_GE_OQ": ">=", "_CMP_GE_OS": ">=", "_CMP_LE_OQ": "<=", "_CMP_LE_OS": "<=", "_CMP_NLE_UQ": ">", "_CMP_NLE_US": ">", "_CMP_NLT_US": ">=", "_CMP_NGE_US": "<", "_CMP_NGT_US": "<="}
FN = {n: sp.Function(n) for n in ("sqrt", "exp", "sin", "cos", "log", "cbrt", "fabs", "pow", "sign")}


class Ev:
    def __init__(self, tk, env):
        self.t, self.i, self.env = tk, 0, dict(env)

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ("e", "")

    def eat(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            raise EvalError(f"expected {v!r}, found {t[1]!r}")
        self.i += 1
        return t

    # expression grammar
    def assign(self):
        a = self.tern()
        if self.peek() == ("p", "=") :
            self.eat()
            b = self.assign()
            if isinstance(a, tuple) and a[0] == "deref":
                return Store(a[1], self.rv(b))
            raise EvalError("assignment")
        return a

    def rv(self, v):
        if isinstance(v, tuple) and v[0] == "deref":
            return Vec([sp.Symbol(f"{v[1].name}_0")])
        return v

    def tern(self):
        c = self.rel()
        if self.peek() == ("p", "?"):
            self.eat()
            a = self.rv(self.assign())
            self.eat(":")
            b = self.rv(self.tern())
            if isinstance(c, Mask):
                return Vec([SEL(k, x, y) for k, x, y in zip(c.c, a.l, b.l)])
            raise EvalError("ternary condition")
        return c

    def rel(self):
        a = self.add()
        while self.peek()[1] in ("<", ">", "<=", ">="):
            op = self.eat()[1]
            b = self.rv(self.add())
            a = self.rv(a)
            a = Mask([cmpf(op, x, y) for x, y in zip(a.l, b.l)], True)
        return a

    def lanewise(self, f, *vs):
        vs = [self.rv(v) for v in vs]
        if not all(isinstance(v, Vec) for v in vs):
            raise EvalError("arithmetic on a non-numeric value")
        if len({v.w for v in vs}) != 1:
            raise EvalError(f"operands of different widths {[v.w for v in vs]}")
        return Vec([f(*x) for x in zip(*(v.l for v in vs))])

    def add(self):
        a = self.mul()
        while self.peek() in (("p", "+"), ("p", "-")):
            op = self.eat()[1]
            b = self.mul()
            a = self.lanewise((lambda x, y: x + y) if op == "+" else (lambda x, y: x - y), a, b)
        return a

    def mul(self):
        a = self.un()
        while self.peek() in (("p", "*"), ("p", "/")):
            op = self.eat()[1]
            b = self.un()
            a = self.lanewise((lambda x, y: x * y) if op == "*" else (lambda x, y: x / y), a, b)
        return a

    def un(self):
        t = self.peek()
        if t == ("p", "-"):
            self.eat()
            v = self.rv(self.un())
            if isinstance(v, Vec) and v.l == [sp.S.Zero]:
                return Vec([NEGZERO])
            return self.lanewise(lambda x: -x, v)
        if t == ("p", "+"):
            self.eat()
            return self.un()
        if t == ("p", "*"):
            self.eat()
            v = self.un()
            if isinstance(v, Ptr):
                return ("deref", v)
            raise EvalError("dereference of a non-pointer")
        return self.post()

    def post(self):
        t = self.eat()
        if t[0] == "n":
            x = t[1]
            if x.lower().startswith("0x"):
                return Bits(int(x, 16))
            return Vec([sp.Rational(Fraction(x))])
        if t == ("p", "("):
            if self.peek() == ("p", "{"):
                return self.stmtexpr()
            # cast?
            if self.peek()[0] == "i" and self.peek()[1] in ("double", "float", "REAL", "long", "int") and self.peek(1) == ("p", ")"):
                self.eat()
                self.eat()
                return self.un()
            v = self.assign()
            self.eat(")")
            return v
        if t[0] == "i":
            if self.peek() == ("p", "("):
                self.eat()
                args = []
                while self.peek() != ("p", ")"):
                    args.append(self.rv(self.assign()))
                    if self.peek() == ("p", ","):
                        self.eat()
                self.eat(")")
                return self.call(t[1], args)
            if t[1] in self.env:
                return self.env[t[1]]
            if t[1] in CMPNAMES:
                return ("cmp", CMPNAMES[t[1]])
            raise EvalError(f"unknown identifier {t[1]}")
        raise EvalError(f"unexpected {t[1]!r}")

    def stmtexpr(self):
        self.eat("{")
        v = None
        while self.peek() != ("p", "}"):
            if self.peek() == ("p", ";"):
                self.eat()
                continue
            while self.peek()[1] == "const":
                self.eat()
            if self.peek()[0] == "i" and self.peek(1)[0] == "i":
                ty = self.eat()[1]
                nm = self.eat()[1]
                self.eat("=")
                v = self.rv(self.assign())
                w = {"__m128d": 2, "__m256d": 4, "__m512d": 8, "double": 1, "REAL": 1}.get(ty)
                if isinstance(v, Vec) and w is not None and v.w != w:
                    raise EvalError(f"{ty} {nm} initialised with a value of {v.w} lanes")
                self.env[nm] = v
            else:
                v = self.rv(self.assign())
            self.eat(";")
        self.eat("}")
        self.eat(")")
        return v

    def call(self, name, a):
        m = re.match(r"_mm(256|512)?_(\w+)$", name)
        if m:
            return self.intrin(name, {None: 2, "256": 4, "512": 8}[m.group(1)], m.group(2), a)
        base = re.sub(r"^__(d|f)(\w+)_r[nzud]$", r"\2", name)
        if base != name and base in ("add", "sub", "mul", "div", "sqrt"):
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "sqrt": FN["sqrt"]}[base]
            self.arity(name, a, 1 if base == "sqrt" else 2)
            return self.lanewise(f, *a)
        if name in ("__fma_rn", "fma", "__fmaf_rn", "fmaf"):
            self.arity(name, a, 3)
            return self.lanewise(lambda x, y, z: x * y + z, *a)
        if name == "__ldg":
            if len(a) == 1 and isinstance(a[0], Ptr):
                return Vec([sp.Symbol(f"{a[0].name}_0")])
            raise EvalError("__ldg of a non-pointer")
        b2 = name[:-1] if name[-1] in "fl" and name[:-1] in FN else name
        if b2 in FN:
            self.arity(name, a, 2 if b2 == "pow" else 1)
            return self.lanewise(FN[b2], *a)
        raise EvalError(f"unknown function {name}")

    def arity(self, name, a, n):
        if len(a) != n:
            raise EvalError(f"{name} takes {n} arguments, {len(a)} given")

    def need(self, v, w, name):
        if not isinstance(v, Vec) or v.w != w:
            raise EvalError(f"{name} needs a {w}-lane operand")
        return v

    def intrin(self, name, w, op, a):
        bin_ = {"add_pd": lambda x, y: x + y, "sub_pd": lambda x, y: x - y, "mul_pd": lambda x, y: x * y, "div_pd": lambda x, y: x / y, "pow_pd": FN["pow"]}
        un_ = {"sqrt_pd": FN["sqrt"], "exp_pd": FN["exp"], "sin_pd": FN["sin"], "cos_pd": FN["cos"], "log_pd": FN["log"], "cbrt_pd": FN["cbrt"], "abs_pd": FN["fabs"]}
        tri = {
            "fmadd_pd": lambda x, y, z: x * y + z,
            "fmsub_pd": lambda x, y, z: x * y - z,
            "fnmadd_pd": lambda x, y, z: -x * y + z,
            "fnmsub_pd": lambda x, y, z: -x * y - z,
        }
        for tab, n in ((bin_, 2), (un_, 1), (tri, 3)):
            if op in tab:
                self.arity(name, a, n)
                for x in a:
                    self.need(x, w, name)
                return self.lanewise(tab[op], *a)
        if op == "set1_pd":
            self.arity(name, a, 1)
            self.need(a[0], 1, name)
            return Vec(a[0].l * w)
        if op == "setzero_pd":
            self.arity(name, a, 0)
            return Vec([sp.S.Zero] * w)
        if op in ("loadu_pd", "load_pd"):
            self.arity(name, a, 1)
            if not isinstance(a[0], Ptr):
                raise EvalError(f"{name} of a non-pointer")
            if op == "load_pd":
                raise EvalError(f"{name} requires aligned memory, generated code addresses arbitrary grid points")
            return Vec([sp.Symbol(f"{a[0].name}_{i}") for i in range(w)])
        if op in ("storeu_pd", "store_pd"):
            self.arity(name, a, 2)
            if not isinstance(a[0], Ptr):
                raise EvalError(f"{name} to a non-pointer")
            if op == "store_pd":
                raise EvalError(f"{name} requires aligned memory, generated code addresses arbitrary grid points")
            return Store(a[0], self.need(a[1], w, name))
        if op in ("set1_epi64", "set1_epi64x"):
            return Bits(a[0].kind, w)
        if op.startswith("castsi"):
            if isinstance(a[0], Bits):
                if a[0].kind == 0x8000000000000000:
                    return Vec([NEGZERO] * w)
                return Bits(a[0].kind, w)
            raise EvalError(name)
        if op in ("and_pd", "andnot_pd", "xor_pd", "or_pd"):
            self.arity(name, a, 2)
            x, y = a

            def isneg(v):
                return isinstance(v, Vec) and all(t == NEGZERO for t in v.l)

            if op == "andnot_pd":
                if isneg(x):
                    return self.lanewise(FN["fabs"], self.need(y, w, name))
                raise EvalError("andnot with an unknown mask")
            if op == "xor_pd":
                if isneg(y):
                    x, y = y, x
                if isneg(x):
                    return self.lanewise(lambda t: -t, self.need(y, w, name))
                raise EvalError("xor with an unknown mask")
            if op == "and_pd":
                if isinstance(y, (Bits, Mask)):
                    x, y = y, x
                if isinstance(x, Bits) and x.kind == 0x7FFFFFFFFFFFFFFF:
                    return self.lanewise(FN["fabs"], self.need(y, w, name))
                if isinstance(x, Mask) and not x.packed:
                    self.need(y, w, name)
                    return Vec([SEL(c, v, 0) for c, v in zip(x.c, y.l)])
                raise EvalError("and with an unknown mask")
            raise EvalError(name)
        if op in ("cmp_pd", "cmp_pd_mask"):
            self.arity(name, a, 3)
            if not (isinstance(a[2], tuple) and a[2][0] == "cmp"):
                raise EvalError("comparison predicate")
            self.need(a[0], w, name), self.need(a[1], w, name)
            return Mask([cmpf(a[2][1], x, y) for x, y in zip(a[0].l, a[1].l)], op == "cmp_pd_mask")
        m = re.match(r"cmp(gt|lt|ge|le)_pd$", op)
        if m:
            self.arity(name, a, 2)
            o = {"gt": ">", "lt": "<", "ge": ">=", "le": "<="}[m.group(1)]
            self.need(a[0], w, name), self.need(a[1], w, name)
            return Mask([cmpf(o, x, y) for x, y in zip(a[0].l, a[1].l)], False)
        m = re.match(r"mask_(add|sub|mul|div)_pd$", op)
        if m:
            self.arity(name, a, 4)
            f = bin_[m.group(1) + "_pd"]
            return Vec([SEL(c, f(x, y), s) for s, c, x, y in zip(self.need(a[0], w, name).l, a[1].c, self.need(a[2], w, name).l, self.need(a[3], w, name).l)])
        if op in ("mask_blend_pd",):
            return Vec([SEL(c, y, x) for c, x, y in zip(a[0].c, a[1].l, a[2].l)])
        if op in ("blendv_pd",):
            return Vec([SEL(c, y, x) for c, x, y in zip(a[2].c, a[0].l, a[1].l)])
        if op == "maskz_add_pd":
            return Vec([SEL(c, x + y, 0) for c, x, y in zip(a[0].c, a[1].l, a[2].l)])
        if op == "reduce_add_pd":
            return Vec([sum(self.need(a[0], w, name).l)])
        if op in ("castpd256_pd128", "castpd512_pd256"):
            self.need(a[0], w, name)
            return Vec(a[0].l[: w // 2])
        if op in ("extractf128_pd", "extractf64x4_pd"):
            self.need(a[0], w, name)
            sel = int(a[1].l[0])
            n = 2 if op == "extractf128_pd" else 4
            return Vec(a[0].l[sel * n : sel * n + n])
        if op in ("cvtsd_f64",):
            self.need(a[0], w, name)
            return Vec(a[0].l[:1])
        if op == "unpackhi_pd":
            x, y = self.need(a[0], w, name), self.need(a[1], w, name)
            return Vec(sum(([x.l[i + 1], y.l[i + 1]] for i in range(0, w, 2)), []))
        if op == "unpacklo_pd":
            x, y = self.need(a[0], w, name), self.need(a[1], w, name)
            return Vec(sum(([x.l[i], y.l[i]] for i in range(0, w, 2)), []))
        if op == "hadd_pd":
            x, y = self.need(a[0], w, name), self.need(a[1], w, name)
            return Vec(sum(([x.l[i] + x.l[i + 1], y.l[i] + y.l[i + 1]] for i in range(0, w, 2)), []))
        if op == "shuffle_pd":
            x, y = self.need(a[0], w, name), self.need(a[1], w, name)
            imm = a[2].kind if isinstance(a[2], Bits) else int(a[2].l[0])
            out = []
            for i in range(0, w, 2):
                out.append(x.l[i + ((imm >> i) & 1)])
                out.append(y.l[i + ((imm >> (i + 1)) & 1)])
            return Vec(out)
        raise EvalError(f"unknown intrinsic {name}")


def evaluate(text, defs, env):
    tk = expand(toks(text), defs)
    ev = Ev(tk, env)
    v = ev.rv(ev.assign())
    if ev.i != len(tk):
        raise EvalError(f"trailing tokens from {ev.peek()[1]!r}")
    return v


def same(x, y):
    d = sp.sympify(x) - sp.sympify(y)
    if d == 0:
        return True
    return sp.expand(sp.together(d)) == 0 or sp.simplify(d) == 0
