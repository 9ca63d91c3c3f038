"""P13: the C emitted for a list of expressions computes those expressions, in the chosen precision."""

import re

import sympy as sp

from sa import closed, ctext, templates
from sa.absint import AnalysisError, Inst

CG = "nrpy.c_codegen"
MAP = "nrpy.helpers.custom_c_codegen_functions"
SUF = {"double": "", "float": "f", "long double": "l"}
TYPE = {"double": "float64", "float": "float32", "long double": "float80"}

FUN = {
    "sqrt": lambda a: sp.sqrt(a),
    "cbrt": lambda a: a ** sp.Rational(1, 3),
    "pow": lambda a, b: a**b,
    "fabs": lambda a: sp.Function("nrpyAbs")(a),
    "exp": sp.exp,
    "log": sp.log,
    "sin": sp.sin,
    "cos": sp.cos,
    "tan": sp.tan,
    "sinh": sp.sinh,
    "cosh": sp.cosh,
    "tanh": sp.tanh,
    "asinh": sp.asinh,
    "acosh": sp.acosh,
    "atanh": sp.atanh,
    "asin": sp.asin,
    "acos": sp.acos,
    "atan": sp.atan,
    "atan2": sp.atan2,
}
CONST = {"M_PI": sp.pi, "M_E": sp.E, "M_SQRT2": sp.sqrt(2), "M_SQRT1_2": 1 / sp.sqrt(2), "M_PI_2": sp.pi / 2, "M_PI_4": sp.pi / 4, "M_1_PI": 1 / sp.pi, "M_2_PI": 2 / sp.pi, "M_LN2": sp.log(2), "M_LN10": sp.log(10)}

CONST.update({k + "l": v for k, v in list(CONST.items())})


class Bad(Exception):
    pass


class C:
    """value of a C expression, with its kind (int or floating)"""

    def __init__(self, env, suf, strict=True):
        self.env, self.suf, self.strict = env, suf, strict

    def lit(self, t):
        m = re.fullmatch(r"(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)([fFlL]*)", t)
        if not m:
            raise Bad(f"literal {t}")
        b, s = m.groups()
        if re.fullmatch(r"\d+", b):
            return sp.Integer(b), True
        if self.strict and s.lower() != self.suf:
            raise Bad(f"literal {t} does not have the precision of the selected type")
        v = sp.Rational(b)
        return v, False

    def ev(self, e):
        k = e.k
        if k == "paren":
            return self.ev(e.e)
        if k == "num":
            return self.lit(e.v)
        if k == "id":
            n = e.name
            if n in CONST:
                return CONST[n], False
            if n in self.env:
                return self.env[n], False
            return sp.Symbol(n, positive=True), False
        if k == "idx":
            return sp.Symbol(ctext_text(e), positive=True), False
        if k == "un":
            v, i = self.ev(e.e)
            if e.op == "-":
                return -v, i
            if e.op == "+":
                return v, i
            raise Bad(f"operator {e.op}")
        if k == "cast":
            v, i = self.ev(e.e)
            return v, False
        if k == "bin":
            a, ai = self.ev(e.a)
            b, bi = self.ev(e.b)
            if e.op == "+":
                return a + b, ai and bi
            if e.op == "-":
                return a - b, ai and bi
            if e.op == "*":
                return a * b, ai and bi
            if e.op == "/":
                if ai and bi:
                    raise Bad(f"integer division {ctext_text(e)}")
                return a / b, False
            raise Bad(f"operator {e.op}")
        if k == "call":
            n = e.f.name if e.f.k == "id" else None
            if n is None:
                raise Bad("indirect call")
            args = [self.ev(x)[0] for x in e.args]
            base = None
            if n in FUN:
                base, s = n, ""
            elif n[:-1] in FUN and n[-1] in "fl":
                base, s = n[:-1], n[-1]
            if base is None:
                raise Bad(f"unknown function {n}")
            if self.strict and s != self.suf:
                raise Bad(f"function {n} is not the one for the selected precision")
            try:
                return FUN[base](*args), False
            except TypeError:
                raise Bad(f"wrong number of arguments to {n}")
        raise Bad(f"construct {k}")


def ctext_text(e):
    from sa.cflow import text

    return text(e)


def posit(e):
    e = sp.sympify(e)
    return e.xreplace({s: sp.Symbol(s.name, positive=True) for s in e.free_symbols})


def same(a, b):
    a, b = posit(a), posit(b)
    a = sp.nsimplify(a, rational=True) if a.has(sp.Float) else a
    b = sp.nsimplify(b, rational=True) if b.has(sp.Float) else b
    d = a - b
    if d == 0:
        return True
    d = sp.expand(sp.powsimp(sp.expand(d)))
    if d == 0:
        return True
    d = sp.simplify(sp.together(d))
    return d == 0


def parse_expr(s):
    """C expression text -> node"""
    ast = ctext.parse(f"zz_out = {s};")[0]
    st = [x for x in ast if x.k == "expr"]
    if len(st) != 1 or st[0].e.k != "assign":
        raise Bad(f"not an expression: {s}")
    return st[0].e.b if hasattr(st[0].e, "b") else st[0].e.rhs


EXPS = [sp.Integer(i) for i in range(-12, 13) if i not in (0, 1)] + [sp.Rational(a, b) for b in (2, 3, 4, 5, 6, 12) for a in range(-13, 14) if a and sp.gcd(a, b) == 1] + [sp.Float(0.5), sp.Float(-0.5), sp.Float(2.0), sp.Float(-1.0), sp.Float(0.25), sp.Symbol("nn")]
BASES = ["x", "x + y", "x*y", "-x", "x/y", "1.0/x"]


def make_interp(log):
    """closed-world interpreter whose printer is the host library's C printer, driven by the
    repository's own (interpreted) spelling tables"""

    def wrap(I, fn):
        def f(*a):
            r = I.call(fn, list(a), {}, None)
            return r

        return f

    def cc(I, a, k, n):
        k = dict(k)
        uf = k.get("user_functions")
        if isinstance(uf, dict):
            nu = {}
            for name, v in uf.items():
                if isinstance(v, (list, tuple)):
                    lst = []
                    for p, q in v:
                        lst.append((wrap(I, p), q if isinstance(q, str) else wrap(I, q)))
                    nu[name] = lst
                elif isinstance(v, str):
                    nu[name] = v
                else:
                    nu[name] = wrap(I, v)
            k["user_functions"] = nu
        log.append((list(a), k))
        return sp.ccode(*a, **k)

    I = closed.make(max_paths=8, host=("sympy", "re"))
    I.host_models["ccode"] = cc
    return I


x, y, z, w, a, b = sp.symbols("x y z w a b", real=True)
nA = sp.Function("nrpyAbs")
R = sp.Rational


def expr_lists():
    """one representative per shape the printer, the factorisation and the back-substitution
    distinguish; (tag, [expressions])"""
    u = x + y
    v = x * y * z
    out = []
    for e in EXPS:
        out.append((f"power {e}", [(x + 2 * y) ** e + x**e * z]))
    out += [
        ("negated temporaries", [sp.sin(-x * y) + sp.cos(-x * y), sp.exp(-x) + sp.log(-x * z) * sp.tanh(-x)]),
        ("two-term sum used twice", [sp.sin(u) + sp.cos(u)]),
        ("two-term sum used often", [sp.sin(u) + sp.cos(u), sp.exp(u) * u, sp.tanh(u)]),
        ("product used twice", [sp.sin(x * y) + x * y]),
        ("product used often", [sp.sin(v) + v, sp.cos(v), sp.exp(v)]),
        ("square", [x**2 + sp.cos(x**2), sp.sin(x**2) * sp.exp(x**2)]),
        ("rational coefficients", [R(1, 3) * x + R(2, 3) * y, -R(5, 12) * x * y + R(7, 2), R(1, 3) * sp.sin(R(1, 3) * x + R(1, 3) * y)]),
        ("integer coefficients", [3 * x - 7 * y, (2 * x + 2 * z) ** 2 / 5, sp.exp(3 * x + 3 * y)]),
        ("constants only", [sp.Integer(0), R(1, 2), sp.pi, sp.sqrt(2) / 3]),
        ("single symbol", [x, -y]),
        ("absolute value", [nA(x - y) + nA(x - y) ** 2, nA(x - y) / z]),
        ("elementary functions", [sp.sin(x) + sp.cos(y) + sp.tan(z), sp.sinh(x) * sp.cosh(y) / sp.tanh(z), sp.exp(x) + sp.log(y), sp.atan2(x, y) + sp.acos(x / w), sp.asinh(x) + sp.acosh(y)]),
        ("nested temporaries", [sp.sin(sp.sqrt(x * y + z)) + 1 / sp.sqrt(x * y + z), (x * y + z) ** R(3, 2) + sp.cos(sp.sqrt(x * y + z)), sp.sin(x * y + z) * (x * y + z)]),
        ("quotients", [x / (y + z), (x + y) / (y + z) ** 2, 1 / (x * y), -1 / (3 * x)]),
        ("tensor-like", [a * (x**2 + y**2) - b * (x**2 + y**2) ** 2, (x**2 + y**2) * (a - b), -a * (a - b) * x, -(a - b) / (x**2 + y**2)]),
        ("sixth and third roots", [(x + y) ** R(1, 6) + (x + y) ** R(-1, 6), (x * z) ** R(1, 3) / (x * z) ** R(2, 3)]),
        ("identical outputs", [x * y + z, x * y + z]),
        ("unity factors", [(x + 1) * (y + 1), (x + 1) / (1 + y), 1 - x]),
        ("deep sharing", [(u + z) ** 2 * sp.sin(u), (u + z) ** 3 * sp.cos(u), (u + z) * u + 1 / (u + z)]),
    ]
    return out


def split(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    return text


STM = re.compile(r"\s*((?:[A-Za-z_]\w*[\s*]+)*)([A-Za-z_]\w*(?:\[[^\]]*\])?(?:->\w+)?)\s*=\s*(.*)", re.S)


def judge(ctx, rule, where, text, outs, exprs, fp, alias, ren=None, given=()):
    """interpret the straight-line C code over symbolic values"""
    t = split(text)
    depth = t.count("{") - t.count("}")
    if depth:
        ctx.violation(rule, where, "unbalanced braces in the emitted code")
        return
    t = t.replace("{", " ").replace("}", " ")
    env, done = {}, {}
    ren = ren or {}
    allowed = set()
    for e in exprs:
        allowed |= {s.name for s in sp.sympify(e).free_symbols}
    allowed = {n + ren.get(n, "") for n in allowed} | set(given)
    for st in t.split(";"):
        if not st.strip():
            continue
        m = STM.fullmatch(st)
        if not m:
            raise AnalysisError(f"emitted statement not understood: {st.strip()[:80]}")
        typ, lhs, rhs = m.group(1).strip(), m.group(2), m.group(3)
        ev = C(env, SUF[fp])
        try:
            node = parse_expr(rhs)
            used = {n.name for n in ctext.walk(node) if n.k == "id"} - set(CONST)
            used -= {n.f.name for n in ctext.walk(node) if n.k == "call" and n.f.k == "id"}
            for n in sorted(used):
                if n not in env and n not in allowed:
                    raise Bad(f"{n} is used before it is set")
            val = ev.ev(node)[0]
        except Bad as e:
            ctx.violation(rule, where, f"{e} (in '{st.strip()[:120]}')")
            return
        env[lhs] = val
        done[lhs] = val
        if typ:
            tt = [q for q in typ.split() if q not in ("const", "static", "MAYBE_UNUSED", "constexpr")]
            if " ".join(tt) not in (alias, fp) and lhs not in outs:
                ctx.violation(rule, where, f"temporary {lhs} has type '{typ}', the selected type is '{alias}'")
    for o, e in zip(outs, exprs):
        name = o.split()[-1]
        ctx.ok(rule)
        if name not in done:
            ctx.violation(rule, where, f"output {name} is never assigned")
            continue
        want = posit(e)
        if ren:
            want = want.xreplace({sp.Symbol(n, positive=True): sp.Symbol(n + s, positive=True) for n, s in ren.items()})
        if not same(done[name], want):
            ctx.violation(rule, where, f"output {name} = {str(done[name])[:120]}, the expression is {str(want)[:120]}")


def run_case(fp, infra, opts, outs, exprs):
    log = []
    I = make_interp(log)

    def entry(I):
        closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", infra)
        kw = dict(opts)
        if fp is not None:
            kw["fp_type"] = fp
        return closed.call(I, f"{CG}:c_codegen", list(exprs), list(outs), **kw)

    trs = I.run(entry)
    if len(trs) != 1:
        raise AnalysisError(f"c_codegen: {len(trs)} paths")
    return trs[0], log


def combos(thorough):
    base = [
        dict(enable_cse=False),
        dict(enable_cse=True),
        dict(enable_cse=True, enable_cse_preprocess=True),
        dict(enable_cse=True, enable_cse_preprocess=True, cse_varprefix="FDP", include_braces=False, verbose=False),
        dict(enable_cse=True, cse_sorting="none", cse_varprefix="q", prestring="", poststring=""),
        dict(enable_cse=True, enable_GoldenKernels=True),
    ]
    return base


def job(args):
    fp, infra, i, lists = args
    from sa.framework import Ctx

    c = Ctx("P13", "quick", 1)
    opts = combos(False)[i]
    alias = {"NRPy": fp, "BHaH": "REAL", "ETLegacy": "CCTK_REAL", "CarpetX": "CCTK_REAL"}[infra]
    errs = []
    L = dict(expr_lists())
    for tag in lists:
        exprs = L[tag]
        outs = [f"o{j}" for j in range(len(exprs))]
        if infra == "NRPy" and len(outs) == 1:
            outs = [f"const {fp} o0"]
        where = f"{fp}/{infra}/{','.join(f'{k}={v}' for k, v in opts.items())}/{tag}"
        try:
            tr, log = run_case(fp, infra, opts, outs, exprs)
            if tr.outcome[0] != "return":
                c.violation("computes", where, f"generation fails: {tr.outcome[1]}")
                continue
            judge(c, "computes", where, tr.outcome[1], outs, exprs, fp, alias)
        except AnalysisError as e:
            errs.append(f"{where}: {e}")
    return list(c.violations.items()), dict(c.counts), errs


def special(ctx):
    """substitution dictionary, scalar temporaries, gridfunction reads, default precision"""
    errs = []
    # appended suffixes reach every occurrence, including those in temporaries
    ex = [sp.sin(x * y + z) + x * y + z, (x * y + z) ** 2 * sp.cos(x * y + z)]
    for opts in (dict(enable_cse=False), dict(enable_cse=True)):
        for d in ({"x": "_new"}, {"x": "_new", "z": "Q"}):
            where = f"postproc_substitution_dict/{'cse' if opts['enable_cse'] else 'nocse'}/{len(d)}"
            try:
                tr, _ = run_case("double", "NRPy", dict(opts, postproc_substitution_dict=d), ["o0", "o1"], ex)
                if tr.outcome[0] != "return":
                    ctx.violation("substitution", where, f"generation fails: {tr.outcome[1]}")
                    continue
                judge(ctx, "substitution", where, tr.outcome[1], ["o0", "o1"], ex, "double", "double", ren=d)
            except AnalysisError as e:
                errs.append(f"{where}: {e}")
    # user-named temporaries are set before they are used and keep their expression
    T = sp.Symbol("T0")
    ex = [x * y + z, T**2 + sp.sin(x * y + z), T * x]
    outs = ["T0", "o1", "o2"]
    where = "SCALAR_TMP"
    try:
        tr, _ = run_case("double", "NRPy", dict(SCALAR_TMP_varnames=["T0", "n1", "n2"], SCALAR_TMP_sympyexprs=[T, None, None]), outs, ex)
        if tr.outcome[0] != "return":
            ctx.violation("scalar temporaries", where, f"generation fails: {tr.outcome[1]}")
        else:
            want = [e.xreplace({T: x * y + z}) for e in ex]
            judge(ctx, "scalar temporaries", where, tr.outcome[1], ["o1", "o2"], want[1:], "double", "double")
    except AnalysisError as e:
        errs.append(f"{where}: {e}")
    # the precision selected by the global setting is used when none is given
    for fp in SUF:
        log = []
        I = make_interp(log)

        def entry(I):
            closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", "BHaH")
            closed.call(I, "nrpy.params:set_parval_from_str", "fp_type", fp)
            return closed.call(I, f"{CG}:c_codegen", [sp.sqrt(x) / 3 + 1 / (x + y)], ["o0"])

        where = f"global fp_type={fp}"
        try:
            tr = I.run(entry)[0]
            if tr.outcome[0] != "return":
                ctx.violation("computes", where, f"generation fails: {tr.outcome[1]}")
            else:
                judge(ctx, "computes", where, tr.outcome[1], ["o0"], [sp.sqrt(x) / 3 + 1 / (x + y)], fp, "REAL")
        except AnalysisError as e:
            errs.append(f"{where}: {e}")
    # an unknown precision and mismatched list lengths are refused
    for where, kw, outs in (("fp_type", dict(fp_type="half"), ["o0"]), ("list lengths", {}, ["o0", "o1"])):
        I = make_interp([])
        tr = I.run(lambda I: closed.call(I, f"{CG}:c_codegen", [x + y], outs, **kw))[0]
        ctx.ok("refused")
        if tr.outcome[0] == "return":
            ctx.violation("refused", where, "an inconsistent request is accepted")
    return errs


def run(ctx):
    ctx.rule("computes", "abstract interpretation of c_codegen and everything it calls in the repository over a family of expression lists (one per shape the code distinguishes) x option combination x precision; the emitted straight-line C is re-read over exact symbolic values (integer division, function names and literal suffixes checked) and each output compared with its input expression")
    ctx.rule("substitution", "same, with symbols renamed by postproc_substitution_dict, also inside temporaries")
    ctx.rule("scalar temporaries", "same, with user-named temporaries")
    ctx.rule("refused", "inconsistent requests end in an error on every path")
    tags = [t for t, _ in expr_lists()]
    pw = [t for t in tags if t.startswith("power")]
    rest = [t for t in tags if not t.startswith("power")]
    jobs = []
    for fp in SUF:
        for i in range(len(combos(False))):
            jobs.append((fp, "BHaH" if i % 2 else "NRPy", i, rest))
            if i in (0, 1) or ctx.thorough:
                jobs.append((fp, "NRPy" if i % 2 else "BHaH", i, pw))
    if ctx.thorough:
        for fp in SUF:
            for i in range(len(combos(False))):
                jobs.append((fp, "ETLegacy", i, rest))
    errs = []
    for vs, counts, er in templates.pmap(job, jobs):
        for k, m in vs:
            ctx.violations.setdefault(k, m)
        for k, n in counts.items():
            ctx.ok(k, n)
        errs += er
    errs += special(ctx)
    for e in errs:
        ctx.notes.append(f"not decided: {e}")
    ctx.floor("computes", 300)
    ctx.sample(f"{len(jobs)} jobs over {len(tags)} expression families")
