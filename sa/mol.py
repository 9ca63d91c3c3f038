"""
Dataflow analysis of the generated Runge-Kutta driver: linear-form domain.

The generator is propagated (absint) for every tableau and option combination with opaque
RHS / post strings.  The emitted C text is parsed and its statements are interpreted over
the domain  array -> linear form in {Y, K_1, ..., K_s} with coefficients in Q(sqrt d)[dt].
"""

import re

import sympy as sp

from . import ctext
from .absint import AnalysisError, Interp, Program, PyRaise, Sym, Tmpl, _bindargs, vkey
from .ctext import vtext

DT = sp.Symbol("dt", real=True)
Y = sp.Symbol("Y", real=True)
MARK = re.compile(r"\bZ(RHS|BCS|POST)\b")


def _m_c_codegen(I, f, a, k, n):
    b = _bindargs(I, f, a, k)
    ex, lhs = b.get("sympyexpr"), b.get("output_varname_str")
    if isinstance(lhs, str):
        lhs = [lhs]
    if not isinstance(ex, (list, tuple)):
        ex = [ex]
    if any(isinstance(x, (Sym, Tmpl)) for x in list(ex) + list(lhs)):
        raise AnalysisError("c_codegen called with unknown expressions in the time stepper")
    if len(ex) != len(lhs):
        raise PyRaise(__import__("sa.absint", fromlist=["Exc"]).Exc("ValueError", ("c_codegen: lengths differ",)), n)
    out = ""
    for e, l in zip(ex, lhs):
        out += f"{l} = {sp.ccode(sp.sympify(e))};\n"
    return out


INFRA = {
    "BHaH": ("nrpy.infrastructures.BHaH.MoLtimestepping.MoL", dict(rhs_string="ZRHS(RK_INPUT_GFS, RK_OUTPUT_GFS);", post_rhs_string="ZBCS(RK_OUTPUT_GFS);", post_post_rhs_string="for(int grid=0; grid<commondata->NUMGRIDS; grid++) { ZPOST(griddata[grid].gridfuncs.RK_OUTPUT_GFS); }")),
    "superB": ("nrpy.infrastructures.superB.MoL", dict(rhs_string="ZRHS(RK_INPUT_GFS, RK_OUTPUT_GFS);", post_rhs_bcs_str="ZBCS(RK_OUTPUT_GFS);", post_rhs_string="ZPOST(RK_OUTPUT_GFS);")),
}
TABFN = "nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary:generate_Butcher_tables"


def methods(P):
    I = Interp(P, max_paths=20, host_modules=("sympy",), max_steps=3000000)
    trs = I.run(lambda I: I.call_func(I.func(TABFN), [], {}, None))
    if len(trs) != 1 or trs[0].outcome[0] != "return":
        raise AnalysisError("tableaux are not constants")
    d = dict(trs[0].outcome[1])
    d.update(synthetic())
    return d


def synthetic():
    """Tableaux of the same form as the built-in ones that exercise the emitter's special cases
    (unit and zero coefficients at every kind of position)."""
    R = sp.Rational
    return {
        "U2 unit last weight": ([[0], [R(1, 4), R(1, 4)], ["", R(1, 2), 1]], 1),
        "U3 unit interior": ([[0], [1, 1], [R(1, 3), 0, R(1, 3)], ["", R(-2, 7), 1, R(2, 7)]], 1),
        "U5 diagonal": ([[0], [R(1, 5), R(1, 5)], [R(2, 5), 0, R(2, 5)], [1, 0, 0, 1], [R(4, 5), 0, 0, 0, R(4, 5)], ["", 0, R(1, 7), 0, R(2, 7), R(4, 7)]], 1),
        "U4 full": ([[0], [1, 1], [R(3, 4), R(1, 2), R(1, 4)], [2, 1, 0, 1], ["", R(1, 11), 1, R(-3, 11), R(2, 11)]], 1),
        "U3 full zero subdiagonal": ([[0], [R(1, 3), R(1, 3)], [R(1, 2), R(1, 2), 0], ["", 0, R(1, 5), R(4, 5)]], 1),
    }


def generate(P, infra, method, **flags):
    """-> traces of register_CFunctions for one concrete option combination"""
    mod, strs = INFRA[infra]
    I = Interp(P, max_paths=40, host_modules=("sympy",), models={"nrpy.c_codegen.c_codegen": _m_c_codegen}, max_steps=3000000)
    if method in synthetic():
        I.models[TABFN.replace(":", ".")] = lambda I, f, a, k, n: {m: ([list(r) for r in t[0]], t[1]) for m, t in synthetic().items()}
    I.patterns = [(re.compile(r"^'\w+' in nrpy\.params\.glb_code_params_dict$"), True), (re.compile(r"^isinstance\(nrpy\.grid\.glb_gridfcs_dict\.val\[\*\],BHaHGridFunction\)$"), True)]
    kw = dict(strs)
    kw.update(flags)
    kw["MoL_method"] = method
    f = I.func(f"{mod}:register_CFunctions")
    names = {a.arg for a in f.node.args.args}
    kw = {k: v for k, v in kw.items() if k in names}
    if "rhs_string" not in kw:
        raise AnalysisError(f"{mod}.register_CFunctions no longer takes rhs_string")
    return I.run(lambda I: I.call_func(I.func(f"{mod}:register_CFunctions"), [], dict(kw), None)), I


class Stop(Exception):
    pass


class CErr(Exception):
    pass


class Driver:
    """Abstract state of one time step."""

    def __init__(self, macros):
        self.arr = {}  # field -> expr
        self.posted = {}  # field -> set of post kinds applied since last write
        self.rhs = []  # (input expr, time expr, output field)
        self.macros = macros
        self.log = []
        self.arr["y_n_gfs"] = Y
        self.posted["y_n_gfs"] = {"BCS", "POST"}
        self.time = sp.Symbol("t0")
        self.t0 = sp.Symbol("t0")
        self.nn = sp.Symbol("nn")
        self.touched = set()
        self.stage_log = []  # per call: (rhs outs, posts)

    # -------------------------------------------------------------- statements
    def run(self, stmts, env, consts):
        self.env = dict(env)
        self.consts = consts
        try:
            self.block(stmts)
        except Stop:
            pass

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        k = s.k
        if k == "block":
            saved = dict(self.env)
            self.block(s.body)
            # C scoping: names declared inside vanish
            self.env = {n: self.env[n] for n in saved}
        elif k in ("pragma", "pp"):
            pass
        elif k == "decl":
            for d in s.decls:
                self.env[d.name] = ("undef",)
                if d.dims:
                    self.env[d.name] = ("opaque", d.name)
                elif d.init is not None:
                    self.env[d.name] = self.ev(d.init)
        elif k == "expr":
            self.effect(s.e)
        elif k == "for":
            self.for_(s)
        elif k == "macroloop":
            self.elem_loop_macro(s)
        elif k == "switch":
            self.switch(s)
        elif k == "if":
            raise CErr(f"data-dependent branch in the time stepper: {vtext(s.cond)}")
        elif k == "return":
            raise Stop()
        elif k in ("empty",):
            pass
        else:
            raise CErr(f"unsupported statement {k}: {s!r}"[:200])

    def switch(self, s):
        sel = vtext(s.cond)
        if sel not in self.consts:
            raise CErr(f"switch over unknown {sel}")
        want = self.consts[sel]
        body = bl(s.body)
        active = False
        saved = dict(self.env)
        for st in self.flatten_switch(body):
            if st.k == "case":
                v = None if st.val is None else vtext(st.val)
                if v == want or (v is None and not active and not any(x.k == "case" and x.val is not None and vtext(x.val) == want for x in self.flatten_switch(body))):
                    active = True
                continue
            if active:
                if st.k == "break" or (st.k == "expr" and vtext(st.e) == "break"):
                    break
                if st.k == "block" and self.ends_with_break(st):
                    self.stmt(ctext.N("block", st.line, body=self.strip_break(st.body)))
                    break
                self.stmt(st)
        self.env = {n: self.env[n] for n in saved}

    @staticmethod
    def flatten_switch(b):
        return b if isinstance(b, list) else [b]

    @staticmethod
    def is_break(st):
        return st.k == "break" or (st.k == "goto" and st.label == "break") or (st.k == "expr" and vtext(st.e) == "break")

    def ends_with_break(self, st):
        return any(self.is_break(x) for x in st.body)

    def strip_break(self, body):
        out = []
        for x in body:
            if self.is_break(x):
                break
            out.append(x)
        return out

    def for_(self, s):
        var, lo, hi, rel, step = for_header(s)
        if var is None:
            raise CErr("loop header not understood: " + repr(s)[:120])
        body = bl(s.body)
        if hi.endswith("->NUMGRIDS") or hi.endswith(".NUMGRIDS"):
            if lo != "0" or rel != "<" or step != "1":
                raise CErr(f"grid loop does not visit every grid: {lo} {rel} {hi} step {step}")
            saved = dict(self.env)
            self.env[var] = ("opaque", "grid")
            self.block(body)
            self.env = {n: self.env[n] for n in saved}
            return
        if body and all(x.k == "expr" and x.e.k == "assign" and re.match(r"^xx\[", vtext(x.e.a)) for x in body):
            return  # coordinate pointer copies
        self.elem_loop(var, lo, hi, rel, step, body)

    def elem_loop_macro(self, s):
        name = vtext(s.call.f)
        if name not in self.macros:
            raise CErr(f"unknown loop macro {name}")
        formal, text = self.macros[name]
        body, _ = ctext.parse(re.sub(r"\b%s\b" % formal, vtext(s.call.args[0]), text).replace(f"({vtext(s.call.args[0])})", vtext(s.call.args[0])) + "{}")
        fs = [x for x in ctext.walk(body) if x.k == "for"]
        if len(fs) != 1:
            raise CErr(f"macro {name} is not a single loop")
        var, lo, hi, rel, step = for_header(fs[0])
        b = bl(s.body)
        self.elem_loop(var, lo, hi, rel, step, b)

    def elem_loop(self, var, lo, hi, rel, step, body):
        fac = product_factors(hi, self.env)
        if lo != "0" or rel != "<" or sorted(fac) != sorted(["Nxx_plus_2NGHOSTS0", "Nxx_plus_2NGHOSTS1", "Nxx_plus_2NGHOSTS2", "NUM_EVOL_GFS"]):
            raise CErr(f"update loop does not cover every gridpoint of every evolved field: {var}={lo}; {var}{rel}{hi}")
        simd = step == "simd_width"
        if not simd and step != "1":
            raise CErr(f"update loop step {step}")
        saved = dict(self.env)
        self.env[var] = ("index",)
        self.simd = simd
        self.block(body)
        self.env = {n: self.env[n] for n in saved}

    # -------------------------------------------------------------- expressions
    def field(self, e):
        """array expression -> field name"""
        e = strip(e)
        if e.k == "id":
            v = self.env.get(e.name)
            if isinstance(v, tuple) and v[0] == "arr":
                return v[1]
            raise CErr(f"{e.name} is not an array alias")
        if e.k == "mem" and vtext(e.a).endswith("gridfuncs"):
            return e.m
        raise CErr(f"not an array: {vtext(e)}")

    def read(self, fld):
        self.touched.add(fld)
        if fld not in self.arr:
            raise CErr(f"{fld} is read before anything was stored in it")
        return self.arr[fld]

    def ev(self, e):
        e = strip(e)
        k = e.k
        t = vtext(e)
        if k == "num":
            return sp.Rational(re.sub(r"[fFlLuU]+$", "", e.v)) if not e.v.lower().startswith("0x") else sp.Integer(int(e.v, 16))
        if t in ("commondata->dt",):
            return DT
        if t == "commondata->time":
            return self.time
        if t == "commondata->nn":
            return self.nn
        if k == "id":
            if e.name not in self.env:
                raise CErr(f"unknown name {e.name}")
            v = self.env[e.name]
            if v == ("undef",):
                raise CErr(f"{e.name} is used before it is set")
            return v
        if k == "mem":
            if vtext(e.a).endswith("gridfuncs"):
                return ("arr", e.m)
            return ("opaque", t)
        if k == "un" and e.op == "&":
            return ("opaque", t)
        if k == "un" and e.op in "-+":
            v = self.ev(e.e)
            return -v if e.op == "-" else v
        if k == "idx":
            fld = self.field(e.a) if not t.startswith("griddata") else None
            if fld is None:
                return ("opaque", t)
            if self.env.get(vtext(e.i)) != ("index",):
                raise CErr(f"{t} is not read at the loop index")
            return self.read(fld)
        if k == "bin":
            a, b = self.ev(e.a), self.ev(e.b)
            if isinstance(a, tuple) or isinstance(b, tuple):
                return ("opaque", t)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[e.op]()
        if k == "cast":
            return self.ev(e.e)
        if k == "call":
            f = vtext(e.f)
            if f == "ReadSIMD":
                a = strip(e.args[0])
                if a.k != "un" or a.op != "&":
                    raise CErr("ReadSIMD of a non-address")
                return self.ev(a.e)
            if f == "ConstSIMD":
                return self.ev(e.args[0])
            if f in ("sqrt",):
                return sp.sqrt(self.ev(e.args[0]))
            if f == "pow":
                return self.ev(e.args[0]) ** self.ev(e.args[1])
        raise CErr(f"expression not understood: {t}")

    def write(self, lhs, val):
        lhs = strip(lhs)
        t = vtext(lhs)
        if t == "commondata->time":
            self.time = val
            return
        if t == "commondata->nn":
            self.nn = val
            return
        if lhs.k == "id" and lhs.name in self.env:
            self.env[lhs.name] = val
            return
        if lhs.k == "idx":
            fld = self.field(lhs.a)
            if self.env.get(vtext(lhs.i)) != ("index",):
                raise CErr(f"{t} is not written at the loop index")
            self.touched.add(fld)
            self.arr[fld] = sp.expand(val)
            self.posted[fld] = set()
            return
        raise CErr(f"assignment target not understood: {t}")

    def effect(self, e):
        if e.k == "assign":
            if e.op != "=":
                v = self.ev(e.a)
                b = self.ev(e.b)
                v = {"+=": v + b, "-=": v - b, "*=": v * b, "/=": v / b}[e.op]
            else:
                v = self.ev(e.b)
            self.write(e.a, v)
            return
        if e.k in ("post", "un") and e.op in ("++", "--"):
            self.write(e.e, self.ev(e.e) + (1 if e.op == "++" else -1))
            return
        if e.k == "call":
            f = vtext(e.f)
            if f == "ZRHS":
                i, o = self.field(e.args[0]), self.field(e.args[1])
                if i == o:
                    raise CErr(f"right-hand side evaluated in place on {i}")
                st = self.read(i)
                need = {"BCS", "POST"} - self.posted.get(i, set())
                n = len(self.rhs) + 1
                self.rhs.append((st, self.time, i, o, need))
                self.touched.add(o)
                self.arr[o] = sp.Symbol(f"K{n}", real=True)
                self.posted[o] = set()
                return
            if f in ("ZBCS", "ZPOST"):
                fld = self.field(e.args[0])
                st = self.read(fld)
                self.log.append((f, fld, st))
                if sp.expand(st).coeff(Y) != 1:
                    raise CErr(f"post-stage operation applied to {fld}, which holds {st}: not a state")
                kind = f[1:]
                if kind in self.posted[fld]:
                    raise CErr(f"{f} applied twice to the same state in {fld}")
                if kind == "POST" and "BCS" not in self.posted[fld]:
                    raise CErr(f"late post-stage operation on {fld} precedes the boundary operation")
                self.posted[fld].add(kind)
                return
            if f == "WriteSIMD":
                a = strip(e.args[0])
                if a.k != "un" or a.op != "&":
                    raise CErr("WriteSIMD to a non-address")
                self.write(a.e, self.ev(e.args[1]))
                return
            if f == "MAYBE_UNUSED":
                return
        raise CErr(f"statement not understood: {vtext(e)}")


def strip(e):
    while e.k == "paren":
        e = e.e
    return e


def for_header(s):
    """(var, lower, upper, relation, step) as canonical texts or Nones."""
    try:
        if s.init.k == "decl":
            d = s.init.decls[0]
            var, lo = d.name, vtext(strip(d.init))
        else:
            a = s.init.e
            var, lo = vtext(strip(a.a)), vtext(strip(a.b))
        c = strip(s.cond)
        if vtext(strip(c.a)) == var:
            rel, hi = c.op, vtext(strip(c.b))
        elif vtext(strip(c.b)) == var:
            rel, hi = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[c.op], vtext(strip(c.a))
        else:
            return (None,) * 5
        st = s.step
        st = strip(st) if st is not None else None
        if st is None:
            return (None,) * 5
        if st.k in ("post", "un") and st.op in ("++", "--"):
            step = "1" if st.op == "++" else "-1"
        elif st.k == "assign" and st.op == "+=":
            step = vtext(strip(st.b))
        elif st.k == "assign" and st.op == "-=":
            step = "-" + vtext(strip(st.b))
        elif st.k == "assign" and st.op == "=" and strip(st.b).k == "bin" and strip(st.b).op == "+" and vtext(strip(strip(st.b).a)) == var:
            step = vtext(strip(strip(st.b).b))
        else:
            return (None,) * 5
        if step == "simd_width":
            pass
        return var, lo, hi, rel, step
    except (AttributeError, KeyError, IndexError):
        return (None,) * 5


def product_factors(text, env):
    body, _ = ctext.parse(text + ";")
    out = []

    def go(e):
        e = strip(e)
        if e.k == "bin" and e.op == "*":
            go(e.a)
            go(e.b)
        elif e.k == "id" and isinstance(env.get(e.name), tuple) and env[e.name][0] == "opaque" and env[e.name][1] != e.name and re.search(r"[*]", env[e.name][1]):
            b, _ = ctext.parse(env[e.name][1] + ";")
            go(b[0].e)
        else:
            out.append(vtext(e).split(".")[-1].split("->")[-1])

    go(body[0].e)
    return out


def macros_of(defs_text):
    out = {}
    t = defs_text.replace("\\\n", " ")
    for m in re.finditer(r"^#define\s+(\w+)\(\s*(\w+)\s*\)(.*)$", t, re.M):
        out[m.group(1)] = (m.group(2), re.sub(r'_Pragma\s*\(\s*"[^"]*"\s*\)', "", m.group(3)))
    return out


def bl(b):
    if isinstance(b, list):
        if len(b) == 1 and b[0].k == "block":
            return b[0].body
        return b
    return b.body if b.k == "block" else [b]
