"""P22: boundary conditions act on the right points with the right parity."""

import itertools
import re
from types import SimpleNamespace

import sympy as sp

from sa import cexec, closed, ctext, rfm
from sa.absint import AnalysisError
from sa.cexec import F, S

MOD = "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions"
SB = "nrpy.infrastructures.superB.CurviBoundaryConditions"
NG = S("NGHOSTS")
N = [S(f"Nxx_plus_2NGHOSTS{d}") for d in range(3)]
X = rfm.XX
TAGS = {}


def metrics():
    def mat(tag):
        return [[sp.Function(f"{tag}{i}{j}")(*X) for j in range(3)] for i in range(3)]

    def vec(tag, args=tuple(X)):
        return [sp.Function(f"{tag}{i}")(*args) for i in range(3)]

    C = sp.symbols("Cartx Carty Cartz", real=True)
    jac = mat("J")
    eig = SimpleNamespace(CoordSystem="FakeEigen", EigenCoord="FakeEigen", xx=list(X), UnitVectors=mat("UE"), xx_to_Cart=vec("XCE"), Cart_to_xx=vec("CXE", C), xxSph=vec("XSE"), Jac_dUrfm_dDSphUD=mat("JE"))
    org = SimpleNamespace(CoordSystem="Fake", EigenCoord="FakeEigen", xx=list(X), UnitVectors=mat("U"), xx_to_Cart=vec("XC"), Cart_to_xx=vec("CX", C), xxSph=vec("XS"), Jac_dUrfm_dDSphUD=jac)
    jz = [row[:] for row in jac]
    jz[1][0] = sp.Integer(0)
    z = SimpleNamespace(CoordSystem="FakeZ", EigenCoord="FakeEigen", xx=list(X), UnitVectors=mat("U"), xx_to_Cart=vec("XC"), Cart_to_xx=vec("CX", C), xxSph=vec("XS"), Jac_dUrfm_dDSphUD=jz)
    return {"Fake": org, "FakeEigen": eig, "FakeZ": z}


class World:
    def __init__(self):
        self.codegens = []

        def ccg(I, f, a, k, n):
            exprs, lhs = (list(a) + [None, None])[:2]
            exprs = k.get("exprs", exprs)
            lhs = k.get("output_varname_str", k.get("lhs", lhs))
            exprs = exprs if isinstance(exprs, (list, tuple)) else [exprs]
            lhs = lhs if isinstance(lhs, (list, tuple)) else [lhs]
            if len(exprs) != len(lhs):
                raise AnalysisError("c_codegen called with lists of different lengths")
            out = ""
            for e, l in zip(exprs, lhs):
                t = f"CGEXPR{len(self.codegens)}"
                self.codegens.append((l, sp.sympify(e)))
                out += f"{l} = {t};\n"
            return out

        models = closed.record_models()
        models["nrpy.c_codegen.c_codegen"] = ccg
        models["nrpy.validate_expressions.validate_expressions.check_zero"] = lambda I, f, a, k, n: sp.sympify(a[0]) == 0
        self.I = closed.make(models=models)

    def run(self, fn):
        def entry(I):
            rfm.install(I, metrics())
            return fn(I)

        trs = self.I.run(entry)
        if len(trs) != 1 or trs[0].outcome[0] != "return":
            raise AnalysisError("; ".join(f"{t.outcome}" for t in trs[:3]))
        trs[0].value = trs[0].outcome[1]
        return trs[0]

    def val(self, v):
        """resolve CGEXPRn placeholders"""
        m = re.fullmatch(r"CGEXPR(\d+)", str(v))
        return self.codegens[int(m.group(1))][1] if m else None


def regs(tr):
    return {e["args"]["name"]: e["args"] for e in tr.effects if e["kind"] == "register_CFunction"}


def txt(x):
    return ctext.Rendered(x).text if x is not None else ""


def funcs(text):
    text = re.sub(r"//[^\n]*", "", text)
    return {n.name: n for n in ctext.parse(text)[0] if n.k == "func"}


def fexec(fn, env=None):
    """abstract execution of a parsed function definition"""
    ce = cexec.CE(env=env)
    for p in fn.params or []:
        nm = getattr(p, "name", None) if not isinstance(p, str) else None
        if nm:
            ce.types[nm] = str(p._d.get("type", ""))
        elif isinstance(p, str):
            m = re.search(r"(\w+)\s*(\[[^\]]*\])*\s*$", p)
            if m:
                ce.types[m.group(1)] = p
        elif isinstance(p, (tuple, list)) and len(p) >= 2:
            ce.types[str(p[1])] = str(p[0])
    ce.body(fn.body)
    return ce


def rexec(reg, env=None):
    body = re.sub(r"//[^\n]*", "", txt(reg["body"]))
    return cexec.execute(body, txt(reg.get("params", "")), env=env)


def loops(ctx_):
    return [f for f in ctx_ if f[0] == "for"]


def ifs(ctx_):
    return [f for f in ctx_ if f[0] == "if"]


def cond_set(frames, ce):
    """conjunction of the guards, as a set of atoms"""
    out = set()
    for _, c, pol in frames:
        c = c if pol else ce.neg(c)
        n = getattr(c.func, "__name__", "")
        for a in c.args if n == "and_" else (c,):
            out.add(a)
    return out


def ptr(name, *path):
    return name


# --------------------------------------------------------------------------- parity
def parity(ctx):
    ctx.rule("parity-table", "entry k of the parity table is 1 (scalar), the dot product of unit vector k at the point and at its image (vectors), the product of two of those (rank two, order 00,01,02,11,12,22)")
    w = World()
    w.run(lambda I: closed.call(I, f"{MOD}:parity_conditions_symbolic_dot_products", "Fake"))
    got = {l: e for l, e in w.codegens}
    inb = sp.symbols("xx0_inbounds xx1_inbounds xx2_inbounds", real=True)
    U = metrics()["Fake"].UnitVectors
    dots = [sum(U[k][i] * U[k][i].subs(dict(zip(X, inb)), simultaneous=True) for i in range(3)) for k in range(3)]
    want = [sp.Integer(1)] + dots + [dots[i] * dots[j] for i in range(3) for j in range(i, 3)]
    for k in range(10):
        ctx.ok("parity-table")
        g = got.get(f"REAL_parity_array[{k}]")
        if g is None:
            ctx.violation("parity-table", f"type {k}", "no expression assigned")
        elif sp.expand(g - want[k]) != 0:
            ctx.violation("parity-table", f"type {k}", "parity product is not the one of that tensor component")
    if len(got) != 10:
        ctx.violation("parity-table", "size", f"{len(got)} entries set")


def parity_pt(ctx):
    ctx.rule("parity-sign", "all ten stored parities are the sign of the matching table entry, evaluated at the point and its image")
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{MOD}:Cfunction__set_parity_for_inner_boundary_single_pt", "Fake"))
    fn = funcs(txt(tr.value))["set_parity_for_inner_boundary_single_pt"]
    ce = fexec(fn)
    st = [e for e in cexec.stores(ce, r"\.parity\[") if e.op != "decl"]
    pv = {}
    for e in st:
        m = re.fullmatch(r"innerpt_bc_arr\[idx\]\.parity\[(\d+)\]", e.key)
        if not m:
            ctx.violation("parity-sign", "store", f"parity stored to {e.key}")
            continue
        pv[int(m.group(1))] = ce.env.get(e.key)
    for k in range(10):
        ctx.ok("parity-sign")
        v = pv.get(k)
        if v is None:
            ctx.violation("parity-sign", f"type {k}", "parity never stored")
            continue
        pos = neg = None
        for sgn in (1, -1):
            # decide the stored value for a table entry of that sign
            def sub(x):
                if getattr(x.func, "__name__", "") == "ite":
                    c = ev(x.args[0])
                    return None if c is None else sub(x.args[1] if c else x.args[2])
                return x

            def ev(c):
                n = getattr(c.func, "__name__", "")
                if c.is_Integer:
                    return c != 0
                d = c.args[0]
                cg = [s for s in d.free_symbols if str(s).startswith("CGEXPR") or str(s).startswith("REAL_parity")]
                if len(cg) != 1:
                    return None
                cgid = w.val(cg[0])
                l = w.codegens[int(str(cg[0])[6:])][0] if cgid is not None else str(cg[0])
                if l != f"REAL_parity_array[{k}]":
                    ctx.violation("parity-sign", f"type {k}", f"sign taken from {l}")
                    return None
                x = d.subs(cg[0], sgn)
                return {"lt0": x < 0, "le0": x <= 0, "eq": x == 0, "ne": x != 0}.get(n)

            r = sub(v)
            if r is None:
                raise AnalysisError(f"parity value {v} not decided")
            if r != sgn:
                ctx.violation("parity-sign", f"type {k}", f"a table entry of sign {sgn} is stored as {r}")
    # image coordinates
    want = {f"xx{d}_inbounds": S(f"x0x1x2_inbounds[{d}]") for d in range(3)}
    for e in cexec.stores(ce, r"^xx\d_inbounds$"):
        ctx.ok("parity-sign")
        if e.val != want.get(e.key):
            ctx.violation("parity-sign", e.key, f"image coordinate taken from {e.val}")


def eigen(ctx):
    ctx.rule("image", "the image of a point is the nearest grid index of the eigencoordinate round trip of its own coordinates, axis by axis; a failed consistency check stops the program")
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{MOD}:Cfunction__EigenCoord_set_x0x1x2_inbounds__i0i1i2_inbounds_single_pt", "Fake"))
    name = "EigenCoord_set_x0x1x2_inbounds__i0i1i2_inbounds_single_pt"
    ce = fexec(funcs(txt(tr.value))[name])
    M = metrics()
    # which expression feeds which name
    feeds = {}
    for l, e in w.codegens:
        feeds.setdefault(l, []).append(e)
    for d in range(3):
        for l, want, what in (
            (f"xCart[{d}]", M["FakeEigen"].xx_to_Cart[d], "eigencoordinate-to-Cartesian map"),
            (f"Cart_to_xx{d}_inbounds", M["FakeEigen"].Cart_to_xx[d], "Cartesian-to-eigencoordinate map"),
        ):
            ctx.ok("image")
            if not feeds.get(l) or any(sp.expand(e - want) != 0 for e in feeds[l]):
                ctx.violation("image", l, f"{what} of axis {d} is not used")
        for l in (f"{'xyz'[d]}Cart_from_xx", f"{'xyz'[d]}Cart_from_xx_inbounds"):
            ctx.ok("image")
            if not feeds.get(l) or any(sp.expand(e - M["Fake"].xx_to_Cart[d]) != 0 for e in feeds[l]):
                ctx.violation("image", l, "consistency check does not use the coordinate map of the original coordinates")
    # Cartx.. from xCart
    for d, nm in enumerate(("Cartx", "Carty", "Cartz")):
        ctx.ok("image")
        e = [x for x in cexec.stores(ce, rf"^{nm}$")]
        cg = e and w.val(e[-1].val)
        if not e or not (str(e[-1].val) == f"xCart[{d}]" or (cg is not None and sp.expand(cg - M["FakeEigen"].xx_to_Cart[d]) == 0)):
            ctx.violation("image", nm, "not set from the matching Cartesian component")
    # local coordinates at the point: every xxd declared inside the function, in its block
    seen = {}
    for e in cexec.stores(ce, r"^xx\d$"):
        seen.setdefault(e.key, []).append(e.val)
    xin = [sp.expand(ce.env.get(f"i0i1i2_inbounds[{d}]", S("unset"))) for d in range(3)]
    for d in range(3):
        dx, xd0 = S(f"dxx{d}"), S(f"xx[{d}][0]")
        # the index whose coordinate is the image: xx[d][j] = xx[d][0] + j*dxx
        cg = [i for i, (l, _) in enumerate(w.codegens) if l == f"Cart_to_xx{d}_inbounds"]
        ctx.ok("image")
        if not cg:
            continue
        val = S(f"CGEXPR{cg[-1]}")
        want = sp.expand((val - xd0) / dx + sp.Rational(1, 2))
        g = xin[d]
        inner = g.args[0] if getattr(g.func, "__name__", "") == "int_" else None
        if inner is None or sp.simplify(inner - want) != 0:
            ctx.violation("image", f"i{d}_inbounds", f"index is {g}, not the nearest grid index int((x-xx[{d}][0])/dxx{d}+1/2)")
        ctx.ok("image")
        x = ce.env.get(f"x0x1x2_inbounds[{d}]")
        if x != S(f"xx[{d}][{g}]"):
            ctx.violation("image", f"x0x1x2_inbounds[{d}]", f"image coordinate is {x}")
        ctx.ok("image")
        vals = seen.get(f"xx{d}", [])
        if vals != [S(f"xx[{d}][i{d}]"), S(f"xx[{d}][i{d}]"), S(f"xx[{d}][{g}]")]:
            ctx.violation("image", f"xx{d}", f"coordinates used for the maps are {vals}")
    # consistency check: three components compared, exit on mismatch
    ex = [e for e in ce.events if e.kind == "call" and e.name in ("exit", "abort")]
    ctx.ok("image")
    if not ex or not ifs(ex[0].ctx):
        ctx.violation("image", "consistency check", "a point whose image has other Cartesian coordinates is not refused")
    else:
        c = ifs(ex[0].ctx)[-1][1]
        names = {l: f"CGEXPR{i}" for i, (l, _) in enumerate(w.codegens)}
        need = {frozenset((names.get(f"{a}Cart_from_xx"), names.get(f"{a}Cart_from_xx_inbounds"))) for a in "xyz"}
        have = set()
        for a in c.args if getattr(c.func, "__name__", "") == "or_" else ():
            fa = [x for x in sp.preorder_traversal(a) if getattr(x.func, "__name__", "") == "fabs"]
            if fa:
                d = sp.expand(fa[0].args[0])
                ss = [s for s in d.free_symbols]
                if len(ss) == 2 and sp.expand(d - (ss[0] - ss[1])) in (0, sp.expand(-2 * (ss[0] - ss[1]))) and a.args[0].has(fa[0]) and sp.expand(a.args[0]).coeff(fa[0]) == -1:
                    have.add(frozenset(map(str, ss)))
        if not need <= have:
            ctx.violation("image", "consistency check", "not all three Cartesian components are compared")


GF = [
    # name, rank, dim, parity type
]


def gfs(ctx):
    ctx.rule("field-parity", "the parity array of each field group lists, in the field numbering order of that group, the type belonging to the field's tensor component")
    rank2 = {"00": 4, "01": 5, "02": 6, "11": 7, "12": 8, "22": 9}
    r4 = {"00": 0, "01": 1, "02": 2, "03": 3, "11": 4, "12": 5, "13": 6, "22": 7, "23": 8, "33": 9}
    for aux, auxevol in itertools.product((False, True), repeat=2):
        w = World()

        def entry(I):
            par = I.module("nrpy.params")
            closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", "BHaH")
            for g in ("EVOL", "AUX", "AUXEVOL"):
                p = {"EVOL": "e", "AUX": "a", "AUXEVOL": "x"}[g]
                closed.call(I, "nrpy.grid:register_gridfunctions", [f"z{p}phi", f"b{p}psi"], group=g)
                closed.call(I, "nrpy.grid:register_gridfunctions_for_single_rank1", f"m{p}VU", group=g)
                closed.call(I, "nrpy.grid:register_gridfunctions_for_single_rank2", f"c{p}SDD", symmetry="sym01", group=g)
                closed.call(I, "nrpy.grid:register_gridfunctions_for_single_rank2", f"n{p}TDD", symmetry="nosym", group=g)
                closed.call(I, "nrpy.grid:register_gridfunctions_for_single_rank2", f"q{p}FDD", symmetry="sym01", dimension=4, group=g)
            t = closed.call(I, f"{MOD}:BHaH_defines_set_gridfunction_defines_with_parity_types", set_parity_on_aux=aux, set_parity_on_auxevol=auxevol, verbose=False)
            ls = closed.call(I, "nrpy.grid:BHaHGridFunction.gridfunction_lists")
            return t, ls

        tr = w.run(entry)
        t, ls = tr.value
        t = txt(t)
        for gi, (grp, on) in enumerate((("evol", True), ("aux", aux), ("auxevol", auxevol))):
            m = re.search(rf"\b{grp}_gf_parity\s*\[\s*(\d+)\s*\]\s*=\s*\{{([^}}]*)\}}", t)
            ctx.ok("field-parity")
            if not on:
                continue
            if not m:
                ctx.violation("field-parity", grp, "no parity array is emitted")
                continue
            vals = [int(v) for v in m.group(2).split(",") if v.strip()]
            names = list(ls[gi])
            if int(m.group(1)) != len(names) or len(vals) != len(names):
                ctx.violation("field-parity", grp, f"{len(vals)} entries (declared {m.group(1)}) for {len(names)} fields")
                continue
            for nm, v in zip(names, vals):
                ctx.ok("field-parity")
                b = nm[1:]
                if "phi" in b or "psi" in b:
                    want = 0
                elif "VU" in b:
                    want = 1 + int(nm[-1])
                elif "FDD" in b:
                    want = r4["".join(sorted(nm[-2:]))]
                else:
                    want = rank2["".join(sorted(nm[-2:]))]
                if v != want:
                    ctx.violation("field-parity", f"{grp} {re.sub('[eax]', '', nm[1:2])}{nm[2:]}", f"field {nm} has parity type {v}, its component is of type {want}")


# --------------------------------------------------------------------------- bcstruct
def setup(ctx):
    ctx.rule("inner-list", "every non-interior point whose image differs from itself is listed once with its own offset, its image's offset and its parity; the list is allocated with the number counted under the same condition")
    ctx.rule("outer-list", "layer by layer outward, direction by direction, each face lists the points that are their own image with the inward unit step of that face; the loop bounds cover exactly the face slab; storage holds both faces of a direction")
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{MOD}:register_CFunction_bcstruct_set_up", "Fake"))
    ce = rexec(regs(tr)["bcstruct_set_up"])
    B = "bcstruct[0]"
    inner(ctx, ce, B)
    outer(ctx, ce, B)


def inner_atoms():
    inb = [S(f"i0i1i2_inbounds[{d}]") for d in range(3)]
    return inb


def is_inner_guard(frames, ce):
    """guards say: not in the interior, and image differs"""
    ats = cond_set(frames, ce)
    interior = [a for a in ats if "IS_IN_GRID_INTERIOR" in str(a)]
    ok_int = False
    for a in interior:
        # not_(ne(IS_IN..)) or eq(IS_IN..)
        n = getattr(a.func, "__name__", "")
        if n == "eq" or (n == "not_"):
            ok_int = True
    differ = [a for a in ats if getattr(a.func, "__name__", "") == "or_"]
    want = {F("ne")(cexec.canon_neg(S(f"i{d}") - S(f"i0i1i2_inbounds[{d}]"))) for d in range(3)}
    ok_d = any(set(a.args) == want for a in differ)
    rest = ats - set(interior) - set(differ)
    return ok_int and ok_d and not rest


def inner(ctx, ce, B):
    full = [(f"i{d}", sp.Integer(0), N[d], sp.Integer(1)) for d in range(3)]
    evs = ce.events
    cnt = [e for e in cexec.stores(ce) if e.op in ("++", "+=") and any("IS_IN_GRID_INTERIOR" in str(f) for f in e.ctx)]
    alloc = [e for e in cexec.stores(ce, r"inner_bc_array$")]
    dst = [e for e in cexec.stores(ce, r"inner_bc_array\[[^\]]*\]\.dstpt$")]
    src = [e for e in cexec.stores(ce, r"inner_bc_array\[[^\]]*\]\.srcpt$")]
    num = [e for e in cexec.stores(ce, r"bc_info\.num_inner_boundary_points$")]
    setp = [e for e in evs if e.kind == "call" and e.name == "set_parity_for_inner_boundary_single_pt"]
    img = [e for e in evs if e.kind == "call" and e.name.startswith("EigenCoord_set")]
    for nm, l in (("dstpt", dst), ("srcpt", src), ("count", num), ("allocation", alloc), ("parity", setp)):
        ctx.ok("inner-list")
        if len(l) != 1:
            if not l:
                ctx.violation("inner-list", nm, "never set")
            raise AnalysisError(f"{len(l)} sites set {nm}")
    # image call: own indices
    for e in img:
        ctx.ok("inner-list")
        a = [str(x) if not isinstance(x, cexec.Addr) else x.base for x in e.args]
        if a[3:6] != ["i0", "i1", "i2"] or a[2] != "xx":
            ctx.violation("inner-list", "image call", f"image computed for {a[3:6]}")
    # index variable
    dk = re.search(r"inner_bc_array\[([^\]]*)\]", dst[0].key).group(1)
    sk = re.search(r"inner_bc_array\[([^\]]*)\]", src[0].key).group(1)
    ctx.ok("inner-list", 3)
    if dk != sk or str(setp[0].args[6]) != dk:
        ctx.violation("inner-list", "slot", f"offset, image and parity are stored in different slots ({dk}, {sk}, {setp[0].args[6]})")
    if sp.expand(dst[0].val - (S("i0") + N[0] * (S("i1") + N[1] * S("i2")))) != 0:
        ctx.violation("inner-list", "dstpt", f"is {dst[0].val}")
    ib = [S(f"i0i1i2_inbounds[{d}]") for d in range(3)]
    if sp.expand(src[0].val - (ib[0] + N[0] * (ib[1] + N[1] * ib[2]))) != 0:
        ctx.violation("inner-list", "srcpt", f"is {src[0].val}")
    pa = [str(x) if not isinstance(x, cexec.Addr) else cexec.key(x.base, x.path) for x in setp[0].args]
    ctx.ok("inner-list")
    if pa[2:5] != [f"xx[{d}][i{d}]" for d in range(3)] or pa[5] != "x0x1x2_inbounds" or "inner_bc_array" not in pa[7]:
        ctx.violation("inner-list", "parity call", f"called with {pa}")
    # loops and guards
    counters = {}
    for nm, e in (("dstpt", dst[0]), ("srcpt", src[0]), ("parity", setp[0])):
        ctx.ok("inner-list")
        judge_inner_ctx(ctx, nm, e, full, ce)
    slotvar = dk.split("@")[0]
    inc = [e for e in cexec.stores(ce) if e.key == slotvar and e.op in ("++", "+=", "=") and loops(e.ctx)]
    numvar = str(num[0].val).split("@")[0]
    inc2 = [e for e in cexec.stores(ce) if e.key == numvar and loops(e.ctx)]
    for nm, l in (("slot counter", inc), ("point counter", inc2)):
        ctx.ok("inner-list")
        if len(l) != 1:
            ctx.violation("inner-list", nm, f"advanced at {len(l)} places")
            continue
        judge_inner_ctx(ctx, nm, l[0], full, ce)
        if not re.search(r"@", str(l[0].val)) or sp.expand(l[0].val - [s for s in l[0].val.free_symbols][0]) != 1:
            ctx.violation("inner-list", nm, f"becomes {l[0].val}")
    for nm in (slotvar, numvar):
        ctx.ok("inner-list")
        d = [e for e in cexec.stores(ce) if e.key == nm and not loops(e.ctx)]
        if not d or d[0].val != 0:
            ctx.violation("inner-list", f"{'slot' if nm == slotvar else 'point'} counter start", "does not start at zero")
    # order: store before counter advance
    seq = [e for e in evs if e in (dst[0], src[0], setp[0]) or (inc and e is inc[0])]
    ctx.ok("inner-list")
    if inc and seq[-1] is not inc[0]:
        ctx.violation("inner-list", "slot counter", "advanced before the slot is filled")
    a = alloc[0].val
    ctx.ok("inner-list")
    ar = a.args if getattr(a, "func", None) is not None and getattr(a.func, "__name__", "") in ("malloc",) else None
    if ar is not None and sp.expand(ar[0] - S("sizeof(innerpt_bc_struct)") * num[0].val) != 0:
        ctx.violation("inner-list", "allocation", f"allocated {ar[0]}")


def judge_inner_ctx(ctx, nm, e, full, ce):
    ls = sorted((f[1], f[2], f[3], f[4]) for f in loops(e.ctx))
    if [tuple(map(str, x)) for x in ls] != [tuple(map(str, x)) for x in full]:
        ctx.violation("inner-list", nm, f"visited over {[(str(a), str(b), str(c)) for a, b, c, _ in ls]}, not over all grid points")
    if not is_inner_guard(ifs(e.ctx), ce):
        ctx.violation("inner-list", nm, "not guarded by 'outside the interior and image differs from the point'")


def face_bounds(w, dirn, side):
    """[lo,hi) of the face slab of layer w (0 innermost), directions already extended this layer first"""
    out = []
    for d in range(3):
        lo0, hi0 = NG - w, N[d] - NG + w
        if d == dirn:
            out += [lo0 - 1, lo0] if side == 0 else [hi0, hi0 + 1]
        elif d < dirn:
            out += [lo0 - 1, hi0 + 1]
        else:
            out += [lo0, hi0]
    return [sp.expand(x) for x in out]


def outer(ctx, ce, B):
    W = S("which_gz")
    # 1) loop bounds
    bl = cexec.stores(ce, r"bc_loop_bounds\[")
    seen = {}
    lv = None
    for e in bl:
        m = [p[1] for p in e.path if p[0] == "i"]
        m = m[-3:]
        if not loops(e.ctx):
            raise AnalysisError("bounds set outside the layer loop")
        lv = loops(e.ctx)[0]
        w = S(lv[1])
        ctx.ok("outer-list")
        if (lv[2], sp.expand(lv[3] - NG)) != (0, 0) or len(loops(e.ctx)) != 1 or m[0] != w:
            ctx.violation("outer-list", "layers", f"bounds set for layer {m[0]} in a loop over [{lv[2]},{lv[3]})")
            continue
        if not (m[1].is_Integer and m[2].is_Integer):
            raise AnalysisError("face index not constant")
        seen[(int(m[1]), int(m[2]))] = sp.expand(e.val.subs(w, W))
    for face in range(6):
        want = face_bounds(W, face // 2, face % 2)
        for j in range(6):
            ctx.ok("outer-list")
            g = seen.get((face, j))
            if g is None:
                ctx.violation("outer-list", f"face {face} bound {j}", "never set")
            elif sp.expand(g - want[j]) != 0:
                ctx.violation("outer-list", f"face {face} bound {j}", f"is {g}, the slab of that layer needs {want[j]}")
    # 2) storage
    al = [e for e in cexec.stores(ce, r"pure_outer_bc_array\[[^\]]*\]$")]
    got = {}
    for e in al:
        w = S(loops(e.ctx)[0][1])
        i = sp.expand(e.path[-1][1].subs(w, W))
        d = sp.expand(i - 3 * W)
        ctx.ok("outer-list")
        if not d.is_Integer or not 0 <= d < 3:
            ctx.violation("outer-list", "storage", f"allocated at index {i}")
            continue
        v = e.val
        if getattr(v.func, "__name__", "") not in ("malloc", "calloc"):
            raise AnalysisError("storage is not allocated by malloc")
        got[int(d)] = sp.expand(sp.prod(v.args).subs(w, W)) if len(v.args) > 1 else sp.expand(v.args[0].subs(w, W))
    for d in range(3):
        b = face_bounds(W, d, 0)
        need = sp.expand(2 * S("sizeof(outerpt_bc_struct)") * (b[1] - b[0]) * (b[3] - b[2]) * (b[5] - b[4]))
        ctx.ok("outer-list")
        if d not in got:
            ctx.violation("outer-list", f"storage direction {d}", "never allocated")
        elif sp.expand(got[d] - need) != 0:
            ctx.violation("outer-list", f"storage direction {d}", f"allocated {got[d]}, both faces need {need}")
    # 3) filling
    fills = {}
    for m in ("i0", "i1", "i2", "FACEX0", "FACEX1", "FACEX2"):
        for e in cexec.stores(ce, rf"pure_outer_bc_array\[[^\]]*\]\[.*\]\.{m}$"):
            ls = loops(e.ctx)
            w = [f for f in ls if sp.expand(f[3] - NG) == 0 and f[2] == 0]
            if len(w) != 1:
                ctx.violation("outer-list", "layers", "filled outside a loop over all layers")
                continue
            wv = S(w[0][1])
            idx = [p[1] for p in e.path if p[0] == "i"]
            d = sp.expand(idx[-2].subs(wv, W) - 3 * W)
            slot = str(idx[-1])
            rng = {}
            for f in ls:
                if f is w[0]:
                    continue
                rng[f[1]] = (f[2].subs(wv, W) if hasattr(f[2], "subs") else f[2], f[3], f[4])
            # bounds are loads of the stored table: which face row?
            rows = set()
            okr = True
            for k in range(3):
                r = rng.get(f"i{k}")
                if r is None:
                    okr = False
                    break
                mm = [re.search(r"bc_loop_bounds\[(.*?)\]\[(\d+)\]\[(\d+)\]$", str(x)) for x in r[:2]]
                if not all(mm) or mm[0].group(3) != str(2 * k) or mm[1].group(3) != str(2 * k + 1) or mm[0].group(2) != mm[1].group(2) or mm[0].group(1) not in (str(wv), "which_gz"):
                    okr = False
                    break
                rows.add(int(mm[0].group(2)))
            ctx.ok("outer-list")
            if not okr or len(rows) != 1:
                ctx.violation("outer-list", f"fill {m}", f"points of {rng} do not range over one face's stored bounds")
                continue
            face = rows.pop()
            if d != face // 2:
                ctx.violation("outer-list", f"fill face {face}", f"stored under direction {d}")
            g = cond_set(ifs(e.ctx), ce)
            want = {F("eq")(cexec.canon_neg(S(f"i{k}") - S(f"i0i1i2_inbounds[{k}]"))) for k in range(3)}
            if g != want:
                ctx.violation("outer-list", f"fill face {face}", "not restricted to points that are their own image")
            if m.startswith("F"):
                k = int(m[-1])
                wv_ = 0 if face // 2 != k else (1 if face % 2 == 0 else -1)
                if e.val != wv_:
                    ctx.violation("outer-list", f"face {face} {m}", f"is {e.val}, the inward step is {wv_}")
            elif e.val != S(m):
                ctx.violation("outer-list", f"face {face} {m}", f"is {e.val}")
            fills.setdefault(face, []).append((m, slot, e))
    for face in range(6):
        ctx.ok("outer-list")
        have = {m for m, _, _ in fills.get(face, [])}
        if len(have) != 6:
            ctx.violation("outer-list", f"face {face}", f"members set: {sorted(have)}")
            continue
        if len({re.sub(r"@\d+", "", s) for _, s, _ in fills[face]}) != 1 or len({s for _, s, _ in fills[face]}) != 1:
            ctx.violation("outer-list", f"face {face}", "members of one point are stored in different slots")
        slotv = fills[face][0][1].split("@")[0]
        inc = [e for e in cexec.stores(ce) if e.key == slotv and e.op != "decl" and e.ctx == fills[face][0][2].ctx]
        if len(inc) != 1 or sp.expand(inc[0].val - S(fills[face][0][1])) != 1:
            ctx.violation("outer-list", f"face {face}", "the slot counter does not advance once per point")
        elif ce.events.index(inc[0]) < max(ce.events.index(e) for _, _, e in fills[face]):
            ctx.violation("outer-list", f"face {face}", "the slot counter advances before the slot is complete")
    # 4) counts and reset
    cn = cexec.stores(ce, r"num_pure_outer_boundary_points\[")
    ds = set()
    for e in cn:
        idx = [p[1] for p in e.path if p[0] == "i"][-2:]
        ctx.ok("outer-list")
        if not loops(e.ctx) or idx[0] != S(loops(e.ctx)[0][1]) or not idx[1].is_Integer:
            raise AnalysisError("count indices")
        d = int(idx[1])
        ds.add(d)
        slotv = fills[2 * d][0][1].split("@")[0] if fills.get(2 * d) else None
        last = [x for x in ce.events[: ce.events.index(e)] if x.kind == "store" and x.key == slotv]
        if slotv and str(e.val).split("@")[0] != slotv:
            ctx.violation("outer-list", f"count direction {d}", f"is {e.val}")
        # the counter starts at zero for this direction
        z = [x for x in last if x.op == "decl" or (x.op == "=" and x.val == 0)]
        f0 = min((ce.events.index(y) for _, _, y in fills.get(2 * d, [])), default=None)
        prev = [ce.events.index(y) for dd in range(d) for _, _, y in fills.get(2 * dd + 1, [])]
        if f0 is not None and not any((not prev or ce.events.index(x) > max(prev)) and ce.events.index(x) < f0 and x.val == 0 for x in z):
            ctx.violation("outer-list", f"count direction {d}", "the slot counter does not start at zero for this direction")
        if fills.get(2 * d + 1):
            f1 = min(ce.events.index(y) for _, _, y in fills[2 * d + 1])
            if any(f0 < ce.events.index(x) < f1 for x in z):
                ctx.violation("outer-list", f"count direction {d}", "the upper face overwrites the lower face's slots")
    if ds != {0, 1, 2}:
        ctx.violation("outer-list", "counts", f"stored for directions {sorted(ds)}")


# --------------------------------------------------------------------------- application
def norm_bc(s):
    return s


def apply_inner(ctx, where, ce, gfname, parity_arr, arr, nloop, npts):
    st = [e for e in ce.events if e.kind == "store" and e.base == gfname]
    ctx.ok("inner-apply", 4)
    if len(st) != 1:
        ctx.violation("inner-apply", where, f"{len(st)} assignments to the fields")
        return
    e = st[0]
    ls = {f[1]: f for f in loops(e.ctx)}
    gf = [f for f in ls.values() if f[2] == 0 and sp.expand(f[3] - S(nloop)) == 0]
    pt = [f for f in ls.values() if f[2] == 0 and str(f[3]).endswith(npts)]
    if len(gf) != 1 or len(pt) != 1 or len(ls) != 2 or any(f[4] != 1 for f in ls.values()) or ifs(e.ctx):
        ctx.violation("inner-apply", where, f"loops {[(f[1], str(f[2]), str(f[3])) for f in ls.values()]} do not cover all fields and all inner points")
        return
    g, p = S(gf[0][1]), S(pt[0][1])
    n3 = N[0] * N[1] * N[2]
    b = f"{arr}[{p}]"
    dst, src = S(b + ".dstpt"), S(b + ".srcpt")
    if sp.expand(e.path[0][1] - (n3 * g + dst)) != 0:
        ctx.violation("inner-apply", where, f"writes at {e.path[0][1]}")
    want = S(f"{b}.parity[{parity_arr}[{g}]]") * S(f"{gfname}[{sp.expand(n3 * g + src)}]")
    if sp.expand(e.val - want) != 0:
        ctx.violation("inner-apply", where, f"assigns {e.val}, expected {want}")


def application(ctx):
    ctx.rule("inner-apply", "every evolved field at every listed inner point gets its image's value times the parity of that field's own type")
    ctx.rule("extrapolate", "layers outward, directions x0,x1,x2 within a layer, every listed point of every evolved field is 3f1-3f2+f3 along its inward step; inner points afterwards, on the same array")
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{MOD}:register_CFunction_apply_bcs_inner_only"))
    ce = rexec(regs(tr)["apply_bcs_inner_only"])
    apply_inner(ctx, "apply_bcs_inner_only", ce, "gfs", "evol_gf_parity", "bcstruct[0].inner_bc_array", "NUM_EVOL_GFS", "bcstruct[0].bc_info.num_inner_boundary_points")
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{MOD}:register_CFunction_apply_bcs_outerextrap_and_inner"))
    ce = rexec(regs(tr)["apply_bcs_outerextrap_and_inner"])
    st = [e for e in ce.events if e.kind == "store" and e.base == "gfs"]
    got = outer_sites(ctx, "extrapolate", ce, st)
    n3 = N[0] * N[1] * N[2]
    for d, (e, w_, q, g, b) in got.items():
        i = [S(f"{b}.i{k}") for k in range(3)]
        fx = [S(f"{b}.FACEX{k}") for k in range(3)]

        def at(s):
            j = [i[k] + s * fx[k] for k in range(3)]
            return sp.expand(n3 * g + j[0] + N[0] * (j[1] + N[1] * j[2]))

        ctx.ok("extrapolate", 2)
        if sp.expand(e.path[0][1] - at(0)) != 0:
            ctx.violation("extrapolate", f"direction {d}", f"writes at {e.path[0][1]}")
        L = {sp.expand(at(s)): c for s, c in ((1, 3), (2, -3), (3, 1))}
        val = sp.expand(e.val)
        tot = 0
        for k, c in L.items():
            tot += c * S(f"gfs[{k}]")
        if sp.expand(val - tot) != 0:
            ctx.violation("extrapolate", f"direction {d}", "is not the quadratic extrapolation 3f1-3f2+f3 along the inward step")
    inner_after(ctx, "extrapolate", ce, st, "gfs")


def outer_sites(ctx, rule, ce, st):
    """one store per direction, in layer order; returns {dirn: (event, layer var, point var, gf var, point base)}"""
    out = {}
    for e in st:
        ls = loops(e.ctx)
        lay = [f for f in ls if f[2] == 0 and sp.expand(f[3] - NG) == 0]
        gf = [f for f in ls if f[2] == 0 and f[3] == S("NUM_EVOL_GFS")]
        pts = [(f, re.fullmatch(r"bcstruct\[0\]\.bc_info\.num_pure_outer_boundary_points\[(\w+)\]\[(\d+)\]", str(f[3]))) for f in ls]
        pts = [(f, m) for f, m in pts if m and f[2] == 0]
        ctx.ok(rule)
        if len(lay) != 1 or len(gf) != 1 or len(pts) != 1 or len(ls) != 3 or any(f[4] != 1 for f in ls):
            ctx.violation(rule, "loops", f"loops {[(f[1], str(f[2]), str(f[3])) for f in ls]} do not cover all layers, points and fields")
            continue
        f, m = pts[0]
        d = int(m.group(2))
        if m.group(1) != lay[0][1] or ls.index(lay[0]) != 0:
            ctx.violation(rule, "layers", "layers are not processed outermost in the loop nest, from the innermost layer outward")
            continue
        extra = [c for c in ifs(e.ctx) if not re.fullmatch(r"lt0\(-?.*num_pure_outer_boundary_points\[\w+\]\[%d\]\)" % d, str(c[1]))]
        if extra:
            ctx.violation(rule, f"direction {d}", f"guarded by {extra[0][1]}")
        if d in out:
            ctx.violation(rule, f"direction {d}", "assigned twice")
        b = f"bcstruct[0].pure_outer_bc_array[{sp.expand(3 * S(lay[0][1]) + d)}][{f[1]}]"
        out[d] = (e, lay[0][1], f[1], S(gf[0][1]), b)
    ctx.ok(rule)
    if sorted(out) != [0, 1, 2]:
        ctx.violation(rule, "directions", f"directions handled: {sorted(out)}")
    elif not (ce.events.index(out[0][0]) < ce.events.index(out[1][0]) < ce.events.index(out[2][0])):
        ctx.violation(rule, "directions", "directions are not processed in the order the face ranges assume")
    return out


def inner_after(ctx, rule, ce, st, arr):
    ctx.ok(rule)
    c = [e for e in ce.events if e.kind == "call" and e.name == "apply_bcs_inner_only"]
    if len(c) != 1 or ifs(c[0].ctx) or loops(c[0].ctx):
        ctx.violation(rule, "inner points", f"{len(c)} unconditional calls fill the inner points")
        return
    a = c[0].args[-1]
    a = a.base if isinstance(a, cexec.Addr) else str(a)
    if a != arr:
        ctx.violation(rule, "inner points", f"inner points of {a} are filled, the outer ones of {arr} were")
    if st and ce.events.index(c[0]) < max(ce.events.index(e) for e in st):
        ctx.violation(rule, "inner points", "inner points are filled before the outer points they may copy from")


# --------------------------------------------------------------------------- radiation
def radiation(ctx):
    ctx.rule("radiation", "at every outer point the time derivative of every field is -c(df/dr + (f-f0)/r) plus the 1/r^3 correction matched at the inward neighbour; df/dr is the chain rule with one-sided differences that are exact to the order and stay inside the grid")
    n3 = N[0] * N[1] * N[2]
    for sysname, order in itertools.product(("Fake", "FakeZ"), (2, 4, 6) if ctx.thorough else (2, 4)):
        w = World()
        tr = w.run(lambda I: closed.call(I, f"{MOD}:register_CFunction_apply_bcs_outerradiation_and_inner", sysname, radiation_BC_fd_order=order))
        reg = regs(tr)["apply_bcs_outerradiation_and_inner"]
        fs = funcs(txt(reg.get("prefunc", "")))
        ctx.attempt(f"radiation apply {order}", rad_apply, ctx, reg)
        ctx.attempt(f"radiation r {sysname}", rad_r, ctx, fs, w, sysname)
        ctx.attempt(f"radiation dr {sysname} {order}", rad_dr, ctx, fs, sysname, order)
        ctx.attempt(f"radiation upwind {sysname} {order}", rad_fd, ctx, fs, sysname, order)
        ctx.attempt(f"radiation formula {sysname}", rad_formula, ctx, fs)


def rad_apply(ctx, reg):
    n3 = N[0] * N[1] * N[2]
    ce = rexec(reg)
    st = [e for e in ce.events if e.kind == "store" and e.base == "rhs_gfs"]
    for e in ce.events:
        if e.kind == "store" and e.base == "gfs":
            ctx.violation("radiation", "target", "the fields themselves are overwritten, not their time derivatives")
    got = outer_sites(ctx, "radiation", ce, st)
    for d, (e, lay, q, g, b) in got.items():
        i = [S(f"{b}.i{k}") for k in range(3)]
        ctx.ok("radiation", 2)
        if sp.expand(e.path[0][1] - (n3 * g + i[0] + N[0] * (i[1] + N[1] * i[2]))) != 0:
            ctx.violation("radiation", f"direction {d}", f"writes at {e.path[0][1]}")
        v = e.val
        if getattr(v.func, "__name__", "") != "radiation_bcs":
            ctx.violation("radiation", f"direction {d}", f"assigns {v}")
            continue
        a = [str(x) for x in v.args]
        want = ["gfs", "rhs_gfs", str(g), f"custom_wavespeed[{g}]", f"custom_f_infinity[{g}]"] + [str(x) for x in i] + [f"{b}.FACEX{k}" for k in range(3)]
        if a[4:] != want:
            ctx.violation("radiation", f"direction {d}", f"boundary value computed from {a[4:]}")
    inner_after(ctx, "radiation", ce, st, "rhs_gfs")


def rad_r(ctx, fs, w, sysname):
    ce = fexec(fs["r_and_partial_xi_partial_r_derivs"])
    M = metrics()[sysname]
    want = {"r": M.xxSph[0]}
    for i in range(3):
        want[f"partial_x{i}_partial_r"] = M.Jac_dUrfm_dDSphUD[i][0]
    got = {e.base: w.val(e.val) for e in cexec.stores(ce) if e.path}
    for k, v in want.items():
        ctx.ok("radiation")
        if got.get(k) is None or sp.expand(got[k] - v) != 0:
            ctx.violation("radiation", f"r_and_partial {k}", f"is {got.get(k)}")


def rad_dr(ctx, fs, sysname, order):
    fn = fs["compute_partial_r_f"]
    ce = fexec(fn)
    ret = [e for e in ce.events if e.kind == "return"]
    if len(ret) != 1:
        raise AnalysisError("compute_partial_r_f: several returns")
    n3 = N[0] * N[1] * N[2]
    J = metrics()[sysname].Jac_dUrfm_dDSphUD
    tot = 0
    R = order // 2
    for d in range(3):
        c = [e for e in ce.events if e.kind == "call" and e.name == f"FD1_arbitrary_upwind_x{d}_dirn"]
        ctx.ok("radiation")
        if J[d][0] == 0:
            if c:
                ctx.violation("radiation", f"df/dr term {d}", "a derivative is taken along an axis r does not depend on")
            continue
        if len(c) != 1:
            ctx.violation("radiation", f"df/dr term {d}", f"{len(c)} derivatives along axis {d}")
            continue
        a = c[0].args
        p = a[2]
        if not isinstance(p, cexec.Addr) or p.base != "gfs" or sp.expand((p.off or 0) - n3 * S("which_gf")) != 0:
            ctx.violation("radiation", f"df/dr term {d}", "derivative of another field")
        if [str(x) for x in a[3:6]] != [f"dest_i{k}" for k in range(3)]:
            ctx.violation("radiation", f"df/dr term {d}", f"derivative at {a[3:6]}")
        # offset: FACE unless clamped; decide on each side by substitution
        off = a[6]
        x, n, fc = S(f"dest_i{d}"), N[d], S(f"FACEi{d}")
        for nn in (2 * R + 1, 2 * R + 2, 2 * R + 5):
            for xi in range(nn):
                for f in (-1, 0, 1):
                    v = fold(off, {x: sp.Integer(xi), n: sp.Integer(nn), fc: sp.Integer(f), S("FD1_stencil_radius"): sp.Integer(R)})
                    ctx.ok("radiation-offsets")
                    lo, hi = xi - R + v, xi + R + v
                    if xi < R or xi > nn - R - 1:
                        want = R - xi if xi < R else nn - R - 1 - xi
                    else:
                        want = f
                    if v != want:
                        ctx.violation("radiation", f"stencil shift axis {d}", f"at index {xi} of {nn} on face {f} the stencil is shifted by {v}, the maximally centred in-range one by {want}")
        tot += S(f"partial_x{d}_partial_r") * sp.Function(f"FD1_arbitrary_upwind_x{d}_dirn")(*[ce.as_sym(y) for y in a])
    ctx.ok("radiation")
    if sp.expand(ret[0].val - tot) != 0:
        ctx.violation("radiation", "df/dr", "is not the sum of dx^i/dr times df/dx^i")


def fold(e, sub):
    e = e.subs(sub)
    n = getattr(e.func, "__name__", "")
    if n == "ite":
        c = foldc(e.args[0], sub)
        return fold(e.args[1] if c else e.args[2], sub)
    if e.is_Integer:
        return int(e)
    if e.args and e.func in (sp.Add, sp.Mul):
        vs = [fold(a, sub) for a in e.args]
        return sum(vs) if e.func is sp.Add else int(sp.prod(vs))
    raise AnalysisError(f"offset {e} not decided")


def foldc(c, sub):
    n = getattr(c.func, "__name__", "")
    if c.is_Integer:
        return c != 0
    if n == "lt0":
        return fold(c.args[0], sub) < 0
    if n == "le0":
        return fold(c.args[0], sub) <= 0
    if n == "eq":
        return fold(c.args[0], sub) == 0
    if n == "ne":
        return fold(c.args[0], sub) != 0
    if n == "and_":
        return all(foldc(a, sub) for a in c.args)
    if n == "or_":
        return any(foldc(a, sub) for a in c.args)
    raise AnalysisError(f"condition {c} not decided")


def rad_fd(ctx, fs, sysname, order):
    J = metrics()[sysname].Jac_dUrfm_dDSphUD
    R = order // 2
    for d in range(3):
        nm = f"FD1_arbitrary_upwind_x{d}_dirn"
        if J[d][0] == 0:
            continue
        if nm not in fs:
            ctx.violation("radiation", nm, "the derivative routine is not emitted")
            continue
        ce = fexec(fs[nm])
        rets = {}
        for e in ce.events:
            if e.kind == "return":
                c = [f for f in e.ctx if f[0] == "case"]
                if c:
                    rets[int(c[-1][2])] = e.val
        for off in range(-R, R + 1):
            ctx.ok("radiation-stencils")
            v = rets.get(off)
            if v is None:
                ctx.violation("radiation", f"{nm} offset {off}", "no stencil for a shift that occurs")
                continue
            v = sp.expand(v / S(f"invdxx{d}"))
            coef = {}
            for s in v.free_symbols:
                m = re.fullmatch(r"gf\[(.*)\]", str(s))
                if not m:
                    ctx.violation("radiation", f"{nm} offset {off}", f"depends on {s}")
                    continue
                ix = sp.sympify(m.group(1), locals={str(x): x for x in N} | {f"i{k}": S(f"i{k}") for k in range(3)})
                sh = sp.expand(ix - (S("i0") + N[0] * (S("i1") + N[1] * S("i2"))))
                st = [1, N[0], N[0] * N[1]][d]
                k = sp.expand(sh / st)
                if not k.is_Integer:
                    ctx.violation("radiation", f"{nm} offset {off}", f"reads at offset {sh}, not along axis {d}")
                    continue
                coef[int(k)] = v.coeff(s)
            # Taylor conditions of the first derivative up to the order
            for q in range(order + 1):
                if sum(c * sp.Integer(k) ** q for k, c in coef.items()) != (1 if q == 1 else 0):
                    ctx.violation("radiation", f"{nm} offset {off}", f"the Taylor condition of degree {q} fails")
                    break
            if coef and not (min(coef) >= -R + off and max(coef) <= R + off):
                ctx.violation("radiation", f"{nm} offset {off}", f"reads {sorted(coef)}")


def rad_formula(ctx, fs):
    ce = fexec(fs["radiation_bcs"])
    ret = [e for e in ce.events if e.kind == "return"]
    n3 = N[0] * N[1] * N[2]
    ii = [S(f"dest_i{d}") for d in range(3)]
    fc = [S(f"FACEi{d}") for d in range(3)]
    jj = [i + f for i, f in zip(ii, fc)]
    rc = [e for e in ce.events if e.kind == "call" and e.name == "r_and_partial_xi_partial_r_derivs"]
    pts = {}
    for e in rc:
        ctx.ok("radiation")
        pos = [str(x) for x in e.args[2:5]]
        outn = [x.base if isinstance(x, cexec.Addr) else str(x) for x in e.args[5:9]]
        which = "int" if pos == [f"xx[{d}][{sp.expand(jj[d])}]" for d in range(3)] else "own" if pos == [f"xx[{d}][{ii[d]}]" for d in range(3)] else None
        if which is None:
            ctx.violation("radiation", "radius", f"evaluated at {pos}")
            continue
        pts[which] = outn
    pc = [e for e in ce.events if e.kind == "call" and e.name == "compute_partial_r_f"]
    dr = {}
    for e in pc:
        ctx.ok("radiation")
        pos = [sp.expand(x) for x in e.args[5:8]]
        which = "int" if pos == [sp.expand(x) for x in jj] else "own" if pos == ii else None
        a = [ce.as_sym(x) for x in e.args]
        if which is None or str(a[4]) != "which_gf" or str(a[3]) != "gfs" or [str(x) for x in a[8:11]] != [f"FACEi{d}" for d in range(3)] or which not in pts or [str(x) for x in a[11:14]] != pts[which][1:]:
            ctx.violation("radiation", "df/dr call", f"called with {[str(x) for x in a[3:]]}")
            continue
        dr[which] = sp.Function("compute_partial_r_f")(*a)
    ctx.ok("radiation")
    if set(dr) != {"int", "own"} or set(pts) != {"int", "own"} or len(ret) != 1:
        ctx.violation("radiation", "formula", "radius and radial derivative are not evaluated at the point and its inward neighbour")
        return
    off = lambda j: sp.expand(n3 * S("which_gf") + j[0] + N[0] * (j[1] + N[1] * j[2]))
    f, fi, ft = S(f"gfs[{off(ii)}]"), S(f"gfs[{off(jj)}]"), S(f"gfs_rhss[{off(jj)}]")
    c, f0, r, ri = S("gf_wavespeed"), S("gf_f_infinity"), S(pts["own"][0]), S(pts["int"][0])
    k = ri**3 * (ft + c * (dr["int"] + (fi - f0) / ri))
    want = -c * (dr["own"] + (f - f0) / r) + k / r**3
    if sp.simplify(sp.expand(ret[0].val - want)) != 0:
        ctx.violation("radiation", "formula", "the returned time derivative is not the outgoing-wave condition with matched 1/r^3 term")


# --------------------------------------------------------------------------- distributed back end
def superb(ctx):
    ctx.rule("distributed", "each distributed element's lists are exactly the global list entries that lie on it, in its own indices, with the same parity and inward step; points whose image lies elsewhere use the received value times the field's own parity")
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{SB}:register_CFunction_apply_bcs_inner_only_nonlocal"))
    ce = rexec(regs(tr)["apply_bcs_inner_only_nonlocal"])
    st = [e for e in ce.events if e.kind == "store" and e.base == "gfs"]
    n3 = N[0] * N[1] * N[2]
    ctx.ok("distributed", 3)
    if len(st) != 1:
        ctx.violation("distributed", "apply_bcs_inner_only_nonlocal", f"{len(st)} assignments")
    else:
        e = st[0]
        ls = loops(e.ctx)
        P = "nonlocalinnerbcstruct[0]"
        ch = [f for f in ls if str(f[3]) == f"{P}.tot_num_src_chares"]
        gf = [f for f in ls if str(f[3]) == "NUM_GFS"]
        if len(ls) != 3 or len(ch) != 1 or len(gf) != 1 or any(f[2] != 0 or f[4] != 1 for f in ls):
            ctx.violation("distributed", "apply_bcs_inner_only_nonlocal", "does not visit all senders, fields and points")
        else:
            c = ch[0][1]
            q = [f for f in ls if f not in (ch[0], gf[0])][0]
            if str(q[3]) != f"{P}.num_srcpts_each_chare[{c}]":
                ctx.violation("distributed", "apply_bcs_inner_only_nonlocal", f"visits {q[3]} points")
            g = S(gf[0][1])
            lin = f"{P}.map_srcchare_and_srcpt_id_to_linear_id[{c}][{q[1]}]"
            b = f"bcstruct[0].inner_bc_array_nonlocal[{lin}]"
            if sp.expand(e.path[0][1] - (n3 * S(f"gfs_to_sync[{g}]") + S(b + ".dstpt"))) != 0:
                ctx.violation("distributed", "apply_bcs_inner_only_nonlocal", f"writes at {e.path[0][1]}")
            buf = F("IDX2NONLOCALINNERBC")(g, S(q[1]), S(f"{P}.num_srcpts_each_chare[{c}]"))
            want = S(f"{b}.parity[gf_parity_types[gfs_to_sync[{g}]]]") * S(f"tmpBuffer_innerbc_receiv[{c}][{buf}]")
            if sp.expand(e.val - want) != 0:
                ctx.violation("distributed", "apply_bcs_inner_only_nonlocal", f"assigns {e.val}")
    ctx.attempt("bcstruct_chare_set_up", chare, ctx)


def chare(ctx):
    w = World()
    tr = w.run(lambda I: closed.call(I, f"{SB}:register_CFunction_bcstruct_chare_set_up", "Fake"))
    ce = rexec(regs(tr)["bcstruct_chare_set_up"])
    G = "charecommstruct[0].globalidx3pt_to_chareidx3"
    L = "charecommstruct[0].globalidx3pt_to_localidx3pt"
    me = None
    src = lambda p: f"bcstruct[0].inner_bc_array[{p}]"
    # local and nonlocal inner lists
    for arr, local in (("inner_bc_array", True), ("inner_bc_array_nonlocal", False)):
        for m in ("dstpt", "srcpt") if local else ("dstpt",):
            st = [e for e in ce.events if e.kind == "store" and re.fullmatch(rf"bcstruct_chare\[0\]\.{arr}\[.*\]\.{m}", e.key)]
            ctx.ok("distributed")
            if len(st) != 1:
                ctx.violation("distributed", f"{arr}.{m}", f"set at {len(st)} places")
                continue
            e = st[0]
            ls = loops(e.ctx)
            if len(ls) != 1 or ls[0][2] != 0 or str(ls[0][3]) != "bcstruct[0].bc_info.num_inner_boundary_points" or ls[0][4] != 1:
                ctx.violation("distributed", f"{arr}.{m}", "does not visit every global inner point")
                continue
            p = ls[0][1]
            if str(e.val) != f"{L}[{src(p)}.{m}]":
                ctx.violation("distributed", f"{arr}.{m}", f"is {e.val}, not the local index of that point")
            atoms = cond_set(ifs(e.ctx), ce)
            chd, chs = S(f"{G}[{src(p)}.dstpt]"), S(f"{G}[{src(p)}.srcpt]")
            mine = F("IDX3_OF_CHARE")(*[S(f"chare_index[{k}]") for k in range(3)])
            want = {F("eq")(cexec.canon_neg(chd - mine)), F("eq" if local else "ne")(cexec.canon_neg(chs - mine))}
            if atoms != want:
                ctx.violation("distributed", f"{arr}.{m}", f"listed under {sorted(map(str, atoms))}")
            # parity copied, all ten
            ps = [x for x in ce.events if x.kind == "store" and re.fullmatch(rf"bcstruct_chare\[0\]\.{arr}\[.*\]\.parity\[\d+\]", x.key)]
            if m == "dstpt":
                ctx.ok("distributed", 10)
                seen = set()
                for x in ps:
                    k = x.path[-1][1]
                    if str(x.val) != f"{src(loops(x.ctx)[0][1])}.parity[{k}]" or x.path[:-2] != e.path[:-1]:
                        ctx.violation("distributed", f"{arr}.parity", f"parity {k} is {x.val}")
                    seen.add(k)
                if len(seen) != 10:
                    ctx.violation("distributed", f"{arr}.parity", f"{len(seen)} of the ten parities are copied")
        # count used for allocation is taken under the same guard
        cn = [e for e in ce.events if e.kind == "store" and e.key == f"bcstruct_chare[0].bc_info.num_inner_boundary_points{'' if local else '_nonlocal'}"]
        ctx.ok("distributed")
        if len(cn) != 1:
            ctx.violation("distributed", f"{arr} count", "not stored")
            continue
        v = str(cn[0].val).split("@")[0]
        inc = [e for e in ce.events if e.kind == "store" and e.key == v and loops(e.ctx)]
        if len(inc) != 1 or not loops(inc[0].ctx):
            ctx.violation("distributed", f"{arr} count", "not counted once")
            continue
        p = loops(inc[0].ctx)[0][1]
        chd, chs = S(f"{G}[{src(p)}.dstpt]"), S(f"{G}[{src(p)}.srcpt]")
        mine = F("IDX3_OF_CHARE")(*[S(f"chare_index[{k}]") for k in range(3)])
        want = {F("eq")(cexec.canon_neg(chd - mine)), F("eq" if local else "ne")(cexec.canon_neg(chs - mine))}
        if cond_set(ifs(inc[0].ctx), ce) != want:
            ctx.violation("distributed", f"{arr} count", "counted under another condition than the list is filled")
        al = [e for e in ce.events if e.kind == "store" and e.key == f"bcstruct_chare[0].{arr}"]
        if len(al) != 1 or sp.expand(sp.prod(al[0].val.args) - S("sizeof(innerpt_bc_struct)") * cn[0].val) != 0:
            ctx.violation("distributed", f"{arr} storage", "not allocated for the counted points")
    # outer lists
    for d in range(3):
        conds = []
        for m in ("i0", "i1", "i2", "FACEX0", "FACEX1", "FACEX2"):
            st = [e for e in ce.events if e.kind == "store" and re.fullmatch(rf"bcstruct_chare\[0\]\.pure_outer_bc_array\[.*\]\[.*\]\.{m}", e.key)]
            st = [e for e in st if sp.expand(e.path[-3][1] - 3 * S(loops(e.ctx)[0][1])) == d]
            ctx.ok("distributed")
            if len(st) != 1:
                ctx.violation("distributed", f"outer direction {d} {m}", f"set at {len(st)} places")
                continue
            e = st[0]
            ls = loops(e.ctx)
            wv = ls[0][1]
            q = ls[-1]
            if str(q[3]) != f"bcstruct[0].bc_info.num_pure_outer_boundary_points[{wv}][{d}]" or q[2] != 0 or sp.expand(ls[0][3] - NG) != 0:
                ctx.violation("distributed", f"outer direction {d} {m}", "does not visit every global outer point of that direction")
                continue
            gb = f"bcstruct[0].pure_outer_bc_array[{sp.expand(3 * S(wv) + d)}][{q[1]}]"
            if m[0] == "F":
                want = S(f"{gb}.{m}")
            else:
                k = int(m[1])
                want = F(f"MAP_GLOBAL_TO_LOCAL_IDX{k}")(S(f"chare_index[{k}]"), S(f"{gb}.i{k}"), S(f"params_chare[0].Nxx{k}"))
            if e.val != want:
                ctx.violation("distributed", f"outer direction {d} {m}", f"is {e.val}")
            i = [S(f"{gb}.i{k}") for k in range(3)]
            gi = sp.expand(i[0] + S("params[0].Nxx_plus_2NGHOSTS0") * (i[1] + S("params[0].Nxx_plus_2NGHOSTS1") * i[2]))
            mine = F("IDX3_OF_CHARE")(*[S(f"chare_index[{k}]") for k in range(3)])
            at = {a for a in cond_set(ifs(e.ctx), ce) if "num_pure_outer" not in str(a)}
            if at != {F("eq")(cexec.canon_neg(S(f"{G}[{gi}]") - mine))}:
                ctx.violation("distributed", f"outer direction {d} {m}", f"kept under {sorted(map(str, at))}")


def run(ctx):
    for fn in (parity, parity_pt, eigen, gfs, setup, application, radiation, superb):
        ctx.attempt(fn.__name__, fn, ctx)
    ctx.floor("parity-table", 10)
    ctx.floor("inner-list", 10)
    ctx.floor("outer-list", 36)
    ctx.floor("extrapolate", 5)
    ctx.floor("radiation", 20)
    ctx.floor("distributed", 10)
