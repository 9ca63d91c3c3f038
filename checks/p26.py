"""P26: diagnostic slices show the grid points nearest to the requested axis, plane or centre."""

import itertools
import re

import sympy as sp

from sa import closed, dist, templates
from sa.absint import AnalysisError

from . import p25

S = sp.Symbol
Fd = sp.core.function.AppliedUndef
BH = "nrpy.infrastructures.BHaH.diagnostics.output_0d_1d_2d_nearest_gridpoint_slices"
SB = "nrpy.infrastructures.superB.output_0d_1d_2d_nearest_gridpoint_slices"
SYS = (
    "Spherical", "SinhSpherical", "SinhSphericalv2n2", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical",
    "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph", "RingHoleySinhSpherical", "HoleySinhSpherical",
)
# what vanishes on a slice: Cartesian components; dimension
SLICE = {"y": ((0, 2), 1), "z": ((0, 1), 1), "xy": ((2,), 2), "yz": ((0,), 2), "centre": ((0, 1, 2), 0)}
FRAC = [sp.Rational(i, 4) for i in range(5)]
QUANT = {("REAL", "qa"): "GFA[IDX4pt(QAGF, idx3)]", ("int", "qb"): "GFB[IDX4pt(QBGF, idx3)]"}
NG = S("NGHOSTS")


def is_zero(e):
    """identically zero? a sample value away from zero refutes, otherwise algebra decides"""
    e = sp.sympify(e)
    if e == 0:
        return True
    free = sorted(e.free_symbols, key=lambda s: s.name)
    for k in range(2):
        v = e.subs({s: sp.Rational(7 + 4 * i + 3 * k, 29 + 2 * i + k) for i, s in enumerate(free)}).evalf(20)
        if v.is_number and v.is_finite and abs(v) > sp.Float("1e-8"):
            return False
    return sp.simplify(e) == 0


class Metric:
    """coordinate map and range of a coordinate system, from the source of the reference metric"""

    def __init__(self, name):
        box = {}
        I = closed.make(models={**closed.record_models()}, max_steps=30_000_000)
        trs = I.run(lambda I: box.__setitem__("o", closed.call(I, "nrpy.reference_metric:ReferenceMetric", name, False)))
        if len(trs) != 1 or trs[0].outcome[0] == "raise" or "o" not in box:
            raise AnalysisError(f"reference metric {name}: {trs[0].outcome}")
        a = getattr(box["o"], "attrs", None) or vars(box["o"])
        self.name, self.x = name, a["xx"]
        pi = lambda e: sp.sympify(e).subs({s: sp.pi for s in sp.sympify(e).free_symbols if s.name in ("PI", "M_PI")})
        self.cart = [pi(e) for e in a["xx_to_Cart"]]
        # bounds set from the physical size of the grid
        size = {S(k): sp.sympify(v, locals={"grid_physical_size": S("grid_physical_size", positive=True)}) for k, v in a["grid_physical_size_dict"].items()}
        bound = lambda e: pi(e).subs({s: size[S(s.name)] for s in pi(e).free_symbols if S(s.name) in size}, simultaneous=True)
        self.lo, self.hi = [bound(e) for e in a["xxmin"]], [bound(e) for e in a["xxmax"]]
        self.memo = {}

    def at(self, d, f):
        return sp.simplify(self.lo[d] + f * (self.hi[d] - self.lo[d]))

    def vanish(self, comps, fixed):
        """components vanish for all values of the coordinates not fixed; fixed: {axis: fraction}"""
        k = (comps, tuple(sorted(fixed.items())))
        if k not in self.memo:
            m = {self.x[d]: self.at(d, f) for d, f in fixed.items()}
            self.memo[k] = all(is_zero(self.cart[c].subs(m, simultaneous=True)) for c in comps)
        return self.memo[k]


def bare(e):
    """global extents by their bare names"""
    e = sp.sympify(e)
    m = {}
    for s in e.free_symbols:
        q = re.fullmatch(r"(?:params\[0\]\.)?(Nxx\d|Nxx_plus_2NGHOSTS\d)", s.name)
        if q:
            m[s] = S(q[1])
    return e.subs(m, simultaneous=True)


def decode(e):
    """grid indices of a flattened index i0 + n0*(i1 + n1*i2)"""
    e = bare(e)
    n0, n1 = S("Nxx_plus_2NGHOSTS0"), S("Nxx_plus_2NGHOSTS1")
    hide, back = {}, {}
    for f in sorted((a for a in e.atoms(Fd)), key=lambda a: -len(str(a))):
        if f.func.__name__ in ("int_", "idiv") or f.func.__name__.endswith("_pts"):
            d = sp.Dummy()
            hide[f], back[d] = d, f
    x = sp.expand(e.subs(hide, simultaneous=True))
    P = sp.Poly(x, n0, n1)
    co = {}
    for (a, b), c in P.terms():
        co[(a, b)] = c
    if set(co) - {(0, 0), (1, 0), (1, 1)}:
        return None
    out = tuple(sp.expand(co.get(k, sp.Integer(0))).subs(back, simultaneous=True) for k in ((0, 0), (1, 0), (1, 1)))
    return out


def field_index(arg, gf):
    """idx3 inside GF*n0*n1*n2 + idx3"""
    n = S("Nxx_plus_2NGHOSTS0") * S("Nxx_plus_2NGHOSTS1") * S("Nxx_plus_2NGHOSTS2")
    r = sp.expand(bare(arg) - S(gf) * n)
    return None if S(gf) in r.free_symbols else r


def truncated(e, d, r):
    """index with Nxx_d = 4k + r as (a, b, c): a*k + b*NGHOSTS + c; None if not of that form"""
    k = S("k_")
    n = 4 * k + r
    m = {S(f"Nxx{d}"): n, S(f"Nxx_plus_2NGHOSTS{d}"): n + 2 * NG}

    def lin(x):
        x = sp.expand(x.subs(m, simultaneous=True))
        if x.free_symbols - {k, NG}:
            raise AnalysisError(f"index {e} along axis {d}")
        a, b = x.coeff(k), x.coeff(NG)
        c = sp.expand(x - a * k - b * NG)
        if not (a.is_Rational and b.is_Rational and c.is_Rational):
            raise AnalysisError(f"index {e} along axis {d}")
        return a, b, c

    e = sp.sympify(e)
    for f in e.atoms(Fd):
        nm = f.func.__name__
        if nm not in ("int_", "idiv"):
            raise AnalysisError(f"index {e} along axis {d}")
        v = f.args[0] if nm == "int_" else f.args[0] / f.args[1]
        a, b, c = lin(sp.sympify(v))
        if not (a.is_Integer and b.is_Integer):
            raise AnalysisError(f"rounding of {v} along axis {d}")
        e = e.subs(f, a * k + b * NG + sp.floor(c))
    return lin(e)


def fraction(e, d):
    """the multiple of a quarter of the coordinate range the point with this index is nearest to:
    (fraction, largest distance in cells) for even extents; None if no such fraction"""
    best = None
    for f in FRAC:
        worst = sp.Integer(0)
        for r in (0, 2):
            a, b, c = truncated(e, d, r)
            # continuous index of the target: NGHOSTS - 1/2 + f*N
            if a != 4 * f or b != 1:
                worst = None
                break
            worst = max(worst, abs(c - (f * r - sp.Rational(1, 2))))
        if worst is not None and (best is None or worst < best[1]):
            best = (f, worst)
    return best


def inside(e, d):
    """index lies in the interior for every extent of at least two points"""
    for r in range(4):
        a, b, c = truncated(e, d, r)
        k0 = 0 if r >= 2 else 1
        lo = (a, b - 1, c)  # minus NGHOSTS
        hi = (4 - a, 1 - b, r - 1 - c)  # NGHOSTS + N - 1 minus index
        for A, B, C in (lo, hi):
            if B != 0 or A < 0 or A * k0 + C < 0:
                return False
    return True


# ---------------------------------------------------------------- what a routine outputs
def flat(p):
    return p[0] + S("Nxx_plus_2NGHOSTS0") * (p[1] + S("Nxx_plus_2NGHOSTS1") * p[2])


def full(ce, arr, d):
    """arr[t] = NGHOSTS + t for every interior point of axis d"""
    st = [e for e in ce.events if e.kind == "store" and e.base == arr and len(e.path) == 1]
    if len(st) != 1:
        return False
    e = st[0]
    try:
        L = p25.Loops(e, "t", sp.expand)
    except AnalysisError:
        return False
    if len(L.trip) != 1:
        return False
    (t, n), = L.trip.items()
    ix, v = L.of(e.path[0][1]), L.of(e.val)
    return sp.expand(v - ix - NG) == 0 and sp.expand(bare(n) - S(f"Nxx{d}")) == 0 and dist.exact_cover(bare(ix), {t: S(f"Nxx{d}")}, S(f"Nxx{d}")) is None


def direct(x, e, d):
    """x is a loop variable running over the interior"""
    for f in e.ctx:
        if f[0] == "for" and S(f[1]) in sp.sympify(x).free_symbols:
            L = p25.Loops(e, "t", sp.expand)
            y = L.of(x)
            ts = [t for t in L.trip if t in y.free_symbols]
            return len(ts) == 1 and sp.expand(bare(y) - NG - ts[0]) == 0 and sp.expand(bare(L.trip[ts[0]]) - S(f"Nxx{d}")) == 0
    return False


def judge(ctx, C, M, what, ce, rows, none_ok):
    comps, dim = SLICE[what]
    pts = rows
    if not pts:
        if none_ok:
            ctx.ok("points")
        else:
            ctx.violation("points", C, f"no point of the {what} slice is output")
        return
    sel = {0: [], 1: [], 2: []}
    tuples = []
    for e, p in pts:
        row = []
        for d in range(3):
            x = sp.sympify(p[d])
            fs = [f for f in x.atoms(Fd) if f.func.__name__.endswith("_pts")]
            loops = {S(f[1]) for f in e.ctx if f[0] == "for"}
            if fs:
                if len(fs) != 1 or x != fs[0]:
                    raise AnalysisError(f"index {x}")
                arr = fs[0].func.__name__
                a = fs[0].args[0]
                L = p25.Loops(e, "t", sp.expand)
                y = L.of(a)
                if not full(ce, arr, d) or y not in L.trip or sp.expand(bare(L.trip[y]) - S(f"Nxx{d}")) != 0:
                    ctx.violation("points", C, f"axis {d}: {arr} does not run over all interior points")
                    return
                row.append("all")
            elif x.free_symbols & loops:
                if not direct(x, e, d):
                    ctx.violation("points", C, f"axis {d}: {x} does not run over all interior points")
                    return
                row.append("all")
            else:
                alien = [q.name for q in x.free_symbols if re.fullmatch(r"Nxx(?:_plus_2NGHOSTS)?[^_\W]?", q.name) and not q.name.endswith(str(d))]
                if alien:
                    ctx.violation("points", C, f"axis {d}: index {x} depends on the extent {alien[0]} of another axis")
                    return
                fr = fraction(x, d)
                if fr is None or fr[1] > sp.Rational(1, 2):
                    ctx.violation("points", C, f"axis {d}: index {x} is not within half a cell of the slice" + ("" if fr is None else f" (off by up to {fr[1]} cells)"))
                    return
                if not inside(x, d):
                    ctx.violation("points", C, f"axis {d}: index {x} lies outside the interior for some extents")
                    return
                row.append(fr[0])
            sel[d].append(row[-1])
        tuples.append(tuple(row))
    if len(set(tuples)) != len(tuples):
        ctx.violation("points", C, f"points are output twice: {tuples}")
        return
    lists = [sorted(set(sel[d]), key=str) for d in range(3)]
    if set(itertools.product(*lists)) != set(tuples):
        ctx.violation("points", C, f"selected points {tuples} are not a product of per-axis choices")
        return
    free = [d for d in range(3) if lists[d] == ["all"]]
    if any("all" in l and len(l) > 1 for l in lists):
        ctx.violation("points", C, f"axis with mixed selections {lists}")
        return
    if len(free) != dim:
        ctx.violation("points", C, f"the {what} slice has dimension {dim}, points vary along axes {free}")
        return
    fixed = [d for d in range(3) if d not in free]
    for row in itertools.product(*[lists[d] for d in fixed]):
        if not M.vanish(comps, dict(zip(fixed, row))):
            bad = [f"{'xyz'[c]} = {sp.simplify(M.cart[c].subs({M.x[d]: M.at(d, f) for d, f in zip(fixed, row)}, simultaneous=True))}" for c in comps]
            ctx.violation("points", C, f"points at {[f'xx{d} = {M.at(d, f)}' for d, f in zip(fixed, row)]} are not on the {what} slice of {M.name}: {', '.join(bad)}")
            return
    # the remaining coordinates move along the slice
    inn = [c for c in range(3) if c not in comps]
    if inn:
        m = {M.x[d]: M.at(d, lists[d][0]) for d in fixed}
        J = sp.Matrix(len(inn), len(free), lambda i, j: sp.diff(M.cart[inn[i]], M.x[free[j]]).subs(m, simultaneous=True))
        if J.shape[0] == J.shape[1] and is_zero(J[0, 0] if J.shape[0] == 1 else J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]):
            ctx.violation("points", C, f"the points vary along xx{free}, which does not move along the {what} slice of {M.name}: the slice is not covered")
            return
    # nothing missing: with the other choices held, every fraction on the slice is selected
    for d in fixed:
        others = [q for q in fixed if q != d]
        for row in itertools.product(*[lists[q] for q in others]):
            V = [f for f in FRAC if M.vanish(comps, {**dict(zip(others, row)), d: f})]
            if len(V) == len(FRAC):
                if len(lists[d]) != 1:
                    ctx.violation("points", C, f"axis {d} does not move points off the slice, yet {len(lists[d])} copies are output")
                    return
            elif set(V) != set(lists[d]):
                ctx.violation("points", C, f"axis {d}: the slice is at {[str(M.at(d, f)) for f in V]}, selected are {[str(M.at(d, f)) for f in lists[d]]}")
                return
    ctx.ok("points")
    ctx.sample(f"{C}: {lists}")


# ---------------------------------------------------------------- single-process back end
def body_of(fn, **k):
    r = p25.registered(fn, **k)
    if len(r) != 1:
        raise AnalysisError(f"{fn}: {len(r)} functions")
    return next(iter(r.values()))


def prints(ce):
    return [e for e in ce.events if e.kind == "call" and e.name == "fprintf" and str(e.args[0]) != "stderr"]


def row_of(ctx, C, args, want_lead, lead_ok, nq=2):
    fmt, vals = str(args[1]), list(args[2:])
    conv = re.findall(r"%(?:[-+ #0]*\d*(?:\.\d+)?)([a-zA-Z])", fmt)
    if len(conv) != len(vals) or len(vals) != want_lead + nq:
        ctx.violation("columns", C, f"{len(conv)} columns in the format, {len(vals)} values, expected {want_lead + nq}")
        return None
    if conv[want_lead:] != ["e", "d"] or set(conv[:want_lead]) - {"e", "f", "g"}:
        ctx.violation("columns", C, f"format {fmt} does not print the coordinates and a REAL as numbers with exponent and an int as integer")
        return None
    if not fmt.strip('"').endswith("\\n"):
        ctx.violation("columns", C, f"format {fmt}: rows do not end with a line break")
        return None
    if not lead_ok(vals[:want_lead]):
        ctx.violation("columns", C, f"leading columns are {vals[:want_lead]}")
        return None
    return vals[want_lead:]


def quantity(ctx, C, v, name, gf):
    v = sp.sympify(v)
    if not isinstance(v, Fd) or not v.func.__name__.endswith(name):
        ctx.violation("columns", C, f"column of {name} shows {v}")
        return None
    ix = field_index(v.args[0], gf)
    if ix is None:
        ctx.violation("columns", C, f"column of {name} shows {v}")
    return ix


def preceding(ce, e, test):
    last = None
    for x in ce.events:
        if x is e:
            break
        if test(x):
            last = x
    return last


def coords_of(ctx, C, ce, e, idx):
    """the point xCart was set for; it must be the one of the flattened index"""
    c = preceding(ce, e, lambda x: x.kind == "call" and x.name == "xx_to_Cart" and str(x.args[-1]) == "xCart")
    if c is None or c.ctx != e.ctx:
        ctx.violation("columns", C, "the coordinates printed are not set for the point printed")
        return None
    p = tuple(bare(sp.sympify(a)) for a in c.args[3:6])
    if sp.expand(flat(p) - bare(idx)) != 0:
        ctx.violation("columns", C, f"the coordinates printed are those of {[str(a) for a in p]}, the values those of index {idx}")
        return None
    return p


def single(ctx, M, what):
    s = M.name
    if what == "centre":
        fn, kw = f"{BH}:register_CFunction_diagnostics_nearest_grid_center", {}
    elif len(what) == 1:
        fn, kw = f"{BH}:register_CFunction_diagnostics_nearest_1d_axis", {"axis": what}
    else:
        fn, kw = f"{BH}:register_CFunction_diagnostics_nearest_2d_plane", {"plane": what}
    C = f"{fn.replace('.', '/').replace(':', '.py:')}|{what}|{s}"
    a = body_of(fn, CoordSystem=s, out_quantities_dict=dict(QUANT), **kw)
    fnm, ob = dist.superB_h()
    ce = dist.run(p25.T(a["body"]), fn=fnm, ob=ob)
    rows, ok = [], True
    pr = prints(ce)
    if what == "centre":
        if len(pr) != 1:
            raise AnalysisError(f"{len(pr)} rows")
        v = row_of(ctx, C, pr[0].args, 1, lambda l: str(l[0]) in ("time", "commondata[0].time"))
        if v is None:
            return
        ix = [quantity(ctx, C, x, n, g) for x, n, g in zip(v, ("GFA", "GFB"), ("QAGF", "QBGF"))]
        if None in ix:
            return
        p = decode(ix[0])
        if p is None:
            raise AnalysisError(f"index {ix[0]} is not that of a grid point")
        rows = [(pr[0], p)]
        ok = ix[0] == ix[1]
    elif len(what) == 2:
        lead = [f"xCart[{'xyz'.index(c)}]" for c in what]
        for e in pr:
            v = row_of(ctx, C, e.args, 2, lambda l: [str(x) for x in l] == lead)
            if v is None:
                return
            ix = [quantity(ctx, C, x, n, g) for x, n, g in zip(v, ("GFA", "GFB"), ("QAGF", "QBGF"))]
            if None in ix:
                return
            p = coords_of(ctx, C, ce, e, ix[0])
            if p is None:
                return
            ok = ok and ix[0] == ix[1]
            rows.append((e, p))
    else:
        rows = axis_rows(ctx, C, ce, pr, a, what)
        if rows is None:
            return
    if not ok:
        ctx.violation("columns", C, "columns of one row belong to different points")
        return
    ctx.ok("columns")
    none_ok = ("Wedge" in s and what == "y") or ("Ring" in s and what == "z")
    if what == "centre" and ("Holey" in s or "Wedge" in s):
        return
    judge(ctx, C, M, what, ce, rows, none_ok)


def axis_rows(ctx, C, ce, pr, a, what):
    """records stored, sorted along the axis, then printed"""
    st = [e for e in ce.events if e.kind == "store" and len(e.path) == 1 and e.path[0][0] == "i" and isinstance(e.val, sp.Symbol) and e.base in {str(x.args[0]) for x in ce.events if x.kind == "call" and x.name == "qsort"}]
    rows, nums = [], []
    for e in st:
        rec = str(e.val)
        get = lambda m: preceding(ce, e, lambda x: x.kind == "store" and x.key == f"{rec}.{m}")
        ax, qa, qb = get("xCart_axis"), get("qa"), get("qb")
        if ax is None or qa is None or qb is None or {ax.ctx, qa.ctx, qb.ctx} != {e.ctx}:
            ctx.violation("columns", C, "a record is stored without its coordinate or values")
            return None
        if str(ax.val) != f"xCart[{'xyz'.index(what)}]":
            ctx.violation("columns", C, f"coordinate along the {what} axis is {ax.val}")
            return None
        ix = [quantity(ctx, C, x.val, n, g) for x, n, g in ((qa, "GFA", "QAGF"), (qb, "GFB", "QBGF"))]
        if None in ix:
            return None
        if ix[0] != ix[1]:
            ctx.violation("columns", C, "values of one record belong to different points")
            return None
        p = coords_of(ctx, C, ce, ax, ix[0])
        if p is None:
            return None
        rows.append((e, p))
        nums.append(e)
    # the records are numbered without gaps
    q = [e for e in ce.events if e.kind == "call" and e.name == "qsort"]
    if not rows and len(q) == 1 and q[0].args[1] == 0 and not pr:
        return rows
    if len(q) != 1 or len(pr) != 1:
        raise AnalysisError(f"{len(q)} sorts, {len(pr)} prints")
    total = sp.sympify(q[0].args[1])
    if rows:
        bad = cover(nums, total)
        if bad:
            ctx.violation("rows", C, f"records are lost or overwritten: {bad}")
            return None
    arr = str(q[0].args[0])
    f = [x for x in pr[0].ctx if x[0] == "for"]
    if rows:
        if len(f) != 1 or f[0][2] != 0 or sp.expand(f[0][3] - total) != 0 or f[0][4] != 1:
            ctx.violation("rows", C, f"{total} records are stored, printed are {f[0][2:] if f else 'one'}")
            return None
        i = f[0][1]
        v = row_of(ctx, C, pr[0].args, 1, lambda l: str(l[0]) == f"{arr}[{i}].xCart_axis")
        if v is None:
            return None
        if [str(x) for x in v] != [f"{arr}[{i}].qa", f"{arr}[{i}].qb"]:
            ctx.violation("columns", C, f"columns {v}")
            return None
    pre = p25.T(a["prefunc"]) if a.get("prefunc") is not None else ""
    order(ctx, C, pre)
    ctx.ok("rows")
    return rows


def cover(evs, total):
    Ls = [p25.Loops(e, "t", sp.expand) for e in evs]
    nums = [L.of(e.path[0][1]) for e, L in zip(evs, Ls)]
    if any(L.trip != Ls[0].trip for L in Ls):
        raise AnalysisError("records stored in different loops")
    trip, x = dict(Ls[0].trip), nums[0]
    if len(nums) > 1:
        d = sp.expand(nums[1] - nums[0])
        if any(sp.expand(y - nums[0] - i * d) != 0 for i, y in enumerate(nums)):
            return f"record numbers {nums}"
        u = S("unrolled_")
        trip[u] = sp.Integer(len(nums))
        x = sp.expand(x + d * u)
    return dist.exact_cover(x, trip, sp.expand(total))


def order(ctx, C, pre):
    """the comparison function orders by the coordinate, ascending"""
    m = re.search(r"int\s+compare\s*\(\s*const\s+void\s*\*\s*(\w+)\s*,\s*const\s+void\s*\*\s*(\w+)\s*\)\s*\{(.*?)\n\}", pre, re.S)
    if not m:
        raise AnalysisError("comparison function not found")
    a, b, t = m[1], m[2], re.sub(r"//[^\n]*", "", m[3])
    val = {}
    for n, e in re.findall(r"(?:const\s+)?REAL\s+(\w+)\s*=\s*([^;]*);", t):
        q = re.fullmatch(r"\(\s*\(\s*(?:const\s+)?data_point_1d_struct\s*\*\s*\)\s*(\w+)\s*\)\s*->\s*xCart_axis", e.strip())
        if not q:
            raise AnalysisError(f"comparison value {e}")
        val[n] = q[1]
    r = re.search(r"return\s+([^;]*);", t)
    if not r or len(re.findall(r"\breturn\b", t)) != 1:
        raise AnalysisError("comparison result")
    e = r[1]
    for x, y, want in ((0, 1, -1), (1, 0, 1), (1, 1, 0)):
        sub = e
        for n, p in val.items():
            sub = re.sub(rf"\b{n}\b", str(x if p == a else y), sub)
        try:
            got = c_value(sub)
        except ValueError:
            raise AnalysisError(f"comparison result {e}") from None
        if (got > 0) - (got < 0) != want:
            ctx.violation("rows", f"{C}|order", f"sorting uses {e}: not ascending along the axis")
            return


def c_value(t):
    """integer comparison expression over constants"""
    import ast

    n = ast.parse(t.strip(), mode="eval").body

    def ev(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return n.value
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Add)):
            return ev(n.left) - ev(n.right) if isinstance(n.op, ast.Sub) else ev(n.left) + ev(n.right)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            x, y = ev(n.left), ev(n.comparators[0])
            return int({ast.Gt: x > y, ast.Lt: x < y, ast.GtE: x >= y, ast.LtE: x <= y, ast.Eq: x == y, ast.NotEq: x != y}[type(n.ops[0])])
        raise ValueError(t)

    return ev(n)


# ---------------------------------------------------------------- distributed back end
def distributed(ctx, M, what):
    s = M.name
    dim, kw = ("1d", "axis") if len(what) == 1 else ("2d", "plane")
    fn = f"{SB}:register_CFunction_diagnostics_set_up_nearest_{dim}_{kw}"
    C = f"{fn.replace('.', '/').replace(':', '.py:')}|{what}|{s}"
    a = body_of(fn, CoordSystem=s, out_quantities_dict=dict(QUANT), **{kw: what})
    fnm, ob = dist.superB_h()
    ce = dist.run(p25.T(a["body"]), fn=fnm, ob=ob)
    rows = []
    if dim == "2d":
        for e in ce.events:
            if e.kind == "store" and f".localidx3_diagnostic_2d_{what}_pt[" in e.key:
                v = sp.sympify(e.val)
                if not isinstance(v, Fd) or not v.func.__name__.endswith("globalidx3pt_to_localidx3pt"):
                    raise AnalysisError(f"local index {v}")
                loc = [preceding(ce, None, lambda x: x.kind == "store" and f".locali{d}_diagnostic_2d_{what}_pt[" in x.key and x.path[-1] == e.path[-1] and x.ctx == e.ctx) for d in range(3)]
                if None in loc:
                    raise AnalysisError("local indices of a point not found")
                p = tuple(bare(sp.expand(loc[d].val + S(f"chare_index[{d}]") * S(f"params_chare[0].Nxx{d}"))) for d in range(3))
                if sp.expand(flat(p) - bare(v.args[0])) != 0:
                    ctx.violation("columns", C, f"local indices {[str(x.val) for x in loc]} are not those of the point {v.args[0]}")
                    return
                rows.append((e, p))
    else:
        q = [e for e in ce.events if e.kind == "call" and e.name == "qsort"]
        if len(q) != 1:
            raise AnalysisError(f"{len(q)} sorts")
        arr = str(q[0].args[0])
        st = [e for e in ce.events if e.kind == "store" and e.base == arr and len(e.path) == 1 and isinstance(e.val, sp.Symbol)]
        n0, n1 = (S(f"Nxx_plus_2NGHOSTS{d}") for d in (0, 1))
        for e in st:
            get = lambda m: preceding(ce, e, lambda x: x.kind == "store" and x.key == f"{e.val}.{m}")
            i = [get(f"i{d}") for d in range(3)]
            ax = get("xCart_axis")
            if None in i or ax is None or {x.ctx for x in i + [ax]} != {e.ctx}:
                ctx.violation("columns", C, "a record is stored without its point or coordinate")
                return
            ix = bare(i[0].val) + n0 * (bare(i[1].val) + n1 * bare(i[2].val))
            if str(ax.val) != f"xCart[{'xyz'.index(what)}]":
                ctx.violation("columns", C, f"coordinate along the {what} axis is {ax.val}")
                return
            p = coords_of(ctx, C, ce, ax, ix)
            if p is None:
                return
            rows.append((e, p))
        if st:
            bad = cover(st, sp.sympify(q[0].args[1]))
            if bad:
                ctx.violation("rows", C, f"records are lost or overwritten: {bad}")
                return
        order(ctx, C, p25.T(a["prefunc"]))
        ctx.ok("rows")
    judge(ctx, C, M, what, ce, rows, "Ring" in s and what == "z")


def run(ctx):
    ctx.rule("points", "the points of a slice lie within half a cell of it (even extents), inside the grid, each once, and cover all of it")
    ctx.rule("columns", "a row shows the coordinates and the quantities of one and the same point, in the order of the quantities, with matching conversions")
    ctx.rule("rows", "axis records are stored without gaps, sorted ascending along the axis, all printed")
    for s in SYS:
        box = {}

        def mk(s=s):
            box["m"] = Metric(s)

        ctx.attempt(f"coordinate map {s}", mk)
        if "m" not in box:
            continue
        for w in ("y", "z", "xy", "yz", "centre"):
            if w == "centre" and "Wedge" in s:
                continue
            ctx.attempt(f"{w} {s}", single, ctx, box["m"], w)
            if w != "centre" and "Wedge" not in s:
                ctx.attempt(f"distributed {w} {s}", distributed, ctx, box["m"], w)
    ctx.floor("points", 80)
    ctx.floor("columns", 50)
