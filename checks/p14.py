"""P14: tensor helpers are exact."""

import itertools
import re

import sympy as sp

from sa import closed, templates
from sa.absint import AnalysisError

IX = "nrpy.indexedexp"


def one(I, entry, what):
    trs = I.run(entry)
    if len(trs) != 1:
        raise AnalysisError(f"{what}: result is not determined ({[t.cond() for t in trs][:2]})")
    return trs[0].outcome


# ------------------------------------------------------------------------------ inverses
def poly_zero(e):
    e = sp.sympify(e)
    n, _ = sp.fraction(sp.together(e))
    return sp.expand(n) == 0


def inverse(ctx, kind, n):
    name = f"{kind}_matrix_inverter{n}x{n}"
    a = [[sp.Symbol(f"a{min(i, j)}{max(i, j)}" if kind == "symm" else f"a{i}{j}") for j in range(n)] for i in range(n)]
    out = one(closed.make(max_paths=4), lambda I: closed.call(I, f"{IX}:{name}", [list(r) for r in a]), name)
    if out[0] != "return":
        ctx.violation("inverse", name, f"raises {out[1]} for a matrix of independent symbols")
        return
    inv, det = out[1]
    ctx.ok("determinant")
    true = sp.Matrix(a).det(method="berkowitz")
    if sp.expand(sp.sympify(det) - true) != 0:
        ctx.violation("determinant", name, "returned determinant differs from the determinant of the input")
    # entries are polynomials over the determinant: compare numerators when the denominators agree
    adj = sp.Matrix(a).adjugate()
    for i in range(n):
        for j in range(n):
            ctx.ok("inverse")
            num, den = sp.fraction(sp.together(sp.sympify(inv[i][j])))
            if sp.expand(num * true - adj[i, j] * den) != 0:
                ctx.violation("inverse", f"{name}[{i}][{j}]", f"component ({i},{j}) times the input does not give the identity")
    # singular input is refused
    z = [[sp.Integer(0)] * n for _ in range(n)]
    o2 = one(closed.make(max_paths=4), lambda I: closed.call(I, f"{IX}:{name}", z), name)
    ctx.ok("singular")
    if o2[0] != "raise":
        ctx.violation("singular", name, "a singular matrix does not raise")


def levi(ctx):
    o = one(closed.make(max_paths=4), lambda I: closed.call(I, f"{IX}:LeviCivitaSymbol_dim3_rank3"), "LeviCivita")
    s = sp.Symbol("s")
    u = one(closed.make(max_paths=4), lambda I: closed.call(I, f"{IX}:LeviCivitaTensorUUU_dim3_rank3", s), "LeviCivitaUUU")
    d = one(closed.make(max_paths=4), lambda I: closed.call(I, f"{IX}:LeviCivitaTensorDDD_dim3_rank3", s), "LeviCivitaDDD")
    for nm, r, f in (("LeviCivitaSymbol_dim3_rank3", o, 1), ("LeviCivitaTensorUUU_dim3_rank3", u, 1 / s), ("LeviCivitaTensorDDD_dim3_rank3", d, s)):
        if r[0] != "return":
            ctx.violation("permutation symbol", nm, f"raises {r[1]}")
            continue
        for i, j, k in itertools.product(range(3), repeat=3):
            ctx.ok("permutation symbol")
            want = sp.LeviCivita(i, j, k) * f
            if sp.simplify(sp.sympify(r[1][i][j][k]) - want) != 0:
                ctx.violation("permutation symbol", f"{nm}[{i}][{j}][{k}]", f"is {r[1][i][j][k]}, must be {want}")


# ------------------------------------------------------------------------------ symmetries
def gens(sym):
    """signed transpositions of index slots"""
    out = []
    for s in sym.split("_"):
        if s == "nosym":
            continue
        sg = 1 if s.startswith("sym") else -1
        slots = [int(c) for c in re.sub(r"\D", "", s)]
        for a, b in zip(slots, slots[1:]):
            out.append((a, b, sg))
    return out


def orbits(rank, dim, sym):
    """{index: (orbit id, sign or 0)}"""
    g = gens(sym)
    res = {}
    n = 0
    for idx in itertools.product(range(dim), repeat=rank):
        if idx in res:
            continue
        seen = {idx: {1}}
        work = [(idx, 1)]
        while work:
            x, s = work.pop()
            for a, b, sg in g:
                y = list(x)
                y[a], y[b] = y[b], y[a]
                y = tuple(y)
                if s * sg not in seen.setdefault(y, set()):
                    seen[y].add(s * sg)
                    work.append((y, s * sg))
        zero = any(len(v) == 2 for v in seen.values())
        for y, v in seen.items():
            res[y] = (n, 0 if zero else next(iter(v)))
        n += 1
    return res


def get(t, idx):
    for i in idx:
        t = t[i]
    return t


def symmetry(ctx, rank, dim, sym):
    tag = f"rank {rank} dimension {dim} {sym}"
    base = "T" + "D" * rank
    out = one(closed.make(max_paths=4, max_steps=9_000_000), lambda I: closed.call(I, f"{IX}:declarerank{rank}", base, symmetry=sym, dimension=dim), tag)
    if out[0] != "return":
        ctx.violation("symmetry", tag, f"declaring it raises {out[1]} {getattr(out[1], 'args', '')}")
        return
    judge(ctx, tag, out[1], base, rank, dim, sym)


def judge(ctx, tag, t, base, rank, dim, sym, zero=lambda idx: False):
    orb = orbits(rank, dim, sym)
    rep = {}
    for idx, (o, sg) in orb.items():
        v = sp.sympify(get(t, idx))
        ctx.ok("symmetry")
        if sg == 0 or zero(idx):
            if v != 0:
                ctx.violation("symmetry", tag, f"component {idx} must vanish, is {v}")
                return
            continue
        syms = list(v.free_symbols)
        if len(syms) != 1 or v not in (syms[0], -syms[0]):
            ctx.violation("symmetry", tag, f"component {idx} is {v}, must be plus or minus one symbol")
            return
        m = re.fullmatch(rf"{re.escape(base)}(\d{{{rank}}})", str(syms[0]))
        home = tuple(int(c) for c in m.group(1)) if m else None
        if home is None or orb.get(home, (None,))[0] != o:
            ctx.violation("symmetry", tag, f"component {idx} is named {v}, which is not one of the components it equals")
            return
        val = v * sg
        if o in rep and sp.expand(rep[o][1] - val) != 0:
            ctx.violation("symmetry", tag, f"components {rep[o][0]} and {idx} must be equal up to sign, are {rep[o][1]} and {val}")
            return
        rep.setdefault(o, (idx, val))
        # the component that gives the symbol its name carries it unsigned
        if home == idx and v != syms[0]:
            ctx.violation("symmetry", tag, f"component {idx} is {v}")
            return


def reject(ctx):
    for rank, sym in ((2, "sym02"), (2, "sym12"), (3, "sym03"), (3, "sym23"), (4, "sym04"), (2, "foo"), (3, "bar01"), (1, "sym01"), (2, "symm")):
        I = closed.make(max_paths=4, max_steps=9_000_000)
        trs = I.run(lambda I: closed.call(I, f"{IX}:declarerank{rank}", "T", symmetry=sym))
        ctx.ok("unknown symmetry")
        if any(t.outcome[0] == "return" for t in trs):
            ctx.violation("unknown symmetry", f"rank {rank} {sym}", f"symmetry '{sym}' of a rank-{rank} object is accepted")
    for rank in (0, 5):
        I = closed.make(max_paths=4)
        trs = I.run(lambda I: closed.call(I, f"{IX}:declare_indexedexp", "T", rank=rank))
        ctx.ok("unknown symmetry")
        if any(t.outcome[0] == "return" for t in trs):
            ctx.violation("unknown symmetry", f"rank {rank}", f"rank {rank} is accepted")


def zeros(ctx):
    for rank in (1, 2, 3, 4):
        for dim in (2, 3, 4) if rank < 4 else (3,):
            o = one(closed.make(max_paths=4), lambda I: closed.call(I, f"{IX}:zerorank{rank}", dim), f"zerorank{rank}")
            ok = o[0] == "return"
            cells = []

            def walk(x, d):
                if d == 0:
                    cells.append(x)
                    return True
                return isinstance(x, list) and len(x) == dim and all(walk(y, d - 1) for y in x)

            def distinct(x, d, ids):
                if d == 0:
                    return True
                if id(x) in ids:
                    return False
                ids.add(id(x))
                return all(distinct(y, d - 1, ids) for y in x)

            ctx.ok("zero object")
            if not ok or not walk(o[1], rank) or any(sp.sympify(c) != 0 for c in cells):
                ctx.violation("zero object", f"zerorank{rank}({dim})", "is not an all-zero object of that shape")
            elif not distinct(o[1], rank, set()):
                ctx.violation("zero object", f"zerorank{rank}({dim})", "rows share storage: setting one component sets others")


def axes(ctx, rank, ax):
    """derivatives across a declared symmetry axis vanish, nothing else"""
    cases = {1: [("f_dD", 1, "nosym")], 2: [("vU_dD", 1, "nosym"), ("f_dDD", 2, "sym01"), ("gDD", 0, "sym01")], 3: [("gDD_dD", 1, "sym01"), ("gDD_dKOD", 1, "sym01"), ("gDD_dupD", 1, "sym01"), ("vU_dDD", 2, "sym12")], 4: [("gDD_dDD", 2, "sym01_sym23")]}[rank]
    for base, nd, sym in cases:
        tag = f"{base} axes '{ax}'"

        def entry(I):
            I.module(IX)
            closed.call(I, "nrpy.params:set_parval_from_str", "symmetry_axes", ax)
            return closed.call(I, f"{IX}:declarerank{rank}", base, symmetry=sym)

        o = one(closed.make(max_paths=4, max_steps=9_000_000), entry, tag)
        if o[0] != "return":
            ctx.violation("symmetry axis", tag, f"raises {o[1]} {getattr(o[1], 'args', '')}")
            continue
        orb = orbits(rank, 3, sym)
        for idx, (k, sg) in orb.items():
            ctx.ok("symmetry axis")
            v = sp.sympify(get(o[1], idx))
            must = nd > 0 and any(str(i) in ax for i in idx[rank - nd :])
            if must != (v == 0):
                ctx.violation("symmetry axis", tag, f"component {idx} is {v}" + (" but differentiates across a symmetry axis" if must else " although no derivative crosses a symmetry axis"))
                break


SYMS = {
    2: ["nosym", "sym01", "anti01"],
    3: ["nosym", "sym01", "sym02", "sym12", "anti01", "anti02", "anti12", "sym012", "anti012"],
    4: ["nosym"]
    + [f"{k}{a}{b}" for k in ("sym", "anti") for a in range(4) for b in range(a + 1, 4)]
    + [f"{k}{s}" for k in ("sym", "anti") for s in ("012", "013", "023", "123", "0123")]
    + [f"{k}01_{l}23" for k in ("sym", "anti") for l in ("sym", "anti")]
    + ["sym02_sym13", "anti02_anti13", "sym03_sym12", "sym01_anti23"],
}


def job(args):
    from sa.framework import Ctx

    c = Ctx("P14", "quick", 1)
    err = None
    try:
        k, a = args
        {"inv": inverse, "sym": symmetry, "levi": lambda c: levi(c), "rej": lambda c: reject(c), "zero": lambda c: zeros(c), "ax": axes}[k](c, *a)
    except AnalysisError as e:
        err = f"{args}: {e}"
    return c.violations, c.counts, err


def run(ctx):
    ctx.rule("inverse", "each component of the returned matrix equals the adjugate over the determinant, as rational functions of independent symbols")
    ctx.rule("determinant", "the returned determinant is that of the input")
    ctx.rule("singular", "a matrix of determinant zero raises")
    ctx.rule("permutation symbol", "all 27 components of the symbol and of both tensors")
    ctx.rule("symmetry", "components are identified exactly as the group generated by the declared symmetry prescribes, with its signs")
    ctx.rule("unknown symmetry", "symmetries or ranks that are not supported raise")
    ctx.rule("zero object", "zero objects have the requested shape and unshared rows")
    ctx.rule("symmetry axis", "exactly the derivative components across a symmetry axis vanish")
    jobs = [("inv", (k, n)) for k in ("symm", "generic") for n in (4, 3, 2)]
    jobs += [("levi", ()), ("rej", ()), ("zero", ())]
    for r, ss in SYMS.items():
        for s in ss:
            jobs.append(("sym", (r, 3, s)))
            if r < 4 or ctx.thorough:
                jobs.append(("sym", (r, 4, s)))
            if ctx.thorough:
                jobs.append(("sym", (r, 2, s)))
    for r in (1, 2, 3, 4):
        for ax in ("0", "1", "2", "12", "02"):
            if r == 4 and not ctx.thorough and ax not in ("1", "12"):
                continue
            jobs.append(("ax", (r, ax)))
    templates.prog()
    import multiprocessing as mp

    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(job, jobs, chunksize=1)
    errs = []
    for v, c, e in res:
        for k, m in v.items():
            ctx.violations.setdefault(k, m)
        ctx.counts.update(c)
        if e:
            errs.append(e)
    if errs:
        raise AnalysisError("; ".join(errs[:3]))
    for j in jobs[:40]:
        ctx.sample(str(j))
    ctx.floor("inverse", 58)
    ctx.floor("symmetry", 1000)
