"""P16: generated grid loops visit exactly the requested region, once per point."""

import itertools
import re

import sympy as sp

from sa import cflow, closed, ctext, rfm, templates
from sa.absint import AnalysisError
from sa.cflow import expr, for_info, strip, text

S = sp.Symbol
NG = S("NGHOSTS")
SENT = "BODY_SENTINEL(i0, i1, i2);"


class Und(Exception):
    pass


def canon(e):
    """Nxx_plus_2NGHOSTSd = Nxxd + 2*NGHOSTS"""
    return sp.expand(sp.sympify(e).subs({S(f"Nxx_plus_2NGHOSTS{d}"): S(f"Nxx{d}") + 2 * NG for d in range(3)}))


def nest(stmts, env=None):
    """(loops from the outside in, [pragmas], declarations seen at each level, innermost statement list)
    for code whose only control structure is one loop nest around the sentinel"""
    loops, prag, decls = [], [], []
    cur = stmts
    while True:
        here, inner, pr = [], None, None
        for s in cur:
            if s.k == "pragma":
                pr = s
            elif s.k == "for":
                if any(True for _ in cflow.calls(s, ("BODY_SENTINEL",))):
                    if inner is not None:
                        raise Und("body appears in two loops")
                    inner = s
                else:
                    raise Und("loop without the body")
            elif s.k == "block":
                if any(True for _ in cflow.calls(s, ("BODY_SENTINEL",))):
                    if inner is not None:
                        raise Und("body appears twice")
                    inner = s
            else:
                here.append(s)
        decls.append(here)
        if inner is None:
            return loops, prag, decls, cur
        if inner.k == "for":
            loops.append(inner)
            prag.append(pr)
        else:
            prag.append(None) if False else None
            if inner.k == "block":
                decls[-1] = here
        b = inner.body
        cur = b if isinstance(b, list) else [b]


def text_of_pragma(p):
    return " ".join(getattr(p, "toks", [])) if p is not None and "toks" in p._d else (p.text if p is not None and "text" in p._d else str(p._d) if p is not None else "")


def region(r, infra):
    out = {}
    for d in range(3):
        if infra == "ET":
            lsh, g = S(f"cctk_lsh[{d}]"), S(f"cctk_nghostzones[{d}]")
            out[d] = (sp.Integer(0), lsh) if r == "all points" else (g, lsh - g)
        else:
            n = S(f"Nxx{d}")
            out[d] = {"all points": (sp.Integer(0), n + 2 * NG), "interior": (NG, NG + n), "interior plus one upper": (NG, NG + n + 1)}[r]
    return out


def judge_nest(ctx, where, code, want, simd, collapse, omp, vars_=("i0", "i1", "i2")):
    t = re.sub(r"//[^\n]*", "", code)
    ast = ctext.parse(t)[0]
    loops, prag, decls, inner = nest(ast)
    infos = []
    for l in loops:
        fi = for_info(l)
        if fi is None:
            ctx.violation("region", where, "a loop of the nest has no recognisable bounds")
            return None
        infos.append(fi)
    got = {}
    for v, lo, hi, st in infos:
        if v in got:
            ctx.violation("region", where, f"two loops over {v}: points are visited more than once")
            return None
        got[v] = (canon(lo), canon(hi), st)
    ctx.ok("region", 3)
    for d, v in enumerate(vars_):
        if v not in got:
            ctx.violation("region", where, f"no loop over {v}")
            continue
        lo, hi, st = got[v]
        wlo, whi = want[d]
        wst = S("simd_width") if simd and d == 0 else sp.Integer(1)
        if sp.expand(lo - wlo) != 0 or sp.expand(hi - whi) != 0:
            ctx.violation("region", where, f"{v} runs over [{lo}, {hi}), the requested region is [{wlo}, {whi})")
        if sp.expand(st - wst) != 0:
            ctx.violation("region", where, f"{v} advances by {st}, expected {wst}")
    extra = set(got) - set(vars_)
    if extra:
        ctx.violation("region", where, f"additional loops over {sorted(extra)}")
    # exactly one body, in the innermost loop, with the loop's own indices
    n = [c for s in inner for c in cflow.calls(s, ("BODY_SENTINEL",))]
    tot = [c for s in ast for c in cflow.calls(s, ("BODY_SENTINEL",))]
    if len(n) != 1 or len(tot) != 1:
        ctx.violation("region", where, f"the body appears {len(tot)} times")
    # parallelisation: a collapse clause needs that many perfectly nested loops
    npr = 0
    for i, p in enumerate(prag):
        if p is None:
            continue
        pt = ctext_pragma(p)
        if "omp" not in pt:
            continue
        npr += 1
        if i != 0:
            ctx.violation("parallel", where, f"parallel pragma on loop level {i}")
        m = re.search(r"collapse\s*\(\s*(\d+)\s*\)", pt)
        c = int(m.group(1)) if m else 1
        ctx.ok("parallel")
        for lvl in range(i + 1, i + c):
            if lvl >= len(loops) or [s for s in decls[lvl] if s.k not in ("pragma",)]:
                ctx.violation("parallel", where, f"collapse({c}) over loops with statements between them")
                break
    if omp is False and npr:
        ctx.violation("parallel", where, "parallel pragma although parallelisation is disabled")
    if omp is True and npr != 1:
        ctx.violation("parallel", where, f"{npr} parallel pragmas for one loop nest")
    return loops, decls


def ctext_pragma(p):
    for k in ("s", "text", "v", "toks"):
        if k in p._d:
            v = p._d[k]
            return " ".join(v) if isinstance(v, (list, tuple)) else str(v)
    return str(p._d)


def run1(I, f):
    trs = I.run(f)
    if len(trs) != 1:
        raise Und(f"{len(trs)} paths")
    return trs[0]


def reads(ctx, where, loops, decls, which, simd):
    """coordinate and precomputed reads: each at the loop's own index of its own axis, after the
    loops of the axes it depends on, exactly once"""
    lv = {}
    for i, l in enumerate(loops):
        lv[for_info(l)[0]] = i + 1
    found = {}
    for lvl, ds in enumerate(decls):
        env = {}
        for s in ds:
            if s.k != "decl":
                continue
            for d in s.decls:
                if d.init is None:
                    continue
                if d.name.startswith("NOSIMD") or any(d.name == f"NOSIMD{w}" for w in which):
                    env[d.name] = d.init
                    continue
                found.setdefault(d.name, []).append((lvl, d.init, dict(env)))
    for nm, axes in which.items():
        ctx.ok("reads")
        if nm not in found:
            ctx.violation("reads", f"{where}/{nm}", f"{nm} is not read inside the loop")
            continue
        if len(found[nm]) != 1:
            ctx.violation("reads", f"{where}/{nm}", f"{nm} is declared {len(found[nm])} times")
        lvl, e, env = found[nm][0]
        e = strip(e)
        if simd:
            if e.k != "call":
                ctx.violation("reads", f"{where}/{nm}", f"{nm} is not a vector read: {text(e)}")
                continue
            f = strip(e.f).name
            # varies along the vectorised axis -> vector load, else broadcast
            if 0 in axes and f != "ReadSIMD" or 0 not in axes and f != "ConstSIMD":
                ctx.violation("reads", f"{where}/{nm}", f"{nm} depends on axes {axes} but is read with {f}")
            a = strip(e.args[0])
            if a.k == "id" and a.name in env:
                a = strip(env[a.name])
            if a.k == "un" and a.op == "&":
                a = strip(a.e)
            e = a
        if e.k != "idx":
            ctx.violation("reads", f"{where}/{nm}", f"{nm} is not read from an array: {text(e)}")
            continue
        idx = sp.expand(expr(e.i))
        want = S("i0") + S("Nxx_plus_2NGHOSTS0") * S("i1") if axes == (0, 1) else S(f"i{axes[0]}")
        if canon(idx) != canon(want):
            ctx.violation("reads", f"{where}/{nm}", f"{nm} is read at [{idx}], expected [{want}]")
        arr = text(e.a)
        okarr = arr == f"xx[{axes[0]}]" if re.fullmatch(r"xx\d", nm) else re.fullmatch(rf"(?:\w+->|\w+\.){nm}", arr)
        if not okarr:
            ctx.violation("reads", f"{where}/{nm}", f"{nm} is read from {arr}")
        for ax in axes:
            if lv.get(f"i{ax}", 99) > lvl:
                ctx.violation("reads", f"{where}/{nm}", f"{nm} is read before the loop over i{ax} starts")


def bhah(ctx, errs):
    M = "nrpy.infrastructures.BHaH.simple_loop:simple_loop"
    for simd, reg, mode, omp, coll in itertools.product((False, True), ("all points", "interior", "interior plus one upper"), ("none", "xxs", "rfm", "rfm-xx0only"), ("on", "off", "custom"), (1, 2, 3)):
        where = f"BHaH.simple_loop/{reg}/{'simd' if simd else 'scalar'}/{mode}/{omp}/collapse={coll}"
        I = closed.make(max_paths=4)
        kw = dict(enable_simd=simd, loop_region=reg, read_xxs=mode == "xxs", enable_rfm_precompute=mode.startswith("rfm"), CoordSystem="Fake", enable_OpenMP=omp != "off", OMP_collapse=coll)
        if omp == "custom":
            kw["OMP_custom_pragma"] = "#pragma omp parallel for schedule(static)"

        def entry(I):
            rfm.install(I, {"Fake": rfm.fake(None if mode != "rfm-xx0only" else ["f0_of_xx0"])})
            return closed.call(I, M, SENT, **kw)

        try:
            tr = run1(I, entry)
            if tr.outcome[0] != "return":
                if mode == "xxs" and simd:
                    ctx.ok("refused")
                    continue
                ctx.violation("region", where, f"generation fails: {tr.outcome[1]}")
                continue
            r = judge_nest(ctx, where, tr.outcome[1], region(reg, "BHaH"), simd, coll, {"on": True, "off": False}.get(omp))
            if omp == "custom" and "schedule(static)" not in tr.outcome[1]:
                ctx.violation("parallel", where, "the custom pragma is not emitted")
            if omp == "on" and coll > 1 and not re.search(rf"collapse\s*\(\s*{coll}\s*\)", tr.outcome[1]):
                ctx.violation("parallel", where, f"collapse({coll}) was requested but is not emitted")
            if r and mode != "none":
                which = {f"xx{d}": (d,) for d in range(3)} if mode == "xxs" else dict(rfm.DEPS) if mode == "rfm" else {"f0_of_xx0": (0,)}
                reads(ctx, where, r[0], r[1], which, simd)
        except Und as e:
            errs.append(f"{where}: {e}")
    # an empty region is the body itself
    I = closed.make(max_paths=4)
    tr = run1(I, lambda I: closed.call(I, M, SENT, loop_region=""))
    ctx.ok("region")
    if tr.outcome[0] != "return" or tr.outcome[1].strip() != SENT:
        ctx.violation("region", "BHaH.simple_loop/no region", "without a region the body must be returned unchanged")


def et(ctx, errs):
    M = "nrpy.infrastructures.ETLegacy.simple_loop:simple_loop"
    for simd, reg, omp, coll in itertools.product((False, True), ("all points", "interior"), ("on", "off", "custom"), (1, 2, 3)):
        where = f"ETLegacy.simple_loop/{reg}/{'simd' if simd else 'scalar'}/{omp}/collapse={coll}"
        I = closed.make(max_paths=4)
        kw = dict(enable_simd=simd, loop_region=reg, enable_OpenMP=omp != "off", OMP_collapse=coll)
        if omp == "custom":
            kw["OMP_custom_pragma"] = "#pragma omp parallel for schedule(static)"
        try:
            tr = run1(I, lambda I: closed.call(I, M, SENT, **kw))
            if tr.outcome[0] != "return":
                ctx.violation("region", where, f"generation fails: {tr.outcome[1]}")
                continue
            judge_nest(ctx, where, tr.outcome[1], region(reg, "ET"), simd, coll, {"on": True, "off": False}.get(omp))
        except Und as e:
            errs.append(f"{where}: {e}")


def carpetx(ctx, errs):
    M = "nrpy.infrastructures.CarpetX.simple_loop:simple_loop"
    for reg, dev, cen in itertools.product(("all points", "interior"), (True, False), (None, [0, 0, 0], [1, 1, 1], [0, 1, 0], [1, 0, 0], [0, 0, 1])):
        where = f"CarpetX.simple_loop/{reg}/{'device' if dev else 'host'}/{cen}"
        I = closed.make(max_paths=4)
        tr = run1(I, lambda I: closed.call(I, M, SENT, loop_region=reg, run_on_device=dev, loop_centering=cen))
        ctx.ok("region")
        if tr.outcome[0] != "return":
            ctx.violation("region", where, f"generation fails: {tr.outcome[1]}")
            continue
        t = re.sub(r"//[^\n]*", "", tr.outcome[1])
        m = re.search(r"grid\.loop_(\w+?)(_device)?\s*<\s*(\d)\s*,\s*(\d)\s*,\s*(\d)\s*>\s*\(\s*grid\.nghostzones\s*,\s*\[[=&]\]\s*CCTK_(\w+)\s*\(", t)
        if not m:
            raise AnalysisError("CarpetX loop head not understood")
        if m.group(1) != {"all points": "all", "interior": "int"}[reg]:
            ctx.violation("region", where, f"loop over '{m.group(1)}' for region '{reg}'")
        if bool(m.group(2)) != dev or (m.group(6) == "DEVICE") != dev:
            ctx.violation("region", where, f"device selection: loop{m.group(2) or ''} with CCTK_{m.group(6)}")
        if [int(m.group(i)) for i in (3, 4, 5)] != (cen or [0, 0, 0]):
            ctx.violation("region", where, f"centering {[int(m.group(i)) for i in (3, 4, 5)]}, requested {cen}")
        if t.count("BODY_SENTINEL") != 1:
            ctx.violation("region", where, f"the body appears {t.count('BODY_SENTINEL')} times")


def refuse(ctx):
    cases = [(f"{b}.simple_loop", f"nrpy.infrastructures.{b}.simple_loop:simple_loop", dict(loop_region=r)) for b in ("BHaH", "ETLegacy", "CarpetX") for r in ("interior points", "All Points", "boundary", "all")]
    cases += [("BHaH.simple_loop simd+xxs", "nrpy.infrastructures.BHaH.simple_loop:simple_loop", dict(loop_region="interior", enable_simd=True, read_xxs=True)), ("BHaH.simple_loop rfm+xxs", "nrpy.infrastructures.BHaH.simple_loop:simple_loop", dict(loop_region="interior", enable_rfm_precompute=True, read_xxs=True)), ("CarpetX simd", "nrpy.infrastructures.CarpetX.simple_loop:simple_loop", dict(loop_region="interior", enable_simd=True)), ("CarpetX centering", "nrpy.infrastructures.CarpetX.simple_loop:simple_loop", dict(loop_region="interior", loop_centering=[0, 2, 0])), ("CarpetX centering", "nrpy.infrastructures.CarpetX.simple_loop:simple_loop", dict(loop_region="interior", loop_centering=[0, 0]))]
    for where, q, kw in cases:
        I = closed.make(max_paths=8)
        for tr in I.run(lambda I: closed.call(I, q, SENT, **kw)):
            ctx.ok("refused")
            if tr.outcome[0] == "return":
                ctx.violation("refused", f"{where} {kw}", "an unsupported request is accepted")


def helper(ctx, errs):
    """the generic nest builder, for 1..3 loops, with and without tiling"""
    M = "nrpy.helpers.loop:loop"
    for n in (1, 2, 3):
        for tile in (False, True):
            for inc in ("1", "2"):
                where = f"helpers.loop/{n}D/{'tiled' if tile else 'plain'}/step {inc}"
                vs = ["a", "b", "c"][:n]
                los, his = [f"lo_{v}" for v in vs], [f"hi_{v}" for v in vs]
                kw = dict(loop_body=SENT)
                if tile:
                    kw["tile_size"] = [f"T_{v}" for v in vs]
                I = closed.make(max_paths=4)
                tr = run1(I, lambda I: closed.call(I, M, vs, los, his, [inc] * n, [""] * n, **kw))
                if tr.outcome[0] != "return":
                    ctx.violation("region", where, f"generation fails: {tr.outcome[1]}")
                    continue
                try:
                    ast = ctext.parse(re.sub(r"//[^\n]*", "", tr.outcome[1]))[0]
                    loops, _, _, inner = nest(ast)
                except Und as e:
                    errs.append(f"{where}: {e}")
                    continue
                fis = [for_info(l) for l in loops]
                if None in fis:
                    ctx.violation("region", where, "a loop of the nest has no recognisable bounds")
                    continue
                ctx.ok("region", n)
                if len(fis) != n * (2 if tile else 1):
                    ctx.violation("region", where, f"{len(fis)} loops emitted")
                    continue
                by = {f[0]: (i, f) for i, f in enumerate(fis)}
                for v in vs:
                    if v not in by:
                        ctx.violation("region", where, f"no loop over {v}")
                        continue
                    i, (_, lo, hi, st) = by[v]
                    if st != int(inc):
                        ctx.violation("region", where, f"{v} advances by {st}, requested {inc}")
                    if not tile:
                        if lo != S(f"lo_{v}") or hi != S(f"hi_{v}"):
                            ctx.violation("region", where, f"{v} runs over [{lo}, {hi})")
                        continue
                    outer = [f for f in fis if f[0] == str(lo)]
                    if len(outer) != 1 or by[outer[0][0]][0] > i:
                        ctx.violation("region", where, f"tiled loop over {v} does not start at an enclosing tile loop's index")
                        continue
                    o, olo, ohi, ost = outer[0]
                    mn = sp.Function("MIN")
                    if olo != S(f"lo_{v}") or ohi != S(f"hi_{v}") or ost != S(f"T_{v}") or hi not in (mn(S(f"hi_{v}"), S(o) + ost), mn(S(o) + ost, S(f"hi_{v}"))):
                        ctx.violation("region", where, f"tiles [{olo}, {ohi}) step {ost} with inner upper bound {hi} do not cover [lo, hi) exactly once")
                # order of nesting as requested
                order = [f[0] for f in fis if f[0] in vs]
                if order != vs:
                    ctx.violation("region", where, f"loops nested as {order}, requested {vs}")
    # the same without a body: header and footer enclose it
    I = closed.make(max_paths=4)
    tr = run1(I, lambda I: closed.call(I, M, ["a", "b"], ["0", "1"], ["n", "m"], ["1", "1"], ["", ""]))
    ctx.ok("region")
    r = tr.outcome[1] if tr.outcome[0] == "return" else None
    if not (isinstance(r, (tuple, list)) and len(r) == 2 and r[0].count("{") == 2 and r[1].count("}") == 2):
        ctx.violation("region", "helpers.loop/header+footer", "without a body, header and footer must open and close the same loops")
    I = closed.make(max_paths=4)
    tr = run1(I, lambda I: closed.call(I, M, ["a", "b"], ["0"], ["n", "m"], ["1", "1"], ["", ""], loop_body="x;"))
    ctx.ok("refused")
    if tr.outcome[0] == "return":
        ctx.violation("refused", "helpers.loop", "lists of different lengths are accepted")


# ---------------------------------------------------------------- diagnostics: axes and planes
def pts_spec(fam, ring, kind, sel):
    """index sets of the interior points nearest the axis/plane; None: all interior points; 'empty'"""
    mid = [(S(f"Nxx{d}") + 2 * NG) / 2 for d in range(3)]
    H = sp.Rational(1, 2)

    def quarter(d):
        return [NG + S(f"Nxx{d}") / 4 - H, NG + 3 * S(f"Nxx{d}") / 4 - H]

    def ends(d):
        return [NG, S(f"Nxx{d}") + NG - 1]

    phi = 1 if fam == "Cylindrical" else 2
    if kind == "1D" and sel == "y":
        if fam == "Cartesian":
            return {0: [mid[0]], 2: [mid[2]]}
        if fam in ("Spherical", "SymTP"):
            return {1: [mid[1]], 2: quarter(2)}
        if fam == "Cylindrical":
            return {1: quarter(1), 2: [mid[2]]}
        if fam == "Wedge":
            return "empty"
    if kind == "1D" and sel == "z":
        if fam == "Cartesian":
            return {0: [mid[0]], 1: [mid[1]]}
        if fam == "Spherical" and ring:
            return "empty"
        if fam in ("Spherical", "SymTP"):
            return {1: ends(1), 2: [NG]}
        if fam == "Cylindrical":
            return {0: [NG], 1: [NG]}
        if fam == "Wedge":
            return {1: [mid[1]], 2: [mid[2]]}
    if kind == "2D" and sel == "xy":
        if fam in ("Cartesian", "Cylindrical"):
            return {2: [mid[2]]}
        if fam in ("Spherical", "SymTP"):
            return {1: [mid[1]]}
        if fam == "Wedge":
            return {2: quarter(2)}
    if kind == "2D" and sel == "yz":
        if fam == "Cartesian":
            return {0: [mid[0]]}
        if fam == "Cylindrical":
            return {1: quarter(1)}
        if fam in ("Spherical", "SymTP"):
            return {2: quarter(2)}
        if fam == "Wedge":
            return {1: [mid[1]]}
    return None


SAMPLES = [{S("NGHOSTS"): g, S("Nxx0"): a, S("Nxx1"): b, S("Nxx2"): c} for g, a, b, c in ((1, 2, 4, 6), (2, 10, 6, 2), (3, 12, 8, 2), (4, 72, 12, 14), (3, 30, 18, 22), (5, 7, 9, 11))]


def fval(node):
    """value of a C arithmetic expression whose divisions are floating"""
    n = strip(node)
    if n.k == "num":
        return sp.Rational(re.sub(r"[fFlLuU]+$", "", n.v))
    if n.k == "id":
        return S(n.name)
    if n.k == "bin":
        a, b = fval(n.a), fval(n.b)
        if n.op == "/":
            if a.is_Integer and b.is_Integer and "." not in ctext_src(n.a) and "." not in ctext_src(n.b):
                return sp.floor(a / b)
            isint = all("." not in ctext_src(x) for x in (n.a, n.b))
            return sp.floor(a / b) if isint else a / b
        return {"+": a + b, "-": a - b, "*": a * b}[n.op]
    if n.k == "un" and n.op == "-":
        return -fval(n.e)
    raise Und(f"index expression {text(node)}")


def ctext_src(n):
    return " ".join(x.v for x in ctext.walk(n) if x.k == "num") or "-"


def same_floor(a, b):
    a, b = canon(a), canon(b)
    if sp.expand(a - b) == 0:
        return True
    return all(int(sp.floor(a.subs(s))) == int(sp.floor(b.subs(s))) for s in SAMPLES)


def judge_pts(ctx, where, code, spec):
    t = re.sub(r"//[^\n]*", "", code)
    m = re.search(r"numpts_i0\s*=\s*([^,;]+),\s*numpts_i1\s*=\s*([^,;]+),\s*numpts_i2\s*=\s*([^,;]+);", t)
    if not m:
        raise Und("point counts not found")
    cnt = [canon(sp.sympify(m.group(i + 1), locals={"NGHOSTS": NG})) for i in range(3)]
    ctx.ok("slices", 3)
    if spec == "empty":
        if any(c != 0 for c in cnt):
            ctx.violation("slices", where, f"no point lies on this axis, but {cnt} points are output")
        return
    for d in range(3):
        w = spec.get(d)
        wn = S(f"Nxx{d}") if w is None else sp.Integer(len(w))
        if sp.expand(cnt[d] - wn) != 0:
            ctx.violation("slices", where, f"{cnt[d]} points along direction {d}, expected {wn}")
        loop = re.search(rf"for\s*\(\s*int\s+i{d}\s*=\s*([^;]+);\s*i{d}\s*<\s*([^;]+);\s*(?:i{d}\+\+|\+\+i{d})\s*\)\s*i{d}_pts\[([^\]]+)\]\s*=\s*([^;]+);", t)
        singles = re.findall(rf"(?<![\w\]])i{d}_pts\[(\d+)\]\s*=\s*\(int\)\s*\((.*?)\);", t)
        if w is None:
            if not loop:
                ctx.violation("slices", where, f"direction {d}: the interior points are not listed")
                continue
            loc = {"NGHOSTS": NG}
            lo, hi, ix, vl = (canon(sp.sympify(loop.group(i), locals=loc)) for i in range(1, 5))
            v = S(f"i{d}")
            if lo != NG or sp.expand(hi - NG - S(f"Nxx{d}")) != 0 or sp.expand(ix - (v - NG)) != 0 or vl != v:
                ctx.violation("slices", where, f"direction {d}: points [{lo}, {hi}) stored at [{ix}] as {vl} are not the interior points")
        else:
            if loop:
                ctx.violation("slices", where, f"direction {d}: all points listed, expected {len(w)}")
                continue
            if sorted(int(a) for a, _ in singles) != list(range(len(w))):
                ctx.violation("slices", where, f"direction {d}: entries {[a for a, _ in singles]} of the point list are set, expected {len(w)} entries")
                continue
            got = []
            for _, e in sorted(singles, key=lambda z: int(z[0])):
                st = ctext.parse(f"q = {e};")[0]
                got.append(fval([x for x in st if x.k == "expr"][0].e.b))
            left = list(w)
            for g in got:
                h = [x for x in left if same_floor(g, x)]
                if not h:
                    ctx.violation("slices", where, f"direction {d}: point index {g} is none of the expected {w}")
                    break
                left.remove(h[0])


COORDS = [("Cartesian", "Cartesian", False), ("SinhCartesian", "Cartesian", False), ("Spherical", "Spherical", False), ("SinhSpherical", "Spherical", False), ("RingHoleySinhSpherical", "Spherical", True), ("Cylindrical", "Cylindrical", False), ("SinhCylindrical", "Cylindrical", False), ("SymTP", "SymTP", False), ("SinhSymTP", "SymTP", False), ("LWedgeHSinhSph", "Wedge", False), ("UWedgeHSinhSph", "Wedge", False)]


def slices(ctx, errs):
    oq = {("REAL", "q1"): "a[idx3]", ("int", "q2"): "b"}
    B, Q = "nrpy.infrastructures.BHaH.simple_loop", "nrpy.infrastructures.superB.simple_loop_diagnostic"
    for cs, fam, ring in COORDS:
        for kind, sels in (("1D", ("y", "z")), ("2D", ("xy", "yz"))):
            for sel in sels:
                for mod in (B, Q):
                    where = f"{mod.split('.')[2]}.simple_loop_{kind}/{cs}/{sel}"
                    kw = {"axis" if kind == "1D" else "plane": sel}
                    args = [cs, dict(oq)] if mod == B else [cs]
                    I = closed.make(max_paths=4)
                    try:
                        tr = run1(I, lambda I: closed.call(I, f"{mod}:simple_loop_{kind}", *args, **kw))
                        if tr.outcome[0] != "return":
                            if mod == Q and (fam == "Wedge"):
                                ctx.ok("refused")
                                continue
                            ctx.violation("slices", where, f"generation fails: {tr.outcome[1]}")
                            continue
                        r = tr.outcome[1]
                        code = r if isinstance(r, str) else r[1]
                        if mod == Q and ring and sel == "z" and kind == "1D":
                            ctx.notes.append(f"{where}: superB has no special case for ring-like grids; not claimed")
                            continue
                        judge_pts(ctx, where, code, pts_spec(fam, ring, kind, sel))
                        if mod == B or kind == "1D":
                            body_of_slice(ctx, where, code, kind, sel, mod == B)
                    except Und as e:
                        errs.append(f"{where}: {e}")
    for mod in (B, Q):
        for kind, kw in (("1D", {"axis": "x"}), ("2D", {"plane": "xz"})):
            I = closed.make(max_paths=4)
            tr = run1(I, lambda I: closed.call(I, f"{mod}:simple_loop_{kind}", *(["Spherical", dict(oq)] if mod == B else ["Spherical"]), **kw))
            ctx.ok("refused")
            if tr.outcome[0] == "return":
                ctx.violation("refused", f"{mod}:simple_loop_{kind} {kw}", "an unsupported request is accepted")
    # the same with ghost zones
    for cs, fam, ring in COORDS:
        for sel in ("xy", "yz"):
            for gh in (False, True):
                I = closed.make(max_paths=4)
                tr = run1(I, lambda I: closed.call(I, f"{B}:max_numpts__i012_pts__numpts_2D", cs, sel, include_GHOSTS=gh))
                where = f"max_numpts__i012_pts__numpts_2D/{cs}/{sel}/ghosts={gh}"
                if tr.outcome[0] != "return":
                    ctx.violation("slices", where, f"generation fails: {tr.outcome[1]}")
                    continue
                mx, pts, cnt = tr.outcome[1]
                spec = pts_spec(fam, ring, "2D", sel)
                ctx.ok("slices", 3)
                strip_ = lambda e: canon(sp.sympify(e).xreplace({s: S(s.name) for s in sp.sympify(e).free_symbols}))
                for d in range(3):
                    wm = S(f"Nxx{d}") + (2 * NG if gh else 0)
                    if sp.expand(strip_(mx[d]) - wm) != 0:
                        ctx.violation("slices", where, f"direction {d}: at most {mx[d]} points, expected {wm}")
                    w = spec.get(d)
                    if sp.expand(strip_(cnt[d]) - (wm if w is None else len(w))) != 0:
                        ctx.violation("slices", where, f"direction {d}: {cnt[d]} points, expected {wm if w is None else len(w)}")
                    if len(pts[d]) != (len(w) if w else 0) or not all(any(same_floor(strip_(g), x) for x in w) for g in pts[d]):
                        ctx.violation("slices", where, f"direction {d}: point indices {pts[d]}, expected {w}")


def body_of_slice(ctx, where, code, kind, sel, full):
    t = re.sub(r"//[^\n]*", "", code)
    ctx.ok("slice body")
    m = re.search(r"LOOP_NOOMP\s*\(([^)]*)\)", t)
    if not m:
        raise Und("slice loop not found")
    a = [x.strip() for x in m.group(1).split(",")]
    if len(a) != 9:
        raise Und("slice loop arguments")
    for d in range(3):
        v, lo, hi = a[3 * d : 3 * d + 3]
        mm = re.search(rf"(?<!\w)i{d}\s*=\s*i{d}_pts\[(\w+)\]", t)
        if lo != "0" or hi != f"numpts_i{d}" or not mm or mm.group(1) != v:
            ctx.violation("slice body", where, f"direction {d}: loop variable {v} over [{lo}, {hi}) does not enumerate the {d}-point list")
    want = {"y": [1], "z": [2], "xy": [0, 1], "yz": [1, 2]}[sel]
    if kind == "1D":
        mm = re.search(r"xCart_axis\s*=\s*xCart\[(\d)\]", t)
        if not mm or int(mm.group(1)) != want[0]:
            ctx.violation("slice body", where, f"the {sel}-axis output is labelled with xCart[{mm.group(1) if mm else '?'}]")
        if not re.search(r"data_points\[data_index\]\s*=\s*dp1d;\s*data_index\+\+", t):
            raise Und("storage of points")
    else:
        mm = re.search(r'fprintf\(outfile,\s*"[^"]*",\s*xCart\[(\d)\],\s*xCart\[(\d)\]', t)
        if not mm or [int(mm.group(1)), int(mm.group(2))] != want:
            ctx.violation("slice body", where, f"the {sel}-plane output is labelled with the wrong coordinates")
    if not full and kind == "1D":
        for d in range(3):
            if not re.search(rf"dp1d\.i{d}\s*=\s*i{d}\s*;", t):
                ctx.violation("slice body", where, f"the stored point does not record its index i{d}")
    if not re.search(r"xx_to_Cart\s*\([^;]*,\s*i0\s*,\s*i1\s*,\s*i2\s*,\s*xCart\s*\)", t):
        ctx.violation("slice body", where, "the Cartesian position of the point itself is not computed")
    mm = re.search(r"idx3\s*=\s*([^;]*);", t)
    if mm:
        got = expr([x for x in ctext.parse(f"q = {mm.group(1)};")[0] if x.k == "expr"][0].e.b)
        if sp.expand(got - cflow._macro("IDX3", [S("i0"), S("i1"), S("i2")])) != 0:
            ctx.violation("slice body", where, f"data are read at offset {mm.group(1)}, not at the point itself")
    if full:
        for q, v in (("q1", "a[idx3]"), ("q2", "b")):
            if not re.search(rf"(?<!\w)(?:dp1d\.)?{q}\s*=\s*{re.escape(v)}\s*;", t):
                ctx.violation("slice body", where, f"output quantity {q} is not set from its expression {v}")
        mm = re.search(r'fprintf\(outfile,\s*"([^"]*)",([^;]*)\);', t)
        if mm:
            conv = re.findall(r"%[^ \\n]*[a-z]", mm.group(1))
            args = [x.strip().split(".")[-1] for x in mm.group(2).split(",")]
            pos = {n: i for i, n in enumerate(args)}
            if "q1" in pos and "q2" in pos:
                if not conv[pos["q1"]].endswith("e") or not conv[pos["q2"]].endswith("d"):
                    ctx.violation("slice body", where, "output formats do not match the quantities' types")
            else:
                ctx.violation("slice body", where, "a requested quantity is not written")


def macros(ctx, errs):
    """the loop macros of the generated header"""
    M = "nrpy.infrastructures.BHaH.BHaH_defines_h"
    I = closed.make(models=closed.file_models(), max_paths=8)

    def entry(I):
        closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", "BHaH")
        closed.call(I, f"{M}:output_BHaH_defines_h", "/x")

    trs = [t for t in I.run(entry) if t.outcome[0] == "return"]
    if not trs:
        errs.append("BHaH_defines.h: generation not interpreted")
        return
    tx = "\n".join(closed.files(trs[0]).values())
    tx = re.sub(r"\\\n", " ", tx)
    seen = 0
    for m in re.finditer(r"#define\s+(LOOP_\w+)\(([^)]*)\)([^\n]*)", tx):
        nm, ps, body = m.group(1), [x.strip() for x in m.group(2).split(",")], m.group(3)
        if not any(x.endswith("max") for x in ps):
            continue
        mins = [x for x in ps if x.endswith("min")]
        if len(mins) != 3:
            continue
        body = re.sub(r"_Pragma\s*\([^)]*\)", " ", body)
        fl = re.findall(r"for\s*\(\s*(?:int\s+)?\(?(\w+)\)?\s*=\s*\(?(\w+)\)?\s*;\s*\(?(\w+)\)?\s*<\s*\(?(\w+)\)?\s*;\s*(?:\(?(\w+)\)?\+\+|\+\+\(?(\w+)\)?)\s*\)", body)
        seen += 1
        ctx.ok("macros")
        want = {(x[:-3], x, x[:-3] + "max") for x in mins}
        got = {(f[0], f[1], f[3]) for f in fl if f[0] == f[2] and f[0] in (f[4], f[5])}
        if nm.startswith("LOOP_BREAKOUT") or "goto" in body:
            continue
        if got != want or len(fl) != len(want):
            ctx.violation("macros", nm, f"loops {sorted(got)} for parameters {sorted(want)}")
    if seen < 2:
        errs.append(f"only {seen} loop macros found in the generated header")


def run(ctx):
    ctx.rule("region", "for every back end and option combination: the emitted code is one loop nest with exactly one loop per index, bounds (as polynomials in the extents and ghost-zone width) equal to the requested region's, step one or the vector width along the fastest index, body exactly once")
    ctx.rule("parallel", "at most one parallel pragma, on the outermost loop, collapsing only perfectly nested loops, absent when disabled")
    ctx.rule("reads", "coordinates and precomputed metric arrays are read once, from their own array, at the loop's own indices, inside the loops they depend on; vector load along the vectorised axis, broadcast otherwise")
    ctx.rule("refused", "unsupported requests end in an error")
    ctx.rule("slices", "axis and plane output visits exactly the interior points nearest the axis or plane, for each coordinate family")
    ctx.rule("slice body", "slice loops enumerate the point lists of their own direction, label with the requested coordinates and write the requested quantities")
    ctx.rule("macros", "loop macros of the generated header loop each index over its own bounds")
    errs = []
    bhah(ctx, errs)
    et(ctx, errs)
    carpetx(ctx, errs)
    refuse(ctx)
    helper(ctx, errs)
    slices(ctx, errs)
    macros(ctx, errs)
    for e in errs:
        ctx.notes.append(f"not decided: {e}")
    ctx.floor("region", 200)
    ctx.floor("slices", 100)
