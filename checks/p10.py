"""P10: storage of the time integrator, grids, boundary lists and buffers; local scratch resources."""

import re

import sympy as sp

from sa import cheap, closed, ctext, ctyst, mol, rfm, templates
from sa.absint import AnalysisError, Program
from sa.ctext import vtext, walk
from sa.ctyst import canon, fname, strip

N = [sp.Symbol(f"Nxx_plus_2NGHOSTS{i}", positive=True) for i in range(3)]
S = lambda t: sp.Symbol(t, positive=True)  # noqa: E731
BOUNDS = {"NGHOSTS": 3, "NUMGRIDS": 2, "MAXNUMGRIDS": 4, "bah_num_horizons": 2}


def T(v):
    return ctext.Rendered(v).text


def pnames(params):
    return [(re.findall(r"\w+", re.sub(r"\[[^\]]*\]", "", p)) or [""])[-1] for p in (params or "").split(",")]


def at_least(size, want):
    d = sp.expand(size - want)
    return d == 0 or all(c > 0 for c in sp.Poly(d, *sorted(d.free_symbols, key=str)).coeffs()) if d.free_symbols else d >= 0


# ---------------------------------------------------------------- stage arrays
def stage_arrays(ctx, P, infra, meth, tab):
    label = f"{infra}/{meth}"
    trs, _ = mol.generate(P, infra, meth, enable_rfm_precompute=True, enable_curviBCs=True)
    for tr in trs:
        if tr.outcome[0] == "raise":
            continue
        regs = {T(e["args"].get("name", "")): e["args"] for e in tr.effects if e["kind"] == "register_CFunction"}
        defs = "".join(T(e["args"].get("BHaH_defines", e["args"].get("text", ""))) for e in tr.effects if e["kind"] == "register_defines")
        st = {}
        for n, m in cheap.struct_members(defs).items():
            if n == "MoL_gridfunctions_struct":
                st = m
        if not st:
            raise AnalysisError("MoL_gridfunctions_struct not found in the registered definitions")
        mallocs = [n for n in regs if n.startswith("MoL_malloc_")]
        frees = [n for n in regs if n.startswith("MoL_free_memory_")]
        if not mallocs or not frees:
            raise AnalysisError("allocation or release routines of the time integrator not found")
        # every gridfuncs member mentioned anywhere is declared
        used = {}
        for n, a in regs.items():
            for m in re.finditer(r"\bgridfuncs\s*(?:->|\.)\s*(\w+)", ctext.Rendered(a.get("body", "")).text):
                used.setdefault(m[1], set()).add(n)
        for m, fs in used.items():
            if m not in st:
                ctx.violation("declared", f"{infra}|{meth}|{m}", f"{label}: {', '.join(sorted(fs))} uses gridfuncs member {m}, which MoL_gridfunctions_struct does not declare")
            else:
                ctx.ok("declared")
        # stage arrays addressed by a bare name must be declared there (as an alias of a member)
        for n, a in regs.items():
            body, _ = ctext.parse(ctext.Rendered(a.get("body", "")).text)
            dcl = {d.name for s in walk(body) if s.k == "decl" for d in s.decls} | set(pnames(ctext.Rendered(a.get("params", "")).text))
            for x in {x.name for x in walk(body) if x.k == "id" and re.fullmatch(r"\w+_gfs", x.name)} - dcl:
                ctx.violation("declared", f"{infra}|{meth}|{n}|{x}", f"{label}: {n} uses {x}, which is neither allocated nor declared")
        for nauxevol in (0, 1, 4):
            b = dict(BOUNDS, NUM_AUXEVOL_GFS=nauxevol)
            heap, live, sizes, per = {}, set(), {}, {}
            order = sorted(mallocs, key=lambda n: (n != "MoL_malloc_y_n_gfs", n != "MoL_malloc_non_y_n_gfs"))
            for n in order:
                ev = cheap.events(ctext.Rendered(regs[n]["body"]).text, {k: v for k, v in b.items() if k != "NUM_AUXEVOL_GFS"} | {"NUM_AUXEVOL_GFS": nauxevol}, name=n)
                for kind, key, size, _f in ev:
                    mem = key.split(".")[-1]
                    if kind == "alloc":
                        if mem in heap and heap[mem] in live and heap[mem] == mem:
                            ctx.violation("leak", f"{infra}|{meth}|{mem}", f"{label}: {mem} is allocated again by {n} while it holds an array")
                        heap[mem] = mem if mem not in sizes else mem + "'"
                        live.add(heap[mem])
                        sizes[mem] = size
                        per.setdefault(n[len("MoL_malloc_"):], set()).add(mem)
                        want = S("sizeof(REAL)") * (sp.Integer(nauxevol) if mem == "auxevol_gfs" else S("NUM_EVOL_GFS")) * N[0] * N[1] * N[2]
                        if not at_least(size, want):
                            ctx.violation("size", f"{infra}|{meth}|{mem}", f"{label}: {n} allocates {mem} with {size}, but it is indexed over {want}")
                        else:
                            ctx.ok("size")
                    elif kind == "copy":
                        src = size.split(".")[-1]
                        heap[mem] = None if src in ("NULL", "nullptr") else heap.get(src, "?" + src)
                    else:
                        raise AnalysisError(f"{n}: {kind} in an allocation routine")
            for m in used:
                if m.endswith("_to_sync") or m == "max_sync_gfs" or (m == "auxevol_gfs" and nauxevol == 0):
                    continue
                v = heap.get(m, "?")
                if v is None and m == "diagnostic_output_gfs2":
                    ctx.ok("allocated")
                elif v is None or v.startswith("?"):
                    ctx.violation("allocated", f"{infra}|{meth}|{m}", f"{label}: {m} ({', '.join(sorted(used[m]))}) refers to storage that no allocation routine provides ({(v or 'NULL').lstrip('?') or 'never set'})")
                else:
                    ctx.ok("allocated")
            relp = {}
            for n in frees:
                for kind, key, _s, _f in cheap.events(ctext.Rendered(regs[n]["body"]).text, b, name=n):
                    mem = key.split(".")[-1]
                    if kind != "free":
                        raise AnalysisError(f"{n}: {kind} in a release routine")
                    relp.setdefault(n[len("MoL_free_memory_"):], []).append(mem)
            for grp in sorted(set(per) | set(relp)):
                a, f = per.get(grp, set()), relp.get(grp, [])
                for m in sorted(a - set(f)):
                    ctx.violation("released", f"{infra}|{meth}|{grp}|{m}", f"{label}: MoL_malloc_{grp} allocates {m}, but MoL_free_memory_{grp} does not release it (NUM_AUXEVOL_GFS {'= 0' if not nauxevol else '> 0'})")
                for m in sorted(set(f) - a):
                    ctx.violation("released", f"{infra}|{meth}|{grp}|{m}", f"{label}: MoL_free_memory_{grp} releases {m}, which MoL_malloc_{grp} does not allocate (NUM_AUXEVOL_GFS {'= 0' if not nauxevol else '> 0'})")
                for m in {x for x in f if f.count(x) > 1}:
                    ctx.violation("released", f"{infra}|{meth}|{grp}|{m}|twice", f"{label}: MoL_free_memory_{grp} releases {m} twice")
                ctx.ok("released", len(a & set(f)))
        ctx.sample(f"{label}: members {sorted(used)}")


# ---------------------------------------------------------------- local resources
def _local_worker(args):
    key, mod, name, body, prefunc, rel = args
    out = []
    for nm, b in ctyst.functions(body, prefunc, name):
        ts = ctyst.TS(nm, b, releases=rel)
        try:
            iss = ts.run()
            out.append((mod, nm, iss, dict(ts.vars), ts.npaths, None))
        except ctyst.Giveup as e:
            out.append((mod, nm, {}, {}, 0, str(e)))
    return out


RES = re.compile(r"\b(malloc|calloc|strdup|fopen|realloc|d3tensor|[di]vector|[di]matrix|gsl_\w+_alloc\w*|allocate_derivs)\s*\(")


def local_resources(ctx):
    rel, jobs, seen = {}, [], set()
    for t in templates.collect():
        for r in t["regs"]:
            if re.search(r"\bfree\s*\(|fclose", r.body or ""):
                b, _ = ctext.parse(r.body)
                for i in ctyst.released_args(r.params, b):
                    rel.setdefault(r.name, set()).add(i)
    for t in templates.collect():
        for r in t["regs"]:
            k = (r.mod, r.name, r.body, r.prefunc)
            if k in seen:
                continue
            seen.add(k)
            if RES.search((r.body or "") + (r.prefunc or "")):
                jobs.append((k, r.mod, r.name, r.body, r.prefunc, rel))
            else:
                ctx.ok("local-none")
    for res in templates.pmap(_local_worker, jobs):
        for mod, nm, iss, vs, npaths, err in res:
            m = mod.replace("nrpy.infrastructures.", "")
            if err:
                ctx.undecided(f"local resources of {m}:{nm}", err)
                continue
            for (kind, var), msg in iss.items():
                ctx.violation("local", f"{m}|{nm}|{kind}|{var}", f"{m}, generated function {nm}: {msg}")
            ctx.ok("local", len(vs))
            ctx.ok("local-paths", npaths)
            if vs:
                ctx.sample(f"{m}:{nm}: {vs}", cap=60)
    ctx.floor("local", 200)


# ---------------------------------------------------------------- whole program
def closed_reg(qual, *a, setup=None, **k):
    I = closed.make(models=closed.record_models())
    def entry(I):
        if setup:
            setup(I)
        return closed.call(I, qual, *a, **k)

    trs = I.run(entry)
    if len(trs) != 1 or trs[0].outcome[0] != "return":
        raise AnalysisError(f"{qual}: {len(trs)} paths, {trs[0].outcome[:2]}")
    regs = [e["args"] for e in trs[0].effects if e["kind"] == "register_CFunction"]
    defs = [e["args"] for e in trs[0].effects if e["kind"] == "register_defines"]
    return regs, defs


def reg_fn(a):
    b, _ = ctext.parse(ctext.Rendered(a["body"]).text)
    return T(a["name"]), (pnames(ctext.Rendered(a["params"]).text), b)


def lifecycle(ctx, label, ev, end_ok=lambda k: False):
    """every block is obtained before use, held by one name, released once"""
    held, released = {}, {}
    n = 0
    for kind, key, x, fn in ev:
        if kind == "alloc":
            if key in held:
                ctx.violation("program", f"{label}|{key}|again", f"{label}: {fn} allocates {key} while it still holds the block obtained in {held[key]}")
            held[key] = fn
            released.pop(key, None)
            n += 1
        elif kind == "free":
            # releasing a container before its elements
            if key not in held:
                why = f"already released in {released[key]}" if key in released else "never allocated"
                ctx.violation("program", f"{label}|{key}|free", f"{label}: {fn} releases {key}, {why}")
                continue
            inner = [k for k in held if k != key and (k.startswith(key + ".") or k.startswith(key + "["))]
            if inner:
                ctx.violation("program", f"{label}|{key}|order", f"{label}: {fn} releases {key} while {sorted(inner)[:3]} inside it are still held")
            released[key] = fn
            held.pop(key)
        elif kind == "copy" and x in held and key not in held and "." in key and not re.search(r"[.\[]", x.split(":")[-1]):
            held[key] = held.pop(x)  # ownership handed to a structure member
    for k, fn in held.items():
        if not end_ok(k):
            ctx.violation("program", f"{label}|{k}|leak", f"{label}: {k}, allocated in {fn}, is never released")
    ctx.ok("program", n)
    ctx.sample(f"{label}: {n} blocks allocated and released", cap=80)


def bhah_program(ctx, P):
    regs = {}
    for t in templates.collect():
        for r in t["regs"]:
            if r.infra == "BHaH":
                regs.setdefault(r.name, []).append(r)

    def one(name, **need):
        rs = [r for r in regs.get(name, ()) if all((s in r.cond) for s in need.get("cond", ()))]
        if not rs:
            raise AnalysisError(f"generated function {name} not found")
        return rs

    molregs = {}
    trs, _ = mol.generate(P, "BHaH", "RK4", enable_rfm_precompute=True, enable_curviBCs=True)
    for e in trs[0].effects:
        if e["kind"] == "register_CFunction":
            n, f = reg_fn(e["args"])
            molregs[n] = f
    mains = []
    for r in one("main"):
        if r.mod.endswith("BHaH.main_c") and not any(r.body == m.body for m in mains):
            mains.append(r)
    if not mains:
        raise AnalysisError("main of the BHaH back end not found")
    cp = {}
    for r in one("write_checkpoint") + one("read_checkpoint"):
        cp.setdefault((r.name, "prev_horizon" in r.body), r)
    for use_rfm in (True, False):
        for use_bc in (True, False):
            for bah in (False, True):
                funcs = {n: f for n, f in molregs.items() if n != "MoL_step_forward_in_time"}
                rg, _ = closed_reg("nrpy.infrastructures.BHaH.griddata_commondata:register_CFunction_griddata_free", enable_rfm_precompute=use_rfm, enable_CurviBCs=use_bc, enable_bhahaha=bah)
                funcs.update(reg_fn(a) for a in rg)
                rg, _ = closed_reg("nrpy.infrastructures.BHaH.numerical_grids_and_timestep:register_CFunction_numerical_grids_and_timestep", list_of_CoordSystems=["Spherical", "Cartesian"], list_of_grid_physical_sizes=[10.0, 20.0], enable_rfm_precompute=use_rfm, enable_CurviBCs=use_bc)
                funcs.update(reg_fn(a) for a in rg)
                rg, _ = closed_reg("nrpy.infrastructures.BHaH.rfm_precompute:register_CFunctions_rfm_precompute", ["Fake"], setup=lambda I: rfm.install(I, {"Fake": rfm.fake()}))
                for a in rg:
                    n, f = reg_fn(a)
                    if "defines" not in n:
                        funcs[n.split("__rfm__")[0]] = f
                for nm in ("numerical_grid_params_Nxx_dxx_xx", "bcstruct_set_up"):
                    r = max(one(nm), key=lambda r: len(r.body))
                    funcs[nm] = (pnames(r.params), ctext.parse(r.body)[0])
                funcs["diagnostics"] = (["commondata", "griddata"], [])
                for name in ("write_checkpoint", "read_checkpoint"):
                    r = cp.get((name, bah))
                    if r is None:
                        raise AnalysisError(f"{name} (BHaHAHA {bah}) not found")
                    body = ctext.parse(r.body)[0]
                    # the checkpoint is due / present
                    funcs[name] = (pnames(r.params), unguard(body))
                for r in mains[: (None if ctx.thorough else 2)]:
                    for restart in (False, True):
                        if bah and not restart:
                            continue  # without a restart the horizon arrays come from the external library
                        label = f"program(rfm={use_rfm}, curviBCs={use_bc}, bhahaha={bah}, {'restart' if restart else 'fresh start'})"
                        f2 = dict(funcs)
                        f2["initial_data"] = (["commondata", "griddata"], ctext.parse("read_checkpoint(commondata, griddata);")[0] if restart else [])
                        f2["diagnostics"] = (["commondata", "griddata"], ctext.parse("write_checkpoint(commondata, griddata);")[0])
                        E = cheap.Events(dict(BOUNDS, NUM_AUXEVOL_GFS=4), f2)
                        E.run([s for s in ctext.parse(r.body)[0] if s.k != "func"], dict(BOUNDS, NUM_AUXEVOL_GFS=4), {}, "main")
                        need = {"griddata_free", "numerical_grids_and_timestep", "MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "write_checkpoint", "numerical_grid_params_Nxx_dxx_xx"}
                        miss = need - set(E.trace)
                        if "griddata_free" in miss or miss == need:
                            pass
                        elif miss:
                            raise AnalysisError(f"{label}: {sorted(miss)} not reached from main")
                        lifecycle(ctx, label, E.out)
                        sizes(ctx, label, E.out)
    # the library interface
    if "bhah_initialize" in regs and "bhah_finalize" in regs:
        funcs = {n: f for n, f in molregs.items() if n != "MoL_step_forward_in_time"}
        rg, _ = closed_reg("nrpy.infrastructures.BHaH.numerical_grids_and_timestep:register_CFunction_numerical_grids_and_timestep", list_of_CoordSystems=["Spherical", "Cartesian"], list_of_grid_physical_sizes=[10.0, 20.0], enable_rfm_precompute=True, enable_CurviBCs=True)
        funcs.update(reg_fn(a) for a in rg)
        rg, _ = closed_reg("nrpy.infrastructures.BHaH.rfm_precompute:register_CFunctions_rfm_precompute", ["Fake"], setup=lambda I: rfm.install(I, {"Fake": rfm.fake()}))
        for a in rg:
            n, f = reg_fn(a)
            if "defines" not in n:
                funcs[n.split("__rfm__")[0]] = f
        for nm in ("numerical_grid_params_Nxx_dxx_xx", "bcstruct_set_up"):
            r = max(one(nm), key=lambda r: len(r.body))
            funcs[nm] = (pnames(r.params), ctext.parse(r.body)[0])
        ini, fin = max(regs["bhah_initialize"], key=lambda r: len(r.body)), max(regs["bhah_finalize"], key=lambda r: len(r.body))
        b = dict(BOUNDS, NUM_AUXEVOL_GFS=4)
        E = cheap.Events(b, funcs)
        E.run(ctext.parse(ini.body)[0], dict(b), {}, "bhah_initialize")
        # the handles stored in the returned structure are the ones finalize receives
        E.ptr = {**E.ptr, "commondata": "bhah_struct.commondata", "griddata": "bhah_struct.griddata"}
        out = rename(E.out)
        E2 = cheap.Events(b, funcs)
        E2.run(ctext.parse(fin.body)[0], dict(b), {}, "bhah_finalize")
        lifecycle(ctx, "library (initialize, finalize)", out + rename(E2.out))
        sizes(ctx, "library", out)


def rename(ev):
    f = lambda k: re.sub(r"^bhah_struct\.(griddata|commondata)", r"\1", k) if isinstance(k, str) else k  # noqa: E731
    return [(kind, f(key), f(x) if kind == "copy" else x, fn) for kind, key, x, fn in ev if not (kind == "copy" and key.startswith("bhah_struct."))]


def unguard(body):
    """the part of a routine that runs when its early exits are not taken"""
    out = []
    for s in body:
        if s.k == "if" and not s.els and s.then and all(x.k in ("return", "block", "expr") for x in s.then) and any(x.k == "return" for x in walk(s.then)):
            continue
        if s.k == "if" and not s.els and any(n.k == "call" and (fname(n) or "").startswith(("fopen", "MoL_")) for n in walk(s.then)):
            out += unguard(s.then)
            continue
        if s.k == "block":
            out += unguard(s.body)
            continue
        out.append(s)
    return out


WANT = [
    (re.compile(r"griddata\[\d+\]\.xx\[(\d)\]$"), lambda m: S("sizeof(REAL)") * N[int(m[1])]),
    (re.compile(r"griddata\[\d+\]\.gridfuncs\.auxevol_gfs$"), lambda m: S("sizeof(REAL)") * 4 * N[0] * N[1] * N[2]),
    (re.compile(r"griddata\[\d+\]\.gridfuncs\.\w+$"), lambda m: S("sizeof(REAL)") * S("NUM_EVOL_GFS") * N[0] * N[1] * N[2]),
    (re.compile(r"griddata\[\d+\]\.rfmstruct\.(\w+)$"), lambda m: S("sizeof(REAL)") * sp.prod([N[i] for i in rfm.DEPS[m[1]]])),
    (re.compile(r"griddata$"), lambda m: S("sizeof(griddata_struct)") * BOUNDS["MAXNUMGRIDS"]),
]


def sizes(ctx, label, ev):
    for kind, key, size, fn in ev:
        if kind != "alloc":
            continue
        for rx, w in WANT:
            m = rx.match(key)
            if m:
                try:
                    want = w(m)
                except KeyError:
                    continue
                if not at_least(size, want):
                    ctx.violation("size", f"{fn}|{re.sub(r'[0-9]+', '#', key)}", f"{label}: {fn} allocates {key} with {size}, but it is indexed over {want}")
                else:
                    ctx.ok("size")
                break


# ---------------------------------------------------------------- precomputed reference metric
def rfm_precompute(ctx):
    tabs = {"FakeA": rfm.fake(), "FakeB": rfm.fake(["f0_of_xx0", "f9_of_xx0xx1"])}
    rg, df = closed_reg("nrpy.infrastructures.BHaH.rfm_precompute:register_CFunctions_rfm_precompute", ["FakeA", "FakeB"], setup=lambda I: rfm.install(I, tabs))
    st = {}
    for a in df:
        for v in a.values():
            if isinstance(v, str) or hasattr(v, "parts"):
                st.update(cheap.struct_members(T(v)).get("rfm_struct", {}))
    per = {}
    for a in rg:
        nm = T(a["name"])
        cs = a.get("CoordSystem_for_wrapper_func")
        per.setdefault(cs if isinstance(cs, str) else T(cs), {})[nm.split("__rfm__")[0]] = ctext.Rendered(a["body"]).text
    if set(per) != set(tabs):
        raise AnalysisError(f"precompute routines registered for {sorted(per)}")
    for cs, fs in per.items():
        want = {str(k): v for k, v in zip(tabs[cs].freevars_uniq_xx_indep, tabs[cs].freevars_uniq_vals) if "_of_xx" in str(k)}
        al = {k.split(".")[-1]: s for kind, k, s, _ in cheap.events(fs["rfm_precompute_malloc"], BOUNDS) if kind == "alloc"}
        fr = [k.split(".")[-1] for kind, k, s, _ in cheap.events(fs["rfm_precompute_free"], BOUNDS) if kind == "free"]
        body, _ = ctext.parse(fs["rfm_precompute_defines"])
        written = {}
        for loop, idx, mem in writes(body, []):
            written.setdefault(mem, []).append((loop, idx))
        for m in want:
            d = rfm.DEPS[m]
            c = f"{m}"
            if m not in st:
                ctx.violation("rfm", f"{c}|declared", f"precomputed array {m} of coordinate system {cs} is not a member of rfm_struct")
            if m not in al:
                ctx.violation("rfm", f"{c}|allocated", f"precomputed array {m} of coordinate system {cs} is not allocated by rfm_precompute_malloc")
                continue
            w = S("sizeof(REAL)") * sp.prod([N[i] for i in d])
            if not at_least(al[m], w):
                ctx.violation("rfm", f"{c}|size", f"rfm_precompute_malloc allocates {m} with {al[m]}, needed {w}")
            if fr.count(m) != 1:
                ctx.violation("rfm", f"{c}|freed", f"rfm_precompute_free releases {m} {fr.count(m)} times")
            ws = written.get(m, [])
            ix = N[0] * sp.Symbol("i1") + sp.Symbol("i0") if d == (0, 1) else sp.Symbol(f"i{d[0]}")
            if not any(set(lp) == {(f"i{i}", "0", f"Nxx_plus_2NGHOSTS{i}") for i in d} and sp.expand(idx - ix) == 0 for lp, idx in ws):
                ctx.violation("rfm", f"{c}|filled", f"rfm_precompute_defines does not fill {m} at every point of directions {d}: {ws}")
            ctx.ok("rfm", 5)
        for m in set(al) - set(want):
            ctx.violation("rfm", f"{m}|extra", f"rfm_precompute_malloc allocates {m}, which coordinate system {cs} does not define")
        for m in set(fr) - set(al):
            ctx.violation("rfm", f"{m}|free", f"rfm_precompute_free releases {m}, which is not allocated for {cs}")


def writes(stmts, loops):
    for s in stmts:
        if s.k == "for":
            v, lo, hi, rel, step = mol.for_header(s)
            if v is None or rel != "<" or step != "1":
                continue
            yield from writes(s.body if isinstance(s.body, list) else [s.body], loops + [(v, lo, hi)])
        elif s.k == "block":
            yield from writes(s.body, loops)
        elif s.k == "expr" and s.e.k == "assign":
            a = strip(s.e.a)
            if a.k == "idx" and strip(a.a).k in ("mem", "member"):
                e = cheap.poly(a.i, {})
                e = e.subs({x: sp.Symbol(x.name) for x in e.free_symbols if re.fullmatch(r"i[012]", x.name)})
                yield tuple(loops), e, strip(a.a).m


# ---------------------------------------------------------------- element types
def element_types(ctx):
    """(T *)malloc(sizeof(U) * ...): U is the element type of the pointer"""
    seen = set()
    for t in templates.collect():
        for r in t["regs"]:
            for nm, b in ctyst.functions(r.body, r.prefunc, r.name):
                for n in walk(b):
                    if n.k not in ("assign", "decl"):
                        continue
                    for tgt, e, ty in [(canon(n.a), n.b, None)] if n.k == "assign" else [(d.name, d.init, n) for d in n.decls if d.init is not None]:
                        c = e
                        while c is not None and c.k == "paren":
                            c = c.e
                        if c is None or fname(c) not in ("malloc", "calloc", "realloc") or c.k != "cast":
                            continue
                        pt = re.sub(r"\b(restrict|const|struct)\b|\s+", "", "".join(c.type) if isinstance(c.type, list) else str(c.type))
                        call = strip(c)
                        so = [x for a in call.args for x in walk(a) if x.k == "sizeof" or (x.k == "call" and fname(x) == "sizeof")]
                        if len(so) != 1 or not pt.endswith("*"):
                            continue
                        st = re.sub(r"\b(restrict|const|struct)\b|\s+", "", sizeof_type(so[0]))
                        if not st or st in ("char", "unsignedchar"):
                            continue
                        key = (r.mod, nm, tgt)
                        if st != pt[:-1]:
                            ctx.violation("element", f"{r.mod.replace('nrpy.infrastructures.', '')}|{nm}|{tgt}", f"generated function {nm}: {tgt} is a {pt} but is allocated in units of sizeof({st})")
                        elif key not in seen:
                            seen.add(key)
                            ctx.ok("element")
    ctx.floor("element", 30)


def sizeof_type(n):
    return "".join(vtext(a) for a in n.args) if n.k == "call" else "".join(n.toks)


# ---------------------------------------------------------------- other pairs in one module
def pairs(ctx):
    """structure members both allocated and released by routines of one module: the same members,
    the same element ranges, elements before containers"""
    mods = {}
    for t in templates.collect():
        for r in t["regs"]:
            for nm, b in ctyst.functions(r.body, r.prefunc, r.name):
                al = fr = 0
                for n in walk(b):
                    if n.k == "assign" and fname(n.b) in ("malloc", "calloc") and strip(n.a).k != "id":
                        al += 1
                    elif n.k == "call" and fname(n) == "free" and strip(n.args[0]).k in ("mem", "member", "idx"):
                        fr += 1
                if al or fr:
                    mods.setdefault((r.infra, r.mod), {})[nm] = (al, fr, b)
    out = 0
    for (infra, mod), fs in mods.items():
        if mod.endswith(("MoL", "checkpointing", "bhah_lib", "griddata_commondata", "superB_pup")):
            continue
        A = [(n, b) for n, (al, fr, b) in fs.items() if al and not fr]
        F = [(n, b) for n, (al, fr, b) in fs.items() if fr and not al]
        for fn, fb in F:
            fev = [e for e in cheap.events_ast(fb, {**BOUNDS, "tot_num_dst_chares": 2, "tot_num_src_chares": 3}, name=fn) if e[0] == "free"]
            bases = {re.split(r"[.\[]", e[1])[0] for e in fev}
            aev = []
            for an, ab in A:
                try:
                    ev = [e for e in cheap.events_ast(ab, {**BOUNDS, "tot_num_dst_chares": 2, "tot_num_src_chares": 3}, name=an) if e[0] == "alloc"]
                except AnalysisError:
                    if bases & {re.split(r"->|\.|\[", canon(n.a))[0] for n in walk(ab) if n.k == "assign" and fname(n.b) == "malloc"}:
                        raise
                    continue
                aev += [e for e in ev if re.split(r"[.\[]", e[1])[0] in bases and "." in e[1]]
            if not aev:
                continue
            out += 1
            lifecycle(ctx, f"{mod.replace('nrpy.infrastructures.', '')}: {fn}", aev + fev)
            for kind, key, size, f in aev:
                m = re.search(r"tmpBuffer_(EW|NS|TB)$", key)
                if m:
                    d = {"EW": (1, 2), "NS": (0, 2), "TB": (0, 1)}[m[1]]
                    want = S("sizeof(REAL)") * S("max_sync_gfs") * 3 * N[d[0]] * N[d[1]]
                    if not at_least(size, want):
                        ctx.violation("size", f"{f}|{key}", f"{f} allocates {key} with {size}; a face exchange fills {want}")
                    else:
                        ctx.ok("size")
    ctx.ok("pairs", out)
    ctx.floor("pairs", 2)


def run(ctx):
    P = Program()
    ctx.rule("declared", "every gridfuncs member a generated time-integration routine mentions is declared in MoL_gridfunctions_struct")
    ctx.rule("allocated", "every stage array touched by the time step or named by a diagnostics pointer is provided by the allocation routines")
    ctx.rule("size", "allocated sizes, as polynomials in the grid sizes, cover the index range")
    ctx.rule("released", "each allocation routine and its release routine handle the same members, with NUM_AUXEVOL_GFS zero and positive")
    ctx.rule("program", "calls of main / the library interface inlined: every block obtained once, released once, elements before containers, none held at the end, across checkpoint and restart")
    ctx.rule("rfm", "precomputed arrays: declared, allocated, filled at every index, released, per coordinate system")
    ctx.rule("pairs", "other allocate/release routine pairs of one module")
    ctx.rule("local", "typestate of resources obtained into locals: released on every normal exit, once, with the same kind and bounds, not used afterwards")
    ms = mol.methods(P)
    for infra in ("BHaH", "superB"):
        for meth, tab in ms.items():
            if tab[0][-1][0] != "":
                continue  # adaptive tables are refused
            ctx.attempt(f"stage arrays of {infra}/{meth}", stage_arrays, ctx, P, infra, meth, tab)
    ctx.floor("allocated", 100)
    ctx.attempt("whole program", bhah_program, ctx, P)
    ctx.attempt("reference-metric precompute", rfm_precompute, ctx)
    ctx.attempt("allocate/release pairs", pairs, ctx)
    ctx.rule("element", "the unit of every cast allocation is the element type of the pointer it is cast to")
    ctx.attempt("element types", element_types, ctx)
    ctx.attempt("local resources", local_resources, ctx)
