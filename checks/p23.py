"""P23: every documented option value is handled, any other value is refused; generated dispatch
over coordinate systems reaches the routine of that coordinate system and stops otherwise."""

import re

from sa import closed, ctext, templates
from sa.absint import AnalysisError, Cls, Exc, Func, Inst, PyRaise, Sym, Tmpl, sym_params, vkey

GR = "nrpy.equations.general_relativity."
BH = "nrpy.infrastructures.BHaH."
SB = "nrpy.infrastructures.superB."
CF = ("phi", "W", "chi")
INFRA = ("BHaH", "ETLegacy", "CarpetX")
CONTAINS = "contains"  # the option is recognised by a family name occurring in it
LAPSE = ("OnePlusLog", "HarmonicSlicing", "Frozen", "OnePlusLogAlt")
SHIFT = (
    "Frozen", "GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted",
    "GammaDriving1stOrder_Covariant", "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving",
)
RFM = (
    "Spherical", "SinhSpherical", "SinhSphericalv2n2", "SinhSphericalv2n8", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical",
    "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph", "RingHoleySinhSpherical", "HoleySinhSpherical",
)
# (callee, option, documented values, settings of other options, mode)
#   option "par:NAME" is the global generation setting NAME; otherwise a formal parameter
T = []


def t(q, opt, vals, fixed=None, mode="", distinct=False):
    T.append((q, opt, tuple(vals), fixed or {}, mode, distinct))



t("nrpy.grid:register_gridfunctions", "par:Infrastructure", INFRA, dict(names="phi", group="EVOL", dimension=3), "closed")
GRP = ("EVOL", "AUX", "AUXEVOL")
t("nrpy.grid:BHaHGridFunction", "group", GRP, dict(name="phi", rank=0, dimension=3))
t("nrpy.grid:ETLegacyGridFunction", "group", GRP, dict(name="phi", rank=0, dimension=3))
t("nrpy.grid:CarpetXGridFunction", "group", GRP + ("EXTERNAL", "CORE", "TILE_TMP", "SCALAR_TMP"), dict(name="phi", rank=0, dimension=3, centering="CCC"))
t("nrpy.params:CodeParameter", "assumption", ("Real", "RealPositive"), dict(cparam_type="REAL", module="m", name="p", defaultvalue=1.0))
for k, pairs in ((2, ("01",)), (3, ("01", "02", "12", "012")), (4, ("01", "02", "03", "12", "13", "23", "012", "013", "023", "123", "0123", "01_23"))):
    one = [s + p for s in ("sym", "anti") for p in pairs if len(p) == 2]
    t(f"nrpy.indexedexp:declarerank{k}", "symmetry", one + ["nosym"] + [s + p for s in ("sym", "anti") for p in pairs if len(p) > 2 and "_" not in p], dict(idx_expr_basename="A", dimension=4), "closed")
for q in ("ADM_to_BSSN:ADM_to_BSSN", "BSSN_RHSs:BSSNRHSs", "BSSN_to_ADM:BSSN_to_ADM", "BSSN_quantities:BSSNQuantities"):
    t(GR + q, "par:EvolvedConformalFactor_cf", CF)
t(GR + "BSSN_gauge_RHSs:BSSN_gauge_RHSs", "LapseEvolutionOption", LAPSE)
t(GR + "BSSN_gauge_RHSs:BSSN_gauge_RHSs", "ShiftEvolutionOption", SHIFT)
t(GR + "InitialData_Cartesian:InitialData_Cartesian", "IDtype", ("BrillLindquist",))
t(GR + "InitialData_Spherical:InitialData_Spherical", "IDtype", ("UIUCBlackHole", "StaticTrumpet", "OffsetKerrSchild"))
t(GR + "psi4_tetrads:Psi4Tetrads", "tetrad", ("quasiKinnersley",))
t("nrpy.equations.wave_equation.WaveEquation_Solutions_InitialData:WaveEquation_solution_Cartesian", "WaveType", ("PlaneWave", "SphericalGaussian"))
t("nrpy.reference_metric:ReferenceMetric", "CoordSystem", RFM)
for f, n in (("rhs_eval", "register_CFunction_rhs_eval"),):
    t(BH + "general_relativity.BSSN_C_codegen_library:" + n, "par:EvolvedConformalFactor_cf", CF)
    t("nrpy.infrastructures.ETLegacy.general_relativity.rhs_eval:" + n, "par:EvolvedConformalFactor_cf", CF)
    t("nrpy.infrastructures.CarpetX.general_relativity.rhs_eval:" + n, "par:EvolvedConformalFactor_cf", CF)
t(BH + "simple_loop:simple_loop", "loop_region", ("", "all points", "interior", "interior plus one upper"), dict(loop_body="BODY;"))
t("nrpy.infrastructures.ETLegacy.simple_loop:simple_loop", "loop_region", ("all points", "interior"), dict(loop_body="BODY;"))
t("nrpy.infrastructures.CarpetX.simple_loop:simple_loop", "loop_region", ("all points", "interior"), dict(loop_body="BODY;"))
for m in (BH + "simple_loop", SB + "simple_loop_diagnostic"):
    q = dict(out_quantities_dict={("REAL", "f"): "g"}) if m.startswith(BH) else {}
    t(m + ":simple_loop_1D", "axis", ("y", "z"), q)
    cs = RFM if m.startswith(BH) else [c for c in RFM if "Wedge" not in c]
    t(m + ":simple_loop_1D", "CoordSystem", cs, dict(q, axis="y"), CONTAINS)
    t(m + ":simple_loop_1D", "CoordSystem", cs, dict(q, axis="z"), CONTAINS)
    t(m + ":simple_loop_2D", "plane", ("xy", "yz"), q)
    t(m + ":simple_loop_2D", "CoordSystem", cs, dict(q, plane="xy"), CONTAINS)
    t(m + ":simple_loop_2D", "CoordSystem", cs, dict(q, plane="yz"), CONTAINS)
for m in (BH + "diagnostics.output_0d_1d_2d_nearest_gridpoint_slices", SB + "output_0d_1d_2d_nearest_gridpoint_slices"):
    q = dict(out_quantities_dict={("REAL", "f"): "g"})
    t(m + ":register_CFunction_diagnostics_nearest_grid_center", "CoordSystem", [c for c in RFM if "Wedge" not in c], q, CONTAINS)
    t(m + ":register_CFunction_diagnostics_nearest_1d_axis", "axis", ("y", "z"), dict(q, CoordSystem="Spherical"))
    t(m + ":register_CFunction_diagnostics_nearest_2d_plane", "plane", ("xy", "yz"), dict(q, CoordSystem="Spherical"))
t(BH + "xx_tofrom_Cart:register_CFunction__Cart_to_xx_and_nearest_i0i1i2", "gridding_approach", ("independent grid(s)", "multipatch"))
t(BH + "numerical_grids_and_timestep:register_CFunction_numerical_grids_and_timestep", "gridding_approach", ("independent grid(s)", "multipatch"), dict(list_of_CoordSystems=["Spherical"], list_of_grid_physical_sizes=[1.0]))
t(BH + "general_relativity.ADM_Initial_Data_Reader__BSSN_Converter:register_CFunction_exact_ADM_ID_function", "IDCoordSystem", ("Spherical", "Cartesian"))
t(BH + "MoLtimestepping.MoL:register_CFunction_MoL_malloc", "which_gfs", ("y_n_gfs", "non_y_n_gfs"))
t(BH + "MoLtimestepping.MoL:register_CFunction_MoL_free_memory", "which_gfs", ("y_n_gfs", "non_y_n_gfs"))
t(SB + "timestepping_chare:generate_mol_step_forward_code", "outer_bcs_type", ("radiation", "extrapolation"))
t("nrpy.c_codegen:CCodeGen", "fp_type", ("double", "float", "long double"), dict(enable_simd=False, enable_GoldenKernels=False, enable_cse_preprocess=False))
t("nrpy.c_codegen:CCodeGen", "cse_sorting", ("canonical", "none"), dict(enable_simd=False, enable_GoldenKernels=False, enable_cse_preprocess=False, fp_type="double"))
t("nrpy.c_codegen:CCodeGen", "mem_alloc_style", ("210", "012"), dict(enable_simd=False, enable_GoldenKernels=False, enable_cse_preprocess=False, fp_type="double"))
FRESH = "\x01\x02"  # shares no character with any literal of the analysed code


def near(v, values, mode):
    """values that are not documented: v garbled, extended, shortened, in another case"""
    c = {v + FRESH, FRESH + v, v + v, v.lower(), v.upper(), v.swapcase(), v[:-1], v[1:], v + " ", " " + v}
    if mode == CONTAINS:
        c = {v.lower(), v.upper()}
        c = {x for x in c if not any(w in x for w in ("Cartesian", "Spherical", "Cylindrical", "SymTP", "Wedge"))}
    return sorted(x for x in c if x not in values and x != "")


def literal_model(I, f, a, k, n):
    """nrpy's run-time check of Literal-annotated parameters, applied to the calling function"""
    import ast

    fr = I.frames[-1] if getattr(I, "frames", None) else None
    if fr is None:
        return None
    fn, scope = fr
    args = fn.node.args
    for p in args.posonlyargs + args.args + args.kwonlyargs:
        ann = p.annotation
        if isinstance(ann, ast.Name):
            alias = ann.id
            for st in fn.mod.tree.body:
                if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == alias for x in st.targets):
                    ann = st.value
        if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] == "Literal":
            sl = ann.slice
            vals = [e.value for e in (sl.elts if isinstance(sl, ast.Tuple) else [sl]) if isinstance(e, ast.Constant)]
            v = I.resolve(scope.vars.get(p.arg))
            if isinstance(v, str) and v not in vals:
                raise PyRaise(Exc("ValueError", (f"parameter {p.arg} has value {v!r}",)), n)
    return None


def interp(qual, option, value, fixed, mode, paths=64):
    I = closed.make() if mode == "closed" else templates.make_interp(max_paths=paths)
    m = qual.split(":")[0]
    I.enter_module = m + "."  # other equation modules stay opaque
    I.models["nrpy.helpers.type_annotation_utilities.validate_literal_arguments"] = literal_model
    ov = dict(fixed)
    if option.startswith("par:"):
        name = option[4:]

        def parval(I, f, a, k, n):
            key = a[0] if a else k.get("parameter_name")
            if isinstance(key, str) and key.split("::")[-1] == name:
                return value
            return Sym(f"parval[{vkey(key)}]")

        I.models["nrpy.params.parval_from_str"] = parval
    else:
        ov[option] = value

    def entry(I):
        f = I.func(qual)
        g = f
        if isinstance(f, Cls):
            r = f.lookup("__init__")
            if r is None or not isinstance(r[0], Func):
                raise AnalysisError(f"{qual} has no constructor")
            g = r[0]
        a = g.node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if not option.startswith("par:") and option not in names and not a.kwarg:
            raise AnalysisError(f"{qual} has no parameter {option}")
        kw = {} if mode == "closed" else {p: v for p, v in sym_params(g).items()}
        kw.update({p: v for p, v in ov.items() if p in names or a.kwarg})
        if isinstance(f, Cls):
            o = Inst(f)
            I.call_func(g.bind(o), [], kw, None)
            return o
        return I.call_func(g, [], kw, None)

    return I, I.run(entry)


def loc(qual):
    m, f = qual.split(":")
    return m.replace(".", "/") + ".py:" + f


def accepted(trs):
    return [x for x in trs if x.outcome[0] != "raise"]


def crash(trs):
    """raised only because the analysed call does not fit the function any more"""
    return trs and all(x.outcome[0] == "raise" and x.outcome[1].args and str(x.outcome[1].args[0]).startswith("!") for x in trs)


def jobs():
    for e in T:
        qual, opt, vals, fixed, mode, _ = e
        bad = [FRESH] + sorted({x for v in vals for x in near(v, vals, mode)})
        if "" not in vals and opt in ("axis", "plane", "which_gfs"):
            bad.append("")
        for v in vals:
            yield e, v, True
        for v in bad:
            if qual.endswith(":ReferenceMetric") and v.startswith(("SinhSphericalv2n", "SinhCylindricalv2n")) and v.split("v2n")[1].isdigit():
                continue  # SinhSphericalv2n<even> is a family
            if opt == "symmetry" and (symmetry_ok(v, int(qual[-1])) or v in [x + x for x in vals]):
                continue
            yield e, v, False


def one(job):
    """None if the obligation holds, (kind, text) otherwise"""
    (qual, opt, vals, fixed, mode, _), v, documented = job
    try:
        I, trs = interp(qual, opt, v, fixed, mode, 6 if documented else 64)
        if crash(trs):
            return "undecided", f"the analysed call no longer fits: {trs[0].outcome[1].args[0]}"
        acc = accepted(trs)
        if documented:
            if acc or I.truncated:
                return None
            o = trs[0].outcome[1] if trs else None
            return "handled", f"documented value {v!r} is refused on every path: {o.name if o else ''} {str(o.args)[:120] if o else ''}"
        if acc:
            return "refused", f"undocumented value {v.replace(FRESH, '?')!r} is accepted (path: {acc[0].cond()[:160] or 'unconditional'})"
        if I.truncated:
            return "undecided", "too many paths"
        return None
    except Exception as x:  # reported as undecided
        return "undecided", f"{type(x).__name__}: {str(x)[:160]}"


def options(ctx):
    js = list(jobs())
    seen = set()
    for (e, v, documented), r in zip(js, templates.pmap(one, js)):
        qual, opt, _, fixed, mode, _ = e
        what = f"{loc(qual)} option {opt.split(':')[-1]}"
        if mode == CONTAINS:
            what += "".join(f" with {k}={x}" for k, x in fixed.items() if isinstance(x, str))
        if r is None:
            ctx.ok("handled" if documented else "refused")
        elif r[0] == "undecided":
            if (what, r[1]) not in seen:
                ctx.undecided(what, r[1])
            seen.add((what, r[1]))
        elif (r[0], what) not in seen:
            seen.add((r[0], what))
            ctx.violation(r[0], what, r[1])
    for e in T:
        ctx.sample(f"{loc(e[0])} {e[1]} in {list(e[2])[:6]}")


def symmetry_ok(v, rank):
    """symmetry specifications that have a meaning: sym/anti followed by increasing distinct slots of the rank"""
    for part in v.split("_"):
        m = re.fullmatch(r"(sym|anti)(\d+)", part)
        if not (m and len(m.group(2)) >= 2 and all(int(c) < rank for c in m.group(2)) and list(m.group(2)) == sorted(set(m.group(2)))):
            return v == "nosym"
    return True


# --------------------------------------------------------------------------- dispatch over coordinate systems
PARAMS = {
    "f": ("const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict xx[3], const REAL xCart[3], int *n", ["commondata", "params", "xx", "xCart", "n"]),
    "f_extra": ("commondata_struct *restrict commondata,\n    const params_struct *restrict params,\n   const REAL   a , REAL *b", ["commondata", "params", "a", "b"]),
    "g": ("const commondata_struct *restrict commondata, const params_struct *restrict params, void ID_function(const commondata_struct *restrict commondata, const REAL xCart[3], REAL *out), const int k", ["commondata", "params", "ID_function", "k"]),
    "h": ("const params_struct *restrict params", ["params"]),
    "w8": ("const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL in_gfs[NUM_EVOL_GFS], REAL *restrict auxevol_gfs", ["commondata", "params", "in_gfs", "auxevol_gfs"]),
}
FAM = {
    "one system": dict(f=["Spherical"]),
    "names inside names": dict(f=["Spherical", "SinhSpherical", "SinhSphericalv2n2", "HoleySinhSpherical"], f_extra=["SinhSpherical", "Spherical"]),
    "different sets": dict(f=["Cartesian", "SinhSymTP", "Cylindrical"], g=["SymTP", "SinhSymTP"], h=["Cartesian"], w8=["Cylindrical", "SymTP", "LWedgeHSinhSph"]),
    "interleaved": dict(g=["Spherical", "Cartesian"], w8=["Cartesian", "Spherical"], f_extra=["Cartesian", "Spherical"]),
}
WF = "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py:register_CFunctions_CoordSystem_wrapper_funcs"


def plain(v):
    r = ctext.Rendered(v)
    if r.holes:
        raise AnalysisError("generated text depends on an unknown value")
    return r.text


def strip_comments(t):
    return re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", " ", t, flags=re.S))


def cases(body):
    """{label or None: statement text} of the single switch in body, and the text before/after"""
    b = strip_comments(body)
    m = re.match(r"(.*?)switch\s*\(([^)]*)\)\s*\{(.*)\}(.*)$", b, re.S)
    if not m:
        raise AnalysisError("no switch statement in the wrapper")
    out, cur = {}, None
    toks = re.split(r"(\bcase\s+\w+\s*:|\bdefault\s*:)", m.group(3))
    if toks[0].strip():
        raise AnalysisError("code before the first case")
    labs = []
    for i in range(1, len(toks), 2):
        lab = None if toks[i].startswith("default") else toks[i].split()[1].rstrip(":").strip()
        labs.append(lab)
        out.setdefault(lab, []).append(toks[i + 1].strip())
    return m.group(1).strip(), m.group(2).strip(), out, labs, m.group(4).strip()


def wrappers(ctx, fam, sets, order):
    decl = [(n, c) for n in sets for c in sets[n]]
    if order == "by system":
        decl = sorted(decl, key=lambda x: (x[1], x[0]))
    elif order == "reversed":
        decl = decl[::-1]

    def entry(I):
        for n, c in decl:
            closed.call(
                I, "nrpy.c_function:register_CFunction", name=n, desc="d", params=PARAMS[n][0], body=f"body_{n}_{c};\n", CoordSystem_for_wrapper_func=c, include_CodeParameters_h=False,
                subdirectory="sub_" + n, cfunc_type="void",
            )
        closed.call(I, "nrpy.c_function:register_CFunction", name="plain", desc="d", params="void", body="pb;\n")
        closed.call(I, "nrpy.infrastructures.BHaH.rfm_wrapper_functions:register_CFunctions_CoordSystem_wrapper_funcs")
        m = I.module("nrpy.c_function").scope.vars["CFunction_dict"]
        return {k: (v.attrs["name"], v.attrs["params"], v.attrs["body"], v.attrs["cfunc_type"]) for k, v in m.items()}

    I = closed.make(models=closed.record_models("nrpy.infrastructures.BHaH.BHaH_defines_h.register_BHaH_defines"), host=("sympy", "hashlib"))
    trs = I.run(entry)
    if len(trs) != 1 or trs[0].outcome[0] != "return":
        raise AnalysisError(f"{len(trs)} paths, {trs[0].outcome[0]} {str(trs[0].outcome[1])[:120]}")
    tr = trs[0]
    reg = tr.outcome[1]
    defs = {}
    for e in tr.effects:
        if e["kind"] == "register_defines":
            for v in e["args"].values():
                if isinstance(v, (str, Tmpl)):
                    for a, b in re.findall(r"#define\s+(\w+)\s+(-?\d+)\b", plain(v)):
                        if defs.setdefault(a, int(b)) != int(b):
                            ctx.violation("hash", WF, f"[{fam}] {a} is defined twice with different values")
    if len(set(defs.values())) != len(defs):
        ctx.violation("hash", WF, f"[{fam}] two coordinate systems share a dispatch value: {defs}")
    ctx.ok("hash", len(defs))
    for n, systems in sets.items():
        for c in systems:
            if f"{n}__rfm__{c}" not in reg:
                ctx.violation("dispatch", WF, f"[{fam}] routine {n} of {c} is not registered as {n}__rfm__{c}")
        if n not in reg:
            ctx.violation("dispatch", WF, f"[{fam}] no wrapper {n}")
            continue
        _, prm, body, typ = reg[n]
        if " ".join(plain(prm).split()) != " ".join(PARAMS[n][0].split()) or plain(typ).strip() != "void":
            ctx.violation("dispatch", WF, f"[{fam}] the wrapper {n} does not have the signature of the routines it stands for")
        pre, on, cs, labs, post = cases(plain(body))
        if pre or post or on.replace(" ", "") != "params->CoordSystem_hash":
            ctx.violation("dispatch", WF, f"[{fam}] wrapper {n}: unexpected code around the dispatch on the grid's coordinate system: {on!r} {pre!r} {post!r}")
        want = {}
        for c in systems:
            lab = [d for d in defs if d == c.upper()]
            if not lab:
                ctx.violation("dispatch", WF, f"[{fam}] no dispatch value is defined for {c}")
                continue
            want[lab[0]] = c
        for lab, c in want.items():
            st = cs.get(lab)
            if not st or len(st) != 1:
                ctx.violation("dispatch", WF, f"[{fam}] wrapper {n} has {len(st or [])} cases for {c}")
                continue
            m = re.fullmatch(r"\{?\s*(\w+)\s*\((.*)\)\s*;\s*(break|return)\s*;\s*\}?", st[0], re.S)
            if not m:
                ctx.violation("dispatch", WF, f"[{fam}] wrapper {n}, case {c}: {st[0][:80]!r} is not one call followed by break")
                continue
            args = [x.strip() for x in m.group(2).split(",")]
            if m.group(1) != f"{n}__rfm__{c}" or args != PARAMS[n][1]:
                ctx.violation("dispatch", WF, f"[{fam}] wrapper {n}, case {c}: calls {m.group(1)}({', '.join(args)})")
                continue
            ctx.ok("dispatch")
        for lab in cs:
            if lab is not None and lab not in want:
                ctx.violation("dispatch", WF, f"[{fam}] wrapper {n} has a case {lab} for which no routine is registered")
        d = cs.get(None)
        if not d or not re.search(r"\b(exit|abort)\s*\(\s*[^0\s)]*[1-9A-Z]\w*\s*\)|\babort\s*\(\s*\)", d[0]) or not re.search(r"printf\s*\(|puts\s*\(|perror\s*\(", d[0]):
            ctx.violation("default", WF, f"[{fam}] wrapper {n}: any other coordinate system does not stop with a diagnostic: {(d or [''])[0][:100]!r}")
        else:
            ctx.ok("default")
    for k in reg:
        if k not in sets and k != "plain" and not re.fullmatch(r"(\w+?)__rfm__(\w+)", k):
            ctx.violation("dispatch", WF, f"[{fam}] unexpected function {k}")


def grids(ctx):
    where = "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py:register_CFunction_numerical_grids_and_timestep"
    for lst in (["Spherical"], ["SinhSpherical", "Cartesian", "SinhSymTP"], ["Cartesian", "Cartesian"]):
        sizes = [7.5 + 2 * i for i in range(len(lst))]
        I = closed.make(models=closed.record_models())
        trs = I.run(lambda I: closed.call(I, "nrpy.infrastructures.BHaH.numerical_grids_and_timestep:register_CFunction_numerical_grids_and_timestep", lst, sizes))
        regs = [e["args"] for e in trs[0].effects if e["kind"] == "register_CFunction"]
        if len(trs) != 1 or len(regs) != 1:
            raise AnalysisError(f"{len(trs)} paths, {len(regs)} registrations")
        b = strip_comments(plain(regs[0]["body"]))
        n = re.findall(r"NUMGRIDS\s*=\s*(\d+)\s*;", b)
        if n != [str(len(lst))]:
            ctx.violation("grid hash", where, f"{lst}: number of grids set to {n}")
        grid, got, cur = None, [], {}
        for m in re.finditer(r"int\s+grid\s*=\s*(\d+)\s*;|grid\s*\+\+\s*;|(?:\+\+\s*grid|grid\s*\+=\s*1)\s*;|griddata\s*\[\s*(\w+)\s*\]\s*\.\s*params\s*\.\s*(CoordSystem_hash|grid_physical_size)\s*=\s*([^;]+);|(numerical_grid_params_Nxx_dxx_xx\s*\([^;]*;)", b):
            if m.group(1) is not None:
                if re.match(r"int\s+grid", m.group(0)) and "for" in b[max(0, m.start() - 6) : m.start()]:
                    break
                grid = int(m.group(1))
            elif m.group(2):
                ix = grid if m.group(2) == "grid" else int(m.group(2))
                cur.setdefault(ix, {})[m.group(3)] = m.group(4).strip()
            elif m.group(5):
                ixs = set(re.findall(r"griddata\s*\[\s*(\w+)\s*\]", m.group(5)))
                ixs = {grid if x == "grid" else int(x) for x in ixs}
                if len(ixs) != 1:
                    ctx.violation("grid hash", where, f"{lst}: one set-up call mixes grids {ixs}")
                    continue
                ix = ixs.pop()
                got.append((ix, cur.get(ix, {}).get("CoordSystem_hash"), cur.get(ix, {}).get("grid_physical_size")))
            elif grid is not None:
                grid += 1
        want = [(i, c.upper(), str(s)) for i, (c, s) in enumerate(zip(lst, sizes))]
        if got != want:
            ctx.violation("grid hash", where, f"grids {lst} of sizes {sizes} are set up as {got}")
        else:
            ctx.ok("grid hash", len(want))


def run(ctx):
    ctx.rule("handled", "interpretation with the option set to each documented value and every other argument unknown: some path completes")
    ctx.rule("refused", "interpretation with the option set to a value sharing no character with any literal, and to garbled, shortened, extended and re-cased documented values, every other argument unknown: every path raises")
    ctx.attempt("options", options, ctx)
    ctx.floor("handled", 150)
    ctx.floor("refused", 400)
    ctx.rule("dispatch", "for each registered coordinate system exactly one case, which calls that system's routine with the wrapper's own parameters in order and leaves the switch")
    ctx.rule("default", "any other value prints a diagnostic and exits non-zero")
    ctx.rule("hash", "every coordinate system has one dispatch value, pairwise different")
    ctx.rule("grid hash", "the i-th grid gets the dispatch value and size of the i-th requested coordinate system before its set-up call")
    for fam, sets in FAM.items():
        for order in ("declared", "by system", "reversed"):
            ctx.attempt(f"{WF} [{fam}, {order}]", wrappers, ctx, f"{fam}, {order}", sets, order)
    ctx.attempt("grid hash", grids, ctx)
    ctx.floor("dispatch", 60)
