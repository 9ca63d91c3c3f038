"""P24: thorn configuration files (make.code.defn, schedule.ccl, interface.ccl, param.ccl) agree
with the functions, fields and parameters registered for the thorn."""

import itertools
import re

from sa import closed, templates
from sa.absint import AnalysisError, Tmpl

GROUPS = {"evol_variables", "evol_variables_rhs", "auxevol_variables", "aux_variables"}
INF = {
    "ETLegacy": dict(ext=".c", known=["STARTUP", "Driver_BoundarySelect", "BASEGRID", "CCTK_INITIAL", "MoL_Register", "MoL_CalcRHS", "MoL_PostStep", "MoL_PseudoEvolution"]),
    "CarpetX": dict(ext=".cxx", known=["STARTUP", "BASEGRID", "CCTK_INITIAL", "ODESolvers_RHS", "ODESolvers_PostStep"]),
}
OWN, OTHER = "ThornA", {"U": "Thorn", "V": "ThornAB"}  # names that contain each other
FIELDS = [  # (group, names, rank, dimension)
    ("EVOL", ["uu", "vv"], 0, 3), ("EVOL", ["WavU0", "WavU1", "WavU2"], 1, 3), ("EVOL", ["aDD00", "aDD01", "aDD02", "aDD11", "aDD12", "aDD22"], 2, 3),
    ("AUX", ["Ham"], 0, 3), ("AUX", ["MU0", "MU1", "MU2"], 1, 3),
    ("AUXEVOL", ["RbarDD00", "RbarDD01", "RbarDD02", "RbarDD11", "RbarDD12", "RbarDD22"], 2, 3), ("AUXEVOL", [f"T4UU{i}{j}" for i in range(4) for j in range(i, 4)], 2, 4),
]


def txt(v):
    if isinstance(v, Tmpl):
        if any(not isinstance(p, str) for p in v.parts):
            raise AnalysisError("unknown text in a configuration file")
        return "".join(v.parts)
    if not isinstance(v, str):
        raise AnalysisError(f"configuration text is not a string: {v!r}")
    return v


def history(fn):
    I = closed.make(models=closed.file_models())
    I.patterns = list(I.patterns) + [(re.compile(r".*sys\.stdout"), False)]  # terminal colours of progress messages
    trs = I.run(fn)
    if len(trs) != 1:
        raise AnalysisError(f"{len(trs)} paths in a closed history: {[t.cond() for t in trs][1][:200]}")
    o = trs[0].outcome
    if o[0] == "raise":
        return None, str(o[1]), {}
    fl = {}
    for p, t in closed.files(trs[0]).items():
        m = re.findall(r"[\w.]+", p)
        fl[p] = t
    return trs[0], None, fl


def pick(fl, *need):
    out = [t for p, t in fl.items() if all(n in p for n in need)]
    if len(out) != 1:
        raise AnalysisError(f"{len(out)} files matching {need} among {sorted(fl)[:6]}")
    return out[0]


def register(I, name, thorn, bins=None, params=None, sub=None):
    kw = dict(name=name, desc="d", body=f"body_{name};\n", params="CCTK_ARGUMENTS", subdirectory=sub if sub is not None else thorn, ET_thorn_name=thorn)
    if bins is not None:
        kw["ET_schedule_bins_entries"] = [(b, e) for b, e in bins]
    if params is not None:
        kw["ET_current_thorn_CodeParams_used"] = list(params)
    closed.call(I, "nrpy.c_function:register_CFunction", **kw)


def code_params(I):
    for t, n, d in (("REAL", "eta", 2.0), ("int", "FD_order", 4), ("REAL", "lapse_floor", 1e-15), ("REAL", "PI", 3.14), ("bool", "flag", True), ("REAL", "unused", 7.0)):
        closed.call(I, "nrpy.params:register_CodeParameter", t, "modX", n, d)


PARAMS = {"eta": ("CCTK_REAL", 2.0), "FD_order": ("CCTK_INT", 4), "lapse_floor": ("CCTK_REAL", 1e-15), "PI": ("CCTK_REAL", 3.14), "flag": ("bool", True)}


def setup(I, inf):
    closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", inf)


# ------------------------------------------------------------------ make.code.defn
def sources(ctx, inf):
    mod = f"nrpy.infrastructures.{inf}.make_code_defn"
    where = f"{mod}:output_CFunctions_and_construct_make_code_defn"
    ext = INF[inf]["ext"]
    for own, other in ((["T_a"], []), (["T_zz", "T_a", "T_m"], ["U_b"]), (["T_c", "T_a"], ["U_a", "U_z"]), (["T_x"], ["VT_y", "UTx"]), (["T_b", "T_a", "T_d", "T_c", "T_e"], ["U_q"])):
        def fn(I, own=own, other=other):
            setup(I, inf)
            for n in other[:1]:
                register(I, n, OTHER[n[0]])
            for n in own:
                register(I, n, OWN)
            for n in other[1:]:
                register(I, n, OTHER[n[0]])
            closed.call(I, f"{mod}:output_CFunctions_and_construct_make_code_defn", "proj", OWN)

        def go(own=own, other=other, fn=fn):
            tr, err, fl = history(fn)
            if err:
                ctx.violation("sources", where, f"generation fails: {err[:160]}")
                return
            t = pick(fl, "make.code.defn")
            body = "\n".join(x.split("#")[0] for x in t.splitlines())
            m = re.search(r"^SRCS\s*=(.*?)(?<!\\)$", body, re.S | re.M)
            ctx.ok("sources")
            listed = m[1].replace("\\\n", " ").replace("\\", " ").split() if m else []
            want = sorted(n + ext for n in own)
            if sorted(listed) != want:
                ctx.violation("sources", where, f"functions {own} of thorn T (and {other} of other thorns): SRCS = {listed} instead of {want}")
            lines = [x for x in body.splitlines() if x.strip()]
            if lines and lines[-1].rstrip().endswith("\\"):
                ctx.violation("sources", where, "the last source line ends in a continuation")
            src = {p: x for p, x in fl.items() if "make.code.defn" not in p}
            for n in own:
                hit = [x for p, x in src.items() if re.search(rf"\b{n}{re.escape(ext)}'", p) and f"'{OWN}'" in p]
                if len(hit) != 1:
                    ctx.violation("sources", where, f"{n}{ext} is listed but written {len(hit)} times under T/src ({sorted(src)[:3]})")
                elif f"body_{n};" not in hit[0] or any(f"body_{k};" in hit[0] for k in own + other if k != n):
                    ctx.violation("sources", where, f"file {n}{ext} does not hold the function {n}")
            if len(src) != len(own):
                ctx.violation("sources", where, f"{len(src)} source files written for {len(own)} functions")

        ctx.attempt(f"{where} {own}", go)


# ------------------------------------------------------------------ schedule.ccl
def entry(b, tag):
    return f"\nschedule FUNC_NAME in {b} as A_{tag}\n{{\n  LANG: C\n}} \"{tag}\"\n"


def schedules(ctx, inf):
    mod = f"nrpy.infrastructures.{inf}.schedule_ccl"
    where = f"{mod}:construct_schedule_ccl"
    known = INF[inf]["known"]
    bins = known + [known[2].lower(), "CCTK_ANALYSIS", "SomeGroup"]
    cases = [[("T_f", [b])] for b in bins]
    cases += [[("T_f", [a, b])] for a, b in ((known[-1], known[-2]), ("CCTK_ANALYSIS", known[0]), ("SomeGroup", "CCTK_ANALYSIS"), (known[1], known[1]))]
    cases += [[("T_f", [known[0]]), ("T_g", [known[0]])], [("T_g", [known[3]]), ("T_f", [known[1], "Other"]), ("T_h", None)], [(f"T_{i}", [b]) for i, b in enumerate(bins)], [(f"T_{i}", [b]) for i, b in enumerate(reversed(bins))]]
    for case, extra in itertools.product(cases, (None, [(known[-1], "x1"), ("Other2", "x2")])):
        def fn(I, case=case, extra=extra):
            setup(I, inf)
            register(I, "U_before", "Thorn", [(known[0], entry(known[0], "ub"))])
            for n, bs in case:
                register(I, n, OWN, None if bs is None else [(b, entry(b, f"{n}_{i}")) for i, b in enumerate(bs)])
            register(I, "U_after", "ThornAB", [(known[-1], entry(known[-1], "ua"))])
            kw = {} if extra is None else {"extra_schedule_bins_entries": [(b, f"\nEXTRA_{t} in {b}\n") for b, t in extra]}
            closed.call(I, f"{mod}:construct_schedule_ccl", "proj", OWN, "STORAGE: evol_variables[3]\nSTORAGE: aux_variables[1]", **kw)

        def go(case=case, extra=extra, fn=fn):
            tr, err, fl = history(fn)
            if err:
                ctx.violation("schedule", where, f"generation fails: {err[:160]}")
                return
            t = pick(fl, "schedule.ccl")
            ctx.ok("schedule")
            got = sorted(re.findall(r"^schedule (\w+) in (\w+) as A_(\w+)$", t, re.M))
            want = sorted((n, b, f"{n}_{i}") for n, bs in case for i, b in enumerate(bs or []))
            if got != want:
                miss = [x for x in want if x not in got]
                more = [x for x in got if x not in want]
                dup = [x for x in set(got) if got.count(x) > 1]
                ctx.violation("schedule", where, f"entries registered {case}: missing {miss[:3]}, unexpected {more[:3]}, repeated {dup[:3]}")
            for b, tag in extra or []:
                if t.count(f"EXTRA_{tag} in {b}") != 1:
                    ctx.violation("schedule", where, f"the extra entry {tag} in bin {b} appears {t.count(f'EXTRA_{tag} in {b}')} times")
            if t.count("FUNC_NAME"):
                ctx.violation("schedule", where, "the place holder FUNC_NAME is left in schedule.ccl")
            for s in ("STORAGE: evol_variables[3]", "STORAGE: aux_variables[1]"):
                if len(re.findall("^" + re.escape(s) + r"\s*$", t, re.M)) != 1:
                    ctx.violation("schedule", where, f"`{s}` is not declared once")

        ctx.attempt(f"{where} {str(case)[:60]}", go)


# ------------------------------------------------------------------ interface.ccl
def groups_of(t):
    """{group: (head text, [variables])}"""
    t = re.sub(r"#.*", "", t)
    out = {}
    for m in re.finditer(r"^CCTK_REAL\s+(\w+)\s+type\s*=\s*GF([^\n]*)\n\s*\{([^}]*)\}", t, re.M):
        if m[1] in out:
            raise AnalysisError(f"group {m[1]} declared twice")
        out[m[1]] = (m[2], [x for x in re.split(r"[\s,]+", m[3]) if x])
    return out


def parity(n, rank, dim):
    p = [1, 1, 1]
    if rank:
        for ch in n[-rank:]:
            a = int(ch) - (1 if dim == 4 else 0)
            if a >= 0:
                p[a] = -p[a]
    return p


def fields(I, inf, sel):
    for i in sel:
        g, names, rank, dim = FIELDS[i]
        kw = dict(group=g, rank=rank)
        if rank:
            kw["dimension"] = dim
        if inf in ("ETLegacy", "CarpetX") and g == "EVOL":
            kw.update(f_infinity=float(i) + 0.5, wavespeed=float(i) + 1.25)
        if rank == 0:
            for n in names:
                closed.call(I, "nrpy.grid:register_gridfunctions", n, **kw)
        elif rank == 1:
            closed.call(I, "nrpy.grid:register_gridfunctions_for_single_rank1", names[0][:-1], **{k: v for k, v in kw.items() if k != "rank"})
        else:
            closed.call(I, "nrpy.grid:register_gridfunctions_for_single_rank2", names[0][:-2], symmetry="sym01", **{k: v for k, v in kw.items() if k != "rank"})


SELS = [(0,), (0, 1), (0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0), (1, 3), (2, 5), (0, 6), (0, 4, 6)]


def interfaces(ctx, inf):
    mod = f"nrpy.infrastructures.{inf}.interface_ccl"
    where = f"{mod}:construct_interface_ccl"
    for sel, newrad in itertools.product(SELS, (False, True)):
        def fn(I, sel=sel, newrad=newrad):
            setup(I, inf)
            fields(I, inf, sel)
            closed.call(I, f"{mod}:construct_interface_ccl", "proj", OWN, "ADMBase Boundary", "USES INCLUDE: X.h", is_evol_thorn=True, enable_NewRad=newrad)

        def go(sel=sel, newrad=newrad, fn=fn):
            tr, err, fl = history(fn)
            if err:
                ctx.violation("interface", where, f"generation fails: {err[:160]}")
                return
            t = pick(fl, "interface.ccl")
            ctx.ok("interface")
            g = groups_of(t)
            info = {n: FIELDS[i] for i in sel for n in FIELDS[i][1]}
            of = lambda k: sorted(n for n, f in info.items() if f[0] == k)
            want = {"evol_variables": [n + "GF" for n in of("EVOL")], "evol_variables_rhs": [n + "_rhsGF" for n in of("EVOL")], "auxevol_variables": [n + "GF" for n in of("AUXEVOL")], "aux_variables": [n + "GF" for n in of("AUX")]}
            for k, v in want.items():
                have = g.get(k, ("", []))[1]
                if sorted(have) != sorted(v):
                    ctx.violation("interface", where, f"group {k} lists {have[:8]} instead of {sorted(v)[:8]} (fields of groups {[FIELDS[i][0] for i in sel]})")
            for k in set(g) - set(want):
                ctx.violation("interface", where, f"unknown group {k}")
            if inf == "CarpetX":
                for k, (head, names) in g.items():
                    m = re.search(r"parities=\{([^}]*)\}", head)
                    if not m:
                        if k != "evol_variables_rhs":
                            ctx.violation("parity", where, f"group {k} has no parities")
                        continue
                    nums = [int(x) for x in m[1].split()]
                    exp = [p for n in names for p in parity(n[:-2], info[n[:-2]][2], info[n[:-2]][3])] if all(n[:-2] in info for n in names) else None
                    ctx.ok("parity")
                    if exp is not None and nums != exp:
                        bad = next((n for i, n in enumerate(names) if nums[3 * i : 3 * i + 3] != exp[3 * i : 3 * i + 3]), "?")
                        ctx.violation("parity", where, f"parities of group {k}: field {bad} gets {nums[3 * names.index(bad):3 * names.index(bad) + 3] if bad != '?' else nums} instead of {parity(bad[:-2], info[bad[:-2]][2], info[bad[:-2]][3]) if bad != '?' else exp}")
                if "evol_variables" in g and 'rhs="evol_variables_rhs"' not in g["evol_variables"][0]:
                    ctx.violation("interface", where, "the evolved group does not name its right-hand-side group")
            if not re.search(rf"^implements:\s*{OWN}\s*$", t, re.M) or not re.search(r"^inherits:\s*ADMBase Boundary\s*$", t, re.M) or "USES INCLUDE: X.h" not in t:
                ctx.violation("interface", where, "implements/inherits/USES INCLUDE lines are not as given")
            if newrad and "newrad" not in t.lower():
                ctx.violation("interface", where, "NewRad is not declared although enabled")

        ctx.attempt(f"{where} {sel} {newrad}", go)


# ------------------------------------------------------------------ param.ccl
def params(ctx, inf):
    mod = f"nrpy.infrastructures.{inf}.param_ccl"
    where = f"{mod}:construct_param_ccl"
    cases = [[("T_a", ["eta"])], [("T_a", ["eta", "FD_order"]), ("T_b", ["FD_order", "PI"])], [("T_a", None), ("T_b", ["lapse_floor"])], [("T_b", ["PI"]), ("T_a", ["PI"]), ("T_c", ["PI", "eta"])], [("T_a", None)], [("T_a", []), ("T_z", ["flag", "eta", "FD_order", "PI", "lapse_floor"])]]
    for case in cases:
        def fn(I, case=case):
            setup(I, inf)
            code_params(I)
            register(I, "U_a", "Thorn", params=["unused", "PI"])
            for n, ps in case:
                register(I, n, OWN, params=ps)
            register(I, "V_a", "ThornAB", params=["unused", "PI"])
            return closed.call(I, f"{mod}:construct_param_ccl", "proj", OWN, "shares: ADMBase\nEXTENDS X")

        def go(case=case, fn=fn):
            tr, err, fl = history(fn)
            if err:
                ctx.violation("param", where, f"generation fails: {err[:160]}")
                return
            t = pick(fl, "param.ccl")
            ctx.ok("param")
            got = re.findall(r'^(\w+)\s+(\w+)\s+"[^"]*"[^{\n]*\n?\{([^}]*)\}\s*(\S+)\s*$', t, re.M)
            want = sorted({p for _, ps in case for p in ps or []})
            names = [g[1] for g in got]
            if sorted(names) != want:
                ctx.violation("param", where, f"functions use {case}: param.ccl declares {sorted(names)} instead of {want}")
            for ty, n, rng, d in got:
                if n in PARAMS:
                    wty, wd = PARAMS[n]
                    if wty.startswith("CCTK_") and ty not in (wty, wty[5:], {"CCTK_REAL": "REAL", "CCTK_INT": "int"}[wty]):
                        ctx.violation("param", where, f"{n} is declared as {ty} instead of {wty}")
                    try:
                        same = float(d) == float(wd) if not isinstance(wd, bool) else d.strip('"').lower() in ("true", "yes")
                    except ValueError:
                        same = False
                    if not same:
                        ctx.violation("param", where, f"{n} has the default {d} instead of {wd}")
                    if "*:*" not in rng.replace(" ", "") and not isinstance(wd, bool):
                        ctx.violation("param", where, f"the range of {n} does not admit every value")
            if "shares: ADMBase\nEXTENDS X" not in t:
                ctx.violation("param", where, "the shared/extended parameters are not written")
            vis = t.find("restricted:")
            if vis < 0 and "private:" not in t and "global:" not in t:
                ctx.violation("param", where, "parameters have no access block of their own (they fall into the shared block)")
            elif vis >= 0 and (vis < t.find("EXTENDS X") or any(t.find(f" {n} ") < vis for n in names)):
                ctx.violation("param", where, "parameters are declared outside the `restricted:` block")
            ret = tr.outcome[1]
            if isinstance(ret, list) and sorted(map(str, ret)) != want:
                ctx.violation("param", where, f"returns {ret} for the parameters {want}")

        ctx.attempt(f"{where} {str(case)[:60]}", go)


# ------------------------------------------------------------------ per-field routines
def strip(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)


def field_routines(ctx, inf):
    base = f"nrpy.infrastructures.{inf}"
    P = templates.prog()
    ents = []
    for m, fn in (("boundary_conditions", None), ("zero_rhss", None), ("Symmetry_registration", None), ("MoL_registration", None)):
        q = f"{base}.{m}"
        if q in P.paths:
            ents += [f"{q}:{f}" for f, _ in P.functions(q) if f.startswith("register_CFunction_")]
    for q in ents:
        for sel in SELS:
            def fn(I, q=q, sel=sel):
                setup(I, inf)
                fields(I, inf, sel)
                closed.call(I, q, thorn_name=OWN)
                d = I.module("nrpy.c_function").scope.vars["CFunction_dict"]
                return {n: txt(c.attrs["body"]) for n, c in d.items()}

            def go(q=q, sel=sel, fn=fn):
                tr, err, fl = history(fn)
                if err:
                    ctx.violation("fields", q, f"generation fails: {err[:160]}")
                    return
                info = {n: (FIELDS[i], i) for i in sel for n in FIELDS[i][1]}
                of = lambda *k: {n for n, f in info.items() if f[0][0] in k}
                (name, body), = tr.outcome[1].items()
                body = strip(body)
                ctx.ok("fields")

                def same(what, got, want):
                    got = list(got)
                    if sorted(got) != sorted(want):
                        miss, more = sorted(set(want) - set(got)), sorted(set(got) - set(want))
                        dup = sorted({x for x in got if got.count(x) > 1})
                        ctx.violation("fields", q, f"{what}: missing {miss[:4]}, unexpected {more[:4]}, repeated {dup[:4]}")

                calls = re.findall(r"(\w+SelectVarForBC)\(cctkGH,\s*(\w+),\s*(\w+),\s*(-?\w+),\s*\"(\w+)::(\w+)GF\",\s*\"(\w+)\"\)", body)
                if "Driver_" in name or "_evol_" in name or "_aux_" in name:
                    want = of("EVOL", "AUX") if "Driver_" in name else of("EVOL") if "_evol_" in name else of("AUX")
                    same("boundary conditions selected for", [c[5] for c in calls], want)
                    for f, face, width, tb, th, v, bc in calls:
                        k = info[v][0][0] if v in info else None
                        if th != OWN or face != "CCTK_ALL_FACES" or bc != ("none" if k == "EVOL" else "flat"):
                            ctx.violation("fields", q, f"boundary condition of {th}::{v} ({k}) is {bc} on {face}")
                        if k == "AUX":
                            m = re.search(rf"\b{width}\s*=\s*([^;]+);", body)
                            if not m or re.sub(r"\s", "", m[1]) not in ("FD_order/2+1", "1+FD_order/2", "(FD_order/2)+1"):
                                ctx.violation("fields", q, f"boundary width of the diagnostic field {v} is {m[1] if m else width}, not the FD_order/2+1 ghost zones")
                elif "NewRad" in name:
                    ap = re.findall(r"NewRadX?_Apply\(cctkGH,\s*(\w+),\s*(\w+),\s*([^,]+),\s*([^,]+),\s*([^,)]+)\)", body)
                    same("radiation condition applied to", [a[0] for a in ap], [n + "GF" for n in of("EVOL")])
                    for v, r, f0, w, pw in ap:
                        b = v[:-2]
                        if r != b + "_rhsGF":
                            ctx.violation("fields", q, f"radiation condition of {v} writes {r}")
                        if b in info and (float(f0) != info[b][1] + 0.5 or float(w) != info[b][1] + 1.25 or float(pw) != 1.0):
                            ctx.violation("fields", q, f"radiation condition of {v}: value at infinity {f0}, speed {w}, power {pw} instead of {info[b][1] + 0.5}, {info[b][1] + 1.25}, 1.0")
                elif "zero_rhss" in name:
                    z = re.findall(r"(\w+)(?:\[[^=;]*\]|\([^=;]*\))\s*=\s*0(?:\.0*)?\s*;", body)
                    same("right-hand sides set to zero", z, [n + "_rhsGF" for n in of("EVOL")])
                elif "Symmetry" in name:
                    sym, got = [None] * 3, {}
                    for m in re.finditer(r"sym\[(\d)\]\s*(\*?=)\s*(-?\d+)\s*;|SetCartSymVN\(cctkGH,\s*sym,\s*\"(\w+)::(\w+)GF\"\)", body):
                        if m[1]:
                            sym[int(m[1])] = int(m[3]) if m[2] == "=" else (sym[int(m[1])] or 0) * int(m[3])
                        else:
                            if m[5] in got or m[4] != OWN:
                                ctx.violation("fields", q, f"symmetry of {m[4]}::{m[5]} registered twice or for another thorn")
                            got[m[5]] = list(sym)
                    same("symmetry registered for", got, of("EVOL", "AUX", "AUXEVOL"))
                    for v, s in got.items():
                        if v in info and s != parity(v, info[v][0][2], info[v][0][3]):
                            ctx.violation("fields", q, f"symmetry of {v} is {s} instead of {parity(v, info[v][0][2], info[v][0][3])}")
                elif "MoL_registration" in name:
                    gi = dict((a, b) for a, b in re.findall(r"(\w+)\s*=\s*CCTK_GroupIndex\(\"ThornA::(\w+)\"\)", body))
                    m = re.search(r"MoLRegisterEvolvedGroup\((\w+),\s*(\w+)\)", body)
                    if not m or (gi.get(m[1]), gi.get(m[2])) != ("evol_variables", "evol_variables_rhs"):
                        ctx.violation("fields", q, f"MoLRegisterEvolvedGroup is called with {(gi.get(m[1]), gi.get(m[2])) if m else 'nothing'}")
                else:
                    raise AnalysisError(f"unknown per-field routine {name}")

            ctx.attempt(f"{q} {sel}", go)


# ------------------------------------------------------------------ every registered thorn function
def thorn_key(k):
    return k.replace("Baikal", "{thorn_name}") if k.startswith("Baikal") else k


def code_parameter_names():
    """literal names given to register_CodeParameter(s) anywhere in the repository"""
    import ast

    out = set()
    P = templates.prog()
    for m in P.paths:
        for n in ast.walk(P.tree(m)):
            if isinstance(n, ast.Call):
                f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if f in ("register_CodeParameter", "register_CodeParameters"):
                    a = [x for x in n.args[2:3]] + [k.value for k in n.keywords if k.arg in ("name", "names")]
                    for x in a:
                        out |= {c.value for c in ast.walk(x) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
    return {x for x in out if re.fullmatch(r"[A-Za-z_]\w*", x)}


def registered(ctx):
    cps = code_parameter_names()
    ctx.require(len(cps) > 20, "code parameter names")
    regs = []
    for t in templates.collect():
        for r in t["regs"]:
            if r.infra in INF:
                regs.append(r)
    norm = lambda s: re.sub(r"\bBaikal(?=_)", "{thorn_name}", s)
    aliases, declared = {}, {}
    for r in regs:
        d = aliases.setdefault(r.infra, set())
        d.add(norm(r.extra["name_b"]))
        for b, e in r.extra["et"]:
            for m in re.finditer(r"schedule\s+(?:GROUP\s+)?(\S+)\s+(?:in|at)\s+\S+", e, re.I):
                pass
            for m in re.finditer(r"\bas\s+(\S+)", e, re.I):
                d.add(norm(m[1]))
        u = r.kw.get("ET_current_thorn_CodeParams_used")
        declared.setdefault((r.infra, r.mod, r.entry), []).append(set(u) if isinstance(u, list) else set())
    always = {}
    for (inf, mod, e), us in declared.items():
        for x in set.intersection(*us):
            always.setdefault((inf, x), set()).add((mod, e))
    nread = 0
    seen = set()
    for r in regs:
        where = r.where()
        name = r.extra["name_b"]
        key = (where, r.extra["name_b"], str(r.extra["et"]), str(r.kw.get("ET_current_thorn_CodeParams_used")), r.body)
        if key in seen:
            continue
        seen.add(key)
        body = strip(r.body)
        ctx.ok("own-arguments")
        m = re.findall(r"DECLARE_CCTK_ARGUMENTSX?_(\w+)", body)
        holes = r.holes["body"]
        braced = lambda s: re.sub(r"zH(\d+)z", lambda q: "{" + holes[int(q[1])] + "}", s)
        for x in m:
            if braced(x) != name:
                ctx.violation("own-arguments", where, f"declares the arguments of {braced(x)}")
        th, sub = r.kw.get("ET_thorn_name"), r.kw.get("subdirectory")
        if th != sub:
            ctx.violation("own-thorn", where, f"function of thorn {th} is written to the sources of {sub}")
        if not r.extra["et"]:
            ctx.violation("scheduled", where, "thorn function without schedule entry")
        for b, e in r.extra["et"]:
            heads = re.findall(r"^\s*schedule\s+(GROUP\s+)?(\S+)((?:\s+\w+\s+\S+)*?)\s*\{?\s*$", e, re.M | re.I)
            own = [h for h in heads if not h[0]]
            ctx.ok("bin")
            if len(own) != 1 or own[0][1] != "FUNC_NAME":
                ctx.violation("scheduled", where, f"schedule entry for bin {b} schedules {[h[1] for h in own]}")
            for g, n, rest in heads:
                cl = dict((k.lower(), v) for k, v in re.findall(r"(\w+)\s+(\S+)", rest))
                bb = cl.get("in") or cl.get("at")
                if not bb or bb.upper() != b.upper():
                    ctx.violation("bin", where, f"registered for bin {b} but its entry says {bb}")
                for k in ("after", "before"):
                    v = cl.get(k)
                    if v and v != "FUNC_NAME" and norm(v).startswith("{thorn_name}"):
                        ctx.ok("order")
                        if norm(v) not in aliases[r.infra]:
                            ctx.violation("order", where, f"scheduled {k} {v}, which no function or group of {r.infra} is called")
            for kw, val in re.findall(r"^\s*(READS|WRITES|SYNC):((?:[^\n]*,\s*\n)*[^\n]*)$", e, re.M):
                for w in re.split(r",\s*", re.sub(r"\(\w+\)", "", val).strip().rstrip(",")):
                    w = w.strip()
                    if not w:
                        continue
                    ctx.ok("access")
                    if not (w in GROUPS or re.fullmatch(r"\w+::\w+", w) or re.fullmatch(r"\w+GF", w) or "{" in w):
                        ctx.violation("access", where, f"{kw} names {w!r}, which is neither a group of the thorn nor a field")
            if e.count("{") - e.count("}"):
                ctx.violation("scheduled", where, f"unbalanced braces in the entry for bin {b}")
        used = r.kw.get("ET_current_thorn_CodeParams_used")
        used = set(used) if isinstance(used, list) else set()
        reads = set()
        for x, owner in re.findall(r'CCTK_ParameterGet\(\s*"(\w+)"\s*,\s*"(\w+)"', body):
            if braced(owner) == str(th) or braced(owner) == "{" + str(th) + "}":
                reads.add(x)
            else:
                ctx.violation("param-read", where, f"parameter {x} is read from thorn {braced(owner)} instead of {th}")
        for _, e in r.extra["et"]:
            reads |= {x for x in re.findall(r"^\s*if\s*\(\s*([A-Za-z_]\w*)\s*==", e, re.M)}
        code = re.sub(r'"(?:[^"\\]|\\.)*"', '""', body)
        code = re.sub(r"#define\s+\w+\([^)]*\)(?:\\\n|[^\n])*", "", code)
        local = set(re.findall(r"\b(?:CCTK_REAL|CCTK_INT|REAL|REAL_SIMD_ARRAY|int|double)\s+(?:const\s+)?\*?\s*(\w+)", code))
        if "DECLARE_CCTK_PARAMETERS" in code:
            reads |= {x for x in re.findall(r"(?<![\w.>])[A-Za-z_]\w*\b(?!\s*\()", code) if x in cps and x not in local}
        nread += len(reads)
        for x in sorted(reads):
            ctx.ok("param-read")
            if x not in used and not always.get((r.infra, x)):
                ctx.violation("param-read", where, f"reads the parameter {x}, which is not declared ({sorted(used)} are) when {r.cond[:200]}")
    ctx.sample(f"{nread} parameter reads in {len(regs)} registered thorn function variants")


def run(ctx):
    ctx.rule("sources", "for families of registered functions of two thorns, make.code.defn lists exactly the files written for the thorn, one per function")
    ctx.rule("schedule", "each registered entry appears once in schedule.ccl of its thorn under the function's name and bin, extra entries and STORAGE as given")
    ctx.rule("interface", "each field is declared in the group of its kind, each evolved field's right-hand side too")
    ctx.rule("parity", "CarpetX parities are the reflection signs of the component")
    ctx.rule("param", "param.ccl declares each parameter used by the thorn's functions once, with type and default")
    ctx.rule("fields", "symmetry, boundary-condition, radiation and zeroing routines treat each field of their group once with its own names and data")
    ctx.rule("param-read", "every parameter a thorn function reads is in its declared list (or always declared by another function of the back end)")
    for rule, n in (("sources", 10), ("schedule", 60), ("interface", 32), ("parity", 30), ("param", 12), ("fields", 64), ("own-arguments", 20), ("bin", 30)):
        ctx.floor(rule, n)
    for inf in INF:
        for part in (sources, schedules, interfaces, params, field_routines):
            ctx.attempt(f"{part.__name__} {inf}", lambda part=part, inf=inf: part(ctx, inf))
    ctx.attempt("registered thorn functions", lambda: registered(ctx))
