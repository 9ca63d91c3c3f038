"""P15: finite-difference stencils are exact to their order and fit the ghost zones."""

import re

import sympy as sp

from sa import closed, templates
from sa.absint import AnalysisError, Inst, PyRaise, _bindargs

FD = "nrpy.finite_difference"
CG = "nrpy.c_codegen"

SENT = "ZEXPR"


def listify(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


class Gen:
    """one abstract execution of the finite-difference code generator; expressions handed to the
    scalar printer are kept as symbolic values and only named in the text"""

    def __init__(self):
        self.exprs = []
        self.I = closed.make(
            models={
                f"{CG}.c_codegen": self.ccg,
                # value preserving by P12; here the exact expression is kept
                "nrpy.helpers.cse_preprocess_postprocess.cse_preprocess": self.cse,
                "nrpy.c_function.CFunction": self.cfunction,
            },
            max_paths=4,
        )

    def cse(self, I, f, a, k, n):
        b = _bindargs(I, f, a, k)
        e = b.get("expr_list", a[0] if a else None)
        return (listify(e), {})

    def ccg(self, I, f, a, k, n):
        if I.callstack and I.callstack[0] == f.qual and k.get("enable_fd_codegen") is not True and not (k.get("automatically_read_gf_data_from_memory") is True):
            b = _bindargs(I, f, a, k)
            ex, lhs = listify(b["sympyexpr"]), listify(b["output_varname_str"])
            if len(ex) != len(lhs):
                raise AnalysisError("code printer called with lists of different lengths")
            out = ""
            for e, l in zip(ex, lhs):
                self.exprs.append(sp.sympify(e))
                out += f"{l} = {SENT}{len(self.exprs) - 1};\n"
            return out
        return NotImplemented

    def cfunction(self, I, f, a, k, n):
        """record of a helper C function"""
        o = Inst(f)
        o.attrs.update(k)
        o.attrs.setdefault("full_function", "")
        return o


def read_bhah(rhs):
    m = re.fullmatch(r"(\w+)\s*\[\s*IDX4\(\s*(\w+)GF\s*,(.*)\)\s*\]", rhs)
    if not m:
        return None
    o = offsets(m.group(3))
    return o and (m.group(2), m.group(1), o)


def offsets(s):
    ps = [p.strip() for p in s.split(",")]
    if len(ps) != 3:
        return None
    out = []
    for d, p in enumerate(ps):
        m = re.fullmatch(rf"i{d}\s*(?:([+-])\s*(\d+))?", p)
        if not m:
            return None
        out.append(int((m.group(1) or "+") + (m.group(2) or "0")))
    return tuple(out)


def read_et(rhs):
    m = re.fullmatch(r"(\w+?)GF\s*\[\s*CCTK_GFINDEX3D\(\s*cctkGH\s*,(.*)\)\s*\]", rhs)
    if not m:
        return None
    o = offsets(m.group(2))
    return o and (m.group(1).upper(), "", o)


def read_cx(rhs):
    m = re.fullmatch(r"(\w+?)GF\(\s*p\.I((?:\s*[+-]\s*\d+\s*\*\s*p\.DI\[\d\])*)\s*\)", rhs)
    if not m:
        return None
    o = [0, 0, 0]
    for sg, v, d in re.findall(r"([+-])\s*(\d+)\s*\*\s*p\.DI\[(\d)\]", m.group(2)):
        o[int(d)] += int(sg + v)
    return (m.group(1).upper(), "", tuple(o))


READ = {"BHaH": read_bhah, "ETLegacy": read_et, "CarpetX": read_cx}


class Fault(Exception):
    pass


def G(gf, o):
    return sp.Symbol(f"G@{gf}@{o[0]}@{o[1]}@{o[2]}", real=True)


def evaluate(gen, text, infra, gfs, fdfuncs):
    """dataflow through the emitted straight-line code: name -> value over grid samples"""
    env = {}
    reads = {}
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)

    def ev(e):
        sub = {}
        for s in e.free_symbols:
            nm = str(s)
            if nm in env:
                sub[s] = env[nm]
            elif nm.startswith("invdxx") or nm in ("tmp_upwind_Integer_0", "tmp_upwind_Integer_1"):
                sub[s] = sp.Symbol(nm, real=True)
            else:
                raise Fault(f"'{nm}' is used but neither read from memory nor computed")
        return e.xreplace(sub)

    for st in text.replace("{", ";").replace("}", ";").split(";"):
        st = st.strip()
        if not st:
            continue
        m = re.fullmatch(r"WriteSIMD\(&(\w+)\s*,\s*(\w+)\)", st)
        if m:
            if m.group(2) not in env:
                raise Fault(f"{m.group(2)} is written to memory but never computed")
            env[m.group(1)] = env[m.group(2)]
            continue
        m = re.fullmatch(r"(?:(?:static\s+|MAYBE_UNUSED\s+)*(?:const\s+)?[\w:<>]+\s+)?(\w+)\s*=\s*(.*)", st, flags=re.S)
        if not m:
            raise AnalysisError(f"cannot read emitted statement {st[:120]!r}")
        nm, rhs = m.group(1), m.group(2).strip()
        if nm in env and nm in reads:
            raise Fault(f"'{nm}' is declared twice")
        k = re.fullmatch(rf"{SENT}(\d+)", rhs)
        if k:
            env[nm] = ev(gen.exprs[int(k.group(1))])
            continue
        r = re.fullmatch(r"ReadSIMD\(&(.*)\)", rhs)
        rd = READ[infra](r.group(1) if r else rhs)
        if rd:
            gf = {x.upper(): x for x in gfs}.get(rd[0])
            if gf is None:
                raise Fault(f"memory read of unknown field {rd[0]}")
            env[nm] = G(gf, rd[2])
            reads[nm] = (gf, rd[1], rd[2])
            continue
        k = re.fullmatch(r"(?:ConstSIMD\()?([\w.]+?)\)?", rhs)
        if k and re.fullmatch(r"\d+\.\d*", k.group(1)):
            env[nm] = sp.nsimplify(k.group(1))
            continue
        if k and k.group(1) in env:
            env[nm] = env[k.group(1)]
            continue
        k = re.fullmatch(r"UPWIND_ALG\((\w+)\)", rhs)
        if k:
            if k.group(1) not in env:
                raise Fault(f"{k.group(1)} is not defined")
            env[nm] = sp.Function("UPWIND")(env[k.group(1)])
            continue
        k = re.fullmatch(r"(\w+)\((.*)\)", rhs)
        if k and k.group(1) in fdfuncs:
            params, expr = fdfuncs[k.group(1)]
            args = [a.strip() for a in k.group(2).split(",")]
            if len(args) != len(params):
                raise Fault(f"{k.group(1)} takes {len(params)} arguments, called with {len(args)}")
            sub = {}
            for p, a in zip(params, args):
                if a.startswith("invdxx"):
                    sub[sp.Symbol(p)] = sp.Symbol(a, real=True)
                elif a in env:
                    sub[sp.Symbol(p)] = env[a]
                else:
                    raise Fault(f"argument {a} of {k.group(1)} is not defined")
            sub = {s: v for s in expr.free_symbols for p, v in sub.items() if str(p) == str(s)}
            miss = [s for s in expr.free_symbols if s not in sub]
            if miss:
                raise Fault(f"{k.group(1)} uses {miss[0]} which is not a parameter")
            env[nm] = expr.xreplace(sub)
            continue
        raise AnalysisError(f"cannot read emitted statement {st[:120]!r}")
    return env, reads


def linear(e):
    """expression -> {(gf, offset): coefficient}; None if not linear in the samples"""
    e = sp.expand(e)
    syms = [s for s in e.free_symbols if str(s).startswith("G@")]
    out = {}
    rest = e
    for s in syms:
        c = e.coeff(s, 1)
        if any(str(x).startswith("G@") for x in c.free_symbols):
            return None
        rest = sp.expand(rest - c * s)
        _, gf, a, b, d = str(s).split("@")
        out[(gf, (int(a), int(b), int(d)))] = c
    if rest != 0:
        return None
    return out


def judge_stencil(ctx, where, op, lin, order, gf, h):
    """lin: offset->coefficient (rational, grid spacing factor removed)"""
    kind, dirs = re.fullmatch(r"(dKOD|dupD|ddnD|dfullupD|dfulldnD|dDD|dD)(\d+)", op).groups()
    dirs = [int(c) for c in dirs]
    axes = {d for o in lin for d in range(3) if o[d] != 0}
    bad = axes - set(dirs)
    ctx.ok("axis")
    if bad:
        ctx.violation("axis", where, f"{op}: stencil has points off the {dirs} axes: {sorted(lin)[:6]}")
        return
    r = order // 2

    def moment(*ex):
        tot = sp.Integer(0)
        for o, c in lin.items():
            t = c
            for d, e in ex:
                t *= sp.Integer(o[d]) ** e
            tot += t
        return sp.nsimplify(tot)

    def expect(val, want, what):
        ctx.ok("taylor")
        if sp.simplify(val - want) != 0:
            ctx.violation("taylor", where, f"{op} at order {order}: {what} is {val}, must be {want}")
            return False
        return True

    d = dirs[-1]
    if kind == "dDD" and len(dirs) == 2 and dirs[0] != dirs[1]:
        a, b = dirs
        for m in range(order + 1):
            for n in range(order + 1):
                if not expect(moment((a, m), (b, n)), 1 if (m, n) == (1, 1) else 0, f"moment ({m},{n}) of directions {a},{b}"):
                    return
    elif kind == "dDD":
        for m in range(order + 2):
            if not expect(moment((d, m)), 2 if m == 2 else 0, f"moment {m} in direction {d}"):
                return
    elif kind == "dKOD":
        w = order + 2
        for m in range(w):
            if not expect(moment((d, m)), 0, f"moment {m} in direction {d}"):
                return
        hf = sum(c * (-1) ** (o[d] % 2) for o, c in lin.items())
        if not expect(sp.nsimplify(hf), -1, "response to the grid-scale mode (dissipation)"):
            return
    else:
        for m in range(order + 1):
            if not expect(moment((d, m)), 1 if m == 1 else 0, f"moment {m} in direction {d}"):
                return
        offs = sorted(o[d] for o in lin)
        sense = {"dupD": 1, "ddnD": -1, "dfullupD": r, "dfulldnD": -r, "dD": 0}[kind]
        ctx.ok("upwind sense")
        if kind != "dD" and (offs[0] != -r + sense or offs[-1] != r + sense):
            ctx.violation("upwind sense", where, f"{op} at order {order} reaches offsets {offs[0]}..{offs[-1]}, expected {-r+sense}..{r+sense}")
    # ghost zones
    reach = max(abs(x) for o in lin for x in o)
    need = h + (1 if kind in ("dKOD", "dupD", "ddnD") else 0)
    if kind not in ("dfullupD", "dfulldnD"):
        ctx.ok("ghost")
        if reach > need:
            ctx.violation("ghost", where, f"{op} at order {order} reaches {reach} points; the ghost zones for that order are {need} wide")


def nghosts(order, addone):
    I = closed.make(models=closed.file_models(), max_paths=16)
    I.patterns = [(re.compile(r".*in sys\.modules.*"), True)]

    def entry(I):
        closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", "BHaH")
        I.module(FD)
        closed.call(I, "nrpy.params:set_parval_from_str", "fd_order", order)
        closed.call(I, "nrpy.infrastructures.BHaH.BHaH_defines_h:output_BHaH_defines_h", "/x", fin_NGHOSTS_add_one_for_upwinding_or_KO=addone)

    out = set()
    for t in I.run(entry):
        if t.outcome[0] == "return":
            for x in closed.files(t).values():
                out |= {int(v) for v in re.findall(r"#define\s+NGHOSTS\s+(\d+)", x)}
    return out


FIELDS = [
    # (registration, args, kwargs, component names, group)
    ("nrpy.grid:register_gridfunctions", ["uu"], dict(group="EVOL"), ["uu"]),
    ("nrpy.grid:register_gridfunctions_for_single_rank1", ["betU"], dict(group="EVOL"), ["betU0", "betU1", "betU2"]),
    ("nrpy.grid:register_gridfunctions_for_single_rank2", ["hDD"], dict(group="EVOL", symmetry="sym01"), ["hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22"]),
    ("nrpy.grid:register_gridfunctions_for_single_rank2", ["aUD"], dict(group="AUXEVOL"), [f"aUD{i}{j}" for i in range(3) for j in range(3)]),
]


def derivs(order, with_up=True):
    """derivative symbols covering every operator and direction on fields of rank 0, 1, 2"""
    out = []
    first = ["dD", "dKOD"] + (["dupD"] if with_up else [])
    for base, idx in (("uu", ""), ("betU", "1"), ("hDD", "02"), ("aUD", "21")):
        for op in first:
            for d in range(3):
                out.append((f"{base}_{op}{idx}{d}", f"{base}{idx}", f"{op}{d}"))
        for a in range(3):
            for b in range(a, 3):
                out.append((f"{base}_dDD{idx}{a}{b}", f"{base}{idx}", f"dDD{a}{b}"))
    return out


def case(ctx, infra, order, simd, funcs):
    gen = Gen()
    I = gen.I
    ds = derivs(order)
    tag = f"{infra} order {order}{' SIMD' if simd else ''}{' fd_functions' if funcs else ''}"

    def entry(I):
        closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", infra)
        names = []
        for q, a, k, comps in FIELDS:
            k = dict(k)
            if infra == "ETLegacy" and k["group"] == "AUXEVOL":
                pass
            closed.call(I, q, *a, **k)
            names += comps
        ctl = [sp.Symbol(f"betU{i}", real=True) for i in range(3)]
        tot = []
        for i, (v, b, o) in enumerate(ds):
            tot.append(sp.Symbol(v, real=True) + i * sp.Symbol("uu", real=True))
        I.module(FD)
        closed.call(I, "nrpy.params:set_parval_from_str", "fd_order", order)
        txt = closed.call(
            I,
            f"{CG}:c_codegen",
            tot + [ctl[0] + ctl[1] + ctl[2]],
            [f"out{i}" for i in range(len(ds))] + ["outc"],
            enable_fd_codegen=True,
            upwind_control_vec=ctl,

            enable_simd=simd,
            enable_fd_functions=funcs,
            enable_cse=False,
            fp_type="double",
            fp_type_alias="REAL_SIMD_ARRAY" if simd else "REAL",
        )
        ff = {}
        if funcs:
            md = I.module(FD)
            for fo in md.scope.vars["FDFunctions_dict"].values():
                cf = fo.attrs.get("CFunction")
                if not isinstance(cf, Inst):
                    continue
                ps = [p.strip().split()[-1] for p in cf.attrs["params"].split(",")]
                body = re.sub(r"/\*.*?\*/", "", cf.attrs["body"], flags=re.S)
                m = re.search(rf"FD_result\s*=\s*{SENT}(\d+)", body)
                rt = re.search(r"return\s+(\w+)", body)
                if not m or not rt or rt.group(1) != "FD_result":
                    raise AnalysisError("finite-difference helper function has an unknown shape")
                ff[cf.attrs["name"]] = (ps, gen.exprs[int(m.group(1))])
        return txt, names, ff

    trs = I.run(entry)
    if len(trs) != 1:
        raise AnalysisError(f"{tag}: generation is not determined ({[t.cond() for t in trs][:3]})")
    t = trs[0]
    if t.outcome[0] != "return":
        ctx.violation("generation", tag, f"code generation for supported operators raises {t.outcome[1]} {getattr(t.outcome[1], 'args', '')}")
        return
    txt, names, ff = t.outcome[1]
    try:
        env, reads = evaluate(gen, txt, infra, names, ff)
    except Fault as e:
        ctx.violation("dataflow", tag, str(e))
        return
    ctx.ok("dataflow", len(env))
    if infra == "BHaH":
        for nm, (gf, arr, o) in reads.items():
            want = "auxevol_gfs" if gf.startswith("aUD") else "in_gfs"
            ctx.ok("array")
            if arr != want:
                ctx.violation("array", f"{tag} {gf}", f"{nm} is read from {arr}, its storage is {want}")
    U = sp.Function("UPWIND")
    for i, (v, base, op) in enumerate(ds):
        where = f"{tag} {v}"
        if v not in env:
            ctx.violation("dataflow", where, f"{v} is never computed")
            continue
        if f"out{i}" not in env:
            ctx.violation("dataflow", where, f"output {i} is never written")
            continue
        if sp.expand(env[f"out{i}"] - env[v] - i * G("uu", (0, 0, 0))) != 0:
            ctx.violation("dataflow", where, f"output {i} is {env[f'out{i}']}")
            continue
        e = env[v]
        parts = [(op, e)]
        if op.startswith("dupD"):
            d = int(op[-1])
            sel = U(G(f"betU{d}", (0, 0, 0)))
            p, n = e.xreplace({sel: sp.Integer(1)}), e.xreplace({sel: sp.Integer(0)})
            if p.atoms(sp.core.function.AppliedUndef) or n.atoms(sp.core.function.AppliedUndef) or not e.has(sel):
                ctx.violation("upwind sense", where, f"{v} is not selected by the sign of the control vector's component {d} at the point: {e}")
                continue
            parts = [(op, p), (op.replace("dupD", "ddnD"), n)]
        for o2, ex in parts:
            dirs = [int(c) for c in re.sub(r"\D", "", o2)]
            fac = sp.Mul(*[sp.Symbol(f"invdxx{d}", real=True) for d in dirs])
            lin = linear(ex)
            ctx.ok("operator")
            if lin is None:
                ctx.violation("operator", where, f"{v} is not a linear combination of samples: {ex}")
                continue
            other = {g for g, _ in lin if g != base}
            if other:
                ctx.violation("operator", where, f"{v} samples {sorted(other)} instead of {base}")
                continue
            red = {o: sp.simplify(c / fac) for (g, o), c in lin.items()}
            if any(c.free_symbols for c in red.values()):
                ctx.violation("spacing", where, f"{v}: coefficients {list(lin.values())[:2]} do not carry the inverse spacing {fac}")
                continue
            ctx.ok("spacing")
            judge_stencil(ctx, where, o2, red, order, base, order // 2)


def direct(ctx, orders):
    """every operator spelled through the stencil function itself, including fully one-sided ones"""
    ops = [f"{k}{d}" for k in ("dD", "dupD", "ddnD", "dfullupD", "dfulldnD", "dKOD") for d in range(3)] + [f"dDD{a}{b}" for a in range(3) for b in range(3)]
    gh = {}
    for order in orders:
        gh[order] = (nghosts(order, False), nghosts(order, True))
        for i, want in enumerate((order // 2, order // 2 + 1)):
            ctx.ok("ghost")
            if len(gh[order][i]) != 1:
                raise AnalysisError(f"ghost-zone width for order {order} is {gh[order][i]}")
    for order in orders:
        for op in ops:
            I = closed.make(max_paths=4)
            trs = I.run(lambda I: closed.call(I, f"{FD}:compute_fdcoeffs_fdstencl", op, order))
            where = f"compute_fdcoeffs_fdstencl({op},{order})"
            if len(trs) != 1:
                raise AnalysisError(where)
            if trs[0].outcome[0] != "return":
                ctx.violation("generation", where, f"raises {trs[0].outcome[1]}")
                continue
            co, st = trs[0].outcome[1]
            if len(co) != len(st):
                ctx.violation("operator", where, f"{len(co)} coefficients for {len(st)} points")
                continue
            lin = {}
            for c, o in zip(co, st):
                lin[tuple(int(x) for x in o)] = lin.get(tuple(int(x) for x in o), 0) + sp.sympify(c)
            ctx.ok("operator")
            judge_stencil(ctx, where, op, lin, order, "", order // 2)
            wide = op.startswith(("dKOD", "dupD", "ddnD"))
            if not op.startswith("dfull"):
                w = list(gh[order][1 if wide else 0])[0]
                reach = max(abs(x) for o in lin for x in o)
                ctx.ok("ghost")
                if reach > w:
                    ctx.violation("ghost", f"NGHOSTS order {order} {op}", f"{op} reaches {reach} points, the generated NGHOSTS is {w}")


def refuse(ctx):
    """third derivatives and malformed names are refused"""
    I = closed.make(max_paths=4)
    trs = I.run(lambda I: closed.call(I, f"{FD}:compute_fdcoeffs_fdstencl", "dDDD012", 4))
    ctx.ok("refuse")
    if any(t.outcome[0] == "return" for t in trs):
        ctx.violation("refuse", "dDDD012", "a third derivative is not refused")
    for bad in ("hDD_dD0", "uu_dD", "betU_dDD01", "hDD_dD0123"):
        I = closed.make(max_paths=4)
        trs = I.run(lambda I: closed.call(I, f"{FD}:extract_base_gfs_and_deriv_ops_lists__from_list_of_deriv_vars", [sp.Symbol(bad)]))
        ctx.ok("refuse")
        if any(t.outcome[0] == "return" for t in trs):
            ctx.violation("refuse", bad, f"derivative name {bad} has the wrong number of indices but is accepted as {trs[0].outcome[1]}")
    for order in (3, 0, -2):
        gen = Gen()

        def entry(I):
            closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", "BHaH")
            closed.call(I, "nrpy.grid:register_gridfunctions", "uu", group="EVOL")
            I.module(FD)
            closed.call(I, "nrpy.params:set_parval_from_str", "fd_order", order)
            return closed.call(I, f"{CG}:c_codegen", [sp.Symbol("uu_dD0")], ["o"], enable_fd_codegen=True)

        trs = gen.I.run(entry)
        ctx.ok("refuse")
        if any(t.outcome[0] == "return" for t in trs):
            ctx.violation("refuse", f"order {order}", f"finite-difference order {order} is accepted")


def names(ctx):
    """the operator/field split of derivative names, ranks 0 to 4, every operator"""
    bases = [("aa", ""), ("vU", "2"), ("gDD", "01"), ("tUDD", "210"), ("rDDDD", "0121"), ("cf_b", ""), ("q_aU", "1")]
    for b, idx in bases:
        for op in ("dD", "dKOD", "dupD", "ddnD", "dDD"):
            for dd in ([f"{x}{y}" for x in range(3) for y in range(3)] if op == "dDD" else ["0", "1", "2"]):
                nm = f"{b}_{op}{idx}{dd}"
                I = closed.make(max_paths=4)
                trs = I.run(lambda I: closed.call(I, f"{FD}:extract_base_gfs_and_deriv_ops_lists__from_list_of_deriv_vars", [sp.Symbol(nm)]))
                ctx.ok("names")
                got = trs[0].outcome[1] if trs[0].outcome[0] == "return" else trs[0].outcome
                if len(trs) != 1 or trs[0].outcome[0] != "return" or [list(x) for x in got] != [[b + idx], [op + dd]]:
                    ctx.violation("names", nm, f"{nm} is split into {got}, must be field {b + idx}, operator {op + dd}")


def upwind_macro(ctx):
    """scalar definitions of the selector in generator text: one for positive, zero otherwise"""
    import ast

    P = templates.prog()
    for mod in sorted(P.paths):
        for n in ast.walk(P.tree(mod)):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and "#define UPWIND_ALG(" in n.value:
                for prm, body in re.findall(r"#define\s+UPWIND_ALG\(\s*(\w+)\s*\)([^\n]*)", n.value):
                    b = body.split("//")[0].replace("(", " ").replace(")", " ").split()
                    k = re.fullmatch(r"(\S+) ?(<=|>=|<|>) ?(\S+) ?\? ?(\S+) ?: ?(\S+)", " ".join(b))
                    if not k:
                        continue
                    l, o, r, y, z = k.groups()
                    try:
                        val = []
                        for x in (2.0, -2.0):
                            lv, rv = (x if l == prm else float(l)), (x if r == prm else float(r))
                            c = {"<": lv < rv, ">": lv > rv, "<=": lv <= rv, ">=": lv >= rv}[o]
                            val.append(float(y) if c else float(z))
                    except ValueError:
                        continue
                    ctx.ok("upwind sense")
                    if val != [1.0, 0.0]:
                        ctx.violation("upwind sense", f"{mod} UPWIND_ALG", f"UPWIND_ALG is {val[0]} for a positive and {val[1]} for a negative control vector, must be 1 and 0")


def job(args):
    from sa.framework import Ctx

    kind, a = args
    c = Ctx("P15", "quick", 1)
    err = None
    try:
        if kind == "case":
            case(c, *a)
        elif kind == "direct":
            direct(c, [a])
        elif kind == "names":
            names(c)
            refuse(c)
            upwind_macro(c)
    except AnalysisError as e:
        err = f"{args}: {e}"
    return c.violations, c.counts, err


def run(ctx):
    ctx.rule("taylor", "moments of the stencil coefficients equal those of the operator up to its order; Kreiss-Oliger stencils annihilate lower moments and damp the grid-scale mode by exactly one")
    ctx.rule("axis", "stencil offsets lie only along the axes the operator names")
    ctx.rule("upwind sense", "upwind/downwind stencils are biased to the named side, and the sign of the control vector's own component selects them")
    ctx.rule("ghost", "every offset is within the ghost-zone width generated for the order")
    ctx.rule("spacing", "each direction differentiated contributes its own inverse spacing once")
    ctx.rule("operator", "the code emitted for a derivative name is a combination of samples of the field it names")
    ctx.rule("array", "fields are read from the storage of their group")
    ctx.rule("dataflow", "every name the emitted code uses is read or computed before")
    ctx.rule("names", "derivative names split into the field and operator they spell, ranks 0 to 4")
    ctx.rule("refuse", "unsupported operators, malformed names and odd or non-positive orders raise")
    orders = [2, 4, 6, 8] + ([10, 12] if ctx.thorough else [])
    jobs = [("names", None)] + [("direct", o) for o in orders]
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        for o in orders[:3] if not ctx.thorough else orders:
            for simd in (False, True):
                for funcs in (False, True):
                    if not ctx.thorough and o == 6 and (simd or infra != "BHaH"):
                        continue
                    jobs.append(("case", (infra, o, simd, funcs)))
    templates.prog()
    import multiprocessing as mp

    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(job, jobs, chunksize=1)
    errs = []
    for v, c, e in res:
        for k, m in v.items():
            ctx.violations.setdefault(k, m)
        ctx.counts.update(c)
        if e:
            errs.append(e)
    if errs:
        raise AnalysisError("; ".join(errs[:3]))
    for o in orders:
        ctx.sample(f"order {o}: dD,dDD,dKOD,dupD,ddnD,dfullupD,dfulldnD x all directions")
    ctx.floor("taylor", 1000)
    ctx.floor("operator", 200)
