"""P09: the generated time step performs exactly the chosen Runge-Kutta update."""

import itertools

import sympy as sp

from sa import ctext, mol, rk
from sa.absint import AnalysisError, Program
from sa.templates import pmap

_P = None
_D = None


def q(x):
    return sp.nsimplify(x) if isinstance(x, float) else sp.sympify(x)


def one(job):
    infra, method, simd, rfm, bc = job
    tab, order = _D[method]
    embedded = tab[-1][0] != ""
    trs, I = mol.generate(_P, infra, method, enable_simd=simd, enable_rfm_precompute=rfm, enable_curviBCs=bc)
    where = f"{infra} MoL step, method {method}, simd={simd}"
    res = dict(job=job, where=where, viol=[], n=0, states=[])
    if embedded:
        bad = [t for t in trs if t.outcome[0] != "raise"]
        if bad:
            res["viol"].append(("rejected", f"{infra}:{method}", "an embedded pair is accepted by the fixed-step driver instead of being refused"))
        res["n"] = 1
        res["embedded"] = True
        return res
    for tr in trs:
        if tr.outcome[0] != "return":
            res["viol"].append(("generated", f"{infra}:{method} simd={simd}", f"generation fails: {tr.outcome[1]}"))
            continue
        regs = {}
        defs = ""
        for e in tr.effects:
            if e["kind"] == "register_CFunction":
                regs.setdefault(ctext.Rendered(e["args"]["name"]).text, e["args"])
            elif e["kind"] == "register_defines":
                for v in e["args"].values():
                    t = ctext.Rendered(v).text if not isinstance(v, (list, dict)) else ""
                    defs += "\n" + t
        if "MoL_step_forward_in_time" not in regs:
            raise AnalysisError("MoL_step_forward_in_time is not registered")
        body = ctext.Rendered(regs["MoL_step_forward_in_time"]["body"]).text
        key = f"{infra} {method} simd={simd}"
        b = ctext.balance(body)
        if b:
            res["viol"].append(("wellformed", key, b))
            continue
        ast_, p = ctext.parse(body)
        if any(n.k == "raw" for n in ctext.walk(ast_)):
            raw = [n for n in ctext.walk(ast_) if n.k == "raw"][0]
            res["viol"].append(("wellformed", key, "statement cannot be parsed: " + " ".join(t.s for t in raw.toks)[:120]))
            continue
        S = len(tab) - 1
        d = mol.Driver(mol.macros_of(defs))
        outs, posts = [], []
        try:
            env0 = {n: ("opaque", n) for n in ("commondata", "griddata", "params")}
            if infra == "BHaH":
                d.run(ast_, env0, {})
            else:
                env0["time_start"] = d.t0
                env0["which_RK_substep"] = ("opaque", "which_RK_substep")
                env0["which_MOL_part"] = ("opaque", "which_MOL_part")
                for s in range(1, S + 1):
                    l0, r0 = len(d.log), len(d.rhs)
                    for part in ("MOL_PRE_RK_UPDATE", "MOL_RK_UPDATE", "MOL_POST_RK_UPDATE_APPLY_BCS", "MOL_POST_RK_UPDATE"):
                        d.run(ast_, env0, {"which_RK_substep": f"RK_SUBSTEP_K{s}", "which_MOL_part": part})
                    outs.append([x[3] for x in d.rhs[r0:]])
                    posts.append([x[1] for x in d.log[l0:] if x[0] == "ZBCS"])
        except mol.CErr as e:
            res["viol"].append(("update", key, str(e)))
            continue
        # spec
        K = [sp.Symbol(f"K{i+1}", real=True) for i in range(S)]
        res["n"] += 1
        if len(d.rhs) != S:
            res["viol"].append(("stages", key, f"{len(d.rhs)} right-hand-side evaluations for a {S}-stage method"))
            continue
        ok = True
        for s in range(S):
            st, tm, i, o, need = d.rhs[s]
            want = mol.Y + sum(mol.DT * q(tab[s][m + 1]) * K[m] for m in range(len(tab[s]) - 1))
            res["n"] += 2
            if sp.expand(st - want) != 0:
                res["viol"].append(("state", f"{key} stage {s+1}", f"right-hand side is evaluated at {st}, the tableau prescribes {sp.expand(want)}"))
                ok = False
                break
            off = sp.expand((tm - d.t0))
            c = q(tab[s][0])
            oc = off.coeff(mol.DT)
            if sp.expand(off - oc * mol.DT) != 0 or abs(float(oc) - float(c)) > 2e-16 * max(1.0, abs(float(c))):
                res["viol"].append(("time", f"{key} stage {s+1}", f"right-hand side is evaluated at t_n + {off}, the tableau prescribes {c}*dt"))
                ok = False
                break
            if need:
                res["viol"].append(("post", f"{key} stage {s+1}", f"right-hand side reads {i} to which {sorted(need)} post-stage operation(s) were not applied"))
                ok = False
                break
        if not ok:
            continue
        fin = d.arr.get("y_n_gfs")
        want = mol.Y + sum(mol.DT * q(tab[S][m + 1]) * K[m] for m in range(len(tab[S]) - 1))
        res["n"] += 1
        if sp.expand(fin - want) != 0:
            res["viol"].append(("final", key, f"y_n_gfs ends as {fin}, the tableau prescribes {sp.expand(want)}"))
            continue
        if d.posted["y_n_gfs"] != {"BCS", "POST"}:
            res["viol"].append(("post", f"{key} final", f"post-stage operations applied to the final state: {sorted(d.posted['y_n_gfs'])}"))
        if infra == "BHaH":
            # t_{n+1} and the iteration counter
            nn = sp.Symbol("nn")
            res["n"] += 1
            if sp.expand(d.nn - nn - 1) != 0:
                res["viol"].append(("counter", key, f"iteration counter becomes {d.nn}"))
            if sp.expand(d.time - (nn + 1) * mol.DT) != 0 and sp.expand(d.time - d.t0 - mol.DT) != 0:
                res["viol"].append(("counter", key, f"time after the step is {d.time}"))
        else:
            # name lists used by the communication layer agree with the step
            for fn, got, rule in (("generate_rhs_output_exprs", outs, "rhs-output-list"), ("generate_post_rhs_output_list", posts, "post-output-list")):
                I2 = mol.Interp(_P, max_paths=20, host_modules=("sympy",))
                I2.patterns = [(__import__("re").compile(r"^'\w+' in nrpy\.params\.glb_code_params_dict$"), True)]
                for s in range(1, S + 1):
                    t2 = I2.run(lambda I: I.call_func(I.func(f"{mol.INFRA['superB'][0]}:{fn}"), [], dict(Butcher_dict=_D, MoL_method=method, rk_substep=s), None))
                    v = t2[0].outcome[1]
                    res["n"] += 1
                    if len(t2) != 1 or not isinstance(v, list) or sorted(v) != sorted(x.upper() for x in got[s - 1]):
                        res["viol"].append((rule, f"{fn} {method} substep {s}", f"lists {v}, the generated step uses {[x.upper() for x in got[s-1]]}"))
        # storage: every array touched is allocated
        alloc = set()
        for nm, a in regs.items():
            if nm.startswith("MoL_malloc_"):
                t = ctext.Rendered(a["body"]).text
                for n in ctext.walk(ctext.parse(t)[0]):
                    if n.k == "assign" and "malloc" in vt(n.b) and n.a.k == "mem":
                        alloc.add(n.a.m)
        miss = sorted(x for x in d.touched if x not in alloc)
        res["n"] += len(d.touched)
        if miss:
            res["viol"].append(("storage", f"{key}", f"the step uses {miss}, which MoL_malloc_* does not allocate"))
        res["states"].append(f"{key}: {len(d.rhs)} stages, arrays {sorted(d.touched)}")
    return res


def vt(e):
    return ctext.vtext(e)


def run(ctx):
    global _P, _D
    _P = Program()
    _D = mol.methods(_P)
    for r, t in dict(
        state="stage s is evaluated at y_n + dt*sum_j a_sj k_j (exact linear-form equality)",
        time="stage s is evaluated at t_n + c_s*dt",
        final="y_n ends as y_n + dt*sum b_i k_i",
        post="both post-stage hooks are applied exactly once, in order, to every state before it is used and to the final state; never to a non-state",
        storage="every array the step touches is allocated; no array is read before it is set",
        stages="one right-hand-side evaluation per stage",
        rejected="embedded pairs are refused",
    ).items():
        ctx.rule(r, t)
    ctx.rule("rhs-output-list", "the distributed back end's per-substep output name lists equal the arrays the step writes / post-processes")
    jobs = []
    for infra in mol.INFRA:
        for m in _D:
            opts = itertools.product((False, True), repeat=3) if ctx.thorough else [(False, False, False), (True, True, True), (False, True, True)]
            for simd, rfm, bc in opts:
                jobs.append((infra, m, simd, rfm, bc))
    for r in pmap(one, jobs):
        ctx.ok("obligations", r["n"])
        for s in r["states"]:
            ctx.sample(s)
        for rule, c, msg in r["viol"]:
            ctx.violation(rule, c, msg)
    ctx.ok("combinations", len(jobs))
    ctx.floor("combinations", 100)
    ctx.floor("obligations", 500)
