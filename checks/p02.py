"""P02: temporary changes of global generation settings are always undone."""

import ast
import re

from sa import slicing, templates
from sa.absint import Func, Inst, Interp, Sym, sym_params, vkey

WRITERS = {"set_parval_from_str", "glb_params_dict"}
ANCH = {"set_parval_from_str", "parval_from_str", "glb_params_dict"}
# functions whose documented purpose is to change a setting for good
SETTERS = {"nrpy.params", "nrpy.helpers.parallel_codegen"}


def writes_setting(f):
    """mentions the setter, or stores through the parameter registry"""
    for n in ast.walk(f):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if nm == "set_parval_from_str":
                return True
            if nm in ("setattr", "update", "pop", "clear", "setdefault", "__setitem__") and "glb_params_dict" in slicing.mentions(n):
                return True
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            if any(not isinstance(t, ast.Name) and ("glb_params_dict" in slicing.mentions(t)) for t in ts):
                return True
        if isinstance(n, ast.Name) and n.id == "set_parval_from_str" or isinstance(n, ast.Attribute) and n.attr == "set_parval_from_str":
            return True
    return False


def targets(P):
    """generator functions that (transitively) write a setting and are entered from outside: not
    private helpers, whose effect is judged inside the functions that use them"""
    direct = set()
    ments = {}
    for m, q, f in slicing.all_functions(P):
        nm = q.split(".")[-1]
        ments.setdefault((m, q), slicing.mentions(f))
        if m not in SETTERS and writes_setting(f):
            direct.add((m, q))
    called = set()
    for (m, q), ms in ments.items():
        if not m.startswith("nrpy.examples"):
            for x in ms:
                called.add(x) if x != q.split(".")[-1] else None
    rel = {q.split(".")[-1] for m, q in direct}
    changed = True
    allw = set(direct)
    while changed:
        changed = False
        for (m, q), ms in ments.items():
            if (m, q) not in allw and m not in SETTERS and ms & rel and q.split(".")[-1] != "__init__":
                allw.add((m, q))
                rel.add(q.split(".")[-1])
                changed = True
    out = []
    for m, q in sorted(allw):
        if m.startswith("nrpy.examples"):
            continue
        nm = q.split(".")[-1]
        if nm.startswith("register_") or nm not in called:
            out.append((m, q))
    return out, rel


def run_one(arg):
    m, q = arg
    I = Interp(_Q, max_paths=1024, open_registries=False, max_steps=2_000_000)
    for k in ("nrpy.params.parval_from_str", "nrpy.params.set_parval_from_str", "nrpy.params.register_param"):
        I.models.pop(k, None)
    I.patterns = [(re.compile(r"^bool\(pcg_registration_phase\(\)\)$"), False)]
    snap = {}

    def entry(I):
        f = I.func(f"{m}:{q}")
        reg = I.module("nrpy.params").scope.vars["glb_params_dict"]
        snap.clear()
        for n, o in reg.items():
            v = Sym(f"entry[{n}]")
            o.attrs["value"] = v
            snap[n] = v
        kw = sym_params(f)
        r = I.call_func(f, [], kw, None) if isinstance(f, Func) else None
        reg = I.module("nrpy.params").scope.vars["glb_params_dict"]
        I.effect("final", None, vals={n: vkey(reg[n].attrs.get("value")) if n in reg and isinstance(reg[n], Inst) else "(removed)" for n in snap})
        return r

    trs = I.run(entry)
    out, n = [], 0
    for t in trs:
        if t.outcome[0] != "return":
            continue
        n += 1
        fin = t.effs("final")
        if not fin:
            continue
        for name, v in fin[-1]["vals"].items():
            if v != vkey(Sym(f"entry[{name}]")):
                out.append((name, v, t.cond()))
    return dict(arg=arg, viol=out, n=n, npaths=len(trs), truncated=I.truncated)


_Q = None


def safe(arg):
    try:
        return run_one(arg)
    except Exception as e:  # noqa: BLE001
        return dict(arg=arg, error=f"{type(e).__name__}: {e}")


def run(ctx):
    global _Q
    ctx.rule("restored", "on every path on which the generator returns, every registered generation setting holds the value it had on entry")
    P = templates.prog()
    tg, rel = targets(P)
    rel = rel | ANCH
    _Q = slicing.slice_program(P, rel | {"pcg_registration_phase"}, only=lambda m: m not in SETTERS, keep_return_values=False)
    for r in templates.pmap(safe, tg):
        m, q = r["arg"]
        if "error" in r:
            ctx.undecided(f"{m}:{q}", r["error"])
            continue
        if not r["n"]:
            ctx.undecided(f"{m}:{q}", "no returning path found")
            continue
        ctx.ok("restored", r["n"])
        ctx.ok("generators")
        ctx.sample(f"{m}:{q}: {r['n']} returning paths of the slice")
        if r["truncated"]:
            ctx.undecided(f"{m}:{q}", "path budget reached")
        seen = set()
        for name, v, cond in r["viol"]:
            if name in seen:
                continue
            seen.add(name)
            ctx.violation("restored", f"{m}:{q} {name}", f"returns with {name} = {v[:80]} instead of the value found on entry, when {cond[:200] or 'always'}")
    ctx.floor("generators", 8)
