"""P01: deferred (parallel) code generation equals serial generation."""

import ast
import copy
import os
import re

from sa import closed, slicing, templates
from sa.absint import Exc, Func, Inst, Interp, Mod, PyRaise, Sym, Tmpl, mk, sym_params, vkey

PCG = "nrpy.helpers.parallel_codegen"
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "stubs")
HARMLESS = {"pcg_phase_test", "parval_read", "entry", "NRPyEnv"}
REGS = [("nrpy.params", "glb_params_dict"), ("nrpy.params", "glb_code_params_dict"), ("nrpy.c_function", "CFunction_dict"), ("nrpy.grid", "glb_gridfcs_dict"), ("nrpy.params", "glb_extras_dict")]


def pcg_functions(P):
    """functions whose call reaches the phase test, directly or through a helper that is not itself
    a generator"""
    direct = {"pcg_registration_phase"}
    out = []
    helpers = set(direct)
    fns = [(m, q, f, slicing.mentions(f)) for m, q, f in slicing.all_functions(P, skip=(PCG,)) if not m.startswith("nrpy.examples")]
    # helpers of the queueing module
    for q, f in P.functions(PCG):
        if "pcg_registration_phase" in slicing.mentions(f) and q not in ("pcg_registration_phase",):
            helpers.add(q)
    for m, q, f, ms in fns:
        if q.split(".")[-1].startswith("_") and ms & helpers:
            helpers.add(q.split(".")[-1])
    for m, q, f, ms in fns:
        if ms & helpers and "." not in q and q.split(".")[-1] not in helpers:
            out.append((m, q))
    return out


_P = None
_Q = None


def frame_names(name, effects, upto):
    """replace the reflective own-name expression by the name it evaluates to"""
    stack = None
    for e in effects:
        if e["seq"] > upto:
            break
        if e["kind"] == "ext_call" and e["name"] in ("inspect.currentframe", "sys._getframe"):
            stack = e["stack"]
            depth = 0
            if e["name"] == "sys._getframe" and e["args"]:
                depth = e["args"][0] if isinstance(e["args"][0], int) else 0
    t = name if isinstance(name, str) else "".join(p if isinstance(p, str) else f"<{p.key}>" for p in name.parts) if isinstance(name, Tmpl) else f"<{vkey(name)}>"

    def sub(m):
        k = m.group(1).count(".f_back") + (depth if stack is not None else 0)
        if stack is None or len(stack) <= k:
            return m.group(0)
        q = stack[-1 - k]
        return q.rsplit(".", 1)[-1]

    return re.sub(r"<(?:inspect\.currentframe|sys\._getframe)\([^)]*\)((?:\.f_back)*)\.f_code\.co_name>", sub, t)


def registration(arg):
    m, q = arg
    I = templates.make_interp(200, (), [(re.compile(r"^bool\(pcg_registration_phase\(\)\)$"), True)])
    init = {}

    def entry(I):
        fn = I.func(f"{m}:{q}")
        I.effect("entry", None)
        kw = sym_params(fn)
        init.clear()
        init.update(kw)
        return I.call_func(fn, [], dict(kw), None)

    trs = I.run(entry)
    viol, n, note = [], 0, None
    for t in trs:
        if t.outcome[0] == "raise":
            continue
        if t.outcome[0] != "return":
            note = f"path not followed to the end ({t.outcome[0]})"
            continue
        ks = [e["kind"] for e in t.effects]
        i = ks.index("entry")
        es = [e for e in t.effects[i + 1 :] if not e["fn"].endswith("<module>") and not any(s.endswith("<module>") for s in e["stack"])]
        if not any(e["kind"] == "pcg_phase_test" for e in es):
            # this path never asks: not a deferrable call
            viol.append(("queue", "a call completes without asking for the phase", t.cond()))
            continue
        n += 1
        calls = [e for e in es if e["kind"] == "register_func_call"]
        extra = [e for e in es if e["kind"] not in HARMLESS | {"register_func_call"} and not (e["kind"] in ("ext_call", "sym_call") and harmless_ext(e))]
        if len(calls) != 1:
            viol.append(("queue", f"queues itself {len(calls)} times in the registration phase", t.cond()))
            continue
        for e in extra:
            viol.append(("queue", f"has an effect in the registration phase ({describe(e)}) that deferred execution repeats or the caller sees early", t.cond()))
        c = calls[0]
        nm = frame_names(c["args"].get("name"), t.effects, c["seq"])
        if nm != f"{m}.{q}":
            viol.append(("queue", f"queues {nm} instead of itself", t.cond()))
        a = c["args"].get("args")
        if not isinstance(a, dict):
            viol.append(("queue", f"queued arguments are {vkey(a)[:100]}", t.cond()))
        else:
            for k in init:
                if k not in a:
                    viol.append(("queue", f"argument {k} is not passed on to the deferred call", t.cond()))
                elif vkey(I.resolve(a[k]) if hasattr(I, "resolve") else a[k]) not in (vkey(init[k]), vkey(I.resolve(init[k]))):
                    viol.append(("queue", f"argument {k} is queued as {vkey(a[k])[:80]}, not as given", t.cond()))
            for k in a:
                if k not in init:
                    viol.append(("queue", f"queues {k}, which is not a parameter, so the deferred call fails", t.cond()))
        if t.outcome[1] is not None and not isinstance(t.outcome[1], (Sym,)):
            pass
    return dict(arg=arg, viol=viol, n=n, note=note)


def harmless_ext(e):
    n = e["name"]
    return n.startswith(("inspect.", "sys._getframe", "logging.", "print", "builtins.print", "typing.", "time.", "warnings.", "copy.")) or n.endswith((".f_code", ".lower", ".upper", ".format", ".items", ".keys", ".values", ".get", ".copy", ".startswith", ".endswith", ".split", ".strip", ".replace", ".join"))


def describe(e):
    if "name" in e:
        return f"{e['kind']} {e['name']}"
    if "qual" in e:
        return f"{e['kind']} {str(e['qual']).rsplit('.', 1)[-1]}"
    return e["kind"]


def codegen(arg):
    m, q = arg
    I = Interp(_Q, max_paths=600, max_steps=2_000_000)
    I.patterns = [(re.compile(r"^bool\(pcg_registration_phase\(\)\)$"), False), (re.compile(r"^bool\((validate_expressions|return_validation_dict)\)$"), False)]

    def entry(I):
        fn = I.func(f"{m}:{q}")
        I.effect("entry", None)
        return I.call_func(fn, [], sym_params(fn), None)

    trs = I.run(entry)
    viol, n = [], 0
    for t in trs:
        if t.outcome[0] != "return":
            continue
        n += 1
        v = t.outcome[1]
        k = vkey(v)
        if not k.startswith(f"{PCG}.NRPyEnv("):
            viol.append(("env", f"completes returning {k[:80]} instead of the environment", t.cond()))
        if any(e["kind"] == "register_func_call" for e in t.effects):
            viol.append(("env", "queues itself again when executed", t.cond()))
    return dict(arg=arg, viol=viol, n=n, note="path budget reached" if I.truncated else None)


def safe(job):
    kind, arg = job
    try:
        return kind, (registration if kind == "reg" else codegen)(arg)
    except Exception as e:  # noqa: BLE001
        return kind, dict(arg=arg, error=f"{type(e).__name__}: {e}")


def stub_program():
    from sa.absint import Program

    P = Program(templates.prog().root)
    P._trees = templates.prog()._trees
    P.paths = dict(templates.prog().paths)
    for s in ("multiprocess", "fakegen"):
        P.paths[s] = os.path.join(STUBS, s + ".py")
    P._trees = dict(P._trees)
    return P


def world(max_paths=60):
    I = Interp(stub_program(), max_paths=max_paths, open_registries=False, max_steps=2_000_000, opaque=())
    I.models = {"nrpy.helpers.type_annotation_utilities.validate_literal_arguments": lambda I, f, a, k, n: None}

    def imp(I, a, k, n):
        name = a[0] if a else k.get("name")
        m = I.module(name)
        if not isinstance(m, Mod):
            raise PyRaise(Exc("ImportError", (f"No module named {name}",)), n)
        return m

    I.ext_models = dict(I.ext_models)
    I.ext_models["importlib.import_module"] = imp
    old = I.ext_models.get("builtins.getattr")

    def getattr_(I, a, k, n):
        if len(a) == 2 and isinstance(a[0], Mod) and isinstance(a[1], str) and a[0].tree is not None and a[1] not in a[0].scope.vars:
            raise PyRaise(Exc("AttributeError", (a[1],)), n)
        return old(I, a, k, n) if old else NotImplemented

    I.ext_models["builtins.getattr"] = getattr_
    return I


def one(I, fn):
    trs = I.run(fn)
    outs = [t for t in trs]
    return outs


def setpar(I, name, v):
    I.module(PCG)
    I.module("nrpy.params").scope.vars["glb_params_dict"][name].attrs["value"] = v


def regs(I):
    return [I.module(m).scope.vars[v] for m, v in REGS]


def phase(ctx):
    for en in (False, True):
        for stg in ("register", "codegen"):
            I = world()

            def entry(I):
                I.module("fakegen")
                setpar(I, "parallel_codegen_enable", en)
                setpar(I, "parallel_codegen_stage", stg)
                return closed.call(I, f"{PCG}:pcg_registration_phase")

            for t in one(I, entry):
                ctx.ok("phase")
                want = en and stg == "register"
                if t.outcome[0] != "return" or bool(t.outcome[1]) != want or not isinstance(t.outcome[1], bool):
                    ctx.violation("phase", f"enable={en} stage={stg}", f"the registration phase test gives {t.outcome[1]}, expected {want}")
    # defaults: serial generation, registration stage first
    I = world()

    def entry(I):
        I.module(PCG)
        g = I.module("nrpy.params").scope.vars["glb_params_dict"]
        return (g["parallel_codegen_enable"].attrs["value"], g["parallel_codegen_stage"].attrs["value"])

    for t in one(I, entry):
        ctx.ok("phase")
        if t.outcome[0] == "return" and t.outcome[1] != (False, "register"):
            ctx.violation("phase", "defaults", f"generation starts as {t.outcome[1]}, not serial in the registration stage")


def environment(ctx):
    I = world()

    def entry(I):
        e = closed.call(I, f"{PCG}:NRPyEnv")
        I.effect("same", None, same=[a is b for a, b in zip(e, regs(I))] if isinstance(e, tuple) else None, n=len(e) if isinstance(e, tuple) else -1)
        return e

    for t in one(I, entry):
        ctx.ok("environment")
        s = t.effs("same")
        if not s or s[0]["n"] != 5 or not all(s[0]["same"]):
            miss = [REGS[i][1] for i, x in enumerate((s[0]["same"] if s and s[0]["same"] else []) + [False] * 5) if not x and i < 5]
            ctx.violation("environment", "NRPyEnv", f"the environment handed back does not consist of the five registries in order (missing or misplaced: {miss})")


QUEUE = [("fakegen.gen", dict(tag="a", value=1)), ("fakegen.gen", dict(tag="b", value=2)), ("fakegen.other", dict(tag="c")), ("fakegen.gen", dict(tag="a2")), ("fakegen.gen", dict(tag="b", value=3))]


def execution(ctx):
    """the queue and its execution, interpreted with stand-in generators"""
    for enabled in (True, False):
        I = world()

        def entry(I):
            I.module("fakegen")
            setpar(I, "parallel_codegen_enable", enabled)
            R = regs(I)
            # what is in the parent before
            R[0]["pre"] = "keep"
            R[1]["pre"] = "keep"
            R[2]["pre"] = "keep"
            R[3]["pre"] = "keep"
            R[4]["shared"] = {"pre": "keep"}
            R[4]["deep2"] = {"lvl": {"pre": "keep"}, "z": 1}
            for nm, kw in QUEUE:
                closed.call(I, f"{PCG}:register_func_call", nm, dict(kw))
            closed.call(I, f"{PCG}:do_parallel_codegen")
            I.effect("state", None, regs=[plain(x) for x in regs(I)], calls=list(I.module("fakegen").scope.vars["CALLS"]))
            return None

        for t in one(I, entry):
            tag = f"enabled={enabled}"
            if opaque_dispatch(t):
                ctx.undecided("execution", f"the workers are driven through {opaque_dispatch(t)}, which is not modelled")
                return
            ctx.ok("execution")
            if t.outcome[0] != "return":
                ctx.violation("execution", tag, f"running the queue fails: {t.outcome[1]}")
                continue
            st = t.effs("state")[0]
            calls = [(c[0], c[1], c[2]) for c in st["calls"]]
            if not enabled:
                if calls:
                    ctx.violation("execution", tag, "queued calls are executed although parallel generation is off")
                continue
            want = [(nm.split(".")[1], kw["tag"], kw.get("value", 0 if nm.endswith("gen") else None)) for nm, kw in QUEUE]
            if sorted(map(str, calls)) != sorted(map(str, want)):
                ctx.violation("execution", tag, f"queued calls {want} are executed as {calls}")
                continue
            if any(c[3] != "codegen" for c in st["calls"]):
                ctx.violation("execution", "stage", "queued calls are executed while still in the registration stage")
            for i, (mod, nm) in enumerate(REGS):
                ctx.ok("execution")
                got = st["regs"][i]
                exp = {}
                for fn, kw in QUEUE:
                    t_, v_ = kw["tag"], kw.get("value", 0)
                    if fn.endswith("gen"):
                        if i < 4:
                            exp[f"{('par', 'cpar', 'fn', 'gf')[i]}_{t_}"] = ("PCFG"[i], t_, v_)
                        else:
                            exp.setdefault("shared", {})[f"ex_{t_}"] = ("E", t_, v_)
                            exp.setdefault(f"own_{t_}", {}).setdefault("deep", {})[f"d_{t_}"] = v_
                            exp.setdefault("deep2", {}).setdefault("lvl", {})[f"k_{t_}"] = v_
                    elif i < 4:
                        exp[f"{('par', 'cpar', 'fn', 'gf')[i]}_o{t_}"] = i + 1
                    else:
                        exp.setdefault("shared", {})[f"ex_o{t_}"] = 5
                if i < 4:
                    exp["pre"] = "keep"
                else:
                    exp["shared"]["pre"] = "keep"
                    exp["deep2"]["lvl"]["pre"] = "keep"
                    exp["deep2"]["z"] = 1
                bad = diff(exp, got)
                if bad:
                    ctx.violation("execution", nm, f"after collecting the workers' results {nm} {bad}")
    # refusing duplicates, and failures are not swallowed
    for label, q in (("duplicate", [QUEUE[0], QUEUE[0]]), ("failing", [("fakegen.failing", dict(tag="x"))]), ("missing function", [("fakegen.nothere", dict(tag="x"))]), ("missing module", [("nomodule.gen", dict(tag="x"))])):
        I = world()

        def entry2(I):
            I.module("fakegen")
            setpar(I, "parallel_codegen_enable", True)
            for nm, kw in q:
                closed.call(I, f"{PCG}:register_func_call", nm, dict(kw))
            closed.call(I, f"{PCG}:do_parallel_codegen")
            return None

        for t in one(I, entry2):
            if opaque_dispatch(t):
                continue
            ctx.ok("execution")
            if t.outcome[0] == "return":
                ctx.violation("execution", label, {"duplicate": "queueing the same call twice is accepted silently"}.get(label, f"a queued call that fails ({label}) is swallowed: generation goes on without its code"))


def opaque_dispatch(t):
    for e in t.effects:
        if e["kind"] in ("ext_call", "sym_call") and any("do_parallel_codegen" in x for x in e["stack"]):
            if e["name"].split(".")[0] in ("multiprocess", "multiprocessing", "concurrent", "functools", "threading", "joblib", "pathos") or any(isinstance(a, Func) for a in e["args"]):
                return e["name"]
    return None


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def diff(exp, got, path=""):
    if not isinstance(got, dict):
        return f"holds {got!r} at {path or 'top level'}"
    for k, v in exp.items():
        if k not in got:
            return f"lacks {path}{k}"
        if isinstance(v, dict):
            b = diff(v, got[k], f"{path}{k}.")
            if b:
                return b
        elif got[k] != v:
            return f"holds {path}{k} = {got[k]!r} instead of {v!r}"
    return None


def run(ctx):
    global _P, _Q
    ctx.rule("phase", "the registration phase is exactly: parallel generation enabled and stage 'register'")
    ctx.rule("environment", "the environment handed back is the five global registries, in the order the collector unpacks them")
    ctx.rule("execution", "every queued call is executed once with its own arguments in the codegen stage; every entry of every registry it hands back ends up in the parent's registry of the same name, merged below the first level for the nested one; duplicates and failures raise")
    ctx.rule("queue", "in the registration phase a generator queues itself once, under module name + own name, with exactly its parameters as given, and does nothing else")
    ctx.rule("env", "every path through a generator in the codegen stage returns the environment")
    P = templates.prog()
    _P = P
    ctx.attempt("phase", phase, ctx)
    ctx.attempt("environment", environment, ctx)
    ctx.attempt("execution", execution, ctx)
    fns = pcg_functions(P)
    rel = {"pcg_registration_phase", "register_func_call", "NRPyEnv", "NRPyEnv_type"}
    for m, q, f in slicing.all_functions(P, skip=(PCG,)):
        if q.startswith("_") and slicing.mentions(f) & rel:
            rel.add(q)
    _Q = slicing.slice_program(P, rel, only=lambda m: m != PCG)
    for m, q in fns:
        P.tree(m)
    jobs = [("reg", a) for a in fns] + [("gen", a) for a in fns]
    for kind, r in templates.pmap(safe, jobs):
        m, q = r["arg"]
        if "error" in r:
            ctx.undecided(f"{kind} {m}:{q}", r["error"])
            continue
        if r.get("note"):
            ctx.undecided(f"{kind} {m}:{q}", r["note"])
        if not r["n"] and not r["viol"]:
            ctx.undecided(f"{kind} {m}:{q}", "no completing path")
        ctx.ok("queue" if kind == "reg" else "env", r["n"])
        seen = set()
        for rule, msg, cond in r["viol"]:
            if msg in seen:
                continue
            seen.add(msg)
            ctx.violation(rule, f"{m}:{q} {msg[:60]}", f"{msg}{' when ' + cond[:160] if cond else ''}")
    ctx.floor("queue", 60)
    ctx.floor("env", 60)
