"""P03: registries refuse duplicates and unknown names, and objects keep the options they were given."""

import itertools
import re

from sa import closed
from sa.absint import AnalysisError, Ext, Inst, Tmpl

CF = "nrpy.c_function"
PAR = "nrpy.params"
GRI = "nrpy.grid"
GC = "nrpy.infrastructures.BHaH.griddata_commondata"
BD = "nrpy.infrastructures.BHaH.BHaH_defines_h"


def plain(v):
    if isinstance(v, Tmpl):
        s = "".join(p if isinstance(p, str) else f"<{p}>" for p in v.parts)
        return s
    return v


def one_path(fn, models=None):
    """('return', value) / ('raise', exception class) of one deterministic history"""
    I = closed.make(models=models)
    trs = I.run(fn)
    kinds = {t.outcome[0] for t in trs}
    if len(trs) != 1:
        raise AnalysisError(f"{len(trs)} paths in a closed history: {[t.cond() for t in trs][:2]}")
    o = trs[0].outcome
    if o[0] == "raise":
        e = o[1]
        return "raise", str(getattr(e, "name", None) or getattr(e, "cls", None) or getattr(e, "etype", None) or e)
    if o[0] != "return":
        raise AnalysisError(f"outcome {kinds}")
    return "return", o[1]


def ty(n):
    return Ext("builtins." + n)


def reg(I, mod, name):
    return I.module(mod).scope.vars[name]


def attrs(o):
    if not isinstance(o, Inst):
        raise AnalysisError(f"not an instance: {o!r}")
    return {k: plain(v) for k, v in o.attrs.items()}


class Chk:
    def __init__(self, ctx):
        self.ctx = ctx

    def raises(self, rule, where, what, fn, anyerr=True):
        def go():
            o, v = one_path(fn)
            self.ctx.ok(rule)
            if o != "raise":
                self.ctx.violation(rule, where, f"{what} is accepted without an error")
        self.ctx.attempt(f"{where}: {what}", go)

    def accepts(self, rule, where, what, fn, test=None):
        def go():
            o, v = one_path(fn)
            self.ctx.ok(rule)
            if o == "raise":
                self.ctx.violation(rule, where, f"{what} is refused ({v[:120]})")
                return
            if test:
                msg = test(v)
                if msg:
                    self.ctx.violation(rule, where, f"{what}: {msg}")
        self.ctx.attempt(f"{where}: {what}", go)


def expect(got, want):
    for k, v in want.items():
        if k not in got:
            return f"option {k} is not kept"
        if got[k] != v or type(got[k]) is not type(v):
            return f"{k} = {str(got[k])[:80]!r} instead of {str(v)[:80]!r}"
    return None


# ------------------------------------------------------------------ C functions
def cfunctions(c):
    call = closed.call
    q = f"{CF}:register_CFunction"
    base = dict(desc="D0", body="B0;\n")

    def both(a, b):
        def fn(I):
            call(I, q, **{**base, **a})
            call(I, q, **{**base, **b})
            return {k: attrs(v) for k, v in reg(I, CF, "CFunction_dict").items()}
        return fn

    w = f"{CF}:register_CFunction"
    variants = [
        ({}, {}), ({}, {"body": "B1;"}), ({"subdirectory": "s1"}, {"subdirectory": "s2"}),
        ({"params": "int a"}, {"params": "double b"}), ({"cfunc_type": "int"}, {"cfunc_type": "void"}),
        ({"CoordSystem_for_wrapper_func": "C1"}, {"CoordSystem_for_wrapper_func": "C1", "body": "other;"}),
        ({"ET_thorn_name": "T1"}, {"ET_thorn_name": "T1"}), ({"enable_simd": True}, {"enable_simd": False}),
        ({"cfunc_decorators": "template<class T>"}, {}),
    ]
    for a, b in variants:
        c.raises("duplicate", w, f"a second C function of the same name (first {a or 'plain'}, second {b or 'plain'})", both({"name": "f", **a}, {"name": "f", **b}))

    def kept(I):
        call(I, q, name="f", **base)
        try_ok = True
        from sa.absint import PyRaise
        try:
            call(I, q, name="f", desc="D1", body="B1;")
        except PyRaise:
            try_ok = False
        return try_ok, attrs(reg(I, CF, "CFunction_dict")["f"])

    c.accepts("duplicate", w, "the first registration after a refused second one", kept, lambda v: expect(v[1], {"desc": "D0", "body": "B0;\n"}))

    def names(v):
        want = {"f", "g__rfm__C1", "g__rfm__C2", "f__rfm__C1"}
        if set(v) != want:
            return f"registered under {sorted(v)} instead of {sorted(want)}"
        for n in want:
            if v[n]["name"] != n:
                return f"entry {n} holds the function {v[n]['name']}"

    def four(I):
        for n, cs in (("f", ""), ("g", "C1"), ("g", "C2"), ("f", "C1")):
            call(I, q, name=n, CoordSystem_for_wrapper_func=cs, **base)
        return {k: attrs(v) for k, v in reg(I, CF, "CFunction_dict").items()}

    c.accepts("duplicate", w, "functions that differ by name or coordinate system", four, names)
    for miss in ("name", "desc", "body"):
        kw = {"name": "f", **base}
        c.raises("validation", f"{CF}:CFunction", f"a C function without {miss}", lambda I, kw=kw, miss=miss: call(I, q, **{**kw, miss: ""}))
    c.raises("validation", f"{CF}:CFunction", "includes given as a string", lambda I: call(I, q, name="f", includes="x.h", **base))
    c.raises("validation", f"{CF}:CFunction", "an include that is not a string", lambda I: call(I, q, name="f", includes=["a.h", 3], **base))
    c.raises("validation", f"{CF}:CFunction", "griddata_struct in the parameters of a coordinate-specific function", lambda I: call(I, q, name="f", CoordSystem_for_wrapper_func="C", params="griddata_struct *g", **base))
    c.accepts("validation", f"{CF}:CFunction", "griddata_struct in the parameters of a function for all coordinates", lambda I: call(I, q, name="f", params="griddata_struct *g", **base))

    # every option survives
    opts = dict(
        enable_simd=[False, True], includes=[None, ["<a.h>", "BHaH_defines.h", "z.h"]], prefunc=["", "static int PRE;"], desc=["DESC line1\nline2"], cfunc_type=["void", "REAL"], params=["", "const int PAR"],
        include_CodeParameters_h=[False, True], body=["BODY(); // simd_width", "BODY();"], postfunc=["", "int POST;"], CoordSystem_for_wrapper_func=["", "CS"], ET_thorn_name=["", "TH"],
        ET_schedule_bins_entries=[None, [("BIN", "ENTRY")]], ET_current_thorn_CodeParams_used=[None, ["p1"]], ET_other_thorn_CodeParams_used=[None, ["p2"]], clang_format_options=["-style=X"],
    )
    keys = list(opts)
    # pairwise-ish: each option alone and all together
    combos = [{k: v[0] for k, v in opts.items()}, {k: v[-1] for k, v in opts.items()}]
    for k in keys:
        for b in (0, -1):
            d = {kk: vv[b] for kk, vv in opts.items()}
            for alt in opts[k]:
                combos.append({**d, k: alt})
    seen = []
    for d in combos:
        if d in seen:
            continue
        seen.append(d)
        for infra, sub, deco in (("BHaH", ".", ""), ("BHaH", "a/b", "__host__"), ("ETLegacy", "a", "")):
            def fn(I, d=d, infra=infra, sub=sub, deco=deco):
                call(I, f"{PAR}:set_parval_from_str", "Infrastructure", infra)
                call(I, q, name="nm", subdirectory=sub, cfunc_decorators=deco, **d)
                (k, o), = list(reg(I, CF, "CFunction_dict").items())
                return k, attrs(o)

            def test(v, d=d, infra=infra, sub=sub, deco=deco):
                k, a = v
                want = dict(d)
                want["name"] = "nm" + (f"__rfm__{d['CoordSystem_for_wrapper_func']}" if d["CoordSystem_for_wrapper_func"] else "")
                if k != want["name"]:
                    return f"stored under {k}"
                m = expect(a, want)
                if m:
                    return m
                if a["cfunc_decorators"].strip() != deco:
                    return f"decorators {a['cfunc_decorators']!r} instead of {deco!r}"
                import os.path
                depth = [x for x in os.path.normpath(os.path.join(sub, d["CoordSystem_for_wrapper_func"])).split("/") if x and x != "."]
                if os.path.normpath(a["subdirectory"]) != os.path.normpath(os.path.join(sub, d["CoordSystem_for_wrapper_func"])):
                    return f"subdirectory {a['subdirectory']}"
                return text(a, want, deco, len(depth), infra)

            c.accepts("options", f"{CF}:CFunction", f"a function with options { {k: v for k, v in d.items() if v not in ('', None, False)} } ({infra}, subdirectory {sub})", fn, test)


def text(a, d, deco, depth, infra):
    up = "../" * depth if infra == "BHaH" else ""
    full, proto = a["full_function"], a["function_prototype"]
    norm = lambda s: re.sub(r"\s+", " ", s).strip()
    head = norm(f"{deco} {d['cfunc_type']} {d['name']}({d['params']})")
    if norm(proto) != head + ";":
        return f"prototype {proto!r} does not declare {head!r}"
    want = []
    for i in d["includes"] or []:
        want.append(f"#include {i}" if "<" in i else f'#include "{up if i == "BHaH_defines.h" else ""}{i}"')
    if d["prefunc"]:
        want.append(d["prefunc"])
    want.append(head + " {")
    if d["include_CodeParameters_h"]:
        want.append(f'#include "{up}set_CodeParameters{"-simd" if d["enable_simd"] or "simd_width" in d["body"] else ""}.h"')
    want.append(d["body"])
    if d["postfunc"]:
        want.append(d["postfunc"])
    t, pos = norm(full), 0
    for wnt in want:
        p = t.find(norm(wnt), pos)
        if p < 0:
            return f"{wnt!r} is missing from the generated text or out of order"
        pos = p + len(norm(wnt))
    n = len(re.findall(r"#\s*include", full))
    if n != sum(x.startswith("#include") for x in want):
        return f"the generated text has {n} includes instead of {[x for x in want if x.startswith('#include')]}"
    if len(re.findall(re.escape(d["name"]) + r"\(", re.sub(r"/\*.*?\*/", "", full, flags=re.S))) != 1:
        return "the generated text does not define the function exactly once"
    for l in d["desc"].split("\n"):
        if l not in full:
            return f"description line {l!r} is missing"
    return None


# ------------------------------------------------------------------ struct members, defines
def structs(c):
    call = closed.call
    q = f"{GC}:register_griddata_commondata"
    w = q

    def hist(*regs):
        def fn(I):
            for a, k in regs:
                call(I, q, *a, **k)
            ex = reg(I, PAR, "glb_extras_dict")
            return {s: {m: [attrs(o) for o in l] for m, l in ex.get(s, {}).items()} for s in ("griddata_struct", "commondata_struct")}
        return fn

    for cd in (False, True):
        k = {"is_commondata": cd}
        c.raises("duplicate", w, f"the same {'commondata' if cd else 'griddata'} declaration twice", hist((("m", "int a"), k), (("m", "int a"), k)))
        c.raises("duplicate", w, f"the same {'commondata' if cd else 'griddata'} declaration twice, with other members between and another description", hist((("m", "int a"), k), (("m", "int b"), k), (("n", "int c"), k), (("m", "int a", "other"), k)))
        c.raises("duplicate", w, f"the same {'commondata' if cd else 'griddata'} declaration as the last of several", hist((("m", "int a"), k), (("m", "int b"), k), (("m", "int b"), k)))
        for i in (0, 1):
            pre = [(("m", "int a"), k)] * i
            c.raises("validation", w, f"a {'commondata' if cd else 'griddata'} declaration with a semicolon", hist(*pre, (("m", "int b; int c"), k)))
            c.raises("validation", w, f"a {'commondata' if cd else 'griddata'} declaration ending in a semicolon", hist(*pre, (("m", "int b;"), k)))

    ok = hist((("m", "int a", "da"), {}), (("m", "int b"), {}), (("n", "int c", "dc"), {}), (("m", "int a"), {"is_commondata": True}), (("m", "int d", "dd"), {"is_commondata": True}))

    def test(v):
        want = {
            "griddata_struct": {"m": [("int a", "da"), ("int b", "")], "n": [("int c", "dc")]},
            "commondata_struct": {"m": [("int a", ""), ("int d", "dd")]},
        }
        got = {s: {m: [(o["c_declaration"], o["description"]) for o in l] for m, l in d.items()} for s, d in v.items()}
        if got != want:
            return f"members recorded as {got}"

    c.accepts("options", w, "members of several modules in both structures", ok, test)

    def defs(I):
        for m, t in (("m", "A\n"), ("n", "B\n"), ("m", "C\n"), ("m", "A\n")):
            call(I, f"{BD}:register_BHaH_defines", m, t)
        return {k: plain(v) for k, v in reg(I, PAR, "glb_extras_dict")["BHaH_defines"].items()}

    c.accepts("options", f"{BD}:register_BHaH_defines", "definitions registered several times", defs, lambda v: None if v == {"m": "A\nC\nA\n", "n": "B\n"} else f"recorded as {v}")


# ------------------------------------------------------------------ settings
def settings(c):
    call = closed.call
    rp, gv, sv = (f"{PAR}:{n}" for n in ("register_param", "parval_from_str", "set_parval_from_str"))
    c.raises("unknown", gv, "reading a setting that was never registered", lambda I: call(I, gv, "no_such"))
    c.raises("unknown", gv, "reading a setting whose module prefix is registered but whose name is not", lambda I: call(I, gv, "nrpy.params::no_such"))
    c.raises("unknown", sv, "setting a setting that was never registered", lambda I: call(I, sv, "no_such", 1))
    c.raises("unknown", sv, "setting, after another setting was registered, a name that was not", lambda I: (call(I, rp, ty("int"), "m", "n1", 1), call(I, sv, "n2", 1)))

    def names(I):
        before = set(reg(I, PAR, "glb_params_dict"))
        from sa.absint import PyRaise
        for f in (lambda: call(I, sv, "no_such", 1), lambda: call(I, gv, "no_such"), lambda: call(I, rp, ty("list"), "m", "bad", [1])):
            try:
                f()
            except PyRaise:
                pass
        return set(reg(I, PAR, "glb_params_dict")) - before

    c.accepts("unknown", sv, "the settings after refused operations", names, lambda v: f"an entry was invented: {v}" if v else None)
    for t in ("list", "dict", "tuple", "complex"):
        c.raises("validation", rp, f"a setting of type {t}", lambda I, t=t: call(I, rp, ty(t), "m", "n", 1))
    for t, v, nv in ((bool, True, False), (int, 3, 0), (float, 1.5, 0.0), (str, "x", "")):
        def fn(I, t=t, v=v, nv=nv):
            call(I, rp, ty(t.__name__), "mod", "n1", v, "desc")
            call(I, rp, ty("str"), "mod", "n0", "other")
            a = attrs(reg(I, PAR, "glb_params_dict")["n1"])
            r = [call(I, gv, "n1"), call(I, gv, "mod::n1"), call(I, gv, "x::y::n1")]
            call(I, sv, "n1", nv)
            r += [call(I, gv, "n1"), call(I, gv, "mod::n1"), call(I, gv, "n0")]
            return a, r

        def test(x, t=t, v=v, nv=nv):
            a, r = x
            m = expect(a, {"module": "mod", "name": "n1", "value": v, "description": "desc"})
            if m:
                return m
            if a.get("py_type") != ty(t.__name__) and getattr(a.get("py_type"), "name", None) != "builtins." + t.__name__:
                return f"py_type is {a.get('py_type')}"
            if r != [v, v, v, nv, nv, "other"]:
                return f"reads give {r} instead of {[v, v, v, nv, nv, 'other']}"

        c.accepts("options", gv, f"a {t.__name__} setting read, set and read again", fn, test)


# ------------------------------------------------------------------ code parameters
def codeparams(c):
    call = closed.call
    one, many, adj = (f"{PAR}:{n}" for n in ("register_CodeParameter", "register_CodeParameters", "adjust_CodeParam_default"))

    def single(t, **k):
        def fn(I):
            s = call(I, one, t, "mod", "nm", **k)
            d = reg(I, PAR, "glb_code_params_dict")
            return s, attrs(d["nm"]) if "nm" in d else None
        return fn

    def plural(t, names=("nm",), **k):
        def fn(I):
            if "defaultvalue" in k or "description" in k:
                pass
            s = call(I, many, t, "mod", list(names), **k)
            d = reg(I, PAR, "glb_code_params_dict")
            return s, [attrs(d[n]) if n in d else None for n in names]
        return fn

    def both_raise(what, t, **k):
        c.raises("validation", one, what, single(t, **{"defaultvalue": 1, **k}))
        k2 = {"defaultvalues" if kk == "defaultvalue" else kk: v for kk, v in {"defaultvalue": 1, **k}.items()}
        c.raises("validation", many, what, plural(t, **k2))

    for t in ("REAL[3]", "int[5]", "REAL[NUM]", "int [2]"):
        both_raise(f"a {t} parameter outside commondata", t, add_to_set_CodeParameters_h=False)
        both_raise(f"a {t} parameter exported as a local variable", t, commondata=True)
        both_raise(f"a {t} parameter outside commondata and exported", t)
        c.accepts("validation", one, f"a {t} commondata parameter", single(t, defaultvalue=1, commondata=True, add_to_set_CodeParameters_h=False))
    for t in ("char[10]", "REAL", "int", "bool", "char"):
        c.accepts("validation", one, f"a {t} parameter", single(t, defaultvalue=1))
    for a in ("", "real", "Positive", "Integer", "RealPositiv", None):
        both_raise(f"assumption {a!r}", "REAL", assumption=a)
    c.raises("validation", one, "a parameter-file entry without default", single("REAL"))
    c.raises("validation", many, "a parameter-file entry without default", plural("REAL"))
    c.accepts("validation", one, "a parameter without default kept out of the parameter file", single("REAL", add_to_parfile=False))
    c.raises("validation", one, "a list of names in the singular form", lambda I: call(I, one, "REAL", "m", ["a", "b"], 1))
    for bad in ("a", [], None, ("a",)):
        c.raises("validation", many, f"names={bad!r}", lambda I, bad=bad: call(I, many, "REAL", "m", bad, 1))
    for dv in ([1], [1, 2, 3], []):
        c.raises("validation", many, f"{len(dv)} defaults for two names", plural("REAL", ("a", "b"), defaultvalues=dv))
        c.raises("validation", many, f"{len(dv)} descriptions for two names", plural("REAL", ("a", "b"), defaultvalues=1, descriptions=[str(x) for x in dv]))
    c.raises("validation", many, "one description for several names", plural("REAL", ("a", "b"), defaultvalues=1, descriptions="x"))
    c.raises("validation", many, "a description of the wrong type", plural("REAL", ("a", "b"), defaultvalues=1, descriptions=5))
    c.raises("unknown", adj, "adjusting the default of an unknown parameter", lambda I: call(I, adj, "no_such", 1))
    c.raises("unknown", adj, "adjusting the default of a parameter kept out of the registry", lambda I: (call(I, one, "REAL", "m", "n", 1, add_to_glb_code_params_dict=False), call(I, adj, "n", 2)))

    def adjusted(I):
        call(I, one, "REAL", "m", "n", 1)
        call(I, one, "REAL", "m", "k", 1)
        call(I, adj, "n", 2)
        d = reg(I, PAR, "glb_code_params_dict")
        return d["n"].attrs["defaultvalue"], d["k"].attrs["defaultvalue"]

    c.accepts("options", adj, "an adjusted default", adjusted, lambda v: None if v == (2, 1) else f"defaults are {v}")

    # options are kept; singular and plural agree
    for t, asm, cd, pf, sh, gl in itertools.product(("REAL", "int", "char[8]", "bool", "#define"), ("Real", "RealPositive"), (False, True), (False, True), (False, True), (False, True)):
        k = dict(assumption=asm, commondata=cd, add_to_parfile=pf, add_to_set_CodeParameters_h=sh, add_to_glb_code_params_dict=gl)
        isdef = t == "#define"
        want = dict(cparam_type=t, module="mod", assumption=asm, commondata=cd, add_to_parfile=pf and not isdef, add_to_set_CodeParameters_h=sh and not isdef)

        def sym_ok(s, n, asm=asm):
            if str(s) != n or s.is_real is not True or bool(s.is_positive) != (asm == "RealPositive"):
                return f"symbol {s} (real={s.is_real}, positive={s.is_positive})"

        def t1(v, want=want, gl=gl, sym_ok=sym_ok):
            s, a = v
            if (a is not None) != gl:
                return f"registered={a is not None} with add_to_glb_code_params_dict={gl}"
            return sym_ok(s, "nm") or (a and expect(a, {**want, "name": "nm", "defaultvalue": 7, "description": "dd"}))

        def t2(v, want=want, gl=gl, sym_ok=sym_ok):
            ss, aa = v
            for i, n in enumerate(("x", "y", "z")):
                if (aa[i] is not None) != gl:
                    return f"registered={aa[i] is not None} with add_to_glb_code_params_dict={gl}"
                m = sym_ok(ss[i], n) or (aa[i] and expect(aa[i], {**want, "name": n, "defaultvalue": i, "description": f"d{i}"}))
                if m:
                    return m
            if len(ss) != 3:
                return f"{len(ss)} symbols for 3 names"

        lab = f"{t} {k}"
        c.accepts("options", one, lab, single(t, defaultvalue=7, description="dd", **k), t1)
        c.accepts("options", many, lab, plural(t, ("x", "y", "z"), defaultvalues=[0, 1, 2], descriptions=["d0", "d1", "d2"], **k), t2)

        def t3(v):
            ss, aa = v
            for a in aa:
                if a is not None and (a["defaultvalue"] != 5 or a["description"] != ""):
                    return f"shared default/description recorded as {a['defaultvalue']!r}, {a['description']!r}"
        c.accepts("options", many, lab + " shared default", plural(t, ("x", "y"), defaultvalues=5, **k), t3)


# ------------------------------------------------------------------ gridfunctions
GROUPS = {"BHaH": {"EVOL", "AUX", "AUXEVOL"}, "ETLegacy": {"EVOL", "AUX", "AUXEVOL"}, "CarpetX": {"EVOL", "AUX", "AUXEVOL", "EXTERNAL", "CORE", "TILE_TMP", "SCALAR_TMP"}}
KEEP = ("name", "group", "rank", "dimension", "gf_type", "f_infinity", "wavespeed", "is_basename")


def gridfunctions(c):
    call = closed.call
    q = f"{GRI}:register_gridfunctions"

    def hist(infra, *regs, fnname="register_gridfunctions"):
        def fn(I):
            I.module(GRI)
            call(I, f"{PAR}:set_parval_from_str", "Infrastructure", infra)
            r = None
            for a, k in regs:
                r = call(I, f"{GRI}:{k.pop('_fn', fnname) if '_fn' in (k := dict(k)) else fnname}", *a, **k)
            return r, {n: attrs(o) for n, o in reg(I, GRI, "glb_gridfcs_dict").items()}
        return fn

    allg = set().union(*GROUPS.values()) | {"", "evol", "EVOLVED", "AUXX", None}
    for infra, ok in GROUPS.items():
        for g in sorted(map(str, allg)):
            h = hist(infra, (("f",), {"group": g}))
            if g in ok:
                c.accepts("validation", q, f"{infra} gridfunction in group {g}", h, lambda v, g=g: expect(list(v[1].values())[0], {"group": g}))
            else:
                c.raises("validation", q, f"{infra} gridfunction in group {g!r}", h)
            for rk in (1, 2):
                h = hist(infra, (("fD" * rk,), {"group": g}), fnname=f"register_gridfunctions_for_single_rank{rk}")
                if g not in ok:
                    c.raises("validation", f"{GRI}:register_gridfunctions_for_single_rank{rk}", f"{infra} gridfunction in group {g!r}", h)
        for bad in ("", "f1", "f0", "x9"):
            c.raises("validation", q, f"{infra} base name {bad!r}", hist(infra, ((bad,), {})))
            c.raises("validation", q, f"{infra} base name {bad!r} in a list", hist(infra, ((["a", bad],), {})))
        c.accepts("validation", q, f"{infra} component name ending in a digit", hist(infra, (("f1",), {"is_basename": False})))
        c.raises("validation", q, f"{infra}: an unknown option", hist(infra, (("f",), {"no_such_option": 1})))
    for infra in ("", "BHAH", "Cactus", "none"):
        c.raises("validation", q, f"infrastructure {infra!r}", hist(infra, (("f",), {})))
    for cen in ("CCV", "VVV", "VCV", "CCC"):
        c.accepts("options", q, f"CarpetX centering {cen}", hist("CarpetX", (("f",), {"centering": cen})), lambda v, cen=cen: expect(v[1]["f"], {"centering": cen}))
    for cen in ("", "CC", "CCCC", "XXX", "CCX", "cvv", "V"):
        c.raises("validation", q, f"CarpetX centering {cen!r}", hist("CarpetX", (("f",), {"centering": cen})))

    # options pass through, lists are per name
    for infra in GROUPS:
        base = {"group": "AUX", "rank": 0, "f_infinity": 2.5, "wavespeed": 3.5, "is_basename": False, "dimension": 3}
        ext = {"BHaH": {"gf_array_name": "ARR", "sync_gf_in_superB": False}, "ETLegacy": {}, "CarpetX": {"centering": "VVV", "thorn": "TH"}}[infra]
        k = {**base, **ext}
        typ = "REAL" if infra == "BHaH" else "CCTK_REAL"

        def t(v, k=k, typ=typ):
            syms, d = v
            if list(d) != ["f", "g", "h"] or [str(s) for s in syms] != ["f", "g", "h"] or any(s.is_real is not True for s in syms):
                return f"registered {list(d)}, returned {syms}"
            for n in d:
                m = expect(d[n], {**k, "name": n, "gf_type": typ})
                if m:
                    return f"{n}: {m}"

        c.accepts("options", q, f"{infra} options of a list registration", hist(infra, ((["f", "g", "h"],), k)), t)
        # one by one
        c.accepts("options", q, f"{infra} options of single registrations", hist(infra, (("f",), k), (("g",), k), (("h",), k)), lambda v, t=t: t((sp_syms(v[1]), v[1])))
        for lists in (("f_infinity",), ("wavespeed",), ("f_infinity", "wavespeed")):
            kk = {**k, **{n: [(i + 1) * (10.0 if n == "wavespeed" else 1.0) for i in range(3)] for n in lists}}

            def tl(v, kk=kk, lists=lists):
                for i, n in enumerate(("f", "g", "h")):
                    m = expect(v[1][n], {x: (kk[x][i] if x in lists else kk[x]) for x in ("f_infinity", "wavespeed")})
                    if m:
                        return f"{n}: {m}"
            c.accepts("options", q, f"{infra} per-name lists {lists}", hist(infra, ((["f", "g", "h"],), kk)), tl)
        # per-name lists stay aligned when a name is already registered
        kk = {**k, "f_infinity": [1.0, 2.0, 3.0]}
        c.accepts("options", q, f"{infra} per-name list after one of the names was registered before", hist(infra, (("f",), k), ((["f", "g", "h"],), kk)),
                  lambda v: None if [v[1][n]["f_infinity"] for n in "fgh"] == [2.5, 2.0, 3.0] else f"f_infinity {[v[1][n]['f_infinity'] for n in 'fgh']}")
        # duplicates keep the first
        c.accepts("duplicate", q, f"{infra} a gridfunction registered twice", hist(infra, (("f",), k), (("f",), {**k, "group": "EVOL"})), lambda v: expect(v[1]["f"], {"group": "AUX"}))
        # rank wrappers
        for rk, sym, dim in [(1, None, 3), (1, None, 4), (2, None, 3), (2, "sym01", 3), (2, "nosym", 3), (2, "sym01", 4), (2, "nosym", 2)]:
            comps = ["fD%d" % i for i in range(dim)] if rk == 1 else []
            if rk == 2:
                for i in range(dim):
                    for j in range(dim):
                        n = "fDD%d%d" % ((min(i, j), max(i, j)) if sym == "sym01" else (i, j))
                        if n not in comps:
                            comps.append(n)
            kr = {kk_: vv for kk_, vv in k.items() if kk_ not in ("rank", "is_basename")}
            kr["dimension"] = dim
            if sym:
                kr["symmetry"] = sym
            kr.update({"f_infinity": [float(i) for i in range(len(comps))]})

            def tr(v, comps=comps, kr=kr, rk=rk, typ=typ, sym=sym, dim=dim):
                r, d = v
                if list(d) != comps:
                    return f"registers {list(d)} instead of {comps}"
                for i, n in enumerate(comps):
                    w = {x: y for x, y in kr.items() if x not in ("symmetry",)}
                    m = expect(d[n], {**w, "f_infinity": float(i), "rank": rk, "is_basename": False, "name": n, "gf_type": typ})
                    if m:
                        return f"{n}: {m}"
                flat = [str(x) for x in r] if rk == 1 else [str(y) for x in r for y in x]
                full = comps if rk == 1 else ["fDD%d%d" % ((min(i, j), max(i, j)) if sym == "sym01" else (i, j)) for i in range(dim) for j in range(dim)]
                if flat != full:
                    return f"returns {flat}"

            nm = "fD" * 1 if rk == 1 else "fDD"
            args = {kk_: vv for kk_, vv in kr.items()}
            if rk == 1:
                args.pop("symmetry", None)
            wn = f"register_gridfunctions_for_single_rank{rk}"
            c.accepts("options", f"{GRI}:{wn}", f"{infra} rank-{rk} {sym or ''} dimension {dim}", hist(infra, ((nm,), args), fnname=wn), tr)
            wn = "register_gridfunctions_for_single_rankN"
            c.accepts("options", f"{GRI}:{wn}", f"{infra} rank-{rk} {sym or ''} dimension {dim}", hist(infra, ((nm,), {**args, "rank": rk}), fnname=wn), tr)
        for rk in (0, 5, -1):
            c.raises("validation", f"{GRI}:register_gridfunctions_for_single_rankN", f"rank {rk}", hist(infra, (("f",), {"rank": rk}), fnname="register_gridfunctions_for_single_rankN"))
    # rank 3 and 4
    for rk in (3, 4):
        comps = ["f" + "D" * rk + "".join(map(str, ix)) for ix in itertools.product(range(3), repeat=rk)]
        c.accepts("options", f"{GRI}:register_gridfunctions_for_single_rankN", f"rank {rk}", hist("BHaH", (("f" + "D" * rk,), {"rank": rk, "group": "AUX"}), fnname="register_gridfunctions_for_single_rankN"),
                  lambda v, comps=comps, rk=rk: None if list(v[1]) == comps and all(a["rank"] == rk and a["group"] == "AUX" for a in v[1].values()) else "components or options differ from individual registration")
    # defaults
    for g, arr, sync in (("EVOL", "in_gfs", True), ("AUXEVOL", "auxevol_gfs", None), ("AUX", "aux_gfs", None)):
        c.accepts("options", q, f"BHaH defaults of group {g}", hist("BHaH", (("f",), {"group": g})), lambda v, arr=arr, sync=sync: expect(v[1]["f"], {"gf_array_name": arr, "sync_gf_in_superB": sync, "rank": 0, "dimension": 3, "f_infinity": 0.0, "wavespeed": 1.0}))
        for s in (True, False):
            c.accepts("options", q, f"BHaH sync option of group {g}", hist("BHaH", (("f",), {"group": g, "sync_gf_in_superB": s})), lambda v, s=s: expect(v[1]["f"], {"sync_gf_in_superB": s}))


def sp_syms(d):
    import sympy as sp

    return [sp.Symbol(n, real=True) for n in d]


def defines(c):
    """numbering emitted by gridfunction_defines"""
    call = closed.call
    q = f"{GRI}:register_gridfunctions"
    w = f"{GRI}:BHaHGridFunction.gridfunction_defines"
    hists = [
        [],
        [("EVOL", ["a"])],
        [("AUX", ["b"])],
        [("AUXEVOL", ["B", "a"]), ("AUX", ["q"])],
        [("EVOL", ["zz", "A", "m"]), ("AUX", ["y", "B"]), ("EVOL", ["c", "BD0_"]), ("AUXEVOL", ["k", "W", "j"])],
        [("AUXEVOL", ["e", "d"]), ("EVOL", ["hh", "Ab"]), ("AUX", ["n"]), ("EVOL", ["aa", "Ac"])],
    ]
    for h in hists:
        def fn(I, h=h):
            I.module(GRI)
            i = 0
            for g, ns in h:
                for n in ns:
                    i += 1
                    call(I, q, n, group=g, f_infinity=float(i), wavespeed=float(100 + i))
            cls = reg(I, GRI, "BHaHGridFunction")
            f = I.getattr(cls, "gridfunction_defines", None) if hasattr(I, "getattr") else None
            return plain(I.call(f, [], {}, None)), {n: attrs(o) for n, o in reg(I, GRI, "glb_gridfcs_dict").items()}

        def test(v):
            t, d = v
            t = re.sub(r"//[^\n]*", "", t)
            defs = re.findall(r"^\s*#\s*define\s+(\w+)\s+(\d+)\s*$", t, re.M)
            dd = dict(defs)
            if len(dd) != len(defs):
                return "a macro is defined twice"
            per = {}
            for n, a in d.items():
                k = n.upper() + "GF"
                if k not in dd:
                    return f"gridfunction {n} has no index macro"
                per.setdefault(a["group"], {})[int(dd[k])] = n
            for g in ("EVOL", "AUX", "AUXEVOL"):
                p = per.get(g, {})
                nn = sum(a["group"] == g for a in d.values())
                if sorted(p) != list(range(nn)):
                    return f"indices of group {g} are {sorted(p)} for {nn} gridfunctions"
                if dd.get(f"NUM_{g}_GFS") != str(nn):
                    return f"NUM_{g}_GFS = {dd.get(f'NUM_{g}_GFS')} for {nn} gridfunctions"
            if len(dd) != len(d) + 3:
                return "extra macros"
            for nm, at in (("gridfunctions_f_infinity", "f_infinity"), ("gridfunctions_wavespeed", "wavespeed")):
                m = re.search(nm + r"\s*\[([^\]]*)\]\s*=\s*\{([^}]*)\}", t)
                ev = per.get("EVOL", {})
                if not ev:
                    continue
                if not m:
                    return f"table {nm} is missing"
                vals = [float(x) for x in m.group(2).split(",") if x.strip()]
                if m.group(1).strip() not in ("NUM_EVOL_GFS", str(len(ev))):
                    return f"table {nm} has size {m.group(1)}"
                want = [d[ev[i]][at] for i in range(len(ev))]
                if vals != want:
                    return f"{nm} = {vals}, but the gridfunctions in index order have {want}"

        c.accepts("numbering", w, f"history {h}", fn, test)


def run_all(ctx):
    c = Chk(ctx)
    for part in (cfunctions, structs, settings, codeparams, gridfunctions, defines):
        ctx.attempt(part.__name__, lambda part=part: part(c))


def run(ctx):
    ctx.rule("duplicate", "a second C function of the same (suffixed) name, or the same declaration in the same structure and module, is refused; a repeated gridfunction leaves the first unchanged")
    ctx.rule("unknown", "reading or setting an unregistered setting, or adjusting an unregistered parameter, raises and adds no entry")
    ctx.rule("validation", "values and options outside the documented set raise")
    ctx.rule("options", "every option given is the option stored; list and rank forms store what one-by-one registration with the same options stores; the text of a C function is made of the parts it was given")
    ctx.rule("numbering", "gridfunction indices of each group are 0..n-1, the counts are n, and the per-gridfunction tables follow the index order")
    run_all(ctx)
    ctx.floor("duplicate", 15)
    ctx.floor("validation", 60)
    ctx.floor("options", 150)
    ctx.floor("unknown", 6)
    ctx.floor("numbering", 5)
