"""
Extraction of all C-function templates registered by the generators: for each generator
function every trace of the abstract interpreter, with the rendered pieces of each
registration.  Parallelised over generator functions.
"""

import ast
import multiprocessing as mp
import os
import re
from typing import Dict, List

from . import ctext
from .absint import (
    BUILTIN_REPO_MODELS, AnalysisError, Budget, Cls, Exc, Func, Interp, Program, PyRaise, Reg, Sym, Tmpl, is_concrete, sym_params, vkey, _bindargs,
)

_PROG = None


def prog() -> Program:
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG


def infra_of(mod: str) -> str:
    p = mod.split(".")
    if len(p) > 2 and p[1] == "infrastructures":
        return p[2]
    if p[1] == "examples":
        return "ex:" + mod
    return "core"


REGNAMES = {"register_CFunction"}
EFFECT_CALLS = {"register_CFunction", "register_griddata_commondata", "register_BHaH_defines", "register_global_define"}


def calls_in(fn) -> set:
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            f = n.func
            out.add(f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else ""))
    return out


def entries(prefix="nrpy.infrastructures", calls=EFFECT_CALLS) -> List[str]:
    """All module-level generator functions reaching a registration call directly or through a
    same-module helper that is not itself a public generator."""
    P = prog()
    out = []
    for m in sorted(P.paths):
        if not m.startswith(prefix):
            continue
        fns = dict(P.functions(m))
        direct = {q for q, f in fns.items() if calls_in(f) & calls}
        reach = set(direct)
        # helpers: a function calling a reaching non-entry helper is itself an entry
        changed = True
        while changed:
            changed = False
            for q, f in fns.items():
                if q in reach:
                    continue
                cs = calls_in(f)
                if any(h in cs for h in reach if "." not in h):
                    reach.add(q)
                    changed = True
        for q in fns:
            if q in reach and "." not in q:
                out.append(f"{m}:{q}")
    return out


class Reg1:
    """One registered C function template."""

    __slots__ = ("mod", "entry", "infra", "name", "params", "body", "prefunc", "cfunc_type", "includes", "decorators", "cond", "holes", "kw", "fn", "line", "bodyv", "etbins", "extra")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def where(self):
        return f"{self.mod.replace('nrpy.infrastructures.', '')}:{self.entry} -> {self.name}"


def _nested_model(all_entries):
    """Calls from one generator to another generator: bind arguments (arity check) but do not enter."""

    def make(qual):
        def m(I, f, a, k, n):
            if not I.callstack or I.depth == 0:
                return NotImplemented
            # argument binding errors surface as TypeError
            b = _bindargs(I, f, a, k)
            args = f.node.args
            names = [p.arg for p in args.posonlyargs + args.args + args.kwonlyargs]
            bad = [x for x in b if x not in names] if not args.kwarg else []
            missing = [x for x in names if x not in b and x != "self"]
            if len(a) > len(args.posonlyargs + args.args) and not args.vararg:
                bad.append("too many positional arguments")
            if (bad or missing) and "**" not in k:
                raise PyRaise(Exc("TypeError", (f"!call of {f.qual}: unexpected {bad} missing {missing}",)), n)
            I.effect("nested_register", n, qual=f.qual, args=b)
            return None

        return m

    return {q.replace(":", "."): make(q) for q in all_entries}


def _code_nonempty(I: Interp):
    """Opaque generated code is never the empty string."""
    orig_eq, orig_truth = I.decide_eq, I.truth

    def decide_eq(sym, const):
        if const == "" and isinstance(const, str) and ctext.is_code_hole(sym):
            return False
        if "[*]" in sym.key and isinstance(const, (int, float)) and not isinstance(const, bool) and const == 0:
            return False
        return orig_eq(sym, const)

    def truth(v):
        v = I.resolve(v)
        if isinstance(v, Sym) and ctext.is_code_hole(v):
            return True
        if isinstance(v, Tmpl) and any(isinstance(p, Sym) and ctext.is_code_hole(p) for p in v.parts):
            return True
        return orig_truth(v)

    I.decide_eq = decide_eq
    I.truth = truth


PATTERNS = [
    (re.compile(r"^bool\(pcg_registration_phase\(\)\)$"), False),
    (re.compile(r"^'[A-Za-z_0-9]+' in nrpy\.params\.glb_code_params_dict$"), True),
    (re.compile(r"^bool\(validate_expressions\)$"), False),
    (re.compile(r".*\bsys\.stdout\b.*"), False),
    (re.compile(r"^bool\(return_validation_dict\)$"), False),
]


def make_interp(max_paths=160, all_entries=(), patterns=PATTERNS, **kw):
    models = dict(_nested_model(all_entries))
    models.update(kw.pop("models", {}))
    I = Interp(prog(), max_paths=max_paths, models=models, **kw)
    _code_nonempty(I)
    I.patterns = list(patterns)
    return I


def rend(v):
    return ctext.Rendered(v)


def run_entry(args):
    qual, max_paths, all_entries, extra_patterns = args
    pats = list(PATTERNS) + [(re.compile(p), b) for p, b in extra_patterns]
    I = make_interp(max_paths, [e for e in all_entries if e != qual and e.split(":")[1].startswith("register_CFunction")], pats)

    def entry(I):
        f = I.func(qual)
        if not isinstance(f, Func):
            raise AnalysisError(qual)
        return I.call_func(f, [], sym_params(f), None)

    trs = I.run(entry)
    regs = []
    others = []
    seen = set()
    outcomes = []
    mod, fn = qual.split(":")
    for tr in trs:
        outcomes.append((tr.outcome[0], (tr.outcome[1].name, [vkey(x) for x in tr.outcome[1].args]) if tr.outcome[0] == "raise" else None, tr.cond()))
        for e in tr.effects:
            if e["kind"] == "register_CFunction":
                a = e["args"]
                full = [a.get("prefunc", ""), a.get("params", ""), a.get("body", "")]
                R = [ctext.Rendered(x) for x in full]
                nm = ctext.Rendered(a.get("name", ""))
                inc = a.get("includes")
                key = (nm.text, R[0].text, R[1].text, R[2].text, vkey(inc), vkey(a.get("ET_schedule_bins_entries")), vkey(a.get("decorators", "")), vkey(a.get("cfunc_type", "")))
                if key in seen:
                    continue
                seen.add(key)
                simple = {}
                for kk, vv in a.items():
                    if kk in ("prefunc", "params", "body"):
                        continue
                    simple[kk] = vv if is_concrete(vv) else vkey(vv)
                et, etx = [], []
                ets = a.get("ET_schedule_bins_entries")
                if isinstance(ets, list):
                    for x in ets:
                        if isinstance(x, tuple) and len(x) == 2:
                            et.append((ctext.Rendered(x[0]).text, ctext.Rendered(x[1]).text))
                            etx.append((ctext.braced(x[0]), ctext.braced(x[1])))
                        else:
                            et.append(("?", vkey(x)))
                regs.append(
                    Reg1(
                        mod=mod, entry=fn, infra=infra_of(mod), name=nm.text if nm.text else "?", params=R[1].text, body=R[2].text,
                        prefunc=R[0].text, cfunc_type=ctext.Rendered(a.get("cfunc_type", "")).text, includes=[ctext.Rendered(x).text for x in inc] if isinstance(inc, list) else None,
                        cond=tr.cond(), kw=simple, fn=e["fn"], line=getattr(e["node"], "lineno", 0),
                        holes=dict(name=[h.key for h in nm.holes], body=[h.key[:300] for h in R[2].holes], prefunc=[h.key[:300] for h in R[0].holes], params=[h.key for h in R[1].holes]),
                        etbins=et,
                        extra=dict(decorators=ctext.Rendered(a.get("decorators", "")).text, given=sorted(e.get("given", ())), name_key=vkey(a.get("name", "")), et=etx, name_b=ctext.braced(a.get("name", ""))),
                    )
                )
            elif e["kind"] in ("register_griddata", "register_defines", "nested_register", "register_CodeParameter", "parval_write", "reg_set", "reg_mut"):
                d = {k: (ctext.Rendered(v).text if isinstance(v, (str, Tmpl)) else (v if is_concrete(v) else vkey(v))) for k, v in (e.get("args") or {}).items()} if isinstance(e.get("args"), dict) else {}
                key = (e["kind"], str(sorted((k, str(v)) for k, v in d.items())), str(e.get("qual")))
                if key in seen or e["kind"] in ("parval_write", "reg_set", "reg_mut"):
                    continue
                seen.add(key)
                others.append(dict(kind=e["kind"], args=d, qual=e.get("qual"), mod=mod, entry=fn, cond=tr.cond(), line=getattr(e["node"], "lineno", 0), fn=e["fn"]))
    return dict(qual=qual, regs=regs, others=others, npaths=len(trs), truncated=I.truncated, outcomes=outcomes)


def _worker(args):
    try:
        return run_entry(args)
    except AnalysisError as e:
        return dict(qual=args[0], error=str(e), regs=[], others=[], npaths=0, truncated=False, outcomes=[])


EXTRA = {
    "nrpy.infrastructures.CarpetX.zero_rhss:register_CFunction_zero_rhss": [(r".*\.group=='EVOL'$", True)],
    "nrpy.infrastructures.ETLegacy.zero_rhss:register_CFunction_zero_rhss": [(r".*\.group=='EVOL'$", True)],
    "nrpy.infrastructures.BHaH.main_c:register_CFunction_main_c": [(r"^'\w+' in nrpy\.c_function\.CFunction_dict$", True)],
}


def _cache_key(*extra):
    import hashlib

    h = hashlib.sha256()
    here = os.path.dirname(os.path.abspath(__file__))
    P = prog()
    fl = [os.path.join(here, f) for f in ("absint.py", "ctext.py", "templates.py")] + [P.paths[m] for m in sorted(P.paths)]
    for f in fl:
        with open(f, "rb") as fh:
            h.update(f.encode() + fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def cached(tag, fn, *extra):
    """Developer convenience: results keyed on the full text of every analysed and analysing file."""
    import pickle

    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache")
    if not os.path.isdir(d):
        return fn()
    p = os.path.join(d, f"{tag}-{_cache_key(*extra)}.pkl")
    if os.path.exists(p):
        with open(p, "rb") as f:
            return pickle.load(f)
    r = fn()
    with open(p, "wb") as f:
        pickle.dump(r, f)
    return r


def collect(max_paths=160, only=None) -> List[Dict]:
    if only is None:
        return cached("col", lambda: _collect(max_paths), max_paths)
    return _collect(max_paths, only)


def _collect(max_paths=160, only=None) -> List[Dict]:
    ents = entries()
    todo = [e for e in ents if only is None or only(e)]
    jobs = [(e, max_paths, ents, EXTRA.get(e, [])) for e in todo]
    prog()
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = list(pool.imap_unordered(_worker, jobs, chunksize=1))
    res.sort(key=lambda r: r["qual"])
    return res


def pmap(fn, items):
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return list(pool.imap(fn, items, chunksize=1))


# --------------------------------------------------------------------------- written files
def file_entries(prefix="nrpy.infrastructures") -> List[str]:
    P = prog()
    out = []
    for m in sorted(P.paths):
        if not m.startswith(prefix):
            continue
        for q, f in P.functions(m):
            if "." in q:
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("write", "write_text", "writelines"):
                    out.append(f"{m}:{q}")
                    break
    return out


class File1:
    __slots__ = ("mod", "entry", "infra", "path", "text", "cond", "holes", "name")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def where(self):
        return f"{self.mod.replace('nrpy.infrastructures.', '')}:{self.entry} -> {self.name}"


def _file_worker(args):
    qual, max_paths, extra = args
    try:
        return run_file_entry(qual, max_paths, extra)
    except AnalysisError as e:
        return dict(qual=qual, error=str(e), files=[], npaths=0, truncated=False)


def run_file_entry(qual, max_paths=64, extra=(), overrides=None, setup=None):
    I = make_interp(max_paths, (), list(PATTERNS) + [(re.compile(p), b) for p, b in extra])
    I.models["nrpy.helpers.conditional_file_updater.ConditionalFileUpdater"] = lambda I, f, a, k, n: Sym(f"open({vkey(a[0] if a else k.get('fname'))})")
    if setup:
        setup(I)
    mod, fn = qual.split(":")

    def entry(I):
        f = I.func(qual)
        return I.call_func(f, [], sym_params(f, overrides), None)

    trs = I.run(entry)
    out = []
    seen = set()
    for tr in trs:
        files = {}
        for e in tr.effects:
            if e["kind"] == "sym_call" and e["name"].endswith((".write", ".write_text")):
                pth = e["name"].rsplit(".", 1)[0]
                files.setdefault(pth, []).append(e["args"][0] if e["args"] else "")
        for pth, parts in files.items():
            R = ctext.Rendered(Tmpl(parts) if all(isinstance(x, (str, Tmpl, Sym)) for x in parts) else "")
            if (pth, R.text) in seen:
                continue
            seen.add((pth, R.text))
            m = re.findall(r"([\w.]*\.(?:h|c|cpp|ci|ccl|txt|defn|par)|Makefile|CMakeLists.txt)\b", pth)
            out.append(File1(mod=mod, entry=fn, infra=infra_of(mod), path=pth, text=R.text, cond=tr.cond(), holes=[h.key[:200] for h in R.holes], name=m[-1] if m else pth[-60:]))
    return dict(qual=qual, files=out, npaths=len(trs), truncated=I.truncated, outcomes=[(t.outcome[0], str(t.outcome[1])[:200] if t.outcome[0] == "raise" else None, t.cond()) for t in trs])


def collect_files(max_paths=64):
    return cached("files", lambda: _collect_files(max_paths), max_paths)


def _collect_files(max_paths=64):
    jobs = [(e, max_paths, []) for e in file_entries()]
    prog()
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = list(pool.imap_unordered(_file_worker, jobs, chunksize=1))
    res.sort(key=lambda r: r["qual"])
    return res
