"""
Closed-world interpreter: registries are ordinary containers, SymPy constructors are exact-domain
transfer functions (host library as the symbolic value domain).  Used where a property is about
what the generators do with a given, analyst-chosen family of inputs (one per equivalence class).
Nothing from /repo is imported: the syntax trees are interpreted.
"""

from . import templates
from .absint import Interp, _bindargs


def clang_format(I, f, a, k, n):
    return a[0] if a else k.get("c_code_str")


def make(models=None, max_paths=20, max_steps=3_000_000, host=("sympy",), **kw):
    I = Interp(templates.prog(), max_paths=max_paths, host_modules=host, open_registries=False, max_steps=max_steps, opaque=(), **kw)
    I.models = {
        "nrpy.helpers.generic.clang_format": clang_format,
        # argument type checks against annotations; no effect on accepted calls
        "nrpy.helpers.type_annotation_utilities.validate_literal_arguments": lambda I, f, a, k, n: None,
        "nrpy.helpers.type_annotation_utilities.generate_class_representation": lambda I, f, a, k, n: "",
    }
    I.models.update(models or {})
    return I


def call(I, qual, *a, **k):
    f = I.func(qual)
    return I.call(f, list(a), k, None)


def outcome(I, entry):
    """single deterministic trace"""
    trs = I.run(entry)
    return trs


__all__ = ["make", "call", "outcome", "_bindargs"]


def files(trace):
    """{path key: text} written in a trace"""
    from . import ctext
    from .absint import Sym, Tmpl

    out = {}
    for e in trace.effects:
        if e["kind"] == "sym_call" and e["name"].endswith((".write", ".write_text")):
            out.setdefault(e["name"].rsplit(".", 1)[0], []).append(e["args"][0] if e["args"] else "")
    return {p: ctext.Rendered(Tmpl(parts) if all(isinstance(x, (str, Tmpl, Sym)) for x in parts) else "").text for p, parts in out.items()}


def file_models():
    from .absint import Sym, vkey

    return {"nrpy.helpers.conditional_file_updater.ConditionalFileUpdater": lambda I, f, a, k, n: Sym(f"open({vkey(a[0] if a else k.get('fname'))})")}


def record_models(*names):
    """models that record the registration (as an effect) instead of interpreting the registry code"""
    from .absint import BUILTIN_REPO_MODELS

    names = names or ("nrpy.c_function.register_CFunction", "nrpy.infrastructures.BHaH.griddata_commondata.register_griddata_commondata", "nrpy.infrastructures.BHaH.BHaH_defines_h.register_BHaH_defines")
    return {n: BUILTIN_REPO_MODELS[n] for n in names}
