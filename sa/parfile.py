"""Closed-world histories: register a family of code parameters and collect everything generated from them."""

import re

from . import closed, ctext

CP = "nrpy.infrastructures.BHaH.CodeParameters"
PF = "nrpy.infrastructures.BHaH.cmdline_input_and_parfiles"
BD = "nrpy.infrastructures.BHaH.BHaH_defines_h"
GC = "nrpy.infrastructures.BHaH.griddata_commondata"


class Gen:
    pass


def generate(params, cmdline=(), commondata_only=False, extra_members=(), parts=("defaults", "headers", "defines", "parfile", "parser")):
    """params: list of kwargs for register_CodeParameter"""
    I = closed.make(models={**closed.record_models("nrpy.c_function.register_CFunction"), **closed.file_models()}, max_paths=8)

    def entry(I):
        for m in (CP, PF, BD):
            I.module(m)
        for k in params:
            closed.call(I, "nrpy.params:register_CodeParameter", k["type"], k.get("module", "modA"), k["name"], k.get("default", "unset"), **{x: y for x, y in k.items() if x not in ("type", "module", "name", "default")})
        for a, k in extra_members:
            closed.call(I, f"{GC}:register_griddata_commondata", *a, **k)
        if "defaults" in parts:
            closed.call(I, f"{CP}:register_CFunctions_params_commondata_struct_set_to_default")
        if "headers" in parts:
            closed.call(I, f"{CP}:write_CodeParameters_h_files", "PD", **({"set_commondata_only": True} if commondata_only else {}))
        if "defines" in parts:
            closed.call(I, f"{BD}:output_BHaH_defines_h", "PD")
        if "parfile" in parts:
            closed.call(I, f"{PF}:generate_default_parfile", "PD", "PROJ")
        if "parser" in parts:
            closed.call(I, f"{PF}:register_CFunction_cmdline_input_and_parfile_parser", "PROJ", list(cmdline))
        d = I.module("nrpy.params").scope.vars["glb_code_params_dict"]
        return {n: dict(o.attrs) for n, o in d.items()}

    trs = I.run(entry)
    if len(trs) != 1 or trs[0].outcome[0] != "return":
        from .absint import AnalysisError

        raise AnalysisError("; ".join(f"{t.outcome} {t.cond()[:80]}" for t in trs[:3]))
    g = Gen()
    g.params = trs[0].outcome[1]
    g.files = {}
    for k, v in closed.files(trs[0]).items():
        m = re.search(r"'([^'/]*)'\)?\)*\.open|'([^']*)'\)*$", k)
        g.files[(m.group(1) or m.group(2)) if m else k] = v
    g.funcs = {e["args"]["name"]: {a: (ctext.Rendered(v).text if a in ("prefunc", "body", "params") and v is not None else v) for a, v in e["args"].items()} for e in trs[0].effects if e["kind"] == "register_CFunction"}
    return g


# ---------------------------------------------------------------- the generated parser
PARSER = "cmdline_input_and_parfile_parser"


def capacity(ctype):
    m = re.fullmatch(r"\s*\w+\s*\[\s*(\d+)\s*\]\s*", ctype)
    return int(m.group(1)) if m else 1


class Parser:
    """analysed parser: bounds obligations, descriptor table, member assignments"""

    def __init__(self, g):
        from . import cbuf

        f = g.funcs[PARSER]
        self.members = {n: capacity(a["cparam_type"]) for n, a in g.params.items()}
        self.prog = b = cbuf.BufProgram(f["prefunc"], PARSER, f["params"], f["body"], self.members)
        for n in list(b.funcs):
            b.summary(n)
        self.main = b.runs[PARSER]
        self.rows = []
        self.table = None
        for name, d in b.tables.items():
            if d.init is not None and d.init.k == "init" and all(r.k == "init" for r in d.init._d["items"]):
                self.table = name
                for r in d.init._d["items"]:
                    self.rows.append([x.v if x.k in ("str", "num") else getattr(x, "name", "?") for x in r._d["items"]])
        self.fields = self.struct_fields()

    def struct_fields(self):
        for names, n in self.prog.structs.items():
            if "param_descriptor" in names or any("descriptor" in x for x in names):
                return [m.name for m in n.members] if hasattr(n, "members") else None
        return None

    def run(self, **env):
        from . import cbuf

        c = cbuf.BCE(self.prog, PARSER, env=env)
        for n, t, _d, _p in self.prog.params(PARSER):
            c.types[n] = t
        body = self.prog.funcs[PARSER][1]
        c.top(body if isinstance(body, list) else [body])
        return c

    def assigns(self, ce=None):
        """calls that hand a commondata member to a function: (event, member, offset, pointer argument position)"""
        out = []
        for x in (ce or self.main).events:
            if x.kind != "call":
                continue
            for j, p in enumerate(getattr(x, "ptrs", ())):
                if p is not None and p.base == "commondata" and p.path and p.path[-1][0] == "m" or (p is not None and p.base == "commondata" and len(p.path) > 1):
                    ms = [q[1] for q in p.path if q[0] == "m"]
                    out.append((x, ms[0], p.off, j))
        return out
