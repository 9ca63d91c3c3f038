"""P21: migration of distributed grid elements: the pack/unpack routines, inlined from Timestepping::pup,
are compared with the structure definitions and with the allocations made at set-up."""

import os
import re

import sympy as sp

from sa import cheap, closed, ctext, mol, pup, rfm, templates
from sa.absint import REPO, AnalysisError
from sa.ctext import walk
from sa.ctyst import canon, fname, strip

SB = "nrpy.infrastructures.superB"
S = pup.S
SCALARS = {"REAL", "int", "bool", "double", "float", "char", "short", "int8_t", "size_t", "long", "unsigned", "TIMEVAR", "uint32_t", "int32_t", "Ck::IO::File"}
# (name, type, commondata)
FAMILY = [
    ("pa_real", "REAL", True), ("pb_int", "int", True), ("pc_bool", "bool", True), ("pd_chr", "char[50]", True), ("pe_arr", "REAL[3]", True), ("pf_iarr", "int[7]", True),
    ("pg_time", "TIMEVAR", True), ("ph_def", "#define", True), ("Nchare0", "int", True), ("Nchare1", "int", True), ("Nchare2", "int", True), ("NUMGRIDS", "int", True),
    ("qa_real", "REAL", False), ("qb_int", "int", False), ("qc_bool", "bool", False), ("qd_chr", "char[40]", False), ("qf_def", "#define", False), ("qg_time", "TIMEVAR", False),
    ("Nxx_plus_2NGHOSTS0", "int", False), ("Nxx_plus_2NGHOSTS1", "int", False), ("Nxx_plus_2NGHOSTS2", "int", False), ("CoordSystem_hash", "int", False),
]  # fmt: skip
# class members that are rebuilt or recomputed after a migration instead of being transferred
REBUILT = {"secProxy": "recreated by create_section()", "cookie": "recreated by create_section()", "write_chckpt_this_step": "assigned in every iteration before it is read"}


def T(v):
    return ctext.Rendered(v).text


# ---------------------------------------------------------------- the generated texts
def setup(I, systems):
    tabs = {"A": rfm.fake(), "B": rfm.fake(["f0_of_xx0", "f9_of_xx0xx1"]), "C": rfm.fake(["f3_of_xx2"])}
    rfm.install(I, {s: tabs[s] for s in systems})
    # modules the routines import register parameters of their own at import time
    for m in ("nrpy.infrastructures.superB.superB.superB_pup", "nrpy.infrastructures.superB.main_chare"):
        I.module(m)
    d = I.module("nrpy.params").scope.vars["glb_code_params_dict"]
    for n, t, c in FAMILY:
        if isinstance(d, dict) and n in d:
            continue
        kw = dict(commondata=c)
        if "[" in t or t == "TIMEVAR":
            kw.update(add_to_set_CodeParameters_h=False)
            if t == "TIMEVAR" or not t.startswith("char"):
                kw.update(add_to_parfile=False)
        if t.startswith("char"):
            kw.update(add_to_set_CodeParameters_h=False, add_to_parfile=False)
        closed.call(I, "nrpy.params:register_CodeParameter", t, "m", n, {"char": "x", "bool": True, "int": 1}.get(t.split("[")[0], 1.0), **kw)


def params_of(I):
    d = I.module("nrpy.params").scope.vars["glb_code_params_dict"]
    out = {}
    for k, v in d.items():
        a = v.attrs if hasattr(v, "attrs") else v.__dict__
        out[k] = (a["cparam_type"], bool(a["commondata"]))
    return out


def pup_text(systems, meth):
    I = closed.make(models={**closed.record_models()})
    box = {}

    def go(I):
        setup(I, systems)
        closed.call(I, f"{SB}.superB.superB_pup:register_CFunction_superB_pup_routines", list(systems), MoL_method=meth)
        box["params"] = params_of(I)

    out = []
    for tr in I.run(go):
        if tr.outcome[0] == "raise":
            raise AnalysisError(f"pup generator raises {tr.outcome[1].name} {tr.outcome[1].args}")
        t = "".join(T(e["args"].get("prefunc", "")) + "\n" + "" for e in tr.effects if e["kind"] == "register_CFunction")
        out.append(t)
    if len(set(out)) != 1:
        raise AnalysisError("pup generator is not deterministic for fixed options")
    return out[0], box["params"]


def generated(fn, **kw):
    """texts written by one file generator of the superB back end"""
    names = set()
    for _ in range(3):
        I = closed.make(models={**closed.record_models(), **closed.file_models()})
        box = {}

        def go(I):
            setup(I, ["A"])
            d = I.module("nrpy.c_function").scope.vars["CFunction_dict"]
            if isinstance(d, dict):
                d.update({n: None for n in names})
            closed.call(I, fn, **kw)
            box["params"] = params_of(I)

        trs = I.run(go)
        tr = trs[0]
        if tr.outcome[0] != "raise":
            return "\n".join(T(v) for v in closed.files(tr).values()), box["params"]
        msg = " ".join(str(a) for a in tr.outcome[1].args)
        new = set(re.findall(r"(\w+), registered by", msg))  # routines the generator insists on
        if not new - names:
            break
        names |= new
    raise AnalysisError(f"{fn} raises {tr.outcome[1].name} {tr.outcome[1].args}")


# ---------------------------------------------------------------- types
def members(decls):
    """{member: (type, pointer depth, dims)} of a structure body given as {member: declaration}"""
    out = {}
    for n, d in decls.items():
        d = re.sub(r"\b(restrict|__restrict__|const|struct)\b", " ", d)
        m = re.search(rf"(\**)\s*\b{n}\b\s*((?:\[[^\]]*\]\s*)*)", d)
        ty = re.match(r"\s*([\w:]+)", d)[1]
        if ty == "unsigned":
            ty = "unsigned"
        out[n] = (ty, d[: m.start()].count("*") + m[1].count("*"), re.findall(r"\[([^\]]*)\]", m[2]))
    return out


def poly(t):
    body, _ = ctext.parse(f"int v = {t};")
    return pup.Pup({}, False).val(body[0].decls[0].init, {})


def key(p):
    """access path without indices"""
    return re.sub(r"\[[^\]]*\]", "", p)


def indices(p):
    return [sp.sympify(x, locals={f"L{i}": S(f"L{i}") for i in range(12)}) for x in re.findall(r"\[([^\]]*)\]", p)]


class Types:
    def __init__(self, structs):
        self.structs = structs

    def leaves(self, ty, path):
        """(path, type, pointer depth, dims) of everything that must be transferred below a value of this type"""
        if ty not in self.structs:
            return None
        out = []
        for n, (t, ptr, dims) in self.structs[ty].items():
            p = f"{path}.{n}"
            if t in self.structs:
                sub = self.leaves(t, p)
                out += [(a, b, c, d, ((p, t, ptr, tuple(dims)),) + e) for a, b, c, d, e in sub]
            else:
                out.append((p, t, ptr, tuple(dims), ()))
        return out


# ---------------------------------------------------------------- coverage of an indexed member
def covers(idx, loops, dim):
    """the index expression takes every value of [0, dim) as the loops run (each exactly once)"""
    env = {S(v): (lo, hi) for v, lo, hi in loops}
    vs = sorted(idx.free_symbols, key=str)
    if not vs:
        return None  # a single element
    pl = sp.Poly(idx, *vs)
    if pl.total_degree() > 1 or pl.coeff_monomial(1) != 0 or any(v not in env or env[v][0] != 0 for v in vs):
        return False
    terms = [(pl.coeff_monomial(v), env[v][1]) for v in vs]
    want = sp.Integer(1)
    while terms:
        nxt = [t for t in terms if sp.expand(t[0] - want) == 0]
        if not nxt:
            return False
        terms.remove(nxt[0])
        want = sp.expand(want * nxt[0][1])
    return sp.expand(want - dim) == 0


def covered(evs, dims):
    if len(dims) == 1 and dims[0].startswith("SYNC_"):
        return any(not e.tail and str(e.n).endswith(".num_" + dims[0][5:]) for e in evs)
    return covered_(evs, dims)


def covered_(evs, dims):
    """do these transfer events of one member cover an array of the given extents in full?"""
    for e in evs:  # one event over loops / a block transfer
        ix = e.tail
        rest = [poly(d) for d in dims]
        ok = True
        for i in ix:
            if not rest:
                ok = False
                break
            c = covers(i, e.loops, rest[0])
            if c is not True:
                ok = False
                break
            rest.pop(0)
        if not ok:
            continue
        if sp.expand(sp.prod(rest) - e.n) == 0 if rest else e.n == 1:
            return True
    # separate events with constant indices
    consts = [e for e in evs if len(e.tail) == len(dims) == 1 and e.tail[0].is_Integer and e.n == 1]
    d = poly(dims[0]) if len(dims) == 1 else None
    return bool(consts) and d is not None and d.is_Integer and {int(e.tail[0]) for e in consts} == set(range(int(d)))


def runs(evs_by_key, k):
    return evs_by_key.get(k, [])


# ---------------------------------------------------------------- the routines
def analyse(ctx, label, systems, meth, structs_of, psi4):
    text, params = pup_text(systems, meth)
    tp = closed_value(f"{SB}.timestepping_chare:generate_PUP_code", enable_psi4_diagnostics=psi4)
    whole = text + "\n" + tp
    if cheap_balance(text):
        ctx.violation("balanced", f"{SB}.superB.superB_pup|brackets", f"{label}: brackets of the generated pack/unpack routines do not balance")
        return
    ctx.ok("balanced")
    funcs = pup.functions(whole)
    root = "pup"
    if root not in funcs:
        raise AnalysisError("Timestepping::pup not found")
    pk = pup.events(funcs, root, ["p"], False)
    un = pup.events(funcs, root, ["p"], True)
    xp = [e for e in pk if e.kind == "xfer"]
    xu = [e for e in un if e.kind == "xfer"]
    W = f"{SB}.superB.superB_pup"
    # R1
    for i in range(max(len(xp), len(xu))):
        a = xp[i] if i < len(xp) else None
        b = xu[i] if i < len(xu) else None
        if a is None or b is None or a.sig() != b.sig():
            e = a or b
            ctx.violation("symmetric", f"{W}|{e.fn}|{key(e.path)}", f"{label}: packing and unpacking transfer different sequences at {e.fn}: packed {desc(a)}, unpacked {desc(b)}")
            return
        ctx.ok("symmetric")
    structs = dict(structs_of)
    structs["commondata_struct"] = members_of_params(params, True)
    structs["params_struct"] = members_of_params(params, False)
    tabs = {"A": rfm.fake(), "B": rfm.fake(["f0_of_xx0", "f9_of_xx0xx1"]), "C": rfm.fake(["f3_of_xx2"])}
    TY = Types(structs)
    # R2, R3: order of events on the receiving side
    done = {}
    allocs = {}
    for e in un:
        bound = set()
        for _, lo, hi in e.loops:
            bound |= lo.free_symbols | hi.free_symbols
        if e.n is not None and e.kind != "alias":
            bound |= e.n.free_symbols
        gs = set(re.findall(r"(?:commondata|griddata|griddata_chare)(?:\[[^\]]*\])?(?:\.\w+(?:\[[^\]]*\])*)+", " ".join(e.guard)))
        for s in sorted({str(b) for b in bound} | gs):
            if s.startswith("sizeof(") or re.fullmatch(r"L\d+", s) or re.fullmatch(r"[A-Z][A-Z0-9_]*", s):
                continue
            if not re.match(r"(commondata|griddata|griddata_chare)\b", s):
                ctx.violation("length", f"{W}|{e.fn}|{key(e.path)}|{s}", f"{label}: {e.fn} transfers or allocates {key(e.path)} with {s}, which is no member of a transferred structure")
                continue
            if key(s) not in done:
                ctx.violation("length", f"{W}|{e.fn}|{key(e.path)}|{key(s)}", f"{label}: {e.fn} uses {key(s)} to size {key(e.path)} before it has been transferred")
            else:
                ctx.ok("length")
        if e.kind == "xfer":
            done.setdefault(key(e.path), []).append(e)
        elif e.kind == "alloc":
            allocs.setdefault(key(e.path), []).append(e)
    # typed view
    ev = {}
    for e in xu:
        p = e.path
        e.ix = indices(p)
        ev.setdefault(key(p), []).append(e)
    aliases = {key(e.path): e for e in un if e.kind == "alias"}
    used = set()

    def first(k):
        return next((i for i, e in enumerate(un) if e.kind == "xfer" and key(e.path) == k), None)

    def check_alloc(prefix, ty, depth, e, dims):
        """storage of a pointer member: prefix is its path; e a transfer below it"""
        # position of the member's own indices inside the event path
        segs = e.path.split(".")
        n = len(prefix.split("."))
        own = re.findall(r"\[([^\]]*)\]", segs[n - 1])
        own = own[len(dims) :]  # indices through the pointer
        base = ".".join(segs[: n - 1] + [re.match(r"\w+", segs[n - 1])[0] + "".join(f"[{x}]" for x in re.findall(r"\[([^\]]*)\]", segs[n - 1])[: len(dims)])])
        for lev in range(depth):
            tgt = base + "".join(f"[{x}]" for x in own[:lev])
            elem = ty + "*" * (depth - 1 - lev)
            if lev < len(own):
                i = sp.sympify(own[lev], locals={f"L{j}": S(f"L{j}") for j in range(12)})
                hi = [h for v, _, h in e.loops if S(v) == i]
                lo = [l for v, l, h in e.loops if S(v) == i]
                if len(hi) != 1 or lo[0] != 0:
                    ctx.undecided(label, f"{e.path}: index {i}")
                    return
                cnt = hi[0]
            else:
                cnt = e.n
            got = [a for a in un[: un.index(e)] if a.kind == "alloc" and a.path == tgt and all(g in e.guard for g in a.guard)]
            if not got:
                ctx.violation("allocated", f"{W}|{prefix}|{lev}", f"{label}: {e.fn} fills {tgt} on the receiving side without allocating it first")
                return
            want = sp.expand(S(f"sizeof({elem})") * cnt)
            if sp.expand(got[-1].n - want) != 0:
                ctx.violation("allocated", f"{W}|{prefix}|{lev}|size", f"{label}: {tgt} is allocated with {got[-1].n} bytes on the receiving side but filled with {want}")
            else:
                ctx.ok("allocated")

    def leaf(root_key, p, ty, ptr, dims, chain, site):
        k = p
        used.add(k)
        if ty == "TIMEVAR":
            for q in ("tv_sec", "tv_nsec"):
                if f"{k}.{q}" not in ev:
                    ctx.violation("complete", f"{site}|{k}.{q}", f"{label}: {k}.{q} is not transferred when a grid element migrates")
                else:
                    used.add(f"{k}.{q}")
                    ctx.ok("complete")
            return
        if k in aliases and k not in ev:
            tgt = key(str(aliases[k].n))
            want = structs["@alias"].get(k.split(".")[-1])
            if want is not None and want != tgt.split(".")[-1]:
                ctx.violation("origin", f"{site}|{k}|alias", f"{label}: {k} points to {tgt} on the receiving side but to {want} at set-up")
            elif tgt == "NULL" or tgt in ev and un.index(aliases[k]) > max((i for i, e in enumerate(un) if e.kind == "alloc" and key(e.path) == tgt), default=-1):
                ctx.ok("complete")
            else:
                ctx.violation("complete", f"{site}|{k}|alias", f"{label}: {k} is set to {tgt}, which is not transferred or not allocated yet at that point")
            return
        es = ev.get(k, [])
        if not es:
            ctx.violation("complete", f"{site}|{k}", f"{label}: {k} ({ty}{'*' * ptr}) is not transferred when a grid element migrates")
            return
        # split the indices of each event over the chain of enclosing members
        seg = k.split(".")
        for e in es:
            parts = e.path.split(".")
            e.tail = indices(parts[-1]) if len(parts) == len(seg) else []
        # enclosing members with extents
        for cp, ct, cptr, cdims in chain:
            for e in es:
                parts = e.path.split(".")
                n = len(cp.split("."))
                ix = indices(parts[n - 1])
                if len(ix) != len(cdims) + cptr:
                    ctx.violation("complete", f"{site}|{k}|rank", f"{label}: {e.path}: {cp} needs {len(cdims) + cptr} indices")
                    return
                for i, d in zip(ix, cdims):
                    if covers(i, e.loops, poly(d)) is not True:
                        ctx.violation("complete", f"{site}|{cp}|extent", f"{label}: {e.path} does not run over all {d} elements of {cp}")
                        return
                if cptr:
                    check_alloc(cp, ct, cptr, e, cdims)
        own_dims, e0 = list(dims), es
        if ptr == 0:
            good = covered(es, own_dims) if own_dims else any(e.n == 1 and not e.tail for e in es)
            if not good:
                ctx.violation("complete", f"{site}|{k}|extent", f"{label}: {k}{''.join('[' + d + ']' for d in own_dims)} is transferred as {', '.join(desc(e) for e in es)[:200]}, not in full")
            else:
                ctx.ok("complete")
            return
        # pointer member, possibly an array of pointers
        by = {}
        for e in es:
            by.setdefault(e.guard, []).append(e)
        for g, ge in by.items():
            if own_dims:
                c = [covers(e.tail[0], e.loops, poly(own_dims[0])) if e.tail else False for e in ge]
                consts = {int(e.tail[0]) for e in ge if e.tail and e.tail[0].is_Integer}
                d = poly(own_dims[0])
                if not (any(x is True for x in c) or (d.is_Integer and consts == set(range(int(d))))):
                    ctx.violation("complete", f"{site}|{k}|extent", f"{label}: the transfers of {k} do not cover its {own_dims[0]} arrays")
                    continue
            for e in ge:
                if len(e.tail) - len(own_dims) != ptr - 1:
                    ctx.violation("complete", f"{site}|{k}|rank", f"{label}: {desc(e)} transfers {k} ({ty}{'*' * ptr}) at the wrong level")
                    continue
                check_alloc(k, ty, ptr, e, own_dims)
            ctx.ok("complete")

    # R4
    for p, t, ptr, dims, chain in TY.leaves("commondata_struct", "commondata"):
        leaf("commondata", p, t, ptr, dims, chain, W)
    need = {"griddata": ["params", "xx"], "griddata_chare": sorted(structs["griddata_struct"])}
    for g, mem in need.items():
        for n in mem:
            t, ptr, dims = structs["griddata_struct"][n]
            if t == "rfm_struct":
                for s in systems:
                    for f in rfm_members(tabs[s]):
                        k = f"{g}.{n}.{f}"
                        es = [e for e in ev.get(k, []) if in_case(e.guard, s.upper()) or not any("CoordSystem_hash" in x for x in e.guard)]
                        used.add(k)
                        if not es:
                            ctx.violation("complete", f"{W}|{k}|{s}", f"{label}: precomputed array {f} of coordinate system {s} is not transferred")
                            continue
                        want = sp.prod([S(f"{g}[L0].params.Nxx_plus_2NGHOSTS{i}") for i in rfm.DEPS[f]])
                        for e in es:
                            e.tail = []
                            if sp.expand(e.n - want) != 0:
                                ctx.violation("origin", f"{W}|{k}|{s}", f"{label}: precomputed array {f} of coordinate system {s} holds {want} values, {e.n} are transferred")
                            else:
                                ctx.ok("origin")
                            check_alloc(k, "REAL", 1, e, [])
                        ctx.ok("complete")
                    # arrays another system has and this one lacks must not be touched in its case
                    for k, es in ev.items():
                        if k.startswith(f"{g}.{n}.") and k.split(".")[-1] not in rfm_members(tabs[s]):
                            for e in es:
                                if not any("CoordSystem_hash" in x for x in e.guard) or in_case(e.guard, s.upper()):
                                    ctx.violation("complete", f"{W}|{k}|{s}|extra", f"{label}: {k} is transferred for coordinate system {s}, which has no such array")
                continue
            lv = TY.leaves(t, f"{g}.{n}") if t in structs else [(f"{g}.{n}", t, ptr, tuple(dims), ())]
            for p, lt, lptr, ldims, chain in lv:
                leaf(g, p, lt, lptr, ldims, ((f"{g}.{n}", t, ptr, tuple(dims)),) * (1 if t in structs and (ptr or dims) else 0) + chain, W)
    # containers
    for g in need:
        a = [e for e in un if e.kind == "alloc" and e.path == g]
        if not a or sp.expand(a[0].n - S("sizeof(griddata_struct)") * S("commondata.NUMGRIDS")) != 0:
            ctx.violation("allocated", f"{SB}.timestepping_chare|{g}", f"{label}: {g} is not allocated for NUMGRIDS grids on the receiving side ({a[0].n if a else 'no allocation'})")
        else:
            ctx.ok("allocated")
        for e in xu:
            if e.path.startswith(g + "["):
                if not (e.loops and e.loops[0][0] == "L0" and e.loops[0][1] == 0 and e.loops[0][2] == S("commondata.NUMGRIDS") and e.path.startswith(g + "[L0]")):
                    ctx.violation("complete", f"{SB}.timestepping_chare|{g}|loop", f"{label}: {desc(e)} does not run over all grids")
                    break
        else:
            ctx.ok("complete")
    # anything transferred that is not a member?
    for k in ev:
        if k.startswith(("commondata.", "griddata.", "griddata_chare.")) and k not in used:
            ctx.violation("complete", f"{W}|{k}|unknown", f"{label}: {k} is transferred but is not a member of the migrated structures")
    return ev, un, structs


def desc(e):
    if e is None:
        return "nothing"
    return f"{e.path} x {e.n}" + (f" over {', '.join(f'{v}<{h}' for v, _, h in e.loops)}" if e.loops else "") + (f" if {' and '.join(e.guard)}" if e.guard else "")


def in_case(guard, label):
    """the event happens in the switch branch of this coordinate system"""
    return any("CoordSystem_hash==" in x and label in x.split("CoordSystem_hash==")[1].split(",") for x in guard)


def rfm_members(fake):
    return [str(s) for s in fake.freevars_uniq_xx_indep if str(s) in rfm.DEPS]


def members_of_params(params, common):
    out = {}
    for n, (t, c) in params.items():
        if c != common or t == "#define":
            continue
        m = re.match(r"([\w ]+?)\s*((?:\[[^\]]*\])*)$", t)
        out[n] = (m[1].strip(), 0, re.findall(r"\[([^\]]*)\]", m[2]))
    return out


def cheap_balance(text):
    t = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
    t = re.sub(r'"(?:\\.|[^"\\])*"', '""', t)
    st = []
    for ch in t:
        if ch in "({[":
            st.append(ch)
        elif ch in ")}]":
            if not st or "({[".index(st.pop()) != ")}]".index(ch):
                return True
    return bool(st)


def closed_value(qual, **kw):
    I = closed.make(models={**closed.record_models()})
    trs = I.run(lambda I: closed.call(I, qual, **kw))
    vals = {T(tr.outcome[1]) for tr in trs if tr.outcome[0] == "return"}
    if len(vals) != 1:
        raise AnalysisError(f"{qual}: {[tr.outcome for tr in trs][:2]}")
    return vals.pop()


# ---------------------------------------------------------------- structure definitions
def structures(cols):
    st = {}
    with open(os.path.join(REPO, "nrpy/infrastructures/superB/superB/superB.h"), encoding="utf-8") as f:
        h = f.read()
    for n, m in cheap.struct_members(h).items():
        st[n] = members(m)
    texts = {}
    decl = {}
    for r in cols:
        for o in r["others"]:
            if o["kind"] == "register_defines" and "superB" in o["mod"]:
                for n, m in cheap.struct_members(str(o["args"].get("BHaH_defines", o["args"].get("text", "")))).items():
                    texts.setdefault(n, members(m))
            if o["kind"] == "register_griddata" and "superB" in o["mod"] and not o["args"].get("is_commondata") is True:
                d = str(o["args"]["c_declaration"])
                m = re.match(r"(\w+)\s*(\**)\s*(\w+)$", d.strip())
                if not m:
                    raise AnalysisError(f"griddata declaration {d}")
                decl[m[3]] = (m[1], len(m[2]), [])
    for n, m in texts.items():
        if n in ("innerpt_bc_struct", "outerpt_bc_struct", "bc_info_struct", "bc_struct"):
            st[n] = m
    decl["params"] = ("params_struct", 0, [])
    decl["xx"] = ("REAL", 1, ["3"])
    decl["rfmstruct"] = ("rfm_struct", 0, [])
    with open(os.path.join(REPO, "nrpy/infrastructures/BHaH/BHaH_defines_h.py"), encoding="utf-8") as f:
        src = f.read()
    for n in ("CoordSystemname", "gridname"):
        m = re.search(rf'"char {n}\[(\w+)\]"', src)
        decl[n] = ("char", 0, [m[1] if m else "100"])
    st["griddata_struct"] = decl
    for n in ("charecomm_struct", "diagnostic_struct", "tmpBuffers_struct", "nonlocalinnerbc_struct", "bc_struct"):
        if n not in st:
            raise AnalysisError(f"definition of {n} not found")
    for n in ("bcstruct", "nonlocalinnerbcstruct", "charecommstruct", "diagnosticstruct", "tmpBuffers"):
        if n not in decl:
            raise AnalysisError(f"griddata member {n} not found among the registrations")
    return st


def mol_struct(P, meth):
    trs, _ = mol.generate(P, "superB", meth, enable_rfm_precompute=True, enable_curviBCs=True)
    for tr in trs:
        if tr.outcome[0] == "raise":
            continue
        defs = "".join(T(e["args"].get("BHaH_defines", e["args"].get("text", ""))) for e in tr.effects if e["kind"] == "register_defines")
        m = cheap.struct_members(defs).get("MoL_gridfunctions_struct")
        if m:
            # array extents that depend on the registered gridfunctions: any text between brackets
            out = {}
            for n, d in m.items():
                out.update(members({n: d}))
            regs = {T(e["args"].get("name", "")): e["args"] for e in tr.effects if e["kind"] == "register_CFunction"}
            return out, regs
    raise AnalysisError("MoL_gridfunctions_struct not found")


def run(ctx):
    ctx.rule("balanced", "brackets of the generated routines balance for one and several coordinate systems")
    ctx.rule("symmetric", "Timestepping::pup with all routines inlined transfers the same sequence of objects, lengths, loops and guards when packing and unpacking")
    ctx.rule("allocated", "every array filled on the receiving side was allocated before, with length times element size bytes, at every pointer level")
    ctx.rule("length", "every length, loop bound and case selector used on the receiving side is a member already transferred, or a compile-time constant")
    ctx.rule("complete", "every member of every structure reachable from the migrated object is transferred, arrays over their full declared extent")
    ctx.rule("origin", "arrays are transferred with the number of elements allocated for them at set-up")
    ctx.rule("members", "every data member of the migrated class is transferred or rebuilt; nothing that determines a length is uninitialised at set-up")
    P = templates.prog()
    cols = templates.collect(only=lambda e: "superB" in e and not e.endswith((":register_CFunctions", ":register_CFunction_MoL_step_forward_in_time", ":register_CFunction_superB_pup_routines")))
    box = {}

    def st():
        box["st"] = structures(cols)

    ctx.attempt("structure definitions", st)
    if "st" not in box:
        return
    ms = [m for m, t in mol.methods(P).items() if t[0][-1][0] == "" and m not in mol.synthetic()]
    res = {}

    def one(meth, systems, psi4):
        s = dict(box["st"])
        s["MoL_gridfunctions_struct"], regs = mol_struct(P, meth)
        s["@alias"] = aliases_of(regs)
        s["griddata_struct"] = {**s["griddata_struct"], "gridfuncs": ("MoL_gridfunctions_struct", 0, [])}
        fix_sync(s["MoL_gridfunctions_struct"])
        r = analyse(ctx, f"{meth}, coordinate systems {'+'.join(systems)}", systems, meth, s, psi4)
        if r:
            res[meth] = r + (regs,)

    for meth in ms:
        combos = [(("A",), False), (("A", "B"), True)] if meth == ms[0] else [(("A", "B"), False)]
        if meth == "RK4":
            combos.append((("A", "B", "C"), True))
        for systems, psi4 in combos:
            ctx.attempt(f"migration routines for {meth} {'+'.join(systems)}", one, meth, list(systems), psi4)
    ctx.floor("complete", 400)
    ctx.floor("allocated", 300)
    ctx.attempt("set-up allocations", origin, ctx, cols, res)
    ctx.attempt("class members", class_members, ctx)
    ctx.attempt("start-up message", commondata_object, ctx)


def fix_sync(m):
    """arrays of gridfunction indices to synchronise: their declared extent is the number of registered
    gridfunctions of that kind; only the first num_*_to_sync entries carry data"""
    for n in list(m):
        if n.endswith("_gfs_to_sync") and not n.startswith("num_") and m[n][1] == 0:
            m[n] = (m[n][0], 0, [f"SYNC_{n}"])


def aliases_of(regs):
    """gridfuncs members that the set-up routines point at another member (or at nothing)"""
    out = {}
    for n, a in regs.items():
        if "malloc" in n:
            for m in re.finditer(r"gridfuncs\s*->\s*(\w+)\s*=\s*(?:gridfuncs\s*->\s*)?(\w+)\s*;", T(a.get("body", ""))):
                out[m[1]] = m[2]
    return out


# ---------------------------------------------------------------- R5
def ptypes(params):
    """{parameter: type} of structure parameters"""
    return {m[2]: m[1] for m in re.finditer(r"(\w+_struct)\s*(?:\*|\s|restrict|__restrict__|const|&)*\b(\w+)", params or "")}


class Setup:
    """allocations made by one set-up routine, in terms of structure members"""

    def __init__(self, name, params, body, params_is_chare):
        self.types = ptypes(params)
        self.chare = params_is_chare
        self.name = name
        self.body, _ = ctext.parse(body)
        self.defs = {}
        self.same = {}
        self.allocs = []
        nodes = list(walk(self.body))
        for s in nodes:
            if s.k == "decl":
                for d in s.decls:
                    if d.init is not None:
                        self.defs.setdefault(d.name, []).append(d.init)
            elif s.k == "assign":
                a = strip(s.a)
                if s.op == "=" and a.k == "id":
                    self.defs.setdefault(a.name, []).append(s.b)
                elif a.k == "id":
                    self.defs.setdefault(a.name, []).append(None)
                elif s.op == "=" and strip(s.b).k == "id" and a.k in ("mem", "member", "idx"):
                    self.same.setdefault(strip(s.b).name, []).append(a)
            elif s.k == "un" and s.op in ("++", "--", "p++", "p--") and strip(s.e).k == "id":
                self.defs.setdefault(strip(s.e).name, []).append(None)
            elif s.k in ("post", "postfix") and strip(s.e).k == "id":
                self.defs.setdefault(strip(s.e).name, []).append(None)
        for s in nodes:
            if s.k == "assign" and s.op == "=":
                c = strip(s.b)
                if c.k == "call" and fname(c) in ("malloc", "calloc"):
                    self.allocs.append((s.a, c))

    def member(self, e, depth=0):
        """(struct type, member path with indices) of an access, or None"""
        e = strip(e)
        if depth > 20:
            return None
        if e.k == "idx":
            m = self.member(e.a, depth + 1)
            return m and (m[0], m[1], m[2] + [e.i])
        if e.k in ("mem", "member"):
            b = strip(e.a)
            while b.k == "un" and b.op in ("&", "*"):
                b = strip(b.e)
            if b.k == "id" and b.name in self.types:
                return (self.scope(b.name), e.m, [])
            m = self.member(b, depth + 1)
            return m and (m[0], m[1] + "." + e.m, m[2])
        if e.k == "id" and e.name == "xx":
            return ("griddata_struct", "xx", [])
        if e.k == "id" and e.name in self.types:
            return None
        if e.k == "id":
            d = [x for x in self.defs.get(e.name, []) if x is not None]
            if len(d) == 1 and len(self.defs[e.name]) == 1:
                x = strip(d[0])
                if x.k in ("mem", "member", "idx") or x.k == "un" and x.op == "&":
                    return self.member(x if x.k != "un" else x.e, depth + 1)
        return None

    def scope(self, n):
        t = self.types[n]
        if t != "params_struct":
            return t
        ch = "chare" in n or (self.chare if "params_chare" not in self.types else False)
        return "params_struct:" + ("chare" if ch else "global")

    def val(self, e, ixmap, seen=()):
        e = strip(e)
        if e.k == "num":
            return sp.Integer(int(re.sub(r"[uUlL]+$", "", e.v), 0))
        if e.k == "sizeof":
            return S("sizeof(" + re.sub(r"\b(restrict|struct|const)\b|\s", "", "".join(e.toks)) + ")")
        if e.k == "bin" and e.op in ("+", "-", "*"):
            a, b = self.val(e.a, ixmap, seen), self.val(e.b, ixmap, seen)
            return sp.expand({"+": a + b, "-": a - b, "*": a * b}[e.op])
        if e.k == "call" and fname(e) in pup.CASTS:
            return self.val(e.args[0], ixmap, seen)
        if e.k == "id":
            n = e.name
            if n in ixmap:
                return S(ixmap[n])
            if n in seen:
                raise AnalysisError(f"{n} depends on itself")
            if n in self.same and n in self.defs and n not in seen:
                m = sorted(self.same[n], key=lambda a: canon(a).count("["))[0]
                if not any(canon(strip(d)) == canon(m) for d in self.defs[n] if d is not None):
                    return self.sym(m, ixmap, seen + (n,))
            d = self.defs.get(n)
            if d is None:
                if re.fullmatch(r"[A-Z][A-Z0-9_]*", n):
                    return S(n)
                m = re.fullmatch(r"(Nxx_plus_2NGHOSTS[012])", n)
                if m and any(t == "params_struct" for t in self.types.values()):
                    ps = [p for p, t in self.types.items() if t == "params_struct"]
                    return S(f"{self.scope(ps[0])}.{n}")
                if any(t == "commondata_struct" for t in self.types.values()) and re.fullmatch(r"Nchare[012]|NUMGRIDS", n):
                    return S(f"commondata_struct.{n}")
                raise AnalysisError(f"unknown name {n}")
            if len(d) != 1 or d[0] is None:
                raise AnalysisError(f"{n} is computed at run time and not stored in a member")
            return self.val(d[0], ixmap, seen + (n,))
        if e.k in ("mem", "member", "idx"):
            return self.sym(e, ixmap, seen)
        raise AnalysisError(f"value {canon(e)[:60]}")

    def sym(self, e, ixmap, seen=()):
        m = self.member(e)
        if m is None:
            raise AnalysisError(f"access {canon(e)[:60]}")
        return S(f"{m[0]}.{m[1]}" + "".join(f"[{self.val(i, ixmap, seen)}]" for i in m[2]))


def index_order(ix):
    """names of the index variables, by bracket and coefficient"""
    out = []
    for i in ix:
        pl = sp.Poly(i, *sorted(i.free_symbols, key=str)) if i.free_symbols else None
        if pl is not None:
            out += [str(v) for _, v in sorted(((str(pl.coeff_monomial(v)), v) for v in pl.gens), key=lambda t: (int(t[0]) if t[0].isdigit() else 99, str(t[1])))]
    return out


def origin(ctx, cols, res):
    # is the grid passed to a set-up routine the local or the global one?
    whole, _ = generated(f"{SB}.timestepping_chare:output_timestepping_cpp", **cpp_args())
    reg = {}
    for r in cols:
        for g in r["regs"]:
            if re.search(r"\b[mc]alloc\s*\(", g.body):
                reg.setdefault(g.name, []).append((g.params, g.body))
    if not res:
        raise AnalysisError("no migration routine analysed")
    for meth, (ev, un, structs, regs) in res.items():
        mine = dict(reg) if meth == sorted(res)[0] else {}
        for n, a in regs.items():
            if "malloc" in n:
                mine.setdefault(n, [(T(a.get("params", "")), T(a.get("body", "")))])
        # allocations on the receiving side, by structure type
        want = {}
        for e in un:
            if e.kind != "alloc" or not e.path.startswith("griddata_chare["):
                continue
            k = key(e.path).split(".")
            t = structs["griddata_struct"].get(k[1], (None,))[0]
            mem = ".".join(k[2:]) if t in structs and t != "griddata_struct" and len(k) > 2 else None
            ty, m = (t, mem) if mem else ("griddata_struct", k[1])
            own = e.path.split("]", 1)[1]
            ix = indices(own)
            if ty == "griddata_struct" and ix and ix[0].is_Integer:
                m, ix = f"{m}{ix[0]}", ix[1:]
            want.setdefault((ty, m, len(ix)), []).append((e, ix))
        for name, vs in mine.items():
            ch = chare_call(whole, name, vs[0][0])
            for params, body in vs:
                try:
                    su = Setup(name, params, body, ch)
                except AnalysisError as x:
                    ctx.undecided(f"set-up routine {name}", str(x))
                    continue
                for lhs, c in su.allocs:
                    m = su.member(lhs)
                    if m is None:
                        continue
                    base, ixs = m[1], list(m[2])
                    try:
                        if m[0] == "griddata_struct" and ixs and strip(ixs[0]).k == "num":
                            base += str(strip(ixs[0]).v)
                            ixs = ixs[1:]
                        k = (m[0], base, len(ixs))
                        if k not in want:
                            continue
                        names = {}
                        ipoly = [su.val(i, Names()) for i in ixs]
                        for q, v in enumerate(index_order(ipoly)):
                            names[v] = f"#{q}"
                        n0 = su.val(c.args[0], names) if fname(c) == "malloc" else sp.expand(su.val(c.args[0], names) * su.val(c.args[1], names))
                    except AnalysisError as x:
                        ctx.undecided(f"{name}: size of {canon(lhs)[:60]}", str(x))
                        continue
                    for e, ix in want[k]:
                        ren = {v: f"#{q}" for q, v in enumerate(index_order(ix))}
                        n1 = translate(e.n, structs, ren)
                        n0r = n0
                        if sp.expand(n0r - n1) != 0:
                            ctx.violation("origin", f"{k[0]}.{k[1]}|{name}", f"{meth}: {name} allocates {canon(lhs)[:80]} with {n0r} bytes, the migrated copy has {n1}")
                        else:
                            ctx.ok("origin")
    ctx.floor("origin", 60)


class Names(dict):
    """every name stands for itself"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return k


def translate(n, structs, ren):
    """sizes on the receiving side in terms of structure types"""
    sub = {}
    for s in n.free_symbols:
        t = str(s)
        if t.startswith("sizeof(") or re.fullmatch(r"[A-Z][A-Z0-9_]*", t):
            continue
        m = re.match(r"griddata_chare\[L0\]\.(\w+)\.(.*)$", t)
        g = re.match(r"griddata\[L0\]\.params\.(.*)$", t)
        if g:
            u = "params_struct:global." + g[1]
        elif m:
            ty = structs["griddata_struct"][m[1]][0]
            u = (ty if ty != "params_struct" else "params_struct:chare") + "." + m[2]
        elif t.startswith("commondata."):
            u = "commondata_struct." + t.split(".", 1)[1]
        else:
            u = t
        u = re.sub(r"\[(L\d+)\]", lambda m: f"[{ren.get(m[1], m[1])}]", u)
        sub[s] = S(u)
    return sp.expand(n.subs(sub))


def chare_call(text, name, params):
    """does the caller pass the local grid's parameters to this routine?"""
    ps = [p.strip() for p in (params or "").split(",")]
    pos = [i for i, p in enumerate(ps) if "params_struct" in p]
    m = re.search(rf"\b{name}\s*\(([^;]*)\)\s*;", text)
    if m and pos:
        args = m[1].split(",")
        if pos[0] < len(args):
            return "griddata_chare" in args[pos[0]]
    return True


def cpp_args():
    I = closed.make()
    box = {}

    def go(I):
        box["d"] = closed.call(I, "nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary:generate_Butcher_tables")

    I.run(go)
    return dict(project_dir="pd", Butcher_dict=box["d"], MoL_method="RK4", enable_rfm_precompute=True, enable_CurviBCs=True, enable_psi4_diagnostics=True, enable_charm_checkpointing=True)


# ---------------------------------------------------------------- R6
def class_members(ctx):
    h, _ = generated(f"{SB}.timestepping_chare:output_timestepping_h", project_dir="pd", enable_psi4_diagnostics=True, enable_charm_checkpointing=True, enable_residual_diagnostics=True)
    h = re.sub(r"//[^\n]*|/\*.*?\*/", "", h, flags=re.S)
    m = re.search(r"class\s+Timestepping\b[^{]*\{(.*)\}\s*;", h, re.S)
    if not m:
        raise AnalysisError("class Timestepping not found")
    data = {}
    for d in re.sub(r"\b(?:private|public|protected)\s*:", ";", m[1]).split(";"):
        d = re.sub(r"^\s*#.*$", "", d, flags=re.M).strip()
        if not d or "(" in d or re.fullmatch(r"[A-Za-z_]\w*", d):
            continue
        q = re.match(r"(?:const\s+)?([\w:]+)\s*(\**)\s*(?:restrict\s+)?(\w+)\s*((?:\[[^\]]*\])*)\s*(?:=.*)?$", d, re.S)
        if not q:
            raise AnalysisError(f"member declaration {d[:60]}")
        data[q[3]] = q[1]
    if len(data) < 8:
        raise AnalysisError("too few data members of class Timestepping recognised")
    for psi4 in (False, True):
        tp = closed_value(f"{SB}.timestepping_chare:generate_PUP_code", enable_psi4_diagnostics=psi4)
        body, _ = ctext.parse(tp)
        names = set()
        for s in walk(body):
            if s.k == "bin" and s.op == "|":
                names |= set(re.findall(r"\w+", canon(s.b)))
            if s.k == "call":
                for a in s.args:
                    names |= set(re.findall(r"\w+", canon(a)))
        for n in data:
            if n in REBUILT:
                if psi4 and "create_section" in REBUILT[n] and not re.search(r"isUnpacking\s*\(\s*\)\s*\)\s*\{[^}]*create_section\s*\(\s*\)", re.sub(r"//[^\n]*", "", tp)):
                    ctx.violation("members", f"{SB}.timestepping_chare|{n}", f"class Timestepping: {n} is neither transferred nor recreated on the receiving side")
                else:
                    ctx.ok("members")
            elif n not in names:
                ctx.violation("members", f"{SB}.timestepping_chare|{n}", f"class Timestepping: data member {n} ({data[n]}) is not transferred by Timestepping::pup")
            else:
                ctx.ok("members")
        if not re.search(r"CBase_Timestepping\s*::\s*pup\s*\(\s*p\s*\)", tp) or not re.search(r"__sdag_pup\s*\(\s*p\s*\)", tp):
            ctx.violation("members", f"{SB}.timestepping_chare|base", "Timestepping::pup does not transfer its base class or the state of its control flow")
        else:
            ctx.ok("members")
    # lengths that some configurations never assign start out as zero
    cpp, _ = generated(f"{SB}.timestepping_chare:output_timestepping_cpp", **cpp_args())
    ok = re.search(r"griddata_chare\s*=\s*\([^)]*\)\s*calloc\s*\(", cpp) or re.search(r"memset\s*\(\s*griddata_chare\s*,\s*0\s*,", cpp) or re.search(r"griddata_chare\s*=\s*new\s+griddata_struct\s*\[[^\]]*\]\s*(\(\s*\)|\{\s*\})", cpp)
    if not ok:
        ctx.violation("members", f"{SB}.timestepping_chare|initialised", "the Timestepping constructor leaves griddata_chare uninitialised: array lengths that belong to disabled diagnostics are indeterminate when a grid element migrates")
    else:
        ctx.ok("members")


def commondata_object(ctx):
    text, params = generated(f"{SB}.main_chare:output_commondata_object_h", project_dir="pd")
    if cheap_balance(text):
        ctx.violation("balanced", f"{SB}.main_chare|brackets", "brackets of commondata_object.h do not balance")
        return
    m = re.search(r"void\s+pup\s*\(\s*PUP::er\s*&\s*p\s*\)\s*\{", text)
    if not m:
        raise AnalysisError("CommondataObject::pup not found")
    funcs = pup.functions("void pup(PUP::er &p) {" + text[m.end() :].split("};")[0])
    W = f"{SB}.main_chare"
    pk = pup.events(funcs, "pup", ["p"], False)
    un = pup.events(funcs, "pup", ["p"], True)
    if [e.sig() for e in pk if e.kind == "xfer"] != [e.sig() for e in un if e.kind == "xfer"]:
        ctx.violation("symmetric", W, "CommondataObject::pup packs and unpacks different sequences")
        return
    have = {e.path: e for e in un if e.kind == "xfer"}
    for n, (t, ptr, dims) in members_of_params(params, True).items():
        k = f"commondata.{n}"
        for q in (["tv_sec", "tv_nsec"] if t == "TIMEVAR" else [""]):
            kk = k + ("." + q if q else "")
            e = have.pop(kk, None)
            w = sp.prod([poly(d) for d in dims]) if dims else sp.Integer(1)
            if e is None or sp.expand(e.n - w) != 0:
                ctx.violation("complete", f"{W}|{kk}", f"CommondataObject::pup: {kk} is {'not transferred' if e is None else f'transferred with {e.n} of {w} elements'}")
            else:
                ctx.ok("complete")
    for k in have:
        ctx.violation("complete", f"{W}|{k}|unknown", f"CommondataObject::pup transfers {k}, which is not a member of commondata_struct")
