"""P06: every run-time parameter is declared, defaulted, exposed and parsable."""

import re

import sympy as sp

from sa import cexec, ctext, parfile

CPF = "nrpy/infrastructures/BHaH/CodeParameters.py"
BDF = "nrpy/infrastructures/BHaH/BHaH_defines_h.py"
PFF = "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"


def P(t, n, d=1, **k):
    return dict(type=t, name=n, default=d, **k)


c = dict(commondata=True)
arr = dict(commondata=True, add_to_set_CodeParameters_h=False)
nopar = dict(add_to_parfile=False)
nohdr = dict(add_to_set_CodeParameters_h=False)
MIX = [
    P("REAL", "aa", 1.5, **c), P("REAL", "a", -2.5e-3, **c, module="modB"), P("REAL", "aaa", 3, **c), P("REAL", "api", "M_PI", module="modB"), P("REAL", "cpi", "M_PI", **c, **nopar),
    P("int", "i1", 7, **c, description="an integer"), P("int", "i2", -3, module="modB"), P("int", "I1", 5, **c),
    P("bool", "b1", True, **c), P("bool", "b2", False, **c), P("bool", "b3", True),
    P("char[12]", "s1", "x y", **c), P("char[40]", "s2", "abc"), P("char[3]", "s3", "ab", **c, **nopar),
    P("REAL[3]", "r3", 2.0, **arr), P("int[4]", "v4", 2, **arr), P("REAL[1]", "r1", -1.0, **arr), P("int[100]", "v100", 0, **arr, module="modA0"), P("int[2]", "v2", 9, **arr, **nopar),
    P("#define", "DEFA", 3), P("#define", "defb", "aa"),
    P("int", "n1", 7, **nopar, **nohdr), P("REAL", "n2", 0.25, **c, **nohdr), P("REAL", "u1", "unset", **nopar), P("int", "u2", "unset", **nopar, **c),
]
FAMILIES = {
    "mixed": (MIX, ["aa", "s1", "i1", "b1"], False),
    "mixed, registered in reverse": (list(reversed(MIX)), ["b2", "a"], False),
    "mixed, commondata only": (MIX, [], True),
    "grid parameters only": ([P("REAL", "g1", 1.0), P("int", "g2", 2), P("bool", "g3", False), P("char[9]", "g4", "q")], [], False),
    "one array": ([P("REAL[6]", "x6", 0.5, **arr)], [], False),
}
EXTRA = [(("modX", "REAL *restrict gfs_x", "some text"), {}), (("modX", "int kk"), {"is_commondata": True}), (("modY", "REAL zz[7]", "note"), {"is_commondata": True})]


def split_type(t):
    m = re.fullmatch(r"\s*([\w ]+?)\s*\[\s*(\d+)\s*\]\s*", t)
    return (m.group(1), int(m.group(2))) if m else (t.strip(), None)


def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", "", t)


def structs(text):
    out = {}
    for m in re.finditer(r"typedef\s+struct\s+\w*\s*\{(.*?)\}\s*(\w+)\s*;", strip_comments(text), re.S):
        mem = []
        for d in m.group(1).split(";"):
            d = " ".join(d.split())
            if not d:
                continue
            q = re.fullmatch(r"(.*?)(\w+)((?:\s*\[[^\]]*\])*)", d)
            mem.append((q.group(2), " ".join(q.group(1).split()), [x.strip() for x in re.findall(r"\[([^\]]*)\]", q.group(3))]))
        out[m.group(2)] = mem
    return out


def run(ctx):
    ctx.rule("declared", "each parameter is a member of exactly one of commondata_struct and params_struct, with its type and array size; preprocessor parameters are guarded macros and members of neither; extra members are declared once")
    ctx.rule("default", "the default routine of that structure assigns the default value once (each element of an array; strings bounded by their size), for every grid; parameters without default are not assigned")
    ctx.rule("exposed", "each access header defines the parameter under its own name and type from that structure (SIMD: broadcast for REAL, scalars otherwise), and nothing else")
    ctx.rule("parfile", "the default parameter file lists exactly the flagged commondata parameters with name, element count and default value")
    ctx.rule("parsed", "the parser's table row and branch of each listed parameter store into that parameter with the reader of its type, every element of an array")
    for name, (params, cmd, co) in FAMILIES.items():
        ctx.attempt(name, family, ctx, name, params, cmd, co)
    for r, n in (("declared", 80), ("default", 60), ("exposed", 120), ("parfile", 20), ("parsed", 25)):
        ctx.floor(r, n)


def family(ctx, name, params, cmd, co):
    has_par = any(q.get("commondata") and q.get("add_to_parfile", True) for q in params)
    parts = ["defaults", "headers", "defines", "parfile"] + (["parser"] if has_par else [])
    g = parfile.generate(params, cmd, commondata_only=co, extra_members=EXTRA, parts=parts)
    ctx.attempt(f"{name}: declarations", declared, ctx, name, g)
    ctx.attempt(f"{name}: defaults", defaults, ctx, name, g)
    for h in ("set_CodeParameters.h", "set_CodeParameters-nopointer.h", "set_CodeParameters-simd.h"):
        ctx.attempt(f"{name}: {h}", exposed, ctx, name, g, h, co)
    ctx.attempt(f"{name}: parameter file", parfile_lines, ctx, name, g)
    if has_par:
        ctx.attempt(f"{name}: parser", parser, ctx, name, g)
    ctx.sample(f"{name}: {len(g.params)} parameters, files {sorted(g.files)}")


def declared(ctx, name, g):
    text = g.files["BHaH_defines.h"]
    st = structs(text)
    cd, pa = st.get("commondata_struct", []), st.get("params_struct", [])
    for n, a in g.params.items():
        t = a["cparam_type"]
        where = f"{BDF}: {name}: {t} {n}"
        got = [("commondata_struct", m) for m in cd if m[0] == n] + [("params_struct", m) for m in pa if m[0] == n]
        if t == "#define":
            m = re.findall(rf"^[ \t]*#define[ \t]+{re.escape(n)}[ \t]+([^\n]*?)[ \t]*$", strip_comments(text), re.M)
            if got or m != [str(a["defaultvalue"])]:
                ctx.violation("declared", "#define", f"{where}: members {got}, macros {m}; expected one macro with value {a['defaultvalue']}")
            else:
                ctx.ok("declared")
            continue
        base, size = split_type(t)
        want = ("commondata_struct" if a["commondata"] else "params_struct", (n, base, [str(size)] if size else []))
        if got != [want]:
            ctx.violation("declared", f"{base}{'[]' if size else ''}|{'commondata' if a['commondata'] else 'params'}", f"{where}: declared as {got or 'nothing'}, expected {want}")
        else:
            ctx.ok("declared")
    for (mod, decl, *_), k in EXTRA:
        m = re.fullmatch(r"(.*?)(\w+)((?:\[\d+\])*)", decl)
        want = (m.group(2), m.group(1).strip(), re.findall(r"\[(\d+)\]", m.group(3)))
        s = "commondata_struct" if k.get("is_commondata") else "griddata_struct"
        n = st.get(s, []).count(want)
        if n != 1:
            ctx.violation("declared", f"extra|{s}", f"{BDF}: {name}: registered member '{decl}' occurs {n} times in {s}")
        else:
            ctx.ok("declared")
    names = [m[0] for m in st.get("griddata_struct", [])]
    if names.count("params") != 1 or "xx" not in names:
        ctx.violation("declared", "griddata", f"{BDF}: {name}: griddata_struct members {names}")
    else:
        ctx.ok("declared")


def num(v):
    if isinstance(v, bool):
        return sp.Symbol("true" if v else "false")
    if isinstance(v, (int, float)):
        return sp.nsimplify(repr(v)) if isinstance(v, float) else sp.Integer(v)
    return sp.Symbol(str(v))


def same(a, b):
    tf = {"true": 1, "false": 0}
    if a == b or tf.get(str(a), a) == tf.get(str(b), b):
        return True
    try:
        return abs(float(a) - float(b)) <= 1e-14 * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return False


def defaults(ctx, name, g):
    assigned = {}
    for fn in ("commondata_struct_set_to_default", "params_struct_set_to_default"):
        f = g.funcs[fn]
        ce = cexec.execute(f["body"], f["params"], unroll=0)
        for x in ce.events:
            if x.kind == "store" and x.op != "decl" and x.path:
                ms = [q[1] for q in x.path if q[0] == "m"]
                idx = [q[1] for q in x.path[max(i for i, q in enumerate(x.path) if q[0] == "m") + 1 :]]
                assigned.setdefault(ms[-1], []).append((x.base, [q for q in x.path], idx, x.val, x.ctx))
            elif x.kind == "call" and x.name in ("snprintf", "strncpy", "strcpy", "sprintf"):
                d = ce.as_sym(x.args[0])
                m = re.fullmatch(r"(\w+)(.*)\.(\w+)", str(d))
                if m:
                    assigned.setdefault(m.group(3), []).append((m.group(1), [], ("str", x.name, [str(ce.as_sym(q)) for q in x.args[1:]]), None, x.ctx))
    for n, a in g.params.items():
        t, d = a["cparam_type"], a["defaultvalue"]
        base, size = split_type(t)
        got = assigned.pop(n, [])
        where = f"{CPF}: {name}: {t} {n} (default {d!r})"
        key = f"{base}{'[]' if size else ''}|{'commondata' if a['commondata'] else 'params'}"
        if t == "#define" or d == "unset":
            if got:
                ctx.violation("default", f"{key}|unset", f"{where}: has no run-time default but is assigned {len(got)} times")
            else:
                ctx.ok("default")
            continue
        if len(got) != 1:
            ctx.violation("default", key, f"{where}: assigned {len(got)} times in the default routines")
            continue
        b, path, idx, val, cx = got[0]
        bad = None
        if b != ("commondata" if a["commondata"] else "griddata"):
            bad = f"assigned in the structure {b}"
        loops = [q for q in cx if q[0] == "for"]
        if any(q[0] not in ("for",) for q in cx):
            bad = bad or f"assigned only under {cx}"
        if not a["commondata"]:
            ok = loops and str(loops[0][2]) == "0" and str(loops[0][3]) in ("commondata[0].NUMGRIDS", "NUMGRIDS") and loops[0][4] == 1
            if not ok:
                bad = bad or "not assigned for every grid"
            elif path and not any(q[0] == "i" and str(q[1]) == loops[0][1] for q in path):
                bad = bad or "the grid index is not the loop counter"
            loops = loops[1:]
        if base == "char" and size:
            if not (isinstance(idx, tuple) and idx[1] == "snprintf" and idx[2][0] == str(size)):
                bad = bad or f"set by {idx[1:] if isinstance(idx, tuple) else val}, not bounded by {size}"
            elif idx[2][1:] not in ([f'"{d}"'], ['"%s"', f'"{d}"']):
                bad = bad or f"set to {idx[2][1:]}"
        elif isinstance(idx, tuple):
            bad = bad or "set as a string"
        elif size:
            if len(loops) != 1 or len(idx) != 1 or str(idx[0]) != loops[0][1] or (loops[0][2], loops[0][3], loops[0][4]) != (0, size, 1):
                bad = bad or f"elements {[str(i) for i in idx]} set in the loops {[tuple(map(str, q[1:])) for q in loops]}, expected 0..{size - 1}"
            elif not same(val, num(d)):
                bad = bad or f"elements set to {val}"
        else:
            if loops or idx:
                bad = bad or f"scalar set as element {idx}"
            elif not same(val, num(d)):
                bad = bad or f"set to {val}"
        if bad:
            ctx.violation("default", key, f"{where}: {bad}")
        else:
            ctx.ok("default")
    for n in assigned:
        ctx.violation("default", "stranger", f"{CPF}: {name}: {n} is assigned a default but is not a registered parameter")


def exposed(ctx, name, g, h, co):
    simd, ptr = "simd" in h, "nopointer" not in h
    text = g.files[h].replace("MAYBE_UNUSED", "")
    ce = cexec.execute(text, "commondata_struct *commondata, params_struct *params" if ptr else "")
    decls = {}
    for s in ce.ast:
        for q in ctext.walk(s):
            if q.k == "decl":
                for d in q.decls:
                    decls.setdefault(d.name, []).append((str(q._d.get("type", "")), d))
    val = {}
    copies = {}
    term = {}
    for x in ce.events:
        if x.kind == "store" and x.op == "decl":
            val[x.key] = x.val
        elif x.kind == "call" and x.name in ("strncpy", "memcpy", "strcpy", "snprintf"):
            a = [str(ce.as_sym(q)) for q in x.args]
            copies.setdefault(a[0], []).append((x.name, a[1:]))
        elif x.kind == "store" and x.path and str(x.val) == "'\\0'":
            term[x.base] = x.path[-1][1]
    known = set()
    for n, a in g.params.items():
        t = a["cparam_type"]
        base, size = split_type(t)
        show = a["add_to_set_CodeParameters_h"] and not (co and not a["commondata"]) and not (simd and size) and t != "#define"
        where = f"{CPF}: {name}: {h}: {t} {n}"
        key = f"{h}|{base}{'[]' if size else ''}|{'commondata' if a['commondata'] else 'params'}"
        got = decls.get(n, [])
        known.add(n)
        if not show:
            if got:
                ctx.violation("exposed", f"{key}|hidden", f"{where}: exposed although it should not be")
            else:
                ctx.ok("exposed")
            continue
        src = ("commondata" if a["commondata"] else "params") + ("[0]" if ptr else "") + "." + n
        if len(got) != 1:
            ctx.violation("exposed", key, f"{where}: declared {len(got)} times")
            continue
        ty, d = got[0]
        ty = re.sub(r"\b(const|static|restrict)\b", "", ty).strip()
        want = "REAL_SIMD_ARRAY" if simd and base == "REAL" else base
        bad = None
        if ty != want:
            bad = f"declared with type {ty}"
        elif size and base == "char":
            dim = str(ce.as_sym(ce.ev(d.dims[0]))) if d.dims and d.dims[0] is not None else "?"
            cp = copies.get(n, [])
            if dim != str(size):
                bad = f"declared with {dim} characters"
            elif len(cp) != 1 or cp[0][1][0] != src:
                bad = f"filled by {cp}, expected a copy of {src}"
            elif cp[0][0] == "strncpy" and (cp[0][1][1] != str(size - 1) or term.get(n) != size - 1):
                bad = f"{cp[0][1][1]} characters copied, terminator at {term.get(n)}"
        elif simd and base == "REAL":
            if str(val.get(n)) != f"ConstSIMD({src})":
                bad = f"set to {val.get(n)}, expected ConstSIMD({src})"
        elif str(val.get(n)) != src:
            bad = f"set to {val.get(n)}, expected {src}"
        if bad:
            ctx.violation("exposed", key, f"{where}: {bad}")
        else:
            ctx.ok("exposed")
    for n, v in decls.items():
        if n not in known and not (n.startswith("NOSIMD") and n[6:] in known) and any(str(val.get(n, "")).startswith(s) for s in ("commondata", "params")):
            ctx.violation("exposed", f"{h}|stranger", f"{CPF}: {name}: {h} defines {n}, which is not a registered parameter")


def parfile_lines(ctx, name, g):
    lines = {}
    for ln in g.files["PROJ.par"].split("\n"):
        s = re.match(r'(?:"[^"]*"|[^"#])*', ln).group(0)
        if "=" in s:
            k, v = s.split("=", 1)
            lines.setdefault(k.strip(), []).append(v.strip())
    for n, a in g.params.items():
        t, d = a["cparam_type"], a["defaultvalue"]
        base, size = split_type(t)
        show = a["commondata"] and a["add_to_parfile"]
        bracket = size and base != "char"
        k = f"{n}[{size}]" if bracket else n
        got = lines.pop(k, [])
        where = f"{PFF}: {name}: parameter file: {t} {n}"
        key = f"{base}{'[]' if size else ''}"
        if not show:
            if got:
                ctx.violation("parfile", f"{key}|hidden", f"{where}: listed although it is not a parameter-file parameter")
            else:
                ctx.ok("parfile")
            continue
        bad = None
        if len(got) != 1:
            bad = f"listed {len(got)} times as '{k} = ...'"
        elif bracket:
            m = re.fullmatch(r"\{(.*)\}", got[0])
            vs = [x.strip() for x in m.group(1).split(",")] if m else []
            if len(vs) != size or not all(same(sp.sympify(v), num(d)) for v in vs):
                bad = f"value {got[0]}, expected {size} times {d}"
            elif base == "int" and any("." in v for v in vs):
                bad = f"integers written as {vs[0]}"
        elif base == "char":
            if got[0] != f'"{d}"':
                bad = f"value {got[0]}, expected \"{d}\""
        elif base == "bool":
            if got[0].lower() != str(d).lower():
                bad = f"value {got[0]}, expected {d}"
        else:
            try:
                v = sp.sympify(got[0])
            except Exception:  # noqa: BLE001
                v = None
            if v is None or not same(v, num(d)):
                bad = f"value {got[0]}, expected {d}"
        if bad:
            ctx.violation("parfile", key, f"{where}: {bad}")
        else:
            ctx.ok("parfile")
    for k in lines:
        ctx.violation("parfile", "stranger", f"{PFF}: {name}: parameter file lists '{k}', which no parameter explains")


def reader_kind(p, fn):
    """what a reader stores: decided from its body"""
    b = p.prog
    if fn not in b.runs:
        return None
    ce = b.runs[fn]
    ps = {q[0]: q[1] for q in b.params(fn)}
    kinds = set()
    for x in ce.events:
        if x.kind == "store" and x.path and x.base in ps and x.op != "decl":
            v = ce.as_sym(x.val)
            fs = {f.func.__name__ for f in v.atoms(sp.Function)}
            decl = re.sub(r"\b(const|restrict)\b|[*\[\]]|\w+$", "", ps[x.base]).strip()
            if fs & {"strtol", "strtoll", "atoi"}:
                kinds.add("int" if decl == "int" else f"integer into {decl}")
            elif fs & {"strtod", "strtof", "strtold", "atof"}:
                kinds.add("REAL" if decl in ("REAL", "double") else f"float into {decl}")
            elif str(v) in ("true", "false"):
                kinds.add("bool" if decl == "bool" else f"bool into {decl}")
    if not kinds:
        for x in ce.events:
            if x.kind == "call" and any(q is not None and q.base in ps and "const" not in ps[q.base] and "char" in ps[q.base] for q in getattr(x, "ptrs", ())):
                kinds.add("char")
    return kinds.pop() if len(kinds) == 1 else None


def parser(ctx, name, g):
    p = parfile.Parser(g)
    b = p.prog
    rows = {r[0].strip('"'): r for r in p.rows}
    asg = [(x, m, off, j) for x, m, off, j in p.assigns() if not any("argv" in str(q) for q in x.args)]
    over = [(x, m, off, j) for x, m, off, j in p.assigns() if any("argv" in str(q) for q in x.args)]
    for n, a in g.params.items():
        t = a["cparam_type"]
        base, size = split_type(t)
        show = a["commondata"] and a["add_to_parfile"]
        where = f"{PFF}: {name}: parser: {t} {n}"
        key = f"{base}{'[]' if size else ''}"
        row = rows.pop(n, None)
        mine = [q for q in asg if q[1] == n]
        if not show:
            if row or mine:
                ctx.violation("parsed", f"{key}|hidden", f"{where}: parsed although it is not a parameter-file parameter")
            else:
                ctx.ok("parsed")
            continue
        bad = None
        if row is None:
            bad = "no row in the descriptor table"
        elif len(mine) != 1:
            bad = f"{len(mine)} branches store into commondata->{n}"
        else:
            x, _m, off, j = mine[0]
            want_n = str(size) if size and base != "char" else "0"
            want_b = str(size) if base == "char" else None
            twin = [r[0] for r in p.rows if r[1] == row[1] and r is not row]
            if twin:
                bad = f"shares its index {row[1]} with {twin}"
            elif row[3] != want_n:
                bad = f"table declares {row[3]} elements, expected {want_n}"
            elif want_b and row[4] != want_b:
                bad = f"table declares a buffer of {row[4]}, expected {want_b}"
            eqs = [f for f in b.facts(x.ctx, p.main) if getattr(f.func, "__name__", "") == "eq" and "index" in str(f)]
            sel = None
            for f in eqs:
                sy = [s for s in f.free_symbols if str(s).endswith(".index")]
                if len(sy) == 1 and len(f.free_symbols) == 1:
                    r = sp.solve(f.args[0], sy[0])
                    sel = r[0] if r else None
            if sel is None:
                bad = bad or "branch is not selected by the table index"
            elif str(sel) != row[1]:
                bad = bad or f"branch for index {sel}, but its table row has index {row[1]}"
            kind = reader_kind(p, x.name)
            if kind is None:
                ctx.undecided(where, f"reader {x.name} not recognised")
                continue
            if kind != base:
                bad = bad or f"converted by {x.name}, which reads {kind}"
            loops = [q for q in x.ctx if q[0] == "for"]
            src = [str(q) for k, q in enumerate(x.args) if k != j][0] if len(x.args) > 1 else ""
            if size and base != "char":
                lp = loops[-1] if loops else None
                if lp is None or (lp[2], lp[3], lp[4]) != (0, size, 1):
                    bad = bad or f"elements stored in the loop {lp}, expected 0..{size - 1}"
                elif str(off) != lp[1] or not src.endswith(f"[{lp[1]}]"):
                    bad = bad or f"element {off} stored from {src}"
            elif not src.endswith("[0]"):
                bad = bad or f"value taken from {src}"
            if base == "char":
                sz = [str(q) for q in x.args if str(q).isdigit()]
                if sz != [str(size)]:
                    bad = bad or f"bounded by {sz}, buffer has {size}"
        if bad:
            ctx.violation("parsed", key, f"{where}: {bad}")
        else:
            ctx.ok("parsed")
    for x, m, _off, j in over:
        t = g.params.get(m, {}).get("cparam_type")
        base, size = split_type(t or "?")
        kind = reader_kind(p, x.name)
        if kind is None:
            continue
        if kind != base:
            ctx.violation("parsed", f"override|{base}", f"{PFF}: {name}: parser: command-line override of {t} {m} converted by {x.name}, which reads {kind}")
        else:
            ctx.ok("parsed")
    for n in rows:
        ctx.violation("parsed", "stranger", f"{PFF}: {name}: table row for {n}, which is not a registered parameter")
