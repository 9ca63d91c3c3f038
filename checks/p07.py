"""P07: the generated parameter-file parser stays inside its buffers and refuses what it cannot convert."""

import re

import sympy as sp

from sa import parfile
from sa.cexec import F, S

C = "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"


def P(t, n, d=1, **k):
    return dict(type=t, name=n, default=d, commondata=True, add_to_set_CodeParameters_h=("[" not in t), **k)


REALP, INTP, BOOLP = P("REAL", "ra", 1.5), P("int", "ia", 3), P("bool", "ba", True)
CH = P("char[12]", "ca", "xy")
RA, IA = P("REAL[3]", "rv", 2.0), P("int[4]", "iv", 2)
FAMILIES = {
    "all types": ([REALP, INTP, BOOLP, CH, RA, IA], ["ra", "ca", "ia", "ba"]),
    "REAL only": ([REALP], []),
    "int only": ([INTP], ["ia"]),
    "bool only": ([BOOLP], ["ba"]),
    "char only": ([CH], ["ca"]),
    "REAL array only": ([RA], []),
    "int array only": ([IA], []),
    "short and long strings": ([P("char[2]", "c2", "x"), P("char[128]", "c128", "x"), P("char[300]", "c300", "x")], ["c2", "c300"]),
    "arrays around the element limit": ([P("REAL[1]", "r1", 1.0), P("int[100]", "i100", 1), P("REAL[101]", "r101", 1.0)], []),
    "hidden parameters": ([REALP, P("int", "hid", 1, add_to_parfile=False), dict(type="REAL", name="grd", default=1.0), INTP], ["ia"]),
}


def fname(f):
    return getattr(f.func, "__name__", "")


def run(ctx):
    ctx.rule("bounds", "every store and library copy reachable in the generated parser needs at most as many elements as its destination holds, by the guards that dominate it; requirements on pointer parameters are discharged at each call")
    ctx.rule("terminated", "a bounded copy is followed by a terminator inside the destination, or its source is shorter than the bound")
    ctx.rule("table", "every index in the descriptor table is below the number of flags the parser keeps")
    ctx.rule("conversion", "a converted number reaches the parameter only when something was converted, nothing follows it, and it is in range")
    ctx.rule("boolean", "a boolean is set only by the literals that mean it")
    ctx.rule("count", "for every table row, a bracket count or a number of values other than the declared one stops the program before any element is stored")
    ctx.rule("file", "a file is read only if it was opened")
    ctx.rule("options", "for every number of arguments, the parameter file and the arguments used as overrides are those of the documented usage options, or the program stops")
    for name, (params, cmd) in FAMILIES.items():
        ctx.attempt(name, family, ctx, name, params, cmd)
    ctx.floor("bounds", 150)
    ctx.floor("conversion", 6)
    ctx.floor("boolean", 4)
    ctx.floor("count", 30)
    ctx.floor("options", 20)


def family(ctx, name, params, cmd):
    g = parfile.generate(params, cmd, parts=("parser",))
    p = parfile.Parser(g)
    b = p.prog
    for fn, what, ok, msg in b.obl:
        short = re.sub(r"\s+", " ", what)[:80]
        if isinstance(ok, tuple):
            ctx.attempt(f"{name}: {what}", table, ctx, name, p, ok[1])
        elif ok is None:
            ctx.undecided(f"{name}: {fn}: {what}", msg)
        elif ok:
            ctx.ok("terminated" if "terminat" in msg or "shorter" in msg else "bounds")
        else:
            ctx.violation("bounds", f"{fn}|{short}", f"{C}: generated {fn}() (parameters: {name}): {msg}")
    for fn in list(b.funcs):
        if fn != parfile.PARSER:
            ctx.attempt(f"{name}: {fn}", conversions, ctx, name, p, fn)
    ctx.attempt(f"{name}: counts", counts, ctx, name, p)
    ctx.attempt(f"{name}: file", fileuse, ctx, name, p)
    ctx.attempt(f"{name}: options", options, ctx, name, p, cmd)
    ctx.sample(f"{name}: {len(b.funcs)} functions, {len(b.obl)} write obligations, {len(p.rows)} table rows")


def table(ctx, name, p, cap):
    idx = [int(r[1]) for r in p.rows]
    if cap is None or not sp.sympify(cap).is_Integer:
        return ctx.undecided(name, "number of flags unknown")
    if idx and max(idx) >= int(cap):
        ctx.violation("table", "index", f"{C}: {name}: table index {max(idx)} but only {cap} flags are kept per run")
    elif len(set(idx)) != len(idx):
        ctx.violation("table", "duplicate", f"{C}: {name}: two table rows share an index: {idx}")
    else:
        ctx.ok("table", len(idx))


def has(facts, kind, *pats):
    return any(fname(f) == kind and all(re.search(q, str(f)) for q in pats) for f in facts)


def flat(f):
    n = fname(f)
    if n == "or_":
        return [y for a in f.args for y in flat(a)]
    return [f]


def conversions(ctx, name, p, fn):
    b = p.prog
    ce = b.runs[fn]
    ps = {q[0]: q for q in b.params(fn)}
    seen = False
    for i, x in enumerate(ce.events):
        if x.kind != "store" or not x.path or x.base not in ps or x.op == "decl":
            continue
        decl = ps[x.base][1]
        facts = b.facts(x.ctx, ce)
        v = x.val if isinstance(x.val, sp.Basic) else ce.as_sym(x.val)
        fs = [f for f in v.atoms(sp.Function)]
        conv = [f for f in fs if f.func.__name__ in ("strtol", "strtod", "strtoll", "strtof", "strtold", "strtoul", "strtoull")]
        where = f"{C}: generated {fn}() (parameters: {name})"
        if re.search(r"\b(REAL|int|double)\b", decl) and "*" in decl and any(f.func.__name__ in ("atof",) for f in fs):
            ctx.violation("conversion", f"{fn}|atof", f"{where}: {x.base} receives {v}, which reports no failed conversion")
        for f in conv:
            seen = True
            miss = []
            end = str(f.args[1]).lstrip("&") if len(f.args) > 1 else "?"
            e = re.escape(end)
            if not has(facts, "ne", rf"\b{e}\b(?!\[)", re.escape(str(f.args[0]))):
                miss.append("nothing converted (end pointer compared with the start)")
            if not any(fname(q) == "eq" and re.search(rf"\b{e}\[0\]", str(q)) and re.fullmatch(r"eq\((-?\w+\[0\]|.*'\\\\?0'.*)\)", str(q)) for q in facts):
                miss.append("trailing characters (end pointer at the terminator)")
            if not (has(facts, "ne", r"\bERANGE\b") or has(facts, "eq", r"^eq\(-?errno\)$")):
                miss.append("out-of-range values (errno)")
            z = [y for y in ce.events[:i] if (y.kind == "store" and y.key == "errno") or (y.kind == "call" and y.name == f.func.__name__)]
            if "errno" in str(facts) or "ERANGE" in str(facts):
                if not (len(z) >= 2 and z[0].kind == "store" and z[0].val == 0 and z[-1].kind == "call"):
                    miss.append("errno not reset before the conversion")
            if f.func.__name__ in ("strtol", "strtoll") and re.search(r"\bint\b", decl) and "long" not in decl:
                if not (has(facts, "eq", "narrow") or (has(facts, "lt0", "INT_MAX") and has(facts, "lt0", "INT_MIN"))):
                    miss.append("values outside the range of int")
            if miss:
                ctx.violation("conversion", f"{fn}|{f.func.__name__}", f"{where}: {x.base} is stored without excluding: {'; '.join(miss)}")
            else:
                ctx.ok("conversion")
        if re.search(r"\bbool\b", decl):
            seen = True
            val = {"true": True, "1": True, "false": False, "0": False}.get(str(v))
            if val is None:
                ctx.undecided(f"{name}: {fn}", f"boolean value {v}")
                continue
            lits = set()
            for q in facts:
                if fname(q) in ("or_", "eq"):
                    for y in flat(q):
                        m = re.search(r'str(?:case)?cmp\(.*"([^"]*)"', str(y)) if fname(y) == "eq" else None
                        if m:
                            lits.add(m.group(1).lower())
            want = {"true", "1"} if val else {"false", "0"}
            if lits != want:
                ctx.violation("boolean", f"{fn}|{val}", f"{where}: {x.base} becomes {val} for the literals {sorted(lits) or 'anything'}; documented: {sorted(want)}")
            else:
                ctx.ok("boolean")
    return seen


def evalc(f, sub):
    """truth of a guard under a substitution (None: open)"""
    n = fname(f)
    if n in ("and_", "or_"):
        vs = [evalc(a, sub) for a in f.args]
        if n == "and_":
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if n == "not_":
        v = evalc(f.args[0], sub)
        return None if v is None else not v
    if n in ("eq", "ne", "lt0"):
        e = sp.expand(f.args[0].subs(sub))
        if not e.is_number:
            return None
        return {"eq": e == 0, "ne": e != 0, "lt0": bool(e < 0)}[n]
    return None


TYPES = ["PARAM_REAL", "PARAM_INT", "PARAM_BOOL", "PARAM_CHARARRAY", "PARAM_REAL_ARRAY", "PARAM_INT_ARRAY"]


def counts(ctx, name, p):
    b, ce = p.prog, p.main
    fields = ("name", "index", "type", "array_size", "buffer_size")
    ev = ce.events
    asg = p.assigns()
    enum = {}
    for r in p.rows:
        for c in r:
            if re.fullmatch(r"[A-Z]\w+", str(c)):
                enum.setdefault(c, len(enum) + 100)
    for t in TYPES:
        enum.setdefault(t, len(enum) + 100)
    # symbols that play the role of the bracket count and the number of values: filled by address
    for r in p.rows:
        row = dict(zip(fields, r))
        n = int(row["array_size"])
        pname = row["name"].strip('"')
        mine = [(x, m, off, j) for x, m, off, j in asg if m == pname and not re.search("argv", str([str(a) for a in x.args]))]
        if not mine:
            ctx.violation("count", f"no store|{row['type']}", f"{C}: {name}: parameter {pname} is in the table but no branch stores it")
            continue
        x = mine[0][0]
        before = ev[: ev.index(x)]
        exits = [y for y in before if y.kind == "call" and y.name in ("exit", "abort")]
        xf = set(map(str, b.facts(x.ctx, ce)))
        sub0 = {}
        for y in exits:
            for f in b.facts(y.ctx, ce):
                for s in f.free_symbols:
                    m = re.search(r"\.(\w+)$", str(s))
                    if m and m.group(1) in fields:
                        v = row[m.group(1)]
                        sub0[s] = sp.Integer(enum[v]) if v in enum else sp.Integer(int(v)) if re.fullmatch(r"\d+", v) else s
                    elif str(s) in enum:
                        sub0[s] = sp.Integer(enum[str(s)])
        for var, label, want in (("array_size", "bracket count", n), ("value_count", "number of values", n or 1)):
            sy = S(var)
            other = S("value_count" if var == "array_size" else "array_size")
            for bad in sorted({0, want - 1, want + 1, want + 7} - {want, -1}):
                sub = dict(sub0)
                sub[sy] = sp.Integer(bad)
                sub[other] = sp.Integer(n or 1) if str(other) == "value_count" else sp.Integer(n)
                stops = False
                for y in exits:
                    fs = [f for f in b.facts(y.ctx, ce) if str(f) not in xf]
                    if fs and all(evalc(f, sub) is True for f in fs):
                        stops = True
                        break
                if stops:
                    ctx.ok("count")
                else:
                    ctx.violation("count", f"{row['type']}|{var}", f"{C}: generated {parfile.PARSER}() (parameters: {name}): {pname} declared with {n or 'no'} elements is stored although the {label} in the file is {bad}")
            # and the declared count is accepted
            sub = dict(sub0)
            sub[S("array_size")] = sp.Integer(n)
            sub[S("value_count")] = sp.Integer(n or 1)
            for y in exits:
                fs = [f for f in b.facts(y.ctx, ce) if str(f) not in xf]
                if fs and all(evalc(f, sub) is True for f in fs):
                    ctx.violation("count", f"{row['type']}|refused", f"{C}: {name}: {pname} given with its declared element count is refused")
        # a second definition is refused
        if has([f for f in b.facts(x.ctx, ce)], "ne", r"\[.*index\]") or has([f for f in b.facts(x.ctx, ce)], "eq", r"\[.*index\]"):
            ctx.ok("count")
        else:
            ctx.violation("count", "duplicate", f"{C}: {name}: a second definition of {pname} is not refused")


def fileuse(ctx, name, p):
    b, ce = p.prog, p.main
    for x in ce.events:
        if x.kind == "call" and x.name == "fgets":
            f = ce.as_sym(x.args[2])
            if any(fname(q) == "ne" and f in (sp.expand(q.args[0] + S("NULL")), sp.expand(-q.args[0] + S("NULL")), q.args[0], -q.args[0]) for q in b.facts(x.ctx, ce)):
                ctx.ok("file")
            else:
                ctx.violation("file", "fgets", f"{C}: {name}: lines are read from a file that may not have been opened")


def options(ctx, name, p, cmd):
    """argc and whether argv[1] opens decide everything"""
    n = len(cmd)
    arg = F("fopen")(S("argv[1]"), S('"r"'))
    for argc in range(1, n + 5):
        for opens in ((True, False) if argc >= 2 else (False,)):
            ce = p.run(argc=sp.Integer(argc))
            sub = {arg: sp.Integer(1 if opens else 0), S("NULL"): sp.Integer(0)}

            def tr(f):
                m = fname(f)
                if m in ("and_", "or_"):
                    vs = [tr(a) for a in f.args]
                    if m == "and_":
                        return False if False in vs else (True if all(v is True for v in vs) else None)
                    return True if True in vs else (False if all(v is False for v in vs) else None)
                if "strcmp(argv" in str(f):
                    return {"eq": False, "ne": True}.get(m)
                if m in ("eq", "ne", "lt0"):
                    e = value(f.args[0])
                    if e is None or not e.is_number:
                        return None
                    return {"eq": e == 0, "ne": e != 0, "lt0": bool(e < 0)}[m]
                return None

            def value(e):
                while True:
                    it = next((q for q in sorted(e.atoms(sp.Function), key=lambda q: len(str(q))) if fname(q) == "ite"), None)
                    if it is None:
                        return sp.expand(e.subs(sub))
                    t = tr(it.args[0])
                    if t is None:
                        return None
                    e = e.subs(it, it.args[1] if t else it.args[2])

            used, over, stopped = None, {}, False
            for x in ce.events:
                fs = ce_facts(ce, x)
                if any(tr(f) is False for f in fs):
                    continue
                if x.kind == "call" and x.name in ("exit", "abort") and not any(fname(f) in ("ne",) and "fgets" in str(f) for f in fs):
                    if all(tr(f) is True for f in fs):
                        stopped = True
                        break
                if x.kind == "call" and x.name == "fgets":
                    f = ce.as_sym(x.args[2])
                    while fname(f) == "ite":
                        t = tr(f.args[0])
                        if t is None:
                            raise ValueError(f"file chosen by {f.args[0]}")
                        f = f.args[1] if t else f.args[2]
                    if fname(f) != "fopen":
                        raise ValueError(f"file is {f}")
                    a = f.args[0]
                    while fname(a) == "ite":
                        t = tr(a.args[0])
                        if t is None:
                            raise ValueError(f"file name chosen by {a.args[0]}")
                        a = a.args[1] if t else a.args[2]
                    used = str(a)
            for x, m, _off, j in p.assigns(ce):
                src = [str(a) for a in x.args if "argv" in str(a)]
                if src and not any(tr(f) is False for f in ce_facts(ce, x)) and not stopped:
                    over[m] = src[0]
            want_file, want_over, want_stop = None, {}, False
            ov = [c for c in cmd]
            if argc == 1:
                want_file = '"PROJ.par"'
            elif argc == 2 and opens:
                want_file = "argv[1]"
            elif argc == 1 + n and n:
                want_file, want_over = '"PROJ.par"', {c: f"argv[{1 + i}]" for i, c in enumerate(ov)}
            elif argc == 2 + n and opens:
                want_file, want_over = "argv[1]", {c: f"argv[{2 + i}]" for i, c in enumerate(ov)}
            else:
                want_stop = True
            if want_stop and used is None and not over:
                ctx.ok("options")
                continue
            got = (None, {}) if stopped else (used, over)
            if got != (want_file, want_over):
                ctx.violation(
                    "options",
                    f"argc={'1' if argc == 1 else '1+n' if argc == 1 + n else '2+n' if argc == 2 + n else '2' if argc == 2 else 'other'}",
                    f"{C}: generated {parfile.PARSER}() with {n} overridable parameters {cmd}, argc={argc}, argv[1] {'opens' if opens else 'does not open'}: reads {got[0] or 'nothing'} with overrides {got[1]}; documented: {want_file or 'stop with usage'} with {want_over}",
                )
            else:
                ctx.ok("options")


def ce_facts(ce, x):
    from sa.cbuf import facts_of

    return facts_of(x.ctx, ce)
