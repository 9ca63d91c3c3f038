"""P18: generated code is well formed for every option combination."""

import ast
import re
import subprocess
import tempfile
from collections import defaultdict

from sa import ctext, templates
from sa.ctext import vtext, walk
from sa.templates import pmap

FMT = {
    "printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "sscanf": 1, "fscanf": 1, "scanf": 0,
    "CCTK_VINFO": 0, "CCTK_VWARN": 1, "CCTK_VERROR": 0, "CCTK_VPARAMWARN": 0, "CkPrintf": 0, "CkAbort": 0, "CCTK_VWarn": 4,
}
CONV = re.compile(r"%(?:%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|q|j|z|t)?([diouxXeEfFgGaAcspn]|\[\^?\]?[^\]]*\]))")


def strval(e):
    """concatenated string literal -> text, else None"""
    if e.k != "str":
        return None
    parts = re.findall(r'"((?:[^"\\]|\\.)*)"', e.v, re.S)
    return "".join(parts)


def conversions(fmt, scan):
    out = []
    for m in CONV.finditer(fmt):
        if m.group(0) == "%%":
            continue
        if scan:
            if m.group(2) == "*":
                continue
        else:
            if m.group(2) == "*":
                out.append("*")
            if m.group(3) == "*":
                out.append("*")
        out.append((m.group(4) or "") + m.group(5)[0])
    return out


INTT = {"int", "char", "bool", "short", "long", "size_t", "int8_t", "CCTK_INT", "unsigned", "long long"}
FLT = {"REAL", "double", "float", "CCTK_REAL", "CCTK_REAL"}


def kind_of(e, env):
    while e.k == "paren":
        e = e.e
    if e.k == "num":
        return "float" if re.search(r"[.]|[0-9][eE]", e.v) and not e.v.lower().startswith("0x") else "int"
    if e.k == "str":
        return "str"
    if e.k == "cast":
        t = e.type.replace("const", "").strip()
        if t.endswith("*"):
            return "ptr"
        w = t.split()[-1] if t else ""
        return "float" if w in FLT else ("int" if w in INTT else None)
    if e.k == "id":
        return env.get(e.name)
    if e.k == "un" and e.op in ("-", "+"):
        return kind_of(e.e, env)
    if e.k == "bin" and e.op in ("+", "-", "*", "/"):
        a, b = kind_of(e.a, env), kind_of(e.b, env)
        if "float" in (a, b):
            return "float"
        if a == b == "int":
            return "int"
    return None


def type_env(nodes, params):
    env = {}
    clash = set()

    def put(n, k):
        if n in env and env[n] != k:
            clash.add(n)
        env[n] = k

    for p in ctext.split_params(params):
        m = re.search(r"(\w+)\s*(\[[^\]]*\])*\s*$", p)
        if m:
            ty = p[: m.start()]
            w = re.findall(r"\w+", ty)
            if "*" in ty or m.group(2):
                put(m.group(1), "str" if "char" in w else "ptr")
            else:
                put(m.group(1), "float" if set(w) & FLT else ("int" if set(w) & INTT else None))
    for n in walk(nodes):
        if n.k == "decl":
            w = set(n.type.split())
            for d in n.decls:
                if d.dims or d.ptr:
                    put(d.name, "str" if "char" in w and not (d.dims and d.ptr) and len(d.dims or []) < 2 else "ptr")
                else:
                    put(d.name, "float" if w & FLT else ("int" if w & INTT else None))
    for c in clash:
        env[c] = None
    return env


def analyse(item):
    """item: (where, parts [(label,text,params)], cond) -> findings and calls"""
    where, parts, cond, infra, cxx = item
    out = dict(where=where, bad=[], calls=[], funcs={}, nstmt=0, nfmt=0, infra=infra)
    for label, text, params in parts:
        if not text:
            continue
        b = ctext.balance(text)
        if b:
            out["bad"].append(("balance", f"{where} ({label})", f"{b} when {cond[:300]}"))
            continue
        if label.endswith(".ci"):
            continue
        nodes, _ = ctext.parse(text)
        scan_nodes(nodes, type_env([n for n in nodes if n.k != "func"], params), out, where, label, text, params, cxx, cond)
    return out


def ptext(ps):
    return ps if isinstance(ps, str) else " ".join(getattr(t, "s", str(t)) for t in ps or [])


def own_nodes(nodes):
    """walk without entering function definitions"""
    for n in nodes:
        if n.k == "func":
            yield n
            continue
        for m in walk([n]):
            yield m


def scan_nodes(nodes, env, out, where, label, text, params, cxx, cond):
    for n in own_nodes(nodes):
        if n.k == "raw":
            toks = [t.s for t in n.toks]
            out["bad"].append(("parse?", f"{where} ({label})", (" ".join(toks)[:160], text, params, cxx, cond[:300])))
        elif n.k == "un" and n.op == "*" and n.e.k == "id" and env.get(n.e.name) in ("float", "int"):
            out["bad"].append(("deref", f"{where} ({label}): *{n.e.name}", f"'{n.e.name}' is declared as a number but dereferenced; when {cond[:200]}"))
        elif n.k == "func":
            ps = n.params
            out["funcs"].setdefault(n.name, set()).add(None if ps is None else arity(ptext(ps)))
            scan_nodes(n.body, type_env(n.body, ptext(ps)), out, where, label, text, params, cxx, cond)
        elif n.k == "call" and n.f.k == "id":
            nm = n.f.name
            out["calls"].append((nm, [vtext(a) for a in n.args], label))
            if nm in FMT and len(n.args) > FMT[nm]:
                f = n.args[FMT[nm]]
                fs = strval(f)
                if fs is None or re.search(r"zH\d+z|zC\d+z", f.v) or re.search(r'"\s*[A-Za-z_]\w*\s*"', f.v):
                    continue
                out["nfmt"] += 1
                scan = "scanf" in nm
                cv = conversions(fs, scan)
                args = n.args[FMT[nm] + 1 :]
                nh = any(re.fullmatch(r"zH\d+z", vtext(a)) for a in args)
                if len(cv) != len(args) and not nh:
                    out["bad"].append(("format", f"{where} ({label}): {fs[:60]}", f"{nm} format consumes {len(cv)} arguments, {len(args)} are supplied: {vtext(n)[:200]}"))
                elif not scan and not nh:
                    for c, a in zip(cv, args):
                        k = kind_of(a, env)
                        want = "int" if c[-1] in "diouxXc*" else ("float" if c[-1] in "eEfFgGaA" else ("str" if c[-1] == "s" else None))
                        if k and want and k != want and not (want == "str" and k == "ptr"):
                            out["bad"].append(("format", f"{where} ({label}): {fs[:60]}", f"{nm} conversion %{c} is given {vtext(a)} which is {k}"))
        if n.k in ("expr", "decl", "for", "if", "return", "while", "macroloop"):
            out["nstmt"] += 1


def example_protos():
    """name -> params of functions an example driver registers itself"""
    P = templates.prog()
    out = {}
    for m in sorted(P.paths):
        if not m.startswith("nrpy.examples"):
            continue
        for q, f in P.functions(m):
            d = {}
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("name", "params"):
                    d[n.targets[0].id] = lit(n.value)
                elif isinstance(n, ast.keyword) and n.arg in ("name", "params"):
                    v = lit(n.value)
                    if v is not None:
                        d[n.arg] = v
            if d.get("name") and d.get("params") is not None:
                out.setdefault("ex:" + m, {}).setdefault(d["name"], set()).add(d["params"])
    return out


def arity(ptext):
    return len(ctext.split_params(ptext))


def clang_parse_error(text, params, cxx):
    """Confirm an unparseable statement with clang's parser (syntax category only)."""
    ids = set(re.findall(r"\b([A-Za-z_]\w*_struct(?:_\w+)?|\w+_t)\b", text + " " + params))
    ids |= {"REAL", "REAL_SIMD_ARRAY", "CCTK_REAL", "CCTK_INT", "FILE"} | set(re.findall(r"\bconst\s+([A-Za-z_]\w*)\s*[*&]?\s*(?:restrict\s+)?\w", text))
    ids -= {"const", "struct", "int", "double", "float", "char", "unsigned", "void", "long", "bool", "auto", "short", "size_t", "std"}
    src = "\n".join(f"typedef double {i};" for i in sorted(ids)) + "\ntypedef unsigned long size_t; typedef _Bool bool;\n#define restrict\n" + f"void zz_f(void) {{\n{text}\n}}\n"
    if cxx:
        src = src.replace("typedef _Bool bool;", "")
    with tempfile.NamedTemporaryFile("w", suffix=".cpp" if cxx else ".c") as f:
        f.write(src)
        f.flush()
        p = subprocess.run(["clang++" if cxx else "clang", "-fsyntax-only", "-ferror-limit=0", "-fdiagnostics-show-category=name", "-w", f.name], capture_output=True, text=True)
    errs = [l for l in p.stderr.splitlines() if "error:" in l and "[Parse Issue]" in l and not re.search(r"unknown type name", l)]
    return errs


def example_strings():
    """C call strings passed by the example drivers (rhs_string, post_rhs_string, ...)."""
    P = templates.prog()
    out = []
    for m in sorted(P.paths):
        if not m.startswith("nrpy.examples"):
            continue
        infra = "superB" if "superB" in m else ("BHaH" if "carpet" not in m else "ET")
        t = P.tree(m)
        for n in ast.walk(t):
            if isinstance(n, (ast.keyword, ast.Assign)):
                nm = n.arg if isinstance(n, ast.keyword) else (n.targets[0].id if isinstance(n.targets[0], ast.Name) else "")
                if nm and ("_string" in nm or nm.endswith("_str") or nm.startswith(("pre_", "post_"))):
                    txt = lit(n.value)
                    if txt and "(" in txt and ";" in txt:
                        out.append((m, nm, txt, infra))
    return out


def lit(v):
    if isinstance(v, ast.Constant) and isinstance(v.value, str):
        return v.value
    if isinstance(v, ast.JoinedStr):
        return "".join(x.value if isinstance(x, ast.Constant) else "zH0z" for x in v.values)
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        a, b = lit(v.left), lit(v.right)
        return None if a is None or b is None else a + b
    return None


def base_ident(t):
    t = t.strip()
    t = re.sub(r"^\(?[&*]+", "", t)
    m = re.fullmatch(r"(?:\w+(?:\[[^\]]*\])?(?:\.|->))*(\w+)", t)
    return m.group(1) if m else None


def pnames(params):
    out = []
    for p in ctext.split_params(params):
        p = re.sub(r"\[[^\]]*\]", "", p)
        m = re.findall(r"\w+", p)
        out.append((m[-1], "".join(re.findall(r"[A-Za-z_]\w*|\*", p[: p.rfind(m[-1])])).replace("const", "").replace("restrict", "").replace("MAYBE_UNUSED", "")) if m else ("?", "?"))
    return out


def run(ctx):
    for r, t in dict(
        balance="brackets, quotes and conditional directives of every emitted text balance on every generator path",
        syntax="every emitted statement parses (own parser; reported only if clang's parser also rejects the text)",
        arity="a call of a generated or file-local function passes as many arguments as (one variant of) the callee declares",
        order="an argument carrying the name of one callee parameter is not passed in the place of another of different type",
        deref="the operand of a unary * is not a variable declared as a plain number",
        format="printf/scanf-family calls with literal formats supply the consumed number and kinds of arguments",
        generation="generators do not fail with TypeError/KeyError/NameError/... on any analysed path",
    ).items():
        ctx.rule(r, t)
    res = templates.collect(max_paths=400 if ctx.thorough else 160)
    files = templates.collect_files(max_paths=256 if ctx.thorough else 96)
    errs = [r["qual"] for r in res + files if r.get("error")]
    ctx.require(len(errs) <= 2, f"generators could not be analysed: {errs[:5]}")
    items, seen = [], {}
    protos = defaultdict(lambda: defaultdict(set))  # infra -> name -> {params}
    for k, d in example_protos().items():
        for nm, v in d.items():
            protos[k][nm] |= v
    for r in res:
        ctx.ok("generators")
        ctx.ok("paths", r["npaths"])
        for kind, exc, cond in r["outcomes"]:
            if kind == "raise" and exc and (exc[0] in ("NameError", "UnboundLocalError") or (exc[1] and str(exc[1][0]).strip("'\"").startswith("!"))):
                ctx.violation("generation", f"{r['qual']}", f"{exc[0]} {exc[1]} when {cond[:200]}")
        for g in r["regs"]:
            if not re.search(r"zH\d+z", g.params):
                protos[g.infra][g.name].add(re.sub(r"\s+", " ", g.params.strip()))
            else:
                protos[g.infra][g.name].add("?")
            key = (g.mod, g.name, g.prefunc, g.params, g.body)
            if key in seen:
                continue
            seen[key] = 1
            items.append((g.where(), [("prefunc", g.prefunc, ""), ("body", g.body, g.params)], g.cond, g.infra, g.infra in ("CarpetX", "superB")))
    for r in files:
        ctx.ok("generators")
        ctx.ok("paths", r["npaths"])
        for f in r["files"]:
            if f.name.endswith((".h", ".c", ".cpp", ".ci")):
                items.append((f.where(), [(f.name, f.text, "")], f.cond, f.infra, True))
    for o in [x for r in res for x in r["others"]]:
        if o["kind"] == "register_defines":
            for v in o["args"].values():
                if isinstance(v, str) and ("{" in v or "#" in v):
                    items.append((f"{o['mod'].replace('nrpy.infrastructures.','')}:{o['entry']} -> BHaH_defines", [("defines", v, "")], o["cond"], templates.infra_of(o["mod"]), False))
    exs = example_strings()
    for m, nm, txt, infra in exs:
        items.append((f"{m}:{nm}", [("string", txt, "")], "", f"ex:{m}|{infra}", False))
    results = pmap(analyse, items)
    parse_q = []
    for x in results:
        ctx.ok("texts")
        ctx.ok("statements", x["nstmt"])
        ctx.ok("format", x["nfmt"])
        for rule, c, msg in x["bad"]:
            if rule == "parse?":
                parse_q.append((c, msg))
            else:
                ctx.violation(rule, c, msg)
    doneq = set()
    for c, (snip, text, params, cxx, cond) in parse_q:
        if (c, snip) in doneq:
            continue
        doneq.add((c, snip))
        errs = clang_parse_error(text, params, cxx)
        ctx.ok("raw-statements")
        if errs:
            ctx.violation("syntax", f"{c}", f"cannot be parsed: {snip!r}; clang: {errs[0].split('error:')[1].strip()}; when {cond}")
    # calls
    def variants(infra, name):
        if infra.startswith("ex:"):
            own, _, infra = infra.partition("|")
            if protos[own].get(name):
                return protos[own][name]
        order = {"superB": ["superB", "BHaH"], "BHaH": ["BHaH"], "CarpetX": ["CarpetX"], "ETLegacy": ["ETLegacy"], "ET": []}.get(infra, [infra])
        out = set()
        for i in order:
            out |= protos[i].get(name, set())
        return out

    for x in results:
        for nm, args, label in x["calls"]:
            if nm in x["funcs"]:
                ars = x["funcs"][nm]
                if None in ars:
                    continue
                ctx.ok("arity")
                if len(args) not in ars:
                    ctx.violation("arity", f"{x['where']}: {nm}", f"file-local {nm} declared with {sorted(ars)} parameters is called with {len(args)}: {nm}({', '.join(args)})"[:300])
                continue
            vs = variants(x["infra"], nm)
            if not vs or "?" in vs:
                continue
            ctx.ok("arity")
            ars = {arity(v) for v in vs}
            if len(args) not in ars:
                ctx.violation("arity", f"{x['where']}: {nm}", f"{nm} declares {sorted(ars)} parameters, called with {len(args)}: {nm}({', '.join(args)})"[:300])
                continue
            match = [v for v in vs if arity(v) == len(args)]
            bi = [base_ident(a) for a in args]

            def bad_for(v):
                pn = pnames(v)
                names = [p[0] for p in pn]
                for i, b in enumerate(bi):
                    if b in names and names[i] != b:
                        j = names.index(b)
                        if pn[i][1] != pn[j][1] or (bi[j] in names and names[j] != bi[j]):
                            return f"argument {i+1} is '{args[i]}' but parameter {i+1} is '{pn[i][0]}' ('{b}' is parameter {j+1})"
                return None

            ctx.ok("order")
            bads = [bad_for(v) for v in match]
            if all(bads):
                ctx.violation("order", f"{x['where']}: {nm}", f"{bads[0]}: {nm}({', '.join(args)})"[:300])
    ctx.notes.append(f"{len(exs)} driver strings from the examples were included")
    ctx.floor("generators", 150)
    ctx.floor("texts", 800)
    ctx.floor("statements", 30000)
    ctx.floor("arity", 200)
    ctx.floor("format", 100)
