"""P05: caches hand back what was stored for that input; conditionally updated files are exact."""

import ast
import itertools
import re

from sa import templates, vfs
from sa.absint import AnalysisError, BUILTIN_REPO_MODELS, Cls, Dom, Exc, Interp, Inst, PyRaise, Sym, vkey

CF = "nrpy.helpers.cached_functions"
GEN = "nrpy.helpers.generic"
CFU = "nrpy.helpers.conditional_file_updater"


class V(Dom):
    """opaque value; several distinct values may print alike (symbols with other assumptions)"""

    def __init__(self, tag, shown=None):
        self.tag, self.shown = tag, shown or tag

    def __repr__(self):
        return f"V<{self.tag}>"

    def __str__(self):
        return self.shown

    def __eq__(self, o):
        return isinstance(o, V) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


ZERO = V("0")


def interp(fs, **models):
    em = fs.models()
    em["sympy.sympify"] = lambda I, a, k, n: ZERO if a[0] in (0, "0") else V(f"sympify({a[0]})")
    em["sympy.simplify"] = lambda I, a, k, n: V(f"simplify({a[0].tag})")
    em["sympy.Integer"] = em["sympy.sympify"]
    I = Interp(templates.prog(), opaque=(), ext_models=em, open_registries=False, max_paths=2, host_modules=())
    I.models = dict(models)
    I.mods = {}
    I.patterns = [(re.compile(r".*(isatty|sys\.std(out|err)|os\.environ|sys\.platform)"), False)]
    return I


def attr(I, mod, name):
    return I.getattr(I.module(mod), name)


def call(I, mod, name, *a, **k):
    """outcome of one call: ("return", v) or ("raise", name)"""
    try:
        return "return", I.call(attr(I, mod, name), list(a), k, None)
    except PyRaise as e:
        return "raise", e.exc.name


L = "x" * 5000
IDS = ["", "a", "b", "A", "ab", "ba", " a", "a ", "a\n", "\ta", "a b", "a  b", "é", "e", L + "1", L + "2", "1" + L, "2" + L, L[:2000] + "1" + L[:2000], L[:2000] + "2" + L[:2000], "// c\nint x;", "int x;", "x/y", "x.y", "x_y"]


def decided(I, what):
    if I.trace.decisions:
        raise AnalysisError(f"{what}: undetermined test {I.trace.decisions[0][0][:80]}")


def states_ok(fs, value, old=()):
    """(paths holding the value, paths that ever showed something else than absent/old/complete)"""
    want = (vfs.Blob(value),)
    fin = [p for p, c in fs.files.items() if tuple(c) == want]
    bad = [p for p in fin if any(s is not None and s != want and s not in old for s in fs.observed.get(p, []))]
    return fin, bad


# ---------------------------------------------------------------- the cache itself
def store(ctx):
    # keys
    fs = vfs.FS()
    I = interp(fs)
    names = {}
    for u in IDS:
        r = call(I, CF, "cache_file", u)
        if r[0] != "return":
            raise AnalysisError(f"cache_file: {r}")
        again = call(interp(vfs.FS(pid=77)), CF, "cache_file", u)
        if str(again[1]) != str(r[1]):
            ctx.violation("key", "cache_file|unstable", f"cache_file does not name the same file for the same identifier in another process: {r[1]} / {again[1]}")
        else:
            ctx.ok("key")
        names.setdefault(str(r[1]), []).append(u)
    for us in names.values():
        if len(us) > 1:
            ctx.violation("key", "cache_file|collision", f"cache_file: different identifiers share one cache file: {[u if len(u) < 20 else u[:4] + '...' + u[-4:] for u in us[:3]]}")
        else:
            ctx.ok("key")
    # write / read
    d1, d2, d3 = V("DATA1"), V("DATA2"), V("DATA3")
    for u, w in [("a", "b"), (L + "1", L + "2")]:
        fs = vfs.FS()
        I = interp(fs)
        if call(I, CF, "is_cached", u) != ("return", False):
            ctx.violation("roundtrip", "is_cached|empty", "is_cached reports an entry in an empty cache")
        seq = [("w", u, d1), ("w", w, d2), ("w", u, d3), ("w", w, d2)]
        cur = {}
        for _, key, d in seq:
            fs.observed.clear()
            before = {p: tuple(c) for p, c in fs.files.items()}
            r = call(I, CF, "write_cached", key, d)
            if r[0] != "return":
                raise AnalysisError(f"write_cached: {r}")
            fin, bad = states_ok(fs, d, set(before.values()))
            if not fin:
                ctx.violation("roundtrip", "write_cached|lost", "write_cached returns but no file holds the value")
                return
            for p in bad:
                st = [s for s in fs.observed[p] if s is not None and s not in before.values()]
                ctx.violation("atomic", "write_cached", f"write_cached: the cache file itself is opened for writing, so a reader (or a crash) between {fs.log[0][0]} and close sees it {'empty' if st[0] == () else 'partly written'}")
            if not bad:
                ctx.ok("atomic")
            cur[key] = d
            for k2 in (u, w):
                got = call(I, CF, "read_cached", k2) if call(I, CF, "is_cached", k2) == ("return", True) else None
                want = ("return", cur[k2]) if k2 in cur else None
                if got != want:
                    ctx.violation("roundtrip", "read_cached", f"after write_cached({[x[1][-3:] for x in seq]}...), reading {k2[-3:]!r} gives {got}, stored was {want}")
                else:
                    ctx.ok("roundtrip")
        decided(I, "cache")
    # two processes never share a scratch file
    tmps = []
    for pid in (11, 22):
        fs = vfs.FS(pid=pid)
        call(interp(fs), CF, "write_cached", "a", d1)
        fin, _ = states_ok(fs, d1)
        tmps.append({e[1] for e in fs.log if e[0] in ("create", "write")} - set(fin))
    if tmps[0] & tmps[1]:
        ctx.violation("atomic", "write_cached|shared scratch", f"two processes storing the same entry write the same scratch file {sorted(tmps[0] & tmps[1])[0]}")
    else:
        ctx.ok("atomic")


def formatter(ctx):
    texts = [t for t in IDS if t]
    opts = ["-style=A", "-style=B", "-style=A ", "-style={BasedOnStyle: LLVM, ColumnLimit: 150}"]
    fs = vfs.FS()
    I = interp(fs)
    cold = {}
    for o in opts:
        for t in texts:
            n = len(fs.popen)
            fs.observed.clear()
            before = {p: tuple(c) for p, c in fs.files.items()}
            r = call(I, GEN, "clang_format", t, o)
            decided(I, "clang_format")
            if r[0] != "return":
                raise AnalysisError(f"clang_format: {r}")
            if len(fs.popen) == n:
                ctx.violation("key", "clang_format", f"clang_format answers from the cache for a text and options it has not formatted before (options {o!r}, text {t[:6]!r}...{t[-4:]!r})")
                continue
            args, data = fs.popen[-1]
            d = data.encode() if isinstance(data, str) else data
            if d != t.encode() or o not in args:
                ctx.violation("key", "clang_format|input", f"clang_format hands the formatter {args}, not the text and options it was given")
            ctx.ok("key")
            cold[t, o] = r[1]
            for p, sts in fs.observed.items():
                fin = tuple(fs.files.get(p, ()))
                if p in fs.files and any(s is not None and s != fin and s != before.get(p) for s in sts):
                    ctx.violation("atomic", "clang_format", "clang_format's cache entry is visible while partly written")
    for (t, o), v in cold.items():
        r = call(I, GEN, "clang_format", t, o)
        if r != ("return", v):
            ctx.violation("roundtrip", "clang_format", f"clang_format: the cached answer for options {o!r} is not what the formatter returned")
        else:
            ctx.ok("roundtrip")
    if call(I, GEN, "clang_format", "int x;") != ("return", cold["int x;", opts[-1]]) and call(interp(vfs.FS()), GEN, "clang_format", "int x;")[0] != "return":
        ctx.violation("roundtrip", "clang_format|default", "clang_format: the default options do not work")
    # failure of the formatter is reported and not remembered
    fs = vfs.FS()
    fs.rc = 1
    I = interp(fs)
    r = call(I, GEN, "clang_format", "int x;", opts[0])
    if r[0] == "return":
        ctx.violation("failure", "clang_format", "clang_format returns text although the formatter failed")
    else:
        ctx.ok("failure")
    fs.rc = 0
    r2 = call(I, GEN, "clang_format", "int x;", opts[0])
    if r2 != ("return", cold["int x;", opts[0]]):
        ctx.violation("failure", "clang_format|remembered", f"clang_format: after one failed run the next call gives {r2}")
    else:
        ctx.ok("failure")


def simplifier(ctx):
    es = [V("E1", "x + y"), V("E2", "x + y"), V("E3", "x*y"), ZERO, V("E4" + L)]
    fs = vfs.FS()
    I = interp(fs)
    for rnd in ("cold", "warm", "warm"):
        for e in es:
            fs.observed.clear()
            want = ZERO if e is ZERO else V(f"simplify({e.tag})")
            r = call(I, CF, "cached_simplify", e)
            decided(I, "cached_simplify")
            if r != ("return", want):
                ctx.violation("roundtrip", "cached_simplify", f"cached_simplify ({rnd} cache): for {e!r:.20} gives {str(r)[:60]}, not the simplification of that expression (expressions that print alike may differ)")
            else:
                ctx.ok("roundtrip")
            for p, sts in fs.observed.items():
                fin = tuple(fs.files.get(p, ()))
                if p in fs.files and any(s is not None and s != fin for s in sts):
                    ctx.violation("atomic", "cached_simplify", "cached_simplify: the cache file itself is opened for writing, so a concurrent reader (or a crash) sees it empty or partly written")
                else:
                    ctx.ok("atomic")
    names = dict(fs.files)
    # unreadable entries
    for torn in ([], [("part", 1)], ["text"]):
        fs = vfs.FS({p: torn for p in names})
        r = call(interp(fs), CF, "cached_simplify", es[0])
        if r[0] == "return" and r[1] != V("simplify(E1)"):
            ctx.violation("unreadable", "cached_simplify", f"cached_simplify: from an unreadable cache entry it returns {str(r[1])[:60]}")
        else:
            ctx.ok("unreadable")
    # what cannot be serialised
    fs = vfs.FS()
    fs.unpicklable = {es[0]}
    r = call(interp(fs), CF, "cached_simplify", es[0])
    if r != ("return", V("simplify(E1)")):
        ctx.violation("failure", "cached_simplify|unpicklable", f"cached_simplify: an expression that cannot be pickled gives {r}")
    else:
        ctx.ok("failure")
    # two processes
    tmps = []
    for pid in (11, 22):
        fs = vfs.FS(pid=pid)
        call(interp(fs), CF, "cached_simplify", es[0])
        tmps.append({e[1] for e in fs.log if e[0] in ("create", "write")} - set(fs.files))
    if tmps[0] & tmps[1]:
        ctx.violation("atomic", "cached_simplify|shared scratch", "two processes simplifying the same expression write the same scratch file")


# ---------------------------------------------------------------- conditionally updated files
BASE = "int a;\nint b;\n  int c; // é\n"
LONG = "".join(f"line {i};\n" for i in range(3000))
CASES = [
    (None, BASE), (None, LONG), (BASE, BASE), (LONG, LONG), ("", BASE), (BASE, "// x\n"),
    (BASE, BASE.replace("a", "A", 1)), (BASE, BASE.replace("b", "x")), (BASE, BASE.replace("é", "e")), (BASE, BASE.replace("c", "d")),
    (BASE, BASE.replace("\nint", "\n\nint")), (BASE, BASE.replace("int b", "int  b")), (BASE, BASE.replace("  int", " int")), (BASE, BASE.replace("int a;\n", "int a; \n")),
    (BASE, BASE[len("int a;\n"):]), (BASE[len("int a;\n"):], BASE), (BASE, BASE[: -len("// é\n")]), (BASE[: -len("// é\n")], BASE), (BASE, BASE + "int d;\n"), (BASE + "int d;\n", BASE),
    (LONG, LONG[:-3] + "x\n"), (LONG, "x" + LONG[1:]), (LONG, LONG[:15000] + "X" + LONG[15001:]), (BASE, BASE.swapcase()), (BASE, "\n".join(sorted(BASE.splitlines()))),
]


def updater(ctx):
    for (old, new), enc, fmt, verbose, nochange, exc in itertools.product(CASES, (None, "utf-8"), (False, True), (False, True), (False, True), (False, True)):
        if (verbose or nochange or fmt) and (enc is None or new is LONG or old is LONG):
            continue
        files = {"/proj/out.c": [old]} if old is not None else {}
        fs = vfs.FS(files)
        I = interp(fs, **{"nrpy.helpers.generic.clang_format": lambda I, f, a, k, n: f"<{a[0] if a else k['c_code_str']}>", "nrpy.helpers.colorize_text.colorize": lambda I, f, a, k, n: a[0]})
        final = f"<{new}>" if fmt else new
        if fmt and old == new:
            fs.files["/proj/out.c"] = [final]
            old = final
        mod = I.module(CFU)
        for nm, val in (("verbose", verbose), ("nochange", nochange)):
            if nm in mod.scope.vars:
                mod.scope.vars[nm] = val
            elif val:
                break
        else:
            u = I.call(attr(I, CFU, "ConditionalFileUpdater"), ["out.c"], {"encoding": enc, "do_format": fmt}, None)
            if not isinstance(u, Inst):
                raise AnalysisError("ConditionalFileUpdater is not a class of the analysed source")
            fd = I.call(u.cls.lookup("__enter__")[0].bind(u), [], {}, None)
            half = len(new) // 2
            for part in (new[:half], new[half:]):
                if exc and part is not new[:half]:
                    break
                w = I.getattr(fd, "write")
                I.call(w, [part], {}, None)
            fs.log.clear()
            fs.observed.clear()
            label = f"encoding {enc}, format {fmt}, verbose {verbose}, dry run {nochange}"
            try:
                r = I.call(u.cls.lookup("__exit__")[0].bind(u), [V("ValueError"), V("exception"), V("traceback")] if exc else [None, None, None], {}, None)
            except PyRaise as e:
                if exc:
                    r = None
                elif nochange:
                    continue
                else:
                    ctx.violation("update", "raises", f"ConditionalFileUpdater raises {e.exc.name} on exit ({label})")
                    continue
            decided(I, "ConditionalFileUpdater")
            touched = [e for e in fs.log if e[0] in ("create", "write", "replace", "unlink")]
            now = "".join(fs.files["/proj/out.c"]) if all(isinstance(x, str) for x in fs.files.get("/proj/out.c", [])) and "/proj/out.c" in fs.files else None
            what = "no file" if old is None else "identical text" if old == final else "other text"
            if exc:
                if touched or now != old:
                    ctx.violation("failed", "written", f"ConditionalFileUpdater: when producing the text fails half way, the partial text is written over the file ({what} before; {label})")
                elif isinstance(r, (bool, int, str)) and r:
                    ctx.violation("failed", "suppressed", "ConditionalFileUpdater.__exit__ suppresses the exception raised while producing the text")
                else:
                    ctx.ok("failed")
                continue
            if nochange:
                if touched:
                    ctx.violation("dry-run", "written", f"ConditionalFileUpdater writes the file in dry-run mode ({label})")
                else:
                    ctx.ok("dry-run")
                continue
            if old == final:
                if touched:
                    ctx.violation("update", "identical", f"ConditionalFileUpdater rewrites a file that already has the text ({label})")
                else:
                    ctx.ok("update")
                continue
            if now != final:
                d = next((i for i, (x, y) in enumerate(zip(now or "", final)) if x != y), min(len(now or ""), len(final)))
                ctx.violation("update", "content", f"ConditionalFileUpdater: the file on disk ({what} before) does not end up with the text written to it: first difference at character {d} ({label})")
            elif set(fs.files) != {"/proj/out.c"}:
                ctx.violation("update", "other files", f"ConditionalFileUpdater leaves other files behind: {sorted(set(fs.files) - {'/proj/out.c'})}")
            else:
                ctx.ok("update")
            encs = {e[3] for e in fs.log if e[0] == "open" and e[1].startswith("/proj/out")}
            if not (encs <= {enc}):
                ctx.violation("encoding", "updater", f"ConditionalFileUpdater opens the file with encoding {encs}, asked for {enc}")
            else:
                ctx.ok("encoding")


def copies(ctx):
    fs = vfs.FS({"/proj/p/inc/b.h": [b"older and longer content of an earlier run"]})
    I = interp(fs)
    names = ["a.h", "b.h", "x.c"]
    r = call(I, GEN, "copy_files", "pk.sub", names, "/proj/p", "inc")
    if r[0] != "return":
        raise AnalysisError(f"copy_files: {r}")
    for n in names:
        got = fs.files.get(f"/proj/p/inc/{n}")
        if got != [f"data[pk.sub:{n}]".encode()]:
            ctx.violation("copy", n, f"copy_files: {n} in the project is not a verbatim copy of the packaged file ({got})")
        else:
            ctx.ok("copy")
    if len(fs.files) != 3:
        ctx.violation("copy", "extra", f"copy_files writes other files: {sorted(fs.files)}")
    r = call(interp(vfs.FS()), GEN, "copy_files", "pk.sub", ["a.h", "missing.h"], "/proj/p", "inc")
    if r[0] == "return":
        ctx.violation("copy", "missing", "copy_files does not report a file the package does not have")
    else:
        ctx.ok("copy")


# ---------------------------------------------------------------- dictionaries of objects
def memo(ctx):
    prog = templates.prog()
    found = 0
    for mod in sorted(prog.paths):
        if not mod.startswith("nrpy.") or ".tests" in mod or ".examples" in mod:
            continue
        tree = prog.tree(mod)
        for c in tree.body:
            if not isinstance(c, ast.ClassDef) or not any("ict" in ast.unparse(b) for b in c.bases):
                continue
            gi = next((f for f in c.body if isinstance(f, ast.FunctionDef) and f.name == "__getitem__"), None)
            if gi is None:
                continue
            found += 1
            if any("Tuple" in ast.unparse(b) for b in c.bases):
                ctx.attempt(f"{mod}.{c.name}", memo_tuple, ctx, mod, c)
            else:
                ctx.attempt(f"{mod}.{c.name}", memo_str, ctx, mod, c, gi)
    ctx.floor("memo", 40)
    if found < 4:
        raise AnalysisError("dictionaries of equation objects not found")


class Built(Dom):
    def __init__(self, kw):
        self.kw = kw

    def __repr__(self):
        return f"Built{self.kw}"


def memo_interp(mod, cname):
    I = Interp(templates.prog(), opaque=(), open_registries=False, max_paths=2, host_modules=("sympy",), max_steps=4_000_000)
    I.models = {k: v for k, v in BUILTIN_REPO_MODELS.items() if False}
    I.models["nrpy.grid.register_gridfunctions_for_single_rank2"] = lambda I, f, a, k, n: None
    m = I.module(mod)
    for nm, v in list(m.scope.vars.items()):
        if isinstance(v, Cls) and v.qual.startswith(mod) and v.node.name != cname:
            init = v.lookup("__init__")
            names = [a.arg for a in init[0].node.args.args][1:] if init else []
            defs = {}
            if init:
                ds = init[0].node.args.defaults
                for a, d in zip(names[len(names) - len(ds):], ds):
                    if isinstance(d, ast.Constant):
                        defs[a] = d.value

            def build(I, f, a, k, n, names=names, defs=defs):
                kw = dict(defs)
                kw.update(dict(zip(names, a)))
                kw.update(k)
                return Built(kw)

            I.models[v.qual] = build
    return I


def memo_str(ctx, mod, c, gi):
    suf = sorted({s for n in ast.walk(c) if isinstance(n, ast.Constant) and isinstance(n.value, str) for s in ("_rfm_precompute", "_RbarDD_gridfunctions", "_T4munu") if s in n.value})
    combos = [s for r in range(len(suf) + 1) for s in itertools.combinations(suf, r)]
    keys = [(b, s) for b in ("Spherical", "SinhCylindrical", "Cartesian") for s in combos]
    short = mod.split(".")[-1]
    for order in (keys, list(reversed(keys)), keys[len(keys) // 2:] + keys[: len(keys) // 2]):
        I = memo_interp(mod, c.name)
        d = I.call(attr(I, mod, c.name), [], {}, None)
        got = {}
        for rnd in (0, 1):
            for b, s in order:
                key = b + "".join(s)
                try:
                    v = I.subscript(d, key, None)
                except PyRaise as e:
                    if b == "Spherical":
                        ctx.violation("memo", f"{short}|{key}|refused", f"{mod}.{c.name}[{key!r}] raises {e.exc.name} (looked up in the order {[x + ''.join(y) for x, y in order[:4]]}...)")
                    ctx.sample(f"refused: {short}[{key}]: {e.exc.name}")
                    continue
                decided(I, f"{short}[{key}]")
                if not isinstance(v, Built):
                    raise AnalysisError(f"{short}[{key}] is {vkey(v)[:60]}")
                kw = v.kw
                flags = {f: kw[f] for f in kw if f.startswith("enable_")}
                want = {f: ("_" + f[len("enable_"):]) in s for f in flags}
                missing = [x for x in s if "enable" + x not in kw]
                cs = next((kw[x] for x in kw if x.startswith("CoordSystem")), None)
                if flags != want or missing or (cs is not None and cs != b):
                    ctx.violation("memo", f"{short}|{key}", f"{mod}.{c.name}[{key!r}] hands out the object built for coordinate system {cs!r} with {flags}")
                elif rnd and got.get(key) is not v:
                    ctx.violation("memo", f"{short}|{key}|rebuilt", f"{mod}.{c.name}[{key!r}]: a second lookup hands out another object")
                else:
                    got[key] = v
                    ctx.ok("memo")


def memo_tuple(ctx, mod, c):
    keys = [(3, 0), (3, 1), (5, 0), (5, -1), (5, 1)]
    short = mod.split(".")[-1]
    for order in (keys, keys[::-1]):
        I = Interp(templates.prog(), opaque=(), open_registries=False, max_paths=2, host_modules=("sympy",), max_steps=4_000_000)
        m = I.module(mod)
        for st in m.tree.body if hasattr(m, "tree") else templates.prog().tree(mod).body:
            if isinstance(st, ast.FunctionDef) and any(isinstance(n, ast.Call) and ast.unparse(n.func) == st.name for n in ast.walk(c)):
                names = [a.arg for a in st.args.args]
                I.models[f"{mod}.{st.name}"] = lambda I, f, a, k, n, names=names: Built({**dict(zip(names, a)), **k})
        d = I.call(attr(I, mod, c.name), [], {}, None)
        for rnd in (0, 1):
            for key in order:
                try:
                    v = I.subscript(d, key, None)
                except PyRaise as e:
                    ctx.violation("memo", f"{short}|{key}|refused", f"{mod}.{c.name}[{key}] raises {e.exc.name} (looked up in the order {order})")
                    continue
                decided(I, f"{short}[{key}]")
                if not isinstance(v, Built):
                    raise AnalysisError(f"{short}[{key}] is {vkey(v)[:60]}")
                if tuple(v.kw.values()) != key and sorted(map(str, v.kw.values())) != sorted(map(str, key)):
                    ctx.violation("memo", f"{short}|{key}", f"{mod}.{c.name}[{key}] hands out the matrix built for {v.kw}")
                elif v.kw.get("stencil_width", key[0]) != key[0]:
                    ctx.violation("memo", f"{short}|{key}", f"{mod}.{c.name}[{key}] hands out the matrix built for {v.kw}")
                else:
                    ctx.ok("memo")


# ---------------------------------------------------------------- keys built from flags
SUF = {"_rfm_precompute": "enable_rfm_precompute", "_RbarDD_gridfunctions": "enable_RbarDD_gridfunctions", "_T4munu": "enable_T4munu"}


class Unknown(Exception):
    pass


def ev(e, env, defs, depth=0):
    if depth > 6:
        raise Unknown
    if isinstance(e, ast.Constant) and isinstance(e.value, (str, bool)):
        return e.value
    if isinstance(e, (ast.Name, ast.Attribute)):
        nm = ast.unparse(e)
        last = nm.split(".")[-1]
        if last in env:
            return env[last]
        if nm in defs:
            ds = defs[nm]
            if len(ds) == 1:
                return ev(ds[0], env, {k: v for k, v in defs.items() if k != nm}, depth + 1)
            raise Unknown
        return "C"
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = ev(e.left, env, defs, depth), ev(e.right, env, defs, depth)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        raise Unknown
    if isinstance(e, ast.IfExp):
        t = ev(e.test, env, defs, depth)
        if not isinstance(t, bool):
            raise Unknown
        return ev(e.body if t else e.orelse, env, defs, depth)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        t = ev(e.operand, env, defs, depth)
        if not isinstance(t, bool):
            raise Unknown
        return not t
    if isinstance(e, ast.BoolOp):
        vs = [ev(v, env, defs, depth) for v in e.values]
        if not all(isinstance(v, bool) for v in vs):
            raise Unknown
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.JoinedStr):
        out = ""
        for v in e.values:
            x = ev(v.value if isinstance(v, ast.FormattedValue) else v, env, defs, depth)
            if not isinstance(x, str):
                raise Unknown
            out += x
        return out
    raise Unknown


def key_sites(ctx):
    prog = templates.prog()
    n = 0
    for mod in sorted(prog.paths):
        if not mod.startswith("nrpy.") or ".tests" in mod:
            continue
        for fn in [f for f in ast.walk(prog.tree(mod)) if isinstance(f, ast.FunctionDef)]:
            defs = {}
            for st in ast.walk(fn):
                if isinstance(st, ast.Assign) and len(st.targets) == 1:
                    defs.setdefault(ast.unparse(st.targets[0]), []).append(st.value)
            for f in SUF.values():  # a flag reassigned locally means what it is assigned
                defs.pop(f, None)
                defs.pop("self." + f, None)
            for s in ast.walk(fn):
                if not isinstance(s, ast.Subscript) or not isinstance(s.ctx, ast.Load):
                    continue
                base = ast.unparse(s.value).split(".")[-1]
                if base not in ("reference_metric", "BSSN_quantities", "BSSN_RHSs", "BSSN_constraints", "ExpansionFunctionTheta"):
                    continue
                idx = s.slice.value if type(s.slice).__name__ == "Index" else s.slice
                for vals in itertools.product((False, True), repeat=3):
                    env = dict(zip(SUF.values(), vals))
                    try:
                        key = ev(idx, env, defs)
                    except Unknown:
                        ctx.sample(f"other key: {mod}:{s.lineno} {ast.unparse(idx)[:60]}")
                        break
                    if not isinstance(key, str):
                        break
                    if vals == (False,) * 3:
                        full = ""
                        for v2 in itertools.product((False, True), repeat=3):
                            try:
                                full += ev(idx, dict(zip(SUF.values(), v2)), defs)
                            except Unknown:
                                pass
                        used = [x for x in SUF if x in full]
                        if not used or all(x in key for x in used):
                            if used and not any(isinstance(y, ast.IfExp) for y in ast.walk(idx)):
                                used = []
                    if not used:
                        break
                    wrong = [x for x in used if (x in key) != env[SUF[x]]]
                    if wrong:
                        ctx.violation("flag keys", f"{mod.replace('nrpy.', '')}|{fn.name}|{base}|{wrong[0]}", f"{prog.rel(mod)}:{s.lineno} {fn.name}: with {env} the key {ast.unparse(idx)[:100]} becomes {key!r}")
                        break
                    ctx.ok("flag keys")
                else:
                    n += 1
    ctx.floor("flag keys", 40)


def run(ctx):
    ctx.rule("cache", "one file per identifier, visible only complete (no writer opens the published name), scratch files private to a process; cold and warm answers equal; failures not remembered; conditional updates exact, untouched when equal or when the producer failed; dictionaries of objects hand out the object built for the key")
    for nm, f in [("store", store), ("formatter", formatter), ("simplifier", simplifier), ("updater", updater), ("copies", copies), ("memo", memo), ("key sites", key_sites)]:
        ctx.attempt(nm, f, ctx)
    for k, v in dict(key=60, roundtrip=60, atomic=4, update=20, failed=20, encoding=20, copy=4).items():
        ctx.floor(k, v)
