"""
Path-sensitive constant / string-template propagation for NRPy's Python generators.

This is an abstract interpreter over the Python *syntax trees* of /repo: nothing of
/repo is ever imported or executed.  The abstract domain is

  * constants            (int, float, str, bool, None and containers of abstract values)
  * ``Sym``              an unknown value with a canonical provenance key
  * ``Tmpl``             a string with literal parts and unknown holes
  * ``Func/Cls/Inst``    program entities; ``Reg`` an open-world registry (module-level
                         container that is filled by client code, contents unknown)

Unknown branch conditions partition the trace: every feasible combination of the
(canonicalised) conditions is analysed separately, so correlated branches stay correlated.
Loops over unknown iterables are analysed for one generic element.
Effects (registrations, writes to registries, ...) are logged per trace.
"""

import ast
import math
import os
import re
import textwrap
from fractions import Fraction
from typing import Any, Callable, Dict, List, Optional, Tuple

REPO = os.environ.get("VERIF_REPO", "/repo")


class DDict(dict):
    """collections.defaultdict"""

    factory = None

    def __reduce__(self):
        return (_mk_ddict, (self.factory, dict(self)))


def _mk_ddict(f, d):
    r = DDict(d)
    r.factory = f
    return r


class AnalysisError(Exception):
    """The analysis could not establish its own preconditions (not a violation)."""


# --------------------------------------------------------------------------- values
class Sym:
    __slots__ = ("key", "hint", "origin")

    def __init__(self, key: str, hint: str = "", origin: Any = None):
        self.key = key
        self.hint = hint
        self.origin = origin

    def __repr__(self):
        return f"<{self.key}>"

    def __hash__(self):
        return hash(("Sym", self.key))

    def __eq__(self, o):
        return isinstance(o, Sym) and o.key == self.key


class Tmpl:
    """String template: tuple of str | Sym parts (no two adjacent str)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out: List[Any] = []
        for p in parts:
            if isinstance(p, Tmpl):
                for q in p.parts:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "T'" + "".join(p if isinstance(p, str) else "{%s}" % p.key for p in self.parts) + "'"

    def __hash__(self):
        return hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, Tmpl) and o.parts == self.parts

    def literal(self):
        return "".join(p for p in self.parts if isinstance(p, str))


def mk(parts):
    t = Tmpl(parts)
    if not t.parts:
        return ""
    if len(t.parts) == 1 and isinstance(t.parts[0], str):
        return t.parts[0]
    return t


def isstr(v):
    return isinstance(v, (str, Tmpl))


class Reg:
    """Open-world registry (contents unknown)."""

    __slots__ = ("key", "kind")

    def __init__(self, key, kind):
        self.key = key
        self.kind = kind

    def __repr__(self):
        return f"<reg {self.key}>"

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Reg) and o.key == self.key


class Func:
    __slots__ = ("node", "mod", "scope", "qual", "self_", "cls", "kind")

    def __init__(self, node, mod, scope, qual, self_=None, cls=None, kind=""):
        self.node, self.mod, self.scope, self.qual = node, mod, scope, qual
        self.self_, self.cls, self.kind = self_, cls, kind

    def bind(self, obj):
        return Func(self.node, self.mod, self.scope, self.qual, obj, self.cls, self.kind)

    def __repr__(self):
        return f"<func {self.qual}>"


class Cls:
    __slots__ = ("node", "mod", "qual", "bases", "scope")

    def __init__(self, node, mod, qual, bases, scope):
        self.node, self.mod, self.qual, self.bases, self.scope = node, mod, qual, bases, scope

    def __repr__(self):
        return f"<class {self.qual}>"

    def lookup(self, name):
        if name in self.scope.vars:
            return self.scope.vars[name], self
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def is_dict(self):
        return any(n.split("[")[0].split(".")[-1].lower() in ("dict", "ordereddict", "defaultdict") for n in self.mro_names()[1:])

    def mro_names(self):
        out = [self.node.name]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro_names()
            elif isinstance(b, Ext):
                out.append(b.name.split(".")[-1])
            else:
                out.append(vkey(b))
        return out


class Inst:
    __slots__ = ("cls", "attrs", "key")
    _n = 0

    def __init__(self, cls, key=None):
        self.cls = cls
        self.attrs: Dict[str, Any] = {}
        Inst._n += 1
        self.key = key or f"{cls.node.name}#{Inst._n}"

    def __repr__(self):
        return f"<inst {self.key}>"


class Mod:
    __slots__ = ("name", "scope", "path", "tree", "loaded")

    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.scope = Scope(None, self)
        self.loaded = False

    def __repr__(self):
        return f"<mod {self.name}>"


class Ext:
    """External (non-repo) dotted entity."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name


class BMeth:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<bm {vkey(self.obj)[:30]}.{self.name}>"


class Exc:
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def __repr__(self):
        return f"<exc {self.name}>"


class Dom:
    """Base of analysis-specific domain values: attributes are assignable, operators are the
    class's own Python operators, dom_isinstance(names) answers isinstance."""

    def dom_isinstance(self, names):
        return type(self).__name__ in names


class Scope:
    __slots__ = ("vars", "parent", "mod", "globals_", "nonlocals")

    def __init__(self, parent, mod):
        self.vars: Dict[str, Any] = {}
        self.parent = parent
        self.mod = mod
        self.globals_ = set()
        self.nonlocals = set()


# --------------------------------------------------------------------------- control
class PyRaise(Exception):
    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node


class _Return(Exception):
    def __init__(self, v, node):
        self.v = v
        self.node = node


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Escape(Exception):
    """control leaving a with-body run inside a generator-based context manager"""

    def __init__(self, inner):
        self.inner = inner


class Budget(Exception):
    pass


def _hh(v):
    import zlib

    t = v if isinstance(v, str) else "".join(p if isinstance(p, str) else "{%s}" % p.key for p in v.parts)
    return "%08x" % zlib.crc32(t.encode())


def vkey(v, depth=0) -> str:
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Tmpl):
        s = "".join(p if isinstance(p, str) else "{%s}" % p.key for p in v.parts)
        if len(s) > 160:
            s = s[:100] + "~" + _hh(v)
        return "T" + repr(s)
    if isinstance(v, str):
        return repr(v) if len(v) < 160 else repr(v[:100]) + "~" + _hh(v)
    if isinstance(v, (list, tuple)):
        if depth > 3:
            return "[..]"
        return ("[" if isinstance(v, list) else "(") + ",".join(vkey(x, depth + 1) for x in v) + ")"
    if isinstance(v, dict):
        if depth > 3:
            return "{..}"
        return "{" + ",".join(f"{vkey(k, depth+1)}:{vkey(x, depth+1)}" for k, x in v.items()) + "}"
    if isinstance(v, (set, frozenset)):
        return "set(" + ",".join(sorted(vkey(x, depth + 1) for x in v)) + ")"
    if isinstance(v, Func):
        return v.qual
    if isinstance(v, (Inst, Reg)):
        return v.key
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, Cls):
        return v.qual
    if isinstance(v, Mod):
        return v.name
    return repr(v)


HOST_PURE = (int, float, str, bool, type(None), Fraction, complex)


def is_concrete(v, depth=0) -> bool:
    if isinstance(v, HOST_PURE):
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return depth < 6 and all(is_concrete(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return depth < 6 and all(is_concrete(k, depth + 1) and is_concrete(x, depth + 1) for k, x in v.items())
    return False


class Program:
    """Parsed repository: modules by dotted name."""

    def __init__(self, root=REPO):
        self.root = root
        self.mods: Dict[str, Mod] = {}
        self.paths: Dict[str, str] = {}
        for base in ("nrpy", "bin"):
            for dp, dn, fn in os.walk(os.path.join(root, base)):
                dn[:] = [d for d in dn if d not in ("__pycache__", "tests")]
                for f in fn:
                    if f.endswith(".py"):
                        p = os.path.join(dp, f)
                        rel = os.path.relpath(p, root)
                        name = rel[:-3].replace(os.sep, ".")
                        if name.endswith(".__init__"):
                            name = name[: -len(".__init__")]
                        self.paths[name] = p
        self._trees: Dict[str, ast.Module] = {}

    def rel(self, modname):
        return os.path.relpath(self.paths[modname], self.root)

    def tree(self, modname) -> ast.Module:
        if modname not in self._trees:
            p = self.paths[modname]
            with open(p, encoding="utf-8") as f:
                src = f.read()
            try:
                self._trees[modname] = ast.parse(src, p)
            except SyntaxError as e:
                raise AnalysisError(f"{p} does not parse: {e}") from e
        return self._trees[modname]

    def functions(self, modname):
        """Yield (qualname, FunctionDef) for all module-level functions and methods."""
        for n in self.tree(modname).body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield n.name, n
            elif isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        yield f"{n.name}.{m.name}", m


class Trace:
    def __init__(self):
        self.decisions: List[Tuple[str, bool]] = []
        self.effects: List[Dict[str, Any]] = []
        self.outcome = None  # ("return", v) | ("raise", Exc) | ("budget", None)
        self.exit_node = None
        self.scope: Optional[Scope] = None

    def effs(self, kind):
        return [e for e in self.effects if e["kind"] == kind]

    def cond(self):
        return " & ".join(("" if b else "!") + k for k, b in self.decisions)


DEFAULT_OPAQUE = (
    "nrpy.equations.",
    "nrpy.reference_metric",
    "nrpy.c_codegen",
    "nrpy.finite_difference",
    "nrpy.validate_expressions",
    "nrpy.indexedexp",
    "nrpy.helpers.cached_functions",
    "nrpy.helpers.jacobians",
    "nrpy.helpers.simd",
    "nrpy.helpers.expression_utils",
    "nrpy.helpers.cse_preprocess_postprocess",
    "nrpy.helpers.colorize_text",
)


class Interp:
    def __init__(
        self,
        prog: Program,
        opaque=DEFAULT_OPAQUE,
        models: Optional[Dict[str, Callable]] = None,
        ext_models: Optional[Dict[str, Callable]] = None,
        max_paths=256,
        max_steps=400000,
        open_registries=True,
        host_modules: Tuple[str, ...] = (),
        unknown_loop_iters=1,
    ):
        self.prog = prog
        self.opaque = tuple(opaque)
        self.models: Dict[str, Callable] = dict(BUILTIN_REPO_MODELS)
        self.models.update(models or {})
        self.ext_models: Dict[str, Callable] = dict(EXT_MODELS)
        self.ext_models.update(ext_models or {})
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.open_registries = open_registries
        self.host_modules = host_modules
        self.host_models: Dict[str, Callable] = {}
        self.unknown_loop_iters = unknown_loop_iters
        self.mods: Dict[str, Mod] = {}
        self.on_attr: Optional[Callable] = None
        self.notes: Dict[str, int] = {}
        self._reset_trace([])
        self.static_forced: Dict[str, bool] = {}
        self.truncated = False
        self.reg_overrides: Dict[str, Any] = {}
        self.patterns: List[Tuple[Any, bool]] = []  # (regex, value) fixing decisions

    # ------------------------------------------------------------------ traces
    def _reset_trace(self, forced):
        Inst._n = 0
        self.trace = Trace()
        self.forced = list(forced)
        self.dpos = 0
        self.dmap: Dict[str, bool] = {}
        self.bound: Dict[str, Any] = {}
        self.neq: Dict[str, set] = {}
        self.steps = 0
        self.depth = 0
        self.callstack: List[str] = []
        self.frames: List[Any] = []
        self.nodestack: List[Any] = []
        self._ctxhook = None

    def decide(self, key: str) -> bool:
        if key in self.dmap:
            return self.dmap[key]
        if key in self.static_forced:
            self.dmap[key] = self.static_forced[key]
            return self.dmap[key]
        for rx, b in self.patterns:
            if rx.match(key):
                self.dmap[key] = b
                return b
        if self.dpos < len(self.forced):
            k, b = self.forced[self.dpos]
            if k != key:  # nondeterminism in the analysis itself
                raise AnalysisError(f"trace replay mismatch: {k!r} vs {key!r}")
        else:
            b = True
        self.dpos += 1
        self.dmap[key] = b
        self.trace.decisions.append((key, b))
        return b

    def decide_eq(self, sym: Sym, const) -> bool:
        if sym.key in self.bound:
            return self.bound[sym.key] == const and type(self.bound[sym.key]) == type(const)
        ck = (type(const).__name__, const)
        if ck in self.neq.get(sym.key, ()):
            return False
        if sym.hint == "bool" and isinstance(const, bool):
            r = self.truth(sym)
            return r == const
        if sym.hint in ("str", "bool", "int", "float") and const is None:
            return False
        if isinstance(const, str) and const != "" and self.dmap.get(f"bool({sym.key})") is False:
            return False
        b = self.decide(f"{sym.key}=={const!r}")
        if b:
            self.bound[sym.key] = const
        else:
            self.neq.setdefault(sym.key, set()).add(ck)
        return b

    def truth(self, v) -> bool:
        v = self.resolve(v)
        if isinstance(v, Sym):
            if ("str", "") in self.neq.get(v.key, ()) and v.hint == "str":
                return True
            b = self.decide(f"bool({v.key})")
            if v.hint == "bool":
                self.bound[v.key] = b
            elif v.hint == "str" and not b:
                self.bound[v.key] = ""
            elif not b and v.hint.startswith("Optional"):
                pass
            return b
        if isinstance(v, Tmpl):
            if v.literal():
                return True
            return self.decide(f"bool({vkey(v)})")
        if isinstance(v, Reg):
            return self.decide(f"bool({v.key})")
        if isinstance(v, (Inst, Func, Cls, Mod, Ext, BMeth, Exc)):
            return True
        try:
            return bool(v)
        except Exception:  # host object without truth value
            return self.decide(f"bool({vkey(v)})")

    def resolve(self, v):
        if isinstance(v, Sym) and v.key in self.bound:
            return self.bound[v.key]
        if isinstance(v, Tmpl) and self.bound:
            if any(isinstance(p, Sym) and p.key in self.bound for p in v.parts):
                return mk(
                    [
                        (self.tostr(self.bound[p.key]) if isinstance(p, Sym) and p.key in self.bound else p)
                        for p in v.parts
                    ]
                )
        return v

    def run(self, entry: Callable[["Interp"], Any], order="dfs") -> List[Trace]:
        """Enumerate traces of entry(interp)."""
        out: List[Trace] = []
        work: List[List[Tuple[str, bool]]] = [[]]
        self.truncated = False
        seenw = 0
        while work:
            if len(out) >= self.max_paths:
                self.truncated = True
                break
            # alternate between depth-first and breadth-first picks for diversity
            if len(out) % 2 == 0:
                forced = work.pop()
            else:
                forced = work.pop(0)
            seenw += 1
            self._reset_trace(forced)
            # fresh module state per trace (module-level containers may be mutated)
            self.mods = {}
            tr = self.trace
            try:
                v = entry(self)
                tr.outcome = ("return", v)
            except PyRaise as e:
                tr.outcome = ("raise", e.exc)
                tr.exit_node = e.node
            except Budget:
                tr.outcome = ("budget", None)
            except RecursionError:
                tr.outcome = ("budget", None)
            out.append(tr)
            for i in range(len(forced), len(tr.decisions)):
                k, b = tr.decisions[i]
                work.append(tr.decisions[:i] + [(k, not b)])
        return out

    def effect(self, kind, node, **data):
        d = dict(kind=kind, node=node, fn=self.callstack[-1] if self.callstack else "<module>", stack=tuple(self.callstack), seq=len(self.trace.effects))
        d.update(data)
        self.trace.effects.append(d)
        return d

    # ------------------------------------------------------------------ modules
    def module(self, name) -> Any:
        if name in self.mods:
            return self.mods[name]
        if name not in self.prog.paths:
            if name == "nrpy" or any(k.startswith(name + ".") for k in self.prog.paths):
                m = Mod(name, None, None)
                m.loaded = True
                self.mods[name] = m
                return m
            return Ext(name)
        m = Mod(name, self.prog.paths[name], self.prog.tree(name))
        self.mods[name] = m
        m.scope.vars["__name__"] = name
        m.scope.vars["__file__"] = m.path
        self.load_module(m)
        return m

    def load_module(self, m: Mod):
        m.loaded = True
        self.callstack.append(f"{m.name}.<module>")
        try:
            for st in m.tree.body:
                if isinstance(st, ast.If) and _is_main_guard(st.test):
                    continue
                try:
                    self.exec(st, m.scope)
                except PyRaise:
                    pass
        finally:
            self.callstack.pop()
        if self.open_registries:
            for k, v in list(m.scope.vars.items()):
                rk = f"{m.name}.{k}"
                if rk in self.reg_overrides:
                    m.scope.vars[k] = self.reg_overrides[rk]
                elif isinstance(v, (dict, list, set)) and not v and not k.startswith("__"):
                    m.scope.vars[k] = Reg(rk, type(v).__name__)

    def func(self, qual: str) -> Func:
        """Resolve 'pkg.mod:func' or 'pkg.mod:Cls.meth'."""
        mname, fname = qual.split(":")
        m = self.module(mname)
        if not isinstance(m, Mod):
            raise AnalysisError(f"module {mname} not found")
        v: Any = m.scope.vars.get(fname.split(".")[0])
        for a in fname.split(".")[1:]:
            r = v.lookup(a) if isinstance(v, Cls) else None
            v = r[0] if r else None
        if not isinstance(v, (Func, Cls)):
            raise AnalysisError(f"anchor {qual} not found")
        return v

    # ------------------------------------------------------------------ lookup
    def lookup(self, name, scope: Scope):
        s: Optional[Scope] = scope
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if name in scope.mod.scope.vars:
            return scope.mod.scope.vars[name]
        if name in PY_BUILTINS:
            return Ext("builtins." + name)
        return None

    def store_name(self, name, val, scope: Scope):
        if name in scope.globals_:
            scope.mod.scope.vars[name] = val
            self.effect("global_store", None, name=f"{scope.mod.name}.{name}", value=val)
            return
        if name in scope.nonlocals:
            s = scope.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = val
                    return
                s = s.parent
        scope.vars[name] = val

    # ------------------------------------------------------------------ exec
    def exec_block(self, stmts, scope):
        for st in stmts:
            self.exec(st, scope)

    def exec(self, st, scope: Scope):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            self.notes["stmt:" + type(st).__name__] = self.notes.get("stmt:" + type(st).__name__, 0) + 1
            return
        self.nodestack.append(st)
        try:
            m(st, scope)
        finally:
            self.nodestack.pop()

    def x_Pass(self, st, scope):
        pass

    def x_Expr(self, st, scope):
        self.eval(st.value, scope)

    def x_Import(self, st, scope):
        for a in st.names:
            top = a.name if a.asname else a.name.split(".")[0]
            if a.name.split(".")[0] in ("nrpy", "bin"):
                v = self.module(a.name)
                if not a.asname:
                    v = self.module(top)
            else:
                v = self.ext(top)
            scope.vars[a.asname or top] = v

    def ext(self, name):
        if name.split(".")[0] in self.host_modules:
            import importlib

            return importlib.import_module(name)
        return Ext(name)

    def x_ImportFrom(self, st, scope):
        modname = st.module or ""
        if st.level:
            base = scope.mod.name.split(".")
            is_pkg = bool(scope.mod.path) and scope.mod.path.endswith("__init__.py")
            base = base[: len(base) - st.level + (1 if is_pkg else 0)]
            modname = ".".join(base + ([modname] if modname else []))
        for a in st.names:
            tgt = a.asname or a.name
            if modname.split(".")[0] in ("nrpy", "bin") or modname in self.prog.paths:
                full = f"{modname}.{a.name}"
                if full in self.prog.paths:
                    scope.vars[tgt] = self.module(full)
                    continue
                m = self.module(modname)
                if isinstance(m, Mod) and a.name in m.scope.vars:
                    scope.vars[tgt] = m.scope.vars[a.name]
                else:
                    scope.vars[tgt] = Sym(full)
            else:
                e = self.ext(modname)
                scope.vars[tgt] = self.getattr(e, a.name) if not isinstance(e, Ext) else Ext(f"{modname}.{a.name}")

    def x_FunctionDef(self, st, scope):
        qual = f"{scope.mod.name}.{st.name}" if scope is scope.mod.scope else f"{(self.callstack or [''])[-1]}.<locals>.{st.name}"
        f = Func(st, scope.mod, scope, qual)
        defaults = st.args.defaults + [d for d in st.args.kw_defaults if d is not None]
        decos = [ast.unparse(d) for d in st.decorator_list]
        if any("staticmethod" in d for d in decos):
            f.kind = "static"
        elif any("classmethod" in d for d in decos):
            f.kind = "class"
        elif any(d == "property" or "cached_property" in d for d in decos):
            f.kind = "property"
        scope.vars[st.name] = f
        for d in reversed(st.decorator_list):
            base = d.func if isinstance(d, ast.Call) else d
            if isinstance(base, ast.Name) and isinstance(scope.lookup_var(base.id) if hasattr(scope, "lookup_var") else self._peek(base.id, scope), Func):
                scope.vars[st.name] = self.call(self.eval(d, scope), [scope.vars[st.name]], {}, st)
            elif isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and isinstance(self._peek(base.value.id, scope), Mod):
                dv = self.eval(d, scope)
                if isinstance(dv, Func):
                    scope.vars[st.name] = self.call(dv, [scope.vars[st.name]], {}, st)

    def _peek(self, name, scope):
        while scope is not None:
            if name in scope.vars:
                return scope.vars[name]
            scope = scope.parent
        return None

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, st, scope):
        bases = [self.eval(b, scope) for b in st.bases]
        cs = Scope(scope, scope.mod)
        qual = f"{scope.mod.name}.{st.name}"
        c = Cls(st, scope.mod, qual, bases, cs)
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.x_FunctionDef(s, cs)
                f = cs.vars[s.name]
                f.qual = f"{qual}.{s.name}"
                f.cls = c
                f.scope = scope
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.ClassDef)):
                self.exec(s, cs)
        scope.vars[st.name] = c

    def x_Return(self, st, scope):
        raise _Return(self.eval(st.value, scope) if st.value else None, st)

    def x_Break(self, st, scope):
        raise _Break()

    def x_Continue(self, st, scope):
        raise _Continue()

    def x_Global(self, st, scope):
        scope.globals_.update(st.names)

    def x_Nonlocal(self, st, scope):
        scope.nonlocals.update(st.names)

    def x_Assert(self, st, scope):
        if not self.truth(self.eval(st.test, scope)):
            raise PyRaise(Exc("AssertionError"), st)

    def x_Delete(self, st, scope):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, scope)
                i = self.eval_index(t.slice, scope)
                if isinstance(o, (dict, list, Dom)):
                    try:
                        del o[i]
                    except (KeyError, IndexError, TypeError):
                        pass
                else:
                    self.effect("reg_del", st, reg=vkey(o), key=i)
            elif isinstance(t, ast.Name):
                scope.vars.pop(t.id, None)

    def x_Raise(self, st, scope):
        if st.exc is None:
            raise PyRaise(getattr(self, "_cur_exc", Exc("Exception")), st)
        v = self.eval(st.exc, scope)
        if isinstance(v, Ext):
            v = Exc(v.name.split(".")[-1])
        if not isinstance(v, Exc):
            v = Exc(vkey(v))
        raise PyRaise(v, st)

    def x_If(self, st, scope):
        if self.truth(self.eval(st.test, scope)):
            self.exec_block(st.body, scope)
        else:
            self.exec_block(st.orelse, scope)

    def x_With(self, st, scope):
        self._with_items(st, list(st.items), scope)

    x_AsyncWith = x_With

    def _with_items(self, st, items, scope):
        if not items:
            self.exec_block(st.body, scope)
            return
        it, rest = items[0], items[1:]
        ce = it.context_expr
        if isinstance(ce, ast.Call):
            fv = self.eval(ce.func, scope) if isinstance(ce.func, (ast.Name, ast.Attribute)) else None
            if isinstance(fv, Func) and not isinstance(fv.node, ast.Lambda) and any("contextmanager" in ast.unparse(d) for d in fv.node.decorator_list):
                self._ctx_gen(st, it, rest, fv, ce, scope)
                return
        v = self.eval(ce, scope)
        w = v
        if isinstance(v, Inst):
            en = v.cls.lookup("__enter__")
            if en and isinstance(en[0], Func):
                w = self.call(en[0].bind(v), [], {}, st)
        elif isinstance(v, Dom) and hasattr(v, "dom_enter"):
            w = v.dom_enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, w, scope, st)
        ex = v.cls.lookup("__exit__") if isinstance(v, Inst) else None
        ex = ex[0].bind(v) if ex and isinstance(ex[0], Func) else None
        if isinstance(v, Dom) and hasattr(v, "dom_exit"):
            try:
                self._with_items(st, rest, scope)
            finally:
                v.dom_exit()
            return
        try:
            self._with_items(st, rest, scope)
        except PyRaise as e:
            if ex is not None:
                r = self.call(ex, [Sym(f"type({e.exc.name})"), e.exc, Sym("traceback")], {}, st)
                if r is not None and self.truth(r):
                    return
            raise
        except (_Return, _Break, _Continue):
            if ex is not None:
                self.call(ex, [None, None, None], {}, st)
            raise
        if ex is not None:
            self.call(ex, [None, None, None], {}, st)

    def _ctx_gen(self, st, it, rest, fv, ce, scope):
        """with over a @contextmanager generator: the with-body runs at the yield"""
        done = []

        def at_yield(val):
            if done:
                raise PyRaise(Exc("RuntimeError", ("generator didn't stop",)), st)
            done.append(1)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, scope, st)
            saved, self._ctxhook = self._ctxhook, None
            cs, self.callstack = self.callstack, list(caller_stack)
            try:
                self._with_items(st, rest, scope)
            except (_Return, _Break, _Continue) as e:
                raise _Escape(e)
            finally:
                self._ctxhook = saved
                self.callstack = cs

        caller_stack = list(self.callstack)
        outer = getattr(self, "_ctxhook", None)
        args = [self.eval(a, scope) for a in ce.args]
        kw = {k.arg: self.eval(k.value, scope) for k in ce.keywords if k.arg}
        self._ctxhook = (fv.node, at_yield)
        try:
            self.call_func(fv, args, kw, ce)
        except _Escape as e:
            raise e.inner
        finally:
            self._ctxhook = outer

    def x_Try(self, st, scope):
        try:
            try:
                self.exec_block(st.body, scope)
            except PyRaise as e:
                for h in st.handlers:
                    if self._matches(h.type, e.exc, scope):
                        if h.name:
                            scope.vars[h.name] = e.exc
                        old = getattr(self, "_cur_exc", None)
                        self._cur_exc = e.exc
                        try:
                            self.exec_block(h.body, scope)
                        finally:
                            self._cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, scope)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, scope)

    def _matches(self, t, exc, scope):
        if t is None:
            return True
        names = [x for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        for n in names:
            nm = ast.unparse(n).split(".")[-1]
            if nm in ("Exception", "BaseException") or nm == exc.name:
                return True
            if nm == "LookupError" and exc.name in ("KeyError", "IndexError"):
                return True
            if nm in ("OSError", "IOError", "EnvironmentError") and exc.name in ("FileNotFoundError", "FileExistsError", "PermissionError", "IsADirectoryError", "OSError"):
                return True
            if nm == "PickleError" and exc.name in ("PicklingError", "UnpicklingError"):
                return True
            if nm == "ValueError" and exc.name in ("UnicodeDecodeError", "UnicodeEncodeError"):
                return True
        return False

    def x_For(self, st, scope):
        it = self.eval(st.iter, scope)
        broke = False
        for el in self.iterate(it, st):
            self.assign(st.target, el, scope, st)
            try:
                self.exec_block(st.body, scope)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.exec_block(st.orelse, scope)

    def x_While(self, st, scope):
        n = 0
        while True:
            c = self.resolve(self.eval(st.test, scope))
            unknown = isinstance(c, Sym)
            if unknown:
                if n >= self.unknown_loop_iters:
                    break
                go = self.truth(c)
            else:
                go = self.truth(c)
            if not go:
                self.exec_block(st.orelse, scope)
                break
            n += 1
            if n > 5000:
                raise Budget()
            try:
                self.exec_block(st.body, scope)
            except _Break:
                break
            except _Continue:
                continue

    def iterate(self, it, node):
        it = self.resolve(it)
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, (set, frozenset)):
            return sorted(it, key=vkey)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, range):
            if len(it) > 20000:
                raise Budget()
            return list(it)
        if isinstance(it, Sym):
            hint = ""
            if it.hint.startswith(("List[str", "Tuple[str", "Sequence[str", "Set[str")):
                hint = "str"
            m = it.origin
            if isinstance(m, tuple) and m[0] in ("items", "enumerate", "zip"):
                return [self.generic_elem(it)]
            return [Sym(f"{it.key}[*]", hint)]
        if isinstance(it, Reg):
            return [Sym(f"{it.key}.key[*]", "str")]
        if isinstance(it, Tmpl):
            return [Sym(f"{vkey(it)}[*]", "str")]
        if isinstance(it, Inst):
            return [Sym(f"{it.key}[*]")]
        if isinstance(it, (Ext, Func, Cls, Mod, BMeth)):
            return [Sym(f"{vkey(it)}[*]")]
        try:
            return list(it)
        except TypeError:
            return [Sym(f"{vkey(it)}[*]")]

    def generic_elem(self, it):
        tag = it.origin[0]
        if tag == "items":
            base = it.origin[1]
            return (Sym(f"{base}.key[*]", "str"), Sym(f"{base}.val[*]"))
        if tag == "enumerate":
            inner = it.origin[1]
            e = self.iterate(inner, None)[0]
            return (Sym(f"idx({vkey(inner)})", "int"), e)
        if tag == "zip":
            return tuple((self.iterate(x, None) or [None])[0] for x in it.origin[1])
        return Sym(it.key + "[*]")

    def x_Assign(self, st, scope):
        v = self.eval(st.value, scope)
        for t in st.targets:
            self.assign(t, v, scope, st)

    def x_AnnAssign(self, st, scope):
        if st.value is not None:
            v = self.eval(st.value, scope)
            if isinstance(v, Sym) and not v.hint:
                v = Sym(v.key, _ann(st.annotation), v.origin)
            self.assign(st.target, v, scope, st)

    def x_AugAssign(self, st, scope):
        cur = self.eval(_load(st.target), scope)
        rhs = self.eval(st.value, scope)
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            r = self.resolve(rhs)
            if isinstance(r, (list, tuple)):
                cur.extend(r)
                self._maybe_regmut(st.target, cur, scope, st)
                return
            cur.extend(self.iterate(r, st))
            return
        if isinstance(cur, Reg):
            self.effect("reg_mut", st, reg=cur.key, op="+=", args=[rhs])
            return
        v = self.binop(st.op, cur, rhs, st)
        self.assign(st.target, v, scope, st)

    def _maybe_regmut(self, *a):
        pass

    def assign(self, t, v, scope, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, scope)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.resolve(v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(vv, (list, tuple)) and (len(vv) == n or star):
                vals = list(vv)
                if star:
                    i = star[0]
                    after = n - i - 1
                    vals = vals[:i] + [vals[i : len(vals) - after]] + vals[len(vals) - after :]
            elif isinstance(vv, (Sym, Reg, Tmpl)):
                vals = [Sym(f"{vkey(vv)}[{i}]") for i in range(n)]
            else:
                try:
                    vals = list(vv)
                except TypeError:
                    vals = [Sym(f"{vkey(vv)}[{i}]") for i in range(n)]
                if len(vals) != n:
                    raise PyRaise(Exc("ValueError"), st)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, scope, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, scope)
            i = self.eval_index(t.slice, scope)
            o = self.resolve(o)
            if isinstance(o, dict):
                try:
                    o[self.resolve(i)] = v
                except TypeError:
                    pass
            elif isinstance(o, list):
                i = self.resolve(i)
                if isinstance(i, (int, slice)):
                    try:
                        o[i] = v
                    except IndexError:
                        raise PyRaise(Exc("IndexError"), st)
                    except (TypeError, ValueError):
                        pass
            elif isinstance(o, Inst) and o.cls.lookup("__setitem__") and isinstance(o.cls.lookup("__setitem__")[0], Func):
                self.call(o.cls.lookup("__setitem__")[0].bind(o), [i, v], {}, st)
            elif isinstance(o, Inst) and o.cls.is_dict():
                o.attrs.setdefault("__data__", {})[self.resolve(i)] = v
            elif isinstance(o, Reg):
                self.effect("reg_set", st, reg=o.key, key=i, value=v)
            elif isinstance(o, Sym):
                self.effect("sym_set", st, reg=o.key, key=i, value=v)
            elif isinstance(o, (tuple, str)):
                raise PyRaise(Exc("TypeError", (f"'{type(o).__name__}' object does not support item assignment",)), st)
            else:
                try:
                    o[i] = v
                except Exception:
                    pass
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, scope)
            if isinstance(o, Inst):
                o.attrs[t.attr] = v
            elif isinstance(o, Mod):
                o.scope.vars[t.attr] = v
                self.effect("mod_set", st, name=f"{o.name}.{t.attr}", value=v)
            elif isinstance(o, Cls):
                o.scope.vars[t.attr] = v
            elif isinstance(o, Dom):
                setattr(o, t.attr, v)
            else:
                self.effect("attr_set", st, obj=o, attr=t.attr, value=v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, scope, st)

    # ------------------------------------------------------------------ eval
    def eval(self, e, scope) -> Any:
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Sym(f"?{ast.unparse(e)}")
        return self.resolve(m(e, scope))

    def e_Constant(self, e, scope):
        return e.value

    def e_Name(self, e, scope):
        v = self.lookup(e.id, scope)
        if v is None:
            # distinguish bound-to-None from unbound
            s = scope
            while s is not None:
                if e.id in s.vars:
                    return None
                s = s.parent
            if e.id in scope.mod.scope.vars:
                return None
            return Sym(f"unbound:{e.id}")
        return v

    def e_JoinedStr(self, e, scope):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, scope)
                spec = self.eval(v.format_spec, scope) if v.format_spec else ""
                if spec and is_concrete(x) and isinstance(spec, str):
                    try:
                        parts.append(format(x, spec))
                        continue
                    except (ValueError, TypeError):
                        pass
                parts.append(self.tostr(x) if not spec else Sym(f"format({vkey(x)},{vkey(spec)})", "str"))
        return mk(parts)

    def tostr(self, x):
        x = self.resolve(x)
        if isstr(x):
            return x
        if isinstance(x, Sym):
            return x
        if isinstance(x, (int, float, bool, type(None), Fraction, complex)):
            return str(x)
        if isinstance(x, (list, tuple, dict)) and is_concrete(x):
            return str(x)
        if isinstance(x, Inst):
            st = x.cls.lookup("__str__")
            if st and isinstance(st[0], Func):
                r = self.call(st[0].bind(x), [], {}, None)
                if isstr(r) or isinstance(r, Sym):
                    return r
        if isinstance(x, (Reg, Func, Cls, Mod, Ext, BMeth, Exc, Inst, list, tuple, dict, set)):
            return Sym(f"str({vkey(x)})", "str")
        return str(x)  # host object

    def e_FormattedValue(self, e, scope):
        return self.tostr(self.eval(e.value, scope))

    def e_Tuple(self, e, scope):
        return tuple(self._elts(e.elts, scope))

    def e_List(self, e, scope):
        return self._elts(e.elts, scope)

    def e_Set(self, e, scope):
        try:
            return set(self._elts(e.elts, scope))
        except TypeError:
            return Sym("set?")

    def _elts(self, elts, scope):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, scope), x))
            else:
                out.append(self.eval(x, scope))
        return out

    def e_Dict(self, e, scope):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, scope)
                if isinstance(o, dict):
                    d.update(o)
                continue
            kk = self.eval(k, scope)
            try:
                d[kk] = self.eval(v, scope)
            except TypeError:
                pass
        return d

    def e_IfExp(self, e, scope):
        return self.eval(e.body if self.truth(self.eval(e.test, scope)) else e.orelse, scope)

    def e_BoolOp(self, e, scope):
        v = None
        for x in e.values:
            v = self.eval(x, scope)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Sym) else False
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, scope):
        v = self.eval(e.operand, scope)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Sym):
            return Sym(f"({type(e.op).__name__} {v.key})", v.hint)
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            return ~v
        except TypeError:
            return Sym(f"({type(e.op).__name__} {vkey(v)})")

    def e_BinOp(self, e, scope):
        return self.binop(e.op, self.eval(e.left, scope), self.eval(e.right, scope), e)

    def binop(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(op, ast.Add):
            if isstr(a) and (isstr(b) or isinstance(b, Sym)):
                return mk([a, b])
            if isinstance(a, Sym) and isstr(b):
                return mk([a, b])
            if isinstance(a, Sym) and isinstance(b, Sym) and "str" in (a.hint, b.hint):
                return mk([a, b])
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, list) and isinstance(b, Sym):
                return a + self.iterate(b, node)
            if isinstance(a, Sym) and isinstance(b, list):
                return self.iterate(a, node) + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.Mod) and isstr(a):
            return self.percent(a, b)
        if isinstance(op, ast.Mult):
            for s, n in ((a, b), (b, a)):
                if isinstance(s, Tmpl) and isinstance(n, int):
                    return mk([s] * n)
                if isinstance(s, (str, list, tuple)) and isinstance(n, Sym):
                    if isinstance(s, list):
                        return Sym(f"({vkey(s)}*{n.key})", "list")
                    return Sym(f"({vkey(s)}*{n.key})", "str" if isstr(s) else "")
        if isinstance(a, (Sym, Tmpl, Reg, Inst, Func, Cls, Ext, Mod, BMeth)) or isinstance(b, (Sym, Tmpl, Reg, Inst, Func, Cls, Ext, Mod, BMeth)):
            if isinstance(a, Inst):
                dn = _DUNDER.get(type(op))
                if dn:
                    mth = a.cls.lookup(dn)
                    if mth and isinstance(mth[0], Func):
                        return self.call(mth[0].bind(a), [b], {}, node)
            return Sym(f"({vkey(a)} {type(op).__name__} {vkey(b)})")
        try:
            return _PYOPS[type(op)](a, b)
        except ZeroDivisionError:
            raise PyRaise(Exc("ZeroDivisionError"), node)
        except Exception:
            return Sym(f"({vkey(a)} {type(op).__name__} {vkey(b)})")

    def percent(self, a, b):
        args = list(b) if isinstance(b, tuple) else [b]
        if isinstance(a, str) and is_concrete(b):
            try:
                return a % b
            except (TypeError, ValueError):
                return Sym(f"({vkey(a)} % {vkey(b)})", "str")
        lit = a if isinstance(a, str) else None
        if lit is None:
            return Sym(f"({vkey(a)} % {vkey(b)})", "str")
        parts = []
        i = 0
        for tok in re.split(r"(%[-+ #0]*\d*(?:\.\d+)?[sdifgeExr%])", lit):
            if re.fullmatch(r"%[-+ #0]*\d*(?:\.\d+)?[sdifgeExr]", tok):
                parts.append(self.tostr(args[i]) if i < len(args) else tok)
                i += 1
            elif tok == "%%":
                parts.append("%")
            else:
                parts.append(tok)
        return mk(parts)

    def e_Compare(self, e, scope):
        left = self.eval(e.left, scope)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, scope)
            res = self.compare(op, left, right, e)
            if not isinstance(res, Sym) and not res:
                return False
            if len(e.ops) > 1 and isinstance(res, Sym):
                if not self.truth(res):
                    return False
                res = True
            left = right
        return res

    def compare(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            r = self.eq(a, b)
            return not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (Sym, Tmpl, Reg, Inst)) or isinstance(b, (Sym, Tmpl, Reg, Inst)):
            ka, kb = vkey(a), vkey(b)
            o = type(op).__name__
            # canonicalise: a<b == b>a ; a>=b == not a<b
            if o == "Gt":
                ka, kb, o = kb, ka, "Lt"
            neg = False
            if o == "GtE":
                o, neg = "Lt", True
            if o == "LtE":
                ka, kb, o, neg = kb, ka, "Lt", True
            r = self.decide(f"{ka} < {kb}")
            return (not r) if neg else r
        try:
            return _CMP[type(op)](a, b)
        except Exception:
            return self.decide(f"{vkey(a)} {type(op).__name__} {vkey(b)}")

    def eq(self, a, b) -> bool:
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.key == b.key:
                return True
            x, y = sorted((a.key, b.key))
            return self.decide(f"{x}=={y}")
        if isinstance(b, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if isinstance(b, HOST_PURE):
                return self.decide_eq(a, b)
            if isinstance(b, (Inst, Func, Cls, Mod, list, dict, tuple)):
                return self.decide(f"{a.key}=={vkey(b)}")
            return self.decide(f"{a.key}=={vkey(b)}")
        if isinstance(b, Tmpl):
            a, b = b, a
        if isinstance(a, Tmpl):
            if isinstance(b, Tmpl):
                if a == b:
                    return True
                return self.decide(f"{vkey(a)}=={vkey(b)}")
            if isinstance(b, str):
                if not _tmpl_may_equal(a, b):
                    return False
                return self.decide(f"{vkey(a)}=={b!r}")
            return False
        if isinstance(a, Reg) or isinstance(b, Reg):
            if a is None or b is None:
                return False
            return a == b or self.decide(f"{vkey(a)}=={vkey(b)}")
        if isinstance(b, Dom) and not isinstance(a, Dom):
            a, b = b, a
        if not isinstance(a, Dom) and (isinstance(a, (Inst, Func, Cls)) or isinstance(b, (Inst, Func, Cls))):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            return False

    def contains(self, cont, x) -> bool:
        cont = self.resolve(cont)
        if isinstance(cont, Inst) and cont.cls.is_dict():
            cont = cont.attrs.setdefault("__data__", {})
        if isinstance(cont, (list, tuple, set, frozenset, dict)):
            elems = list(cont.keys()) if isinstance(cont, dict) else list(cont)
            if isinstance(x, (Sym, Tmpl, Dom)) or any(isinstance(y, (Sym, Tmpl)) for y in elems):
                for y in elems:
                    if self.eq(x, y):
                        return True
                return False
            try:
                return x in cont
            except TypeError:
                return any(x is y for y in elems)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Tmpl) and isinstance(x, str):
            if x in cont.literal() and any(x in p for p in cont.parts if isinstance(p, str)):
                return True
            return self.decide(f"{x!r} in {vkey(cont)}")
        if isinstance(cont, (range,)) and isinstance(x, int):
            return x in cont
        if isinstance(cont, Sym) and isinstance(x, str):
            return self.decide(f"{x!r} in {cont.key}")
        if isinstance(cont, (Sym, Reg, Tmpl, Inst, Ext)) or isinstance(x, (Sym, Tmpl)):
            return self.decide(f"{vkey(x)} in {vkey(cont)}")
        try:
            return x in cont
        except Exception:
            return self.decide(f"{vkey(x)} in {vkey(cont)}")

    def eval_index(self, s, scope):
        if isinstance(s, ast.Slice):
            f = lambda n: self.eval(n, scope) if n is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, scope)

    def e_Subscript(self, e, scope):
        o = self.resolve(self.eval(e.value, scope))
        i = self.eval_index(e.slice, scope)
        return self.subscript(o, i, e)

    def subscript(self, o, i, e):
        i = self.resolve(i)
        if isinstance(i, slice) and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
            return Sym(f"{vkey(o)}[{vkey(i.start)}:{vkey(i.stop)}]", "str" if isstr(o) else "")
        if isinstance(o, dict):
            if isinstance(i, (Sym, Tmpl)):
                if i in o:
                    return o[i]
                # case split over known keys
                for k in list(o):
                    if isinstance(k, HOST_PURE) and self.eq(i, k):
                        return o[k]
                return Sym(f"{vkey(o)[:60]}[{vkey(i)}]")
            if isinstance(o, DDict) and o.factory is not None:
                try:
                    if i not in o:
                        o[i] = self.call(o.factory, [], {}, e)
                except TypeError:
                    pass
            try:
                return o[i]
            except (KeyError, TypeError):
                raise PyRaise(Exc("KeyError", (i,)), e)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, (int, slice)):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise(Exc("IndexError"), e)
                except TypeError:
                    pass
            return Sym(f"{vkey(o)[:60]}[{vkey(i)}]", "str" if isinstance(o, str) else "")
        if isinstance(o, Tmpl):
            if isinstance(i, int) and i in (-1, 0) and isinstance(o.parts[i], str):
                return o.parts[i][i]
            if isinstance(i, int) and i > 0 and isinstance(o.parts[0], str) and i < len(o.parts[0]):
                return o.parts[0][i]
            if isinstance(i, slice) and i.step is None:
                r = _tmpl_slice(o, i)
                if r is not None:
                    return r
            ik = f"{i.start}:{i.stop}" if isinstance(i, slice) else vkey(i)
            return Sym(f"{vkey(o)}[{ik}]", "str")
        if isinstance(o, Reg):
            return self.reg_get(o, i, e)
        if isinstance(o, Sym):
            ik = f"{vkey(i.start)}:{vkey(i.stop)}" if isinstance(i, slice) else vkey(i)
            return Sym(f"{o.key}[{ik}]", "str" if o.hint == "str" else "")
        if isinstance(o, (Ext, Cls, Func, Mod, Inst, BMeth)):
            if isinstance(o, Inst):
                mth = o.cls.lookup("__getitem__")
                if mth and isinstance(mth[0], Func):
                    return self.call(mth[0].bind(o), [i], {}, e)
                if o.cls.is_dict():
                    return self.subscript(o.attrs.setdefault("__data__", {}), i, e)
            return Sym(f"{vkey(o)}[{vkey(i)}]")
        try:
            return o[i]
        except (KeyError, IndexError) as ex:
            if isinstance(o, Dom):
                raise PyRaise(Exc(type(ex).__name__, (i,)), e)
            return Sym(f"{vkey(o)}[{vkey(i)}]")
        except Exception:
            return Sym(f"{vkey(o)}[{vkey(i)}]")

    def reg_get(self, o, i, e):
        self.effect("reg_get", e, reg=o.key, key=i)
        return Sym(f"{o.key}[{vkey(i)}]")

    def e_Attribute(self, e, scope):
        o = self.eval(e.value, scope)
        return self.getattr(o, e.attr, e)

    def getattr(self, o, a, node=None):
        o = self.resolve(o)
        if self.on_attr is not None:
            r = self.on_attr(self, o, a)
            if r is not NotImplemented:
                return r
        if isinstance(o, Mod):
            if a in o.scope.vars:
                return o.scope.vars[a]
            sub = f"{o.name}.{a}"
            if sub in self.prog.paths or any(k.startswith(sub + ".") for k in self.prog.paths):
                return self.module(sub)
            return Sym(sub)
        if isinstance(o, Ext):
            if o.name == "sys" and a == "modules" and not self.open_registries:
                return {m: self.mods[m] for m in self.mods}
            if o.name in ("os", "os.path") and a in ("sep", "linesep", "pardir", "curdir"):
                return {"sep": "/", "linesep": "\n", "pardir": "..", "curdir": "."}[a]
            return Ext(f"{o.name}.{a}")
        if isinstance(o, Inst):
            if a in o.attrs:
                return o.attrs[a]
            r = o.cls.lookup(a)
            if r:
                v = r[0]
                if isinstance(v, Func):
                    if v.kind == "static":
                        return v
                    if v.kind == "class":
                        return v.bind(o.cls)
                    if v.kind == "property":
                        return self.call(v.bind(o), [], {}, node)
                    return v.bind(o)
                return v
            if a == "__class__":
                return o.cls
            if a == "__dict__":
                return o.attrs
            if any(x in o.cls.mro_names() for x in ("dict", "Dict")):
                return BMeth(o, a)
            return Sym(f"{o.key}.{a}")
        if isinstance(o, Cls):
            r = o.lookup(a)
            if r:
                v = r[0]
                if isinstance(v, Func) and v.kind == "class":
                    return v.bind(o)
                return v
            if a == "__name__":
                return o.node.name
            return Sym(f"{o.qual}.{a}")
        if isinstance(o, Func):
            if a == "__name__":
                return o.node.name
            return Sym(f"{o.qual}.{a}")
        if isinstance(o, Exc):
            return Sym(f"exc.{a}")
        if isinstance(o, Sym):
            return Sym(f"{o.key}.{a}") if not _is_method(a) else BMeth(o, a)
        if isinstance(o, (str, Tmpl, list, dict, set, tuple, frozenset, Reg, int, float, Fraction)):
            if isinstance(o, (Fraction, int, float)) and a in ("numerator", "denominator", "real", "imag"):
                return getattr(o, a)
            return BMeth(o, a)
        if isinstance(o, BMeth):
            return Sym(f"{vkey(o.obj)}.{o.name}.{a}")
        if o is None:
            return Sym(f"None.{a}")
        try:  # host object (only with host_modules)
            return getattr(o, a)
        except AttributeError:
            raise PyRaise(Exc("AttributeError"), node)

    def e_Lambda(self, e, scope):
        return Func(e, scope.mod, scope, f"{(self.callstack or [''])[-1]}.<lambda>@{e.lineno}")

    def _comp(self, gens, scope, emit):
        def rec(i, sc):
            if i == len(gens):
                emit(sc)
                return
            g = gens[i]
            for el in self.iterate(self.eval(g.iter, sc), g):
                s2 = Scope(sc, scope.mod)
                self.assign(g.target, el, s2, g)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, s2)):
                        ok = False
                        break
                if ok:
                    rec(i + 1, s2)

        rec(0, Scope(scope, scope.mod))

    def e_ListComp(self, e, scope):
        out = []
        self._comp(e.generators, scope, lambda s: out.append(self.eval(e.elt, s)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, scope):
        out = set()

        def em(s):
            try:
                out.add(self.eval(e.elt, s))
            except TypeError:
                pass

        self._comp(e.generators, scope, em)
        return out

    def e_DictComp(self, e, scope):
        out = {}

        def em(s):
            k = self.eval(e.key, s)
            try:
                out[k] = self.eval(e.value, s)
            except TypeError:
                pass

        self._comp(e.generators, scope, em)
        return out

    def e_Starred(self, e, scope):
        return self.eval(e.value, scope)

    def e_NamedExpr(self, e, scope):
        v = self.eval(e.value, scope)
        self.assign(e.target, v, scope, e)
        return v

    def e_Await(self, e, scope):
        return self.eval(e.value, scope)

    def e_Yield(self, e, scope):
        v = self.eval(e.value, scope) if e.value else None
        hk = getattr(self, "_ctxhook", None)
        if hk is not None and any(n is e for n in ast.walk(hk[0])):
            hk[1](v)
            return None
        self._yields[-1].append(v)
        return None

    def e_YieldFrom(self, e, scope):
        for x in self.iterate(self.eval(e.value, scope), e):
            self._yields[-1].append(x)
        return None

    def e_Call(self, e, scope):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            selfv = self.lookup("self", scope)
            args, kwargs = self._args(e, scope)
            if isinstance(selfv, Inst):
                cur = self.lookup("__class_cell__", scope)
                bases = (cur or selfv.cls).bases
                for b in bases:
                    if isinstance(b, Cls):
                        r = b.lookup(e.func.attr)
                        if r and isinstance(r[0], Func):
                            return self.call(r[0].bind(selfv), args, kwargs, e)
            return None
        f = self.eval(e.func, scope)
        if isinstance(f, Ext) and f.name == "builtins.locals":
            sc = scope
            return dict(sc.vars)
        if isinstance(f, Ext) and f.name == "builtins.globals":
            return Sym("globals()")
        if isinstance(f, Ext) and f.name in ("builtins.any", "builtins.all", "builtins.next") and e.args and isinstance(e.args[0], ast.GeneratorExp):
            g = self._lazy(e.args[0], scope)
            if f.name == "builtins.next":
                for x in g:
                    return x
                if len(e.args) > 1:
                    return self.eval(e.args[1], scope)
                raise PyRaise(Exc("StopIteration"), e)
            want = f.name == "builtins.any"
            for x in g:
                if self.truth(x) == want:
                    return want
            return not want
        args, kwargs = self._args(e, scope)
        return self.call(f, args, kwargs, e)

    def _lazy(self, e, scope):
        """elements of a generator expression, on demand"""

        def rec(i, sc):
            if i == len(e.generators):
                yield self.eval(e.elt, sc)
                return
            g = e.generators[i]
            for el in self.iterate(self.eval(g.iter, sc), g):
                s2 = Scope(sc, scope.mod)
                self.assign(g.target, el, s2, g)
                if all(self.truth(self.eval(c, s2)) for c in g.ifs):
                    yield from rec(i + 1, s2)

        return rec(0, Scope(scope, scope.mod))

    def _args(self, e, scope):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.eval(a.value, scope))
                if isinstance(v, (list, tuple)):
                    args.extend(v)
                elif isinstance(v, Dom) and hasattr(v, "__iter__"):
                    args.extend(list(v))
                else:
                    args.append(Sym(f"*{vkey(v)}"))
            else:
                args.append(self.eval(a, scope))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, scope)
            if k.arg is None:
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node):
        f = self.resolve(f)
        if isinstance(f, Func):
            md = self.models.get(f.qual)
            if md is not None:
                r = md(self, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            if any(f.qual.startswith(o) for o in self.opaque) and f.qual not in getattr(self, "transparent", ()) and not f.qual.startswith(getattr(self, "enter_module", "\0")):
                self.effect("opaque_call", node, name=f.qual, args=args, kwargs=kwargs)
                return Sym(self.callkey(f.qual, args, kwargs), _ann(getattr(f.node, "returns", None)), ("call", f.qual, args, kwargs))
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Cls):
            md = self.models.get(f.qual)
            if md is not None:
                r = md(self, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            names = f.mro_names()
            if any(n in ("Exception", "ValueError", "KeyError", "RuntimeError", "BaseException") for n in names):
                return Exc(f.node.name, args)
            if any(f.qual.startswith(o) for o in self.opaque) and not f.qual.startswith(getattr(self, "enter_module", "\0")):
                return Sym(self.callkey(f.qual, args, kwargs))
            inst = Inst(f)
            init = f.lookup("__init__")
            if init and isinstance(init[0], Func):
                self.call(init[0].bind(inst), args, kwargs, node)
            elif "NamedTuple" in names or any("dataclass" in ast.unparse(d) for d in f.node.decorator_list):
                fields = [s.target.id for s in f.node.body if isinstance(s, ast.AnnAssign)]
                for n, v in zip(fields, args):
                    inst.attrs[n] = v
                inst.attrs.update(kwargs)
            return inst
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs, node)
        if isinstance(f, BMeth):
            return self.call_method(f.obj, f.name, args, kwargs, node)
        if isinstance(f, Sym):
            md = self.models.get(f.key)
            if md is not None:
                r = md(self, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            self.effect("sym_call", node, name=f.key, args=args, kwargs=kwargs)
            return Sym(self.callkey(f.key, args, kwargs), "", ("call", f.key, args, kwargs))
        if isinstance(f, Inst):
            r = f.cls.lookup("__call__")
            if r and isinstance(r[0], Func):
                return self.call(r[0].bind(f), args, kwargs, node)
            return Sym(self.callkey(f.key, args, kwargs))
        # host callable
        if callable(f):
            hm = self.host_models.get(getattr(f, '__name__', None)) if self.host_models else None
            if hm is not None:
                return hm(self, args, kwargs, node)
            if not any(_has_abs(x) for x in list(args) + list(kwargs.values())):
                try:
                    return f(*args, **kwargs)
                except Exception as ex:
                    raise PyRaise(Exc(type(ex).__name__, (str(ex),)), node)
            args = [self._hostify(x) for x in args]
            if not any(_has_abs(x) for x in args):
                try:
                    return f(*args, **kwargs)
                except Exception as ex:
                    raise PyRaise(Exc(type(ex).__name__, (str(ex),)), node)
            return Sym(self.callkey(getattr(f, "__name__", repr(f)), args, kwargs))
        return Sym(self.callkey(vkey(f), args, kwargs))

    def _hostify(self, x):
        if isinstance(x, Func):
            return lambda *a: self.call(x, list(a), {}, None)
        return x

    def callkey(self, name, args, kwargs):
        return f"{name}({','.join([vkey(a) for a in args] + [f'{k}={vkey(v)}' for k, v in kwargs.items()])})"

    def call_func(self, f: Func, args, kwargs, node):
        if self.depth > 60:
            return Sym(self.callkey(f.qual, args, kwargs))
        sc = Scope(f.scope, f.mod)
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = list(args)
        if f.self_ is not None and f.kind != "static":
            vals = [f.self_] + vals
        if f.cls is not None:
            sc.vars["__class_cell__"] = f.cls
        for p, v in zip(params, vals):
            sc.vars[p] = v
        if len(vals) > len(params):
            if a.vararg:
                sc.vars[a.vararg.arg] = list(vals[len(params) :])
            else:
                raise PyRaise(Exc("TypeError", (f"!too many args for {f.qual}",)), node)
        elif a.vararg:
            sc.vars[a.vararg.arg] = []
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                sc.vars[k] = v
            elif a.kwarg:
                extra[k] = v
            elif k == "**":
                pass
            else:
                raise PyRaise(Exc("TypeError", (f"!unexpected keyword {k} for {f.qual}",)), node)
        if a.kwarg:
            sc.vars[a.kwarg.arg] = extra
        # defaults
        defs = a.defaults
        for p, d in zip(params[len(params) - len(defs) :], defs):
            if p not in sc.vars:
                sc.vars[p] = self.eval(d, f.scope)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in sc.vars and d is not None:
                sc.vars[p] = self.eval(d, f.scope)
        anns = {p.arg: _ann(p.annotation) for p in a.posonlyargs + a.args + a.kwonlyargs}
        for p in params + kwonly:
            if p not in sc.vars:
                if "**" in kwargs or any(isinstance(x, Sym) and x.key.startswith("*") for x in args):
                    sc.vars[p] = Sym(f"{f.qual}.{p}", anns.get(p, ""))
                else:
                    raise PyRaise(Exc("TypeError", (f"!missing argument {p} for {f.qual}",)), node)
        for p in params:
            v = sc.vars[p]
            if isinstance(v, Sym) and not v.hint and anns.get(p):
                sc.vars[p] = Sym(v.key, anns[p], v.origin)
        self.depth += 1
        self.callstack.append(f.qual)
        self.frames.append((f, sc))
        if not hasattr(self, "_yields"):
            self._yields = []
        self._yields.append([])
        is_gen = not isinstance(f.node, ast.Lambda) and _is_generator(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, sc)
            self.exec_block(f.node.body, sc)
            r = None
        except _Return as r_:
            r = r_.v
            if self.depth == 1:
                self.trace.exit_node = r_.node
        finally:
            ys = self._yields.pop()
            self.callstack.pop()
            self.frames.pop()
            self.depth -= 1
            if self.depth == 0:
                self.trace.scope = sc
        if is_gen:
            return ys
        return r

    def call_ext(self, name, args, kwargs, node):
        md = self.ext_models.get(name)
        if md is not None:
            r = md(self, args, kwargs, node)
            if r is not NotImplemented:
                return r
        self.effect("ext_call", node, name=name, args=args, kwargs=kwargs)
        hint = {"builtins.str": "str", "builtins.int": "int", "builtins.bool": "bool", "builtins.len": "int"}.get(name, "")
        return Sym(self.callkey(name, args, kwargs), hint, ("call", name, args, kwargs))

    # methods on builtin containers / strings
    def call_method(self, o, name, args, kwargs, node):
        o = self.resolve(o)
        args = [self.resolve(a) for a in args]
        if isinstance(o, str):
            if name == "join" and args:
                xs = args[0]
                if isinstance(xs, (list, tuple)):
                    parts = []
                    for i, x in enumerate(xs):
                        if i:
                            parts.append(o)
                        parts.append(self.tostr(x))
                    return mk(parts)
                if isinstance(xs, (set, frozenset)):
                    return self.call_method(o, "join", [sorted(xs, key=vkey)], {}, node)
                return Sym(f"{o!r}.join({vkey(xs)})", "str")
            if name == "format":
                return self.strformat(o, args, kwargs)
            if name in ("startswith", "endswith") and args and isinstance(args[0], (Sym, Tmpl)):
                return self.decide(f"{o!r}.{name}({vkey(args[0])})")
            if all(is_concrete(a) for a in args) and all(is_concrete(v) for v in kwargs.values()):
                try:
                    return getattr(o, name)(*args, **kwargs)
                except AttributeError:
                    raise PyRaise(Exc("AttributeError"), node)
                except Exception as ex:
                    raise PyRaise(Exc(type(ex).__name__), node)
            if name == "replace" and isinstance(args[0], str):
                pieces = o.split(args[0])
                out = []
                for i, p in enumerate(pieces):
                    if i:
                        out.append(self.tostr(args[1]))
                    out.append(p)
                return mk(out)
            return Sym(self.callkey(f"{o[:40]!r}.{name}", args, kwargs), "str" if name not in ("split", "splitlines") else "")
        if isinstance(o, Tmpl):
            return self.tmpl_method(o, name, args, kwargs, node)
        if isinstance(o, list):
            if name == "append":
                o.append(args[0])
                return None
            if name == "extend":
                o.extend(self.iterate(args[0], node))
                return None
            if name == "insert":
                if isinstance(args[0], int):
                    o.insert(args[0], args[1])
                return None
            if name == "sort":
                r = self.ext_models["builtins.sorted"](self, [o], kwargs, node)
                if isinstance(r, list):
                    o[:] = r
                return None
            if name in ("pop",):
                try:
                    return o.pop(*args)
                except (IndexError, TypeError):
                    raise PyRaise(Exc("IndexError"), node)
            if name == "index":
                for i, x in enumerate(o):
                    if self.eq(x, args[0]):
                        return i
                raise PyRaise(Exc("ValueError"), node)
            if name == "count":
                return sum(1 for x in o if x == args[0])
            if name == "copy":
                return list(o)
            if name == "remove":
                for i, x in enumerate(o):
                    if self.eq(x, args[0]):
                        del o[i]
                        return None
                raise PyRaise(Exc("ValueError"), node)
            if name == "clear":
                o.clear()
                return None
            if name == "reverse":
                o.reverse()
                return None
        if isinstance(o, dict):
            if name == "items":
                return [(k, v) for k, v in o.items()]
            if name == "keys":
                return list(o.keys())
            if name == "values":
                return list(o.values())
            if name == "get":
                d = args[1] if len(args) > 1 else kwargs.get("default")
                try:
                    if args[0] in o:
                        return o[args[0]]
                except TypeError:
                    return Sym(f"{vkey(o)[:40]}.get")
                if isinstance(args[0], (Sym, Tmpl)):
                    for k in list(o):
                        if isinstance(k, HOST_PURE) and self.eq(args[0], k):
                            return o[k]
                return d
            if name == "setdefault":
                try:
                    if args[0] not in o:
                        o[args[0]] = args[1] if len(args) > 1 else None
                    return o[args[0]]
                except TypeError:
                    return Sym("setdefault?")
            if name == "update":
                if args and isinstance(args[0], dict):
                    o.update(args[0])
                o.update(kwargs)
                return None
            if name == "pop":
                try:
                    return o.pop(*args)
                except (KeyError, TypeError):
                    raise PyRaise(Exc("KeyError"), node)
            if name == "copy":
                return dict(o)
            if name == "clear":
                o.clear()
                return None
            if name == "move_to_end":
                return None
        if isinstance(o, (set, frozenset)):
            try:
                if name == "add":
                    o.add(args[0])
                    return None
                if name == "update":
                    for a in args:
                        o.update(self.iterate(a, node))
                    return None
                if name in ("union", "intersection", "difference", "issubset", "issuperset", "symmetric_difference", "copy", "discard", "remove", "pop"):
                    return getattr(o, name)(*[set(self.iterate(a, node)) if name not in ("discard", "remove") else a for a in args])
            except (TypeError, KeyError):
                return Sym(f"set.{name}")
        if isinstance(o, tuple):
            if name == "index":
                return self.call_method(list(o), name, args, kwargs, node)
            if name == "count":
                return sum(1 for x in o if x == args[0])
        if isinstance(o, Reg):
            if name in ("items",):
                return Sym(f"{o.key}.items()", "", ("items", o.key))
            if name == "keys":
                return Sym(f"{o.key}.keys()", "List[str")
            if name == "values":
                return Sym(f"{o.key}.values()")
            if name == "get":
                return Sym(f"{o.key}[{vkey(args[0])}]")
            if name in ("append", "update", "add", "extend", "clear", "pop", "setdefault", "insert", "remove"):
                self.effect("reg_mut", node, reg=o.key, op=name, args=args)
                if name == "setdefault":
                    return Sym(f"{o.key}[{vkey(args[0])}]")
                return None
            return Sym(self.callkey(f"{o.key}.{name}", args, kwargs))
        if isinstance(o, Sym):
            if name == "items":
                return Sym(f"{o.key}.items()", "", ("items", o.key))
            if name in ("append", "update", "add", "extend", "clear", "setdefault", "write", "mkdir", "insert", "remove", "pop"):
                self.effect("sym_call", node, name=f"{o.key}.{name}", obj=o, args=args, kwargs=kwargs)
                if name in ("append", "extend", "update", "add", "clear", "write", "insert", "remove"):
                    return None
            else:
                self.effect("sym_call", node, name=f"{o.key}.{name}", obj=o, args=args, kwargs=kwargs)
            if name == "join" and o.hint == "str":
                pass
            hint = "str" if name in ("replace", "strip", "lstrip", "rstrip", "lower", "upper", "format", "join", "read") else ("bool" if name in ("startswith", "endswith", "isdigit", "exists", "is_file") else "")
            return Sym(self.callkey(f"{o.key}.{name}", args, kwargs), hint, ("method", o, name, args, kwargs))
        if isinstance(o, (Inst,)):
            if name == "items":
                return Sym(f"{o.key}.items()", "", ("items", o.key))
            return Sym(self.callkey(f"{o.key}.{name}", args, kwargs))
        if isinstance(o, (int, float, Fraction)) and all(is_concrete(a) for a in args):
            try:
                return getattr(o, name)(*args, **kwargs)
            except Exception:
                pass
        return Sym(self.callkey(f"{vkey(o)[:60]}.{name}", args, kwargs))

    def strformat(self, s, args, kwargs):
        out = []
        auto = 0
        pos = 0
        for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}", s):
            out.append(s[pos : m.start()])
            pos = m.end()
            t = m.group(0)
            if t in ("{{", "}}"):
                out.append(t[0])
                continue
            spec = m.group(1).split(":")[0].split("!")[0]
            if spec == "":
                v = args[auto] if auto < len(args) else Sym("?")
                auto += 1
            elif spec.isdigit():
                v = args[int(spec)] if int(spec) < len(args) else Sym("?")
            else:
                v = kwargs.get(spec, Sym("?" + spec))
            out.append(self.tostr(v))
        out.append(s[pos:])
        return mk(out)

    def tmpl_method(self, o: Tmpl, name, args, kwargs, node):
        if name == "replace" and len(args) >= 2 and isinstance(args[0], str):
            a, b = args[0], self.tostr(args[1])
            out = []
            for p in o.parts:
                if isinstance(p, str):
                    pieces = p.split(a)
                    for i, q in enumerate(pieces):
                        if i:
                            out.append(b)
                        out.append(q)
                else:
                    out.append(p)
            return mk(out)
        if name in ("strip", "lstrip", "rstrip"):
            parts = list(o.parts)
            if name in ("strip", "lstrip") and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(*args)
            if name in ("strip", "rstrip") and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(*args)
            return mk(parts)
        if name == "startswith" and args and isinstance(args[0], str):
            p0 = o.parts[0] if isinstance(o.parts[0], str) else ""
            x = args[0]
            if len(p0) >= len(x):
                return p0.startswith(x)
            if not x.startswith(p0):
                return False
            return self.decide(f"{vkey(o)}.startswith({x!r})")
        if name == "endswith" and args and isinstance(args[0], str):
            p0 = o.parts[-1] if isinstance(o.parts[-1], str) else ""
            x = args[0]
            if len(p0) >= len(x):
                return p0.endswith(x)
            if not x.endswith(p0):
                return False
            return self.decide(f"{vkey(o)}.endswith({x!r})")
        if name == "join":
            xs = args[0]
            if isinstance(xs, (list, tuple)):
                parts = []
                for i, x in enumerate(xs):
                    if i:
                        parts.append(o)
                    parts.append(self.tostr(x))
                return mk(parts)
        if name == "format":
            return o
        if name in ("split", "splitlines"):
            if name == "splitlines" or (args and args[0] == "\n"):
                lines: List[List[Any]] = [[]]
                for p in o.parts:
                    if isinstance(p, str):
                        seg = p.split("\n")
                        lines[-1].append(seg[0])
                        for s in seg[1:]:
                            lines.append([s])
                    else:
                        lines[-1].append(p)
                r = [mk(l) for l in lines]
                if name == "splitlines" and r and r[-1] == "":
                    r.pop()
                return r
            if args and isinstance(args[0], str):
                sep = args[0]
                segs: List[List[Any]] = [[]]
                for p in o.parts:
                    if isinstance(p, str):
                        seg = p.split(sep)
                        segs[-1].append(seg[0])
                        for s in seg[1:]:
                            segs.append([s])
                    else:
                        segs[-1].append(p)
                return [mk(l) for l in segs]
            return Sym(f"{vkey(o)}.{name}()")
        if name in ("upper", "lower", "capitalize", "title"):
            return mk([getattr(p, name)() if isinstance(p, str) else Sym(f"{p.key}.{name}()", "str") for p in o.parts])
        if name in ("encode", "decode"):
            return o
        return Sym(self.callkey(f"{vkey(o)}.{name}", args, kwargs))


# --------------------------------------------------------------------------- helpers
import operator as _op

_PYOPS = {
    ast.Add: _op.add,
    ast.Sub: _op.sub,
    ast.Mult: _op.mul,
    ast.Div: _op.truediv,
    ast.FloorDiv: _op.floordiv,
    ast.Mod: _op.mod,
    ast.Pow: _op.pow,
    ast.BitOr: _op.or_,
    ast.BitAnd: _op.and_,
    ast.BitXor: _op.xor,
    ast.LShift: _op.lshift,
    ast.RShift: _op.rshift,
    ast.MatMult: _op.matmul,
}
_CMP = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}
_DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}

PY_BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

_METHODS = {
    "items", "keys", "values", "get", "append", "extend", "update", "join", "format", "replace", "split", "strip",
    "rstrip", "lstrip", "startswith", "endswith", "lower", "upper", "isdigit", "copy", "index", "count", "sort",
    "pop", "insert", "remove", "add", "setdefault", "clear", "splitlines", "write", "mkdir", "read", "exists",
    "find", "encode", "is_file", "isalpha", "isupper", "islower", "isnumeric", "title", "capitalize", "union",
}


def _is_method(a):
    return a in _METHODS


def _has_abs(x, d=0):
    if isinstance(x, (Sym, Tmpl, Reg, Inst, Func, Cls, Mod, Ext, BMeth)):
        return True
    if d < 5:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(_has_abs(y, d + 1) for y in x)
        if isinstance(x, dict):
            return any(_has_abs(k, d + 1) or _has_abs(v, d + 1) for k, v in x.items())
    return False


def _is_main_guard(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"


_GENC: Dict[int, Any] = {}


def _is_generator(node):
    r = _GENC.get(id(node))
    if r is None or r[0] is not node:
        r = (node, any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)))
        _GENC[id(node)] = r
    return r[1]


def _ann(a) -> str:
    if a is None:
        return ""
    if isinstance(a, str):
        return a
    try:
        return ast.unparse(a)
    except Exception:
        return ""


def _load(t):
    import copy

    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _tmpl_may_equal(t: Tmpl, s: str) -> bool:
    rx = "".join(re.escape(p) if isinstance(p, str) else "(?:.|\n)*" for p in t.parts)
    return re.fullmatch(rx, s) is not None


def _tmpl_slice(t: Tmpl, sl: slice):
    parts = list(t.parts)
    if sl.start is None and isinstance(sl.stop, int) and sl.stop < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -sl.stop:
        parts[-1] = parts[-1][: sl.stop]
        return mk(parts)
    if sl.stop is None and isinstance(sl.start, int) and sl.start >= 0 and isinstance(parts[0], str) and len(parts[0]) >= sl.start:
        parts[0] = parts[0][sl.start :]
        return mk(parts)
    if sl.stop is None and isinstance(sl.start, int) and sl.start < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -sl.start:
        return parts[-1][sl.start :]
    return None


# --------------------------------------------------------------------------- ext models
def _m_len(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, (str, list, tuple, dict, set, frozenset, range)):
        return len(v)
    if isinstance(v, (Sym, Tmpl, Reg, Inst)):
        return Sym(f"len({vkey(v)})", "int")
    try:
        return len(v)
    except TypeError:
        return Sym(f"len({vkey(v)})", "int")


def _m_range(I, a, k, n):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if all(isinstance(x, float) and x == int(x) or isinstance(x, int) or hasattr(x, "__index__") for x in a) and not any(isinstance(x, (Sym,)) for x in a):
        try:
            return range(*[int(x) for x in a])
        except Exception:
            pass
    return Sym(f"range({','.join(vkey(x) for x in a)})", "List[int")


def _m_sorted(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, Sym):
        return Sym(f"sorted({v.key})", v.hint, v.origin)
    if isinstance(v, Reg):
        return Sym(f"sorted({v.key}.keys())", "List[str")
    xs = I.iterate(v, n)
    key = k.get("key")
    try:
        if key is None:
            kf = lambda x: (x if is_concrete(x) else vkey(x))
        else:
            cache = [(I.call(key, [x], {}, n), x) for x in xs]
            ks = [c[0] for c in cache]
            if all(not _has_abs(c) for c in ks):
                order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(k.get("reverse")))
                return [xs[i] for i in order]
            kf = vkey
        return sorted(xs, key=kf, reverse=bool(k.get("reverse")))
    except TypeError:
        try:
            return sorted(xs, key=vkey, reverse=bool(k.get("reverse")))
        except Exception:
            return xs


def _m_isinstance(I, a, k, n):
    v = I.resolve(a[0])
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    names = []
    for t in ts:
        if isinstance(t, Ext):
            names.append(t.name.split(".")[-1])
        elif isinstance(t, Cls):
            names.append(t.node.name)
        elif isinstance(t, Sym):
            names.append(t.key.split(".")[-1])
        elif isinstance(t, type):
            names.append(t.__name__)
    if isinstance(v, Dom):
        return v.dom_isinstance(names)
    if isstr(v):
        return "str" in names
    if isinstance(v, bool):
        return "bool" in names or "int" in names
    if isinstance(v, int):
        return "int" in names or "Integral" in names
    if isinstance(v, float):
        return "float" in names
    if v is None:
        return "NoneType" in names
    if isinstance(v, (list, tuple, dict, set)):
        return type(v).__name__ in names or (isinstance(v, dict) and "OrderedDict" in names and False)
    if isinstance(v, Inst):
        return any(x in names for x in v.cls.mro_names())
    if isinstance(v, Sym):
        h = v.hint
        base = h.split("[")[0]
        mp = {"str": "str", "bool": "bool", "int": "int", "float": "float", "List": "list", "Dict": "dict", "Tuple": "tuple"}
        if base in mp:
            return mp[base] in names or (base == "bool" and "int" in names)
        return I.decide(f"isinstance({v.key},{'|'.join(sorted(names))})")
    if isinstance(v, (Reg,)):
        return v.kind in names
    if isinstance(v, (Func, Cls, Mod, Ext, BMeth, Exc)):
        return False
    for t in ts:
        if isinstance(t, type) and isinstance(v, t):
            return True
    return type(v).__name__ in names


def _m_str(I, a, k, n):
    if not a:
        return ""
    if I.host_modules and isinstance(a[0], (list, tuple, dict)) and not _has_abs(a[0]):
        return str(a[0])
    return I.tostr(a[0])


def _num(fn):
    def f(I, a, k, n):
        if all(is_concrete(x) for x in a):
            try:
                return fn(*a)
            except ZeroDivisionError:
                raise PyRaise(Exc("ZeroDivisionError"), n)
            except (ValueError, TypeError, OverflowError):
                raise PyRaise(Exc("ValueError"), n)
        if a and not any(_has_abs(x) for x in a):
            try:
                return fn(*a)
            except Exception:
                pass
        return NotImplemented

    return f


class PyIter:
    """an iterator object over known elements"""

    def __init__(self, xs):
        self.xs, self.i = list(xs), 0

    def __iter__(self):
        while self.i < len(self.xs):
            self.i += 1
            yield self.xs[self.i - 1]


def _m_dictset(I, a, k, n):
    if isinstance(a[0], Inst):
        a[0].attrs.setdefault("__data__", {})[I.resolve(a[1])] = a[2]
        return None
    if isinstance(a[0], dict):
        a[0][I.resolve(a[1])] = a[2]
        return None
    return NotImplemented


def _m_iter(I, a, k, n):
    x = I.resolve(a[0])
    if isinstance(x, PyIter):
        return x
    if isinstance(x, (int, float, complex, bool)) or x is None:
        raise PyRaise(Exc("TypeError", ("not iterable",)), n)
    if isinstance(x, (list, tuple, dict, set, frozenset, str, range)):
        return PyIter(I.iterate(x, n))
    if isinstance(x, (Sym, Reg, Tmpl, Inst, Ext, Func, Cls, Mod, BMeth, Dom)):
        return _m_list(I, a, k, n)
    try:
        return PyIter(iter(x))
    except TypeError:
        raise PyRaise(Exc("TypeError", ("not iterable",)), n)


def _m_next(I, a, k, n):
    x = I.resolve(a[0])
    if isinstance(x, PyIter):
        for y in x:
            return y
        if len(a) > 1:
            return a[1]
        raise PyRaise(Exc("StopIteration"), n)
    if isinstance(x, (list, tuple)):
        # a generator function's (eager) result
        if x:
            return x[0]
        if len(a) > 1:
            return a[1]
        raise PyRaise(Exc("StopIteration"), n)
    return NotImplemented


def _m_list(I, a, k, n):
    if not a:
        return []
    v = I.resolve(a[0])
    if isinstance(v, Sym):
        return Sym(f"list({v.key})", v.hint, v.origin)
    return I.iterate(v, n)


def _m_dict(I, a, k, n):
    d = {}
    if a:
        v = I.resolve(a[0])
        if isinstance(v, dict):
            d.update(v)
        elif isinstance(v, (list, tuple)):
            try:
                d.update({x[0]: x[1] for x in v})
            except (TypeError, IndexError):
                return Sym(f"dict({vkey(v)})")
        else:
            return Sym(f"dict({vkey(v)})", "Dict", v.origin if isinstance(v, Sym) else None)
    d.update(k)
    return d


def _m_set(I, a, k, n):
    if not a:
        return set()
    v = I.resolve(a[0])
    if isinstance(v, (Sym, Reg, Tmpl)):
        return Sym(f"set({vkey(v)})")
    try:
        return set(I.iterate(v, n))
    except TypeError:
        return Sym(f"set({vkey(v)})")


def _m_tuple(I, a, k, n):
    r = _m_list(I, a, k, n)
    return tuple(r) if isinstance(r, list) else r


def _m_enumerate(I, a, k, n):
    v = I.resolve(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(v, (Sym, Reg)):
        return Sym(f"enumerate({vkey(v)})", "", ("enumerate", v))
    return [(i + start, x) for i, x in enumerate(I.iterate(v, n))]


def _m_zip(I, a, k, n):
    vs = [I.resolve(x) for x in a]
    if any(isinstance(v, (Sym, Reg)) for v in vs):
        return Sym(f"zip({','.join(vkey(v) for v in vs)})", "", ("zip", vs))
    return list(zip(*[I.iterate(v, n) for v in vs]))


def _m_bool(I, a, k, n):
    return I.truth(a[0]) if a else False


def _m_any(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, Sym):
        return I.decide(f"any({v.key})")
    for x in I.iterate(v, n):
        if I.truth(x):
            return True
    return False


def _m_all(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, Sym):
        return I.decide(f"all({v.key})")
    for x in I.iterate(v, n):
        if not I.truth(x):
            return False
    return True


def _m_sum(I, a, k, n):
    xs = I.iterate(a[0], n)
    acc = a[1] if len(a) > 1 else 0
    for x in xs:
        acc = I.binop(ast.Add(), acc, x, n)
    return acc


def _m_exc(name):
    def f(I, a, k, n):
        return Exc(name, tuple(a))

    return f


def _m_cast(I, a, k, n):
    return a[1]


def _m_identity(I, a, k, n):
    return a[0]


def _m_deepcopy(I, a, k, n):
    import copy

    v = a[0]
    if isinstance(v, (list, dict, tuple, set)):

        def dc(x):
            if isinstance(x, list):
                return [dc(y) for y in x]
            if isinstance(x, tuple):
                return tuple(dc(y) for y in x)
            if isinstance(x, dict):
                return {kk: dc(y) for kk, y in x.items()}
            return x

        return dc(v)
    return v


def _m_minmax(name):
    def f(I, a, k, n):
        xs = I.iterate(a[0], n) if len(a) == 1 else a
        if not xs and "default" in k:
            return k["default"]
        if not any(_has_abs(x) for x in xs) and not set(k) - {"default", "key"}:
            key = k.get("key")
            ks = [I.call(key, [x], {}, n) for x in xs] if key is not None else xs
            if any(_has_abs(x) for x in ks):
                return NotImplemented
            try:
                return xs[ks.index((min if name == "min" else max)(ks))]
            except Exception:
                raise PyRaise(Exc("ValueError"), n)
        return NotImplemented

    return f


def _m_reversed(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, Sym):
        return Sym(f"reversed({v.key})", v.hint, v.origin)
    return list(reversed(I.iterate(v, n)))


def _m_map(I, a, k, n):
    return [I.call(a[0], [x], {}, n) for x in I.iterate(a[1], n)]


def _m_filter(I, a, k, n):
    return [x for x in I.iterate(a[1], n) if I.truth(x if a[0] is None else I.call(a[0], [x], {}, n))]


def _m_getattr(I, a, k, n):
    if isinstance(a[1], str):
        return I.getattr(a[0], a[1], n)
    return Sym(f"getattr({vkey(a[0])},{vkey(a[1])})")


def _m_hasattr(I, a, k, n):
    o, nm = a[0], a[1]
    if isinstance(o, Inst) and isinstance(nm, str):
        return nm in o.attrs or o.cls.lookup(nm) is not None
    return I.decide(f"hasattr({vkey(o)},{vkey(nm)})")


def _m_type(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, (bool, int, float, str, list, dict, tuple, set)):
        return Ext("builtins." + type(v).__name__)
    if isinstance(v, Tmpl):
        return Ext("builtins.str")
    return Sym(f"type({vkey(v)})")


def _host(fn):
    def f(I, a, k, n):
        if all(is_concrete(x) for x in a) and all(is_concrete(x) for x in k.values()):
            try:
                return fn(*a, **k)
            except Exception:
                return NotImplemented
        return NotImplemented

    return f


def _m_resub(I, a, k, n):
    pat, rep, s = a[0], a[1], a[2]
    if all(isinstance(x, str) for x in (pat, rep, s)):
        return re.sub(pat, rep, s)
    if isinstance(pat, str) and isinstance(s, Tmpl) and isinstance(rep, str):
        try:
            return mk([re.sub(pat, rep, p) if isinstance(p, str) else p for p in s.parts])
        except re.error:
            pass
    return NotImplemented


def _m_defaultdict(I, a, k, n):
    d = _m_dict(I, a[1:], k, n)
    if isinstance(d, dict):
        return _mk_ddict(a[0] if a else None, d)
    return d


def _m_pathjoin(I, a, k, n):
    xs = [I.tostr(y) for y in a]
    if all(isinstance(x, str) for x in xs):
        return os.path.join(*xs)
    while xs and isinstance(xs[0], str) and xs[0] == "":
        xs = xs[1:]
    return mk([x for i, y in enumerate(xs) for x in ((["/"] if i else []) + [y])])


def _m_fromkeys(I, a, k, n):
    it = I.resolve(a[0])
    if isinstance(it, (list, tuple, dict, str)):
        try:
            return dict.fromkeys(list(it), a[1] if len(a) > 1 else None)
        except TypeError:
            return NotImplemented
    return NotImplemented


EXT_MODELS: Dict[str, Callable] = {
    "builtins.len": _m_len,
    "builtins.range": _m_range,
    "builtins.sorted": _m_sorted,
    "builtins.isinstance": _m_isinstance,
    "builtins.str": _m_str,
    "builtins.repr": lambda I, a, k, n: repr(a[0]) if is_concrete(a[0]) else NotImplemented,
    "builtins.int": _num(int),
    "builtins.float": _num(float),
    "builtins.abs": _num(abs),
    "builtins.round": _num(round),
    "builtins.pow": _num(pow),
    "builtins.divmod": _num(divmod),
    "builtins.list": _m_list,
    "builtins.dict": _m_dict,
    "builtins.set": _m_set,
    "builtins.frozenset": _m_set,
    "builtins.tuple": _m_tuple,
    "builtins.enumerate": _m_enumerate,
    "builtins.zip": _m_zip,
    "builtins.bool": _m_bool,
    "builtins.any": _m_any,
    "builtins.all": _m_all,
    "builtins.sum": _m_sum,
    "builtins.min": _m_minmax("min"),
    "builtins.max": _m_minmax("max"),
    "builtins.reversed": _m_reversed,
    "builtins.map": _m_map,
    "builtins.filter": _m_filter,
    "builtins.getattr": _m_getattr,
    "builtins.hasattr": _m_hasattr,
    "builtins.callable": lambda I, a, k, n: True if isinstance(a[0], (Func, Cls, BMeth)) else (False if isinstance(a[0], (str, int, float, list, dict, tuple, Mod)) or a[0] is None else NotImplemented),
    "builtins.type": _m_type,
    "builtins.print": lambda I, a, k, n: None,
    "builtins.dict.__getitem__": lambda I, a, k, n: I.subscript(a[0].attrs.setdefault("__data__", {}) if isinstance(a[0], Inst) else a[0], a[1], n),
    "builtins.dict.__setitem__": lambda I, a, k, n: _m_dictset(I, a, k, n),
    "builtins.iter": _m_iter,
    "builtins.next": _m_next,
    "builtins.chr": _num(chr),
    "builtins.ord": _num(ord),
    "typing.cast": _m_cast,
    "copy.deepcopy": _m_deepcopy,
    "copy.copy": _m_deepcopy,
    "collections.OrderedDict": _m_dict,
    "collections.defaultdict": _m_defaultdict,
    "math.sqrt": _num(math.sqrt),
    "math.floor": _num(math.floor),
    "math.ceil": _num(math.ceil),
    "textwrap.dedent": _host(textwrap.dedent),
    "textwrap.indent": _host(textwrap.indent),
    "re.sub": _m_resub,
    "re.match": lambda I, a, k, n: NotImplemented,
    "itertools.product": lambda I, a, k, n: [tuple(x) for x in __import__("itertools").product(*[I.iterate(y, n) for y in a], **k)],
    "itertools.chain": lambda I, a, k, n: [x for y in a for x in I.iterate(y, n)],
    "os.path.normpath": _host(os.path.normpath),
    "os.path.basename": _host(os.path.basename),
    "os.path.dirname": _host(os.path.dirname),
    "os.path.splitext": _host(os.path.splitext),
    "os.path.join": _m_pathjoin,
    "builtins.dict.fromkeys": _m_fromkeys,
}
for _e in (
    "ValueError", "KeyError", "TypeError", "RuntimeError", "Exception", "AssertionError", "NotImplementedError",
    "IndexError", "FileNotFoundError", "OSError", "AttributeError", "SystemExit", "ImportError", "NameError",
):
    EXT_MODELS["builtins." + _e] = _m_exc(_e)
EXT_MODELS["sys.exit"] = lambda I, a, k, n: (_ for _ in ()).throw(PyRaise(Exc("SystemExit", tuple(a)), n))


# --------------------------------------------------------------------------- repo models
def _rm_parval(I, f, a, k, n):
    name = a[0] if a else k.get("parameter_name")
    I.effect("parval_read", n, name=name)
    key = f"parval[{vkey(name)}]"
    if "last_parval" in I.__dict__ and key in I.last_parval:
        pass
    return Sym(key)


def _rm_setparval(I, f, a, k, n):
    name = a[0] if a else k.get("parameter_name")
    val = a[1] if len(a) > 1 else k.get("new_value")
    I.effect("parval_write", n, name=name, value=val)
    return None


def _bindargs(I, f, a, k):
    """Bind call args to the callee's parameter names, with defaults evaluated."""
    args = f.node.args
    params = [p.arg for p in args.posonlyargs + args.args]
    vals = list(a)
    if f.self_ is not None and f.kind != "static":
        vals = [f.self_] + vals
    out = dict(zip(params, vals))
    out.update(k)
    defs = args.defaults
    for p, d in zip(params[len(params) - len(defs) :], defs):
        if p not in out:
            out[p] = I.eval(d, f.scope)
    for p, d in zip([x.arg for x in args.kwonlyargs], args.kw_defaults):
        if p not in out and d is not None:
            out[p] = I.eval(d, f.scope)
    return out


def _rm_regcf(I, f, a, k, n):
    b = _bindargs(I, f, a, k)
    I.effect("register_CFunction", n, args=b, given=set(k))
    return None


def _rm_clang_format(I, f, a, k, n):
    return a[0] if a else k.get("c_code_string")


def _rm_effect(kind):
    def m(I, f, a, k, n):
        I.effect(kind, n, args=_bindargs(I, f, a, k), qual=f.qual)
        return Sym(I.callkey(f.qual, a, k), "", ("call", f.qual, a, k))

    return m


def _rm_pcg_phase(I, f, a, k, n):
    I.effect("pcg_phase_test", n)
    return Sym("pcg_registration_phase()", "bool")


BUILTIN_REPO_MODELS: Dict[str, Callable] = {
    "nrpy.params.parval_from_str": _rm_parval,
    "nrpy.params.set_parval_from_str": _rm_setparval,
    "nrpy.c_function.register_CFunction": _rm_regcf,
    "nrpy.helpers.generic.clang_format": _rm_clang_format,
    "nrpy.helpers.parallel_codegen.pcg_registration_phase": _rm_pcg_phase,
    "nrpy.helpers.parallel_codegen.register_func_call": _rm_effect("register_func_call"),
    "nrpy.helpers.parallel_codegen.NRPyEnv": _rm_effect("NRPyEnv"),
    "nrpy.params.register_CodeParameter": _rm_effect("register_CodeParameter"),
    "nrpy.params.register_CodeParameters": _rm_effect("register_CodeParameter"),
    "nrpy.params.register_param": _rm_effect("register_param"),
    "nrpy.grid.register_gridfunctions": _rm_effect("register_gf"),
    "nrpy.grid.register_gridfunctions_for_single_rank1": _rm_effect("register_gf"),
    "nrpy.grid.register_gridfunctions_for_single_rank2": _rm_effect("register_gf"),
    "nrpy.grid.register_gridfunctions_for_single_rankN": _rm_effect("register_gf"),
    "nrpy.infrastructures.BHaH.griddata_commondata.register_griddata_commondata": _rm_effect("register_griddata"),
    "nrpy.infrastructures.BHaH.BHaH_defines_h.register_BHaH_defines": _rm_effect("register_defines"),
}


def sym_params(f: Func, overrides: Optional[Dict[str, Any]] = None, prefix="") -> Dict[str, Any]:
    """Symbolic actuals for every parameter of f."""
    out = {}
    a = f.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg == "self":
            continue
        out[p.arg] = Sym(prefix + p.arg, _ann(p.annotation))
    out.update(overrides or {})
    return out


def analyse_function(prog, qual, overrides=None, **kw):
    """Run all traces of function 'mod:fn' with symbolic parameters."""
    I = Interp(prog, **kw)

    def entry(I):
        f = I.func(qual)
        return I.call_func(f, [], sym_params(f, overrides), None)

    trs = I.run(entry)
    return I, trs
