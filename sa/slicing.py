"""
Backward slicing of the analysed Python program with respect to a set of anchor names.

A statement is kept when it mentions an anchor name (directly, or a function that transitively
mentions one), transfers control (return / raise / break / continue), or assigns a variable that a
kept statement or a kept condition reads.  Everything else cannot change which anchors are reached
in which order and is dropped, so the path count of the interpreter depends on the anchors only.
"""

import ast
import copy

from .absint import Program


def mentions(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
    return out


def all_functions(P, skip=()):
    for m in sorted(P.paths):
        if m in skip:
            continue
        for q, f in P.functions(m):
            yield m, q, f


def closure(P, anchors, prefix="nrpy."):
    """simple names of functions that (transitively, by simple name) mention an anchor"""
    fm = {}
    for m, q, f in all_functions(P):
        fm.setdefault(q.split(".")[-1], set()).update(mentions(f))
    rel = set(anchors)
    changed = True
    while changed:
        changed = False
        for nm, ms in fm.items():
            if nm not in rel and nm not in ("__init__",) and ms & rel:
                rel.add(nm)
                changed = True
    return rel


CTRL = (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)


def targets(st):
    ts = []
    if isinstance(st, ast.Assign):
        ts = st.targets
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
        ts = [st.target]
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        ts = [st.target]
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        ts = [i.optional_vars for i in st.items if i.optional_vars]
    elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return {st.name}
    out = set()
    for t in ts:
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                out.add(n.id)
                if not isinstance(t, ast.Name):
                    break
    # walrus
    for n in ast.walk(st):
        if isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
    # mutating method calls on a variable
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
        b = st.value.func.value
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            b = b.value
        if isinstance(b, ast.Name):
            out.add(b.id)
    return out


def slice_function(fn, rel, keep_return_values=True):
    fn = copy.deepcopy(fn)
    need = set()
    kept = set()  # id of statements
    stmts = [n for n in ast.walk(fn) if isinstance(n, ast.stmt) and n is not fn]
    parent = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            parent[c] = n

    def simple_parts(st):
        """the expressions evaluated by the statement itself (not its nested statements)"""
        for f, v in ast.iter_fields(st):
            if f in ("body", "orelse", "finalbody", "handlers"):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    yield x

    def own_mentions(st):
        out = set()
        for x in simple_parts(st):
            out |= mentions(x)
        return out

    def keep(st):
        if id(st) in kept:
            return False
        kept.add(id(st))
        if isinstance(st, ast.Return) and not keep_return_values:
            pass
        elif isinstance(st, ast.Raise):
            pass
        else:
            for x in simple_parts(st):
                need.update(mentions(x))
        p = parent.get(st)
        while p is not None and p is not fn:
            if isinstance(p, ast.stmt):
                if id(p) not in kept:
                    kept.add(id(p))
                    for x in simple_parts(p):
                        need.update(mentions(x))
            elif isinstance(p, ast.ExceptHandler) and p.type is not None:
                need.update(mentions(p.type))
            p = parent.get(p)
        return True

    for st in stmts:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            if mentions(st) & rel:
                keep(st)
            continue
        if isinstance(st, CTRL) or own_mentions(st) & rel:
            keep(st)
    changed = True
    while changed:
        changed = False
        for st in stmts:
            if id(st) not in kept and targets(st) & need:
                changed = keep(st) or changed

    def prune(body):
        out = []
        for st in body:
            if id(st) not in kept:
                continue
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(st, f, None), list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    nb = prune(getattr(st, f))
                    if f == "body" and not nb:
                        nb = [ast.copy_location(ast.Pass(), st)]
                    setattr(st, f, nb)
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    h.body = prune(h.body) or [ast.copy_location(ast.Pass(), h)]
                if not st.handlers and not st.finalbody:
                    out += st.body
                    continue
            out.append(st)
        return out

    fn.body = prune(fn.body) or [ast.copy_location(ast.Pass(), fn)]
    return fn


def slice_program(P, rel, only=None, keep_return_values=True):
    """a Program whose function bodies are slices; module-level code is untouched"""
    Q = Program(P.root)
    Q.paths = dict(P.paths)
    for m in P.paths:
        if only is not None and not only(m):
            Q._trees[m] = P.tree(m)
            continue
        t = P.tree(m)
        nt = copy.copy(t)
        nt.body = []
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                nt.body.append(slice_function(n, rel, keep_return_values))
            else:
                nt.body.append(n)
        Q._trees[m] = nt
    return Q
