"""P19: generated shared-memory parallel loops are free of data races."""

import os
import re

import sympy as sp

from sa import cflow, ctext, mol, templates
from sa.cflow import expr, strip, text
from sa.ctext import walk

PURE_OUT = {"printf", "fprintf", "sprintf", "snprintf", "memset", "strlen", "strcmp", "sizeof"}
STORE_CALLS = {"WriteSIMD": 0}
SIGS = {}


def pragma_of(n):
    t = n.text if n.k == "pragma" else ""
    return re.sub(r"\s+", " ", re.sub(r"//.*", "", t.replace("\\\n", " "))).strip()


def clause_vars(t, name):
    out = {}
    for m in re.finditer(rf"\b{name}\s*\(([^)]*)\)", t):
        a = m.group(1)
        op = None
        if name == "reduction":
            op, _, a = a.partition(":")
        for v in a.split(","):
            out[v.strip()] = (op or "").strip()
    return out


def root(e):
    """(root identifier, [index expressions], dereferenced?)"""
    idx = []
    deref = False
    e = strip(e)
    while True:
        if e.k == "id":
            return e.name, idx, deref
        if e.k == "idx":
            idx.append(e.i)
            deref = True
            e = strip(e.a)
        elif e.k == "mem":
            if e.op == "->":
                deref = True
            e = strip(e.a)
        elif e.k == "un" and e.op in ("*", "&"):
            deref = deref or e.op == "*"
            e = strip(e.e)
        elif e.k == "bin" and e.op in "+-":
            idx.append(e.b)
            e = strip(e.a)
        elif e.k == "call":
            return None, idx, deref
        else:
            return None, idx, deref


def ids(e):
    return {x.name for x in walk(e) if x.k == "id"}


def decl_names(stmts):
    out = {}
    for n in walk(stmts):
        if n.k == "decl":
            for d in n.decls:
                out[d.name] = (n, d)
        elif n.k == "for" and n.init is not None and n.init.k == "decl":
            for d in n.init.decls:
                out[d.name] = (n.init, d)
    return out


def lst(b):
    return b if isinstance(b, list) else [b]


class Region:
    def __init__(self, what, fnname, body, pvars, privs, reds, outer, allthreads=False):
        self.what, self.fn, self.body, self.pvars, self.privs, self.reds, self.outer, self.all = what, fnname, body, pvars, privs, reds, outer, allthreads


class An:
    def __init__(self, where):
        self.where = where
        self.viol = []
        self.n = 0
        self.regions = 0

    def bad(self, construct, msg):
        self.viol.append(("race", f"{self.where}|{construct}", msg))

    # -------------------------------------------------------------- find regions
    def scan(self, stmts, outer, fn):
        outer = dict(outer)
        i = 0
        stmts = [s for s in stmts if s is not None]
        while i < len(stmts):
            s = stmts[i]
            if s.k == "func":
                ps = {}
                for p in getattr(s, "params", None) or []:
                    nm = re.search(r"(\w+)\s*(\[[^\]]*\])*\s*$", p) if isinstance(p, str) else None
                    if nm:
                        ps[nm.group(1)] = ("param", p)
                self.scan(lst(s.body), {**{k: v for k, v in outer.items()}, **ps}, s.name)
            elif s.k == "pragma" and re.search(r"#\s*pragma omp\b", pragma_of(s)):
                t = pragma_of(s)
                nxt = stmts[i + 1] if i + 1 < len(stmts) else None
                if re.search(r"\bparallel\b", t) and re.search(r"\bfor\b", t):
                    self.pfor(t, nxt, outer, fn, {}, {})
                    i += 2
                    continue
                if re.search(r"\bparallel\b", t):
                    self.pblock(t, nxt, outer, fn)
                    i += 2
                    continue
            elif s.k == "macroloop" and s.call is not None and strip(s.call.f).k == "id":
                nm = strip(s.call.f).name
                a = s.call.args
                if nm == "LOOP_OMP" and a and strip(a[0]).k == "str" and "parallel" in strip(a[0]).v:
                    t = strip(a[0]).v
                    c = int((re.search(r"collapse\s*\(\s*(\d)", t) or [0, 1])[1])
                    vs = [strip(a[j]).name for j in (7, 4, 1) if j < len(a) and strip(a[j]).k == "id"]
                    self.judge(f"LOOP_OMP", fn, lst(s.body), vs[:c], set(vs), t, outer)
                elif nm in MACRO_PARALLEL:
                    v = strip(a[0]).name if a and strip(a[0]).k == "id" else None
                    if v:
                        self.judge(nm, fn, lst(s.body), [v], {v}, "", outer)
                else:
                    self.scan(lst(s.body), outer, fn)
            elif s.k == "decl":
                for d in s.decls:
                    outer[d.name] = (s, d)
            elif s.k in ("for", "while", "do", "block", "switch"):
                o2 = dict(outer)
                if s.k == "for" and s.init is not None and s.init.k == "decl":
                    for d in s.init.decls:
                        o2[d.name] = (s.init, d)
                self.scan(lst(s.body), o2, fn)
            elif s.k == "if":
                self.scan(lst(s.then), outer, fn)
                if s.els is not None:
                    self.scan(lst(s.els), outer, fn)
            i += 1

    def pfor(self, t, nxt, outer, fn, privs0, reds0, enclosing=None):
        if nxt is None or nxt.k != "for":
            if nxt is not None and nxt.k in ("macroloop", "code", "expr"):
                return
            return
        c = int((re.search(r"collapse\s*\(\s*(\d)", t) or [0, 1])[1])
        vs = []
        cur = nxt
        body = None
        for _ in range(c):
            fi = cflow.for_info(cur)
            v = fi[0] if fi else None
            if v is None and cur.init is not None:
                if cur.init.k == "decl" and cur.init.decls:
                    v = cur.init.decls[0].name
                elif cur.init.k == "expr" and strip(cur.init.e).k == "assign":
                    v = strip(strip(cur.init.e).a).name if strip(strip(cur.init.e).a).k == "id" else None
            if v is None:
                return
            vs.append(v)
            body = lst(cur.body)
            b = body
            while len(b) == 1 and b[0].k == "block":
                b = lst(b[0].body)
            nf = [x for x in b if x.k == "for"]
            if nf:
                cur = nf[0]
        self.judge("parallel for " + ",".join(vs), fn, body if c == 1 else lst(nxt.body), vs, set(vs), t, outer)

    def pblock(self, t, blk, outer, fn):
        """a parallel block: every thread runs everything except what work-sharing constructs split"""
        if blk is None:
            return
        body = lst(blk.body) if blk.k == "block" else [blk]
        privs = set(clause_vars(t, "private")) | set(clause_vars(t, "firstprivate"))
        reds = clause_vars(t, "reduction")
        inner_shared = {k: v for k, v in outer.items() if k not in privs}
        self.regions += 1

        def rec(stmts, local):
            local = dict(local)
            i = 0
            while i < len(stmts):
                s = stmts[i]
                if s.k == "pragma":
                    tt = pragma_of(s)
                    nxt = stmts[i + 1] if i + 1 < len(stmts) else None
                    if re.search(r"omp (critical|atomic|single|master)\b", tt):
                        i += 2
                        continue
                    if re.search(r"omp for\b", tt) and nxt is not None and nxt.k == "for":
                        o = {**inner_shared}
                        sub = An(self.where)
                        sub.localpriv = set(local) | privs | set(reds)
                        sub.pfor(tt, nxt, o, fn, {}, {})
                        # things declared by each thread before the loop are private to it
                        self.viol += [v for v in sub.viol]
                        self.n += sub.n
                        self.regions += sub.regions
                        i += 2
                        continue
                elif s.k == "decl":
                    for d in s.decls:
                        local[d.name] = (s, d)
                elif s.k == "for":
                    l2 = dict(local)
                    if s.init is not None and s.init.k == "decl":
                        for d in s.init.decls:
                            l2[d.name] = (s.init, d)
                    elif s.init is not None:
                        self.plain_writes([s.init], l2, inner_shared, privs, reds, fn)
                    rec(lst(s.body), l2)
                elif s.k in ("while", "do", "block"):
                    rec(lst(s.body), local)
                elif s.k == "if":
                    rec(lst(s.then), local)
                    if s.els is not None:
                        rec(lst(s.els), local)
                else:
                    self.plain_writes([s], local, inner_shared, privs, reds, fn)
                i += 1

        rec(body, {})

    def plain_writes(self, stmts, local, shared, privs, reds, fn):
        for tgt, node in writes(stmts):
            r, idx, deref = root(tgt)
            self.n += 1
            if r is None or r in local or r in privs or r in reds or re.fullmatch(r"zH\d+z", r):
                continue
            if "omp_get_thread_num" in text(tgt):
                continue
            self.bad(f"{fn or ''} parallel block write {r}", f"every thread of the parallel block writes {text(tgt)}")

    # -------------------------------------------------------------- judge one loop
    def judge(self, what, fn, body, pvars, loopvars, t, outer):
        self.regions += 1
        privs = set(loopvars) & set(pvars) | set(clause_vars(t, "private")) | set(clause_vars(t, "firstprivate")) | set(clause_vars(t, "lastprivate")) | getattr(self, "localpriv", set())
        if what == "LOOP_OMP":
            privs |= set(loopvars)
        reds = clause_vars(t, "reduction")
        local = decl_names(body)
        # a name declared inside shadows an outer one
        # dependence of locals (and private scalars) on the parallel indices
        dep = {v: {v} for v in pvars}
        changed = True
        assigns = []
        for n in walk(body):
            if n.k == "assign":
                r, _, _ = root(n.a)
                assigns.append((r, n.b, n))
            elif n.k == "dcl" and n.init is not None:
                assigns.append((n.name, n.init, n))
            elif n.k == "call":
                # out arguments depend on the other arguments
                outs = []
                for a in n.args:
                    a_ = strip(a)
                    rr = root(a_)[0]
                    if rr in local and (a_.k == "id" and local[rr][1].dims or a_.k == "un" and a_.op == "&"):
                        outs.append(rr)
                for o in outs:
                    for a in n.args:
                        assigns.append((o, a, n))
        rounds = 0
        while changed and rounds < 50:
            changed = False
            rounds += 1
            for r, b, _ in assigns:
                if r is None or (r not in local and r not in privs):
                    continue
                d = set()
                for x in ids(b):
                    d |= dep.get(x, set())
                if not d <= dep.get(r, set()):
                    dep[r] = dep.get(r, set()) | d
                    changed = True
        # inner counted loops over ranges that depend on the parallel index
        def deps_of(es):
            d = set()
            for e in es:
                for x in ids(e):
                    d |= dep.get(x, set())
            return d

        protected = set()
        mark_protected(body, protected)
        wr = []
        for tgt, node in writes(body):
            if id(node) in protected:
                continue
            self.n += 1
            r, idx, deref = root(tgt)
            if r is None or re.fullmatch(r"zH\d+z", r):
                continue
            if r in local:
                st, d = local[r]
                if not deref or d.dims:
                    continue
                if d.init is None:
                    continue
                # pointer local: what does it point to
                rr, ii, _ = root(d.init) if strip(d.init).k != "call" else (None, [], False)
                if rr is None or rr in local:
                    continue
                if deps_of(idx + ii + [d.init]) >= set(pvars):
                    continue
                if rr in privs:
                    continue
                self.bad(f"{fn or ''} {what} write {r}", f"{text(tgt)} (through {r} = {text(d.init)}) is written by every iteration of the parallel loop over {','.join(pvars)}")
                continue
            if r in privs:
                continue
            if r in reds:
                op = reds[r]
                if node.k == "assign" and not reduction_ok(op, node, r):
                    self.bad(f"{fn or ''} {what} reduction {r}", f"declared as a '{op}' reduction but updated by {text(node)}")
                continue
            if "omp_get_thread_num" in text(tgt):
                continue
            d = deps_of(idx)
            if set(pvars) <= d:
                wr.append((r, tgt, idx))
                continue
            miss = sorted(set(pvars) - d)
            self.bad(f"{fn or ''} {what} write {r}", f"{text(tgt)} is shared and its location does not depend on the parallel index {','.join(miss)}: iterations write the same element")
        # shared locals passed for writing
        for c in walk(body):
            if c.k != "call" or strip(c.f).k != "id":
                continue
            nm = strip(c.f).name
            if nm in PURE_OUT or nm in STORE_CALLS or nm.startswith("Read"):
                continue
            for pos, a in enumerate(c.args):
                a_ = strip(a)
                r = None
                if a_.k == "un" and a_.op == "&" and strip(a_.e).k == "id":
                    r = strip(a_.e).name
                elif a_.k == "id":
                    o = outer.get(a_.name)
                    if o is not None and o[0] != "param" and o[1].dims:
                        r = a_.name
                if r is None or r in local or r in privs or r not in outer:
                    continue
                o = outer[r]
                if o[0] == "param" or (o[1].dims and getattr(o[1], "ptr", 0)):
                    continue
                if "const" in (o[0]._d.get("quals") or []) or "const" in str(o[0]._d.get("type", "")):
                    continue
                self.n += 1
                sig = SIGS.get(nm)
                if sig is None or len(sig) <= pos:
                    continue
                p = sig[pos]
                if re.match(r"\s*(const\b|.*\bconst\s)", p) or "*" not in p and "[" not in p:
                    continue
                self.bad(f"{fn or ''} {what} call {nm} {r}", f"{r}, declared outside the parallel loop, is handed to {nm} for writing by every iteration")
        # neighbouring reads of an array the loop writes
        env = cflow.local_env(body)
        wbase = {}
        for r, tgt, idx in wr:
            if strip(tgt).k == "idx":
                wbase.setdefault(text(strip(tgt).a), []).append(expr(strip(tgt).i, env))
        if wbase:
            tg = {id(x) for x, _ in writes(body)}
            for n in walk(body):
                if n.k == "idx" and id(n) not in tg and text(n.a) in wbase:
                    ri = expr(n.i, env)
                    for wi in wbase[text(n.a)]:
                        self.n += 1
                        dlt = sp.expand(ri - wi)
                        if dlt == 0:
                            continue
                        if dlt.is_Integer or (dlt.free_symbols and all(str(x).startswith("Nxx_plus_2NGHOSTS") for x in dlt.free_symbols) and not dlt.atoms(sp.Function)):
                            # a pure spatial shift of the written element
                            if not any(v in {str(x) for x in wi.free_symbols} for v in pvars):
                                continue
                            self.bad(f"{fn or ''} {what} stencil {text(n.a)}", f"the loop writes {text(n.a)} and also reads it at a neighbouring point (shift {dlt}) another iteration may be writing")


def reduction_ok(op, node, r):
    o = node.op
    if op == "+":
        return o in ("+=", "-=") or (o == "=" and r in ids(node.b))
    if op == "*":
        return o == "*="
    if op in ("min", "max"):
        t = text(node.b).lower()
        return o == "=" and r in ids(node.b) and (op in t or "?" in t) and not (("max" if op == "min" else "min") in re.sub(r"[a-z_]*m(in|ax)[a-z0-9_]*(?!\()", "", t) and op not in t)
    return True


def mark_protected(stmts, out):
    """assignments under critical / atomic / single"""

    def rec(ss):
        i = 0
        ss = [s for s in ss if s is not None]
        while i < len(ss):
            s = ss[i]
            if s.k == "pragma" and re.search(r"omp (critical|atomic|single|master|ordered)\b", pragma_of(s)):
                if i + 1 < len(ss):
                    for n in walk(ss[i + 1]):
                        out.add(id(n))
                i += 2
                continue
            for nm in ("body", "then", "els"):
                b = s._d.get(nm)
                if b is not None:
                    rec(lst(b))
            i += 1

    rec(stmts)


def writes(stmts):
    """(target expression, node) of every store"""
    for n in walk(stmts):
        if n.k == "assign":
            yield n.a, n
        elif n.k in ("post", "un") and n._d.get("op") in ("++", "--"):
            yield n.e, n
        elif n.k == "call" and strip(n.f).k == "id" and strip(n.f).name in STORE_CALLS:
            a = strip(n.args[STORE_CALLS[strip(n.f).name]]) if n.args else None
            if a is not None and a.k == "un" and a.op == "&":
                yield a.e, n
            elif a is not None:
                yield a, n


MACRO_PARALLEL = set()


def analyse(item):
    where, parts, cond = item
    A = An(where)
    errs = 0
    for tag, t in parts:
        if not t or ("omp" not in t and "LOOP_" not in t):
            continue
        try:
            ast = ctext.parse(t)[0]
        except Exception:
            errs += 1
            continue
        A.scan(ast, {}, None)
    return A.viol, A.n, A.regions, errs


def param_split(p):
    p = re.sub(r"/\*.*?\*/|//[^\n]*", "", p, flags=re.S)
    return [x.strip() for x in re.split(r",(?![^\[(]*[\])])", p) if x.strip()]


def mol_items(P, infra, meth, simd, items):
    trs, _ = mol.generate(P, infra, meth, enable_simd=simd, enable_rfm_precompute=True, enable_curviBCs=True)
    for tr in trs:
        for e in tr.effects:
            if e["kind"] == "register_CFunction":
                a = e["args"]
                items.append((f"{infra} MoL {meth} simd={simd}: {ctext.Rendered(a['name']).text}", [(x, ctext.Rendered(a[x]).text) for x in ("prefunc", "body") if a.get(x)], ""))


def run(ctx):
    ctx.rule("race", "in a parallel loop every stored-to location is declared inside the loop, named in a private or matching reduction clause, inside a critical/atomic section, or its address depends on every parallel index; arrays written at the loop's own point are not read at neighbouring points; no variable declared outside is passed for writing")
    res = templates.collect(max_paths=400 if ctx.thorough else 160)
    files = templates.collect_files(max_paths=256 if ctx.thorough else 96)
    items, seen = [], set()
    SIGS.clear()
    MACRO_PARALLEL.clear()
    for r in res:
        for g in r["regs"]:
            SIGS.setdefault(g.name, param_split(g.params))
            for m in re.finditer(r"\n\s*(?:static|inline)[\w\s*]*?\b(\w+)\(([^(){};]*)\)\s*\{", "\n" + re.sub(r"//[^\n]*|/\*.*?\*/", "", g.prefunc, flags=re.S)):
                SIGS.setdefault(m.group(1), param_split(m.group(2)))
            key = (g.mod, g.name, g.prefunc, g.body)
            if key not in seen:
                seen.add(key)
                items.append((g.where(), [("prefunc", g.prefunc), ("body", g.body)], g.cond))
        for o in r["others"]:
            if o["kind"] == "register_defines":
                for v in o["args"].values():
                    if isinstance(v, str) and "omp" in v:
                        for m in re.finditer(r"#define\s+(\w+)\([^)]*\)((?:\\\n|[^\n])*)", v):
                            if "parallel" in m.group(2) and "for" in m.group(2):
                                MACRO_PARALLEL.add(m.group(1))
    P = templates.prog()
    for root_, _, fs in os.walk(P.root + "/nrpy"):
        for f in fs:
            if f.endswith((".h", ".c", ".cpp")):
                fp = f"{root_}/{f}"
                with open(fp, encoding="utf-8") as fh:
                    t = fh.read()
                if "omp" in t:
                    items.append((fp[len(P.root) + 1 :], [("file", t)], ""))
    for r in files:
        for f in r["files"]:
            if f.name.endswith((".h", ".c", ".cpp")) and "omp" in f.text:
                items.append((f.where(), [(f.name, f.text)], f.cond))
    for infra in mol.INFRA:
        for meth in ("Euler", "RK4", "RK3 Heun", "SSPRK33", "DP8"):
            for simd in (False, True):
                ctx.attempt(f"{infra} {meth}", mol_items, P, infra, meth, simd, items)
    for viol, n, regions, errs in templates.pmap(analyse, items):
        ctx.ok("stores", n)
        ctx.ok("parallel-loops", regions)
        if errs:
            ctx.counts["unparsed"] += 0
        for rule, c, msg in viol:
            ctx.violation(rule, c, msg)
    ctx.sample(f"parallel macros: {sorted(MACRO_PARALLEL)}")
    ctx.floor("parallel-loops", 40)
    ctx.floor("stores", 300)
