"""
Typestate of locally obtained resources (heap blocks, files, GSL objects, Numerical-Recipes style
vectors) in parsed C: path-sensitive walk with structured control flow.  States per tracked local:
A obtained, F released, N null / obtained nothing.  Reported: a normal exit with a resource still
held, a second release, a use after release, an overwritten handle, a release of another kind or
with other bounds.  Conditions are correlated textually while none of their operands is assigned.
"""

import re

from .ctext import N, vtext, walk

ACQ = {"malloc": "heap", "calloc": "heap", "strdup": "heap", "fopen": "file", "dvector": "dvector", "ivector": "ivector", "dmatrix": "dmatrix", "imatrix": "imatrix", "d3tensor": "d3tensor"}
REL = {"free": "heap", "fclose": "file", "free_dvector": "dvector", "free_ivector": "ivector", "free_dmatrix": "dmatrix", "free_imatrix": "imatrix", "free_d3tensor": "d3tensor"}
INIT = {"allocate_derivs": "derivs"}
FINI = {"free_derivs": "derivs"}
BOUNDED = {"dvector", "ivector", "dmatrix", "imatrix", "d3tensor"}
NORETURN = {"exit", "abort", "CkExit", "CkAbort", "ERROR", "nrerror", "_exit", "assert_fail", "CCTK_ERROR"}


def kind_acq(fn, name=None):
    if fn in ACQ:
        return ACQ[fn]
    m = re.fullmatch(r"(gsl_\w+?)_alloc(_\w+)?", fn)
    return m[1] if m else None


def kind_rel(fn):
    if fn in REL:
        return REL[fn]
    m = re.fullmatch(r"(gsl_\w+?)_free", fn)
    return m[1] if m else None


def strip(e):
    while e is not None and e.k in ("paren", "cast"):
        e = e.e
    return e


def canon(e):
    return re.sub(r"\s+", "", vtext(strip(e))) if e is not None else ""


def fname(e):
    e = strip(e)
    if e is not None and e.k == "call":
        f = strip(e.f)
        return f.name if f is not None and f.k == "id" else None
    return None


def ids(e):
    return {x.name for x in walk(e) if x.k == "id"}


class Giveup(Exception):
    pass


class TS:
    def __init__(self, name, body, error_returns=False, cap=400, releases=None):
        self.name, self.stmts = name, body
        self.releases = releases or {}  # function -> argument positions it releases
        self.issues, self.vars, self.cap = {}, {}, cap
        self.npaths = 0
        self.error_returns = error_returns

    # state: (tuple(sorted vars items)), (tuple(sorted facts items))
    def issue(self, kind, var, msg, node):
        self.issues.setdefault((kind, var), f"{msg}")

    def run(self):
        init = [({}, {})]
        out, brk, cont = self.block(self.stmts, init)
        for st, fx in out:
            self.leak(st, "at the end of the function", None)
        return self.issues

    def dedup(self, sts):
        seen, out = set(), []
        for st, fx in sts:
            k = (tuple(sorted(st.items())), tuple(sorted(fx.items())))
            if k not in seen:
                seen.add(k)
                out.append((st, fx))
        if len(out) > self.cap:
            # forget facts
            seen, o2 = set(), []
            for st, fx in out:
                k = tuple(sorted(st.items()))
                if k not in seen:
                    seen.add(k)
                    o2.append((st, {}))
            out = o2
            if len(out) > self.cap:
                raise Giveup(f"{self.name}: more than {self.cap} states")
            self.lossy = True
        return out

    lossy = False

    def leak(self, st, where, keep):
        self.npaths += 1
        for v, (s, kind, args) in st.items():
            if s == "A" and v not in (keep or ()):
                self.issue("leak", v, f"{v} ({kind}) is still held {where}", None)

    # ------------------------------------------------------------ statements
    def block(self, stmts, sts):
        brk, cont = [], []
        for s in stmts:
            if not sts:
                break
            sts, b, c = self.stmt(s, sts)
            brk += b
            cont += c
            sts = self.dedup(sts)
        return sts, brk, cont

    def stmt(self, s, sts):
        k = s.k
        if k in ("pragma", "pp", "label", "case", "struct", "func"):
            return sts, [], []
        if k == "code":
            return sts, [], []
        if k == "raw":
            t = {x.s for x in s.toks}
            if t & (set(ACQ) | set(REL)) or any(t & set(st) for st, _ in sts):
                raise Giveup(f"{self.name}: unparsed statement touching a resource")
            return sts, [], []
        if k == "goto":
            raise Giveup(f"{self.name}: goto")
        if k == "block":
            return self.block(s.body, sts)
        if k == "decl":
            for d in s.decls:
                if d.init is not None:
                    sts = [x for st in sts for x in self.assign_local(d.name, d.init, st, True)]
                else:
                    sts = [self.forget(d.name, st) for st in sts]
            return sts, [], []
        if k == "expr":
            return [x for st in sts for x in self.expr(s.e, st)], [], []
        if k == "return":
            for st in sts:
                for st1, fx1 in self.expr(s.e, st) if s.e is not None else [st]:
                    keep = {self.owner(i, (st1, fx1)) or i for i in ids(s.e)} if s.e is not None else set()
                    v = strip(s.e) if s.e is not None else None
                    self.leak(st1, "at a return", keep if not (v is not None and v.k == "num") else ())
            return [], [], []
        if k == "break":
            return [], sts, []
        if k == "continue":
            return [], [], sts
        if k == "if":
            t, f = [], []
            for st in sts:
                a, b = self.branch(s.cond, st)
                t += a
                f += b
            o1, b1, c1 = self.block(s.then, self.dedup(t))
            o2, b2, c2 = self.block(s.els, self.dedup(f)) if s.els else (f, [], [])
            return self.dedup(o1 + o2), b1 + b2, c1 + c2
        if k in ("for", "while", "macroloop", "rangefor"):
            if k == "for" and s.init is not None:
                sts, _, _ = self.stmt(s.init, sts)
            cond = s.cond if k in ("for", "while") else None
            live, exits = sts, []
            for it in range(6):
                t, f = [], []
                for st in live:
                    if cond is not None:
                        a, b = self.branch(cond, st)
                    else:
                        a, b = [st], [st]
                    t += a
                    f += b
                exits = self.dedup(exits + f)
                body = s.body
                o, b, c = self.block(body, self.dedup([self.havoc(body, x, s) for x in t]))
                exits = self.dedup(exits + b)
                nxt = o + c
                if k == "for" and s.step is not None:
                    nxt = [x for st in nxt for x in self.expr(s.step, st)]
                nxt = self.dedup(nxt)
                known = {self.key(x) for x in live}
                new = [x for x in nxt if self.key(x) not in known]
                if not new:
                    break
                live = self.dedup(live + new)
            else:
                raise Giveup(f"{self.name}: loop does not stabilise")
            return exits, [], []
        if k == "do":
            live, exits = sts, []
            for it in range(6):
                o, b, c = self.block(s.body, live)
                exits = self.dedup(exits + b)
                t = []
                for st in o + c:
                    a, f = self.branch(s.cond, st)
                    t += a
                    exits = self.dedup(exits + f)
                known = {self.key(x) for x in live}
                new = [x for x in t if self.key(x) not in known]
                if not new:
                    break
                live = self.dedup(live + new)
            else:
                raise Giveup(f"{self.name}: loop does not stabilise")
            return exits, [], []
        if k == "switch":
            body = s.body
            sts = [x for st in sts for x in self.expr(s.cond, st)]
            exits, conts, cur, default = [], [], [], False
            for b in body:
                if b.k == "case":
                    default |= b.val is None
                    cur = self.dedup(cur + sts)
                else:
                    cur, br, c = self.stmt(b, cur) if cur else (cur, [], [])
                    exits += br
                    conts += c
            return self.dedup(exits + cur + ([] if default else sts)), [], conts
        raise Giveup(f"{self.name}: statement {k}")

    def key(self, x):
        return tuple(sorted(x[0].items())), tuple(sorted(x[1].items()))

    def havoc(self, body, st, loop):
        """facts about anything the loop assigns do not survive into a later iteration"""
        w = set()
        for n in walk(body):
            if n.k == "assign":
                w |= ids(n.a)
            elif n.k in ("un", "post", "postfix") and getattr(n, "op", "") in ("++", "--"):
                w |= ids(n.e)
            elif n.k == "dcl":
                w.add(n.name)
            elif n.k == "call":
                for a in n.args:
                    if a.k == "un" and a.op == "&":
                        w |= ids(a)
        return st[0], {k: v for k, v in st[1].items() if not (set(re.findall(r"[A-Za-z_]\w*", k)) & w)}

    def forget(self, var, st):
        if var in st[0] or any(var in re.findall(r"\w+", k) for k in st[1]):
            s = {k: v for k, v in st[0].items() if k != var or v[0] == "A"}
            return s, {k: v for k, v in st[1].items() if var not in re.findall(r"\w+", k)}
        return st

    # ------------------------------------------------------------ conditions
    def branch(self, c, st):
        c = strip(c)
        if c.k == "un" and c.op == "!":
            a, b = self.branch(c.e, st)
            return b, a
        if c.k == "bin" and c.op in ("&&", "||"):
            a1, b1 = self.branch(c.a, st)
            if c.op == "&&":
                a, b = [], list(b1)
                for x in a1:
                    p, q = self.branch(c.b, x)
                    a += p
                    b += q
                return a, b
            a, b = list(a1), []
            for x in b1:
                p, q = self.branch(c.b, x)
                a += p
                b += q
            return a, b
        out = []
        for st in self.expr(c, st):
            # null tests
            v, neg = None, False
            e = strip(c)
            if e.k == "bin" and e.op in ("==", "!="):
                l, r = strip(e.a), strip(e.b)
                if canon(r) in ("NULL", "0", "nullptr"):
                    v, neg = l, e.op == "=="
                elif canon(l) in ("NULL", "0", "nullptr"):
                    v, neg = r, e.op == "=="
            elif e.k in ("id", "assign"):
                v = e
            if v is not None and strip(v).k == "assign":
                v = strip(strip(v).a)
            if v is not None and v.k == "id" and v.name in st[0]:
                s, kind, args = st[0][v.name]
                if s == "A":
                    nn, nl = st, ({**st[0], v.name: ("N", kind, "")}, st[1])
                    if (v.name, "nonnull") in st[1]:
                        out.append(([st], []) if not neg else ([], [st]))
                        continue
                    nn = (st[0], {**st[1], f"nonnull({v.name})": True})
                    if st[1].get(f"nonnull({v.name})"):
                        out.append(([], [st]) if neg else ([st], []))
                        continue
                    out.append(([nl], [nn]) if neg else ([nn], [nl]))
                    continue
                if s == "N":
                    out.append(([st], []) if neg else ([], [st]))
                    continue
            t = canon(c)
            if re.fullmatch(r"[01]|true|false", t):
                out.append(([st], []) if t in ("1", "true") else ([], [st]))
                continue
            pos = True
            if e.k == "bin" and e.op == "!=":
                t, pos = f"{canon(e.a)}=={canon(e.b)}", False
            if t in st[1]:
                val = st[1][t] == pos
                out.append(([st], []) if val else ([], [st]))
                continue
            if any(x.k == "call" for x in walk(c)):
                out.append(([st], [st]))
                continue
            # X == const facts exclude other constants
            m = re.fullmatch(r"(.+?)==(\w+)", t)
            if m and any(k != t and k.startswith(m[1] + "==") and val and k.split("==")[1] != m[2] and k.split("==")[1].isdigit() and m[2].isdigit() for k, val in st[1].items()):
                out.append(([], [st]) if pos else ([st], []))
                continue
            out.append(([(st[0], {**st[1], t: pos})], [(st[0], {**st[1], t: not pos})]))
        return [x for o in out for x in o[0]], [x for o in out for x in o[1]]

    # ------------------------------------------------------------ expressions
    def use(self, e, st):
        """reads in e"""
        for x in walk(e):
            if x.k == "id" and x.name in st[0] and st[0][x.name][0] == "F":
                self.issue("use-after-release", x.name, f"{x.name} is used after it was released", x)

    def acquire(self, e):
        e = strip(e)
        fn = fname(e)
        if fn is None:
            return None
        k = kind_acq(fn)
        if k is None:
            return None
        return k, ",".join(canon(a) for a in e.args) if k in BOUNDED else ""

    def assign_local(self, var, rhs, st, decl=False):
        """states after var = rhs (var a plain local name)"""
        r = strip(rhs)
        q = self.acquire(r)
        if q:
            for a in r.args:
                self.use(a, st)
            if var in st[0] and st[0][var][0] == "A":
                st = self.lose(var, st, rhs)
            st = self.forget_facts(var, st)
            self.vars.setdefault(var, q[0])
            return [({**st[0], var: ("A", q[0], q[1])}, st[1])]
        if fname(r) == "realloc" and r.args:
            a = strip(r.args[0])
            src = a.name if a.k == "id" else None
            st = self.forget_facts(var, st)
            if src is None or src not in st[0]:
                if a.k == "id" and a.name == "NULL":
                    return [({**st[0], var: ("A", "heap", "")}, st[1])]
                return [st]  # reallocates something this function does not own
            d = dict(st[0])
            if d[src][0] == "F":
                self.issue("use-after-release", src, f"{src} is reallocated after it was released", rhs)
            if src != var:
                # success: ownership moves; failure: src still owned, var NULL
                ok, bad = dict(d), dict(d)
                ok[src] = ("F", d[src][1], "")
                ok[var] = ("A", "heap", "")
                bad[var] = ("N", "heap", "")
                return [(ok, {**st[1], f"nonnull({var})": True}), (bad, st[1])]
            d[var] = ("A", "heap", "")
            return [(d, st[1])]
        own = self.owner(r.name, st) if r.k == "id" else None
        if own is not None and st[0][own][0] == "A" and own != var:
            if var in st[0] and st[0][var][0] == "A":
                st = self.lose(var, st, rhs)
            if var in st[0]:
                # a variable that held a resource of its own before: ownership moves
                d = dict(st[0])
                d[var] = d.pop(own)
                st = self.forget_facts(var, (d, st[1]))
                return [(st[0], {**st[1], "@" + own: var})]
            st = self.forget_facts(var, st)
            return [(st[0], {**st[1], "@" + var: own})]
        if canon(r) in ("NULL", "nullptr") and var in st[0]:
            if st[0][var][0] == "A":
                st = self.lose(var, st, rhs)
            return [self.forget_facts(var, ({**st[0], var: ("N", "heap", "")}, st[1]))]
        out = []
        for x in self.expr(rhs, st):
            if var in x[0]:
                if x[0][var][0] == "A" and var not in ids(rhs):
                    x = self.lose(var, x, rhs)
                d = dict(x[0])
                if var not in ids(rhs):
                    d.pop(var, None)
                x = (d, x[1])
            out.append(self.forget_facts(var, x))
        return out

    def owner(self, name, st):
        for _ in range(5):
            if name in st[0]:
                return name
            name = st[1].get("@" + name)
            if name is None:
                return None
        return None

    def lose(self, var, st, node):
        """var, holding a resource, gets another value: fine when an alias still names it"""
        al = [k[1:] for k, v in st[1].items() if k.startswith("@") and v == var]
        d = dict(st[0])
        if al:
            d[al[0]] = d.pop(var)
            return d, {k: (al[0] if k.startswith("@") and v == var else v) for k, v in st[1].items() if k != "@" + al[0]}
        self.issue("overwritten", var, f"{var} is overwritten while holding a resource", node)
        return st

    def forget_facts(self, var, st):
        return st[0], {k: v for k, v in st[1].items() if var not in re.findall(r"[A-Za-z_]\w*", k)}

    def expr(self, e, st):
        e0 = e
        e = strip(e)
        if e is None:
            return [st]
        k = e.k
        if k == "assign":
            a = strip(e.a)
            if a.k == "id" and e.op == "=":
                return self.assign_local(a.name, e.b, st)
            if a.k == "id":
                return [self.forget_facts(a.name, x) for x in self.expr(e.b, st)]
            # store into a structure or array: the value escapes
            self.use(a, st)
            out = []
            for x in self.expr(e.b, st):
                b = strip(e.b)
                d = dict(x[0])
                for n in ([self.owner(b.name, x)] if b.k == "id" else []):
                    if n in d:
                        d.pop(n)
                fx = x[1]
                t = canon(a)
                w = re.findall(r"[A-Za-z_]\w*", t)[-1:] if a.k == "member" else []
                fx = {kk: v for kk, v in fx.items() if t not in kk and not (w and w[0] in re.findall(r"[A-Za-z_]\w*", kk))}
                out.append((d, fx))
            return out
        if k == "call":
            fn = fname(e)
            rk = kind_rel(fn) if fn else None
            if rk and e.args:
                a = strip(e.args[0])
                if a.k == "id" and a.name not in st[0] and self.owner(a.name, st):
                    a = N("id", a.line, name=self.owner(a.name, st))
                if a.k == "id":
                    if a.name in st[0]:
                        s, kind, args = st[0][a.name]
                        if s == "F":
                            self.issue("double-release", a.name, f"{a.name} is released twice", e)
                        elif kind != rk:
                            self.issue("kind", a.name, f"{a.name} ({kind}) is released with {fn}", e)
                        elif rk in BOUNDED and s == "A" and args != ",".join(canon(x) for x in e.args[1:]):
                            self.issue("bounds", a.name, f"{a.name} was obtained with bounds ({args}) and is released with ({','.join(canon(x) for x in e.args[1:])})", e)
                        elif s == "N" and rk == "file":
                            self.issue("null-release", a.name, f"fclose of {a.name} on a path where it was not opened", e)
                        st = ({**st[0], a.name: ("F", rk, "")}, st[1])
                        return [self.forget_facts(a.name, st)]
                    return [st]
                self.use(a, st)
                return [st]
            if fn in INIT or fn in FINI:
                a = strip(e.args[0])
                nm = canon(a).lstrip("&")
                if re.fullmatch(r"\w+", nm):
                    args = ",".join(canon(x) for x in e.args[1:])
                    if fn in INIT:
                        if nm in st[0] and st[0][nm][0] == "A":
                            self.issue("overwritten", nm, f"{nm} is allocated twice", e)
                        self.vars.setdefault(nm, INIT[fn])
                        return [({**st[0], nm: ("A", INIT[fn], args)}, st[1])]
                    if nm in st[0]:
                        s, kind, ar = st[0][nm]
                        if s == "F":
                            self.issue("double-release", nm, f"{nm} is released twice", e)
                        return [({**st[0], nm: ("F", kind, "")}, st[1])]
                return [st]
            sts = [st]
            for a in e.args:
                sts = [x for y in sts for x in self.expr(a, y)]
            if fn in NORETURN:
                return []
            for i in self.releases.get(fn, ()):
                if i < len(e.args) and strip(e.args[i]).k == "id":
                    n = strip(e.args[i]).name
                    sts = [({**x[0], (self.owner(n, x)): ("F", x[0][self.owner(n, x)][1], "")}, x[1]) if self.owner(n, x) and x[0][self.owner(n, x)][0] == "A" else x for x in sts]
            # facts about &x arguments die
            out = []
            for x in sts:
                for a in e.args:
                    aa = strip(a)
                    if aa.k == "un" and aa.op == "&":
                        b = strip(aa.e)
                        if b.k == "id":
                            x = self.forget_facts(b.name, x)
                            if b.name in x[0] and x[0][b.name][1] != "derivs":
                                d = dict(x[0])
                                if d[b.name][0] != "F":
                                    d.pop(b.name)
                                x = (d, x[1])
                out.append(x)
            return out
        if k == "cond":
            a, b = self.branch(e.c, st)
            return [x for y in a for x in self.expr(e.a, y)] + [x for y in b for x in self.expr(e.b, y)]
        if k == "comma":
            sts = [st]
            for i in e.items:
                sts = [x for y in sts for x in self.expr(i, y)]
            return sts
        if k == "id":
            if e.name in st[0] and st[0][e.name][0] == "F":
                self.issue("use-after-release", e.name, f"{e.name} is used after it was released", e)
            return [st]
        if k == "un" and e.op in ("++", "--") or k in ("post", "postfix"):
            t = strip(e.e)
            if t is not None and t.k == "id":
                return [self.forget_facts(t.name, st)]
        if k == "bin" and e.op in ("&&", "||"):
            a, b = self.branch(e, st)
            return a + b
        sts = [st]
        from .ctext import children

        for c in children(e):
            if c.k in ("dcl", "decl"):
                continue
            sts = [x for y in sts for x in self.expr(c, y)]
        return sts


def released_args(params, body):
    """positions of the parameters a function body passes to free / fclose"""
    names = [re.findall(r"\w+", re.sub(r"\[[^\]]*\]", "", p))[-1:] for p in (params or "").split(",")]
    rel = set()
    for n in walk(body):
        if n.k == "call" and kind_rel(fname(n) or "") and n.args and strip(n.args[0]).k == "id":
            rel.add(strip(n.args[0]).name)
    return [i for i, n in enumerate(names) if n and n[0] in rel]


def functions(body, prefunc, name):
    """[(function name, statements)] of a registered C function and the definitions of its prefunc"""
    from . import ctext

    out = []
    tops, _ = ctext.parse(prefunc or "")
    for n in walk(tops):
        if n.k == "func":
            out.append((n.name, n.body))
    b, p = ctext.parse(body or "")
    out.append((name, b))
    for n in walk(b):
        if n.k == "func":
            out.append((f"{name}::{n.name}", n.body))
    return out
