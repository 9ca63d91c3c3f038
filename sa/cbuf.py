"""
Buffer-bound analysis of generated C: every write (store, library copy, call of another generated
function) is reduced to "object needs at least E elements"; E is bounded by dominating guards and
compared with the capacity of the object (declared array, structure member) or exported as a
requirement on the callers of the function that received the pointer.
"""

import re

import sympy as sp

from . import ctext
from .cexec import CE, NS, Addr, F, S, key
from .cflow import strip
from .ctext import walk

NULLS = (S("NULL"), sp.Integer(0))
SEARCH = {"strchr", "strrchr", "strstr", "strpbrk", "strtok", "strtok_r"}
# library writers: position of destination, number of elements written as a function of arguments
WRITERS = {
    "strncpy": (0, lambda a: a[2]), "memcpy": (0, lambda a: a[2]), "memmove": (0, lambda a: a[2]), "memset": (0, lambda a: a[2]),
    "snprintf": (0, lambda a: a[1]), "fgets": (0, lambda a: a[1]), "strcpy": (0, lambda a: F("strlen")(a[1]) + 1),
    "strcat": (0, None), "strncat": (0, None), "sprintf": (0, None), "gets": (0, None), "fread": (0, lambda a: a[1] * a[2]),
}
READONLY = {
    "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "isspace", "isalnum", "isdigit", "isalpha", "tolower", "toupper", "fprintf", "printf", "exit", "abort", "fopen", "fclose", "strdup", "free", "atoi", "atof",
    "strtol", "strtod", "strtoll", "strtoul", "strtof", "strtold", "malloc", "calloc", "realloc", "perror", "fputs", "puts", "fflush", "memcmp", "memchr", "fwrite", "feof", "ferror", "rewind", "fseek", "fabs", "strspn", "strcspn",
} | SEARCH


def zero_char(v):
    return str(v) in ("'\\0'", "0", "'\\x00'", "NUL")


class BCE(CE):
    def __init__(self, prog, fname, **k):
        super().__init__(exit_guards=True, unroll=0, **k)
        self.prog = prog
        self.fname = fname
        self.dims = {}
        self.ptrs = set()
        self.final = None

    def decl(self, s, d):
        if d.dims:
            self.dims[d.name] = [None if x is None else self.as_sym(CE.ev(self, x)) for x in d.dims]
        elif d.ptr:
            self.ptrs.add(d.name)
        super().decl(s, d)
        if not d.ptr and d.init is not None and not d.dims:
            self.types[d.name] = str(s._d.get("type", ""))

    def for_(self, s):
        # a pointer set before a loop whose condition is not a counter test is a loop variable
        if s.init is not None:
            if s.init.k == "decl":
                for d in s.init.decls:
                    if d.ptr:
                        self.ptrs.add(d.name)
                        self.decl(s.init, d)
                        self.env.pop(d.name, None)
                        self.shapes.pop(d.name, None)
                    elif self.general(s):
                        self.decl(s.init, d)
            elif self.general(s):
                self.stmt(s.init)
        return super().for_(s)

    def general(self, s):
        """not a loop over a counter between bounds"""
        c = strip(s.cond) if s.cond is not None else None
        return c is None or c.k != "bin" or c.op not in ("<", "<=", ">", ">=", "!=")

    def loop(self, v, lo, hi, st, b, node, kind="for", cond=None):
        if kind != "while" or callable(b):
            return super().loop(v, lo, hi, st, b, node, kind, cond)

        def run():
            saved = self.ctx
            if cond is not None:
                c = self.truth(self.ev(cond))
                self.ctx = self.ctx + (("if", c, True),)
            r = self.body(b)
            self.ctx = saved
            if node.k == "for" and node.step is not None:
                self.ev(node.step)
            return r

        return super().loop(v, lo, hi, st, run, node, kind, cond)

    def ptr_of(self, a):
        e = strip(a)
        if e.k == "str" or e.k == "num":
            return None
        n = len(self.events)
        ctx = self.ctx
        try:
            r = self.pointer(a) if e.k in ("id", "mem", "idx", "bin") or (e.k == "un" and e.op in "&*") else None
        except Exception:  # noqa: BLE001
            r = None
        del self.events[n:]
        self.ctx = ctx
        return r

    def ev(self, e):
        e0 = e
        while e0.k == "paren":
            e0 = e0.e
        if e0.k == "cast":
            t = e0._d.get("type") or e0._d.get("ty") or ""
            t = t if isinstance(t, str) else " ".join(map(str, t))
            o = strip(e0.e)
            ot = self.types.get(o.name, "") if o.k == "id" else ""
            if re.fullmatch(r"(const )?(int|short|char|signed char|int32_t|int16_t)", t.strip()) and re.search(r"\blong\b|int64_t|size_t|unsigned", ot):
                return F("narrow")(self.as_sym(CE.ev(self, e0.e)))
        if e0.k == "call":
            f = strip(e0.f)
            n = f.name if f.k == "id" else ""
            ps = [self.ptr_of(a) for a in e0.args]
            r = super().ev(e0)
            for x in reversed(self.events):
                if x.kind == "call" and x.node is e0:
                    x.ptrs = ps
                    break
            sm = self.prog.summary(n)
            if sm is not None and sm.post:
                args = [self.as_sym(CE.ev(self, a)) if strip(a).k not in ("call",) else None for a in e0.args]
                for x in [y for y in self.events if y.kind == "call"][:0]:
                    pass
                call = next((x for x in reversed(self.events) if x.kind == "call" and x.node is e0), None)
                vals = [self.as_sym(v) for v in call.args] if call else args
                facts = sm.inst(sm.post, vals)
                if facts:
                    self.ctx = self.ctx + (("post", tuple(facts)),)
            return r
        return super().ev(e)

    def top(self, body):
        saved = self.ctx
        stopped = False
        for s in body:
            t = self.stmt(s)
            if t == "stop":
                stopped = True
                break
            if isinstance(t, tuple):
                self.ctx = self.ctx + (t,)
        self.final = None if stopped else self.ctx
        self.ctx = saved


def facts_of(ctx, ce):
    out = []
    for fr in ctx:
        if fr[0] == "if":
            c = fr[1] if fr[2] else ce.neg(fr[1])
            nm = getattr(c.func, "__name__", "")
            out += list(c.args) if nm == "and_" else [c]
        elif fr[0] == "post":
            out += list(fr[1])
        elif fr[0] == "for" and len(fr) == 5 and fr[4].is_Integer:
            v = S(fr[1])
            if fr[4] > 0:
                out += [F("lt0")(sp.expand(v - fr[3])), F("lt0")(sp.expand(fr[2] - v - 1))]
    return out


class Summary:
    def __init__(self, name, params):
        self.name, self.params = name, params  # [(name, decl text, dims, isptr)]
        self.req = {}  # param index -> [(extent expr, depth)]
        self.post = []

    def inst(self, facts, vals):
        sub = {S(p[0]): v for p, v in zip(self.params, vals) if v is not None}
        return [norm(f.subs(sub, simultaneous=True)) for f in facts]


def norm(e):
    """strlen(p + k) = strlen(p) - k"""

    def fix(x):
        a = x.args[0]
        c = a.as_coeff_Add()[0] if isinstance(a, sp.Add) else sp.Integer(0)
        return F("strlen")(a - c) - c if c.is_Integer and c > 0 else x

    try:
        r = e.replace(lambda x: getattr(x.func, "__name__", "") == "strlen" and len(x.args) == 1, fix)
        n = getattr(r.func, "__name__", "")
        if n in ("lt0", "le0", "eq", "ne"):
            r = r.func(sp.expand(r.args[0]))
        return r
    except Exception:  # noqa: BLE001
        return e


class BufProgram:
    def __init__(self, text, entry, entry_params, entry_body, members=None):
        """text: helper functions; entry: name, parameters and body of the registered function
        members: {struct member: capacity or 1}"""
        text = re.sub(r"//[^\n]*", "", text)
        self.consts = {}
        for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+\(?(\d+)\)?[ \t]*(?:/\*.*)?$", text, re.M):
            self.consts[m.group(1)] = int(m.group(2))
        self.funcs = {}
        self.structs = {}
        self.tables = {}
        for n in ctext.parse(text)[0]:
            if n.k == "func":
                ps = " ".join(t.s for t in n.params) if not isinstance(n.params, str) else n.params
                self.funcs[n.name] = (ps, n.body, n.ret)
            elif n.k == "struct":
                self.structs[tuple(n.names)] = n
            elif n.k == "decl":
                for d in n.decls:
                    self.tables[d.name] = d
        self.entry = entry
        self.funcs[entry] = (entry_params, ctext.parse(re.sub(r"//[^\n]*", "", entry_body))[0], "void")
        self.members = members or {}
        self._sum = {}
        self._busy = set()
        self.obl = []  # (function, what, ok?, message)
        self.runs = {}

    def params(self, fn):
        out = []
        for p in ctext.split_params(self.funcs[fn][0]):
            p = p.strip()
            m = re.search(r"(\w+)\s*((?:\[[^\]]*\]\s*)*)$", p)
            if not m or p == "void":
                continue
            dims = [x.strip() for x in re.findall(r"\[([^\]]*)\]", m.group(2))]
            out.append((m.group(1), p, dims, "*" in p or bool(dims)))
        return out

    def num(self, e):
        return norm(sp.expand(e)).subs({S(k): v for k, v in self.consts.items()})

    def summary(self, fn):
        if fn not in self.funcs or fn in self._busy:
            return None
        if fn not in self._sum:
            self.analyse(fn)
        return self._sum[fn]

    # ------------------------------------------------------------ proving
    def facts(self, ctx, ce):
        pn = {p[0] for p in self.params(ce.fname)}
        out = []
        for x in facts_of(ctx, ce):
            sub = self.sizeof_subs(ce, x, pn)
            out.append(self.num(norm(x.subs(sub) if sub else x)))
        return out

    def le0(self, e, facts):
        """e <= 0 follows from the facts"""
        e = sp.expand(self.num(e))
        if e.is_number:
            return bool(e <= 0)
        fs = [sp.expand(f.args[0] + 1) for f in facts if getattr(f.func, "__name__", "") == "lt0"]  # each <= 0
        for x in e.atoms(sp.Function):
            if x.func.__name__ == "strlen":
                fs.append(-x)
        for f in facts:
            n = getattr(f.func, "__name__", "")
            if n == "eq":
                fs += [f.args[0], sp.expand(-f.args[0])]
        for f in fs:
            d = sp.expand(e - f)
            if d.is_number and d <= 0:
                return True
        for i, f in enumerate(fs):
            for g in fs[i + 1 :]:
                d = sp.expand(e - f - g)
                if d.is_number and d <= 0:
                    return True
        return False

    def contradiction(self, facts):
        """equalities of one location with two different character constants, or of the first
        character of an empty string with a non-zero one"""
        val, neq = {}, []
        for f in facts:
            n = getattr(f.func, "__name__", "")
            if n in ("eq", "ne"):
                syms = list(f.args[0].free_symbols)
                ch = [s for s in syms if str(s).startswith("'")]
                ot = [s for s in syms if not str(s).startswith("'")]
                if n == "eq" and len(ch) == 1 and len(ot) == 1:
                    k = str(ot[0])
                    if val.setdefault(k, str(ch[0])) != str(ch[0]):
                        return True
                elif n == "eq" and not ch and len(ot) == 1 and f.args[0] in (ot[0], -ot[0]):
                    if val.setdefault(str(ot[0]), "'\\0'") != "'\\0'":
                        return True
                elif n == "ne" and len(ch) == 1 and len(ot) == 1:
                    neq.append((str(ot[0]), str(ch[0])))
            elif n == "lt0" and f.args[0].is_number and f.args[0] >= 0:
                return True
        return any(val.get(k) == c for k, c in neq)

    def ge0(self, e, facts):
        if self.le0(-e, facts):
            return True
        # case split on small string lengths: the facts exclude every length that makes e negative
        e = sp.expand(self.num(e))
        ls = [x for x in e.atoms(sp.Function) if x.func.__name__ == "strlen"]
        if len(ls) == 1 and e.coeff(ls[0]) == 1:
            r = sp.expand(e - ls[0])
            if r.is_Integer and -4 <= r < 0:
                for v in range(0, -int(r)):
                    sub = []
                    base = str(ls[0].args[0])
                    for f in facts:
                        g = f.subs(ls[0], v)
                        # location names embed the index expression
                        ren = {}
                        for s in g.free_symbols:
                            t = str(s)
                            if str(ls[0]) in t:
                                t2 = t.replace(str(ls[0]), str(v))
                                m = re.fullmatch(r"(.*)\[([-+\d ()]+)\]", t2)
                                if m:
                                    t2 = f"{m.group(1)}[{sp.sympify(m.group(2))}]"
                                ren[s] = S(t2)
                        sub.append(g.subs(ren))
                    sub.append(F("eq")(S(f"{base}[{v}]") - S("'\\0'")))
                    if not self.contradiction(sub):
                        return False
                return True
        return False

    def upper(self, e, facts, allowed):
        """expression over the allowed symbols that bounds e from above"""

        def ok(x):
            return not x.atoms(sp.Function) and all(s in allowed for s in x.free_symbols)

        e = sp.expand(self.num(e))
        if ok(e):
            return e
        for f in facts:
            if getattr(f.func, "__name__", "") == "lt0":
                c = sp.expand(e - f.args[0] - 1)
                if ok(c):
                    return c
        return None

    # ------------------------------------------------------------ one function
    def analyse(self, fn):
        self._busy.add(fn)
        ps = self.params(fn)
        sm = Summary(fn, ps)
        ce = BCE(self, fn)
        for n, t, dims, isp in ps:
            ce.types[n] = t
        ce.top(self.funcs[fn][1] if isinstance(self.funcs[fn][1], list) else [self.funcs[fn][1]])
        self.runs[fn] = ce
        pn = {p[0]: i for i, p in enumerate(ps)}
        scal = {S(p[0]) for p in ps if not p[3]}
        # facts at every normal exit
        exits = ([ce.final] if ce.final is not None else []) + [x.ctx for x in ce.events if x.kind == "return"]
        if exits:
            common = None
            for c in exits:
                fs = set(self.facts(c, ce))
                common = fs if common is None else common & fs
            allowed = {S(p[0]) for p in ps}
            sm.post = [f for f in sorted(common or (), key=str) if all(s in allowed or str(s) in self.consts or str(s).startswith("'") for s in f.free_symbols)]
        self._sum[fn] = sm
        self._busy.discard(fn)
        for i, x in enumerate(ce.events):
            if x.kind == "store":
                self.store(fn, ce, x, pn, scal, sm)
            elif x.kind == "call":
                self.call(fn, ce, x, i, pn, scal, sm)
        return sm

    def capacity(self, fn, ce, base, path, pn):
        """elements of the array (base, path); None: unknown; ('param', i): up to the caller"""
        r = sum(1 for p in path if p[0] == "i")
        ms = [p[1] for p in path if p[0] == "m"]
        if ms:
            c = self.members.get(ms[-1])
            last = max(i for i, p in enumerate(path) if p[0] == "m")
            if c is not None and sum(1 for p in path[last + 1 :] if p[0] == "i") == 0:
                return sp.Integer(c)
            return None
        if base in ce.dims:
            d = ce.dims[base]
            return self.num(d[r]) if r < len(d) and d[r] is not None else None
        if base in pn:
            dims = self.params(fn)[pn[base]][2]
            if r == 0:
                return ("param", pn[base])
            if r < len(dims) and dims[r]:
                return self.num(ce.parse_eval(dims[r]))
            return None
        return None

    def need(self, fn, ce, x, base, path, n, what, pn, scal, sm, facts):
        """object (base, path) must have at least n elements"""
        cap = self.capacity(fn, ce, base, path, pn)
        n = self.sizeofs(ce, n, pn)
        where = f"{fn}: {what}"
        if n is None:
            self.obl.append((fn, what, False, f"{what} writes an unbounded number of characters into {key(base, path)}"))
            return
        if cap is None:
            self.obl.append((fn, what, None, f"capacity of {key(base, path)} unknown"))
            return
        if isinstance(cap, tuple):
            u = self.upper(n, facts, scal)
            if u is None:
                self.obl.append((fn, what, False, f"{what} writes up to {n} elements through the pointer {base}, which no guard bounds"))
                return
            self.obl.append((fn, what, True, f"at most {u} elements through {base}"))
            sm.req.setdefault(cap[1], []).append(u)
            return
        ok = self.le0(n - cap, facts)
        self.obl.append((fn, what, ok, f"{where}: {n} <= {cap}" if ok else f"{what} writes {n} elements into {key(base, path)}, which holds {cap}, and no guard excludes it"))

    def sizeofs(self, ce, n, pn):
        return None if n is None else sp.expand(n.subs(self.sizeof_subs(ce, n, pn)))

    def sizeof_subs(self, ce, n, pn):
        sub = {}
        for s in n.free_symbols:
            m = re.fullmatch(r"sizeof\((\w+)\)", str(s).replace(" ", ""))
            if m:
                nm = m.group(1)
                if nm in ce.dims and all(d is not None for d in ce.dims[nm]):
                    v = sp.Integer(1)
                    for d in ce.dims[nm]:
                        v *= self.num(d)
                    sub[s] = v
                elif nm in pn or nm in ce.ptrs:
                    sub[s] = sp.Integer(8)
                elif nm == "char":
                    sub[s] = sp.Integer(1)
        return sub

    def store(self, fn, ce, x, pn, scal, sm):
        if not x.path or x.op == "decl":
            return
        facts = self.facts(x.ctx, ce)
        if x.base in ce.ptrs and x.base not in pn:
            # through a local pointer
            if x.path[0][0] != "i":
                return
            ok, msg = self.local_pointer(fn, ce, x, facts)
            self.obl.append((fn, f"store to {x.key}", ok, msg))
            return
        for j, p in enumerate(x.path):
            if p[0] != "i":
                continue
            base, path, e = x.base, x.path[:j], sp.sympify(p[1])
            if j == 0 and base in pn and e == 0 and (len(x.path) > 1 or not self.is_char(fn, pn, base)):
                sm.req.setdefault(pn[base], []).append(sp.Integer(1))
                continue
            rest = x.path[j + 1 :]
            what = f"store to {x.key}"
            e = self.sizeofs(ce, e, pn)
            if e is not None and any(str(s).startswith("param_desc") or ".index" in str(s) for s in e.free_symbols):
                # table index: bounded by the number of table rows (checked on the table itself)
                self.obl.append((fn, what, ("tableindex", self.capacity(fn, ce, base, path, pn)), f"{what}: bounded by the descriptor table"))
                continue
            if not self.ge0(e, facts) and not self.nonneg(fn, ce, e, facts):
                self.obl.append((fn, what, False, f"{what}: index {e} may be negative"))
                continue
            self.need(fn, ce, x, base, path, e + 1, what, pn, scal, sm, facts)
            del rest

    def is_char(self, fn, pn, base):
        return "char" in self.params(fn)[pn[base]][1]

    def local_pointer(self, fn, ce, x, facts):
        name = x.base
        e = sp.sympify(x.path[0][1])
        defs = [y for y in ce.events if y.kind == "store" and y.key.split("@")[0] == name and not y.path]
        inits = [y for y in defs if y.op in ("decl", "=")]
        muts = [y for y in defs if y.op not in ("decl", "=")]
        body = self.funcs[fn][1]
        vals = [ce.as_sym(y.val) for y in inits]
        if not muts and e == 0 and vals and all(getattr(v.func, "__name__", "") in SEARCH for v in vals):
            for v in vals:
                if not any(getattr(f.func, "__name__", "") == "ne" and v in (f.args[0], -f.args[0], f.args[0] + S("NULL"), -f.args[0] + S("NULL")) for f in facts):
                    return False, f"*{name} is written without a check that the search found something"
            return True, f"{name} points at a character found inside the string"
        ops = {y.op for y in muts}
        if ops <= {"++"} and ops and e == 0:
            for lp in (n for s in body for n in walk(s) if n.k in ("for", "while")):
                if any(n is x.node for n in walk(lp)):
                    c = strip(lp.cond) if lp._d.get("cond") is not None else None
                    t = re.sub(r"[\s()]", "", ctext.vtext(c)) if c is not None else ""
                    if re.match(rf"\*{name}(!='\\0'|!=0)?(&&|$)", t):
                        return True, f"{name} stops at the terminator of the string"
            return False, f"*{name} is written beyond the checked end of the string"
        if ops <= {"--", "-="} and len(vals) == 1:
            v = sp.expand(vals[0])
            ln = [y for y in v.atoms(sp.Function) if y.func.__name__ == "strlen"]
            if len(ln) == 1 and v.coeff(ln[0]) == 1:
                b = ln[0].args[0]
                k = sp.expand(v - ln[0] - b)
                if k.is_Integer:
                    if k + e > 0:
                        return False, f"{name}[{e}] is {k + e} past the terminator"
                    # decrements only while still above the start
                    for lp in (n for s in body for n in walk(s) if n.k in ("for", "while", "do")):
                        for n in walk(lp):
                            if n.k in ("post", "un") and n._d.get("op") == "--" and strip(n.e).k == "id" and strip(n.e).name == name:
                                t = re.sub(r"[\s()]", "", ctext.vtext(lp.cond))
                                if not re.search(rf"(^|&&){name}>=?\w+|(^|&&)\w+<=?{name}", t):
                                    return False, f"{name} is decremented without a check against the start of the string"
                    first = S(f"{b}[0]") if not re.search(r"@", str(b)) else None
                    nonempty = any(getattr(f.func, "__name__", "") == "ne" for f in facts) or not first
                    if k + 0 < 0 and not nonempty:
                        return False, f"{name} starts before an empty string"
                    return True, f"{name} stays between the start and the last character"
        return None, f"pointer {name} is not one of the recognised forms"

    def call(self, fn, ce, x, i, pn, scal, sm):
        facts = self.facts(x.ctx, ce)
        args = [ce.as_sym(a) for a in x.args]
        ptrs = getattr(x, "ptrs", [None] * len(args))
        if x.name in WRITERS:
            d, ext = WRITERS[x.name]
            p = ptrs[d] if d < len(ptrs) else None
            if p is None:
                return
            try:
                n = ext(args) if ext else None
            except IndexError:
                return
            n = self.sizeofs(ce, n, pn) if n is not None else None
            what = f"{x.name}({', '.join(map(str, args))})"[:120]
            off = p.off or sp.Integer(0)
            if p.base in ce.ptrs and p.base not in pn:
                self.obl.append((fn, what, None, f"destination {p.base} is a local pointer"))
                return
            if n is not None and not self.ge0(n, facts) and not self.nonneg(fn, ce, n, facts):
                self.obl.append((fn, what, False, f"{what}: length {n} may be negative"))
            self.need(fn, ce, x, p.base, p.path, None if n is None else n + off, what, pn, scal, sm, facts)
            if x.name == "strncpy":
                self.terminated(fn, ce, x, i, p, n, args, facts, what)
            return
        g = self.summary(x.name)
        if g is None:
            if x.name not in READONLY and x.name not in self.funcs:
                if any(isinstance(a, Addr) for a in x.args):
                    self.obl.append((fn, f"call of {x.name}", None, f"unknown function {x.name} receives a pointer"))
            return
        sub = {S(p[0]): v for p, v in zip(g.params, args)}
        for j, exts in g.req.items():
            if j >= len(ptrs):
                continue
            p = ptrs[j]
            for u in exts:
                n = u.subs(sub, simultaneous=True) if isinstance(u, sp.Basic) else u
                what = f"{x.name}({', '.join(map(str, args))})"[:120]
                if p is None:
                    self.obl.append((fn, what, None, f"argument {j + 1} of {x.name} is not an object"))
                    continue
                if p.off is None:
                    if n == 1:
                        self.obl.append((fn, what, True, f"one element of {key(p.base, p.path)}"))
                    else:
                        self.obl.append((fn, what, False, f"{x.name} writes {n} elements into the single object {key(p.base, p.path)}"))
                    continue
                if p.path and p.path[-1][0] == "i" and False:
                    pass
                if n == 1 and not (p.base in ce.dims or p.path or p.base in pn):
                    self.obl.append((fn, what, True, f"one element of {p.base}"))
                    continue
                self.need(fn, ce, x, p.base, p.path, n + p.off, what, pn, scal, sm, facts)
                for k, q in enumerate(p.path):
                    if q[0] == "i" and not (k == 0 and p.base in pn and q[1] == 0):
                        if not self.ge0(sp.sympify(q[1]), facts) and not self.nonneg(fn, ce, q[1], facts):
                            self.obl.append((fn, what, False, f"index {q[1]} of {key(p.base, p.path)} may be negative"))
                            continue
                        self.need(fn, ce, x, p.base, p.path[:k], sp.sympify(q[1]) + 1, what + f" row {q[1]}", pn, scal, sm, facts)

    def counter(self, ce, v):
        """a variable that starts at a non-negative constant and is only incremented"""
        n = str(v).split("@")[0]
        defs = [y for y in ce.events if y.kind == "store" and y.key == n]
        return bool(defs) and all((y.op == "++") or (y.op in ("decl", "=") and isinstance(y.val, sp.Basic) and y.val.is_Integer and y.val >= 0) for y in defs)

    def unsigned(self, fn, ce, v):
        t = ce.types.get(str(v).split("@")[0], "")
        return bool(re.search(r"\bsize_t\b|\bunsigned\b|uint\d+_t", t))

    def nonneg(self, fn, ce, n, facts):
        n = sp.expand(self.num(sp.sympify(n)))
        if n.is_Symbol and self.counter(ce, n):
            return True
        c, r = n.as_coeff_Add()
        if r.is_Symbol and self.unsigned(fn, ce, r) and (c >= 0 or (c == -1 and any(getattr(f.func, "__name__", "") == "ne" and f.args[0] in (r, -r) for f in facts))):
            return True
        # p - s with p found at or behind s
        for f in sorted(n.atoms(sp.Function), key=lambda f: -len(str(f))):
            if f.func.__name__ in SEARCH and n.coeff(f) == 1:
                if f.func.__name__.startswith("strtok") and str(f.args[0]) in ("NULL", "0"):
                    continue
                m = sp.expand(n - f + f.args[0])
                if (m.is_number and m >= 0) or (not m.is_number and self.nonneg(fn, ce, m, facts)):
                    return True
        return self.ge0(n, facts)

    def terminated(self, fn, ce, x, i, p, n, args, facts, what):
        self.complete(fn, p, n, args, facts, what)
        self._term(fn, ce, x, i, p, n, args, facts, what)

    def complete(self, fn, p, n, args, facts, what):
        """a bound that does not come from the source itself must not cut the source short"""
        src = args[1]
        if any(fname in SEARCH or fname == "strlen" for fname in (f.func.__name__ for f in n.atoms(sp.Function))):
            return
        if self.le0(F("strlen")(src) - n, facts):
            self.obl.append((fn, what, True, "the whole source is copied"))
        else:
            self.obl.append((fn, what, False, f"{what} may silently cut the value short"))

    def _term(self, fn, ce, x, i, p, n, args, facts, what):
        """the copy is followed by a terminator at or before the end of what was copied, or the source is shorter"""
        src = args[1]
        if self.le0(F("strlen")(src) - n + 1, facts):
            self.obl.append((fn, what, True, "source shorter than the copy"))
            return
        for y in ce.events[i + 1 :]:
            if y.kind == "store" and y.base == p.base and y.path[: len(p.path)] == p.path and len(y.path) == len(p.path) + 1 and zero_char(y.val):
                if y.ctx[: len(x.ctx)] == x.ctx or x.ctx[: len(y.ctx)] == y.ctx:
                    e = sp.expand(sp.sympify(y.path[-1][1]) - (p.off or 0))
                    d = sp.expand(self.num(e - self.sizeofs(ce, n, {})))
                    if d.is_number and d <= 0 or d.is_number and d == 0:
                        self.obl.append((fn, what, True, f"terminated at {e}"))
                        return
        self.obl.append((fn, what, False, f"{what} may leave its destination without a terminator"))


__all__ = ["BufProgram", "BCE", "facts_of", "NS"]
