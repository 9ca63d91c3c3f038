"""P17: axis discipline of emitted C: a unit (axis) inference over every emitted statement."""

import re

from sa import ctext, templates
from sa.ctext import vtext, walk, children
from sa.templates import pmap

# names whose trailing/embedded digit designates a grid axis
NAME = [
    re.compile(r"^(?:[A-Za-z]\w*_)?(?:local|global|closest_|nearest_)?i{1,2}([012])(?:_?(?:pt|min|max|mid|start|end|g|gg|src|dst|center|local|global|offset|shift|p|m|pts|mins|maxs|chare|tmp|idx|lo|hi|nearest|bound|inner|outer|diagnostic\w*))*$"),
    re.compile(r"^(?:\w*_)?N(?:xx)?(?:_plus_2NGHOSTS)?_?([012])(?:_?(?:chare|loc|local|global|tot|SL|base|orig))*$"),
    re.compile(r"^(?:numpts_|num_|N)i([012])(?:_\w+)?$"),
    re.compile(r"^xx_?([012])$"),
    re.compile(r"^x([012])(?:min|max)(?:_\w+)?$"),
    re.compile(r"^xx(?:min|max)_?([012])(?:_?(?:chare|local|global|\w+))?$"),
    re.compile(r"^(?:NOSIMD|noSIMD)?(?:inv|inv_|min_)?dxx_?([012])(?:_?\w+)?$"),
    re.compile(r"^\w+_of_xx([012])(?:__\w+)?$"),
    re.compile(r"^FACEX([012])$"),
    re.compile(r"^Nchare([012])$"),
    re.compile(r"^ds(?:min|max)?_?(?:dirn)?([012])$"),
    re.compile(r"^(?:\w*_)?(?:chare_?)?index_?([012])(?:_\w+)?$"),
    re.compile(r"^chareidx([012])$"),
    re.compile(r"^(?:local|global)_idx([012])$"),
]
LET = re.compile(r"^(?:local|global|chare|thischare|startlocal|endlocal|start_local|end_local)_?([ijk])$")
AXARR = {"xx", "xx_src", "cctk_lsh", "cctk_gsh", "cctk_nghostzones", "cctk_lbnd", "cctk_ubnd", "i0i1i2", "chare_index", "thischareindex", "Nxx", "Nxx_plus_2NGHOSTS", "dxx", "invdxx", "xxmin", "xxmax", "Cart_to_i0i1i2", "thisIndex", "Nchare", "imin", "imax", "i0i1i2_inbounds", "x0x1x2_inbounds", "grid_center_i0i1i2"}
AX6 = re.compile(r"^(?:\w*face_range|bc_loop_bounds|\w*loop_bounds)$")
IDX = re.compile(r"^(IDX3|IDX4|IDX3GENERAL|IDX4GENERAL|IDX4P|IDX3P|IDX4pt|IDX3flat|IDX3S|CCTK_GFINDEX3D|CCTK_VECTGFINDEX3D|IDX3_OF_CHARE|IDX3_\w+|IDX4_\w+)$")
PASS = {"MIN", "MAX", "fabs", "abs", "ConstSIMD", "floor", "ceil", "round", "rint", "int", "ReadSIMD"}


def axis_of_name(nm):
    for r in NAME:
        m = r.match(nm)
        if m:
            return int(m.group(1))
    m = LET.match(nm)
    return "ijk".index(m.group(1)) if m else None


def kind_of_name(nm):
    if re.match(r"^(?:NOSIMD|noSIMD)?(?:inv|inv_)?d(?:xx|s)", nm):
        return "spacing"
    if "Nxx" in nm or nm.startswith(("Nchare", "N", "numpts")):
        return "extent"
    if re.match(r"^(xx|x)", nm):
        return "coord"
    return "index"


class A:
    """axis inference for one text"""

    def __init__(self, where, label, cond):
        self.where, self.label, self.cond = where, label, cond
        self.bad = []
        self.n = 0
        self.local_exempt = set()

    def flag(self, rule, e, msg):
        self.bad.append((rule, f"{self.where} ({self.label}): {self.snip(e)}", f"{msg}; when {self.cond[:200]}"))

    @staticmethod
    def snip(e):
        return vtext(e)[:140]

    # -> (axes frozenset, kind or None)
    def ax(self, e):
        z = (frozenset(), None)
        if e is None:
            return z
        k = e.k
        if k == "id":
            if e.name in self.local_exempt:
                return z
            a = axis_of_name(e.name)
            return (frozenset([a]), kind_of_name(e.name)) if a is not None else z
        if k == "mem":
            self.ax(e.a)
            if e.a.k == "id" and e.a.name == "thisIndex" and e.m in "xyz":
                return frozenset(["xyz".index(e.m)]), "index"
            a = axis_of_name(e.m)
            return (frozenset([a]), kind_of_name(e.m)) if a is not None else z
        if k == "paren":
            return self.ax(e.e)
        if k == "cast":
            return self.ax(e.e)
        if k in ("un", "post"):
            return self.ax(e.e)
        if k == "idx":
            it = self.ax(e.i)
            base = e.a
            if base.k == "idx" and base.a.k == "idx":
                b3 = base.a.a
                nm3 = b3.name if b3.k == "id" else (b3.m if b3.k == "mem" else None)
                if nm3 and AX6.match(nm3) and e.i.k == "num" and e.i.v in "012345":
                    return frozenset([int(e.i.v) // 2]), "index"
            if base.k == "idx":  # two-level
                bt = self.ax(base)
                if bt[0] and it[0] and base.a.k in ("id", "mem"):
                    self.n += 1
                    if len(bt[0]) == 1 and len(it[0]) == 1 and bt[0] != it[0]:
                        self.flag("coordinate-array", e, f"coordinate array of axis {min(bt[0])} is read at an index of axis {min(it[0])}")
                return bt
            nm = base.name if base.k == "id" else (base.m if base.k == "mem" else None)
            if nm and AX6.match(nm) and e.i.k == "num" and e.i.v in "012345":
                return frozenset([int(e.i.v) // 2]), "index"
            if base.k == "mem":
                self.ax(base.a)
            if nm in AXARR and e.i.k == "num" and e.i.v in ("0", "1", "2"):
                return frozenset([int(e.i.v)]), ("extent" if nm.startswith(("N", "cctk")) else "coord")
            if nm is not None:
                a = axis_of_name(nm)
                if a is not None:
                    if re.search(r"_of_xx[012]", nm) and it[0]:
                        self.n += 1
                        if it[0] != frozenset([a]):
                            self.flag("coordinate-array", e, f"array depending on coordinate {a} is read at an index of axis {sorted(it[0])}")
                    return frozenset([a]), kind_of_name(nm)
            else:
                self.ax(base)
            return z
        if k == "call":
            nm = e.f.name if e.f.k == "id" else None
            ts = [self.ax(a) for a in e.args]
            if nm == "CCTK_DELTA_SPACE" and e.args and e.args[0].k == "num":
                return frozenset([int(e.args[0].v)]), "spacing"
            roles = arg_roles(nm, len(ts)) if nm else None
            if roles:
                for j, t, a in zip(roles, ts, e.args):
                    if j is None:
                        continue
                    self.n += 1
                    if t[0] and t[0] != frozenset([j]):
                        self.flag("offset", e, f"argument for axis {j} of {nm} is {vtext(a)} (axis {sorted(t[0])})")
                return z
            self.triples(e, nm, ts)
            if nm:
                self.callee(e, nm, ts)
            if nm in PASS and ts:
                s = frozenset().union(*[t[0] for t in ts])
                kd = ts[0][1]
                return (s, kd) if len(s) == 1 else z
            if e.f.k != "id":
                self.ax(e.f)
            return z
        if k == "bin":
            a, b = self.ax(e.a), self.ax(e.b)
            op = e.op
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if a[0] and b[0]:
                    self.n += 1
                    if len(a[0]) == 1 and len(b[0]) == 1 and a[0] != b[0] and not (a[1] == b[1] and op in ("==", "!=", "<", ">")):
                        self.flag("comparison", e, f"{vtext(e.a)} (axis {min(a[0])}) is compared with {vtext(e.b)} (axis {min(b[0])})")
                return z
            if op in ("+", "-"):
                if op == "+":
                    self.linear(e, a, b)
                if a[0] and b[0] and len(a[0]) == 1 and len(b[0]) == 1:
                    self.n += 1
                    if a[0] != b[0]:
                        self.flag("sum", e, f"{vtext(e.a)} (axis {min(a[0])}) is combined with {vtext(e.b)} (axis {min(b[0])})")
                        return z
                u = a[0] | b[0]
                return (u, a[1] or b[1]) if len(u) <= 1 else z
            if op == "*" and not getattr(self, "_inprod", False):
                self.product(e)
            if op in ("*", "/", "%"):
                if a[0] and b[0] and len(a[0]) == 1 and len(b[0]) == 1 and a[0] != b[0]:
                    ks = {a[1], b[1]}
                    if "spacing" in ks and (ks & {"index", "extent", "coord"}) and not (op == "*" and ks == {"spacing", "coord"}):
                        self.n += 1
                        self.flag("scaling", e, f"{vtext(e.a)} (axis {min(a[0])}) is scaled by {vtext(e.b)} (axis {min(b[0])})")
                    elif op == "/" and b[1] == "extent" and a[1] in ("coord", "extent", "index") and not (a[1] == "extent" and _stem(e.a) == _stem(e.b)):
                        self.n += 1
                        self.flag("scaling", e, f"{vtext(e.a)} (axis {min(a[0])}) is divided by {vtext(e.b)} (axis {min(b[0])})")
                    return z
                if a[0] and b[0]:
                    self.n += 1
                    if a[1] == "index" and b[1] == "extent" and op == "*":
                        return z
                u = a[0] | b[0]
                kd = a[1] or b[1]
                if op == "*" and "extent" in (a[1], b[1]) and not (a[0] and b[0]):
                    # extent * something unknown: may be a stride
                    other = e.b if a[0] else e.a
                    if other.k not in ("num", "paren", "cast") and not _const(other):
                        return z
                return (u, kd) if len(u) == 1 else z
            return z
        if k == "cond":
            self.ax(e.c if "c" in e._d else e.cond)
            a, b = self.ax(e.a), self.ax(e.b)
            u = a[0] | b[0]
            return (u, a[1]) if len(u) == 1 else z
        if k == "assign":
            lt, rt = self.ax(e.a), self.ax(e.b)
            self.check_assign(e, e.a, lt, rt)
            return lt
        for c in children(e):
            self.ax(c)
        return z

    def product(self, e):
        """a product of grid extents of one family takes each axis at most once"""
        fam = {}
        for f in _factors(e):
            if f.k in ("id", "mem"):
                nm = f.name if f.k == "id" else f.m
                ax = axis_of_name(nm)
                if ax is not None and kind_of_name(nm) == "extent":
                    fam.setdefault(re.sub(r"[012]", "#", nm), []).append(ax)
        for st, axs in fam.items():
            if len(axs) > 1:
                self.n += 1
                if len(set(axs)) != len(axs):
                    self.flag("product", e, f"the extents {st} are multiplied with axes {axs}")

    def for_header(self, n):
        ini = n.init
        if isinstance(ini, list):
            ini = ini[0] if len(ini) == 1 else None
        v = None
        if ini is not None and ini.k == "decl" and len(ini.decls) == 1:
            v = ini.decls[0].name
        elif ini is not None and ini.k in ("assign", "expr"):
            x = ini.e if ini.k == "expr" else ini
            if x.k == "assign" and x.a.k == "id":
                v = x.a.name
        if not v or axis_of_name(v) is None:
            return
        self.n += 1
        st = n.step
        tgt = None
        if st is not None:
            st = st[0] if isinstance(st, list) and st else st
            if st.k == "expr":
                st = st.e
            if st.k in ("post", "un") and st.e.k == "id":
                tgt = st.e.name
            elif st.k == "assign" and st.a.k == "id":
                tgt = st.a.name
        if tgt is not None and tgt != v:
            self.bad.append(("loop", f"{self.where} ({self.label}): for {v} .. {tgt}", f"the loop over {v} advances {tgt}; when {self.cond[:200]}"))
        if n.cond is not None:
            ids = {x.name for x in walk([n.cond]) if x.k == "id"}
            if v not in ids and any(axis_of_name(i) is not None for i in ids):
                self.bad.append(("loop", f"{self.where} ({self.label}): for {v}; {vtext(n.cond)}", f"the loop over {v} is bounded by a condition that does not involve {v}"))

    def callee(self, e, nm, ts):
        sigs = SIGS.get(nm)
        if not sigs:
            return
        vs = [x for x in sigs if len(x) == len(ts)]
        if not vs or any(x != vs[0] for x in vs):
            return
        for j, (want, t) in enumerate(zip(vs[0], ts)):
            if want is not None and len(t[0]) == 1:
                self.n += 1
                if min(t[0]) != want:
                    self.flag("argument", e, f"argument {j+1} of {nm} belongs to axis {want} but {vtext(e.args[j])} belongs to axis {min(t[0])}")

    def triples(self, e, nm, ts):
        """runs of consecutive singly-tagged arguments of the same kind list the axes in order"""
        j = 0
        while j < len(ts):
            run = []
            while j < len(ts) and len(ts[j][0]) == 1 and (not run or ts[j][1] == ts[run[0]][1]) and len(run) < 3:
                run.append(j)
                j += 1
            if len(run) == 3:
                ax = [min(ts[r][0]) for r in run]
                self.n += 1
                if sorted(ax) == [0, 1, 2] and ax != [0, 1, 2]:
                    self.flag("triple", e, f"{nm} is passed the axes in the order {ax}")
            if not run:
                j += 1

    def linear(self, e, a, b):
        """i + N*(...): the extent multiplying the remainder is that of the index being added"""
        for x, y, tx in ((e.a, e.b, a), (e.b, e.a, b)):
            while y.k == "paren":
                y = y.e
            if not (len(tx[0]) == 1 and tx[1] == "index" and y.k == "bin" and y.op == "*"):
                continue
            fs = _factors(y)
            ext = [f for f in fs if f.k in ("id", "mem") and kind_of_name(f.name if f.k == "id" else f.m) == "extent" and axis_of_name(f.name if f.k == "id" else f.m) is not None]
            rest = [f for f in fs if f not in ext]
            if len(ext) == 1 and len(rest) == 1:
                self.n += 1
                u = axis_of_name(ext[0].name if ext[0].k == "id" else ext[0].m)
                if u != min(tx[0]) and (axes_in(rest[0]) or True) and rest[0].k in ("paren", "id", "mem"):
                    ra = axes_in(rest[0])
                    if ra and min(tx[0]) not in ra and u in ra | {min(ra) - 1}:
                        self.flag("offset", e, f"{vtext(x)} (axis {min(tx[0])}) is followed by a stride of axis {u}")
                    elif u not in ra and ra:
                        pass

    def check_assign(self, e, lhs, lt, rt):
        if lt[0] and rt[0] and len(lt[0]) == 1 and len(rt[0]) == 1:
            self.n += 1
            if lt[0] != rt[0]:
                self.flag("assignment", e, f"{vtext(lhs)} (axis {min(lt[0])}) is set from a quantity of axis {min(rt[0])}")

    def stmts(self, nodes):
        for n in nodes or []:
            self.stmt(n)

    def stmt(self, n):
        k = n.k
        if k == "decl":
            for d in n.decls:
                if d.init is not None and d.init.k != "init":
                    rt = self.ax(d.init)
                    a = axis_of_name(d.name)
                    if a is not None and rt[0] and not d.dims:
                        self.n += 1
                        if rt[0] != frozenset([a]):
                            self.bad.append(("assignment", f"{self.where} ({self.label}): {d.name} = {vtext(d.init)[:120]}", f"'{d.name}' belongs to axis {a} but is initialised from axis {sorted(rt[0])}; when {self.cond[:200]}"))
                elif d.init is not None:
                    es = list(children(d.init))
                    ts = [self.ax(c) for c in es]
                    if d.name in AXARR and len(ts) == 3:
                        for j, t in enumerate(ts):
                            self.n += 1
                            if t[0] and t[0] != frozenset([j]):
                                self.bad.append(("assignment", f"{self.where} ({self.label}): {d.name}[{j}]", f"entry {j} of {d.name} is {vtext(es[j])}"))
                    elif len(ts) == 6 and AX6.match(d.name):
                        for j, t in enumerate(ts):
                            self.n += 1
                            if t[0] and t[0] != frozenset([j // 2]):
                                self.bad.append(("triple", f"{self.where} ({self.label}): {d.name}[{j}]", f"entry {j} of {d.name} is {vtext(es[j])}"))
                    elif len(ts) == 3 and all(len(t[0]) == 1 for t in ts):
                        self.n += 1
                        if len({min(t[0]) for t in ts}) == 3 and [min(t[0]) for t in ts] != [0, 1, 2]:
                            self.bad.append(("triple", f"{self.where} ({self.label}): {d.name}", f"the three axes are listed in the order {[min(t[0]) for t in ts]}"))
            return
        if k == "for":
            self.for_header(n)
            if n.init is not None:
                ini = n.init if isinstance(n.init, list) else [n.init]
                for x in ini:
                    if x is None:
                        continue
                    self.stmt(x) if x.k in ("decl", "expr") else self.ax(x)
            if n.cond is not None:
                self.ax(n.cond)
            if n.step is not None:
                self.ax(n.step)
            self.stmts(n.body)
            return
        if k == "expr":
            self.ax(n.e)
            return
        if k == "func":
            self.stmts(n.body)
            return
        if k == "macroloop":
            c = n.call
            ts = [self.ax(a) for a in c.args]
            nm = c.f.name
            rl = [j // 2 for j in range(6)] if nm.startswith("LOOP_REGION") and len(ts) == 6 else None
            if nm.startswith(("LOOP_OMP", "LOOP_NOOMP")) and len(ts) >= 9:
                rl = [None] * (len(ts) - 9) + [j // 3 for j in range(9)]
            if rl:
                for j, t in enumerate(ts):
                    self.n += 1
                    if rl[j] is not None and t[0] and t[0] != frozenset([rl[j]]):
                        self.flag("loop", c, f"bound {j} of {nm} belongs to axis {sorted(t[0])}")
            self.stmts(n.body)
            return
        for c in _kids(n):
            self.stmt(c) if c.k in STM else self.ax(c)


STM = {"raw", "pragma", "pp", "block", "while", "do", "if", "switch", "case", "return", "break", "continue", "goto", "struct", "for", "rangefor", "macroloop", "code", "label", "expr", "decl", "func"}


def arg_roles(nm, n):
    """axis expected for each argument of an offset macro"""
    m = re.match(r"^MAP_\w+_IDX([012])$", nm)
    if m:
        return [int(m.group(1))] * n
    if nm == "IDX3GENERAL" and n == 5:
        return [0, 1, 2, 0, 1]
    if nm == "REVERSE_IDX3GENERAL" and n == 6:
        return [None, 0, 1, 0, 1, 2]
    m = re.match(r"^IDXFACES([012])$", nm)
    if m and n == 4:
        return [None, None] + [x for x in (0, 1, 2) if x != int(m.group(1))]
    if re.match(r"^IDX4pt$|^IDX4pt_", nm) or n < 3:
        return None
    if nm == "CCTK_VECTGFINDEX3D":
        return [None, 0, 1, 2, None][:n]
    if IDX.match(nm):
        if "GENERAL" in nm:
            return None
        return [None] * (n - 3) + [0, 1, 2]
    return None


def _factors(e):
    while e.k == "paren":
        if e.e.k == "bin" and e.e.op == "*":
            e = e.e
        else:
            return [e]
    if e.k == "bin" and e.op == "*":
        return _factors(e.a) + _factors(e.b)
    return [e]


def axes_in(e):
    out = set()
    for x in walk([e]):
        if x.k in ("id", "mem"):
            nm = x.name if x.k == "id" else x.m
            a = axis_of_name(nm)
            if a is not None and kind_of_name(nm) == "index":
                out.add(a)
    return out


def _stem(e):
    while e.k in ("paren", "cast"):
        e = e.e
    nm = e.name if e.k == "id" else (e.m if e.k == "mem" else "")
    return re.sub(r"[012]", "#", nm)


SIGS = {}


def sig(params):
    out = []
    for q in ctext.split_params(params):
        q = re.sub(r"\[[^\]]*\]", "", q)
        w = re.findall(r"\w+", q)
        out.append(axis_of_name(w[-1]) if w else None)
    return tuple(out)


def _const(e):
    return not any(x.k in ("id", "call", "mem", "idx") for x in walk([e]))


def _kids(n):
    for c in children(n):
        if c is not None:
            yield c


def analyse(item):
    where, parts, cond = item
    out, n = [], 0
    for label, text in parts:
        if not text or ctext.balance(text):
            continue
        nodes, _ = ctext.parse(text)
        a = A(where, label, cond)
        a.stmts(nodes)
        out += a.bad
        n += a.n
    return out, n


SKIP = (".TwoPunctures.", ".TOVola.", ".seobnr.", "NRPyPN", "special_functions")  # own index conventions, no grid

# canonical meaning of the offset macros, as polynomials in their parameters p0, p1, ...
MACROS = {
    "IDX3": (3, "p0 + Nxx_plus_2NGHOSTS0*(p1 + Nxx_plus_2NGHOSTS1*p2)"),
    "IDX4": (4, "p1 + Nxx_plus_2NGHOSTS0*(p2 + Nxx_plus_2NGHOSTS1*(p3 + Nxx_plus_2NGHOSTS2*p0))"),
    "IDX4pt": (2, "p1 + Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2*p0"),
    "IDX3GENERAL": (5, "p0 + p3*(p1 + p4*p2)"),
    "IDX3_OF_CHARE": (3, "p0 + Nchare0*(p1 + Nchare1*p2)"),
    "IDXFACES0": (4, "p2 + Nxx_plus_2NGHOSTS1*(p3 + Nxx_plus_2NGHOSTS2*(p1 + NGHOSTS*p0))"),
    "IDXFACES1": (4, "p2 + Nxx_plus_2NGHOSTS0*(p3 + Nxx_plus_2NGHOSTS2*(p1 + NGHOSTS*p0))"),
    "IDXFACES2": (4, "p2 + Nxx_plus_2NGHOSTS0*(p3 + Nxx_plus_2NGHOSTS1*(p1 + NGHOSTS*p0))"),
    "MAP_LOCAL_TO_GLOBAL_IDX0": (3, "p0*p2 + p1"),
    "MAP_LOCAL_TO_GLOBAL_IDX1": (3, "p0*p2 + p1"),
    "MAP_LOCAL_TO_GLOBAL_IDX2": (3, "p0*p2 + p1"),
    "MAP_GLOBAL_TO_LOCAL_IDX0": (3, "p1 - p0*p2"),
    "MAP_GLOBAL_TO_LOCAL_IDX1": (3, "p1 - p0*p2"),
    "MAP_GLOBAL_TO_LOCAL_IDX2": (3, "p1 - p0*p2"),
    "IDX2D_BCS": (9, "(p0-p1) + (p2-p1)*((p3-p4) + (p5-p4)*(p6-p7))"),
}


def poly(e, env):
    """C integer expression -> dict monomial -> coeff"""
    k = e.k
    if k in ("paren", "cast"):
        return poly(e.e, env)
    if k == "num":
        v = int(e.v)
        return {(): v} if v else {}
    if k in ("id", "mem"):
        return {(env.get(vtext(e), vtext(e)),): 1}
    if k == "un" and e.op in "+-":
        p = poly(e.e, env)
        return {m: (-c if e.op == "-" else c) for m, c in p.items()}
    if k == "bin" and e.op in "+-":
        out = dict(poly(e.a, env))
        for m, c in poly(e.b, env).items():
            out[m] = out.get(m, 0) + (c if e.op == "+" else -c)
        return {m: c for m, c in out.items() if c}
    if k == "bin" and e.op == "*":
        out = {}
        a, b = poly(e.a, env), poly(e.b, env)
        for m, c in a.items():
            for m2, c2 in b.items():
                mm = tuple(sorted(m + m2))
                out[mm] = out.get(mm, 0) + c * c2
        return {m: c for m, c in out.items() if c}
    raise ValueError(k)


def expr_of(text):
    nodes, _ = ctext.parse(text.strip() + ";")
    if len(nodes) != 1 or nodes[0].k != "expr":
        raise ValueError(text)
    return nodes[0].e


def macro_rule(ctx, texts):
    seen = set()
    for t in texts:
        for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+(\w+)\(([^)]*)\)((?:[^\n\\]|\\.|\\\n)*)", t or "", re.M):
            nm, ps, body = m.group(1), [x.strip() for x in m.group(2).split(",")], re.sub(r"//.*|/\*.*?\*/", "", m.group(3).replace("\\\n", " "), flags=re.S)
            if (nm, tuple(ps), body) in seen:
                continue
            seen.add((nm, tuple(ps), body))
            if nm in MACROS:
                n, want = MACROS[nm]
                if len(ps) != n:
                    continue
                try:
                    got = poly(expr_of(body), {x: f"p{j}" for j, x in enumerate(ps)})
                except (ValueError, ctext.ParseError):
                    ctx.notes.append(f"macro {nm} is not a polynomial: {body.strip()[:80]}")
                    continue
                ctx.ok("offset-macros")
                if got != poly(expr_of(want), {}):
                    ctx.violation("offset-macro", f"#define {nm}", f"{nm}({', '.join(ps)}) expands to {body.strip()}, which is not the storage-order offset")
            elif nm in ("LOOP_REGION", "LOOP_OMP", "LOOP_NOOMP"):
                b = re.sub(r"[()\s]", "", re.sub(r"_Pragma\([^)]*\)", "", body))
                off = {"LOOP_REGION": 0, "LOOP_OMP": 1, "LOOP_NOOMP": 0}[nm]
                q = ps[off:]
                want = "".join(
                    f"forint{v}={lo};{v}<{hi};{v}++"
                    for v, lo, hi in ([(f"i{j}", q[2 * j], q[2 * j + 1]) for j in (2, 1, 0)] if nm == "LOOP_REGION" else [(q[3 * j], q[3 * j + 1], q[3 * j + 2]) for j in (2, 1, 0)])
                ) if len(q) == (6 if nm == "LOOP_REGION" else 9) else None
                if want is None:
                    continue
                ctx.ok("offset-macros")
                loops = re.findall(r"forint(\w+)=(\w+);(\w+)(<=?)(\w+);(\w+)\+\+", b)
                exp = [(f"i{j}", q[2 * j], q[2 * j + 1]) for j in range(3)] if nm == "LOOP_REGION" else [(q[3 * j], q[3 * j + 1], q[3 * j + 2]) for j in range(3)]
                if len(loops) == 3:
                    got = sorted((a, lo, hi) for a, lo, c, op, hi, s_ in loops if c == a == s_ and op == "<")
                    if got != sorted(exp):
                        ctx.violation("offset-macro", f"#define {nm}", f"{nm} does not loop each axis between its own bounds: {body.strip()[:200]}")


def run(ctx):
    ctx.rule("offset-macro", "index macros expand to the storage-order offset polynomial; region-loop macros bound each axis by its own limits")
    for r, t in {
        "offset": "index macros take the axes in storage order with matching extents",
        "coordinate-array": "coordinate and precomputed arrays of an axis are read at indices of that axis",
        "comparison": "loop bounds and range tests compare quantities of one axis",
        "sum": "sums and differences combine quantities of one axis",
        "scaling": "an index or extent is scaled by the spacing of its own axis",
        "assignment": "a quantity named for an axis is set from quantities of that axis",
        "argument": "an argument of a generated function belongs to the axis its parameter is named for",
        "product": "volume products take each extent once",
        "triple": "three-component initialisers list the axes in order",
        "loop": "region loops bound each axis by its own limits",
    }.items():
        ctx.rule(r, t)
    res = templates.collect(max_paths=400 if ctx.thorough else 160)
    files = templates.collect_files(max_paths=256 if ctx.thorough else 96)
    items, seen = [], set()
    P = templates.prog()
    hdr = []
    for root, _, fs in __import__("os").walk(P.root + "/nrpy"):
        for f in fs:
            if f.endswith((".h", ".c", ".cpp")) and "simd" not in root and "simd" not in f and "cuda" not in f:
                fp = f"{root}/{f}"
                with open(fp, encoding="utf-8") as fh:
                    hdr.append((fp[len(P.root) + 1 :], fh.read()))
    for fp, t in hdr:
        items.append((fp, [("file", t)], ""))
    for r in res:
        if any(x in r["qual"] for x in SKIP):
            continue
        for g in r["regs"]:
            key = (g.mod, g.name, g.prefunc, g.body)
            if key not in seen:
                seen.add(key)
                items.append((g.where(), [("prefunc", g.prefunc), ("body", g.body)], g.cond))
        for o in r["others"]:
            if o["kind"] == "register_defines":
                for v in o["args"].values():
                    if isinstance(v, str) and ("{" in v or "#" in v):
                        items.append((f"{o['mod'].replace('nrpy.infrastructures.','')}:{o['entry']} -> BHaH_defines", [("defines", v)], o["cond"]))
    for r in files:
        for f in r["files"]:
            if f.name.endswith((".h", ".c", ".cpp")):
                items.append((f.where(), [(f.name, f.text)], f.cond))
    macro_rule(ctx, [t for _, parts, _ in items for _, t in parts])
    SIGS.clear()
    for r in res:
        for g in r["regs"]:
            if not re.search(r"zH\d+z", g.params):
                SIGS.setdefault(g.name, set()).add(sig(g.params))
            for m in re.finditer(r"\n\s*(?:static|inline)[\w\s*]*?\b(\w+)\(([^(){};]*)\)\s*\{", "\n" + re.sub(r"//[^\n]*|/\*.*?\*/", "", g.prefunc, flags=re.S)):
                SIGS.setdefault(m.group(1), set()).add(sig(m.group(2)))
    for bad, n in pmap(analyse, items):
        ctx.ok("texts")
        ctx.ok("axis-obligations", n)
        for rule, c, msg in bad:
            ctx.violation(rule, c, msg)
    ctx.floor("texts", 600)
    ctx.floor("offset-macros", 8)
    ctx.floor("axis-obligations", 15000)
