"""P25: a grid distributed over elements behaves like one grid: neighbour exchange, ownership maps,
coordinates, boundary data exchange and the records of the output files (superB back end)."""

import re

import sympy as sp

from checks import p21
from sa import cheap, closed, ctext, dist, mol, pup, rfm, templates
from sa.absint import AnalysisError
from sa.cexec import Addr, key
from sa.dist import F, Loops, S, exact_cover, flips, guards, linear, norm

SB = "nrpy.infrastructures.superB"
TC = f"{SB}.timestepping_chare"
DIRS = ["EAST_WEST", "NORTH_SOUTH", "TOP_BOTTOM"]
STRIDE = [sp.Integer(1), S("Nxx_plus_2NGHOSTS0"), S("Nxx_plus_2NGHOSTS0") * S("Nxx_plus_2NGHOSTS1")]
FULL = S("Nxx_plus_2NGHOSTS0") * S("Nxx_plus_2NGHOSTS1") * S("Nxx_plus_2NGHOSTS2")
NG = S("NGHOSTS")
Z = sp.Integer(0)


def T(v):
    return ctext.Rendered(v).text


# ---------------------------------------------------------------- texts
def tables(P):
    return {m: ([list(r) for r in t[0]], t[1]) for m, t in mol.methods(P).items() if m not in mol.synthetic()}


def defines(P, meth):
    """enumerators the time integrator defines for its arrays and substeps"""
    trs, _ = mol.generate(P, "superB", meth, enable_rfm_precompute=True, enable_curviBCs=True)
    for tr in trs:
        if tr.outcome[0] != "raise":
            t = "\n".join(T(e["args"].get("BHaH_defines", e["args"].get("text", ""))) for e in tr.effects if e["kind"] == "register_defines")
            return dist.header_macros(t)[1]
    raise AnalysisError(f"no time integrator for {meth}")


def ci(text):
    """the main routine of timestepping.ci as C: entry methods waited for become conditions"""
    m = re.search(r"entry\s+void\s+start\s*\(\s*\)\s*\{", text)
    if not m:
        raise AnalysisError("entry start() not found in timestepping.ci")
    i, d = m.end(), 1
    while d:
        if i >= len(text):
            raise AnalysisError("brackets of timestepping.ci do not balance")
        d += {"{": 1, "}": -1}.get(text[i], 0)
        i += 1
    b = re.sub(r"//[^\n]*", "", text[m.end() : i - 1])
    whens = {}

    def rep(q):
        names = [(re.findall(r"\w+", re.sub(r"\[[^\]]*\]", "", p)) or [""])[-1] for p in q[2].split(",")]
        whens[q[1]] = names
        return f"if (when_{q[1]}()) "

    b = re.sub(r"\bwhen\s+(\w+)\s*\(([^()]*)\)", rep, b)
    b = re.sub(r"\bserial\s*\{", "{", b)
    return b, whens


class One:
    """everything generated for one integration method"""

    def __init__(self, P, D, meth):
        self.meth = meth
        self.fn, self.ob = dist.superB_h()
        gfs = defines(P, meth)
        self.gfs = {n: int(v) for n, v in gfs.items() if n.endswith("GFS") and v.isdigit()}
        self.ob.update(gfs)
        BD = {meth: D[meth]}
        cpp, _ = p21.generated(f"{TC}:output_timestepping_cpp", project_dir="p", Butcher_dict=BD, MoL_method=meth, enable_rfm_precompute=True, enable_CurviBCs=True)
        if p21.cheap_balance(cpp):
            raise AnalysisError("brackets of timestepping.cpp do not balance")
        self.funcs = pup.functions(cpp)

    def run(self, name, **env):
        if name not in self.funcs:
            raise AnalysisError(f"{name} not found in timestepping.cpp")
        ps, body = self.funcs[name]
        return dist.run(body, env=env, fn=self.fn, ob=self.ob), ps


def arr(e):
    """(array key, index) of a store or of the value of a store"""
    if e.path and e.path[-1][0] == "i":
        return key(e.base, e.path[:-1]), e.path[-1][1]
    return key(e.base, e.path), None


def load_of(v):
    v = sp.sympify(v)
    if isinstance(v, sp.core.function.AppliedUndef) and len(v.args) == 1:
        return v.func.__name__, v.args[0]
    return None, None


def fieldpart(x, ts):
    """split index into field term and rest: (function name, its argument, coefficient, rest)"""
    fs = list(x.atoms(sp.core.function.AppliedUndef))
    if len(fs) != 1:
        raise AnalysisError(f"index {x} has {len(fs)} field selectors")
    f = fs[0]
    c = sp.expand(x.coeff(f, 1))
    return f.func.__name__, f.args[0], c, sp.expand(x - c * f)


def member(name):
    return name.split(".")[-1]


# ---------------------------------------------------------------- the neighbour exchange
def exchange(ctx, o):
    sync = {}
    sends = {}  # dir -> [(entry, axis, delta)]
    for gname, g in sorted(o.gfs.items()):
        W = f"{TC}:output_timestepping_cpp|{gname}"
        for a, dn in enumerate(DIRS):
            if dn not in o.ob:
                raise AnalysisError(f"{dn} is not defined")
            ce, ps = o.run("send_neighbor_data", type_gfs=sp.Integer(g), dir=sp.Integer(int(o.ob[dn])))
            snd = [e for e in ce.events if e.kind == "send"]
            pos = {id(e): i for i, e in enumerate(ce.events)}
            got = []
            for k, m in enumerate(snd):
                lo = pos[id(snd[k - 1])] if k else -1
                packs = [e for e in ce.events[lo + 1 : pos[id(m)]] if e.kind == "store" and "tmpBuffer" in e.key and e.path and e.path[-1][0] == "i"]
                d = destination(ctx, W, dn, a, m)
                if d is None:
                    continue
                r = one_message(ctx, o, W, dn, a, d, gname, g, m, packs)
                if r is None:
                    continue
                got.append((m.name, a, d))
                sync.setdefault(gname, set()).add(r)
            if sorted(x[2] for x in got) != [-1, 1]:
                if len(snd) != 2 or sorted(x[2] for x in got) == sorted(set(x[2] for x in got)) and len(got) == len(snd):
                    ctx.violation("neighbours", f"{W}|{dn}", f"[{o.meth}] {dn}: data are sent to the neighbours at offsets {sorted(x[2] for x in got)} along axis {a}, expected [-1, 1]")
            else:
                ctx.ok("neighbours", 2)
            sends.setdefault(int(o.ob[dn]), got)
    for gname, s in sorted(sync.items()):
        aux = gname == "AUXEVOL_GFS"
        want = ("auxevol_gfs_to_sync", "num_auxevol_gfs_to_sync") if aux else ("evol_gfs_to_sync", "num_evol_gfs_to_sync")
        for x in s:
            if x != want:
                ctx.violation("fields", f"{TC}:generate_switch_statement_for_gf_types|{gname}", f"[{o.meth}] for {gname} the fields {x} are exchanged, expected {want}")
            else:
                ctx.ok("fields")
    return sends


def destination(ctx, W, dn, a, m):
    want = [S(f"thisIndex.{c}") for c in "xyz"]
    if len(m.to) != 3:
        raise AnalysisError(f"destination {m.to}")
    off = [sp.expand(x - w) for x, w in zip(m.to, want)]
    if any(x != 0 for i, x in enumerate(off) if i != a) or off[a] not in (1, -1):
        ctx.violation("neighbours", f"{W}|{dn}|{m.name}", f"{m.name} is sent to the element at offset {off} during the {dn} exchange")
        return None
    d = int(off[a])
    g = [norm(c) if b else None for c, b in guards(m)]
    ti, nc = S(f"thisIndex.{'xyz'[a]}"), S(f"Nchare{a}")
    exp = F("lt0")(-ti) if d < 0 else F("lt0")(sp.expand(ti - nc + 1))
    if [norm_g(c, b) for c, b in guards(m)] != [exp]:
        ctx.violation("neighbours", f"{W}|{dn}|{m.name}", f"{m.name} is sent if {[str(norm_g(c, b)) for c, b in guards(m)]}; the neighbour exists iff {exp}")
        return None
    return d


def norm_g(c, b):
    """condition with grid members normalised; negation of an integer comparison resolved"""
    n = getattr(c.func, "__name__", "")
    if n == "lt0":
        x = norm(c.args[0])
        return F("lt0")(x if b else sp.expand(-x - 1))
    if n in ("eq", "ne"):
        x = norm(c.args[0])
        return F(n if b else {"eq": "ne", "ne": "eq"}[n])(min((x, sp.expand(-x)), key=str))
    if n == "and_" and b:
        return F("and_")(*sorted((norm_g(x, True) for x in c.args), key=str))
    return F("is")(S(str(c)), sp.Integer(1 if b else 0))


def one_message(ctx, o, W, dn, a, d, gname, g, m, packs):
    """one message: packed, sent, unpacked"""
    C = f"{W}|{dn}|{m.name}"
    ghost = m.name.upper()
    if ghost not in o.ob:
        raise AnalysisError(f"no ghost zone constant for the entry {m.name}")
    if len(m.args) != 3 or m.args[0] != g:
        ctx.violation("message", C, f"[{o.meth}] the message carries {m.args[:1]} as array identifier, expected type_gfs")
        return None
    length = norm(m.args[1])
    buf = m.args[2]
    bkey = key(buf.base, buf.path) if isinstance(buf, Addr) and buf.off == 0 else str(buf)
    packs = [e for e in packs if arr(e)[0] == bkey]
    if len(packs) != 1:
        ctx.violation("message", C, f"[{o.meth}] {len(packs)} assignments fill the buffer {bkey} that is sent")
        return None
    p = packs[0]
    if guards(p) != guards(m):
        ctx.violation("message", C, f"[{o.meth}] the buffer is filled under {guards(p)} and sent under {guards(m)}")
        return None
    L = Loops(p, "s")
    num = [s for s in length.free_symbols if re.search(r"num_\w+_gfs_to_sync$", s.name)]
    B = L.of(arr(p)[1])
    fl = flips(B, L.trip)
    B = sp.expand(B.subs(fl, simultaneous=True))
    bad = exact_cover(B, L.trip, length)
    if bad:
        ctx.violation("message", C, f"[{o.meth}] the buffer is not filled exactly: {bad}")
        return None
    src, sx = load_of(p.val)
    if src is None:
        raise AnalysisError(f"value packed: {p.val}")
    sx = sp.expand(L.of(sx).subs(fl, simultaneous=True))
    # receiving side
    ce, ps = o.run("process_ghost", type_ghost=sp.Integer(int(o.ob[ghost])), type_gfs=sp.Integer(g))
    vals = ps[3]
    st = [e for e in ce.events if e.kind == "store" and e.path and e.path[-1][0] == "i" and load_of(e.val)[0] == vals]
    other = [e for e in ce.events if e.kind == "store" and e.path and e.path[-1][0] == "i" and "gridfuncs" in e.key and e not in st]
    if len(st) != 1 or other:
        ctx.violation("ghosts", C, f"[{o.meth}] {len(st)} assignments unpack {ghost}")
        return None
    r = st[0]
    if guards(r):
        ctx.violation("ghosts", C, f"[{o.meth}] {ghost} is unpacked only if {guards(r)}")
        return None
    M = Loops(r, "r")
    Br = M.of(load_of(r.val)[1])
    fr = flips(Br, M.trip)
    Br = sp.expand(Br.subs(fr, simultaneous=True))
    bad = exact_cover(Br, M.trip, length)
    if bad:
        ctx.violation("ghosts", C, f"[{o.meth}] {ghost}: the received values are not all used: {bad}")
        return None
    rx = sp.expand(M.of(arr(r)[1]).subs(fr, simultaneous=True))
    if member(arr(r)[0]) != member(src) or member(src) != gname.lower():
        ctx.violation("ghosts", C, f"[{o.meth}] values of {member(src)} are stored in {member(arr(r)[0])} for {gname}")
        return None
    # pair the loops through the buffer index
    cs, _ = linear(B, list(L.trip))
    cr, _ = linear(Br, list(M.trip))
    pair = {}
    for t, c in cs.items():
        u = [x for x, y in cr.items() if sp.expand(y - c) == 0 and sp.expand(M.trip[x] - L.trip[t]) == 0]
        if len(u) != 1:
            ctx.violation("ghosts", C, f"[{o.meth}] {ghost}: sender and receiver arrange the buffer differently (stride {c})")
            return None
        pair[t] = u[0]
    sx = sp.expand(sx.subs(pair, simultaneous=True))
    fs, rs = fieldpart(sx, M.trip), fieldpart(rx, M.trip)
    full = norm(FULL)
    if fs[:2] != rs[:2] or sp.expand(fs[2] - full) != 0 or sp.expand(rs[2] - full) != 0:
        ctx.violation("ghosts", C, f"[{o.meth}] {ghost}: field {fs[0]}[{fs[1]}] is stored as field {rs[0]}[{rs[1]}]")
        return None
    # same point of the global grid
    shift = sp.expand(rs[3] - fs[3])
    want = sp.expand(norm(-d * S(f"Nxx{a}") * STRIDE[a]))
    if sp.expand(shift - want) != 0:
        ctx.violation("ghosts", C, f"[{o.meth}] {ghost}: a cell is filled with the value of another point of the global grid (index shift {shift} between sender and receiver, expected {want})")
        return None
    # exactly the ghost zone facing the sender
    x = rs[3]
    fx = flips(x, {t: M.trip[t] for t in M.trip if t in x.free_symbols})
    x = sp.expand(x.subs(fx, simultaneous=True))
    co, c0 = linear(x, list(M.trip))
    start = S(f"Nxx{a}") + NG if d < 0 else Z
    need = {i: (norm(STRIDE[i]), norm(S(f"Nxx_plus_2NGHOSTS{i}")) if i != a else NG) for i in range(3)}
    have = [(c, M.trip[t]) for t, c in co.items()]
    for i, (s, n) in need.items():
        q = [h for h in have if sp.expand(h[0] - s) == 0 and sp.expand(h[1] - n) == 0]
        if len(q) != 1:
            ctx.violation("ghosts", C, f"[{o.meth}] {ghost}: the cells filled do not extend over {n} points along axis {i}")
            return None
        have.remove(q[0])
    if have or sp.expand(c0 - norm(start * STRIDE[a])) != 0:
        ctx.violation("ghosts", C, f"[{o.meth}] {ghost}: the cells filled start at {c0}, the ghost zone facing the sender at {norm(start * STRIDE[a])}")
        return None
    ctx.ok("ghosts")
    ctx.ok("message")
    ctx.sample(f"{gname} {m.name}: {length} values, shift {shift}")
    if len(num) != 1:
        raise AnalysisError(f"message length {length}")
    return member(fs[0]), member(num[0].name)


# ---------------------------------------------------------------- schedule of timestepping.ci
def schedule(ctx, o, D, sends, outer, resid, psi4, post):
    W = f"{TC}:output_timestepping_ci"
    lab = f"{o.meth}, {outer}, residual={resid}"
    text, _ = p21.generated(
        f"{TC}:output_timestepping_ci", project_dir="p", Butcher_dict={o.meth: D[o.meth]}, MoL_method=o.meth, post_non_y_n_auxevol_mallocs="", outer_bcs_type=outer,
        enable_psi4_diagnostics=psi4, enable_residual_diagnostics=resid, enable_charm_checkpointing=not resid,
    )  # fmt: skip
    body, whens = ci(text)
    b = [s for s in ctext.parse(body)[0]]
    ce = dist.Dist(fn=o.fn, ob=o.ob)
    # one pass through the loop body is what matters for the order of operations
    ce.loop_once = True
    seq = []
    flat(ce, b, (), seq)
    nsub = len(D[o.meth][0]) - 1
    rk = {int(o.ob[f"RK_SUBSTEP_K{i+1}"]): i + 1 for i in range(nsub)}
    part = {int(o.ob[n]): n for n in ("MOL_PRE_RK_UPDATE", "MOL_RK_UPDATE", "MOL_POST_RK_UPDATE_APPLY_BCS", "MOL_POST_RK_UPDATE")}
    gname = {v: k for k, v in o.gfs.items()}
    # --- receive handlers
    entries = {e: (a, d) for v in sends.values() for e, a, d in v}
    counts = {}
    pend = {}
    last = {}  # array -> direction last sent
    seg = {}  # array -> directions exchanged since the last update
    hist = []  # (what, ...)
    steps = []
    nl = {}
    inl = False
    for kind, name, args, gs, loops in seq:
        G = [g for g in gs if g[0] != "when"]
        wh = [g[1] for g in gs if g[0] == "when"]
        inl = "main" in loops
        if name == "MoL_step_forward_in_time":
            k, p = args[3], args[4]
            if not (k.is_Integer and p.is_Integer and int(k) in rk and int(p) in part):
                raise AnalysisError(f"time step call with {args[3:]}")
            if G or wh or "main" not in loops or [x for x in loops if x != "main"]:
                ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] substep {rk[int(k)]} is performed only if {G or wh or loops}")
            if part[int(p)] == "MOL_PRE_RK_UPDATE" and steps:
                close(ctx, W, lab, o, steps[-1], seg, post, outer, nl)
            steps.append((rk[int(k)], part[int(p)])) if False else None
            if part[int(p)] == "MOL_PRE_RK_UPDATE":
                if not steps:
                    initial(ctx, W, lab, seg)
                steps.append([rk[int(k)], []])
                seg, nl = {}, {}
            if not steps:
                ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] the step does not start with MOL_PRE_RK_UPDATE")
                return
            if rk[int(k)] != steps[-1][0]:
                ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] parts of the substeps {steps[-1][0]} and {rk[int(k)]} are mixed")
                return
            steps[-1][1].append(part[int(p)])
            if seg:
                ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] substep {rk[int(k)]} part {part[int(p)]} follows the exchange of {sorted(seg)}")
            seg = {}
        elif name == "send_neighbor_data":
            g, d = args[0], args[1]
            if not (g.is_Integer and d.is_Integer and int(g) in gname and int(d) in sends):
                ctx.violation("order", f"{W}|send_neighbor_data", f"[{lab}] exchange of unknown array or direction {args[:2]}")
                return
            if G or wh:
                ctx.violation("order", f"{W}|send_neighbor_data", f"[{lab}] {gname[int(g)]} is exchanged only if {G or wh}")
            g, d = int(g), int(d)
            if g in last and last[g] != d and any(pend.get(e, 0) for e, _, _ in sends[last[g]]):
                ctx.violation("order", f"{W}|corners|{gname[g]}", f"[{lab}] {gname[g]} is sent along another axis before the ghost zones along the previous one were received: edge and corner zones are stale")
            last[g] = d
            for e, _, _ in sends[d]:
                pend[e] = pend.get(e, 0) + 1
            seg.setdefault(gname[g], []).append(d)
            ctx.ok("order")
        elif name == "process_ghost":
            if len(wh) != 1 or wh[0] not in entries:
                ctx.violation("received", f"{W}|process_ghost", f"[{lab}] process_ghost is not run on arrival of one neighbour message: {wh}")
                continue
            e = wh[0]
            a, d = entries[e]
            ti, nc = S(f"thisIndex.{'xyz'[a]}"), S(f"Nchare{a}")
            # the sender of an entry sent with offset d sits at offset -d
            exp = F("lt0")(sp.expand(ti - nc + 1)) if d < 0 else F("lt0")(-ti)
            got = [norm_g(c, t) for _, c, t in G]
            if got != [exp]:
                ctx.violation("received", f"{W}|{e}", f"[{lab}] {e} is awaited if {got}; it is sent iff {exp}")
            names = whens[e]
            if not (args[0].is_Integer and args[0] == int(o.ob[e.upper()]) and [str(x) for x in args[1:4]] == names[:3]):
                ctx.violation("received", f"{W}|{e}", f"[{lab}] on arrival of {e} process_ghost gets {args}")
            if not pend.get(e):
                ctx.violation("received", f"{W}|{e}", f"[{lab}] {e} is awaited although nothing was sent")
            else:
                pend[e] -= 1
                ctx.ok("received")
        elif name == "send_nonlocalinnerbc_data":
            g = args[0]
            if not (g.is_Integer and int(g) in gname):
                ctx.violation("inner", f"{W}|send_nonlocalinnerbc_data", f"[{lab}] unknown array {args[:1]}")
                return
            if [str(norm_g(c, t)) for _, c, t in G] not in ([], [str(F("lt0")(-S("griddata_chare[grid].nonlocalinnerbcstruct.tot_num_dst_chares")))]):
                ctx.violation("inner", f"{W}|send_nonlocalinnerbc_data", f"[{lab}] boundary data are sent only if {[str(norm_g(c, t)) for _, c, t in G]}")
            if counts.get("inner"):
                ctx.violation("inner", f"{W}|send_nonlocalinnerbc_data", f"[{lab}] boundary data of {gname[int(g)]} are sent before those sent earlier were received")
            counts["inner"] = 1
            counts["at"] = steps[-1][1][-1] if steps else None
            nl.setdefault(counts["at"], []).append(gname[int(g)])
        elif name == "set_tmpBuffer_innerbc_receiv":
            lp = [x for x in loops if x != "main"]
            n = S("griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares")
            if wh != ["receiv_nonlocalinnerbc_data"] or lp != [(Z, n)] or [str(x) for x in args[:3]] != [whens["receiv_nonlocalinnerbc_data"][i] for i in (0, 2, 3)]:
                ctx.violation("inner", f"{W}|set_tmpBuffer_innerbc_receiv", f"[{lab}] boundary data are stored under {wh} {lp} with {args}")
            counts["stored"] = 1
        elif name == "process_nonlocalinnerbc":
            if not counts.get("inner") or not counts.get("stored"):
                ctx.violation("inner", f"{W}|process_nonlocalinnerbc", f"[{lab}] boundary data are applied before they were sent and received")
            if wh or [x for x in loops if x != "main"] or [str(norm_g(c, t)) for _, c, t in G] not in ([], [str(F("lt0")(-S("griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares")))]):
                ctx.violation("inner", f"{W}|process_nonlocalinnerbc", f"[{lab}] boundary data are applied under {wh} {G}")
            if str(args[0]) not in ("type_gfs_nonlocal_innerbc",):
                ctx.violation("inner", f"{W}|process_nonlocalinnerbc", f"[{lab}] boundary data are applied to {args[0]}, not to the array they were sent for")
            counts["inner"] = counts["stored"] = 0
            ctx.ok("inner")
    left = {e: n for e, n in pend.items() if n}
    if left:
        ctx.violation("received", f"{W}|{sorted(left)[0]}", f"[{lab}] messages sent but never received: {left}")
    if counts.get("inner"):
        ctx.violation("inner", f"{W}|process_nonlocalinnerbc", f"[{lab}] boundary data are sent and not applied")
    if not steps:
        ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] no time step is taken")
        return
    close(ctx, W, lab, o, steps[-1], seg, post, outer, nl)
    if [s[0] for s in steps] != list(range(1, nsub + 1)):
        ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] substeps are taken in the order {[s[0] for s in steps]}")
    # the simulation time is advanced once, by dt, after the last substep
    ctx.ok("order", len(steps))


def initial(ctx, W, lab, seg):
    for g in ("Y_N_GFS", "AUXEVOL_GFS"):
        if len(set(seg.get(g, []))) != 3:
            ctx.violation("order", f"{W}|initial|{g}", f"[{lab}] the ghost zones of {g} are exchanged along {len(set(seg.get(g, [])))} of the three axes before the first step")
        else:
            ctx.ok("order")


def close(ctx, W, lab, o, step, seg, post, outer, nl):
    s, parts = step
    want = ["MOL_PRE_RK_UPDATE", "MOL_RK_UPDATE"] + (["MOL_POST_RK_UPDATE_APPLY_BCS"] if outer == "extrapolation" else []) + ["MOL_POST_RK_UPDATE"]
    if parts != want:
        ctx.violation("order", f"{W}|MoL_step_forward_in_time", f"[{lab}] substep {s} performs {parts}, expected {want}")
    for g in post[0][s] + ["AUXEVOL_GFS"]:
        if len(set(seg.get(g, []))) != 3:
            ctx.violation("order", f"{W}|substep|{g}", f"[{lab}] after substep {s} the ghost zones of {g} are exchanged along {len(set(seg.get(g, [])))} of the three axes; the next substep reads them")
        else:
            ctx.ok("order")
    at = {"radiation": ("MOL_PRE_RK_UPDATE", post[1][s]), "extrapolation": ("MOL_POST_RK_UPDATE_APPLY_BCS", post[0][s])}[outer]
    for k, gs in ((at[0], at[1]), ("MOL_POST_RK_UPDATE", ["AUXEVOL_GFS"])):
        miss = [g for g in gs if g not in nl.get(k, [])]
        if miss:
            ctx.violation("inner", f"{W}|substep", f"[{lab}] substep {s}: inner boundary data of {miss} are not exchanged after {k}")
        else:
            ctx.ok("inner")


CALLS = ("MoL_step_forward_in_time", "send_neighbor_data", "process_ghost", "send_nonlocalinnerbc_data", "set_tmpBuffer_innerbc_receiv", "process_nonlocalinnerbc")


def flat(ce, stmts, gs, out, loops=()):
    """relevant calls in program order with the conditions and loops around them"""
    from sa.cflow import strip

    for s in stmts if isinstance(stmts, list) else [stmts]:
        if s.k == "block":
            flat(ce, s.body, gs, out, loops)
        elif s.k == "if":
            c = strip(s.cond)
            if c.k == "call" and strip(c.f).k == "id" and strip(c.f).name.startswith("when_"):
                flat(ce, s.then, gs + (("when", strip(c.f).name[5:]),), out, loops)
                continue
            v = ce.truth(ce.ev(s.cond))
            flat(ce, s.then, gs + (("if", v, True),), out, loops)
            if s.els is not None:
                flat(ce, s.els, gs + (("if", v, False),), out, loops)
        elif s.k == "while":
            flat(ce, s.body, gs, out, loops + ("main",))
        elif s.k == "for":
            lo, hi = bounds(ce, s)
            flat(ce, s.body, gs, out, loops + ((lo, hi),))
        elif s.k == "expr":
            c = strip(s.e)
            if c.k == "call" and strip(c.f).k == "id" and strip(c.f).name in CALLS:
                out.append(("call", strip(c.f).name, [ce.as_sym(ce.ev(a)) for a in c.args], gs, loops))
        elif s.k in ("switch", "do", "goto"):
            raise AnalysisError(f"{s.k} in the main routine")


def bounds(ce, s):
    from sa.cflow import strip

    i, c, st = strip(s.init.e) if s.init is not None and s.init.k == "expr" else None, strip(s.cond), strip(s.step)
    if s.init is not None and s.init.k == "decl":
        v, lo = s.init.decls[0].name, ce.ev(s.init.decls[0].init)
    elif i is not None and i.k == "assign":
        v, lo = strip(i.a).name, ce.ev(i.b)
    else:
        raise AnalysisError("loop without start value")
    if c.k != "bin" or c.op not in ("<", "<=", "!=") or strip(c.a).k != "id" or strip(c.a).name != v or st.k not in ("post", "un") or st.op != "++":
        raise AnalysisError(f"loop over {v}")
    return lo, sp.expand(ce.as_sym(ce.ev(c.b)) + (1 if c.op == "<=" else 0))


# ---------------------------------------------------------------- ownership and index maps
def registered(fn, *a, setup=None, **k):
    I = closed.make(models={**closed.record_models(), **closed.file_models()})

    def go(I):
        if setup:
            setup(I)
        closed.call(I, fn, *a, **k)

    trs = I.run(go)
    if len(trs) != 1 or trs[0].outcome[0] == "raise":
        raise AnalysisError(f"{fn}: {trs[0].outcome}")
    return {T(e["args"]["name"]): e["args"] for e in trs[0].effects if e["kind"] == "register_CFunction"}


def gname_(s):
    """names of the global and of the element's grid extents"""
    m = re.fullmatch(r"(?:\w+\[0\]|\*?\w+)\.(Nxx\d|Nxx_plus_2NGHOSTS\d|Nchare\d)", s)
    if not m:
        return None
    return m[1] + ("L" if s.startswith("params_chare") else "")


def nmap(e):
    """polynomial in Nxx?L (element), Nchare?, NGHOSTS: the global extent is Nchare*NxxL"""
    e = sp.sympify(e)
    e = e.subs({s: S(gname_(s.name)) for s in e.free_symbols if gname_(s.name)}, simultaneous=True)
    m = {}
    for d in range(3):
        l = S(f"Nxx{d}L")
        m[S(f"Nxx{d}")] = S(f"Nchare{d}") * l
        m[S(f"Nxx_plus_2NGHOSTS{d}")] = S(f"Nchare{d}") * l + 2 * NG
        m[S(f"Nxx_plus_2NGHOSTS{d}L")] = l + 2 * NG
    return sp.expand(e.subs(m, simultaneous=True))


def decide(c, m):
    """truth of a comparison after substitution; symbols are counts >= 0"""
    n = getattr(c.func, "__name__", "")
    if n in ("eq", "ne", "lt0"):
        x = sp.expand(nmap(c.args[0]).subs(m, simultaneous=True))
        cs = sp.Poly(x, *x.free_symbols).terms() if x.free_symbols else [((), x)]
        neg, pos = all(k <= 0 for _, k in cs), all(k >= 0 for _, k in cs)
        const = x.subs({s: 0 for s in x.free_symbols})
        if n == "lt0":
            if neg and const < 0:
                return True
            if pos:
                return False
            raise AnalysisError(f"sign of {x} unknown")
        if x == 0:
            return n == "eq"
        if (neg or pos) and const != 0:
            return n == "ne"
        raise AnalysisError(f"comparison of {x} with 0 unknown")
    if n == "and_":
        return all(decide(a, m) for a in c.args)
    if n == "or_":
        return any(decide(a, m) for a in c.args)
    if n == "not_":
        return not decide(c.args[0], m)
    raise AnalysisError(f"condition {c}")


def resolve(x, m):
    x = sp.sympify(x)
    while True:
        it = [a for a in x.atoms(sp.core.function.AppliedUndef) if a.func.__name__ == "ite" and not any(b.func.__name__ == "ite" for q in a.args for b in q.atoms(sp.core.function.AppliedUndef))]
        if not it:
            return sp.expand(nmap(x).subs(m, simultaneous=True))
        x = x.subs({a: (a.args[1] if decide(a.args[0], m) else a.args[2]) for a in it}, simultaneous=True)


def ownership(ctx):
    W = f"{SB}.chare_communication_maps:register_CFunction_charecommstruct_set_up"
    regs = registered(W, "Fake")
    a = regs["charecommstruct_set_up"]
    fn, ob = dist.superB_h()
    ce = dist.run(T(a["body"]), fn=fn, ob=ob)
    st = {}
    for e in ce.events:
        if e.kind == "store" and e.path and e.path[-1][0] == "i":
            st.setdefault(member(arr(e)[0]), []).append(e)
    for n in ("globalidx3pt_to_chareidx3", "globalidx3pt_to_localidx3pt", "localidx3pt_to_globalidx3pt"):
        if len(st.get(n, [])) != 1:
            raise AnalysisError(f"{len(st.get(n, []))} assignments to {n}")
        e = st[n][0]
        if guards(e):
            ctx.violation("ownership", f"{W}|{n}", f"{n} is set only if {guards(e)}")
    gl = [sp.Integer(1), nmap(S("Nxx_plus_2NGHOSTS0")), nmap(S("Nxx_plus_2NGHOSTS0") * S("Nxx_plus_2NGHOSTS1"))]
    ll = [sp.Integer(1), nmap(S("Nxx_plus_2NGHOSTS0L")), nmap(S("Nxx_plus_2NGHOSTS0L") * S("Nxx_plus_2NGHOSTS1L"))]
    cl = [sp.Integer(1), S("Nchare0"), S("Nchare0") * S("Nchare1")]
    # per-element loops: which variable is the local index along axis i, which the element index
    for n in ("globalidx3pt_to_chareidx3", "globalidx3pt_to_localidx3pt"):
        e = st[n][0]
        fr = {S(f[1]): f for f in e.ctx if f[0] == "for"}
        x = nmap(arr(e)[1])
        v = nmap(e.val)
        co, c0 = linear(x, list(fr))
        if co is None or c0 != 0:
            ctx.violation("ownership", f"{W}|{n}", f"index {x} is not that of a point of the global grid")
            continue
        used = []
        for i in range(3):
            loc = [t for t, c in co.items() if sp.expand(c - gl[i]) == 0]
            ch = [t for t, c in co.items() if sp.expand(c - gl[i] * S(f"Nxx{i}L")) == 0]
            if len(loc) != 1 or len(ch) != 1:
                ctx.violation("ownership", f"{W}|{n}|axis {i}", f"the global index along axis {i} is not element index * points per element + local index: coefficients {({str(k): str(c) for k, c in co.items()})}")
                break
            used += [loc[0], ch[0]]
            tile(ctx, W, n, i, fr[loc[0]], fr[ch[0]], ch[0])
        else:
            if len(co) != 6:
                ctx.violation("ownership", f"{W}|{n}", "the global index depends on further variables")
                continue
            tgt = used[1::2] if n.endswith("chareidx3") else used[0::2]
            want = sum(t * c for t, c in zip(tgt, cl if n.endswith("chareidx3") else ll))
            if sp.expand(v - want) != 0:
                ctx.violation("ownership", f"{W}|{n}", f"value {v}, expected {sp.expand(want)}")
            else:
                ctx.ok("ownership")
    n = "localidx3pt_to_globalidx3pt"
    e = st[n][0]
    fr = {S(f[1]): f for f in e.ctx if f[0] == "for"}
    x, v = nmap(arr(e)[1]), nmap(e.val)
    L = Loops(e, "t", nmap)
    bad = exact_cover(L.of(arr(e)[1]), L.trip, nmap(S("Nxx_plus_2NGHOSTS0L") * S("Nxx_plus_2NGHOSTS1L") * S("Nxx_plus_2NGHOSTS2L")))
    co, c0 = linear(x, list(fr))
    want = sum(gl[i] * S(f"Nxx{i}L") * S(f"thischareindex[{i}]") for i in range(3))
    for t, c in (co or {}).items():
        i = [i for i in range(3) if sp.expand(c - ll[i]) == 0]
        if len(i) != 1:
            bad = bad or f"stride {c}"
            continue
        want += gl[i[0]] * t
    if bad or sp.expand(v - want) != 0:
        ctx.violation("ownership", f"{W}|{n}", bad or f"value {v}, expected {sp.expand(want)}")
    else:
        ctx.ok("ownership")
    # allocation
    al = {member(key(e.base, e.path)): e.val for e in ce.events if e.kind == "store" and getattr(getattr(e.val, "func", None), "__name__", "") in ("malloc", "calloc")}
    for n, size in (("globalidx3pt_to_chareidx3", FULL), ("globalidx3pt_to_localidx3pt", FULL), ("localidx3pt_to_globalidx3pt", S("Nxx_plus_2NGHOSTS0L") * S("Nxx_plus_2NGHOSTS1L") * S("Nxx_plus_2NGHOSTS2L"))):
        if n not in al:
            raise AnalysisError(f"allocation of {n} not found")
        if sp.expand(nmap(sp.prod(al[n].args)) - nmap(size) * S("sizeof(int)")) != 0:
            ctx.violation("ownership", f"{W}|{n}", f"{nmap(sp.prod(al[n].args))} bytes are allocated")
        else:
            ctx.ok("ownership")


def tile(ctx, W, n, i, fl, fc, c):
    """the ranges of consecutive elements tile the axis"""
    if fl[4] != 1 or fc[4] != 1 or nmap(fc[2]) != 0 or sp.expand(nmap(fc[3]) - S(f"Nchare{i}")) != 0:
        ctx.violation("ownership", f"{W}|{n}|axis {i}", f"elements from {fc[2]} to {fc[3]} are visited")
        return
    N, nx = S(f"Nchare{i}"), S(f"Nxx{i}L")
    u, w = S("u_"), S("w_")

    def rng(cv, nv):
        m = {c: cv, N: nv}
        off = sp.expand(cv * nx)
        return sp.expand(resolve(fl[2], m) + off), sp.expand(resolve(fl[3], m) + off)

    # (element, number of elements); then its successor
    chk = []
    # a single element
    lo, hi = rng(Z, sp.Integer(1))
    chk.append((lo, Z, "start of the only element"))
    chk.append((hi, nx + 2 * NG, "end of the only element"))
    # first of several, interior (1+u of u+3+w), last of several (1+u of u+2)
    f = rng(Z, 2 + u)
    chk.append((f[0], Z, "start of the first element"))
    m1 = rng(1 + u, u + 3 + w)
    l = rng(1 + u, u + 2)
    chk.append((f[1], m1[0].subs(u, 0), "end of the first element"))
    chk.append((f[1], l[0].subs(u, 0), "end of the first of two elements"))
    chk.append((m1[1], sp.expand(m1[0].subs(u, u + 1)), "end of an interior element"))
    chk.append((m1[1], sp.expand(l[0].subs(u, u + 1)), "end of the last but one element"))
    chk.append((l[1], sp.expand((u + 2) * nx + 2 * NG), "end of the last element"))
    for g, e, what in chk:
        if sp.expand(g - e) != 0:
            ctx.violation("ownership", f"{W}|{n}|axis {i}", f"{what} along axis {i} is at global index {g}, expected {e}: points are owned twice or not at all")
        else:
            ctx.ok("ownership")


# ---------------------------------------------------------------- coordinates
def coordinates(ctx):
    W = f"{SB}.numerical_grids:register_CFunction_numerical_grid_params_Nxx_dxx_xx_chare"
    sys_ = "Fake"

    def setup(I):
        m = rfm.fake()
        m.xxmin, m.xxmax = ["0", "xlo1", "xlo2"], ["AMPL", "xhi1", "xhi2"]
        rfm.install(I, {sys_: m})

    a = registered(W, sys_, setup=setup)
    a = next(v for k, v in a.items() if k.startswith("numerical_grid_params_Nxx_dxx_xx_chare"))
    fn, ob = dist.superB_h()
    ce = dist.run(T(a["body"]), fn=fn, ob=ob, types={f"params{q}->{n}{d}": "REAL" for q in ("", "_chare") for n in ("xxmin", "xxmax", "dxx") for d in range(3)})
    g = registered("nrpy.infrastructures.BHaH.numerical_grids_and_timestep:register_CFunction_numerical_grid_params_Nxx_dxx_xx", sys_, {sys_: [31, 17, 8]}, setup=setup)
    g = next(v for k, v in g.items() if k.startswith("numerical_grid_params_Nxx_dxx_xx"))
    cg = dist.run(T(g["body"]), fn=fn, ob=ob)

    def xx(c, pre):
        out = {}
        for e in c.events:
            if e.kind == "store" and re.fullmatch(r"xx\[\d\]\[.*\]", e.key) and guards_ok(e):
                out.setdefault(int(e.path[0][1]), []).append(e)
        return out

    def guards_ok(e):
        return True

    xl, xg = xx(ce, 0), xx(cg, 0)
    for d in range(3):
        if len(xl.get(d, [])) != 1 or len(xg.get(d, [])) < 1:
            raise AnalysisError(f"coordinate array {d}: {len(xl.get(d, []))} and {len(xg.get(d, []))} assignments")
        e, q = xl[d][0], xg[d][-1]
        j = S("j_")
        fe = [f for f in e.ctx if f[0] == "for"]
        fq = [f for f in q.ctx if f[0] == "for"]
        if len(fe) != 1 or len(fq) != 1 or e.path[1][1] != S(fe[0][1]) or q.path[1][1] != S(fq[0][1]):
            raise AnalysisError("coordinate loops")
        if nmap(fe[0][2]) != 0 or sp.expand(nmap(real(fe[0][3])) - S(f"Nxx{d}L") - 2 * NG) != 0:
            # the loop bound may be the value just assigned
            ctx.violation("coordinates", f"{W}|axis {d}", f"coordinates are set for {fe[0][2]}..{nmap(fe[0][3])}")
            continue
        ren = lambda x: nmap(real(x))
        loc = ren(e.val.subs(S(fe[0][1]), j))
        # the undivided grid: xxmin + (j - NGHOSTS + 1/2) dxx, whatever xxmin and dxx are at that point
        x0, dx = (last(cg, q, f"params[0].{n}{d}") for n in ("xxmin", "dxx"))
        glo = S(f"xxmin{d}") + (j - NG + sp.Rational(1, 2)) * S(f"dxx{d}")
        if sp.simplify(q.val.subs(S(fq[0][1]), j) - (x0 + (j - NG + sp.Rational(1, 2)) * dx)) != 0:
            ctx.violation("coordinates", f"BHaH.numerical_grids_and_timestep|axis {d}", f"point j is put at {q.val}, which is not xxmin + (j - NGHOSTS + 1/2) dxx")
            continue
        glo = sp.expand(glo.subs(j, j + S(f"Nxx{d}L") * S(f"chare_index[{d}]")))
        if sp.expand(loc - glo) != 0:
            ctx.violation("coordinates", f"{W}|axis {d}", f"local point j of element c is put at {loc}; the same point of the undivided grid is at {glo}")
        else:
            ctx.ok("coordinates")
            ctx.sample(f"coordinate {d}: {loc}")
    fin = {}
    for e in ce.events:
        if e.kind == "store":
            fin[e.key] = e
    for d in range(3):
        nx = fin.get(f"params_chare[0].Nxx{d}")
        if nx is None or sp.expand(sp.sympify(nx.val) - F("idiv")(S(f"params[0].Nxx{d}"), S(f"commondata[0].Nchare{d}"))) != 0:
            ctx.violation("coordinates", f"{W}|Nxx{d}", f"points per element along axis {d}: {getattr(nx, 'val', None)}")
        else:
            ctx.ok("coordinates")
        c, n = S(f"chare_index[{d}]"), S(f"Nxx{d}L")
        dx = S(f"dxx{d}")
        want = {f"dxx{d}": dx, f"invdxx{d}": S(f"invdxx{d}"), f"xxmin{d}": S(f"xxmin{d}") + dx * n * c, f"xxmax{d}": S(f"xxmin{d}") + dx * n * (c + 1)}
        for k, w in want.items():
            e = fin.get(f"params_chare[0].{k}")
            if e is None:
                ctx.violation("coordinates", f"{W}|{k}", f"{k} of an element is not set")
                continue
            v = nmap(real(e.val)).subs(S(f"xxmax{d}"), S(f"xxmin{d}") + dx * n * S(f"Nchare{d}"))
            if sp.expand(v - w) != 0:
                ctx.violation("coordinates", f"{W}|{k}", f"{k} of an element is {sp.expand(v)}, expected {sp.expand(w)}")
            else:
                ctx.ok("coordinates")
        # only divisions without remainder and elements at least as wide as the ghost zones are accepted
        ex = [e for e in ce.events if e.kind == "call" and e.name in ("exit", "abort")]
        N, X = S(f"commondata[0].Nchare{d}"), S(f"params[0].Nxx{d}")
        conds = [tuple(c if b else None for c, b in guards(e)) for e in ex]
        rem = any(len(c) and c[-1] == F("ne")(min((F("mod")(X, N), -F("mod")(X, N)), key=str)) for c in conds)
        thin = any(any(narrow(x, X, N) for x in c if x is not None) for c in conds)
        if not rem:
            ctx.violation("coordinates", f"{W}|Nxx{d}|divisible", f"a number of points along axis {d} that the number of elements does not divide is accepted: points would be lost")
        else:
            ctx.ok("coordinates")
        if not thin:
            ctx.violation("coordinates", f"{W}|Nxx{d}|ghosts", f"elements narrower than the ghost zones along axis {d} are accepted: neighbours cannot fill them")
        else:
            ctx.ok("coordinates")


def last(c, ev, key):
    v = None
    for e in c.events:
        if e is ev:
            break
        if e.kind == "store" and e.key == key:
            v = e
    if v is None or any(f[0] == "for" for f in v.ctx):
        return S(key)
    if any(f[0] == "if" for f in v.ctx):
        # conditionally set: the value the abstract execution reads later
        return sp.sympify(c.env.get(key, S(key)))
    return sp.sympify(v.val)


def narrow(c, X, N):
    q = F("idiv")(X, N)
    one = F("lt0")(sp.expand(1 - N))
    thin = F("lt0")(q - NG)
    n = getattr(c.func, "__name__", "")
    return c == thin or (n == "and_" and set(c.args) == {one, thin})


def real(x):
    """members of the grid parameters by their bare names"""
    x = sp.sympify(x)
    m = {}
    for s in x.free_symbols:
        q = re.fullmatch(r"(?:params|params_chare)\[0\]\.((?:xxmin|xxmax|dxx|invdxx)\d)", s.name)
        if q:
            m[s] = S(q[1])
    x = x.subs(m, simultaneous=True)
    rep = {}
    for f in x.atoms(sp.core.function.AppliedUndef):
        if f.func.__name__ == "idiv" and len(f.args) == 2:
            q = re.fullmatch(r"params\[0\]\.Nxx(\d)", str(f.args[0]))
            if q and str(f.args[1]) == f"commondata[0].Nchare{q[1]}":
                rep[f] = S(f"Nxx{q[1]}L")
    return x.subs(rep, simultaneous=True)


# ---------------------------------------------------------------- inner boundary data between elements
def innerdata(ctx, o):
    P = "griddata_chare[grid].nonlocalinnerbcstruct"
    for gname, g in sorted(o.gfs.items()):
        W = f"{TC}:output_timestepping_cpp|send_nonlocalinnerbc_data"
        ce, ps = o.run("send_nonlocalinnerbc_data", type_gfs=sp.Integer(g))
        st = [e for e in ce.events if e.kind == "store" and "tmpBuffer_innerbc_send" in e.key and e.path and e.path[-1][0] == "i"]
        sd = [e for e in ce.events if e.kind == "send"]
        if len(st) != 1 or len(sd) != 1:
            ctx.violation("inner data", W, f"[{o.meth}] {len(st)} assignments and {len(sd)} messages for {gname}")
            continue
        e, m = st[0], sd[0]
        fr = [f for f in e.ctx if f[0] == "for"]
        bad = None
        if guards(e) or guards(m):
            bad = f"sent under {guards(m)}"
        if len(fr) != 3:
            bad = bad or f"{len(fr)} loops"
        if bad is None:
            ch, rest = fr[0], fr[1:]
            c = S(ch[1])
            n = F(f"{P}.num_srcpts_tosend_each_chare")(c)
            aux = gname == "AUXEVOL_GFS"
            num = S(f"griddata_chare[grid].gridfuncs.num_{'auxevol' if aux else 'evol'}_gfs_to_sync")
            sel = F(f"griddata_chare[grid].gridfuncs.{'auxevol' if aux else 'evol'}_gfs_to_sync")
            q = [f for f in rest if f[3] == n]
            w = [f for f in rest if f[3] == num]
            if (ch[2], str(ch[3])) != (0, f"{P}.tot_num_dst_chares") or len(q) != 1 or len(w) != 1 or any(f[2] != 0 or f[4] != 1 for f in fr):
                bad = f"loops {[(f[1], str(f[2]), str(f[3])) for f in fr]}"
            else:
                pt, gf = S(q[0][1]), S(w[0][1])
                if sp.expand(arr(e)[1] - (pt + n * gf)) != 0:
                    bad = f"value of field {gf}, point {pt} is put at {arr(e)[1]}"
                if arr(e)[0] != f"griddata_chare[grid].tmpBuffers.tmpBuffer_innerbc_send[{c}]":
                    bad = bad or f"buffer {arr(e)[0]}"
                src, sx = load_of(e.val)
                loc = F("griddata_chare[grid].charecommstruct.globalidx3pt_to_localidx3pt")(F(f"{P}.globalidx3_srcpts_tosend[{c}]")(pt))
                if src is None or member(src) != gname.lower() or sp.expand(norm(sx) - norm(loc + FULL * sel(gf))) != 0:
                    bad = bad or f"sends {e.val}"
                if len(m.args) != 4 or sp.expand(m.args[2] - num * n) != 0 or m.args[1] != g or m.name != "receiv_nonlocalinnerbc_data":
                    bad = bad or f"message {m.name}{m.args}"
                idx = sum(sp.expand(S(f"thisIndex.{x}") * k) for x, k in zip("xyz", (1, S("Nchare0"), S("Nchare0") * S("Nchare1"))))
                if bad is None and sp.expand(norm(m.args[0]) - idx) != 0:
                    bad = f"sender identified as {m.args[0]}"
                b = m.args[3]
                if bad is None and not (isinstance(b, Addr) and b.off == 0 and key(b.base, b.path) == arr(e)[0]):
                    bad = f"sends the buffer {b}"
                to = F(f"{P}.idx3_of_dst_chares")(c)
                n0, n1 = S("commondata.Nchare0"), S("commondata.Nchare1")
                wto = [F("mod")(F("mod")(to, n0 * n1), n0), F("idiv")(F("mod")(to, n0 * n1), n0), F("idiv")(to, n0 * n1)]
                if bad is None and [sp.expand(x) for x in m.to] != wto:
                    bad = f"destination {m.to}"
        if bad:
            ctx.violation("inner data", W, f"[{o.meth}] {gname}: {bad}")
        else:
            ctx.ok("inner data")
    W = f"{TC}:output_timestepping_cpp|set_tmpBuffer_innerbc_receiv"
    ce, ps = o.run("set_tmpBuffer_innerbc_receiv")
    st = [e for e in ce.events if e.kind == "store" and "tmpBuffer_innerbc_receiv" in e.key and e.path and e.path[-1][0] == "i"]
    ok = len(st) == 1 and not guards(st[0])
    if ok:
        e = st[0]
        f = [x for x in e.ctx if x[0] == "for"]
        i = S(f[0][1]) if f else None
        ok = len(f) == 1 and (f[0][2], f[0][3], f[0][4]) == (0, S(ps[1]), 1) and arr(e)[1] == i and sp.sympify(e.val) == F(ps[2])(i)
        ok = ok and arr(e)[0] == f"griddata_chare[grid].tmpBuffers.tmpBuffer_innerbc_receiv[{P}.idx3chare_to_src_chare_id({ps[0]})]"
    if not ok:
        ctx.violation("inner data", W, f"[{o.meth}] the received values are not stored unchanged in the buffer of their sender: {[(x.key, str(x.val)) for x in st]}")
    else:
        ctx.ok("inner data")
    # request lists: what an element asks for is what the owner will send, in the same order
    W = f"{TC}:output_timestepping_cpp|send_nonlocalinnerbc_idx3srcpts_toreceiv"
    P0 = "griddata_chare[0].nonlocalinnerbcstruct"
    ce, _ = o.run("send_nonlocalinnerbc_idx3srcpts_toreceiv")
    sd = [e for e in ce.events if e.kind == "send"]
    ok = len(sd) == 1 and not guards(sd[0])
    if ok:
        m = sd[0]
        f = [x for x in m.ctx if x[0] == "for"]
        ok = len(f) == 1 and (f[0][2], str(f[0][3]), f[0][4]) == (0, f"{P0}.tot_num_src_chares", 1)
        if ok:
            c = S(f[0][1])
            to = F(f"{P0}.idx3_of_src_chares")(c)
            n0, n1 = S("commondata.Nchare0"), S("commondata.Nchare1")
            wto = [F("mod")(F("mod")(to, n0 * n1), n0), F("idiv")(F("mod")(to, n0 * n1), n0), F("idiv")(to, n0 * n1)]
            idx = sum(sp.expand(S(f"thisIndex.{x}") * k) for x, k in zip("xyz", (1, S("Nchare0"), S("Nchare0") * S("Nchare1"))))
            ok = [sp.expand(x) for x in m.to] == wto and len(m.args) == 3 and sp.expand(norm(m.args[0]) - idx) == 0 and m.args[1] == F(f"{P0}.num_srcpts_each_chare")(c) and value_of(m.args[2]) == f"{P0}.globalidx3_srcpts({c})"
    if not ok:
        ctx.violation("inner data", W, f"[{o.meth}] the list of needed points is not sent to each source element: {[(x.name, x.to, x.args) for x in sd]}")
    else:
        ctx.ok("inner data")
    W = f"{TC}:output_timestepping_cpp|process_nonlocalinnerbc_idx3srcpt_tosend"
    ce, ps = o.run("process_nonlocalinnerbc_idx3srcpt_tosend")
    st = [e for e in ce.events if e.kind == "store" and "globalidx3_srcpts_tosend" in e.key and len(e.path) > 1 and e.path[-1][0] == "i"]
    ok = len(st) == 1 and not guards(st[0])
    if ok:
        e = st[0]
        f = [x for x in e.ctx if x[0] == "for"]
        ok = len(f) == 1 and (f[0][2], f[0][3], f[0][4]) == (0, S(ps[1]), 1)
        if ok:
            i = S(f[0][1])
            ok = sp.sympify(e.val) == F(ps[2])(i) and e.path[-1][1] == i and arr(e)[0] == f"{P0}.globalidx3_srcpts_tosend[{P0}.idx3chare_to_dst_chare_id({ps[0]})]"
    if not ok:
        ctx.violation("inner data", W, f"[{o.meth}] the list of points to send is not stored for the element that asked: {[(x.key, str(x.val)) for x in st]}")
    else:
        ctx.ok("inner data")


def value_of(v):
    if isinstance(v, Addr):
        return key(v.base, v.path)
    return str(v)


def buffers(ctx):
    """the message buffers are as long as the longest message"""
    W = f"{TC}:register_CFunction_timestepping_malloc"
    a = next(iter(registered(W).values()))
    fn, ob = dist.superB_h()
    ce = dist.run(T(a["body"]), fn=fn, ob=ob)
    al = {}
    for e in ce.events:
        if e.kind == "store" and getattr(getattr(e.val, "func", None), "__name__", "") in ("malloc", "calloc"):
            al.setdefault(re.sub(r"\[(?!0\])[^\]]*\]", "[]", e.key), []).append(e)
    mx = S("gridfuncs[0].max_sync_gfs")
    b = S("sizeof(REAL)")
    for k, d in (("EW", 0), ("NS", 1), ("TB", 2)):
        e = al.get(f"tmpBuffers[0].tmpBuffer_{k}")
        want = norm(b * mx * NG * sp.prod(S(f"Nxx_plus_2NGHOSTS{i}") for i in range(3) if i != d))
        if not e or guards(e[0]) or sp.expand(norm(sp.prod(e[0].val.args)) - want) != 0:
            ctx.violation("buffers", f"{W}|tmpBuffer_{k}", f"the buffer for the exchange along axis {d} has {norm(sp.prod(e[0].val.args)) if e else 'no'} bytes, the longest message {want}")
        else:
            ctx.ok("buffers")
    for k, tot, num in (("send", "tot_num_dst_chares", "num_srcpts_tosend_each_chare"), ("receiv", "tot_num_src_chares", "num_srcpts_each_chare")):
        N = "nonlocalinnerbcstruct[0]"
        e = al.get(f"tmpBuffers[0].tmpBuffer_innerbc_{k}[]")
        o = al.get(f"tmpBuffers[0].tmpBuffer_innerbc_{k}")
        if not e or not o:
            raise AnalysisError(f"allocation of tmpBuffer_innerbc_{k} not found")
        e, o = e[0], o[0]
        f = [x for x in e.ctx if x[0] == "for"]
        ok = len(f) == 1 and (f[0][2], str(f[0][3]), f[0][4]) == (0, f"{N}.{tot}", 1) and e.path[-1][1] == S(f[0][1])
        ok = ok and sp.expand(sp.prod(e.val.args) - b * mx * F(f"{N}.{num}")(S(f[0][1]))) == 0
        po = sp.prod(o.val.args)
        ok = ok and S(f"{N}.{tot}") in po.free_symbols and sp.expand(po / S(f"{N}.{tot}")).free_symbols <= {S("sizeof(REAL*)"), S("sizeof(REAL *)")}
        if not ok:
            ctx.violation("buffers", f"{W}|tmpBuffer_innerbc_{k}", f"buffers for boundary data: {sp.prod(e.val.args)} bytes in {[(x[1], str(x[3])) for x in f]}, table {po}")
        else:
            ctx.ok("buffers")


def sync_lists(ctx, P):
    """the lists of fields to exchange: all flagged fields, each once, and their numbers"""
    W = f"{SB}.MoL:register_CFunction_MoL_sync_data_defines"
    fam = [("ev_a", "EVOL", None), ("ev_b", "EVOL", False), ("ev_c", "EVOL", True), ("ax_a", "AUXEVOL", None), ("ax_b", "AUXEVOL", True), ("ax_c", "AUXEVOL", True), ("au_a", "AUX", None)]

    def setup(I):
        d = I.module("nrpy.params").scope.vars
        closed.call(I, "nrpy.params:set_parval_from_str", "Infrastructure", "BHaH")
        for n, g, s in fam:
            kw = {} if s is None else {"sync_gf_in_superB": s}
            closed.call(I, "nrpy.grid:register_gridfunctions", n, group=g, **kw)

    I = closed.make(models={**closed.record_models()})
    box = {}

    def go(I):
        setup(I)
        box["v"] = closed.call(I, W)
        d = I.module("nrpy.grid").scope.vars["glb_gridfcs_dict"]
        box["gf"] = {k: (x.attrs if hasattr(x, "attrs") else x.__dict__) for k, x in d.items()}

    trs = I.run(go)
    if len(trs) != 1 or trs[0].outcome[0] == "raise":
        raise AnalysisError(f"{W}: {trs[0].outcome}")
    body = next(T(e["args"]["body"]) for e in trs[0].effects if e["kind"] == "register_CFunction")
    ce = dist.run(body)
    want = {}
    for g, nm in (("EVOL", "evol"), ("AUXEVOL", "auxevol")):
        want[nm] = [n for n, gg, s in fam if gg == g and box["gf"][n].get("sync_gf_in_superB") is True]
        exp = [n for n, gg, s in fam if gg == g and (s is True or (s is None and g == "EVOL"))]
        if want[nm] != exp:
            ctx.violation("fields", f"nrpy/grid.py:BHaHGridFunction|{g}", f"fields of group {g} marked for exchange: {want[nm]}, expected {exp}")
    for nm, w in want.items():
        got = {}
        for e in ce.events:
            if e.kind == "store" and re.fullmatch(rf"gridfuncs\[0\]\.{nm}_gfs_to_sync\[\d+\]", e.key):
                got[int(e.path[-1][1])] = str(e.val)
        num = [e.val for e in ce.events if e.kind == "store" and e.key == f"gridfuncs[0].num_{nm}_gfs_to_sync"]
        if sorted(got.values()) != sorted(f"{n.upper()}GF" for n in w) or sorted(got) != list(range(len(w))) or num != [len(w)]:
            ctx.violation("fields", f"{W}|{nm}", f"{nm} fields to exchange: {got}, number {num}; flagged: {w}")
        else:
            ctx.ok("fields", len(w) + 1)
    if box["v"] is not None and tuple(box["v"]) != (len(want["evol"]), len(want["auxevol"])):
        ctx.violation("fields", f"{W}|returned", f"returns {box['v']}, registered {[len(x) for x in want.values()]}")
    mx = [e.val for e in ce.events if e.kind == "store" and e.key == "gridfuncs[0].max_sync_gfs"]
    n = [sp.Integer(len(want["evol"])), sp.Integer(len(want["auxevol"]))]
    ok = len(mx) == 1 and (mx[0] == max(n) or (getattr(mx[0].func, "__name__", "") in ("MAX", "fmax", "ite") and set(mx[0].args[-2:]) == set(n)))
    if not ok:
        ctx.violation("fields", f"{W}|max", f"buffers are sized for {mx} fields, up to {max(n)} are exchanged")
    else:
        ctx.ok("fields")


# ---------------------------------------------------------------- records of the output files
QUANT = [{("REAL", "qa"): "gfs[0]", ("REAL", "qb"): "gfs[1]"}, {("REAL", "qa"): "gfs[0]", ("int", "qi"): "gfs[1]", ("REAL", "qc"): "gfs[2]"}]


def width(fmt):
    """bytes printed by a format for every finite value, or why that is not fixed"""
    n, i, conv = 0, 0, 0
    while i < len(fmt):
        if fmt[i] == "\\":
            n += 1
            i += 2
            continue
        if fmt[i] != "%":
            n += 1
            i += 1
            continue
        m = re.match(r"%([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", fmt[i:])
        if not m:
            return None, 0, f"conversion {fmt[i:i+6]!r}"
        w = int(m[2] or 0)
        conv += 1
        if m[4] == "e":
            p = int(m[3]) if m[3] else 6
            most = 1 + 1 + (1 + p if p else 0) + 5  # sign, digit, point and digits, e+ddd
        elif m[4] == "d":
            most = 11
        else:
            return None, 0, f"conversion {m[0]!r}"
        if w < most:
            return None, 0, f"{m[0]!r} prints between {max(w, 1)} and {most} characters"
        n += w
        i += m.end()
    return n, conv, None


def records(ctx, P, D):
    M = f"{SB}.output_0d_1d_2d_nearest_gridpoint_slices"
    text, _ = p21.generated(f"{TC}:output_timestepping_ci", project_dir="p", Butcher_dict={"RK4": D["RK4"]}, MoL_method="RK4", post_non_y_n_auxevol_mallocs="")
    fn, ob = dist.superB_h()
    sizes = {}
    for m in re.finditer(r"when\s+ready_(\dd_\w+?)\s*\(", text):
        tag = m[1]
        j = text.index("startSession", m.end())
        b = text[text.index("{", m.end()) : j]
        args = ctext.parse("f(" + text[j : text.index(";", j)].split("(", 1)[1] + ";")[0][0].e.args
        ce = dist.Dist(fn=fn, ob=ob)
        for d in re.finditer(r"int\s+(\w+)\s*=\s*([^;]*);", b):
            ce.env[d[1]] = ce.ev(ctext.parse(d[2] + ";")[0][0].e)
        sizes[tag] = sp.expand(ce.ev(args[1]))
    for dim, var, vals, kw in (("1d", "axis", ("y", "z"), "axis"), ("2d", "plane", ("xy", "yz"), "plane")):
        for v in vals:
            tag = f"{dim}_{v}"
            for sysn in ("SinhSpherical", "Cartesian"):
                for q in QUANT:
                    one_record(ctx, M, dim, kw, v, tag, sysn, q, fn, ob, sizes)


def one_record(ctx, M, dim, kw, v, tag, sysn, q, fn, ob, sizes):
    C = f"{M}|{tag}"
    nq = len(q)
    f1 = f"{M}:register_CFunction_diagnostics_nearest_{dim}_{kw}"
    f2 = f"{M}:register_CFunction_diagnostics_set_up_nearest_{dim}_{kw}"
    ph = lambda I: None
    w = next(iter(registered(f1, CoordSystem=sysn, out_quantities_dict=dict(q), **{kw: v}).values()))
    s = next(iter(registered(f2, CoordSystem=sysn, out_quantities_dict=dict(q), **{kw: v}).values()))
    W = T(w["body"])
    # the text printed
    m = re.search(r'snprintf\s*\(\s*out\s*,\s*sizeof\s*\(\s*out\s*\)\s*,\s*"((?:\\.|[^"\\])*)"\s*,', W)
    if not m:
        raise AnalysisError("print statement of the writer not found")
    n, conv, why = width(m[1])
    j = m.end()
    depth, k = 1, j
    while depth:
        depth += {"(": 1, ")": -1}.get(W[k], 0)
        k += 1
    args = split(W[j : k - 1])
    extra = {"1d": 1, "2d": 2}[dim]
    want = {"y": ["xCart_axis"], "z": ["xCart_axis"], "xy": ["xCart[0]", "xCart[1]"], "yz": ["xCart[1]", "xCart[2]"]}[v] + list(q.values())
    ce = dist.run(W, fn=fn, ob=ob)
    sz = [e.args for e in ce.events if e.kind == "call" and e.name.replace(" ", "").endswith("IO::write")]
    if not sz:
        sz = [[ce_arg(ce, x) for x in split(y)] for y in re.findall(r"Ck::IO::write\s*\(([^;]*)\)\s*;", W)]
    if len(sz) != 1 or len(sz[0]) != 4:
        raise AnalysisError("write call of the writer not found")
    NQ = S("diagnosticstruct[0].num_output_quantities")
    rec = sp.expand(sp.sympify(sz[0][2]))
    if n is None:
        ctx.violation("records", f"{C}|width", f"[{nq} quantities, {sorted({a for a, _ in q})}] a record has no fixed length: {why}; the records have {rec} bytes each")
        return
    if conv != len(args) or conv != extra + nq:
        ctx.violation("records", f"{C}|print", f"{conv} conversions for {len(args)} values, expected {extra + nq}")
        return
    if [x.replace(" ", "") for x in args] != [x.replace(" ", "") for x in want] and v not in ("y", "z"):
        ctx.violation("records", f"{C}|print", f"prints {args}, expected {want}")
        return
    if v in ("y", "z"):
        ax = re.search(r"xCart_axis\s*=\s*xCart\[(\d)\]", W)
        if not ax or int(ax[1]) != "xyz".index(v) or [x.replace(" ", "") for x in args] != [x.replace(" ", "") for x in want]:
            ctx.violation("records", f"{C}|print", f"prints {args} with the coordinate {ax[1] if ax else '?'} for the {v} axis")
            return
    if sp.expand(rec.subs(NQ, nq) - n) != 0:
        ctx.violation("records", f"{C}|length", f"a record of {n} bytes is written as {rec} bytes")
        return
    if not m[1].endswith("\\n"):
        ctx.violation("records", f"{C}|print", "records do not end with a line break")
        return
    # set-up: number of quantities, offset of record i, size of the file
    se = dist.run(T(s["body"]), fn=fn, ob=ob)
    num = [e.val for e in se.events if e.kind == "store" and e.key == str(NQ)]
    if num != [nq]:
        ctx.violation("records", f"{C}|quantities", f"num_output_quantities is set to {num}, {nq} quantities are printed")
        return
    off = [e for e in se.events if e.kind == "store" and re.fullmatch(rf"diagnosticstruct\[0\]\.offset_diagnostic_{tag}_pt\[.*\]", e.key)]
    tot = [e.val for e in se.events if e.kind == "store" and e.key == f"diagnosticstruct[0].tot_num_diagnostic_{tag}_pts"]
    if not off or len(tot) != 1:
        raise AnalysisError(f"offsets of {tag}: {len(off)} assignments")
    unit = sp.expand(rec.subs(NQ, nq))
    t = sp.sympify(tot[0])
    # the record number runs once over the points of the slice
    bad = None
    Ls = [Loops(e, "t", sp.expand) for e in off]
    nums = [sp.expand(sp.cancel(L.of(e.val) / unit)) for e, L in zip(off, Ls)]
    if any(L.trip != Ls[0].trip for L in Ls):
        raise AnalysisError(f"offsets of {tag}: assignments in different loops")
    trip = dict(Ls[0].trip)
    if any("@" in str(x) for x in nums):
        names = {q.name.split("@")[0] for x in nums for q in x.free_symbols if "@" in q.name}
        cond = [q for q in se.events if q.kind == "store" and q.key in names and any(f[0] == "for" for f in q.ctx) and any(f[0] == "if" for f in q.ctx)]
        if cond:
            ctx.violation("records", f"{C}|offset", f"the record number {cond[0].key} advances only at some points of the slice: elements write to the same place")
            return
        raise AnalysisError(f"offsets of {tag}: {nums}")
    x = nums[0]
    if len(nums) > 1:
        # a loop with constant bounds was unrolled
        d = sp.expand(nums[1] - nums[0])
        if any(sp.expand(q - nums[0] - i * d) != 0 for i, q in enumerate(nums)):
            bad = f"record numbers {nums}"
        u = S("unrolled_")
        trip[u] = sp.Integer(len(nums))
        x = sp.expand(x + d * u)
    bad = bad or exact_cover(x, trip, t)
    if bad:
        ctx.violation("records", f"{C}|offset", f"records overlap or leave gaps: {bad}")
        return
    # the point stored beside an offset is the one whose owner was asked
    for e in off:
        i = e.path[-1][1]
        st = {q.base + q.key: q for q in se.events if q.kind == "store" and q.ctx == e.ctx and len(q.path) and q.path[-1] == ("i", i)}
        loc = {d: [q for q in st.values() if f".locali{d}_diagnostic_{tag}_pt[" in q.key] for d in range(3)}
        own = [g for g, truth in guards(e) if truth]
        ask = [a for g in own for a in g.atoms(sp.core.function.AppliedUndef) if a.func.__name__.endswith("globalidx3pt_to_chareidx3")]
        lid = [q for q in st.values() if f".localidx3_diagnostic_{tag}_pt[" in q.key]
        if len(ask) != 1 or len(lid) != 1 or any(len(v) != 1 for v in loc.values()):
            raise AnalysisError(f"points of {tag}: {len(ask)} {len(lid)} {[len(v) for v in loc.values()]}")
        gi = ask[0].args[0]
        n0, n1 = (S(f"params[0].Nxx_plus_2NGHOSTS{d}") for d in (0, 1))
        glob = [sp.expand(loc[d][0].val + S(f"chare_index[{d}]") * S(f"params_chare[0].Nxx{d}")) for d in range(3)]
        if sp.expand(gi - glob[0] - n0 * (glob[1] + n1 * glob[2])) != 0:
            ctx.violation("records", f"{C}|point", f"local indices {[str(loc[d][0].val) for d in range(3)]} do not belong to the point {gi} the record is for")
            return
        if getattr(lid[0].val.func, "__name__", "").split(".")[-1] != "globalidx3pt_to_localidx3pt" or sp.expand(lid[0].val.args[0] - gi) != 0:
            ctx.violation("records", f"{C}|point", f"local index {lid[0].val} does not belong to the point {gi} the record is for")
            return
    sv = sizes.get(tag)
    if sv is None:
        raise AnalysisError(f"no file size for {tag}")
    X = S(f"griddata_chare[which_grid_diagnostics].diagnosticstruct.num_output_quantities")
    Y = S(f"griddata_chare[which_grid_diagnostics].diagnosticstruct.tot_num_diagnostic_{tag}_pts")
    if sp.expand(sv - rec.subs(NQ, X) * Y) != 0:
        ctx.violation("records", f"{C}|file size", f"the file is opened for {sv} bytes; {Y} records of {rec} bytes are written")
        return
    ctx.ok("records")


def ce_arg(ce, x):
    try:
        return ce.as_sym(ce.ev(ctext.parse(x + ";")[0][0].e))
    except Exception as ex:
        raise AnalysisError(str(ex)) from ex


def split(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(ch, 0)
        cur += ch
    return out + [cur.strip()] if cur.strip() else out


# ---------------------------------------------------------------- run
def run(ctx):
    ctx.rule("neighbours", "along each axis data go to exactly the two neighbouring elements, under exactly the condition that the neighbour exists")
    ctx.rule("message", "a message carries its array identifier and exactly the values packed: the buffer index runs once over [0, length)")
    ctx.rule("ghosts", "the receiver fills exactly the ghost zone facing the sender, each cell with the value of the same point of the global grid, same field and array")
    ctx.rule("fields", "for every array all fields flagged for exchange are exchanged, with their number; buffers are sized for the larger set")
    ctx.rule("received", "every message sent is awaited, under the condition under which it is sent, and handed to the routine for its ghost zone")
    ctx.rule("order", "substeps and their parts run in order; after each substep all three axes of the updated arrays are exchanged, one axis after the other")
    ctx.rule("inner", "inner boundary data are exchanged after the part that sets them, awaited from every source element and applied once")
    ctx.rule("inner data", "inner boundary data are packed point by point from the owner's copy, for the element that asked, in the order asked, and stored unchanged")
    ctx.rule("buffers", "message buffers are as long as the longest message")
    ctx.rule("ownership", "every point of the global grid is owned by exactly one element; index maps agree with element index * points per element + local index")
    ctx.rule("coordinates", "a local point has the coordinates of its point of the undivided grid; divisions with remainder or too thin elements are refused")
    ctx.rule("records", "records of distributed output files have a fixed length, equal in writer, offsets and file size")
    P = templates.prog()
    D = tables(P)
    meths = sorted(D) if ctx.thorough else [m for m in ("RK4", "SSPRK3", "RK3", "Euler", "DP5", "RK2 Heun") if m in D]
    lists = {}

    def post(m):
        out = ({}, {})
        I = closed.make(models={**closed.record_models()})
        n = len(D[m][0]) - 1
        for k, f in enumerate(("generate_post_rhs_output_list", "generate_rhs_output_exprs")):
            for s in range(1, n + 1):
                trs = I.run(lambda I: closed.call(I, f"{SB}.MoL:{f}", {m: D[m]}, m, s))
                out[k][s] = [str(x) for x in trs[0].outcome[1]]
        return out

    for m in meths:
        box = {}

        def mk(m=m):
            box["o"] = One(P, D, m)
            box["sends"] = exchange(ctx, box["o"])

        ctx.attempt(f"exchange {m}", mk)
        if "sends" not in box:
            continue
        ctx.attempt(f"boundary data {m}", innerdata, ctx, box["o"])
        for outer, resid, psi4 in (("radiation", False, False), ("extrapolation", False, True), ("radiation", True, False)):
            ctx.attempt(f"schedule {m} {outer}", lambda: schedule(ctx, box["o"], D, box["sends"], outer, resid, psi4, post(m)))
    ctx.attempt("buffers", buffers, ctx)
    ctx.attempt("field lists", sync_lists, ctx, P)
    ctx.attempt("ownership", ownership, ctx)
    ctx.attempt("coordinates", coordinates, ctx)
    ctx.attempt("records", records, ctx, P, D)
    for r, n in (("ghosts", 60), ("received", 200), ("order", 100), ("ownership", 20), ("coordinates", 10)):
        ctx.floor(r, n)
