"""P20: restart from a checkpoint restores exactly what was saved."""

import re

import sympy as sp

from sa import cflow, closed, ctext, templates
from sa.absint import AnalysisError
from sa.cflow import expr, strip, text
from sa.ctext import walk

MOD = "nrpy.infrastructures.BHaH.checkpointing"


class Undecided(Exception):
    pass


def io_macros(prefunc):
    """helper macros / static functions that wrap fread or fwrite: name -> (op, [arg positions])"""
    out = {"fread": ("fread", [0, 1, 2]), "fwrite": ("fwrite", [0, 1, 2])}
    src = re.sub(r"\\\n", " ", prefunc)
    src = re.sub(r"//[^\n]*|/\*.*?\*/", " ", src, flags=re.S)
    for m in re.finditer(r"#define\s+(\w+)\(([^)]*)\)([^\n]*)|(\w+)\s*\(([^()]*)\)\s*\{(.*?)\n\}", src, flags=re.S):
        name, ps, body = (m.group(1), m.group(2), m.group(3)) if m.group(1) else (m.group(4), m.group(5), m.group(6))
        ps = [re.findall(r"\w+", p)[-1] for p in ps.split(",") if re.findall(r"\w+", p)]
        c = re.search(r"\b(fread|fwrite)\s*\(", body)
        if not c:
            continue
        i = c.end()
        d, cur, args = 0, "", []
        while i < len(body):
            ch = body[i]
            if ch == ")" and d == 0:
                args.append(cur)
                break
            d += ch in "(["
            d -= ch in ")]"
            if ch == "," and d == 0:
                args.append(cur)
                cur = ""
            else:
                cur += ch
            i += 1
        pos = []
        for a in args[:3]:
            ids = re.findall(r"\w+", a)
            pos.append(ps.index(ids[0]) if len(ids) == 1 and ids[0] in ps else None)
        if None in pos or len(pos) < 3:
            raise Undecided(f"helper {name} does not pass its arguments through unchanged")
        out[name] = (c.group(1), pos)
    return out


class Fn:
    def __init__(self, reg):
        R = ctext.Rendered
        self.body = R(reg["body"]).text
        self.pre = R(reg.get("prefunc", "")).text
        self.ast = ctext.parse(self.body)[0]
        self.env = cflow.local_env(self.ast)
        # only scalars are propagated, never allocations
        self.env = {k: v for k, v in self.env.items() if not cflow.is_alloc(v) and strip(v).k != "call" and not text(v).startswith("fopen")}
        self.io = io_macros(self.pre)

    def events(self):
        """flat list of events; each with the tuple of enclosing loop/condition contexts"""
        out = []

        def go(stmts, cx):
            for s in stmts:
                if s.k == "block":
                    go(s.body, cx)
                elif s.k == "for":
                    fi = cflow.for_info(s, self.env)
                    if fi is None:
                        raise Undecided("loop without a simple bound")
                    go(s.body, cx + (("for",) + fi,))
                elif s.k in ("while", "do", "switch", "goto", "raw"):
                    raise Undecided(f"{s.k} statement")
                elif s.k == "if":
                    go(s.then, cx + (("if", text(s.cond, self.env)),))
                    if s.els:
                        go(s.els, cx + (("if", "!(" + text(s.cond, self.env) + ")"),))
                elif s.k == "decl":
                    for d in s.decls:
                        if d.init is not None:
                            self.ev(out, ctext.N("assign", s.line, op="=", a=ctext.N("id", s.line, name=d.name), b=d.init), cx)
                elif s.k == "expr":
                    self.ev(out, s.e, cx)
                elif s.k == "return":
                    out.append(dict(k="return", e=text(s.e, self.env), cx=cx))
        go(self.ast, ())
        return out

    def ev(self, out, e, cx):
        e = strip(e)
        if e.k == "comma":
            for x in e.items:
                self.ev(out, x, cx)
            return
        if e.k == "assign":
            b = strip(e.b)
            if e.op == "=" and cflow.is_alloc(b):
                sz = expr(b.args[0], self.env) if len(b.args) == 1 else sp.expand(expr(b.args[0], self.env) * expr(b.args[1], self.env))
                out.append(dict(k="alloc", target=text(e.a, self.env), size=sz, cx=cx))
                return
            for c in cflow.calls(e.b):
                self.call(out, c, cx)
            out.append(dict(k="store", e=e, cx=cx))
            return
        if e.k in ("post", "un") and e._d.get("op") in ("++", "--"):
            out.append(dict(k="inc", v=text(e.e), cx=cx))
            return
        for c in cflow.calls(e):
            self.call(out, c, cx)

    def call(self, out, c, cx):
        nm = strip(c.f).name
        if nm in self.io:
            op, pos = self.io[nm]
            a = [c.args[p] for p in pos]
            out.append(dict(k="io", op=op, target=text(a[0], self.env), size=text(a[1], self.env), count=expr(a[2], self.env), cx=cx))
        elif nm.startswith("MoL_malloc"):
            out.append(dict(k="alloc", target="y_n_gfs", size=None, cx=cx))
        elif nm.startswith("MoL_free"):
            out.append(dict(k="free", target="y_n_gfs", cx=cx))
        elif nm == "free":
            out.append(dict(k="free", target=text(c.args[0], self.env), cx=cx))
        elif nm == "fopen":
            out.append(dict(k="fopen", mode=text(c.args[1]).strip('"'), cx=cx))
        elif nm in ("snprintf", "sprintf"):
            out.append(dict(k="name", a=[text(x, self.env) for x in c.args], fn=nm, cx=cx))


def loops(cx):
    return [c for c in cx if c[0] == "for"]


def canon(cx, ren):
    """loop context with normalised counter names: tuple of (lo, hi, step); also extends the renaming"""
    sub = dict(ren)
    out = []
    for c in cx:
        if c[0] == "for":
            _, v, lo, hi, st = c
            n = f"L{len([x for x in out if x[0] == 'for'])}"
            out.append(("for", str(sp.sympify(lo).subs(subst(sub))), str(sp.sympify(hi).subs(subst(sub))), str(st)))
            sub[v] = n
    return tuple(out), sub


def subst(ren):
    return {sp.Symbol(a): sp.Symbol(b) for a, b in ren.items()}


def rn(t, ren):
    return re.sub(r"(?<![\w.>])(\w+)\b", lambda m: ren.get(m.group(1), m.group(1)), t)


def root(t):
    return re.match(r"[&*]*(\w+)", t).group(1)


def compare(ctx, tag, W, R):
    we, re_ = W.events(), R.events()
    wi = [e for e in we if e["k"] == "io"]
    ri = [e for e in re_ if e["k"] == "io"]
    if any(e["op"] != "fwrite" for e in wi) or any(e["op"] != "fread" for e in ri):
        ctx.violation("sequence", f"{tag} direction", "the checkpoint writer reads or the reader writes the file")
        return
    if not wi or not ri:
        raise AnalysisError("no file transfers found")
    ren_w, ren_r = {}, {}
    pairs = []
    for n in range(max(len(wi), len(ri))):
        ctx.ok("sequence")
        if n >= len(wi) or n >= len(ri):
            x = (wi + ri)[-1] if n >= min(len(wi), len(ri)) else None
            e = wi[n] if n < len(wi) else ri[n]
            ctx.violation("sequence", f"{tag} item {n+1}", f"{'written but never read' if n < len(wi) else 'read but never written'}: {e['target']}")
            return
        w, r = wi[n], ri[n]
        cw, sw = canon(w["cx"], ren_w)
        cr, sr = canon(r["cx"], ren_r)
        if cw != cr:
            ctx.violation("sequence", f"{tag} item {n+1}", f"{w['target']} is written once per {cw}, read once per {cr}")
            return
        if w["size"] != r["size"] or sp.expand(w["count"].subs(subst(sw)) - r["count"].subs(subst(sr))) != 0:
            ctx.violation("sequence", f"{tag} item {n+1} {w['target']}", f"written as {w['count']} x {w['size']}, read as {r['count']} x {r['size']}")
            return
        tw, tr = rn(w["target"], sw), rn(r["target"], sr)
        gw, gr = root(tw), root(tr)
        glob = ("commondata", "griddata", "params", "gridfuncs")
        if gw in glob or gr in glob:
            if tw != tr:
                ctx.violation("sequence", f"{tag} item {n+1} {w['target']}", f"written from {w['target']}, read into {r['target']}")
                return
        else:
            if tw.startswith("&") != tr.startswith("&"):
                ctx.violation("sequence", f"{tag} item {n+1} {w['target']}", f"written from {w['target']}, read into {r['target']}")
                return
            pairs.append((w, r))
            ren_w[gw] = ren_r[gr] = f"V{len(pairs)}"
    # condition contexts: inside the writer's single guard nothing may be skipped individually
    for who, ev, name in ((W, wi, "written"), (R, ri, "read")):
        ifs = {tuple(c for c in e["cx"] if c[0] == "if") for e in ev}
        ctx.ok("sequence")
        if len(ifs) > 1:
            ctx.violation("sequence", f"{tag} conditional", f"some items are {name} only under {sorted(ifs, key=len)[-1]}, others always")
    filled(ctx, tag, W, R, we, re_, pairs)
    buffers(ctx, tag, W, R, we, re_, pairs)
    allocation(ctx, tag, R, re_, ri)
    preserved(ctx, tag, we)


def filled(ctx, tag, W, R, we, re_, pairs):
    """every local object written was given a value and has the size written; every one read is used"""
    for w, r in pairs:
        ctx.ok("layout", 2)
        nm, rm = root(w["target"]), root(r["target"])
        pos = we.index(w)
        if w["target"].startswith("&"):
            sets = [e for e in we[:pos] if (e["k"] == "inc" and e["v"] == nm) or (e["k"] == "store" and strip(e["e"].a).k == "id" and strip(e["e"].a).name == nm and text(e["e"].b, W.env) != "0")]
            if not sets:
                ctx.violation("layout", f"{tag} {nm}", f"{nm} is written to the file but never set to anything but 0")
        else:
            st = [e for e in we[:pos] if e["k"] == "store" and strip(e["e"].a).k == "idx" and text(strip(e["e"].a).a, W.env) == nm]
            passed = any(nm in [text(x) for x in c.args] for c in cflow.calls(W.ast) if strip(c.f).name not in W.io and strip(c.f).name != "free")
            if not st and not passed:
                ctx.violation("layout", f"{tag} {nm}", f"{nm} is written to the file but nothing was stored into it")
            al = [e for e in we[:pos] if e["k"] == "alloc" and e["target"] == nm]
            if al and al[-1]["size"] is not None:
                need = sp.expand(w["count"] * expr(ctext.parse(f"x = {w['size']};")[0][0].e.b))
                q = sp.simplify(al[-1]["size"] / need) if need != 0 else sp.Integer(0)
                if not (q.is_number and q >= 1):
                    ctx.violation("allocation", f"{tag} {nm}", f"{al[-1]['size']} bytes are allocated, {need} are written from it")
        uses = 0
        for x in walk(R.ast):
            if x.k == "id" and x.name == rm:
                uses += 1
        frees = sum(1 for e in re_ if e["k"] == "free" and e["target"] == rm)
        ios = sum(1 for e in re_ if e["k"] == "io" and root(e["target"]) == rm)
        decl_only = uses - frees - ios
        if decl_only <= 0:
            ctx.violation("layout", f"{tag} {rm}", f"{rm} is read from the file but never used to restore anything")


def buffers(ctx, tag, W, R, we, re_, pairs):
    """packing on the writer's side and unpacking on the reader's side use the same layout"""
    names_w = {root(w["target"]): n for n, (w, r) in enumerate(pairs) if not w["target"].startswith("&")}
    names_r = {root(r["target"]): n for n, (w, r) in enumerate(pairs) if not r["target"].startswith("&")}
    wst = []
    for pos, e in enumerate(we):
        if e["k"] == "store" and strip(e["e"].a).k == "idx":
            b = text(strip(e["e"].a).a, W.env)
            if b in names_w:
                wst.append((pos, names_w[b], expr(strip(e["e"].a).i, W.env), strip(e["e"].b), e["cx"]))
    rst = []
    for pos, e in enumerate(re_):
        if e["k"] == "store" and strip(e["e"].a).k == "idx":
            used = [x for x in walk(e["e"].b) if x.k == "idx" and text(x.a, R.env) in names_r]
            if len(used) == 1 and strip(e["e"].b) is used[0]:
                rst.append((pos, names_r[text(used[0].a, R.env)], expr(used[0].i, R.env), strip(e["e"].a), e["cx"]))
    if not wst and not rst:
        return
    # index buffer: IDX[cnt] = i
    idxb = [s for s in wst if strip(s[3]).k == "id"]
    datb = [s for s in wst if strip(s[3]).k == "idx"]
    if len(idxb) != 1 or len(datb) != 1 or len(rst) != 1:
        ctx.notes.append(f"{tag}: packing loops not of the recognised shape; layout not compared")
        return
    _, ib, ipos, isrc, icx = idxb[0]
    _, db, dpos, dsrc, dcx = datb[0]
    _, rb, rpos, rdst, rcx = rst[0]
    cnt = ipos  # symbol of the record counter
    if not cnt.is_Symbol:
        ctx.notes.append(f"{tag}: record counter not recognised")
        return
    incs = [(p, e) for p, e in enumerate(we) if e["k"] == "inc" and e["v"] == str(cnt)]
    ctx.ok("layout", 4)
    if len(incs) != 1 or incs[0][1]["cx"] != icx or incs[0][0] < max(idxb[0][0], datb[0][0]):
        ctx.violation("layout", f"{tag} record counter", f"the record counter {cnt} is not advanced exactly once after each stored record")
    # number of records equals the count stored in the file
    cnts = [e for e in we if e["k"] == "inc" and e["v"] != str(cnt)]
    for e in cnts:
        if [c for c in e["cx"]] and canon(e["cx"], {})[0][-1:] != canon(icx, {})[0][-1:] or [c for c in e["cx"] if c[0] == "if"] != [c for c in icx if c[0] == "if"]:
            ctx.violation("layout", f"{tag} record count", f"{e['v']} counts under {e['cx']}, records are stored under {icx}")
    # common record variable r; index value J
    r, J, g = sp.symbols("r J g")
    iv = sp.Symbol(text(isrc))
    gw = [c[1] for c in loops(dcx) if c not in loops(icx)]
    gr_ = loops(rcx)
    rec_r = None
    gf_r = None
    dsti = expr(rdst.i, R.env)
    for c in gr_:
        if dsti.has(sp.Symbol(c[1])) and rpos.has(sp.Symbol(c[1])):
            gf_r = c
        elif rpos.has(sp.Symbol(c[1])):
            rec_r = c
    if rec_r is None or gf_r is None or len(gw) != 1:
        ctx.violation("layout", f"{tag} unpacking", f"the reader stores {text(rdst)} from record position {rpos}: not one value per record and field")
        return
    ren = {}
    cw = [c for c in loops(dcx) if c[1] == gw[0]][0]
    names = {x: f"V{n+1}" for n, (w_, r_) in enumerate(pairs) for x in (root(w_["target"]),)}
    names_rr = {root(r_["target"]): f"V{n+1}" for n, (w_, r_) in enumerate(pairs)}
    fw = dpos.subs({cnt: r, sp.Symbol(gw[0]): g})
    fr = rpos.subs({sp.Symbol(rec_r[1]): r, sp.Symbol(gf_r[1]): g})
    if db != rb or sp.expand(fw - fr) != 0:
        ctx.violation("layout", f"{tag} record layout", f"the writer packs field g of record r at position {fw}, the reader takes it from {fr}")
    # destination index with IDX[r] -> J
    idx_r = [nm for nm, n in names_r.items() if n == ib]
    gi = dsti
    for s in list(gi.free_symbols):
        if idx_r and str(s) == f"{idx_r[0]}[{rec_r[1]}]":
            gi = gi.subs(s, J)
    gi = gi.subs({sp.Symbol(rec_r[1]): r, sp.Symbol(gf_r[1]): g})
    si = expr(dsrc.i, W.env).subs({iv: J, sp.Symbol(gw[0]): g, cnt: r})
    if sp.expand(gi - si) != 0:
        ctx.violation("layout", f"{tag} grid position", f"the writer takes field g of point J from {si}, the reader puts it at {gi}")
    if (str(cw[2]), str(cw[3]), str(cw[4])) != (str(gf_r[2]), str(gf_r[3]), str(gf_r[4])):
        ctx.violation("layout", f"{tag} fields", f"the writer packs fields {cw[2]}..{cw[3]}, the reader unpacks {gf_r[2]}..{gf_r[3]}")
    cc = [n for n, (w_, r_) in enumerate(pairs) if w_["target"].startswith("&")]
    hi = str(rec_r[3])
    if str(rec_r[2]) != "0" or names_rr.get(hi) is None or (cc and names_rr[hi] not in {f"V{n+1}" for n in cc}):
        ctx.violation("layout", f"{tag} records read", f"the reader unpacks records {rec_r[2]}..{hi}, not all stored ones")
    if not text(rdst.a, R.env).endswith("y_n_gfs"):
        ctx.violation("layout", f"{tag} destination", f"the evolved fields are restored into {text(rdst.a, R.env)}")


def allocation(ctx, tag, R, ev, ri):
    """what is read into, or stored through, was allocated after the object holding the pointer was read"""
    for n, e in enumerate(ev):
        if e["k"] == "io":
            t = e["target"]
            if t.startswith("&") or t in ("commondata",):
                continue
            ctx.ok("allocation")
            base = root(t)
            al = [(p, a) for p, a in enumerate(ev[:n]) if a["k"] == "alloc" and a["target"] == t]
            if not al:
                ctx.violation("allocation", f"{tag} {t}", f"{t} is read from the file into memory that was not allocated before")
                continue
            p, a = al[-1]
            over = [q for q, x in enumerate(ev[:n]) if x["k"] == "io" and q > p and (x["target"] == base or (x["target"].startswith("&") and t.startswith(x["target"][1:] + ".")))]
            if over:
                ctx.violation("allocation", f"{tag} {t}", f"reading {ev[over[0]]['target']} overwrites the pointer {t} after it was allocated")
            fr = [q for q, x in enumerate(ev[:n]) if x["k"] == "free" and x["target"] == t and q > p]
            if fr:
                ctx.violation("allocation", f"{tag} {t}", f"{t} is released before it is read into")
            need = sp.expand(e["count"] * expr(ctext.parse(f"x = {e['size']};")[0][0].e.b))
            if a["size"] is not None and sp.expand(a["size"] - need) != 0:
                q = sp.simplify(a["size"] / need) if need != 0 else 0
                if not (q.is_number and q >= 1):
                    ctx.violation("allocation", f"{tag} {t}", f"{a['size']} bytes are allocated, {need} are read")
        if e["k"] == "store" and strip(e["e"].a).k == "idx" and text(strip(e["e"].a).a, R.env).endswith("y_n_gfs"):
            ctx.ok("allocation")
            if not any(x["k"] == "alloc" and x["target"] == "y_n_gfs" and loops(x["cx"]) == loops(e["cx"])[: len(loops(x["cx"]))] for x in ev[:n]):
                ctx.violation("allocation", f"{tag} y_n_gfs", "the evolved fields are restored into memory that was not allocated before")


def preserved(ctx, tag, we):
    """writing a checkpoint leaves the evolved fields as they were"""
    copies = []
    for p, e in enumerate(we):
        if e["k"] == "store":
            a, b = strip(e["e"].a), strip(e["e"].b)
            if a.k == "idx" and b.k == "idx" and text(a.i) == text(b.i) and loops(e["cx"]) and loops(e["cx"])[-1][1] == text(a.i):
                copies.append((p, text(a.a), text(b.a), loops(e["cx"])[-1]))
    frees = [p for p, e in enumerate(we) if e["k"] == "free" and e["target"] == "y_n_gfs"]
    ctx.ok("preserved")
    if not frees:
        return
    before = [c for c in copies if c[0] < frees[0] and c[2].endswith("y_n_gfs")]
    alloc = [p for p, e in enumerate(we) if e["k"] == "alloc" and e["target"] == "y_n_gfs" and p > frees[0]]
    after = [c for c in copies if alloc and c[0] > alloc[-1] and c[1].endswith("y_n_gfs")]
    full = sp.Symbol("NUM_EVOL_GFS") * cflow.N0 * cflow.N1 * cflow.N2
    ok = before and after and before[-1][1] == after[-1][2] and sp.expand(before[-1][3][3] - full) == 0 and sp.expand(after[-1][3][3] - full) == 0 and before[-1][3][2] == 0 and after[-1][3][2] == 0
    if not ok:
        ctx.violation("preserved", f"{tag} y_n_gfs", f"the evolved fields are released while writing and not restored in full (saved by {[(c[1], str(c[3][3])) for c in before]}, restored by {[(c[2], str(c[3][3])) for c in after]})")
    # the saved copy is not modified in between, and is what gets packed
    src = before[-1][1] if before else None
    for p, e in enumerate(we):
        if src and frees[0] < p < (alloc[-1] if alloc else 10**9) and e["k"] == "store":
            bases = [text(x.a) for x in walk(e["e"].b) if x.k == "idx"]
            if any(b.endswith("y_n_gfs") for b in bases):
                ctx.violation("preserved", f"{tag} packing source", "records are packed from the evolved fields after these were released")


def regs(fname, bhahaha):
    I = closed.make(max_paths=8, models=closed.record_models())
    trs = I.run(lambda I: closed.call(I, f"{MOD}:register_CFunctions", filename_tuple=(fname, "commondata->nn"), enable_bhahaha=bhahaha))
    if len(trs) != 1 or trs[0].outcome[0] != "return":
        raise AnalysisError(f"checkpoint registration is not determined: {[t.outcome for t in trs][:2]}")
    out = {}
    for e in trs[0].effects:
        if e["kind"] == "register_CFunction":
            out[ctext.Rendered(e["args"]["name"]).text] = e["args"]
    return out


def run(ctx):
    ctx.rule("sequence", "the n-th item read has the same loop nest, element size, element count and object as the n-th item written (loop counters and local buffers matched by position)")
    ctx.rule("layout", "record layout and grid position of the packed fields are equal as polynomials on both sides")
    ctx.rule("allocation", "every pointer read into was allocated, with the size read, after the object containing it was read")
    ctx.rule("preserved", "the evolved fields released while writing are restored in full from an unmodified copy")
    ctx.rule("file", "both sides use the same file name; the writer truncates, the reader only reads")
    ctx.rule("resume", "after reading, the start time and start iteration equal the stored time and iteration; 1 is returned iff a checkpoint was read")
    for bh in (False, True):
        rs = regs("ckpt-%d.dat", bh)
        tag = f"enable_bhahaha={bh}"
        if not {"read_checkpoint", "write_checkpoint"} <= set(rs):
            raise AnalysisError(f"checkpoint functions not registered: {sorted(rs)}")
        try:
            W, R = Fn(rs["write_checkpoint"]), Fn(rs["read_checkpoint"])
            we, re_ = W.events(), R.events()
            ctx.ok("file", 2)
            nw, nr = [e["a"][-2:] for e in we if e["k"] == "name"], [e["a"][-2:] for e in re_ if e["k"] == "name"]
            if nw != nr or not nw or "ckpt-%d.dat" not in nw[0][0]:
                ctx.violation("file", f"{tag} name", f"written to {nw}, read from {nr}")
            mw, mr = [e["mode"] for e in we if e["k"] == "fopen"], [e["mode"] for e in re_ if e["k"] == "fopen"]
            if not (len(mw) == 1 and mw[0].startswith("w")) or not (len(mr) == 1 and mr[0].startswith("r")):
                ctx.violation("file", f"{tag} mode", f"opened with {mw} for writing and {mr} for reading")
            compare(ctx, tag, W, R)
            last = max(n for n, e in enumerate(re_) if e["k"] == "io")
            tail = {text(e["e"].a): text(e["e"].b) for e in re_[last + 1 :] if e["k"] == "store" and strip(e["e"].a).k == "mem" and not e["cx"]}
            ctx.ok("resume", 3)
            for a, b in (("commondata->t_0", "commondata->time"), ("commondata->nn_0", "commondata->nn")):
                if tail.get(a) != b:
                    ctx.violation("resume", f"{tag} {a}", f"after a restart {a} is set from {tail.get(a)}, must be {b}")
            rets = [(n, e) for n, e in enumerate(re_) if e["k"] == "return"]
            if [e["e"] for n, e in rets if n < last] not in ([], ["0"]) or [e["e"] for n, e in rets if n > last] != ["1"]:
                ctx.violation("resume", f"{tag} return value", f"returns {[e['e'] for n, e in rets]}")
            ctx.sample(f"{tag}: {len([e for e in we if e['k'] == 'io'])} items written / {len([e for e in re_ if e['k'] == 'io'])} read")
        except Undecided as e:
            ctx.notes.append(f"{tag}: not decided ({e})")
    ctx.floor("sequence", 6)
