"""P11: vector operations mean the same in every instruction-set branch."""

import os
import re

import sympy as sp

from sa.absint import REPO, AnalysisError
from sa.intrin import FN, GT, SEL, EvalError, Ptr, Store, Vec, evaluate, preprocess, same
from sa import templates

# reference semantics of each operation on one lane, by the meaning its name documents
REF = {
    "Add": (2, lambda a, b: a + b),
    "Sub": (2, lambda a, b: a - b),
    "Mul": (2, lambda a, b: a * b),
    "Div": (2, lambda a, b: a / b),
    "FusedMulAdd": (3, lambda a, b, c: a * b + c),
    "FusedMulSub": (3, lambda a, b, c: a * b - c),
    "NegFusedMulAdd": (3, lambda a, b, c: -a * b + c),
    "NegFusedMulSub": (3, lambda a, b, c: -a * b - c),
    "Sqrt": (1, FN["sqrt"]),
    "Exp": (1, FN["exp"]),
    "Sin": (1, FN["sin"]),
    "Cos": (1, FN["cos"]),
    "Log": (1, FN["log"]),
    "Cbrt": (1, FN["cbrt"]),
    "Pow": (2, FN["pow"]),
    "Abs": (1, FN["fabs"]),
}
CONFIGS = [
    ("AVX512F", {"__AVX512F__", "__AVX__", "__AVX2__", "__FMA__", "__SSE3__", "__SSE2__", "__GNUC__"}),
    ("AVX512F without FMA", {"__AVX512F__", "__AVX__", "__SSE3__", "__SSE2__", "__GNUC__"}),
    ("AVX+FMA", {"__AVX__", "__AVX2__", "__FMA__", "__SSE3__", "__SSE2__", "__GNUC__"}),
    ("AVX", {"__AVX__", "__SSE3__", "__SSE2__", "__GNUC__"}),
    ("SSE3+FMA", {"__FMA__", "__SSE3__", "__SSE2__", "__GNUC__"}),
    ("SSE2+FMA", {"__FMA__", "__SSE2__", "__GNUC__"}),
    ("SSE3", {"__SSE3__", "__SSE2__", "__GNUC__"}),
    ("SSE2", {"__SSE2__", "__GNUC__"}),
    ("scalar", {"__GNUC__"}),
    ("scalar, other compiler", set()),
    ("scalar+FMA", {"__FMA__", "__GNUC__"}),
]
CUDA = [("NVCC", {"__NVCC__"}), ("no NVCC", set())]
WIDTH = {"__m512d": 8, "__m256d": 4, "__m128d": 2, "REAL": 1, "double": 1}


def run(ctx):
    ctx.rule("meaning", "macro expanded and evaluated over exact algebraic lanes equals the operation its name documents, for compound arguments and in operator context")
    ctx.rule("offered", "every branch defines the same operation names with the same arity")
    ctx.rule("width", "vector type, advertised width and lane count of every operation agree")
    ctx.rule("emitted", "every vector operation a generator emits is defined in the header")
    for fname, suffix, configs in (("simd_intrinsics.h", "SIMD", CONFIGS), ("cuda_intrinsics.h", "CUDA", CUDA)):
        path = os.path.join(REPO, "nrpy", "helpers", fname)
        if not os.path.exists(path):
            raise AnalysisError(f"{fname} not found")
        text = open(path).read()
        header(ctx, fname, suffix, configs, text)
    emitted(ctx)
    ctx.floor("meaning", 150)
    ctx.floor("width", 10)


def header(ctx, fname, suffix, configs, text):
    ops = {}
    for cname, defined in configs:
        try:
            defs = preprocess(text, defined)
        except EvalError as e:
            ctx.violation("meaning", f"{fname}: {cname}", f"conditional not decidable: {e}")
            continue
        mine = {n: (len(p) if p is not None else None) for n, (p, b) in defs.items() if re.search(rf"(SIMD|CUDA)$|^UPWIND_ALG$|_width$|^REAL_\w+_ARRAY$", n)}
        ops[cname] = mine
        ty = f"REAL_{suffix}_ARRAY"
        wn = "simd_width" if suffix == "SIMD" else "CUDA_width"
        if ty not in defs or wn not in defs:
            ctx.violation("width", f"{fname}: {cname}", f"{ty} or {wn} not defined")
            continue
        tname = defs[ty][1].split()[0] if defs[ty][1] else ""
        w = WIDTH.get(tname)
        try:
            declared = int(defs[wn][1].split()[0].strip("()"))
        except Exception:
            declared = None
        if w is None or declared != w:
            ctx.violation("width", f"{fname}: {cname}", f"{ty} is {tname} ({w} lanes) but {wn} is {defs[wn][1]}")
            w = w or declared or 1
        ctx.ok("width")
        vec = lambda n: Vec([sp.Symbol(f"{n}_{i}") for i in range(w)])
        env = {n: vec(n) for n in ("a", "b", "c", "z")}
        env["s"] = Vec([sp.Symbol("s")])
        env["p"] = Ptr("p")
        env["upwind_Integer_0"] = Vec([sp.S.Zero] * w)
        env["upwind_Integer_1"] = Vec([sp.S.One] * w)
        L = {n: env[n].l for n in "abcz"}

        def expect(what, expr, ref):
            try:
                v = evaluate(expr, defs, env)
            except EvalError as e:
                ctx.violation("meaning", f"{fname}: {cname}: {what}", f"{expr}: {e}")
                return
            ctx.ok("meaning")
            if not isinstance(v, Vec) or v.w != len(ref) or not all(same(x, y) for x, y in zip(v.l, ref)):
                got = v.l[0] if isinstance(v, Vec) and v.l else type(v).__name__
                ctx.violation("meaning", f"{fname}: {cname}: {what}", f"{expr} evaluates to {got} in lane 0 ({v.w if isinstance(v, Vec) else '-'} lanes), expected {ref[0]} ({len(ref)} lanes)")

        for name in sorted(mine):
            base = name[: -len(suffix)] if name.endswith(suffix) else name
            if base in REF:
                n, f = REF[base]
                if mine[name] != n:
                    ctx.violation("meaning", f"{fname}: {cname}: {name}", f"takes {mine[name]} arguments, expected {n}")
                    continue
                syms = "abc"[:n]
                expect(name, f"{name}({', '.join(syms)})", [f(*x) for x in zip(*(L[s] for s in syms))])
                # compound arguments and operator context (macro hygiene); vector types have no
                # infix operators outside the scalar branches
                if w == 1:
                    for k, s in enumerate(syms):
                        cargs = [("z - " + q if q == s else q) for q in syms]
                        ref = [f(*[(zz - x if i == k else x) for i, x in enumerate(xs)]) for zz, *xs in zip(L["z"], *(L[q] for q in syms))]
                        expect(name, f"{name}({', '.join(cargs)})", ref)
                    expect(name, f"z - {name}({', '.join(syms)})", [zz - f(*x) for zz, *x in zip(L["z"], *(L[s] for s in syms))])
                    expect(name, f"z / {name}({', '.join(syms)})", [zz / f(*x) for zz, *x in zip(L["z"], *(L[s] for s in syms))])
            elif base == "Const":
                expect(name, f"{name}(s)", [sp.Symbol("s")] * w)
            elif base == "SetZero":
                expect(name, name, [sp.S.Zero] * w)
            elif base == "HorizAdd":
                expect(name, f"{name}(a)", [sum(L["a"])])
            elif base == "UPWIND_ALG":
                expect(name, f"{name}(a)", [SEL(GT(x), 1, 0) for x in L["a"]])
            elif base == "Read":
                expect(name, f"{name}(p)", [sp.Symbol(f"p_{i}") for i in range(w)])
            elif base == "Write":
                try:
                    v = evaluate(f"{name}(p, a)", defs, env)
                    ctx.ok("meaning")
                    if not isinstance(v, Store) or v.ptr.name != "p" or v.val.l != L["a"]:
                        ctx.violation("meaning", f"{fname}: {cname}: {name}", "does not store its second argument at its first")
                except EvalError as e:
                    ctx.violation("meaning", f"{fname}: {cname}: {name}", str(e))
            elif base == "Sign":
                ctx.ok("meaning")
        ctx.sample(f"{fname} [{cname}]: {len(mine)} operations, {w} lanes")
    allops = {}
    for c, m in ops.items():
        for n, a in m.items():
            allops.setdefault(n, {}).setdefault(a, []).append(c)
    for n, by in sorted(allops.items()):
        ctx.ok("offered")
        have = [c for cs in by.values() for c in cs]
        missing = [c for c in ops if c not in have]
        if missing:
            ctx.violation("offered", f"{fname}: {n}", f"not defined for {', '.join(missing)} (defined for {', '.join(have)})")
        if len(by) > 1:
            ctx.violation("offered", f"{fname}: {n}", f"arity differs between branches: {by}")
    # operations common to both headers must be named alike
    if not allops:
        raise AnalysisError(f"no operations found in {fname}")


def emitted(ctx):
    """vector operations emitted by the generators (string constants and text in nrpy/*.py)"""
    import ast

    P = templates.prog()
    path = os.path.join(REPO, "nrpy", "helpers", "simd_intrinsics.h")
    defs = preprocess(open(path).read(), {"__GNUC__"})
    seen = {}
    for m in sorted(P.paths):
        if not m.startswith("nrpy.") or m.startswith("nrpy.examples") or ".tests" in m:
            continue
        tree = P.tree(m)
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                for w in re.findall(r"\b([A-Z][A-Za-z]*SIMD)\b(?=\s*\()", n.value):
                    seen.setdefault(w, m)
                if re.fullmatch(r"[A-Z][A-Za-z]*SIMD", n.value):
                    seen.setdefault(n.value, m)
    for w, m in sorted(seen.items()):
        ctx.ok("emitted")
        if w not in defs:
            ctx.violation("emitted", w, f"{m} emits {w}(), which simd_intrinsics.h does not define")
    ctx.floor("emitted", 8)
