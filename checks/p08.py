"""P08: every built-in Runge-Kutta tableau is consistent, explicit and of its order.

Constant propagation of generate_Butcher_tables to the literal coefficients (exact field
arithmetic), then the algebraic order conditions of every rooted tree up to the order."""

import re
from fractions import Fraction

from sa import rk
from sa.absint import Interp, Program, Sym, vkey

FN = "nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary:generate_Butcher_tables"
TOL = 1e-15  # published tableaux with rounded rational coefficients (DP8)


def tables(P, **kw):
    I = Interp(P, max_paths=20, host_modules=("sympy",), max_steps=3000000)
    trs = I.run(lambda I: I.call_func(I.func(FN), [], dict(kw), None))
    return I, trs


def small(q, exact):
    return q.zero() if exact else abs(q.f()) < TOL


def run(ctx):
    P = Program()
    ctx.rule("shape", "tableau rows are [c, a...] with strictly lower triangular a; last row(s) hold weights")
    ctx.rule("nodes", "sum of row i equals node c_i")
    ctx.rule("order", "b.Phi(t) = 1/gamma(t) for every rooted tree t with |t| <= labelled order (LO row of a pair: order-1)")
    ctx.rule("label", "a digit in the method's name equals the labelled order")
    ctx.rule("ab", "Adams-Bashforth row n integrates polynomials of degree < n exactly")
    I, trs = tables(P)
    ctx.require(len(trs) == 1 and trs[0].outcome[0] == "return" and isinstance(trs[0].outcome[1], dict), "generate_Butcher_tables does not evaluate to one dictionary of constants")
    D = trs[0].outcome[1]
    ctx.require(len(D) >= 15, f"only {len(D)} tableaux found")
    for key, v in D.items():
        w = f"Butcher_dict[{key!r}]"
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], list) and isinstance(v[1], int)):
            ctx.violation("shape", w, f"entry is not (table, order): {vkey(v)[:80]}")
            continue
        T, order = v
        labels = [r[0] for r in T if isinstance(r[0], str)]
        nb = len(labels)
        n = len(T) - nb
        if labels not in ([""], ["HO", "LO"]) or any(isinstance(r[0], str) for r in T[:n]):
            ctx.violation("shape", w, f"weight-row labels are {labels}")
            continue
        bad = [i for i, r in enumerate(T[:n]) if any(j > i and r[j] != 0 for j in range(1, len(r)))]
        if bad:
            ctx.violation("shape", w, f"rows {bad} are not strictly lower triangular")
            continue
        if any(len(r) != n + 1 and any(x != 0 for x in r[n + 1 :]) or len(r) > n + 1 for r in T[n:]):
            ctx.violation("shape", w, "a weight row does not have one weight per stage")
            continue
        ctx.ok("shape")
        A = [[rk.to_q2(T[i][j + 1]) if j + 1 < len(T[i]) else rk.Q2(0) for j in range(n)] for i in range(n)]
        c = [rk.to_q2(T[i][0]) for i in range(n)]
        big = any(q.a.denominator > 10**7 for r in A for q in r)
        exact = not big
        for i in range(n):
            s = rk.Q2(0)
            for q in A[i]:
                s = s + q
            ctx.ok("nodes")
            if not small(s - c[i], exact):
                ctx.violation("nodes", f"{w} row {i+1}", f"sum of row = {s} but node c = {c[i]}")
        m = re.findall(r"\d+", key)
        if m:
            ctx.ok("label")
            if int(m[0]) != order:
                ctx.violation("label", w, f"labelled order {order} but named {key}")
        for bi, row in enumerate(T[n:]):
            b = [rk.to_q2(x) for x in row[1:]]
            b += [rk.Q2(0)] * (n - len(b))
            need = order - bi
            for t, r in rk.order_residuals(A, b, need):
                ctx.ok("order")
                if not small(r, exact):
                    ctx.violation("order", f"{w} weights row {bi}", f"order condition of tree {rk.tstr(t)} (order {rk.size(t)}) has residual {r.f():.3e}: the method is not of order {need}")
                    break
        ctx.sample(f"{key}: {n} stages, order {order}, {nb} weight row(s), {'exact' if exact else 'rounded-rational'}")
    # Adams-Bashforth
    orders = range(2, 13) if ctx.thorough else (2, 5, 7, 9)
    for q in orders:
        I, trs = tables(P, generate_adams_bashforth_method=True, adams_bashforth_order=q)
        ctx.require(len(trs) == 1 and trs[0].outcome[0] == "return", "Adams-Bashforth generation does not evaluate")
        T = trs[0].outcome[1]["AB"]
        if T[1] != q or len(T[0]) != q:
            ctx.violation("ab", f"AB order {q}", f"table has {len(T[0])} rows, label {T[1]}")
            continue
        for n, row in enumerate(T[0], 1):
            vals = [rk.to_q2(x) for x in row]
            for p in range(1, n + 1):
                s = rk.Q2(0)
                for j, x in enumerate(vals):
                    s = s + x * Fraction((-j) ** (p - 1))
                ctx.ok("ab")
                if not (s - Fraction(1, p)).zero():
                    ctx.violation("ab", f"AB row {n}", f"moment {p-1} is {s}, must be 1/{p}")
                    break
    ctx.floor("order", 400)
