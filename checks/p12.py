"""P12: rewriting expressions into vector operations preserves their value."""

import re
from fractions import Fraction

import sympy as sp

from sa import templates
from sa.absint import mk as mkt, isstr, AnalysisError, Dom, Exc, Ext, Interp, PyRaise, Sym, is_concrete
from sa.termdom import ARITY, ArgsView, FuncRef, Head, Num, RatDict, RatVal, Term, TermFault, same, value

SIMD = "nrpy.helpers.simd"
ENTRY = f"{SIMD}:expr_convert_to_simd_intrins"


class Node(Dom):
    def __init__(self, I, expr, func):
        self.expr, self.func = expr, func
        self.expr0 = expr
        self._ch = None
        self.built = False

    @property
    def children(self):
        if self._ch is None:
            self._ch = [Node(None, a, None) for a in args_of(self.expr0)]
        return self._ch


def args_of(t):
    if isinstance(t, Term):
        return list(t._args or ())
    return []


class Tree(Dom):
    """stands for an expression tree: one loop over it yields a generic subtree, the other
    loops yield nothing; the soundness of each loop body is judged on its own"""

    def __init__(self, I, expr, target, leaf):
        self.I, self.target, self.leaf = I, target, leaf
        self.root = Node(I, expr, None)
        self.count = 0
        self.nodes = []
        self.clean = True

    def preorder(self, node=None):
        k = self.count
        self.count += 1
        self.clean = False
        if k != self.target:
            return []
        n = Node(self.I, self.leaf(self.I), FuncRef(Term(self.I, "parent")))
        self.nodes.append(n)
        return [n]

    postorder = preorder

    def build(self, node, clear=True):
        node._ch = [Node(None, a, None) for a in args_of(node.expr)]

    def reconstruct(self, evaluate=False):
        self.clean = True
        return self.root.expr


def on_attr(I, o, a):
    if isinstance(o, Ext) and o.name.split(".")[-1] == "S" and a in ("One", "NegativeOne", "Zero", "Half"):
        return Num({"One": 1, "NegativeOne": -1, "Zero": 0, "Half": Fraction(1, 2)}[a])
    if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
        if a == "func":
            return FuncRef(Num(o))
        if a == "args":
            return ()
        if a in ("p", "q"):
            return getattr(Num(o), a)
    return NotImplemented


def num(x):
    if isinstance(x, Num):
        return x.v
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(x)
    return None


def ext_models():
    m = {}

    def reg(names, f):
        for n in names:
            m["sympy." + n] = f

    def nary(h):
        def f(I, a, k, n):
            if len(a) == 1:
                return a[0]
            return Term(None, None, h, list(a))

        return f

    reg(["Add"], nary("Add"))
    reg(["Mul"], nary("Mul"))
    for h in ("Pow", "Abs", "exp", "log", "sin", "cos", "sign"):
        reg([h], (lambda h: lambda I, a, k, n: Term(None, None, h, list(a)))(h))
    reg(["sqrt"], lambda I, a, k, n: Term(None, None, "Pow", [a[0], Num(Fraction(1, 2))]))
    reg(["Symbol", "Dummy"], lambda I, a, k, n: Term(I, None, "Symbol", [], a[0]) if isinstance(a[0], str) else NotImplemented)
    reg(["symbols"], lambda I, a, k, n: Term(I, None, "Symbol", [], a[0]) if isinstance(a[0], str) and "," not in a[0] else NotImplemented)
    reg(["Function"], lambda I, a, k, n: Head(a[0]))
    reg(["Rational"], lambda I, a, k, n: Num(num(a[0]) / (num(a[1]) if len(a) > 1 else 1)))
    reg(["Integer"], lambda I, a, k, n: Num(int(num(a[0]))) if num(a[0]) is not None else NotImplemented)
    reg(["Float"], lambda I, a, k, n: Num(num(a[0]), True) if num(a[0]) is not None else NotImplemented)
    reg(["sympify", "S"], lambda I, a, k, n: Num(a[0]) if isinstance(a[0], (int, Fraction)) else a[0])
    reg(["preorder_traversal"], lambda I, a, k, n: [])
    reg(["var"], lambda I, a, k, n: None)
    reg(["collect"], lambda I, a, k, n: a[0])
    return m


def str_model(I, a, k, n):
    from sa.absint import _m_str

    if a and isinstance(a[0], (Term, Num)):
        return str(a[0])
    return _m_str(I, a, k, n)


def mk_interp(tree_factory, max_paths):
    I = Interp(templates.prog(), max_paths=max_paths, max_steps=2_000_000)
    I.opaque = ()
    I.on_attr = on_attr
    I.ext_models.update(ext_models())
    I.ext_models["builtins.str"] = str_model

    old = I.ext_models.get("builtins.abs")
    I.ext_models["builtins.abs"] = lambda J, a, k, n: abs(a[0]) if isinstance(a[0], Num) else old(J, a, k, n)
    oldint = I.ext_models.get("builtins.int")
    I.ext_models["builtins.int"] = lambda J, a, k, n: int(a[0]) if isinstance(a[0], Num) else oldint(J, a, k, n)
    for nm in ("list", "tuple"):
        o2 = I.ext_models.get("builtins." + nm)
        I.ext_models["builtins." + nm] = (lambda o2: lambda J, a, k, n: ArgsView(a[0].t) if a and isinstance(a[0], ArgsView) and a[0].t.head is None else o2(J, a, k, n))(o2)
    if tree_factory:
        I.models["nrpy.helpers.expr_tree.ExprTree"] = tree_factory
    return I


def leafgen(I):
    return Term(I, "t")


def judge(ctx, tag, tree, rd, tr, where):
    for n in tree.nodes:
        e0, e1 = n.expr0, n.expr
        if e1 is e0 and n._ch is None:
            ctx.ok("identity")
            continue
        und = []
        try:
            v0, v1 = value(e0, rd), value(e1, rd, und)
        except TermFault as ex:
            ctx.violation("rewrite", f"{where} {shape(e0)}", str(ex))
            continue
        ctx.ok("rewrite")
        ctx.sample(f"{tag}: {e0} -> {e1}")
        if und:
            ctx.violation("constant", f"{where} {shape(e0)}", f"{e0} is rewritten to {e1}, but {und[0]} is not registered with a value")
        elif not same(v0, v1):
            ctx.violation("rewrite", f"{where} {shape(e0)} -> {shape(e1)}", f"{e0} is rewritten to {e1}: values {v0} and {v1} differ")
        # tree nodes below must be those of the new expression
        ch = [c.expr for c in n._ch] if n._ch is not None else args_of(e0)
        if len(ch) != len(args_of(e1)) or not all(x is y or (isinstance(x, (Term, Num)) and x == y) for x, y in zip(ch, args_of(e1))):
            ctx.violation("tree", f"{where} {shape(e0)} -> {shape(e1)}", f"{e0} is rewritten to {e1} but its subtrees are left as {ch}: reconstruction will build a different expression")
        # completeness: the node itself is no longer a scalar operation
        ctx.ok("tree")


def shape(t):
    if isinstance(t, Num):
        return str(t)
    if not isinstance(t, Term):
        return "?"
    if t.head is None or t.head == "Symbol":
        return t.name or (str(t.val) if t.val is not None else "_")
    return f"{t.head}({','.join(shape(a) for a in t._args)})"


HEADS = ["Abs", "exp", "log", "sin", "cos", "sign", "Pow", "Mul", "Add"]


def run(ctx):
    ctx.rule("rewrite", "every path of every rewriting loop body, applied to a generic subtree refined only by the tests made on that path, yields a term of equal value")
    ctx.rule("constant", "every constant symbol introduced is registered with its value")
    ctx.rule("tree", "the tree's children are those of the rewritten expression; the returned expression is the reconstructed one")
    ctx.rule("scalar-free", "no scalar operation survives all rewriting loops")
    ctx.rule("preprocess", "replacing numbers by symbols keeps the value, with the dictionary that is returned")
    ctx.rule("exprtree", "tree construction, traversal and reconstruction agree with the expression")
    ctx.rule("declaration", "every constant is declared in the emitted C code with the value it stands for")
    simd(ctx)
    preprocess(ctx)
    exprtree(ctx)
    declarations(ctx)
    ctx.floor("rewrite", 60)
    ctx.floor("preprocess", 30)


def run_simd(target, leaf, rd_entries, max_paths=4000, more=True, clean=False, rootexpr=None):
    state = {}

    def factory(I, f, a, k, n):
        t = Tree(I, a[0], target, leaf)
        state["tree"] = t
        return t

    I = mk_interp(factory, max_paths)
    out = []

    def entry(I):
        rd = RatDict(rd_entries)
        root = rootexpr() if rootexpr else Term(I, "root")
        f = I.func(ENTRY)
        try:
            v = I.call(f, [root, rd, "FD"], {"simd_find_more_FMAsFMSs": more, "clean_NegativeOnes_after_processing": clean}, None)
        except TermFault as ex:
            raise PyRaise(Exc("TermFault", (str(ex),)))
        finally:
            out.append((state.get("tree"), rd, I.trace, root))
        return v

    trs = I.run(entry)
    return I, list(zip(trs, out))


def simd(ctx):
    I, res = run_simd(-1, leafgen, [])
    ctx.require(res and res[0][1][0] is not None, "expr_convert_to_simd_intrins no longer builds an ExprTree")
    nloops = max(o[0].count for _, o in res)
    ctx.require(nloops >= 3, "no rewriting loops found in expr_convert_to_simd_intrins")
    survive = {h: True for h in HEADS}
    Term.maxarity = 5 if ctx.thorough else 4
    for more in (True, False):
        for target in range(nloops):
            for dict_entries in ([("FD_NegativeOne_", -1)], [("FD_Integer_1", 1), ("FD_NegativeOne_", -1)]):
                I, res = run_simd(target, leafgen, dict_entries, more=more)
                if I.truncated:
                    ctx.notes.append(f"loop {target}: path cap reached")
                for tr, (tree, rd, trace, root) in res:
                    where = f"loop {target}:"
                    if tr.outcome[0] == "raise":
                        e = tr.outcome[1]
                        n = tree.nodes[0].expr0 if tree and tree.nodes else None
                        ctx.violation("rewrite", f"{where} {shape(n)} {e.name}", f"processing {n} raises {e.name} {e.args}")
                        continue
                    if tr.outcome[0] == "budget":
                        continue
                    judge(ctx, f"loop {target}", tree, rd, tr, where)
                    if tr.outcome[1] is not root or not tree.clean:
                        ctx.violation("tree", "returned expression", "the returned expression is not the one reconstructed after the last rewriting loop")
                    for n in tree.nodes:
                        h = n.expr0.head if isinstance(n.expr0, Term) else None
                        if h in HEADS and not contains_head(n.expr, h, n.expr0):
                            survive.setdefault(h, True)
                            survive[h] = False
    for h, s in survive.items():
        ctx.ok("scalar-free")
        if s:
            ctx.violation("scalar-free", h, f"no rewriting loop ever replaces {h}")
    # constants still used must stay registered
    for used in (True, False):
        mkroot = lambda: Term(None, None, "MulSIMD", [Term(None, None, "Symbol", [], "FD_NegativeOne_" if used else "q"), Term(None, None, "Symbol", [], "r")])
        I, res = run_simd(-1, leafgen, [("FD_NegativeOne_", -1), ("FD_Integer_2", 2)], clean=True, rootexpr=mkroot)
        for tr, (tree, rd, trace, root) in res:
            ctx.ok("constant")
            if tr.outcome[0] != "return":
                ctx.violation("constant", "cleanup", f"cleaning constants fails: {tr.outcome[1]}")
            elif (used and "FD_NegativeOne_" not in rd.d) or "FD_Integer_2" not in rd.d:
                ctx.violation("constant", "cleanup", "a constant that is still used is removed from the dictionary of constants")


def contains_head(t, h, orig):
    """h occurs in t outside the holes of the original"""
    if not isinstance(t, Term) or t.head is None:
        return False
    if t.head == h:
        return True
    return any(contains_head(a, h, orig) for a in t._args)


# ------------------------------------------------------------------ number replacement
def S(n):
    return Term(None, None, "Symbol", [], n)


def T(h, *a):
    return Term(None, None, h, [Num(x) if isinstance(x, (int, Fraction)) else x for x in a])


def shapes():
    F = Fraction
    x, y, z = "x", "y", "z"
    nums = [2, -2, 3, 1, 7, -7, F(1, 3), F(-1, 3), F(5, 12), F(-5, 12), 12, -12]
    out = []
    for n in nums:
        out.append(lambda n=n: T("Mul", n, S(x)))
        out.append(lambda n=n: T("Add", n, S(x)))
        out.append(lambda n=n: T("Add", T("Mul", n, S(x)), T("Mul", -1, S(y)), T("Mul", n, S(z))))
        out.append(lambda n=n: T("exp", T("Mul", n, S(x))))
    for e in (2, 3, -1, -2, F(1, 2), F(-3, 2)):
        out.append(lambda e=e: T("Pow", S(x), e))
        out.append(lambda e=e: T("Mul", F(1, 3), T("Pow", T("Add", S(x), 3), e)))
    for e in (2, 3, 4, 5):
        out.append(lambda e=e: T("Mul", T("Pow", T("Mul", -1, 1), 1), S(x)))
        out.append(lambda e=e: T("Mul", T("Pow", -1, e), S(x)))
    out.append(lambda: T("Add", T("Mul", -1, S(x)), T("Mul", F(-1, 2), S(y)), T("Mul", F(1, 2), S(z)), -2, T("Mul", 2, S(x), S(y))))
    out.append(lambda: T("Mul", -1, T("Add", S(x), -1)))
    out.append(lambda: Num(-3))
    out.append(lambda: Num(-1))
    out.append(lambda: Num(1))
    out.append(lambda: T("Add", T("sin", T("Add", T("Mul", 3, S(x)), F(2, 3))), T("Mul", -1, T("cos", T("Mul", -3, S(x))))))
    return out


def preprocess(ctx):
    fn = "nrpy.helpers.cse_preprocess_postprocess:cse_preprocess"
    for mkexpr in shapes():
        for decl in (False, True):
            for factor in (True, False):
                for neg in (False, True) if decl else (False,):
                    I = mk_interp(None, 64)

                    def entry(I):
                        e = mkexpr()
                        return e, I.call(I.func(fn), [[e]], {"prefix": "FD", "declare_neg1_as_symbol": decl, "factor": factor, "negative": neg}, None)

                    for tr in I.run(entry):
                        opts = f"declare_neg1={decl} factor={factor} negative={neg}"
                        if tr.outcome[0] != "return":
                            ctx.violation("preprocess", f"{mkexpr()}", f"cse_preprocess({mkexpr()}, {opts}) fails: {tr.outcome[1]}")
                            continue
                        e, r = tr.outcome[1]
                        ctx.ok("preprocess")
                        try:
                            lst, d = r
                            rd = RatDict()
                            for k, v in d.items():
                                rd.d[k.name] = (k, v if isinstance(v, Num) else Num(v))
                            names = {}
                            v0, v1 = value(mkexpr(), RatDict()), value(lst[0], rd)
                        except (TermFault, TypeError, ValueError, AttributeError) as ex:
                            raise AnalysisError(f"cse_preprocess({e}) result not understood: {r!r} ({ex})")
                        if not same(v0, v1):
                            ctx.violation("preprocess", f"{mkexpr()} {opts}", f"{mkexpr()} becomes {lst[0]} with {rd}: value {v1} instead of {v0}")


def exprtree(ctx):
    """construct / traverse / reconstruct by interpreting the tree class itself"""
    E = "nrpy.helpers.expr_tree:ExprTree"
    mk = [
        lambda: T("Add", T("Mul", S("a"), S("b")), T("cos", S("c")), S("d")),
        lambda: T("Pow", T("Add", S("a"), T("Mul", S("b"), S("c"))), 2),
        lambda: S("a"),
        lambda: T("SubSIMD", T("MulSIMD", S("a"), T("DivSIMD", S("b"), S("c"))), T("SqrtSIMD", S("d"))),
    ]

    def pre(t):
        yield t
        for a in args_of(t):
            yield from pre(a)

    def post(t):
        for a in args_of(t):
            yield from post(a)
        yield t

    for m in mk:
        I = mk_interp(None, 16)

        def entry(I):
            e = m()
            t = I.call(I.func(E), [e], {}, None)
            a = [I.getattr(n, "expr") for n in I.iterate(I.call(I.getattr(t, "preorder"), [], {}, None), None)]
            b = [I.getattr(n, "expr") for n in I.iterate(I.call(I.getattr(t, "postorder"), [], {}, None), None)]
            r = I.call(I.getattr(t, "reconstruct"), [], {}, None)
            # replace every leaf symbol a by a product and reconstruct
            for n in I.iterate(I.call(I.getattr(t, "preorder"), [], {}, None), None):
                x = I.getattr(n, "expr")
                if isinstance(x, Term) and x.head == "Symbol" and x.name == "b":
                    n.attrs["expr"] = T("MulSIMD", S("p"), S("q"))
                    I.call(I.getattr(t, "build"), [n], {}, None)
            r2 = I.call(I.getattr(t, "reconstruct"), [], {}, None)
            # non-clearing build keeps existing children (used when a sign is factored out)
            return e, a, b, r, r2

        for tr in I.run(entry):
            if tr.outcome[0] != "return":
                ctx.violation("exprtree", f"{m()}", f"ExprTree fails on {m()}: {tr.outcome[1]}")
                continue
            e, a, b, r, r2 = tr.outcome[1]
            ctx.ok("exprtree")
            rd = RatDict()
            if [str(x) for x in a] != [str(x) for x in pre(e)]:
                ctx.violation("exprtree", "preorder", f"preorder of {e} visits {a}")
            if [str(x) for x in b] != [str(x) for x in post(e)]:
                ctx.violation("exprtree", "postorder", f"postorder of {e} visits {b}")
            if not same(value(r, rd), value(e, rd)):
                ctx.violation("exprtree", "reconstruct", f"reconstruct of {e} gives {r}")
            sub = value(e, rd).subs(sp.Symbol("b", positive=True), sp.Symbol("p", positive=True) * sp.Symbol("q", positive=True))
            if not same(value(r2, rd), sub):
                ctx.violation("exprtree", "reconstruct", f"after replacing b by p*q in {e}, reconstruct gives {r2}")


def declarations(ctx):
    """constants reach the emitted C code under their own name and with their own value"""
    F = Fraction
    consts = [("FD_Integer_2", F(2)), ("FD_Integer_1", F(1)), ("FD_NegativeOne_", F(-1)), ("FD_Rational_1_3", F(1, 3)), ("FD_Rational_5_12", F(5, 12)), ("FD_Integer_30", F(30)), ("FD_Rational_49_18", F(49, 18))]
    for simd_on in (True, False):
        I = mk_interp(None, 200)

        def late():
            d = {}
            for n, v in consts:
                if not n.endswith("_1"):
                    d[S(n)] = Num(v)
            return d

        seen = {}

        def m_pre(I, f, a, k, n):
            seen["d"] = late()
            seen["pre"] = dict(k)
            return ([S("expr0")], seen["d"])

        def m_post(I, f, a, k, n):
            return ([[S("x0"), S("sub0")]], [S("res0")])

        def m_simd(I, f, a, k, n):
            # conversion may register the constant 1 late
            d = a[1] if len(a) > 1 else k.get("symbol_to_Rational_dict")
            if isinstance(d, dict):
                for nm, v in consts:
                    if nm.endswith("_1"):
                        d[S(nm)] = Num(v)
            seen.setdefault("conv", []).append((a, k))
            return Sym(f"simd({a[0]})", "str")

        def m_ccode(I, a, k, n):
            seen.setdefault("ccode", []).append((a, k))
            tgt = k.get("assign_to", a[1] if len(a) > 1 else None)
            if isinstance(a[0], Num) and isstr(tgt):
                v = a[0].v
                return mkt([tgt, f" = {v.numerator}.0/{v.denominator}.0;"])
            return Sym(f"ccode({a[0]})", "str")

        I.models["nrpy.helpers.cse_preprocess_postprocess.cse_preprocess"] = m_pre
        I.models["nrpy.helpers.cse_preprocess_postprocess.cse_postprocess"] = m_post
        I.models["nrpy.helpers.simd.expr_convert_to_simd_intrins"] = m_simd
        I.ext_models["sympy.ccode"] = m_ccode
        I.ext_models["sympy.cse"] = lambda J, a, k, n: Sym("cse")
        I.ext_models["sympy.numbered_symbols"] = lambda J, a, k, n: Sym("syms")
        oldf = I.ext_models.get("builtins.float")
        I.ext_models["builtins.float"] = lambda J, a, k, n: float(a[0]) if isinstance(a[0], Num) else oldf(J, a, k, n)
        oldrat = I.ext_models["sympy.Rational"]
        seen["clear"] = None

        def entry(I):
            seen.clear()
            r = I.call(I.func("nrpy.c_codegen:c_codegen"), [S("e"), "out"], {"enable_simd": simd_on, "enable_cse": True, "enable_cse_preprocess": True, "enable_fd_codegen": False, "automatically_read_gf_data_from_memory": False, "verbose": False, "fp_type": "double"}, None)
            return r, dict(seen)

        done = 0
        for tr in I.run(entry):
            if tr.outcome[0] != "return":
                continue
            from sa.ctext import Rendered

            text, got_calls = tr.outcome[1]
            text = text if isinstance(text, str) else Rendered(text).text
            if "FD_Integer_2" not in text:
                if "d" in got_calls:
                    ctx.violation("declaration", f"simd={simd_on}", "constants used by the expressions are not declared")
                continue
            done += 1
            body = text.find("x0 =") if "x0 =" in text else len(text)
            for n, v in consts:
                ctx.ok("declaration")
                if simd_on:
                    m1 = re.search(rf"REAL_SIMD_ARRAY\s+{n}\s*=\s*ConstSIMD\(\s*(\w+)\s*\)\s*;", text)
                    if not m1:
                        ctx.violation("declaration", n, f"no vector constant {n} is declared in the generated code")
                        continue
                    m2 = re.search(rf"double\s+{m1.group(1)}\s*=\s*([^;]+);", text)
                    if not m2 or m2.start() > m1.start():
                        ctx.violation("declaration", n, f"vector constant {n} is set from {m1.group(1)}, which is not declared before it")
                        continue
                    if m1.start() > body:
                        ctx.violation("declaration", n, f"{n} is declared after the expressions using it")
                    rhs = m2.group(1)
                else:
                    if n.endswith("_1"):
                        continue
                    m2 = re.search(rf"\b{n}\s*=\s*([^;]+);", text)
                    if not m2:
                        ctx.violation("declaration", n, f"no constant {n} is declared in the generated code")
                        continue
                    rhs = m2.group(1)
                try:
                    got = sp.nsimplify(sp.sympify(rhs, rational=True))
                except Exception:
                    got = None
                if got is None or got != sp.Rational(v.numerator, v.denominator):
                    ctx.violation("declaration", n, f"{n} is declared as {rhs}, it stands for {v}")
        ctx.require(done or ctx.violations, f"c_codegen(enable_simd={simd_on}): no completed path with constants")
