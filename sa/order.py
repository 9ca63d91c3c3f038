"""
Order-and-identity taint over the Python syntax trees.

Values are abstracted to
  C  determined by the generator's inputs
  S  unordered collection (contents determined, iteration order not)
  U  sequence or mapping whose order is not determined (contents are)
  E  container with determined order whose elements have undetermined order
  I  position within an undetermined order
  X  value that is not determined (built from an undetermined order, a clock, an identity ...)
Each non-C value carries its origin.  The analysis is interprocedural (functions are re-analysed per
abstract argument tuple), flow-sensitive within a function, and global for attributes.
"""

import ast

C = ("C", "")
RANK = {"C": 0, "E": 0.5, "I": 1, "S": 2, "U": 3, "X": 4}


def join(*ts):
    b = C
    for t in ts:
        if RANK[t[0]] > RANK[b[0]]:
            b = t
    return b


SETMETH = {"union", "intersection", "difference", "symmetric_difference", "copy"}
NEUTRAL = {"len", "any", "all", "isinstance", "bool", "hasattr", "callable", "issubclass", "type", "print"}
SEQ = {"list", "tuple", "iter", "reversed", "map", "filter", "chain", "deque", "OrderedDict", "dict", "islice"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.strftime", "time.ctime", "time.localtime", "time.asctime", "time.gmtime", "datetime.now", "datetime.today", "datetime.utcnow", "date.today", "os.getpid", "os.getppid", "uuid.uuid4", "uuid.uuid1", "socket.gethostname", "getpass.getuser", "os.getlogin", "platform.node", "threading.get_ident", "secrets.token_hex", "tempfile.mkdtemp", "tempfile.mktemp", "os.urandom"}
LISTING = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk"}
EFFECTS = ("register", "set_parval", "add_", "write")


class Analysis:
    def __init__(self, prog, mods):
        self.prog = prog
        self.mods = mods
        self.attrs = {}
        self.reports = {}
        self.memo = {}
        self.stack = []
        self.funcs = {}  # mod -> {name: node}
        self.classes = {}
        self.imports = {}
        self.sources = {}
        self.nfun = 0
        self.sites = 0
        for m in mods:
            t = prog.tree(m)
            self.funcs[m] = {f.name: f for f in t.body if isinstance(f, ast.FunctionDef)}
            self.classes[m] = {c.name: c for c in t.body if isinstance(c, ast.ClassDef)}
            im = {}
            for n in ast.walk(t):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        im[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names:
                        im[a.asname or a.name] = n.module + "." + a.name
            self.imports[m] = im

    # -------------------------------------------------------------- driver
    def run(self):
        for rnd in range(6):
            before = (dict(self.attrs), len(self.reports))
            self.memo.clear()
            self.reports.clear()
            self.nfun = self.sites = 0
            for m in self.mods:
                body = [s for s in self.prog.tree(m).body if not (isinstance(s, ast.If) and "__name__" in ast.unparse(s.test))]
                self.top(m, body)
                for f in self.funcs[m].values():
                    self.function(m, None, f, ())
                for c in self.classes[m].values():
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef):
                            self.function(m, c, f, ())
            if (dict(self.attrs), len(self.reports)) == before:
                break
        # helpers nobody in the package uses: their callers are generator scripts
        used = set()
        for m in self.mods:
            for n in ast.walk(self.prog.tree(m)):
                if isinstance(n, ast.Name):
                    used.add(n.id)
                elif isinstance(n, ast.Attribute):
                    used.add(n.attr)
        for m in self.mods:
            for f in self.funcs[m].values():
                if f.name not in used and not f.name.startswith("_"):
                    t = self.memo.get((m, "", f.name, f.lineno, ()), C)
                    if t[0] == "U":
                        self.report(t[1] + ": handed out as a sequence", f"returned by {f.name}, used by generator scripts")
        return self.reports

    def top(self, m, body):
        F = Frame(self, m, None, "<module>", {})
        F.block([s for s in body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))])

    def function(self, m, cls, f, args, local_defs=None):
        """args: tuple of (param, taint) for the tainted parameters"""
        key = (m, cls.name if cls else "", f.name, f.lineno, args)
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 12:
            return C
        self.memo[key] = C
        self.stack.append(key)
        self.nfun += 1
        env = {a.arg: C for a in f.args.args + f.args.kwonlyargs}
        for a in f.args.args + f.args.kwonlyargs:
            ann = ast.unparse(a.annotation) if a.annotation is not None else ""
            if ann.replace("typing.", "").startswith(("Set[", "set[", "Set", "FrozenSet", "frozenset", "AbstractSet", "set")) and ann not in ("setter",):
                env[a.arg] = ("S", f"{self.prog.rel(m)}|{f.name}|order of the set {a.arg}")
        env.update(dict(args))
        F = Frame(self, m, cls, (cls.name + "." if cls else "") + f.name, env)
        F.local_defs.update(local_defs or {})
        F.block(f.body)
        self.stack.pop()
        self.memo[key] = F.ret
        return F.ret

    def report(self, origin, where):
        self.reports.setdefault(origin, where)

    def attr_set(self, name, t):
        if t[0] != "C":
            self.attrs[name] = join(self.attrs.get(name, C), t)


class Frame:
    def __init__(self, A, mod, cls, name, env):
        self.A, self.mod, self.cls, self.name = A, mod, cls, name
        self.env = env
        self.kind = {}  # variable -> "str" | "num" | "list" | "dict" | "set"
        self.ret = C
        self.loops = []  # enclosing unordered loops: (loop variables, origin, node)
        self.local_defs = {}
        self.rel = A.prog.rel(mod)

    def site(self, n, what):
        # stable under edits elsewhere: construct, not line
        return f"{self.rel}|{self.name}|{what}"

    # -------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def depends(self, e, names):
        return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))

    def loopvars(self):
        out = set()
        for v, *_ in self.loops:
            out |= v
        return out

    def stmt(self, s):
        k = type(s).__name__
        if k in ("FunctionDef", "AsyncFunctionDef"):
            self.local_defs[s.name] = s
        elif k == "ClassDef":
            pass
        elif k == "Return":
            if s.value is not None:
                t = self.ev(s.value)
                if self.loops and self.depends(s.value, self.carried()):
                    t = ("X", self.loops[-1][1] + ": returns whichever element comes first")
                if t[0] == "X":
                    self.A.report(t[1], f"returned by {self.name}")
                self.ret = join(self.ret, t)
        elif k == "Expr":
            self.expr_stmt(s)
        elif k in ("Assign", "AnnAssign"):
            if s.value is None:
                return
            t = self.ev(s.value)
            for tg in s.targets if k == "Assign" else [s.target]:
                self.assign(tg, t, s.value)
        elif k == "AugAssign":
            self.augassign(s)
        elif k in ("For", "AsyncFor"):
            self.for_(s.target, s.iter, s.body, s)
            self.block(s.orelse)
        elif k == "While":
            self.ev(s.test)
            self.block(s.body)
            self.block(s.orelse)
        elif k == "If":
            self.ev(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1 = self.env
            self.env = dict(e0)
            self.block(s.orelse)
            for v in set(e1) | set(self.env):
                self.env[v] = join(e1.get(v, C), self.env.get(v, C))
        elif k in ("With", "AsyncWith"):
            for i in s.items:
                t = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, t, i.context_expr)
            self.block(s.body)
        elif k == "Try":
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif k in ("Raise", "Pass", "Break", "Continue", "Global", "Nonlocal", "Import", "ImportFrom", "Assert", "Delete"):
            pass

    def carried(self):
        """names that differ from one iteration of an unordered loop to the next"""
        out = self.loopvars()
        return out

    def kind_of(self, e):
        if isinstance(e, ast.Constant):
            return "str" if isinstance(e.value, str) else "num" if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else ""
        if isinstance(e, ast.JoinedStr):
            return "str"
        if isinstance(e, (ast.List, ast.ListComp)):
            return "list1" if isinstance(e, ast.List) and len(e.elts) == 1 else "list"
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return "dict"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(e, ast.Name):
            return self.kind.get(e.id, "")
        if isinstance(e, ast.Call):
            n = ast.unparse(e.func)
            if n in ("set", "frozenset"):
                return "set"
            if n.split(".")[-1] in ("Manager", "SyncManager"):
                return "manager"
            if n in ("list", "sorted", "superfast_uniq"):
                return "list"
            if n in ("dict", "OrderedDict", "collections.OrderedDict", "defaultdict"):
                return "dict"
            if n in ("str", "repr") or n.endswith((".join", ".format", ".replace", ".strip")):
                return "str"
        if isinstance(e, ast.BinOp):
            return self.kind_of(e.left) or self.kind_of(e.right)
        return ""

    def assign(self, tg, t, val):
        if isinstance(tg, ast.Name):
            if self.loops and val is not None:
                lv, org, node, outer = self.loops[-1]
                selfacc = self.depends(val, {tg.id})
                if tg.id in outer and not selfacc and (self.depends(val, self.loopvars()) or t[0] in ("I", "X")):
                    # last iteration wins; harmless unless read after the loop
                    self.pending.add(tg.id)
                    t = join(t, C)
                elif tg.id in outer and selfacc and isinstance(val, ast.BinOp) and self.kind_of(tg) in ("str", "list", "list1"):
                    self.accumulate(tg.id, val, org)
                    return
                elif not (tg.id in outer) and self.depends(val, self.loopvars()):
                    lv.add(tg.id)
            self.env[tg.id] = t
            if val is not None:
                kd = self.kind_of(val)
                if kd or tg.id not in self.kind:
                    self.kind[tg.id] = kd
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                tt = ("U", t[1]) if t[0] == "E" else t
                if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(tg.elts):
                    self.assign(x, self.ev(val.elts[i]), val.elts[i])
                    continue
                self.assign(x, tt, None if not isinstance(val, ast.AST) else val)
        elif isinstance(tg, ast.Attribute):
            if t[0] == "X":
                self.A.report(t[1], f"stored in attribute {tg.attr} by {self.name}")
            if self.loops and self.depends(val, self.loopvars()) and not self.depends_attr(val, tg):
                pass
            self.A.attr_set(tg.attr, t)
        elif isinstance(tg, ast.Subscript):
            base = tg.value
            if t[0] == "X":
                self.A.report(t[1], f"stored in {ast.unparse(base)[:40]} by {self.name}")
            self.store_sub(base, tg.slice, t)

    def depends_attr(self, val, tg):
        s = ast.unparse(tg)
        return any(ast.unparse(n) == s for n in ast.walk(val) if isinstance(n, ast.Attribute))

    def store_sub(self, base, idx, t):
        if self.loops:
            lv, org, node, outer = self.loops[-1]
            if isinstance(base, ast.Name) and base.id in outer and self.kind.get(base.id) == "dict" and self.depends(idx, self.loopvars()):
                self.env[base.id] = join(self.env.get(base.id, C), ("U", org))
            elif isinstance(base, ast.Attribute) and self.depends(idx, self.loopvars()) and "dict" in base.attr:
                self.A.attr_set(base.attr, ("U", org))
        if t[0] in ("U", "S") and isinstance(base, ast.Name):
            self.env[base.id] = join(self.env.get(base.id, C), ("E", t[1]))

    def accumulate(self, name, val, org):
        """x = x + e / x += e inside an unordered loop"""
        if not (self.depends(val, self.loopvars()) or self.inconstant(val)):
            return
        kd = self.kind.get(name, "")
        if kd == "str" or (not kd and self.kind_of(val) == "str"):
            self.env[name] = ("X", org + f": text is appended to {name} in that order")
        elif kd in ("list", "list1") or (not kd and self.kind_of(val) in ("list", "list1")):
            self.env[name] = join(self.env.get(name, C), ("U", org))

    def inconstant(self, val):
        return False

    def augassign(self, s):
        t = self.ev(s.value)
        tg = s.target
        if isinstance(tg, ast.Name):
            if self.loops and tg.id in self.loops[-1][3]:
                if isinstance(s.op, ast.Add):
                    if self.depends(s.value, self.loopvars()) or t[0] != "C":
                        kd = self.kind.get(tg.id) or self.kind_of(s.value)
                        if kd == "str":
                            self.env[tg.id] = ("X", self.loops[-1][1] + f": text is appended to {tg.id} in that order")
                            return
                        if kd in ("list", "list1"):
                            self.env[tg.id] = join(self.env.get(tg.id, C), ("U", self.loops[-1][1]))
                            return
                    # a counter advanced inside an unordered loop is a position in it
                    elif isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                        self.loops[-1][0].add(tg.id)
                return
            cur = self.env.get(tg.id, C)
            if t[0] in ("S", "U"):
                t = ("U", t[1]) if (self.kind.get(tg.id) != "set") else ("S", t[1])
            if isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and cur[0] == "S":
                return
            self.env[tg.id] = join(cur, t)
        elif isinstance(tg, ast.Attribute):
            if t[0] == "X":
                self.A.report(t[1], f"stored in attribute {tg.attr} by {self.name}")
            if self.loops and self.depends(s.value, self.loopvars()):
                kd = self.kind_of(s.value)
                if kd == "str":
                    self.A.report(self.loops[-1][1] + f": text is appended to {tg.attr} in that order", f"stored in attribute {tg.attr} by {self.name}")
                elif kd in ("list", "list1"):
                    t = join(t, ("U", self.loops[-1][1]))
            self.A.attr_set(tg.attr, ("U", t[1]) if t[0] == "S" else t)
        elif isinstance(tg, ast.Subscript):
            if t[0] == "X":
                self.A.report(t[1], f"stored in {ast.unparse(tg.value)[:40]} by {self.name}")
            if self.loops and not self.depends(tg.slice, self.loopvars()) and self.depends(s.value, self.loopvars()) and self.kind_of(s.value) == "str":
                self.A.report(self.loops[-1][1] + f": text is appended to {ast.unparse(tg)[:30]} in that order", f"stored by {self.name}")

    def expr_stmt(self, s):
        e = s.value
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            t = self.ev(e.value) if e.value is not None else C
            if isinstance(e, ast.Yield) and self.loops:
                t = join(t, ("U", self.loops[-1][1]))
            if isinstance(e, ast.YieldFrom) and t[0] == "S":
                t = ("U", t[1])
            self.ret = join(self.ret, t if t[0] != "C" else C)
            return
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "insert", "update", "add", "sort", "appendleft", "setdefault", "discard", "remove", "clear", "reverse"):
                self.mutate(e)
                return
            t = self.ev(e)
            if self.loops:
                nm = ast.unparse(e.func).split(".")[-1]
                if nm.startswith(EFFECTS) and any(self.depends(a, self.loopvars()) for a in list(e.args) + [k.value for k in e.keywords]):
                    self.A.report(self.loops[-1][1] + f": {nm} is called in that order", f"in {self.name}")
            return
        self.ev(e)

    def mutate(self, e):
        m = e.func.attr
        base = e.func.value
        ts = [self.ev(a) for a in e.args]
        t = join(*ts) if ts else C
        name = base.id if isinstance(base, ast.Name) else None
        cur = self.ev(base)
        if name and self.kind.get(name) == "list1" and m != "sort":
            self.kind[name] = "list"
        if m == "sort":
            key = next((k.value for k in e.keywords if k.arg == "key"), None)
            if name and (key is None or injective(key)):
                self.env[name] = C
            elif isinstance(base, ast.Attribute) and (key is None or injective(key)):
                self.A.attrs.pop(base.attr, None)
            return
        if cur[0] == "S" or (name and self.kind.get(name) == "set"):
            return  # adding to a set commutes
        new = C
        if t[0] == "X":
            new = t
        elif m in ("extend", "update") and t[0] in ("S", "U"):
            new = ("U", t[1])
        elif m in ("append", "insert", "appendleft", "setdefault") and t[0] == "X":
            new = t
        if self.loops and m in ("append", "insert", "extend", "appendleft", "setdefault", "update"):
            lv, org, node, outer = self.loops[-1]
            root = base
            idx_dep = False
            while isinstance(root, (ast.Subscript, ast.Attribute)):
                if isinstance(root, ast.Subscript) and self.depends(root.slice, self.loopvars()):
                    idx_dep = True
                root = root.value
            if not idx_dep and any(self.depends(a, self.loopvars()) for a in e.args):
                if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id in self.A.imports[self.mod]:
                    self.A.report(org + f": {base.attr}.{m} is called in that order", f"in {self.name}")
                if not isinstance(root, ast.Name) or root.id in outer or root.id == "self" or root.id not in self.env:
                    new = join(new, ("U", org))
        if new[0] == "C":
            return
        if new[0] == "X":
            self.A.report(new[1], f"stored in {ast.unparse(base)[:40]} by {self.name}")
            new = ("U", new[1])
        if name:
            self.env[name] = join(self.env.get(name, C), new)
        elif isinstance(base, ast.Attribute):
            self.A.attr_set(base.attr, new)

    pending = frozenset()

    def for_(self, target, it, body, node):
        t = self.ev(it)
        inner = it
        names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        for n in names:
            self.kind.pop(n, None)
        if t[0] in ("S", "U"):
            self.A.sites += 1
            for n in names:
                self.env[n] = C
            if isinstance(inner, ast.Call) and ast.unparse(inner.func) == "enumerate" and isinstance(target, (ast.Tuple, ast.List)) and isinstance(target.elts[0], ast.Name):
                self.env[target.elts[0].id] = ("I", t[1])
            outer = set(self.env) - names
            saved_pending, self.pending = set(self.pending), set()
            varying = set(names)
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                        for tg in n.targets:
                            varying |= {x.id for x in ast.walk(tg) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                        varying.add(n.target.id)
                    elif isinstance(n, (ast.For,)):
                        varying |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if any(isinstance(y, ast.Name) and y.id in varying for y in ast.walk(n.iter)) else set()
            self.loops.append((varying, t[1], node, outer))
            self.block(body)
            lv, org, _, outer = self.loops.pop()
            for p in self.pending:
                self.env[p] = ("X", org + f": {p} keeps the value of whichever element comes last")
            self.pending = saved_pending
        elif t[0] == "X":
            for n in names:
                self.env[n] = t
            self.block(body)
        elif t[0] == "E":
            last = ast.unparse(it.func).split(".")[-1] if isinstance(it, ast.Call) else ""
            hold = names if last == "values" else {n.id for n in ast.walk(target.elts[-1]) if isinstance(n, ast.Name)} if last == "items" and isinstance(target, (ast.Tuple, ast.List)) else set()
            for _ in range(2):
                for n in names:
                    self.env[n] = ("U", t[1]) if n in hold else C
                self.block(body)
        else:
            for n in names:
                self.env[n] = C
            for _ in range(2 if self.env else 1):
                self.block(body)

    # -------------------------------------------------------------- expressions
    def comp(self, e, kind):
        src = C
        saved = dict(self.env)
        names = set()
        for g in e.generators:
            t = self.ev(g.iter)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    self.env[n.id] = t if t[0] == "X" else C
                    names.add(n.id)
            if t[0] in ("S", "U"):
                self.A.sites += 1
                src = join(src, ("U", t[1]))
        inner = join(*[self.ev(x) for x in ([e.elt] if kind != "dict" else [e.key, e.value])])
        self.env = saved
        if inner[0] == "X":
            return inner
        if kind == "set":
            return ("S", src[1] or self.site(e, f"set {ast.unparse(e)[:50]}"))
        return src

    def ev(self, e):
        k = type(e).__name__
        if k == "Constant":
            return C
        if k == "Name":
            return self.env.get(e.id, C)
        if k in ("Set", "SetComp"):
            if k == "SetComp":
                return self.comp(e, "set")
            for x in e.elts:
                self.ev(x)
            return ("S", self.site(e, f"iterating the set {ast.unparse(e)[:50]}")) if len(e.elts) > 1 or any(isinstance(x, ast.Starred) for x in e.elts) else C
        if k in ("ListComp", "GeneratorExp"):
            return self.comp(e, "list")
        if k == "DictComp":
            return self.comp(e, "dict")
        if k == "JoinedStr":
            out = C
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    t = self.ev(v.value)
                    if t[0] in ("S", "U", "E"):
                        t = ("X", t[1] + ": formatted into text")
                    if t[0] == "I":
                        t = ("X", t[1] + ": the position is formatted into text")
                    out = join(out, t)
            return out
        if k == "FormattedValue":
            return self.ev(e.value)
        if k == "Attribute":
            if e.attr == "free_symbols":
                self.ev(e.value)
                return ("S", self.site(e, f"order of {ast.unparse(e)[:50]}"))
            b = self.ev(e.value)
            if b[0] == "X":
                return b
            if e.attr in self.A.attrs and not isinstance(e.value, ast.Constant):
                return self.A.attrs[e.attr]
            return C
        if k == "Subscript":
            b = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                return ("X", b[1] + ": a part of it is taken by position") if b[0] == "U" and not full_slice(e.slice) else b
            i = self.ev(e.slice)
            if b[0] == "X":
                return b
            if b[0] == "E":
                return ("U", b[1])
            if b[0] == "U":
                if i[0] == "I" or (self.loops and self.depends(e.slice, self.loopvars())):
                    return C
                if isinstance(e.slice, (ast.Constant, ast.UnaryOp)) and not isinstance(getattr(e.slice, "value", 0), str):
                    return ("X", b[1] + ": an element is taken by position")
                return C
            if i[0] == "X":
                return i
            if i[0] == "I":
                return ("X", i[1] + ": its position selects from another sequence")
            return C
        if k == "BinOp":
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and "S" in (a[0], b[0]):
                return a if a[0] == "S" else b
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) and b[0] in ("S", "U"):
                return ("X", b[1] + ": formatted into text")
            return join(a, b)
        if k == "BoolOp":
            return join(*[self.ev(v) for v in e.values])
        if k == "Compare":
            self.ev(e.left)
            for c in e.comparators:
                self.ev(c)
            return C
        if k == "UnaryOp":
            t = self.ev(e.operand)
            return C if isinstance(e.op, ast.Not) else t
        if k == "IfExp":
            self.ev(e.test)
            return join(self.ev(e.body), self.ev(e.orelse))
        if k in ("Tuple", "List"):
            ts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    t = self.ev(x.value)
                    ts.append(("U", t[1]) if t[0] == "S" else t)
                else:
                    t = self.ev(x)
                    ts.append(t if t[0] == "X" else ("E", t[1]) if t[0] in ("S", "U", "E") else C)
            return join(*ts) if ts else C
        if k == "Dict":
            ts = [self.ev(x) for x in list(e.keys) + list(e.values) if x is not None]
            b = join(*ts) if ts else C
            return b if b[0] == "X" else ("E", b[1]) if b[0] in ("S", "U", "E") else C
        if k == "Lambda":
            return C
        if k == "Starred":
            return self.ev(e.value)
        if k == "NamedExpr":
            t = self.ev(e.value)
            self.env[e.target.id] = t
            return t
        if k == "Call":
            return self.call(e)
        if k in ("Yield", "YieldFrom", "Await"):
            return self.ev(e.value) if e.value is not None else C
        return C

    def call(self, e):
        fn = ast.unparse(e.func)
        last = fn.split(".")[-1]
        im = self.A.imports[self.mod]
        head = fn.split(".")[0]
        full = (im[head] + fn[len(head):]) if head in im else fn
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {kw.arg: self.ev(kw.value) for kw in e.keywords}
        allt = join(*(args + list(kws.values()))) if args or kws else C
        if full in CLOCK or fn in CLOCK or ".".join(full.split(".")[-2:]) in CLOCK or full.startswith(("random.", "numpy.random.", "secrets.")) and last not in ("seed",):
            return ("X", self.site(e, f"value of {fn}()"))
        if fn in ("id", "hash") and head not in im and fn not in self.A.funcs.get(self.mod, {}):
            return ("X", self.site(e, f"value of {fn}({ast.unparse(e.args[0])[:30] if e.args else ''})"))
        if full in LISTING or (isinstance(e.func, ast.Attribute) and last in ("iterdir", "rglob", "glob", "scandir")):
            return ("U", self.site(e, f"order of {fn}(...)"))
        if last in ("imap_unordered", "as_completed"):
            return ("U", self.site(e, f"completion order of {fn}(...)"))
        if fn in ("sorted",) or full in ("sympy.ordered", "sympy.utilities.iterables.ordered"):
            key = next((kw.value for kw in e.keywords if kw.arg == "key"), None)
            t = args[0] if args else C
            if t[0] == "X":
                return t
            if t[0] in ("S", "U") and key is not None and not injective(key):
                return ("U", t[1] + f" (ties of sort key {ast.unparse(key)[:30]})")
            return C
        if fn in ("set", "frozenset"):
            if not e.args:
                return ("S", self.site(e, "iterating a set"))
            if self.kind_of(e.args[0]) == "list1" or (isinstance(e.args[0], (ast.List, ast.Tuple)) and len(e.args[0].elts) < 2):
                return C
            if args and args[0][0] == "X":
                return args[0]
            return ("S", (args[0][1] if args and args[0][0] != "C" else self.site(e, f"iterating {ast.unparse(e)[:50]}"))) if True else C
        if fn in NEUTRAL or fn in ("min", "max", "sum", "round", "range", "abs", "float", "int"):
            return allt if allt[0] == "X" and fn not in NEUTRAL else C
        if isinstance(e.func, ast.Attribute) and last in ("dict", "list") and not e.args and self.kind_of(e.func.value) == "manager":
            return ("U", self.site(e, f"completion order of the workers filling {fn}()"))
        if last in SEQ or fn in ("enumerate", "zip"):
            if allt[0] == "S":
                return ("U", allt[1])
            return allt
        if fn in ("str", "repr", "format") or last in ("dumps", "pformat"):
            return ("X", allt[1] + ": formatted into text") if allt[0] in ("S", "U") else allt
        if fn == "next":
            return ("X", allt[1] + ": whichever element comes first is taken") if allt[0] in ("S", "U") else allt
        if last == "fromkeys":
            return ("U", allt[1]) if allt[0] == "S" else allt
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value)
            if last == "atoms":
                return ("S", self.site(e, f"order of {fn}()"))
            if last == "join":
                return ("X", allt[1] + ": joined into text") if allt[0] in ("S", "U") else allt
            if last == "pop" and b[0] == "S":
                return ("X", b[1] + ": an arbitrary element is taken")
            if last == "pop" and b[0] == "U":
                return ("X", b[1] + ": an element is taken by position")
            if last in SETMETH and b[0] == "S":
                return b
            if last in ("keys", "values", "items", "copy") and b[0] in ("U", "X", "E"):
                return b
            if last == "get" and b[0] == "E":
                return ("U", b[1])
            if last == "index" and b[0] == "U":
                return ("I", b[1])
            if last == "format" and allt[0] in ("S", "U"):
                return ("X", allt[1] + ": formatted into text")
            if last in ("write", "write_text", "writelines") and allt[0] in ("X",):
                self.A.report(allt[1], f"written to a file by {self.name}")
                return C
            if last in ("write", "write_text", "writelines") and allt[0] in ("S", "U"):
                self.A.report(allt[1], f"written to a file by {self.name}")
                return C
            if b[0] == "X":
                return b
        # repository functions
        target = self.resolve(e, fn, full)
        if target is not None:
            m, cls, f = target
            names = [a.arg for a in f.args.args]
            if cls is not None and names and names[0] in ("self", "cls"):
                names = names[1:]
            bound = {}
            for i, t in enumerate(args):
                if t[0] != "C":
                    if i < len(names):
                        bound[names[i]] = t
                    elif f.args.vararg:
                        bound[f.args.vararg.arg] = join(bound.get(f.args.vararg.arg, C), t)
            for kw, t in kws.items():
                if t[0] != "C" and kw:
                    bound[kw] = t
            for t in bound.values():
                if t[0] == "X":
                    self.A.report(t[1], f"passed to {f.name} by {self.name}")
            return self.A.function(m, cls, f, tuple(sorted((a, t) for a, t in bound.items() if t[0] != "X")), self.local_defs if f.name in self.local_defs else None)
        if allt[0] == "X":
            base = fn.split(".")[0]
            if base not in ("print", "warnings", "logging", "sys", "time", "datetime", "timedelta"):
                return allt
            return C
        if allt[0] in ("S", "U") and last in ("subs", "xreplace", "has", "cse", "update", "issubset", "issuperset", "isdisjoint", "Add", "Mul", "symbols", "get", "replace", "count", "diff"):
            return C
        return ("U", allt[1]) if allt[0] in ("S", "U") and last not in ("get",) else C

    def resolve(self, e, fn, full):
        A = self.A
        if fn in self.local_defs:
            return self.mod, None, self.local_defs[fn]
        if fn in A.funcs.get(self.mod, {}):
            return self.mod, None, A.funcs[self.mod][fn]
        if self.cls is not None and fn.startswith("self."):
            f = next((x for x in self.cls.body if isinstance(x, ast.FunctionDef) and x.name == fn[5:]), None)
            if f is not None:
                return self.mod, self.cls, f
        m, _, n = full.rpartition(".")
        if m in A.funcs and n in A.funcs[m]:
            return m, None, A.funcs[m][n]
        mm, _, cn = m.rpartition(".")
        if not mm or mm not in A.classes:
            mm = self.mod if cn in A.classes.get(self.mod, {}) else mm
        seen = set()
        while mm in A.classes and cn in A.classes[mm] and cn not in seen:
            seen.add(cn)
            c = A.classes[mm][cn]
            f = next((x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == n), None)
            if f is not None:
                return mm, c, f
            cn = next((b.id for b in c.bases if isinstance(b, ast.Name)), "")
        c = A.classes.get(self.mod, {}).get(fn) or (A.classes.get(m, {}).get(n) if m in A.classes else None)
        if c is not None:
            f = next((x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
            if f is not None:
                return (self.mod if fn in A.classes.get(self.mod, {}) else m), c, f
        return None


def full_slice(s):
    return s.lower is None and s.upper is None


def injective(key):
    """sort keys that distinguish every two elements that print differently"""
    t = ast.unparse(key)
    if t in ("str", "repr", "sp.default_sort_key", "sympy.default_sort_key", "default_sort_key", "natural_sort_key", "str.__str__"):
        return True
    if isinstance(key, ast.Lambda):
        arg = key.args.args[0].arg if key.args.args else ""

        def inj(b):
            if isinstance(b, ast.Name):
                return b.id == arg
            if isinstance(b, ast.Call):
                n = ast.unparse(b.func)
                return n in ("str", "repr", "sp.default_sort_key", "default_sort_key") and bool(b.args) and inj(b.args[0])
            if isinstance(b, ast.Attribute):
                return b.attr in ("name", "full_name") and inj(b.value)
            if isinstance(b, ast.Subscript):
                return inj(b.value)
            if isinstance(b, (ast.Tuple, ast.List)):
                return any(inj(x) for x in b.elts)
            return False

        return inj(key.body)
    # a named key function of the code base: taken at its word unless it is a measure
    return t not in ("len", "abs", "int", "float", "bool", "type")
