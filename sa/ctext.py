"""
Tolerant C/C++ front end for code templates: tokenizer, bracket checker,
statement/expression parser.  Holes of the template appear as identifiers zH<n>z
(expression / name holes) or zC<n>z; (code holes).
"""

import re
from typing import Any, Dict, List, Optional, Tuple

from .absint import Sym, Tmpl

CODE_CALLS = (
    "nrpy.c_codegen.c_codegen",
    "nrpy.helpers.loop.loop",
    "nrpy.helpers.loop.simple_loop",
    "nrpy.finite_difference",
)


def is_code_hole(s: Sym) -> bool:
    o = s.origin
    if isinstance(o, tuple) and o and o[0] == "call" and any(str(o[1]).startswith(c) for c in CODE_CALLS):
        return True
    return False


class Rendered:
    def __init__(self, v):
        self.holes: List[Sym] = []
        parts = []
        if isinstance(v, str):
            parts = [v]
        elif isinstance(v, Tmpl):
            for p in v.parts:
                parts.append(p if isinstance(p, str) else self._hole(p))
        elif isinstance(v, Sym):
            parts = [self._hole(v)]
        elif v is None:
            parts = []
        else:
            parts = [str(v)]
        self.text = "".join(parts)

    def _hole(self, s):
        for i, h in enumerate(self.holes):
            if h.key == s.key:
                n = i
                break
        else:
            self.holes.append(s)
            n = len(self.holes) - 1
        return f"\nzC{n}z;\n" if is_code_hole(s) else f"zH{n}z"


def braced(v) -> str:
    """text with every hole written {key}"""
    r = Rendered(v)
    return re.sub(r"\n?z([HC])(\d+)z;?\n?", lambda m: "{" + r.holes[int(m[2])].key + "}", r.text) if r.holes else r.text


# --------------------------------------------------------------------------- tokens
TOK = re.compile(
    r"""
  (?P<ws>[ \t\r\f\v]+)
 |(?P<nl>\n)
 |(?P<lc>//[^\n]*(?:\\\n[^\n]*)*)
 |(?P<bc>/\*.*?\*/)
 |(?P<pp>\#[^\n]*?(?:\\\n[^\n]*?)*(?=\n|$))
 |(?P<str>(?:L|u8|R)?"(?:\\.|[^"\\\n])*")
 |(?P<chr>'(?:\\.|[^'\\\n])+')
 |(?P<num>(?:0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[uUlLfF]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|::|[-+*/%=<>!&|^~?:;,.(){}\[\]])
 |(?P<bad>.)
""",
    re.X | re.S,
)


class T:
    __slots__ = ("k", "s", "line")

    def __init__(self, k, s, line):
        self.k, self.s, self.line = k, s, line

    def __repr__(self):
        return self.s


def tokenize(text: str) -> Tuple[List[T], List[str]]:
    out: List[T] = []
    errs: List[str] = []
    line = 1
    pos = 0
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        k = m.lastgroup
        s = m.group(k)
        pos = m.end()
        if k == "pp":
            # a preprocessor directive must start its line
            ls = text.rfind("\n", 0, m.start()) + 1
            if text[ls : m.start()].strip() != "":
                out.append(T("op", "#", line))
                pos = m.start() + 1
                continue
            # strip comments in directive
            s2 = re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S)
            out.append(T("pp", s2.strip(), line))
        elif k in ("ws", "lc", "bc"):
            pass
        elif k == "nl":
            line += 1
            continue
        elif k == "bad":
            errs.append(f"stray character {s!r} near {text[max(0,m.start()-20):m.start()+20]!r}")
        else:
            out.append(T(k, s, line))
        line += s.count("\n")
    return out, errs


PAIR = {")": "(", "]": "[", "}": "{"}


def balance(text: str) -> Optional[str]:
    """None when all brackets, strings and comments are balanced; else a message.

    Preprocessor alternatives: each #if/#else arm must have the same net effect unless the
    arms are analysed by selecting the first arm of every conditional."""
    toks, errs = tokenize(text)
    bad = [e for e in errs if "'\"'" in e or '"' in e.split(" near ")[0] or "'\\''" in e]
    if bad:
        return bad[0]
    for sel in (0, 1):
        st: List[Tuple[str, int]] = []
        for t in select_pp(toks, sel):
            if t.k != "op":
                continue
            if t.s in "([{" and len(t.s) == 1:
                st.append((t.s, t.line))
            elif t.s in PAIR:
                if not st or st[-1][0] != PAIR[t.s]:
                    ctx = _ctx(text, t.line)
                    return f"unmatched '{t.s}' at template line {t.line}: {ctx!r}"
                st.pop()
        if st:
            ctx = _ctx(text, st[-1][1])
            return f"unclosed '{st[-1][0]}' from template line {st[-1][1]}: {ctx!r}"
    return None


def _ctx(text, line):
    ls = text.split("\n")
    return ls[line - 1].strip()[:100] if 0 < line <= len(ls) else ""


def select_pp(toks, sel):
    """Choose arm `sel` (0: first, 1: last) of each #if/#ifdef; drop directives' other arms."""
    out = []
    stack: List[Dict[str, Any]] = []
    # precompute the number of arms of each conditional
    arms: Dict[int, int] = {}
    st: List[int] = []
    for i, t in enumerate(toks):
        if t.k != "pp":
            continue
        d = t.s.lstrip("#").strip()
        if d.startswith("if"):
            st.append(i)
            arms[i] = 1
        elif (d.startswith("el")) and st:
            arms[st[-1]] += 1
        elif d.startswith("endif") and st:
            st.pop()
    for i, t in enumerate(toks):
        if t.k == "pp":
            d = t.s.lstrip("#").strip()
            if d.startswith("if"):
                n = arms.get(i, 1)
                want = 0 if (sel == 0 or n == 1) else n - 1
                stack.append({"arm": 0, "want": want})
            elif d.startswith("el"):
                if stack:
                    stack[-1]["arm"] += 1
            elif d.startswith("endif"):
                if stack:
                    stack.pop()
            else:
                if all(x["arm"] == x["want"] for x in stack):
                    out.append(t)
            continue
        if all(x["arm"] == x["want"] for x in stack):
            out.append(t)
    return out


# --------------------------------------------------------------------------- AST
class N:
    """Generic node: kind + fields."""

    __slots__ = ("k", "_d", "line")

    def __init__(self, k, line=0, **f):
        self.k = k
        self._d = f
        self.line = line

    def __getattr__(self, a):
        if a.startswith('_'):
            raise AttributeError(a)
        try:
            return self._d[a]
        except KeyError:
            raise AttributeError(a)

    def __repr__(self):
        return f"{self.k}{self._d}"


TYPEWORDS = {
    "int", "char", "void", "double", "float", "long", "short", "unsigned", "signed", "bool", "size_t", "REAL", "DOUBLE",
    "CCTK_REAL", "CCTK_INT", "REAL_SIMD_ARRAY", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t",
    "uint32_t", "uint64_t", "FILE", "ssize_t", "MAYBE_UNUSED", "std", "auto", "GF_OFFSET",
}
QUALS = {"const", "static", "restrict", "__restrict__", "volatile", "inline", "extern", "register", "struct", "enum", "union", "unsigned", "signed", "typedef", "constexpr", "CCTK_ATTRIBUTE_UNUSED", "MAYBE_UNUSED"}
KW = {"if", "for", "while", "do", "switch", "return", "break", "continue", "case", "default", "goto", "else", "sizeof", "new", "delete"}


class ParseError(Exception):
    pass


BINPREC = {
    "||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8,
    "+": 9, "-": 9, "*": 10, "/": 10, "%": 10,
}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


class Parser:
    def __init__(self, toks: List[T]):
        self.t = toks
        self.i = 0
        self.raw = 0  # statements that could not be parsed

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else T("eof", "", 0)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, s):
        if self.peek().s == s and self.peek().k in ("op", "id"):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError(f"expected {s} got {self.peek().s} line {self.peek().line}")

    # ---------------- statements
    def block_items(self, end="}"):
        out = []
        while self.peek().k != "eof" and not (self.peek().s == end and self.peek().k == "op"):
            start = self.i
            try:
                s = self.statement()
            except ParseError:
                self.i = start
                s = self.skip_raw()
            if s is not None:
                out.append(s)
            if self.i == start:
                self.i += 1
        return out

    def skip_raw(self):
        """Skip to ';' at depth 0 or to end of a balanced {...}; keep tokens."""
        toks = []
        depth = 0
        line = self.peek().line
        self.raw += 1
        while self.peek().k != "eof":
            t = self.peek()
            if t.k == "op":
                if t.s in "([{" and len(t.s) == 1:
                    depth += 1
                elif t.s in PAIR:
                    if depth == 0:
                        break
                    depth -= 1
                    if depth == 0 and t.s == "}":
                        toks.append(self.next())
                        break
                elif t.s == ";" and depth == 0:
                    toks.append(self.next())
                    break
            elif t.k == "pp" and depth == 0 and toks:
                break
            toks.append(self.next())
        return N("raw", line, toks=toks)

    def statement(self):
        t = self.peek()
        if t.k == "pp":
            self.next()
            if t.s.startswith("#pragma"):
                return N("pragma", t.line, text=t.s)
            return N("pp", t.line, text=t.s)
        if t.k == "op" and t.s == ";":
            self.next()
            return None
        if t.k == "op" and t.s == "{":
            self.next()
            b = self.block_items()
            self.expect("}")
            return N("block", t.line, body=b)
        if t.k == "id":
            if t.s == "for":
                return self.for_()
            mth = self.method_def()
            if mth is not None:
                return mth
            if t.s == "while":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                return N("while", t.line, cond=c, body=self.body())
            if t.s == "do":
                self.next()
                b = self.body()
                self.expect("while")
                self.expect("(")
                c = self.expr()
                self.expect(")")
                self.accept(";")
                return N("do", t.line, cond=c, body=b)
            if t.s == "if":
                self.next()
                self.accept("constexpr")
                self.expect("(")
                c = self.expr()
                self.expect(")")
                th = self.body()
                el = None
                j = self.i
                while self.peek().k == "pp" and self.peek().s.startswith("#pragma"):
                    self.i += 1
                if self.accept("else"):
                    el = self.body()
                else:
                    self.i = j
                return N("if", t.line, cond=c, then=th, els=el)
            if t.s == "switch":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                return N("switch", t.line, cond=c, body=self.body())
            if t.s == "case":
                self.next()
                c = self.expr()
                self.expect(":")
                return N("case", t.line, val=c)
            if t.s == "default" and self.peek(1).s == ":":
                self.next()
                self.next()
                return N("case", t.line, val=None)
            if t.s == "return":
                self.next()
                e = None
                if self.peek().s != ";":
                    e = self.expr() if self.peek().s != "{" else self.init()
                self.expect(";")
                return N("return", t.line, e=e)
            if t.s in ("break", "continue"):
                self.next()
                self.accept(";")
                return N(t.s, t.line)
            if t.s == "goto":
                self.next()
                l = self.next().s
                self.accept(";")
                return N("goto", t.line, label=l)
            if t.s in ("else",):
                raise ParseError("stray else")
            if t.s == "typedef" and self.peek(1).s in ("struct", "enum", "union"):
                return self.typedef_struct()
            if t.s in ("struct", "enum", "union", "class") and (self.peek(1).s == "{" or self.peek(2).s in ("{", ":")):
                return self.typedef_struct()
            if t.s in ("public", "private", "protected") and self.peek(1).s == ":":
                self.next()
                self.next()
                return None
            if t.s == "using":
                while self.next().s != ";":
                    if self.peek().k == "eof":
                        break
                return None
            if t.s == "extern" and self.peek(1).k == "str":
                self.next()
                self.next()
                if self.peek().s == "{":
                    return self.statement()
            if self.peek(1).s == ":" and self.peek(2).s != ":" and t.s not in KW:
                self.next()
                self.next()
                return N("label", t.line, name=t.s)
            m = re.fullmatch(r"zC(\d+)z", t.s)
            if m and self.peek(1).s == ";":
                self.next()
                self.next()
                return N("code", t.line, n=int(m.group(1)))
            if re.fullmatch(r"zH(\d+)z", t.s) and (self.peek(1).line > t.line or self.peek(1).k in ("eof", "pp")) and self.peek(1).s not in ("=", "[", "(", ";", ".", "->", "+", "-", ")", ","):
                self.next()
                return N("code", t.line, n=int(t.s[2:-1]))
            if self.looks_decl():
                j = self.i
                try:
                    return self.decl()
                except ParseError:
                    self.i = j
        e = self.expr()
        if self.peek().s == "{" and e.k == "call":
            b = self.body()
            return N("macroloop", t.line, call=e, body=b)
        if not self.accept(";"):
            # macro invocation without ';' (e.g. DECLARE_..., or a statement macro)
            if e.k in ("call", "id") and (self.peek().line > t.line or self.peek().k in ("eof",) or self.peek().s == "}"):
                return N("expr", t.line, e=e)
            raise ParseError(f"expected ; got {self.peek().s!r} line {self.peek().line}")
        return N("expr", t.line, e=e)

    def method_def(self):
        """out-of-class C++ member function definition  T C::f(params) [: inits] { body }"""
        j = self.i
        n = len(self.t)
        sep = False
        while j < n and (self.t[j].k == "id" or self.t[j].s in ("*", "&", "::", "~")):
            sep = sep or self.t[j].s == "::"
            j += 1
        if not sep or j >= n or self.t[j].s != "(" or self.t[j - 1].k != "id" or self.t[j - 2].s not in ("::", "~"):
            return None
        save = self.i
        line = self.peek().line
        name = self.t[j - 1].s if self.t[j - 2].s == "::" else "~" + self.t[j - 1].s
        ret = " ".join(x.s for x in self.t[save : j - 1])
        self.i = j
        self._skip_paren()
        params = self.t[j + 1 : self.i - 1]
        if self.peek().s == ":":
            while self.peek().k != "eof" and self.peek().s not in ("{", ";"):
                if self.peek().s == "(":
                    self._skip_paren()
                else:
                    self.next()
        if self.peek().s != "{":
            self.i = save
            return None
        self.next()
        b = self.block_items()
        self.expect("}")
        return N("func", line, name=name, ret=ret, params=params, body=b, quals=[])

    def typedef_struct(self):
        t = self.peek()
        kind = "struct"
        tag = None
        while self.peek().s != "{":
            x = self.next()
            if x.s in ("struct", "enum", "union", "class"):
                kind = x.s
            elif x.k == "id" and tag is None and x.s != "typedef":
                tag = x.s
            elif x.k == "eof" or x.s == ";":
                raise ParseError("struct")
        self.expect("{")
        if kind == "enum":
            members = []
            while self.peek().s != "}":
                x = self.next()
                if x.k == "eof":
                    raise ParseError("enum")
                if x.k == "id":
                    members.append(x.s)
            self.expect("}")
            fields = [N("enumerator", t.line, name=m) for m in members]
        else:
            fields = self.block_items()
            self.expect("}")
        names = []
        while self.peek().s not in (";",):
            x = self.next()
            if x.k == "eof":
                raise ParseError("struct;")
            if x.k == "id":
                names.append(x.s)
            elif x.s == "=":
                if self.peek().s == "{":
                    self.init()
                else:
                    self.assign_expr()
        self.expect(";")
        return N("struct", t.line, kind=kind, tag=tag, names=names, fields=fields)

    def body(self):
        """Statement used as a body; returns list of statements."""
        pre = []
        while self.peek().k == "pp":
            t = self.next()
            pre.append(N("pragma" if t.s.startswith("#pragma") else "pp", t.line, text=t.s))
        s = self.statement()
        if s is None:
            return pre
        if s.k == "block":
            return pre + s.body
        return pre + [s]

    def for_(self):
        t = self.next()
        self.expect("(")
        init = None
        if self.peek().s == ";":
            self.next()
        else:
            if self.looks_decl():
                j = self.i
                try:
                    init = self.decl()
                except ParseError:
                    self.i = j
                    init = N("expr", t.line, e=self.expr())
                    if self.accept(":"):
                        rng = self.expr()
                        self.expect(")")
                        return N("rangefor", t.line, var=init, rng=rng, body=self.body())
                    self.expect(";")
            else:
                init = N("expr", t.line, e=self.expr())
                self.expect(";")
        cond = None if self.peek().s == ";" else self.expr()
        self.expect(";")
        step = None if self.peek().s == ")" else self.expr()
        self.expect(")")
        return N("for", t.line, init=init, cond=cond, step=step, body=self.body())

    # ---------------- declarations
    def looks_decl(self):
        j = self.i
        t = self.t
        n = len(t)

        def at(k):
            return t[k] if k < n else T("eof", "", 0)

        if at(j).k != "id" or at(j).s in KW:
            return False
        seen_type = False
        while at(j).k == "id" and at(j).s in QUALS:
            if at(j).s in ("struct", "enum", "union", "unsigned", "signed"):
                seen_type = at(j).s in ("unsigned", "signed") or seen_type
            j += 1
        if at(j).k != "id":
            return False
        # type name
        if not (seen_type and at(j + 1).s in ("=", ";", ",", "[")):
            j += 1
            while at(j).s == "::" and at(j + 1).k == "id":
                j += 2
            if at(j).s == "<":
                d = 0
                k = j
                while k < n and k < j + 30:
                    if at(k).s == "<":
                        d += 1
                    elif at(k).s == ">":
                        d -= 1
                        if d == 0:
                            break
                    elif at(k).s == ">>":
                        d -= 2
                        if d <= 0:
                            break
                    elif at(k).s in (";", "{", "(", "&&", "||"):
                        return False
                    k += 1
                else:
                    return False
                j = k + 1
            while at(j).k == "id" and at(j).s in ("int", "long", "char", "double", "short", "unsigned", "complex"):
                j += 1
        stars = 0
        while at(j).s in ("*", "&") or (at(j).k == "id" and at(j).s in QUALS):
            if at(j).s in ("*", "&"):
                stars += 1
            j += 1
        if at(j).k != "id" or at(j).s in KW:
            if at(j).s == "(" and at(j + 1).s == "*":  # function pointer
                return True
            return False
        nx = at(j + 1)
        if at(j).line > at(j - 1).line + 0 and stars == 0 and re.fullmatch(r"z[HC]\d+z", at(j - 1).s):
            return False
        if nx.s in ("=", ";", ",", "["):
            return True
        if nx.s == "(" and stars == 0:
            return True  # prototype / constructor
        if nx.s == "(":
            return True
        if nx.k == "id" and (nx.s in QUALS or nx.s == "__attribute__"):
            return True
        if nx.s == ":" and at(j + 2).s != ":":
            return False
        return False

    def decl(self):
        line = self.peek().line
        ty = []
        quals = []
        # collect type tokens until the declarator name
        while True:
            t = self.peek()
            if t.k == "id" and t.s in QUALS:
                quals.append(t.s)
                if t.s in ("struct", "unsigned", "signed", "enum", "union"):
                    ty.append(t.s)
                self.next()
                continue
            break
        if not (ty and self.peek().k == "id" and self.peek(1).s in ("=", ";", ",", "[") and ty[-1] in ("unsigned", "signed")):
            t = self.next()
            if t.k != "id":
                raise ParseError("type")
            ty.append(t.s)
            while self.peek().s == "::":
                self.next()
                ty.append("::" + self.next().s)
            if self.peek().s == "<":
                d = 0
                while True:
                    x = self.next()
                    ty.append(x.s)
                    if x.s == "<":
                        d += 1
                    elif x.s == ">":
                        d -= 1
                    elif x.s == ">>":
                        d -= 2
                    elif x.k == "eof":
                        raise ParseError("template")
                    if d <= 0:
                        break
            while self.peek().k == "id" and self.peek().s in ("int", "long", "char", "double", "short", "unsigned", "complex"):
                ty.append(self.next().s)
        decls = []
        while True:
            ptr = 0
            while self.peek().s in ("*", "&") or (self.peek().k == "id" and self.peek().s in QUALS):
                if self.peek().s in ("*", "&"):
                    ptr += 1
                else:
                    quals.append(self.peek().s)
                self.next()
            if self.peek().s == "(" and self.peek(1).s == "*":
                self.next()
                self.next()
                nm = self.next().s
                dims = []
                while self.accept("["):
                    dims.append(None if self.peek().s == "]" else self.expr())
                    self.expect("]")
                self.expect(")")
                if self.peek().s == "(":
                    self._skip_paren()
                ptr += 1
            else:
                t = self.next()
                if t.k != "id":
                    raise ParseError("declarator")
                nm = t.s
                dims = []
            proto = None
            if self.peek().s == "(":
                j = self.i
                self._skip_paren()
                proto = self.t[j + 1 : self.i - 1]
            while self.accept("["):
                dims.append(None if self.peek().s == "]" else self.expr())
                self.expect("]")
            while self.peek().k == "id" and self.peek().s in QUALS:
                self.next()
            if self.peek().s == "__attribute__":
                self.next()
                self._skip_paren()
            init = None
            if self.accept("="):
                init = self.init() if self.peek().s == "{" else self.assign_expr()
            decls.append(N("dcl", line, name=nm, ptr=ptr, dims=dims, init=init, proto=proto))
            if self.accept(","):
                continue
            break
        if decls[-1].proto is not None and self.peek().s == "{":
            # function definition
            d = decls[-1]
            self.next()
            b = self.block_items()
            self.expect("}")
            return N("func", line, name=d.name, ret=" ".join(ty), params=d.proto, body=b, quals=quals)
        self.expect(";")
        return N("decl", line, type=" ".join(ty), quals=quals, decls=decls)

    def _skip_paren(self):
        d = 0
        while True:
            t = self.next()
            if t.s == "(":
                d += 1
            elif t.s == ")":
                d -= 1
                if d == 0:
                    return
            elif t.k == "eof":
                raise ParseError("paren")

    def init(self):
        line = self.peek().line
        self.expect("{")
        items = []
        while self.peek().s != "}":
            if self.peek().s == "{":
                items.append(self.init())
            else:
                if self.peek().s == ".":
                    self.next()
                    self.next()
                    self.expect("=")
                items.append(self.assign_expr())
            if not self.accept(","):
                break
        self.expect("}")
        return N("init", line, items=items)

    # ---------------- expressions
    def expr(self):
        e = self.assign_expr()
        if self.peek().s == ",":
            items = [e]
            while self.accept(","):
                items.append(self.assign_expr())
            return N("comma", e.line, items=items)
        return e

    def assign_expr(self):
        a = self.cond_expr()
        if self.peek().k == "op" and self.peek().s in ASSIGN:
            op = self.next().s
            b = self.init() if self.peek().s == "{" else self.assign_expr()
            return N("assign", a.line, op=op, a=a, b=b)
        return a

    def cond_expr(self):
        c = self.bin_expr(1)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            b = self.cond_expr() if True else None
            return N("cond", c.line, c=c, a=a, b=b)
        return c

    def bin_expr(self, p):
        a = self.unary()
        while True:
            t = self.peek()
            if t.k != "op" or t.s not in BINPREC or BINPREC[t.s] < p:
                return a
            self.next()
            b = self.bin_expr(BINPREC[t.s] + 1)
            a = N("bin", t.line, op=t.s, a=a, b=b)

    def is_cast(self):
        """At '(' : is this '(type)' followed by an operand?"""
        j = self.i + 1
        t = self.t
        n = len(t)
        if j >= n or t[j].k != "id":
            return None
        k = j
        known = False
        while k < n and (t[k].k == "id" or t[k].s in ("*", "::", "&") or (t[k].s in ("<", ">") and "std" in [x.s for x in t[j:k]])):
            if t[k].k == "id" and (t[k].s in TYPEWORDS or t[k].s.endswith("_struct") or t[k].s.endswith("_t") or t[k].s in QUALS):
                known = True
            if t[k].k == "id" and t[k].s in KW:
                return None
            k += 1
        if k < n and t[k].s == "[":  # int[3]
            return None
        if k >= n or t[k].s != ")":
            return None
        ends_ptr = t[k - 1].s == "*" and k - 1 > j
        nx = t[k + 1] if k + 1 < n else T("eof", "", 0)
        if not (known or ends_ptr):
            # (Ident) ident / (Ident) number : cast of unknown type
            if k == j + 1 and (nx.k in ("num", "str") or (nx.k == "id" and nx.s not in ("and", "or"))):
                return k
            return None
        if nx.k in ("id", "num", "str", "chr") or nx.s in ("(", "-", "&", "*", "!", "~", "{", "+", "++", "--"):
            return k
        return None

    def unary(self):
        t = self.peek()
        if t.k == "op":
            if t.s in ("+", "-", "!", "~", "*", "&", "++", "--"):
                self.next()
                return N("un", t.line, op=t.s, e=self.unary())
            if t.s == "(":
                k = self.is_cast()
                if k is not None:
                    ty = " ".join(x.s for x in self.t[self.i + 1 : k])
                    self.i = k + 1
                    if self.peek().s == "{":
                        return N("cast", t.line, type=ty, e=self.init())
                    return N("cast", t.line, type=ty, e=self.unary())
        if t.k == "id" and t.s == "sizeof":
            self.next()
            if self.peek().s == "(":
                j = self.i
                self._skip_paren()
                return N("sizeof", t.line, toks=[x.s for x in self.t[j + 1 : self.i - 1]])
            return N("sizeof", t.line, toks=[vtext(self.unary())])
        if t.k == "id" and t.s in ("new", "delete"):
            self.next()
            if self.peek().s == "[" and t.s == "delete":
                self.next()
                self.expect("]")
            return N("un", t.line, op=t.s, e=self.unary())
        return self.postfix()

    def postfix(self):
        t = self.next()
        if t.k == "id":
            if t.s in KW:
                raise ParseError(f"keyword {t.s}")
            nm = t.s
            while self.peek().s == "::" and self.peek(1).k == "id":
                self.next()
                nm += "::" + self.next().s
            e = N("id", t.line, name=nm)
            if nm in ("static_cast", "reinterpret_cast", "const_cast", "std::vector", "std::max", "std::min") and self.peek().s == "<":
                d = 0
                while True:
                    x = self.next()
                    if x.s == "<":
                        d += 1
                    elif x.s == ">":
                        d -= 1
                        if d == 0:
                            break
                    elif x.k == "eof":
                        raise ParseError("tmpl")
        elif t.k == "num":
            e = N("num", t.line, v=t.s)
        elif t.k == "str":
            s = t.s
            while self.peek().k == "str" or (self.peek().k == "id" and re.fullmatch(r"PRI[a-zA-Z0-9]+", self.peek().s)):
                s += self.next().s
            e = N("str", t.line, v=s)
        elif t.k == "chr":
            e = N("num", t.line, v=t.s)
        elif t.s == "(":
            inner = self.expr()
            self.expect(")")
            e = N("paren", t.line, e=inner)
        elif t.s == "[":  # C++ lambda
            while self.next().s != "]":
                if self.peek().k == "eof":
                    raise ParseError("lambda")
            while self.peek().k == "id":
                self.next()
            params = []
            if self.peek().s == "(":
                j = self.i
                self._skip_paren()
                params = self.t[j + 1 : self.i - 1]
            while self.peek().k == "id":
                self.next()
            self.expect("{")
            b = self.block_items()
            self.expect("}")
            e = N("lambda", t.line, params=params, body=b)
        else:
            raise ParseError(f"unexpected {t.s!r} line {t.line}")
        while True:
            p = self.peek()
            if p.k != "op":
                break
            if p.s == "(":
                self.next()
                args = []
                while self.peek().s != ")":
                    args.append(self.arg())
                    if not self.accept(","):
                        break
                self.expect(")")
                e = N("call", t.line, f=e, args=args)
            elif p.s == "[":
                self.next()
                i = self.expr()
                self.expect("]")
                e = N("idx", t.line, a=e, i=i)
            elif p.s in (".", "->"):
                self.next()
                m = self.next()
                if m.k != "id":
                    raise ParseError("member")
                e = N("mem", t.line, a=e, m=m.s, op=p.s)
                if self.peek().s == "<" and self.peek(1).k == "num":
                    j = self.i
                    while self.peek().s != ">" and self.peek().k in ("num", "op") and self.peek().s in ("<", ",") or self.peek().k == "num":
                        self.next()
                    if self.peek().s == ">" and self.peek(1).s == "(":
                        self.next()
                    else:
                        self.i = j
            elif p.s in ("++", "--"):
                self.next()
                e = N("post", t.line, op=p.s, e=e)
            elif p.s == "{" and e.k == "id" and re.match(r"[A-Z]\w*$", e.name) and False:
                break
            else:
                break
        return e

    def arg(self):
        # an argument may be a type (sizeof-like macros) or a lambda; be tolerant
        j = self.i
        try:
            e = self.assign_expr()
            if self.peek().s in (",", ")"):
                return e
        except ParseError:
            pass
        self.i = j
        toks = []
        d = 0
        while True:
            t = self.peek()
            if t.k == "eof":
                raise ParseError("arg")
            if t.s in ("(", "[", "{") and t.k == "op":
                d += 1
            elif t.s in (")", "]", "}") and t.k == "op":
                if d == 0:
                    break
                d -= 1
            elif t.s == "," and d == 0:
                break
            elif t.s == ";" and d == 0:
                raise ParseError("arg;")
            toks.append(self.next())
        if not toks:
            raise ParseError("empty arg")
        return N("rawarg", toks[0].line, toks=toks)


def vtext(e) -> str:
    """Canonical text of an expression."""
    if e is None:
        return ""
    k = e.k
    if k == "id":
        return e.name
    if k == "num":
        return e.v
    if k == "str":
        return e.v
    if k == "paren":
        return "(" + vtext(e.e) + ")"
    if k == "call":
        return vtext(e.f) + "(" + ", ".join(vtext(a) for a in e.args) + ")"
    if k == "idx":
        return vtext(e.a) + "[" + vtext(e.i) + "]"
    if k == "mem":
        return vtext(e.a) + e.op + e.m
    if k == "un":
        return e.op + (" " if e.op.isalpha() else "") + vtext(e.e)
    if k == "post":
        return vtext(e.e) + e.op
    if k == "bin":
        return vtext(e.a) + " " + e.op + " " + vtext(e.b)
    if k == "assign":
        return vtext(e.a) + " " + e.op + " " + vtext(e.b)
    if k == "cond":
        return vtext(e.c) + " ? " + vtext(e.a) + " : " + vtext(e.b)
    if k == "cast":
        return "(" + e.type + ")" + vtext(e.e)
    if k == "sizeof":
        return "sizeof(" + " ".join(e.toks) + ")"
    if k == "comma":
        return ", ".join(vtext(x) for x in e.items)
    if k == "init":
        return "{" + ", ".join(vtext(x) for x in e.items) + "}"
    if k == "lambda":
        return "<lambda>"
    if k == "rawarg":
        return " ".join(t.s for t in e.toks)
    return f"<{k}>"


def children(n: N):
    for v in n._d.values():
        if isinstance(v, N):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, N):
                    yield x


def walk(n):
    if isinstance(n, list):
        for x in n:
            yield from walk(x)
        return
    if not isinstance(n, N):
        return
    yield n
    for c in children(n):
        yield from walk(c)


def parse(text: str, arm=0) -> Tuple[List[N], Parser]:
    toks, _ = tokenize(text)
    p = Parser(select_pp(toks, arm))
    body = p.block_items(end="\0")
    return body, p


def split_params(params: str) -> List[str]:
    """Split a C parameter list at top-level commas."""
    out = []
    d = 0
    cur = ""
    for ch in re.sub(r"//[^\n]*|/\*.*?\*/", "", params, flags=re.S):
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    if out == ["void"]:
        return []
    return out
