"""Parser and data flow for the C++ sources behind pytorch3d._C (pulsar excluded).

`program(repo, cuda)` parses the functions; `Flow` computes, for every function, which parameters
reach each returned value and each parameter it writes to (data and control flow, name based and
insensitive to the order of statements, so it can only find too many dependences, never too few);
`Exec` follows the host code of one function on symbolic sizes: the shape and type of what it
returns, and whether a malformed argument is rejected."""
import functools
import glob
import json
import os
import re

from . import dims

TOK = re.compile(r'''\s+|(?P<id>(?:::)?[A-Za-z_]\w*(?:::~?[A-Za-z_]\w*)*)|(?P<num>(?:0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)[a-zA-Z]*)'''
                 r'''|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])+')|(?P<op><<<|>>>|\.\.\.|->|\+\+|--|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|::|[-+*/%<>=!&|^~?:;,.(){}\[\]#@])''')
TYPEWORDS = {"const", "static", "constexpr", "auto", "unsigned", "signed", "typename", "inline", "volatile", "struct", "class", "enum", "register", "extern"}
BASIC = {"int", "int64_t", "int32_t", "uint32_t", "uint8_t", "uint64_t", "float", "double", "bool", "char", "size_t", "long", "short", "void", "uint", "unsigned", "scalar_t", "T", "auto", "unsigned char", "std::size_t"}
STMT = {"if", "for", "while", "do", "switch", "return", "break", "continue", "case", "default", "using", "typedef", "else", "goto"}


class Bad(Exception):
    pass


def preprocess(t, defs):
    """comments out; the branches chosen by #ifdef/#if; directives blanked; line numbers kept"""
    t = re.sub(r'R"\((?:.|\n)*?\)"', '""', t)
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), t, flags=re.S)
    defs = set(defs)
    out, stack = [], []
    lines = t.split("\n")
    i = 0
    while i < len(lines):
        s = lines[i].strip()
        if s.startswith("#"):
            n = 1
            while s.endswith("\\") and i + n < len(lines):
                s = s[:-1] + " " + lines[i + n].strip()
                n += 1
            d = re.match(r"#\s*(\w+)\s*(.*)", s)
            k, rest = (d.group(1), d.group(2)) if d else ("", "")
            if k == "ifdef":
                stack.append(rest.strip() in defs)
            elif k == "ifndef":
                stack.append(rest.strip() not in defs)
            elif k == "if":
                names = re.findall(r"defined\s*\(?\s*(\w+)", rest)
                stack.append(any(x in defs for x in names))
            elif k in ("else", "elif") and stack:
                stack[-1] = not stack[-1]
            elif k == "endif" and stack:
                stack.pop()
            elif k == "define" and all(stack):
                m = re.match(r"(\w+)", rest)
                if m:
                    defs.add(m.group(1))
            out += [""] * n
            i += n
            continue
        out.append(lines[i] if all(stack) else "")
        i += 1
    return "\n".join(out)


def lex(t):
    out, i, line = [], 0, 1
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            i += 1
            continue
        if m.lastgroup:
            out.append((m.lastgroup, m.group(0), line))
        line += m.group(0).count("\n")
        i = m.end()
    return out


class Fn:
    def __init__(self, name, params, toks, path, line, tparams, scope):
        self.name, self.params, self.toks, self.path, self.line, self.tparams, self.scope = name, params, toks, path, line, tparams, scope
        self._body = None

    @property
    def where(self):
        return f"{self.path}:{self.line}"

    @property
    def body(self):
        if self._body is None:
            p = Parser(self.toks)
            self._body = p.block_items()
            self.bad = p.bad
        return self._body


def match(toks, i, a, b):
    n = 0
    for j in range(i, len(toks)):
        v = toks[j][1]
        if v == a:
            n += 1
        elif v == b:
            n -= 1
            if n == 0:
                return j
    return None


def splitc(toks):
    out, cur, n = [], [], 0
    for t in toks:
        if t[1] in "([{<":
            n += 1
        elif t[1] in ")]}>":
            n -= 1
        if t[1] == "," and n <= 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def functions(toks, rel):
    """function definitions in a token list (also members of structs and functions in namespaces)"""
    out, i, tps = [], 0, ()
    n = len(toks)
    while i < n:
        k, v, ln = toks[i]
        if v == "template" and i + 1 < n and toks[i + 1][1] == "<":
            e = match(toks, i + 1, "<", ">")
            if e is not None:
                tps = tuple(q[[x[1] for x in q].index("=") - 1][1] if "=" in [x[1] for x in q] else q[-1][1] for q in splitc(toks[i + 2:e]) if q)
                i = e + 1
                continue
        if v in ("struct", "class") and i + 1 < n and toks[i + 1][0] == "id":
            j = i + 2
            while j < n and toks[j][1] not in ("{", ";", "(", ")", ",", ">"):
                j += 1
            if j < n and toks[j][1] == "{":
                e = match(toks, j, "{", "}")
                if e is None:
                    break
                for f in functions(toks[j + 1:e], rel):
                    f.scope = (toks[i + 1][1],) + f.scope
                    out.append(f)
                i = e + 1
                continue
        if k == "id" and i + 1 < n and toks[i + 1][1] == "(" and v not in STMT and v not in ("sizeof", "decltype", "alignas", "__launch_bounds__"):
            e = match(toks, i + 1, "(", ")")
            if e is None:
                break
            j = e + 1
            while j < n and toks[j][1] in ("const", "noexcept", "override"):
                j += 1
            if j < n and toks[j][1] == ":" and toks[j - 1][1] == ")":      # constructor initialisers
                while j < n and toks[j][1] != "{":
                    j += 1
            if j < n and toks[j][1] == "{":
                b = match(toks, j, "{", "}")
                if b is None:
                    break
                ps = []
                for q in splitc(toks[i + 2:e]):
                    cut = next((x for x, t in enumerate(q) if t[1] == "="), len(q))
                    q = q[:cut]
                    while q and q[-1][1] == "]":
                        while q and q[-1][1] != "[":
                            q.pop()
                        q and q.pop()
                        q.append(("op", "*", 0)) if len(q) < 2 else q.insert(-1, ("op", "*", 0))
                    nm = ""
                    if len(q) > 1 and q[-1][0] == "id" and q[-1][1] not in BASIC and q[-2][1] not in ("const",) or len(q) > 1 and q[-1][0] == "id" and q[-2][1] in ("&", "*"):
                        nm = q[-1][1]
                        q = q[:-1]
                    ps.append((nm, " ".join(t[1] for t in q)))
                if ps == [("", "void")]:
                    ps = []
                out.append(Fn(v.split("::")[-1], ps, toks[j + 1:b], rel, ln, tps, ()))
                tps = ()
                i = b + 1
                continue
            i = e + 1
            continue
        i += 1
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i, self.bad = toks, 0, []

    def v(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ""

    def k(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else ""

    def ln(self):
        return self.t[min(self.i, len(self.t) - 1)][2] if self.t else 0

    def eat(self, v):
        if self.v() != v:
            raise Bad(f"expected {v!r}, found {self.v()!r}")
        self.i += 1

    def block_items(self, end=None):
        out = []
        while self.i < len(self.t) and self.v() != "}":
            out.append(self.stmt())
        return out

    def recover(self, i0):
        """an unreadable statement: every name in it depends on every other"""
        self.i = i0
        n, names = 0, []
        while self.i < len(self.t):
            k, v, _ = self.t[self.i]
            if v in "([{":
                n += 1
            elif v in ")]}":
                if n == 0:
                    break
                n -= 1
            if k == "id":
                names.append(v)
            self.i += 1
            if n == 0 and v in (";", "}"):
                break
        self.bad.append((self.t[i0][2], " ".join(x[1] for x in self.t[i0:self.i])[:80]))
        return ("mess", names)

    def stmt(self):
        i0, ln = self.i, self.ln()
        try:
            s = self.stmt1()
        except (Bad, IndexError):
            s = self.recover(i0)
            if self.i == i0:
                self.i += 1
        return s + (ln,)

    def stmt1(self):
        v = self.v()
        if v == "{":
            self.i += 1
            b = self.block_items()
            self.eat("}")
            return ("block", b)
        if v == ";":
            self.i += 1
            return ("nop",)
        if v == "if":
            self.i += 1
            if self.v() == "constexpr":
                self.i += 1
            self.eat("(")
            c = self.expr()
            self.eat(")")
            a = self.stmt()
            b = None
            if self.v() == "else":
                self.i += 1
                b = self.stmt()
            return ("if", c, a, b)
        if v == "for":
            self.i += 1
            self.eat("(")
            d = self.decl_head()
            if d is not None and self.v() == ":":
                self.i += 1
                e = self.expr()
                self.eat(")")
                return ("forr", d, e, self.stmt())
            if d is not None:
                self.i = d[3]
            ini = self.simple()
            self.eat(";")
            c = None if self.v() == ";" else self.expr()
            self.eat(";")
            inc = None if self.v() == ")" else self.expr()
            self.eat(")")
            return ("for", ini, c, inc, self.stmt())
        if v == "while":
            self.i += 1
            self.eat("(")
            c = self.expr()
            self.eat(")")
            return ("while", c, self.stmt())
        if v == "do":
            self.i += 1
            b = self.stmt()
            self.eat("while")
            self.eat("(")
            c = self.expr()
            self.eat(")")
            self.eat(";")
            return ("while", c, b)
        if v == "switch":
            self.i += 1
            self.eat("(")
            c = self.expr()
            self.eat(")")
            return ("switch", c, self.stmt())
        if v in ("case", "default"):
            while self.v() != ":":
                self.i += 1
            self.i += 1
            return ("nop",)
        if v == "return":
            self.i += 1
            e = None if self.v() == ";" else self.expr()
            self.eat(";")
            return ("return", e)
        if v in ("break", "continue"):
            self.i += 1
            self.eat(";")
            return (v,)
        if v in ("using", "typedef", "static_assert", "__syncthreads"):
            while self.v() != ";":
                self.i += 1
            self.i += 1
            return ("nop",)
        s = self.simple()
        if self.v() == "}" and s[0] == "expr":     # macro without ;
            return s
        self.eat(";")
        return s

    def targs(self, i):
        """index behind template arguments starting at t[i] == '<', or None"""
        if i >= len(self.t) or self.t[i][1] != "<":
            return None
        n = 0
        for j in range(i, min(i + 60, len(self.t))):
            k, v, _ = self.t[j]
            if v == "<":
                n += 1
            elif v == ">":
                n -= 1
                if n == 0:
                    return j + 1
            elif k == "id" or k == "num" or v in (",", "::", "*", "&", "...", "(", ")", "[", "]", "==", "?", ":"):
                continue
            else:
                return None
        return None

    def typename(self, i):
        """index behind a type at i, or None"""
        seen = False
        t = self.t
        n = len(t)
        while i < n and t[i][1] in TYPEWORDS:
            if t[i][1] in ("auto", "unsigned", "signed"):
                seen = True
            i += 1
        if i < n and t[i][0] == "id" and t[i][1] not in STMT and not (seen and not (t[i][1] in BASIC)):
            i += 1
            j = self.targs(i)
            if j is not None:
                i = j
                if i + 1 < n and t[i][1] == "::" and t[i + 1][0] == "id":
                    i += 2
                elif i < n and t[i][0] == "id" and t[i][1].startswith("::"):
                    i += 1
            seen = True
            while i < n and t[i][0] == "id" and t[i][1] in ("int", "long", "short", "char", "double"):
                i += 1
        if not seen:
            return None
        while i < n and t[i][1] in ("const", "&", "*", "&&", "__restrict__", "volatile"):
            i += 1
        return i

    def decl_head(self):
        """(type text, [names], is reference, start) of a declaration at the cursor, which is moved behind the name"""
        i0 = self.i
        j = self.typename(i0)
        if j is None or j >= len(self.t):
            return None
        ty = " ".join(x[1] for x in self.t[i0:j])
        if self.t[j][1] == "[" and "auto" in ty.split():
            e = match(self.t, j, "[", "]")
            names = [x[1] for x in self.t[j + 1:e] if x[0] == "id"]
            self.i = e + 1
            return (ty, names, "&" in ty or "*" in ty, i0)
        if self.t[j][0] != "id" or self.t[j][1] in STMT:
            return None
        nx = self.t[j + 1][1] if j + 1 < len(self.t) else ""
        if nx not in ("=", ";", ",", "(", "{", "[", ":", ")"):
            return None
        self.i = j + 1
        return (ty, [self.t[j][1]], "&" in ty or "*" in ty, i0)

    def simple(self):
        """declaration or expression, without the final ;"""
        if self.v() == ";":
            return ("nop",)
        d = self.decl_head()
        if d is None:
            return ("expr", self.expr())
        ty, names, ref, i0 = d
        out = []
        while True:
            init = None
            dimsn = []
            while self.v() == "[":
                self.i += 1
                if self.v() != "]":
                    dimsn.append(self.expr())
                self.eat("]")
            if self.v() == "=":
                self.i += 1
                init = self.assign()
            elif self.v() == "(":
                self.i += 1
                init = ("call", ("id", "ctor:" + ty), self.args(")"), ())
            elif self.v() == "{":
                init = self.primary()
            out.append((ty, names, ref or bool(dimsn), init))
            if self.v() == ",":
                self.i += 1
                while self.v() in ("*", "&"):
                    self.i += 1
                names = [self.v()]
                self.i += 1
                continue
            break
        return ("decl", out)

    def args(self, end):
        out = []
        while self.v() != end:
            out.append(self.assign())
            if self.v() == ",":
                self.i += 1
            elif self.v() != end:
                raise Bad(self.v())
        self.eat(end)
        return out

    def expr(self):
        e = self.assign()
        while self.v() == ",":
            self.i += 1
            e = ("bin", ",", e, self.assign())
        return e

    def assign(self):
        e = self.tern()
        if self.v() in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="):
            op = self.v()
            self.i += 1
            return ("assign", op, e, self.assign())
        return e

    def tern(self):
        c = self.bin(0)
        if self.v() == "?":
            self.i += 1
            a = self.assign()
            self.eat(":")
            return ("tern", c, a, self.assign())
        return c

    PREC = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def bin(self, lv):
        if lv == len(self.PREC):
            return self.unary()
        e = self.bin(lv + 1)
        while True:
            v = self.v()
            if v == ">" and self.v(1) == ">":
                if ">>" not in self.PREC[lv]:
                    return e
                self.i += 2
                e = ("bin", ">>", e, self.bin(lv + 1))
                continue
            if v not in self.PREC[lv]:
                return e
            self.i += 1
            e = ("bin", v, e, self.bin(lv + 1))

    def unary(self):
        v = self.v()
        if v in ("!", "-", "+", "*", "&", "~", "++", "--"):
            self.i += 1
            return ("un", v, self.unary())
        if v == "(":
            j = self.typename(self.i + 1)
            if j is not None and j < len(self.t) and self.t[j][1] == ")" and j + 1 < len(self.t):
                words = [x[1] for x in self.t[self.i + 1:j]]
                nx = self.t[j + 1]
                if (any(w in BASIC or w in ("const",) for w in words) or words[-1] in ("*", "&")) and (nx[0] in ("id", "num") or nx[1] in ("(", "-", "*", "&")):
                    self.i = j + 1
                    return ("cast", " ".join(words), self.unary())
        return self.postfix(self.primary())

    def primary(self):
        k, v = self.k(), self.v()
        if k == "num":
            self.i += 1
            return ("num", v)
        if k == "str":
            self.i += 1
            while self.k() == "str":
                self.i += 1
            return ("str",)
        if v == "(":
            self.i += 1
            e = self.expr()
            self.eat(")")
            return e
        if v == "{":
            self.i += 1
            return ("init", self.args("}"))
        if v == "[":
            e = match(self.t, self.i, "[", "]")
            self.i = e + 1
            ps, tys = [], []
            if self.v() == "(":
                e = match(self.t, self.i, "(", ")")
                for q in splitc(self.t[self.i + 1:e]):
                    if q and q[-1][0] == "id":
                        ps.append(q[-1][1])
                        tys.append(" ".join(x[1] for x in q[:-1]))
                self.i = e + 1
            while self.v() != "{":
                if self.i >= len(self.t) or self.v() == ";":
                    raise Bad("lambda")
                self.i += 1
            self.i += 1
            b = self.block_items()
            self.eat("}")
            return ("lambda", ps, b, tys)
        if k == "id":
            self.i += 1
            j = self.targs(self.i)
            ta = ()
            if j is not None and j < len(self.t) and (self.t[j][1] in ("(", "{", "::", "<<<") or self.t[j][1].startswith("::")):
                ta = tuple(x[1] for x in self.t[self.i + 1:j - 1])
                self.i = j
                while self.v() == "::" or self.k() == "id" and self.v().startswith("::"):
                    v += self.v()
                    self.i += 1
            if self.v() == "<<<":
                n = 0
                e = self.i + 1
                while self.t[e][1] != ">>>":
                    e += 1
                self.i = e + 1
            if self.v() == "{" and (v in BASIC or ta):
                self.i += 1
                return ("call", ("id", v), self.args("}"), ta)
            return ("id", v, ta)
        raise Bad(v)

    def postfix(self, e):
        while True:
            v = self.v()
            if v == "(":
                self.i += 1
                ta = e[2] if e[0] == "id" and len(e) > 2 else e[3] if e[0] == "member" else ()
                e = ("call", e, self.args(")"), ta)
            elif v == "[":
                self.i += 1
                x = self.expr()
                self.eat("]")
                e = ("index", e, x)
            elif v in (".", "->"):
                self.i += 1
                if self.v() == "template":
                    self.i += 1
                nm = self.v()
                self.i += 1
                ta = ()
                j = self.targs(self.i)
                if j is not None and j < len(self.t) and self.t[j][1] == "(":
                    ta = tuple(x[1] for x in self.t[self.i + 1:j - 1])
                    self.i = j
                e = ("member", e, nm, ta)
            elif v in ("++", "--"):
                self.i += 1
                e = ("un", "post" + v, e)
            else:
                return e


@functools.lru_cache(None)
def program(repo, cuda=False):
    """{name: [Fn]}; with cuda the .cu sources (and the WITH_CUDA branches), otherwise the .cpp sources"""
    root = os.path.join(repo, "pytorch3d", "csrc")
    out = {}
    files = []
    for ext in ("*.h", "*.cuh", "*.cu") if cuda else ("*.h", "*.cpp"):
        files += sorted(glob.glob(os.path.join(root, "*", ext)))
    for p in files:
        b = os.path.basename(p)
        if os.sep + "pulsar" + os.sep in p or cuda and p.endswith("_cpu.cpp") or False:
            continue
        t = preprocess(open(p, errors="replace").read(), {"WITH_CUDA", "__CUDACC__"} if cuda else set())
        for f in functions(lex(t), os.path.relpath(p, repo)):
            if f.scope and f.name == f.scope[-1]:
                continue                              # constructors: the object depends on every argument
            out.setdefault(f.name, []).append(f)
    return out


# ---------------------------------------------------------------- data flow

META = {"size", "dim", "ndimension", "numel", "options", "device", "is_cuda", "scalar_type", "type", "dtype", "get_device", "sizes", "is_contiguous", "stride",
        "strides", "layout", "itemsize", "element_size", "nbytes", "defined", "toString"}
VIEW = {"accessor", "packed_accessor", "packed_accessor32", "packed_accessor64", "data_ptr", "data", "mutable_data_ptr", "const_data_ptr", "view", "reshape",
        "unsqueeze", "squeeze", "transpose", "permute", "select", "narrow", "slice", "expand", "t", "detach", "flatten", "index"}
PURE = META | VIEW | {"begin", "end", "cbegin", "cend", "rbegin", "rend", "empty", "top", "back", "front", "count", "at", "item", "contiguous", "clone", "to", "cpu", "cuda", "find",
                      "length", "c_str", "str", "get", "x", "y", "z", "sum", "max", "min", "abs", "cumsum", "mul", "add", "sub", "div", "lt", "gt", "eq", "ne", "all", "any", "nonzero",
                      "masked_select", "index_select", "second", "first", "index", "type_as", "toType", "gather", "unsqueeze", "repeat", "mean", "norm", "argmax", "argmin", "unbind"}
THROUGH = {"std::ref", "std::move", "std::cref", "std::forward"}
SKIP = ("CHECK_", "TORCH_CHECK", "AT_ASSERT", "AT_ERROR", "TORCH_INTERNAL", "AT_CUDA_CHECK", "static_assert", "C10_", "TORCH_WARN")


def istensor(ty):
    return re.search(r"\bTensor\b\s*&?\s*$", ty.replace("const", "")) is not None and "Accessor" not in ty


def isalias(ty):
    """parameter types through which the caller's memory can be written"""
    return istensor(ty) or "Accessor" in ty or "*" in ty or ("&" in ty and "const" not in ty.split()) or ty.startswith(("Accessor", "PackedTensor"))


class Flow:
    """dependences of every function in the program"""

    def __init__(self, prog):
        self.prog = prog
        self.sum = {}          # name -> {"ret": [set of parameter indices or (index, '#')], "wr": {index: set}}
        for _ in range(12):
            ch = False
            for name, fs in prog.items():
                for f in fs:
                    s = FlowFn(self, f).run()
                    o = self.sum.setdefault((name, len(f.params)), {"ret": [], "wr": {}, "unsure": set()})
                    o["unsure"] |= s["unsure"]
                    while len(o["ret"]) < len(s["ret"]):
                        o["ret"].append(set())
                        ch = True
                    for a, b in zip(o["ret"], s["ret"]):
                        if not b <= a:
                            a |= b
                            ch = True
                    for k, b in s["wr"].items():
                        a = o["wr"].setdefault(k, set())
                        if not b <= a or k not in o["wr"]:
                            a |= b
                            ch = True
            if not ch:
                break

    def get(self, name, n):
        name = name.split("::")[-1]
        if (name, n) in self.sum:
            return self.sum[(name, n)]
        for k in range(n, n + 5):                    # defaulted parameters
            if (name, k) in self.sum:
                return self.sum[(name, k)]
        return None

    def has(self, name):
        return name.split("::")[-1] in self.prog


class FlowFn:
    def __init__(self, fl, f):
        self.fl, self.f = fl, f
        self.D, self.alias, self.rank = {}, {}, {}
        self.ret, self.wr = [], {}
        self.unsure, self.refs = set(), set()
        self.lam = {}
        for i, (n, ty) in enumerate(f.params):
            if n:
                self.D[n] = {i}
        self.pidx = {n: i for i, (n, _) in enumerate(f.params) if n}
        self.ptype = dict(f.params)

    def run(self):
        for _ in range(8):
            self.ch = False
            self.ctx = [set()]
            self.stmts(self.f.body)
            if not self.ch:
                break
        return {"ret": self.ret, "wr": self.wr, "unsure": self.unsure}

    # labels
    def up(self, s, t):
        if not t <= s:
            s |= t
            self.ch = True

    def c(self):
        out = set()
        for x in self.ctx:
            out |= x
        return out

    def roots(self, n):
        """objects a name may designate"""
        out, todo, seen = set(), [n], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t = self.alias.get(x)
            if not t:
                out.add(x)
            else:
                if x in t:
                    out.add(x)
                todo += t
        return out

    def link(self, n, b):
        if b not in self.alias.setdefault(n, set()):
            self.alias[n].add(b)
            self.ch = True

    def write(self, n, labels, sure=True):
        """a write through name n"""
        labels = labels | self.c()
        self.up(self.D.setdefault(n, set()), labels)
        rs = self.roots(n)
        for r in rs:
            self.up(self.D.setdefault(r, set()), labels)
            if sure and r in self.pidx and isalias(self.ptype[r]):
                if self.pidx[r] not in self.wr:
                    self.wr[self.pidx[r]] = set()
                    self.ch = True
                self.up(self.wr[self.pidx[r]], labels)
                if len(rs) > 1:
                    self.unsure.add(self.pidx[r])

    def base(self, e):
        """name whose memory e designates"""
        while True:
            if e[0] == "id":
                return e[1]
            if e[0] in ("index",):
                e = e[1]
            elif e[0] == "member":
                e = e[1]
            elif e[0] == "un" and e[1] in ("*", "&", "++", "--", "post++", "post--"):
                e = e[2]
            elif e[0] == "cast":
                e = e[2]
            elif e[0] == "bin" and e[1] in ("+", "-"):
                e = e[2]
            elif e[0] == "call" and e[1][0] == "id" and e[1][1] in THROUGH and e[2]:
                e = e[2][0]
            elif e[0] == "call" and e[1][0] == "member" and e[1][2] in VIEW | {"contiguous", "at", "back", "front", "top", "begin", "end"}:
                e = e[1][1]
            elif e[0] == "tern":
                e = e[2]
            else:
                return None

    def rankof(self, e):
        """dimensions left of an accessor expression, None unknown"""
        d = 0
        while e[0] == "index":
            d += 1
            e = e[1]
        if e[0] == "id" and e[1] in self.rank:
            return self.rank[e[1]] - d
        if e[0] == "call" and e[1][0] == "member" and "accessor" in e[1][2] and len(e[3]) >= 3 and e[3][2].isdigit():
            return int(e[3][2]) - d
        return None

    def ev(self, e):
        """labels of an expression; records writes"""
        if e is None:
            return set()
        k = e[0]
        if k in ("num", "str"):
            return set()
        if k == "id":
            n = e[1]
            out = set(self.D.get(n, ()))
            for r in self.roots(n):
                out |= self.D.get(r, set())
            return out
        if k == "init":
            out = set()
            for x in e[1]:
                out |= self.ev(x)
            return out
        if k == "index":
            return self.ev(e[1]) | self.ev(e[2])
        if k == "member":
            return self.ev(e[1])
        if k == "cast":
            return self.ev(e[2])
        if k == "un":
            s = self.ev(e[2])
            if e[1] in ("++", "--", "post++", "post--"):
                b = self.base(e[2])
                if b:
                    self.assignto(e[2], s)
            return s
        if k == "bin":
            return self.ev(e[2]) | self.ev(e[3])
        if k == "tern":
            return self.ev(e[1]) | self.ev(e[2]) | self.ev(e[3])
        if k == "assign":
            s = self.ev(e[3])
            l = e[2]
            if l[0] == "call" and l[1][0] == "id" and l[1][1] in ("std::tie", "tie"):
                per = self.tuple_of(e[3])
                for i, x in enumerate(l[2]):
                    self.assignto(x, per[i] if per is not None and i < len(per) and len(per) == len(l[2]) else s)
                return s
            if l[0] == "id" and e[1] == "=" and l[1] not in self.refs and (l[1] in self.alias and self.alias[l[1]] != {l[1]} or istensor(self.typ(l[1])) or "*" in self.typ(l[1])):
                # the name is made to stand for something else
                self.up(self.D.setdefault(l[1], set()), s | self.c())
                return s
            self.assignto(l, s)
            return s | self.ev(l)
        if k == "lambda":
            self.ctx.append(set())
            old = self.ret
            self.ret = []
            self.stmts(e[2])
            r = set()
            for x in self.ret:
                r |= x
            self.ret = old
            self.ctx.pop()
            return r
        if k == "call":
            return self.call(e)
        return set()

    def typ(self, n):
        return self.ptype.get(n, "")

    def assignto(self, l, s):
        if l[0] == "id":
            n = l[1]
            if n in self.alias and self.alias[n] != {n} or n in self.pidx:
                self.write(n, s) if not (n in self.pidx and "*" in self.typ(n)) else self.up(self.D[n], s | self.c())
            else:
                self.up(self.D.setdefault(n, set()), s | self.c())
            return
        b = self.base(l)
        x = l
        idx = set()
        while x[0] in ("index", "member", "un", "cast", "bin"):
            if x[0] == "index":
                idx |= self.ev(x[2])
                x = x[1]
            elif x[0] == "member":
                x = x[1]
            elif x[0] == "bin":
                idx |= self.ev(x[3])
                x = x[2]
            else:
                x = x[2]
        if b is not None:
            self.write(b, s | idx)
        elif x[0] == "call":
            self.ev(x)

    def tuple_of(self, e):
        """per element labels of a tuple expression"""
        if e[0] == "call" and e[1][0] == "id":
            n = e[1][1].split("::")[-1]
            if n in ("make_tuple", "make_pair", "tuple", "pair", "make_array"):
                return [self.ev(x) for x in e[2]]
            s = self.fl.get(n, len(e[2]))
            if s is not None and s["ret"]:
                a = [self.ev(x) for x in e[2]]
                return [self.sub(x, a) for x in s["ret"]]
        if e[0] == "init":
            return [self.ev(x) for x in e[1]]
        return None

    def sub(self, labels, args):
        out = set()
        for x in labels:
            i, m = (x[0], True) if isinstance(x, tuple) else (x, False)
            if i < len(args):
                out |= {(y[0], "#") if isinstance(y, tuple) else ((y, "#") if m else y) for y in args[i]}
        return out

    def call(self, e):
        f, args = e[1], e[2]
        if f[0] == "member":
            o, m = f[1], f[2]
            a = set()
            if m in ("emplace_back", "push_back", "async") and args and args[0][0] == "id" and self.fl.has(args[0][1]):
                self.call(("call", args[0], args[1:], ()))
            for x in args:
                a |= self.ev(x)
            s = self.ev(o)
            if m in META:
                return {(x[0], "#") if isinstance(x, tuple) else (x, "#") for x in s} | a
            b = self.base(o)
            if b is not None and (m not in PURE):
                isT = b in self.pidx and istensor(self.ptype[b])
                if not isT or m.endswith("_"):
                    self.write(b, a)
            ks = self.fl.get(m, len(args))
            if ks is not None:
                av = [self.ev(x) for x in args]
                for i, lb in ks["wr"].items():
                    t = self.base(args[i]) if i < len(args) else None
                    if t is not None:
                        self.write(t, self.sub(lb, av))
            return s | a
        if f[0] == "lambda":
            return self.ev(f)
        if f[0] != "id":
            out = self.ev(f)
            for x in args:
                out |= self.ev(x)
            return out
        n = f[1]
        short = n.split("::")[-1]
        if n.startswith("std::thread") or short == "thread" and args and args[0][0] == "id" and self.fl.has(args[0][1]):
            return self.call(("call", args[0], args[1:], ()))
        if n.startswith("ctor:"):
            if "thread" in n and args and args[0][0] == "id" and self.fl.has(args[0][1]):
                return self.call(("call", args[0], args[1:], ()))
            short = n.split(":")[-1].split("<")[0].split()[-1] if n.split(":")[-1].strip() else ""
        av = [self.ev(x) for x in args]
        al = set()
        for x in av:
            al |= x
        if short.startswith(SKIP):
            return set()
        if n in self.lam:
            ps, body, r = self.lam[n]
            for p, x in zip(ps, av):
                self.up(self.D.setdefault(p, set()), x | self.c())
            return self.D.get(n, set()) | set(r)
        s = self.fl.get(short, len(args)) if not n.startswith(("std::", "at::", "torch::")) else None
        if s is not None:
            for i, lb in s["wr"].items():
                t = self.base(args[i]) if i < len(args) else None
                if t is not None:
                    self.write(t, self.sub(lb, av))
            out = set()
            for x in s["ret"]:
                out |= self.sub(x, av)
            return out | (set(self.D.get(n, ())) if n in self.D else set())
        if self.fl.has(short) and not n.startswith(("std::", "at::", "torch::", "ctor:")):
            return set()        # not summarised yet
        if short in ("atomicAdd", "gpuAtomicAdd", "atomicMax", "atomicMin", "atomicOr", "atomicExch", "atomicCAS", "fill", "copy", "memcpy", "memset", "swap", "sort", "fill_n", "iota", "reverse") and args:
            for x in args[:1] if short != "swap" else args[:2]:
                b = self.base(x)
                if b is not None:
                    self.write(b, al)
            if short == "copy" and len(args) > 2 and self.base(args[2]):
                self.write(self.base(args[2]), al)
        if short in ("zeros_like", "empty_like", "ones_like", "full_like"):
            return {(x[0], "#") if isinstance(x, tuple) else (x, "#") for x in al}
        if "::" not in n and n not in self.D and short not in BASIC and not short.isupper():
            for x in args:                       # a function that is not in the sources may write through what it is given
                b = self.base(x)
                if b is not None and (self.roots(b) != {b} or b in self.pidx and isalias(self.ptype[b])):
                    self.write(b, al, False)
        return al | set(self.D.get(n, ()))

    # statements
    def stmts(self, b):
        n = len(self.ctx)
        for s in b:
            self.st(s)
            d = self.jump(s)
            if d:
                self.ctx.append(d)      # the rest of the block runs only if the jump was not taken
        del self.ctx[n:]

    def jump(self, s):
        """labels deciding whether control leaves the enclosing block in s"""
        k = s[0]
        if k == "if":
            if self.leaves(s[2]) or s[3] is not None and self.leaves(s[3]):
                return self.ev(s[1]) | self.jump(s[2]) | (self.jump(s[3]) if s[3] is not None else set())
            return set()
        if k == "block":
            out = set()
            for x in s[1]:
                out |= self.jump(x)
            return out
        if k in ("for", "while", "forr", "switch"):
            b = s[-2]
            return (self.jump(b) | self.ev(s[2] if k == "for" else s[1] if k != "forr" else None)) if self.leaves(b, True) else set()
        return set()

    def leaves(self, s, loop=False):
        k = s[0]
        if k in ("break", "continue"):
            return not loop
        if k == "return":
            return True
        if k == "if":
            return self.leaves(s[2], loop) or s[3] is not None and self.leaves(s[3], loop)
        if k == "block":
            return any(self.leaves(x, loop) for x in s[1])
        if k in ("for", "while", "forr", "switch"):
            return self.leaves(s[-2], True)
        return False

    def loopctx(self, body):
        """conditions that end a loop govern every iteration"""
        if self.leaves(body):
            return self.jump(body)
        return set()

    def decl(self, ty, names, ref, init):
        if init is None:
            for n in names:
                self.D.setdefault(n, set())
            return
        if init[0] == "lambda":
            r = self.ev(init)
            self.lam[names[0]] = (init[1], init[2], r)
            self.up(self.D.setdefault(names[0], set()), r)
            return
        if "&" in ty.split():
            self.refs |= set(names)
        per = self.tuple_of(init) if len(names) > 1 else None
        s = self.ev(init)
        for i, n in enumerate(names):
            self.up(self.D.setdefault(n, set()), (per[i] if per is not None and len(per) == len(names) else s) | self.c())
        n = names[0]
        if len(names) == 1 and n not in self.pidx:
            b = self.base(init)
            if b is not None and b != n:
                if init[0] == "index":
                    r = self.rankof(init)
                    ok = ref or (r is not None and r > 0)
                    if r is not None:
                        self.rank[n] = r
                elif init[0] == "call" and init[1][0] == "member" and init[1][2] in VIEW:
                    ok = True
                    r = self.rankof(init)
                    if r is not None:
                        self.rank[n] = r
                elif init[0] == "id":
                    ok = ref or self.alias.get(init[1], {init[1]}) != {init[1]} or init[1] in self.pidx and istensor(self.ptype[init[1]])
                elif init[0] == "un" and init[1] == "&":
                    ok = True
                elif init[0] == "bin" or init[0] == "cast":
                    ok = "*" in ty
                elif init[0] == "call" and init[1][0] == "id" and init[1][1] in THROUGH:
                    ok = ref
                elif init[0] == "tern":
                    ok = ref
                else:
                    ok = False
                self.link(n, b if ok else n)
            else:
                self.link(n, n)

    def st(self, s):
        k = s[0]
        if k == "decl":
            for d in s[1]:
                self.decl(*d)
        elif k == "expr":
            self.ev(s[1])
        elif k == "block":
            self.stmts(s[1])
        elif k == "if":
            d = self.ev(s[1])
            self.ctx.append(d)
            self.st(s[2])
            if s[3] is not None:
                self.st(s[3])
            self.ctx.pop()
        elif k == "for":
            if s[1]:
                self.st(s[1] + (0,) if len(s[1]) < 3 else s[1])
            d = self.ev(s[2])
            self.ctx.append(d | self.loopctx(s[4]))
            self.ev(s[3])
            self.st(s[4])
            self.ctx.pop()
        elif k == "forr":
            d = self.ev(s[2])
            for n in s[1][1]:
                self.up(self.D.setdefault(n, set()), d)
                b = self.base(s[2])
                if s[1][2] and b is not None and n != b:
                    self.link(n, b)
            self.ctx.append({(x[0], "#") if isinstance(x, tuple) else (x, "#") for x in d} | self.loopctx(s[3]))
            self.st(s[3])
            self.ctx.pop()
        elif k == "while":
            self.ctx.append(self.ev(s[1]) | self.loopctx(s[2]))
            self.st(s[2])
            self.ctx.pop()
        elif k == "switch":
            self.ctx.append(self.ev(s[1]))
            self.st(s[2])
            self.ctx.pop()
        elif k == "return":
            if s[1] is None:
                return
            self.ev(s[1])
            per = self.tuple_of(s[1])
            if per is None or not (s[1][0] == "call"):
                one = self.ev(s[1])
                per = per if per is not None and s[1][0] == "init" else [one]
            c = self.c()
            while len(self.ret) < len(per):
                self.ret.append(set())
                self.ch = True
            for a, b in zip(self.ret, per):
                self.up(a, b | c)
        elif k == "mess":
            d = set()
            for n in s[1]:
                d |= self.D.get(n, set())
            for n in s[1]:
                if n in self.D or n in self.alias:
                    self.up(self.D.setdefault(n, set()), d)


# ---------------------------------------------------------------- host code on symbolic sizes

class Err(Exception):
    pass


class Ret(Exception):
    pass


UNK = None
DT = {"float": "float32", "double": "float64", "int64_t": "int64", "int": "int32", "int32_t": "int32", "bool": "bool", "uint8_t": "uint8", "long": "int64"}
KDT = {"kFloat": "float32", "kFloat32": "float32", "kInt64": "int64", "kLong": "int64", "kInt32": "int32", "kInt": "int32", "kBool": "bool", "kDouble": "float64", "kFloat64": "float64", "kByte": "uint8", "kUInt8": "uint8"}
MAXPATHS = 64


class TV:
    """a tensor: list of sizes (None unknown), dtype"""

    def __init__(self, shape, dtype, name=None):
        self.shape, self.dtype, self.name = shape, dtype, name

    def __repr__(self):
        return f"{self.dtype}{self.shape}"


class Opt:
    def __init__(self, dtype):
        self.dtype = dtype


def has_check(x):
    return any(c[1][0] == "id" and c[1][1].split("::")[-1].startswith(("TORCH_CHECK", "AT_ERROR", "AT_ASSERT", "TORCH_INTERNAL")) for c in walk_calls(x))


class Exec:
    """outcomes of a host function: [("return", value, where) | ("error", text, where)]"""

    def __init__(self, prog, cuda=False):
        self.prog, self.cuda, self.depth, self.maybe = prog, cuda, 0, 0

    def find(self, name, n):
        fs = [f for f in self.prog.get(name.split("::")[-1], ()) if len(f.params) == n and not f.scope]
        return fs[0] if len(fs) == 1 else None

    def call(self, f, args, targs=()):
        """list of outcomes"""
        env = {n: a for (n, _), a in zip(f.params, args) if n}
        for n, a in zip(f.tparams, targs):
            env[n] = a
        self.depth += 1
        try:
            if self.depth > 8:
                return [("return", UNK, f.where)]
            outs = []
            live = self.block(f.body, [env], outs, f)
            if live:
                outs.append(("return", ("void",), f.where))
            return outs
        finally:
            self.depth -= 1

    def block(self, b, envs, outs, f):
        for s in b:
            nxt = []
            for env in envs:
                nxt += self.st(s, env, outs, f)
            envs = nxt
            if not envs:
                break
            if len(envs) > MAXPATHS:
                envs = envs[:MAXPATHS]
        return envs

    def st(self, s, env, outs, f):
        k = s[0]
        w = f"{f.path}:{s[-1]}"
        try:
            if k == "decl":
                for ty, names, ref, init in s[1]:
                    v = UNK
                    if init is not None and not (init[0] == "call" and init[1][0] == "id" and init[1][1].startswith("ctor:")):
                        v = self.ev(init, env, f)
                    for i, n in enumerate(names):
                        env[n] = v if len(names) == 1 else v[1][i] if isinstance(v, tuple) and v[0] == "tup" and len(v[1]) == len(names) else UNK
                return [env]
            if k == "expr":
                self.ev(s[1], env, f)
                return [env]
            if k == "block":
                return self.block(s[1], [env], outs, f)
            if k == "if":
                c = self.ev(s[1], env, f)
                c = c if c is None or isinstance(c, bool) else (c != 0 if isinstance(c, int) else None)
                out = []
                if c is not False:
                    out += self.st(s[2], dict(env) if c is None else env, outs, f)
                if c is not True:
                    out += self.st(s[3], env, outs, f) if s[3] is not None else [env]
                return out
            if k in ("for", "while", "forr", "switch"):
                return self.loop(s, env, outs, f)
            if k == "return":
                v = self.ev(s[1], env, f) if s[1] is not None else ("void",)
                outs.append(("return", v, w))
                return []
            return [env]
        except Err as e:
            outs.append(("error", str(e), w))
            return []

    def loop(self, s, env, outs, f):
        """a loop over a few definite values is followed if it contains checks"""
        if not has_check(s[-2]):
            self.havoc(s, env)
            return [env]
        if s[0] == "for" and s[1] and s[1][0] == "decl" and len(s[1][1]) == 1 and s[2] is not None and s[3] is not None and s[3][0] == "un" and s[3][1].endswith("++"):
            n = s[1][1][0][1][0]
            env1 = dict(env)
            self.st(s[1] + (0,), env1, [], f)
            if isinstance(env1.get(n), int) and self.ev(s[2], env1, f) is not None:
                envs, i = [env1], env1[n]
                for _ in range(16):
                    if not envs:
                        return []
                    envs[0][n] = i
                    c = self.ev(s[2], envs[0], f)
                    if c is None:
                        break
                    if c is False:
                        return envs
                    for x in envs:
                        x[n] = i
                    envs = self.block([s[4]], envs, outs, f)
                    i += 1
        self.havoc(s, env)
        t = []
        self.st(s[-2], dict(env), t, f)
        if any(o[0] == "error" for o in t):
            self.maybe += 1
        return [env]

    def havoc(self, s, env):
        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == "assign" or x and x[0] == "un" and x[1] in ("++", "--", "post++", "post--"):
                    l = x[2]
                    if l[0] == "id":
                        env[l[1]] = UNK
                for y in x:
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        go(s)

    def num(self, e, env, f):
        v = self.ev(e, env, f)
        return v if isinstance(v, (int, dims.Dim)) and not isinstance(v, bool) else (int(v) if isinstance(v, bool) else None)

    def ev(self, e, env, f):
        k = e[0]
        if k == "num":
            try:
                return int(re.sub(r"[uUlL]+$", "", e[1]), 0)
            except ValueError:
                return UNK
        if k == "id":
            n = e[1]
            if n in env:
                return env[n]
            if n in ("true", "false"):
                return n == "true"
            sh = n.split("::")[-1]
            if sh in KDT:
                return Opt(KDT[sh])
            return UNK
        if k == "init":
            return ("list", [self.ev(x, env, f) for x in e[1]])
        if k == "tern":
            c = self.ev(e[1], env, f)
            if isinstance(c, bool):
                return self.ev(e[2] if c else e[3], env, f)
            a, b = self.ev(e[2], env, f), self.ev(e[3], env, f)
            return a if isinstance(a, (int, dims.Dim)) and isinstance(b, (int, dims.Dim)) and dims.eq(a, b) is True else UNK
        if k == "cast":
            return self.ev(e[2], env, f)
        if k == "un":
            v = self.ev(e[2], env, f)
            if e[1] == "!":
                return (not v) if isinstance(v, bool) else UNK
            if e[1] == "-" and isinstance(v, (int, dims.Dim)):
                return dims.neg(v)
            if e[1].endswith(("++", "--")) and e[2][0] == "id":
                env[e[2][1]] = UNK
            return UNK
        if k == "bin":
            return self.binop(e, env, f)
        if k == "assign":
            v = self.ev(e[3], env, f)
            l = e[2]
            if l[0] == "id":
                env[l[1]] = v if e[1] == "=" else UNK
            elif l[0] == "call" and l[1][0] == "id" and l[1][1] in ("std::tie", "tie"):
                for i, x in enumerate(l[2]):
                    if x[0] == "id":
                        env[x[1]] = v[1][i] if isinstance(v, tuple) and v[0] == "tup" and len(v[1]) == len(l[2]) else UNK
            return v
        if k == "index":
            v = self.ev(e[1], env, f)
            i = self.ev(e[2], env, f)
            if isinstance(v, TV) and v.shape is not None and v.shape:
                return TV(v.shape[1:], v.dtype)
            return UNK
        if k == "call":
            return self.callx(e, env, f)
        return UNK

    def binop(self, e, env, f):
        op = e[1]
        if op in ("&&", "||"):
            a = self.ev(e[2], env, f)
            if a is (op == "||"):
                return a
            b = self.ev(e[3], env, f)
            a, b = (x if isinstance(x, bool) else None for x in (a, b))
            stop = op == "||"
            return stop if b is stop or a is stop else (None if a is None or b is None else not stop)
        if op == ",":
            self.ev(e[2], env, f)
            return self.ev(e[3], env, f)
        a, b = self.num(e[2], env, f), self.num(e[3], env, f)
        if a is None or b is None:
            return UNK
        if op in ("==", "!="):
            r = dims.eq(a, b)
            return r if r is None or op == "==" else not r
        if op == "+":
            return dims.add(a, b)
        if op == "-":
            return dims.sub(a, b)
        if op == "*":
            return dims.mul(a, b)
        if op in ("<", ">", "<=", ">="):
            r = dims.lt(a, b) if op in ("<", ">=") else dims.lt(b, a)
            return r if r is None or op in ("<", ">") else not r
        if isinstance(a, int) and isinstance(b, int):
            if op in ("/", "%") and b:
                return abs(a) // abs(b) * (1 if a * b >= 0 else -1) if op == "/" else a % b
        return UNK

    def size(self, o, i):
        if not isinstance(o, TV) or o.shape is None or not isinstance(i, int):
            return UNK
        if not -len(o.shape) <= i < len(o.shape):
            raise Err(f"size({i}) of a tensor with {len(o.shape)} dimensions")
        return o.shape[i]

    def mk(self, sh, dt):
        sh = list(sh[1]) if isinstance(sh, tuple) and sh[0] == "list" else None
        if sh is not None:
            sh = [x if isinstance(x, (int, dims.Dim)) else None for x in sh]
        return TV(sh, dt)

    def optof(self, args):
        for a in args:
            if isinstance(a, Opt):
                return a.dtype
        return UNK

    def callx(self, e, env, f):
        fn, args = e[1], e[2]
        if fn[0] == "member":
            o = self.ev(fn[1], env, f)
            m = fn[2]
            av = [self.ev(x, env, f) for x in args if x[0] != "lambda"]
            if m == "size" and args:
                return self.size(o, av[0])
            if isinstance(o, TV):
                if m in ("dim", "ndimension"):
                    return len(o.shape) if o.shape is not None else UNK
                if m == "numel":
                    return dims.prod(o.shape) if o.shape is not None and all(x is not None for x in o.shape) else UNK
                if m == "options":
                    return Opt(o.dtype)
                if m in ("scalar_type", "dtype"):
                    return Opt(o.dtype)
                if m in ("contiguous", "clone", "detach", "cuda", "cpu"):
                    return TV(o.shape, o.dtype, o.name)
                if m in ("is_cuda",):
                    return self.cuda
                if m.startswith(("accessor", "packed_accessor")):
                    ta = fn[3] if len(fn) > 3 else ()
                    groups, cur = [], []
                    for x in ta:
                        if x == ",":
                            groups.append(cur)
                            cur = []
                        else:
                            cur.append(x)
                    groups.append(cur)
                    if groups and groups[0] and len(groups[0]) == 1 and groups[0][0] in DT and o.dtype is not None and DT[groups[0][0]] != o.dtype:
                        raise Err(f"accessor<{groups[0][0]}> of a {o.dtype} tensor")
                    if len(groups) > 1 and o.shape is not None:
                        r = self.tnum(groups[1], env, f)
                        if isinstance(r, int) and r != len(o.shape):
                            raise Err(f"accessor of rank {r} for a tensor with {len(o.shape)} dimensions")
                    return TV(o.shape, o.dtype, o.name)
                if m in ("data_ptr", "const_data_ptr", "mutable_data_ptr"):
                    ta = fn[3] if len(fn) > 3 else ()
                    if len(ta) == 1 and ta[0] in DT and o.dtype is not None and DT[ta[0]] != o.dtype:
                        raise Err(f"data_ptr<{ta[0]}> of a {o.dtype} tensor")
                    return UNK
                if m in ("fill_", "zero_", "copy_", "mul_", "add_"):
                    return o
                if m == "to" and av and isinstance(av[0], Opt):
                    return TV(o.shape, av[0].dtype)
                return UNK
            if isinstance(o, Opt) and m == "dtype" and av:
                return Opt(av[0].dtype if isinstance(av[0], Opt) else UNK)
            if isinstance(o, Opt):
                return o if m in ("device", "layout", "requires_grad", "memory_format") else UNK
            return UNK
        if fn[0] != "id":
            return UNK
        n = fn[1]
        sh = n.split("::")[-1]
        if sh in ("TORCH_CHECK", "AT_ASSERTM", "AT_ASSERT", "TORCH_INTERNAL_ASSERT", "TORCH_CHECK_ARG"):
            c = self.ev(args[0], env, f) if args else UNK
            if c is False:
                raise Err(sh)
            if c is None:
                self.maybe += 1
            return UNK
        if sh in ("AT_ERROR", "TORCH_CHECK_NOT_IMPLEMENTED"):
            raise Err("AT_ERROR")
        if sh.startswith(("CHECK_", "AT_", "C10_", "TORCH_")):
            return UNK
        av = [self.ev(x, env, f) for x in args if x[0] != "lambda"]
        if sh in ("zeros", "ones", "empty", "full"):
            if not av:
                return UNK
            return self.mk(av[0], self.optof(av[1:]) if len(av) > 1 else "float32")
        if sh in ("zeros_like", "empty_like", "ones_like", "full_like"):
            return TV(av[0].shape, self.optof(av[1:]) or av[0].dtype) if av and isinstance(av[0], TV) else UNK
        if sh in ("make_tuple", "tuple", "make_pair") and (n.startswith("std::") or sh == "make_tuple"):
            return ("tup", av)
        if sh == "get" and av:
            t = e[3] if len(e) > 3 else ()
            v = av[0]
            if isinstance(v, tuple) and v[0] in ("tup", "list") and len(t) == 1 and t[0].isdigit() and int(t[0]) < len(v[1]):
                return v[1][int(t[0])]
            return UNK
        if sh in ("move", "ref", "forward", "static_cast", "int", "int64_t", "TensorAccessor") and len(av) == 1:
            return av[0]
        g = self.find(n, len(args))
        if g is not None:
            ta = [self.tnum([x], env, f) for x in (e[3] if len(e) > 3 else ()) if x != ","]
            outs = self.call(g, av + [UNK] * (len(args) - len(av)), ta)
            rs = [o for o in outs if o[0] == "return"]
            if outs and not rs:
                raise Err(outs[0][1])
            if len(rs) < len(outs):
                self.maybe += 1
            if len(rs) == 1:
                return rs[0][1]
            return self.merge([r[1] for r in rs])
        return UNK

    def merge(self, vs):
        if not vs:
            return UNK
        a = vs[0]
        for b in vs[1:]:
            if isinstance(a, TV) and isinstance(b, TV) and a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
                a = TV([x if x is not None and y is not None and dims.eq(x, y) is True else None for x, y in zip(a.shape, b.shape)], a.dtype if a.dtype == b.dtype else None)
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
                a = ("tup", [self.merge([x, y]) for x, y in zip(a[1], b[1])])
            else:
                return UNK
        return a

    def tnum(self, toks, env, f):
        """a template argument"""
        if len(toks) == 1:
            if toks[0].isdigit():
                return int(toks[0])
            return env.get(toks[0]) if toks[0] in env else (toks[0] == "true" if toks[0] in ("true", "false") else UNK)
        try:
            p = Parser([(("num" if x.isdigit() else "id" if x[0].isalpha() else "op"), x, 0) for x in toks])
            return self.ev(p.expr(), env, f)
        except Bad:
            return UNK


# ---------------------------------------------------------------- obligations of the bound functions

def arguments(spec, ps, variant=None):
    """symbolic arguments of a bound function: sizes are named as in the table.  variant: (parameter, kind, axis)"""
    vals = {}
    for pn, ty in spec:
        m = re.match(r"(\w+)\[(.*)\]$", ty)
        if m:
            sh = [int(x) if x.isdigit() else dims.sym(x) for x in m.group(2).split(",")]
            dt = {"f": "float32", "i": "int64", "i32": "int32"}[m.group(1)]
            if variant and variant[0] == pn:
                k, ax = variant[1], variant[2]
                if k == "rank+":
                    sh = sh + [dims.sym("extra")]
                elif k == "rank-":
                    sh = sh[:-1]
                elif k == "size":
                    sh[ax] = sh[ax] + 1 if isinstance(sh[ax], int) else dims.sym("other")
                elif k == "dtype":
                    dt = "float64" if dt == "float32" else "float32"
            vals[pn] = TV(sh, dt, pn)
        elif ty == "hw":
            vals[pn] = ("tup", [dims.sym("H"), dims.sym("W")])
        elif ty == "n":
            vals[pn] = 0 if pn == "bin_size" else dims.sym("$" + pn)
        else:
            vals[pn] = None
    return [vals.get(n) for n, _ in ps]


def variants(spec):
    """malformed arguments"""
    count = {}
    for pn, ty in spec:
        m = re.match(r"(\w+)\[(.*)\]$", ty)
        if m:
            for x in set(m.group(2).split(",")):
                count[x] = count.get(x, 0) + 1
    for pn, ty in spec:
        m = re.match(r"(\w+)\[(.*)\]$", ty)
        if not m:
            continue
        ax = m.group(2).split(",")
        yield pn, "rank+", None
        if len(ax) > 1:
            yield pn, "rank-", None
        yield pn, "dtype", None
        for i, x in enumerate(ax):
            if x.isdigit() or count[x] > 1:
                yield pn, "size", i


@functools.lru_cache(None)
def flow(repo, cuda):
    return Flow(program(repo, cuda))


def bound_fn(repo, name, cuda=False):
    from . import csrc
    fs = program(repo, cuda).get(csrc.bound(repo).get(name), ())
    fs = [f for f in fs if not f.scope]
    return fs[0] if len(fs) == 1 else None


class Outs(list):
    def __init__(self, o, maybe):
        list.__init__(self, o)
        self.maybe = maybe          # checks whose outcome is unknown


def outcomes(repo, name, spec, variant=None, cuda=False):
    f = bound_fn(repo, name, cuda)
    if f is None:
        return None
    x = Exec(program(repo, cuda), cuda)
    o = x.call(f, arguments(spec, f.params, variant))
    x.maybe += sum(q[0] == "error" for q in o) if any(q[0] == "return" for q in o) else 0
    return Outs(o, x.maybe)


def summary(repo, name, cuda=False):
    """(per result {parameter: data?}, {written parameter: {parameter: data?}}, function)"""
    f = bound_fn(repo, name, cuda)
    if f is None:
        return None
    s = flow(repo, cuda).get(f.name, len(f.params))
    N = [n for n, _ in f.params]

    def nm(l):
        out = {}
        for x in l:
            n = N[x[0]] if isinstance(x, tuple) else N[x]
            out[n] = out.get(n, False) or not isinstance(x, tuple)
        return {k: out[k] for k in sorted(out)}
    return [nm(r) for r in s["ret"]], {N[i]: nm(l) for i, l in s["wr"].items()}, {N[i] for i in s["unsure"]}, f


def walk_calls(x):
    if isinstance(x, tuple):
        if len(x) > 2 and x[0] == "call" and isinstance(x[1], tuple):
            yield x
        for y in x:
            yield from walk_calls(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk_calls(y)


def swaps(repo, cuda=False):
    """arguments passed in the place of another parameter of the same name; number of calls judged"""
    prog = program(repo, cuda)
    out, n = [], 0
    for fs in prog.values():
        for f in fs:
            own = {p: re.sub(r"\b(const|at::|torch::)|[&]|at ::|\s", "", ty).split("::")[-1] for p, ty in f.params if p}
            for c in walk_calls(f.body):
                fn, args = c[1], list(c[2])
                if fn[0] == "member" and fn[2] == "emplace_back" and args and args[0][0] == "id":
                    fn, args = args[0], args[1:]
                if fn[0] != "id" or fn[1].startswith(("std::", "at::", "torch::")):
                    continue
                gs = [g for g in prog.get(fn[1].split("::")[-1], ()) if len(g.params) == len(args)]
                if len(gs) != 1 or gs[0] is f or gs[0].name == f.name:
                    continue
                ps = [p for p, _ in gs[0].params]
                n += 1
                for i, a in enumerate(args):
                    if a[0] == "id" and a[1] in own and a[1] in ps and ps[i] != a[1] and ps[i] in own and own[ps[i]] == own[a[1]] in ("Tensor", "int", "int64_t", "float", "double", "bool"):
                        out.append((f, gs[0], ps[i], a[1]))
    return out, n


# ---------------------------------------------------------------- rules

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FROZEN = os.path.join(HERE, "contracts", "cxx.json")


def names(repo):
    from . import cops, csrc
    return [n for n in sorted(csrc.bound(repo)) if n in cops.TABLE]


def freeze(repo):
    from . import cops
    out = {"cpu": {}, "cuda": {}}
    for mode in out:
        for n in names(repo):
            s = summary(repo, n, mode == "cuda")
            if s is None:
                continue
            r = out[mode][n] = {"ret": s[0], "wr": s[1]}
            if mode == "cpu":
                sp = cops.parse(cops.TABLE[n][0])
                o = outcomes(repo, n, sp)
                r["maybe"] = o.maybe if o is not None else 0
                r["rejects"] = [list(v) for v in variants(sp) if rejected(repo, n, sp, v)] if not rejected(repo, n, sp, None) else []
    with open(FROZEN, "w") as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write("\n")


def rejected(repo, n, sp, v):
    o = outcomes(repo, n, sp, v)
    return bool(o) and all(x[0] == "error" for x in o)


@functools.lru_cache(None)
def frozen():
    with open(FROZEN) as fh:
        return json.load(fh)


def c01(repo):
    from . import cops
    bad, n = [], 0
    for mode, cuda in (("cpu", False), ("cuda", True)):
        for name in names(repo):
            s = summary(repo, name, cuda)
            if s is None:
                continue
            ent = cops.TABLE[name]
            may = set(ent[2]) if len(ent) > 2 else set()
            n += sum(istensor(ty) for _, ty in s[3].params)
            for p in sorted(set(s[1]) - may - s[2]):
                if istensor(dict(s[3].params)[p]):
                    bad.append((f"c++ {name}({p})", f"{s[3].where} ({mode}): writes to its input {p}"))
    return bad, {"cpp_inputs": n}, {}


def deps(repo, only=None):
    bad, n, fns = [], 0, set()
    for mode, cuda in (("cpu", False), ("cuda", True)):
        for name, want in frozen()[mode].items():
            s = summary(repo, name, cuda)
            if s is None:
                continue
            fns.add(s[3].where)
            ret, wr = s[0], s[1]
            pairs = [(f"result {i}", w, ret[i] if i < len(ret) else None) for i, w in enumerate(want["ret"])]
            if len(ret) == 1 and len(want["ret"]) > 1:
                pairs = [(a, w, ret[0]) for a, w, _ in pairs]
            pairs += [(f"output {k}", w, wr.get(k)) for k, w in want["wr"].items()]
            for what, w, have in pairs:
                for p, data in w.items():
                    if not data or only and not only(name, p):
                        continue
                    if have is None:
                        continue
                    n += 1
                    if not have.get(p):
                        how = "only through its size or type" if p in have else "no longer"
                        bad.append((f"c++ {name}: {p} -> {what}", f"{s[3].where} ({mode}): parameter {p} influences {what} {how}"))
    return bad, n, sorted(fns)


def c08(repo):
    bad, n, fns = deps(repo)
    return bad, {"cpp_dependences": n}, {"cpp_functions": fns}


def c07(repo):
    bad, n, fns = deps(repo, lambda name, p: name.endswith("_backward") and p.startswith("grad"))
    return bad, {"cpp_gradients": n}, {}


def c09(repo):
    from . import cops
    bad, n = [], 0
    for name, want in frozen()["cpu"].items():
        if name not in cops.TABLE or bound_fn(repo, name) is None:
            continue
        sp = cops.parse(cops.TABLE[name][0])
        o = outcomes(repo, name, sp)
        if o and o.maybe > want["maybe"]:
            continue                  # checks in a form that is not understood
        for v in want["rejects"]:
            o = outcomes(repo, name, sp, tuple(v))
            n += 1
            ok = [x for x in o or [] if x[0] == "return"]
            if o and ok:
                pn, kind, ax = v
                t = {"rank+": "one dimension more", "rank-": "one dimension less", "dtype": "another dtype", "size": f"another size of axis {ax}"}[kind]
                bad.append((f"c++ {name}({pn}) {kind}{'' if ax is None else ax}", f"{ok[0][2]}: accepts {pn} with {t}, which was rejected"))
    return bad, {"cpp_malformed": n}, {}


def shapes(repo):
    from . import cops
    bad, n, types = [], 0, []
    for name in names(repo):
        ent = cops.TABLE[name]
        sp = cops.parse(ent[0])
        o = outcomes(repo, name, sp)
        if o is None or name.startswith("interp_face_attrs"):
            continue                      # no CPU implementation
        if all(x[0] == "error" for x in o):
            bad.append((f"c++ {name}", f"{o[0][2]}: rejects well formed arguments ({o[0][1]})"))
            continue
        want = []
        for q in [x.strip() for x in ent[1].split(";") if x.strip()]:
            m = re.match(r"(\w+)@(\w+)\[(.*)\]$", q)
            want.append(({"f": "float32", "i": "int64", "i32": "int32"}[m.group(1)],
                         [int(x) if x.isdigit() else None if x[0] in "?#" else dims.sym(x[1:] if x in ("$H", "$W") else x) for x in m.group(3).split(",")]))
        for k, v, w in o:
            if k != "return" or not want:
                continue
            vs = v[1] if isinstance(v, tuple) and v[0] == "tup" else [v]
            if isinstance(v, TV) or isinstance(v, tuple) and v[0] == "tup":
                n += 1
                if len(vs) != len(want):
                    bad.append((f"c++ {name}", f"{w}: returns {len(vs)} values, expected {len(want)}"))
                    continue
            for i, (x, (dt, sh)) in enumerate(zip(vs, want)):
                if not isinstance(x, TV):
                    continue
                n += 1
                if x.dtype is not None and x.dtype != dt:
                    types.append((f"c++ {name} result {i}", f"{w}: dtype {x.dtype}, expected {dt}"))
                if x.shape is None:
                    continue
                if len(x.shape) != len(sh) or any(a is not None and b is not None and dims.eq(a, b) is False for a, b in zip(x.shape, sh)):
                    bad.append((f"c++ {name} result {i}", f"{w}: shape {[str(a) for a in x.shape]}, expected {[str(a) for a in sh]}"))
    return bad, types, n


def c10(repo):
    bad, types, n = shapes(repo)
    return bad, {"cpp_results": n}, {}


def c13(repo):
    bad, types, n = shapes(repo)
    for cuda in (False, True):
        sw, k = swaps(repo, cuda)
        n += k
        bad += [(f"c++ {f.name} -> {g.name}({p})", f"{f.where}: {a} is passed as {p}") for f, g, p, a in sw]
    return bad + types, {"cpp_calls": n}, {}


def c11(repo):
    bad, n = [], 0
    for cuda in (False, True):
        for fs in program(repo, cuda).values():
            for f in fs:
                n += 1
                for k, v, ln in f.toks:
                    if k == "id" and re.search(r"(^|::)(s?rand|drand48|rand_like|randn?|randint|randperm|multinomial|bernoulli_?|uniform_|normal_|random_|mt19937(_64)?|random_device|default_random_engine|curand\w*)$", v):
                        bad.append((f"c++ {f.name}", f"{f.path}:{ln}: draws random numbers ({v})"))
    return bad, {"cpp_functions": n}, {}
