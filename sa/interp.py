"""Abstract interpreter for the Python sources of the analysed repository.

It walks the syntax tree of /repo's current sources (nothing is imported or run),
joining states at merge points and iterating loops to a fixpoint.  The abstract
value of a tensor records shape, dtype, device, the inputs it depends on (deps),
the inputs it is differentiably connected to (gdeps) and the storages it may
share (base).
"""
import ast
import builtins
import math
import operator
import os
import re

from . import dims
from .desugar import matches
from .dims import Dim
from .values import *
from .values import _set

REPO = os.environ.get("SA_REPO", "/repo")
MAXDEPTH = 70
UNROLL = 40


class Stop(Exception):
    """No normal continuation of the current evaluation."""


class AnalysisError(Exception):
    pass


class Budget(Exception):
    pass


def ctl(deps):
    return frozenset(d if d.startswith("?") else "?" + d.lstrip("~") for d in deps)


def pathjoin(a, b):
    """labels of a value after control flow paths meet: data labels of one path only become '~label' (on some paths)"""
    if a == b:
        return a
    c = a & b
    out = set(c)
    for d in (a | b) - c:
        if d[0] in "?~" or "#" in d:
            out.add(d)
        elif "~" + d not in c:
            out.add("~" + d)
    return frozenset(out)


def meta(deps):
    return frozenset(d if ("#" in d) else d.lstrip("~") + "#m" for d in deps)


class ModInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.frame = None
        self.state = 0
        self.is_pkg = path.endswith("__init__.py")


class ClassInfo:
    def __init__(self, name, mod, node, bases, frame_oid):
        self.name, self.mod, self.node, self.bases, self.frame = name, mod, node, bases, frame_oid
        self.attrs = {}
        self.ann = []  # (name, annotation node)
        self.decos = []
        self.enum = False
        self.namedtuple = False
        self.dataclass = False
        self._mro = None
        self.qual = f"{mod.name}:{name}"

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, Cls):
                    seqs.append(list(b.info.mro()))
                else:
                    seqs.append([b])
            seqs.append([b.info if isinstance(b, Cls) else b for b in self.bases])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(_in(h, t[1:]) for t in seqs):
                        break
                out.append(h)
                seqs = [[x for x in s if not _same(x, h)] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def ext_bases(self):
        return [b for b in self.mro() if not isinstance(b, ClassInfo)]

    def has_base(self, name):
        for b in self.mro():
            if isinstance(b, ClassInfo):
                if b.name == name:
                    return True
            elif isinstance(b, Ext) and (b.name == name or b.name.split(".")[-1] == name):
                return True
        return False


def _same(a, b):
    if isinstance(a, ClassInfo) or isinstance(b, ClassInfo):
        return a is b
    return a.key() == b.key()


def _in(x, l):
    return any(_same(x, y) for y in l)


class State:
    __slots__ = ("heap", "sd")

    def __init__(self, heap=None, sd=None):
        self.heap = heap if heap is not None else {}
        self.sd = sd if sd is not None else {}

    def fork(self):
        return State(dict(self.heap), dict(self.sd))


class Frame:
    """Control outcomes of one function activation."""

    def __init__(self, oid, fn, mod):
        self.oid, self.fn, self.mod = oid, fn, mod
        self.rets = []      # (State, Val, node)
        self.loops = []     # stack of {'brk': [states], 'cont': [states]}
        self.yields = []
        self.pc = EMPTY
        self.cm = None
        self.globals = set()
        self.nonlocals = set()


class WithBlock:
    """The block of a with statement that enters a generator based context manager: it runs at the yield."""

    def __init__(self, it, var, rest, body):
        self.it, self.var, self.rest, self.body = it, var, rest, body
        self.fr, self.depth = it.frames[-1], len(it.frames)
        self.save = it.stack, it.node, it.pc, it.nograd
        self.moved = []

    def enter(self, v):
        it = self.it
        gen = it.frames[self.depth:]
        gstack, gnode, gpc, gng, gctx = it.stack, it.node, it.pc, it.nograd, it.ctx
        del it.frames[self.depth:]
        it.stack, it.node, it.pc, it.nograd = list(self.save[0]), self.save[1], self.save[2], gng
        fr, f = self.fr, gen[-1]
        nret = len(fr.rets)
        lp = fr.loops[-1] if fr.loops else {}
        nlp = {k: len(x) for k, x in lp.items() if isinstance(x, list)}
        pre = it.st.fork()
        cont = False
        try:
            if self.var is not None:
                it.assign(self.var, v)
            cont = it._with(self.rest, self.body)
        except Stop:
            pass
        finally:
            it.frames.extend(gen)
            it.stack, it.node, it.pc, it.nograd, it.ctx = gstack, gnode, gpc, gng, gctx
        # other ways out of the block leave through the generator's handlers
        for r in fr.rets[nret:]:
            f.rets.append((r[0], NONE, None, r[3]))
            self.moved.append(("ret", r, len(f.rets) - 1))
        del fr.rets[nret:]
        for k, n in nlp.items():
            for x in lp[k][n:]:
                if isinstance(x, State):
                    f.rets.append((x, NONE, None, it.cond))
                    self.moved.append((k, lp, len(f.rets) - 1))
            del lp[k][n:]
        # any statement of the block can fail
        it.raise_stack[-1].append((pre, "Exception", f.fn.node, it.cond + 1, tuple(it.stack), it.loc() + " (I/O error)", EMPTY))
        if not cont:
            raise Stop()

    def finish(self, f):
        drop = set()
        for k, x, i in self.moved:
            drop.add(i)
            st = f.rets[i][0]
            if k == "ret":
                self.fr.rets.append((st,) + x[1:])
            else:
                x[k].append(st)
        f.rets[:] = [r for i, r in enumerate(f.rets) if i not in drop]


class Event:
    __slots__ = ("kind", "data", "stack", "loc", "cond")

    def __init__(self, kind, data, stack, loc, cond):
        self.kind, self.data, self.stack, self.loc, self.cond = kind, data, stack, loc, cond

    def __repr__(self):
        return f"{self.kind} {self.data} at {self.loc}"


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
        ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
_BINNAME = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floor_divide", ast.Mod: "remainder",
            ast.Pow: "pow", ast.BitAnd: "bitwise_and", ast.BitOr: "bitwise_or", ast.BitXor: "bitwise_xor", ast.MatMult: "matmul",
            ast.LShift: "shl", ast.RShift: "shr"}
_DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or"}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}

_EXC_PARENTS = {"ValueError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
                "TypeError": "Exception", "AttributeError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
                "AssertionError": "Exception", "OSError": "Exception", "IOError": "Exception", "FileNotFoundError": "OSError", "ImportError": "Exception",
                "ModuleNotFoundError": "ImportError", "StopIteration": "Exception", "UnicodeDecodeError": "ValueError", "ZeroDivisionError": "ArithmeticError",
                "ArithmeticError": "Exception", "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "Warning": "Exception", "UserWarning": "Warning"}


def exc_is(name, target):
    while name is not None:
        if name == target:
            return True
        if target == "IOError" and name == "OSError" or target == "OSError" and name == "IOError":
            return True
        name = _EXC_PARENTS.get(name)
    return False


class Interp:
    def __init__(self, repo=None, budget=4_000_000):
        self.repo = repo or REPO
        self.mods = {}
        self.gheap = {}
        self.st = State()
        self.pc = EMPTY
        self.nograd = 0
        self.events = []
        self.stack = []
        self.raise_stack = [[]]
        self.io_raises = None
        self.guard = EMPTY
        self.frames = []
        self.paths = False
        self.cond = 0
        self.intern = {}
        self.ctx = 0
        self.node = None
        self._sub = 0
        self.budget = budget
        self.steps = 0
        self.lines = None        # statements executed, when asked for
        self.consulted = set()
        self.called = {}
        self.assume_loop_nonempty = True
        self.loading = 0
        self.unknowns = {}
        self.views = 0       # views judged for their memory layout
        self.copies = False  # reshape copies what it cannot view
        self.copied = 0
        self.assume = {}
        self.phase = 0       # 0: building the input, 1: the call under analysis, 2: observing its result
        self.in_bases = {}   # storage id -> label of the caller-owned value
        self.cms = {}        # generator based context managers that have not been entered
        self.in_oids = {}    # heap id -> label of the caller-owned object
        from . import torchops, pyops
        self.T = torchops.TorchOps(self)
        self.P = pyops.PyOps(self)
        from . import config
        self.C = config.Config(self)

    # ---------------------------------------------------------------- bookkeeping
    def _id(self, *k):
        k = (self.ctx,) + k
        i = self.intern.get(k)
        if i is None:
            i = self.intern[k] = len(self.intern) + 1
        return i

    def fresh_id(self, kind="s"):
        self._sub += 1
        return f"{kind}{self._id(id(self.node), self._sub, kind, self.phase)}"

    def storage(self):
        return frozenset([self.fresh_id("s")])

    def loc(self, node=None):
        n = node or self.node
        f = self.frames[-1] if self.frames else None
        path = os.path.relpath(f.mod.path, self.repo) if f else "?"
        return f"{path}:{getattr(n, 'lineno', 0)}"

    def event(self, kind, **data):
        fr = self.frames[-1] if self.frames else None
        stack = tuple(self.stack)
        self.events.append(Event(kind, data, stack, self.loc(), self.cond))

    def unknown(self, what):
        self.unknowns[what] = self.unknowns.get(what, 0) + 1

    # ---------------------------------------------------------------- heap
    def get(self, oid):
        o = self.st.heap.get(oid)
        if o is None:
            o = self.gheap[oid]
        return o

    def put(self, oid, obj):
        if self.loading and not self.frames_nonmodule():
            self.gheap[oid] = obj
        else:
            self.st.heap[oid] = obj

    def frames_nonmodule(self):
        # inside a module body being executed?  (module loads always write global heap)
        return False

    def new(self, obj, kind="o"):
        oid = self.fresh_id(kind)
        if self.loading:
            oid = "g" + oid
            self.gheap[oid] = obj
        else:
            self.st.heap[oid] = obj
        return Ref(oid)

    def new_list(self, items=None, elem=None, length=None, kind="list"):
        return self.new(HList(items, elem, length, kind))

    def new_dict(self, known=None, rest=None):
        return self.new(HDict(known, rest))

    def obj(self, v):
        return self.get(v.oid) if isinstance(v, Ref) else None

    # ---------------------------------------------------------------- dependency helpers
    def eff(self, t):
        """effective (deps, gdeps) of a tensor, including writes made through its storage"""
        d, g = t.deps, t.gdeps
        for b in t.base:
            e = self.st.sd.get(b)
            if e:
                d = d | e[0]
                g = g | e[1]
        return d, g

    def deps(self, v, depth=0, seen=None):
        """all may-dependencies reachable from a value"""
        if v is None:
            return EMPTY
        if isinstance(v, (Tn, Top)):
            return self.eff(v)[0]
        if isinstance(v, (Sc, Ext)):
            return v.deps
        if depth > 12:
            return v.deps
        if isinstance(v, Tup):
            d = v.deps
            for i in (v.items if v.items is not None else [v.elem]):
                d = d | self.deps(i, depth + 1, seen)
            return d
        if isinstance(v, Un):
            d = EMPTY
            for i in v.ms:
                d = d | self.deps(i, depth + 1, seen)
            return d
        if isinstance(v, Sl):
            return v.deps
        if isinstance(v, Bound):
            return v.deps | self.deps(v.self_, depth + 1, seen)
        if isinstance(v, Partial):
            d = v.deps
            for i in v.args:
                d = d | self.deps(i, depth + 1, seen)
            for _, i in v.kw:
                d = d | self.deps(i, depth + 1, seen)
            return d
        if isinstance(v, Ref):
            seen = seen if seen is not None else set()
            if v.oid in seen:
                return v.deps
            seen.add(v.oid)
            o = self.get(v.oid)
            d = v.deps
            for c in self.children(o):
                d = d | self.deps(c, depth + 1, seen)
            return d
        return v.deps

    def gdeps(self, v, depth=0, seen=None):
        if v is None:
            return EMPTY
        if isinstance(v, (Tn, Top)):
            return self.eff(v)[1]
        if depth > 12:
            return EMPTY
        if isinstance(v, Tup):
            d = EMPTY
            for i in (v.items if v.items is not None else [v.elem]):
                d = d | self.gdeps(i, depth + 1, seen)
            return d
        if isinstance(v, Un):
            d = EMPTY
            for i in v.ms:
                d = d | self.gdeps(i, depth + 1, seen)
            return d
        if isinstance(v, Ref):
            seen = seen if seen is not None else set()
            if v.oid in seen:
                return EMPTY
            seen.add(v.oid)
            d = EMPTY
            for c in self.children(self.get(v.oid)):
                d = d | self.gdeps(c, depth + 1, seen)
            return d
        return EMPTY

    def bases(self, v, depth=0, seen=None):
        if v is None:
            return EMPTY
        if isinstance(v, (Tn, Top)):
            return v.base
        if depth > 12:
            return EMPTY
        if isinstance(v, Tup):
            d = EMPTY
            for i in (v.items if v.items is not None else [v.elem]):
                d = d | self.bases(i, depth + 1, seen)
            return d
        if isinstance(v, Un):
            d = EMPTY
            for i in v.ms:
                d = d | self.bases(i, depth + 1, seen)
            return d
        if isinstance(v, Ref):
            seen = seen if seen is not None else set()
            if v.oid in seen:
                return EMPTY
            seen.add(v.oid)
            d = EMPTY
            for c in self.children(self.get(v.oid)):
                d = d | self.bases(c, depth + 1, seen)
            return d
        return EMPTY

    def children(self, o):
        if isinstance(o, HList):
            return list(o.items) if o.items is not None else ([o.elem] if o.elem is not None else [])
        if isinstance(o, HDict):
            return list(o.known.values()) + (list(o.rest) if o.rest else [])
        if isinstance(o, HInst):
            return list(o.attrs.values())
        return []

    def adddeps(self, v, d):
        if not d or v is None:
            return v
        if isinstance(v, Un):
            return Un([self.adddeps(m, d) for m in v.ms])
        if isinstance(v, (Mod, Lazy, Super)):
            return v
        if isinstance(v, Tup):
            if v.items is not None:
                n = _set(v, items=tuple(self.adddeps(i, d) for i in v.items), deps=v.deps | d)
            else:
                n = _set(v, elem=self.adddeps(v.elem, d), deps=v.deps | d)
            return n
        if d <= v.deps:
            return v
        return _set(v, deps=v.deps | d)

    def wpc(self, v):
        return self.adddeps(v, self.pc) if self.pc else v

    # ---------------------------------------------------------------- joins
    def join(self, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Lazy):
            a = self.force(a)
        if isinstance(b, Lazy):
            b = self.force(b)
        if a.key() == b.key():
            return a
        if isinstance(a, (Fn, Bound, Partial, Cls)) and type(a) is type(b) and a.deps != b.deps and _set(a, deps=EMPTY).key() == _set(b, deps=EMPTY).key():
            return _set(a, deps=self.dj(a.deps, b.deps))
        if isinstance(a, Un) or isinstance(b, Un):
            ms = list(a.ms if isinstance(a, Un) else [a])
            for m in (b.ms if isinstance(b, Un) else [b]):
                for i, x in enumerate(ms):
                    j = self.join1(x, m)
                    if j is not None:
                        ms[i] = j
                        break
                else:
                    ms.append(m)
            return self.mkun(ms)
        j = self.join1(a, b)
        return j if j is not None else self.mkun([a, b])

    def mkun(self, ms):
        if len(ms) == 1:
            return ms[0]
        if len(ms) > 8:
            d = g = bs = EMPTY
            for m in ms:
                d, g, bs = d | self.deps(m), g | self.gdeps(m), bs | self.bases(m)
            return Top(d, g, bs, "wide-union")
        return Un(ms)

    def dj(self, a, b):
        return pathjoin(a, b) if self.paths else a | b

    def join1(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if isinstance(a, (Fn, Cls, Mod, Ref)) or isinstance(b, (Fn, Cls, Mod, Ref)):
                return None
            return Top(self.dj(self.deps(a), self.deps(b)), self.dj(self.gdeps(a), self.gdeps(b)), self.bases(a) | self.bases(b), "join")
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.kind == b.kind:
                if a.kind == "none":
                    return Sc("none", None, self.dj(a.deps, b.deps))
                if a.v is not UNK and b.v is not UNK and a.v == b.v and type(a.v) is type(b.v):
                    return Sc(a.kind, a.v, self.dj(a.deps, b.deps))
                if a.kind in ("str", "enum", "dtype", "device") and a.v is not UNK and b.v is not UNK:
                    return None
                return Sc(a.kind, UNK, self.dj(a.deps, b.deps))
            if {a.kind, b.kind} <= {"int", "float", "bool"}:
                if "bool" in (a.kind, b.kind) and {a.kind, b.kind} != {"bool"}:
                    return None
                return Sc("float", UNK, self.dj(a.deps, b.deps))
            return None
        if isinstance(a, Tn) and isinstance(b, Tn):
            if a.lib != b.lib:
                return None
            if a.shape is not None and b.shape is not None:
                if len(a.shape) != len(b.shape):
                    return None
                shape = tuple(dims.join(x, y) for x, y in zip(a.shape, b.shape))
            else:
                shape = None
            return Tn(shape, a.dtype if a.dtype == b.dtype else None, a.dev if a.dev == b.dev else None,
                      self.dj(a.deps, b.deps), self.dj(a.gdeps, b.gdeps), a.base | b.base, a.lib, self.alternatives(a, b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if a.cls is not b.cls and a.cls != b.cls:
                return None
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Tup([self.join(x, y) for x, y in zip(a.items, b.items)], cls=a.cls, fields=a.fields, deps=self.dj(a.deps, b.deps))
            ea, eb = self.tup_elem(a), self.tup_elem(b)
            return Tup(None, self.join(ea, eb), dims.join(a.length, b.length), cls=a.cls, fields=a.fields, deps=self.dj(a.deps, b.deps))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return Ref(a.oid, self.dj(a.deps, b.deps))
            return None
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return Ext(a.name, self.dj(a.deps, b.deps))
        if isinstance(a, Sl) and isinstance(b, Sl):
            return Sl(self.join(a.lo, b.lo), self.join(a.hi, b.hi), self.join(a.step, b.step))
        if a.key() == b.key():
            return a
        return None

    def alternatives(self, a, b):
        """tags of a value that is a on some paths and b on others: where they are known to differ, both facts"""
        tags = a.tags & b.tags
        if a.lib == "torch":
            alt = {t for t in a.tags | b.tags if isinstance(t, tuple) and t[0] == "alt"}
            for w in ("dev", "dtype", "shape"):
                x, y = getattr(a, w), getattr(b, w)
                if x is not None and y is not None and x != y:
                    alt |= {("alt", w, x), ("alt", w, y)}
            if alt and len(alt) <= 12:
                tags |= alt
        return tags

    def tup_elem(self, t):
        if t.items is None:
            return t.elem
        e = None
        for i in t.items:
            e = self.join(e, i)
        return e

    def join_obj(self, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            return a
        if isinstance(a, HFrame):
            v = dict(a.vars)
            for k, x in b.vars.items():
                y = v.get(k)
                v[k] = x if y is None else (y if x is y else self.join(y, x))
            return HFrame(v, a.parent)
        if isinstance(a, HInst):
            v = dict(a.attrs)
            for k, x in b.attrs.items():
                y = v.get(k)
                v[k] = x if y is None else (y if x is y else self.join(y, x))
            return HInst(a.cls, v, a.extra)
        if isinstance(a, HList):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return HList([self.join(x, y) for x, y in zip(a.items, b.items)], kind=a.kind)
            e = self.join(self.list_elem(a), self.list_elem(b))
            return HList(None, e, dims.join(a.length, b.length), kind=a.kind)
        if isinstance(a, HDict):
            known, maybe = dict(a.known), set(a.maybe | b.maybe)
            for k, x in b.known.items():
                if k in known:
                    known[k] = self.join(known[k], x)
                else:
                    known[k] = x
                    maybe.add(k)
            for k in a.known:
                if k not in b.known:
                    maybe.add(k)
            rest = a.rest or b.rest
            if a.rest and b.rest:
                rest = (self.join(a.rest[0], b.rest[0]), self.join(a.rest[1], b.rest[1]))
            return HDict(known, rest, maybe)
        return a

    def list_elem(self, l):
        if l.items is None:
            return l.elem
        e = None
        for i in l.items:
            e = self.join(e, i)
        return e

    def join_paths(self, states):
        """states of alternative paths"""
        save, self.paths = self.paths, True
        try:
            return self.join_states(states)
        finally:
            self.paths = save

    def join_values(self, vals):
        save, self.paths = self.paths, True
        try:
            r = None
            for v in vals:
                r = self.join(r, v)
            return r
        finally:
            self.paths = save

    def join_states(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        out = states[0]
        for s in states[1:]:
            if s is out:
                continue
            heap = dict(out.heap)
            both = []
            for k, x in s.heap.items():
                y = heap.get(k)
                if y is None:
                    heap[k] = x
                    if k in self.gheap:
                        both.append((k, self.gheap[k], x))
                elif y is not x:
                    both.append((k, y, x))
            for k in out.heap:
                if k not in s.heap and k in self.gheap:
                    both.append((k, out.heap[k], self.gheap[k]))
            cur, self.st = self.st, State(heap, out.sd)     # references of both states resolve while joining
            try:
                for k, y, x in both:
                    heap[k] = self.join_obj(y, x)
            finally:
                self.st = cur
            sd = dict(out.sd)
            for k, x in s.sd.items():
                y = sd.get(k)
                if y is None:
                    sd[k] = (self.dj(EMPTY, x[0]), self.dj(EMPTY, x[1]))
                elif y is not x:
                    sd[k] = (self.dj(y[0], x[0]), self.dj(y[1], x[1]))
            if self.paths:
                for k in out.sd:
                    if k not in s.sd:
                        sd[k] = (self.dj(EMPTY, sd[k][0]), self.dj(EMPTY, sd[k][1]))
            out = State(heap, sd)
        return out

    def same_state(self, a, b):
        if a.heap.keys() != b.heap.keys() or a.sd != b.sd:
            return False
        for k, x in a.heap.items():
            y = b.heap[k]
            if x is not y and x.key() != y.key():
                return False
        return True

    def branch(self, alts):
        """Run alternatives (thunks) from the current state; join results. Each thunk -> Val."""
        base = self.st
        outs, vals = [], []
        for f in alts:
            self.st = base.fork()
            try:
                v = f()
            except Stop:
                continue
            outs.append(self.st)
            vals.append(v)
        if not outs:
            self.st = base
            raise Stop()
        self.st = self.join_paths(outs)
        return self.join_values(vals)

    # ---------------------------------------------------------------- modules
    def modpath(self, name):
        if name.startswith("verif_stubs."):
            return None
        if name == "verif_stubs":
            return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "stubs", name + ".py")
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isdir(p) and name.split(".")[0] in ("pytorch3d", "projects"):
            return None
        return None

    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            path = self.modpath(name)
            if path is None:
                return None
            with open(path, "rb") as f:
                src = f.read()
            try:
                tree = matches(ast.parse(src, path))
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {path}: {e}")
            m = self.mods[name] = ModInfo(name, path, tree)
            self.consulted.add(os.path.relpath(path, self.repo))
            self.exec_module(m)
        return m

    def exec_module(self, m):
        m.frame = "m:" + m.name
        self.gheap[m.frame] = HFrame({"__name__": const(m.name)}, None)
        saved = (self.st, self.pc, self.nograd, self.stack, self.frames, self.cond, self.ctx, self.node, self._sub, self.raise_stack)
        self.st = State(self.gheap, {})
        self.loading += 1
        self.pc, self.nograd, self.stack, self.cond, self.ctx = EMPTY, 0, [], 0, self._idraw(("mod", m.name))
        self.raise_stack = [[]]
        self.frames = [Frame(m.frame, None, m)]
        nev = len(self.events)
        try:
            self.exec_block(m.tree.body)
        except Stop:
            pass
        finally:
            if self.st.heap is not self.gheap:
                self.gheap.update(self.st.heap)
            self.loading -= 1
            self.modevents = self.events[nev:]
            del self.events[nev:]
            (self.st, self.pc, self.nograd, self.stack, self.frames, self.cond, self.ctx, self.node, self._sub, self.raise_stack) = saved
            if self.loading and self.st.heap is not self.gheap:
                # nested load during a fork inside another module body: make new globals visible
                pass

    def _idraw(self, k):
        i = self.intern.get(k)
        if i is None:
            i = self.intern[k] = len(self.intern) + 1
        return i

    def force(self, v):
        while isinstance(v, Lazy):
            m = self.module(v.modname)
            if m is None:
                return Ext(v.modname + ("." + v.attr if v.attr else ""))
            if v.attr is None:
                return Mod(m.name)
            v = self.mod_attr(m, v.attr)
        return v

    def mod_attr(self, m, name):
        fr = self.st.heap.get(m.frame) or self.gheap[m.frame]
        v = fr.vars.get(name)
        if v is None and self.gheap[m.frame] is not fr:
            v = self.gheap[m.frame].vars.get(name)
        if v is not None:
            return self.force(v) if isinstance(v, Lazy) else v
        sub = m.name + "." + name
        if self.modpath(sub) or os.path.isdir(os.path.join(self.repo, *sub.split("."))) and m.is_pkg:
            if self.module(sub):
                return Mod(sub)
        for s in fr.vars.get("*", Tup(())).items:
            mm = self.module(s.v)
            if mm is not None:
                try:
                    return self.mod_attr(mm, name)
                except KeyError:
                    pass
        if m.name.startswith("pytorch3d") and name == "_C":
            return Ext("pytorch3d._C")
        raise KeyError(f"{m.name}.{name}")

    # ---------------------------------------------------------------- variables
    def lookup(self, name):
        f = self.frames[-1]
        oid = f.oid
        first = True
        while oid is not None:
            fr = self.get(oid)
            if not (getattr(fr, "parent", None) and isinstance(fr.parent, tuple) and not first):
                v = fr.vars.get(name)
                if v is not None:
                    if isinstance(v, Lazy):
                        v = self.force(v)
                    return v
            par = fr.parent
            if isinstance(par, tuple):  # class frame marker ("class", parent)
                par = par[1]
            oid = par
            first = False
        m = f.mod
        try:
            return self.mod_attr(m, name)
        except KeyError:
            pass
        if hasattr(builtins, name) or name in ("__file__", "__name__"):
            return Ext("builtins." + name)
        self.unknown("name:" + name)
        return Top(hint="name:" + name)

    def assign_name(self, name, v):
        f = self.frames[-1]
        oid = f.oid
        if name in f.globals:
            oid = f.mod.frame
        elif name in f.nonlocals:
            fr = self.get(oid)
            o = fr.parent
            while o is not None and name not in self.get(o).vars:
                o = self.get(o).parent
            oid = o or oid
        fr = self.get(oid)
        nv = dict(fr.vars)
        nv[name] = v
        self.st.heap[oid] = HFrame(nv, fr.parent)

    # ---------------------------------------------------------------- statements
    def exec_block(self, body):
        """True if execution continues after the block."""
        for s in body:
            if not self.exec_stmt(s):
                return False
        return True

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        if self.lines is not None:
            self.lines.add(id(s))
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("stmt:" + type(s).__name__)
            return True
        return m(s)

    def s_Expr(self, s):
        try:
            self.eval(s.value)
        except Stop:
            return False
        return True

    def s_Pass(self, s):
        return True

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, Lazy(a.name, None) if self.modpath(a.name) else Ext(a.name))
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, Lazy(top, None) if self.modpath(top) else Ext(top))
        return True

    def s_ImportFrom(self, s):
        m = self.frames[-1].mod
        if s.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        inrepo = self.modpath(base) is not None
        for a in s.names:
            if a.name == "*":
                if inrepo:
                    fr = self.get(self.frames[-1].oid)
                    cur = fr.vars.get("*", Tup(()))
                    self.assign_name("*", Tup(cur.items + (const(base),)))
                continue
            nm = a.asname or a.name
            if inrepo:
                self.assign_name(nm, Lazy(base, a.name) if base != m.name else Lazy(base + "." + a.name, None))
                if base == m.name or (self.modpath(base + "." + a.name) and self.modpath(base).endswith("__init__.py") and base == m.name):
                    self.assign_name(nm, Lazy(base + "." + a.name, None))
            elif base == "pytorch3d" and a.name == "_C":
                self.assign_name(nm, Ext("pytorch3d._C"))
            else:
                self.assign_name(nm, self.P.ext_const(f"{base}.{a.name}"))
        return True

    def s_FunctionDef(self, s):
        self.assign_name(s.name, self.make_fn(s))
        return True

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, cls=None):
        f = self.frames[-1]
        a = s.args
        defaults = {}
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            try:
                defaults[n] = self.eval(d)
            except Stop:
                defaults[n] = Top()
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                try:
                    defaults[n] = self.eval(d)
                except Stop:
                    defaults[n] = Top()
        name = getattr(s, "name", "<lambda>")
        q = (f.fn.qual + "." if f.fn is not None else (cls.name + "." if cls else "")) + name
        if f.fn is None and cls is None:
            q = f.mod.name + ":" + name
        elif cls is not None and f.fn is None:
            q = f.mod.name + ":" + q
        fr = f.oid
        fro = self.get(fr)
        if isinstance(fro.parent, tuple):
            fr = fro.parent[1]
        fn = Fn(s, f.mod, fr, q, cls, defaults, getattr(s, "decorator_list", ()))
        out = fn
        for d in reversed(getattr(s, "decorator_list", ())):
            try:
                dv = self.eval(d)
            except Stop:
                continue
            if isinstance(dv, Fn):
                try:
                    r = self.call(dv, [out], {})
                except Stop:
                    continue
                if isinstance(r, (Fn, Cls, Partial)):
                    out = r
        return out

    def s_ClassDef(self, s):
        f = self.frames[-1]
        bases = []
        for b in s.bases:
            try:
                v = self.eval(b)
            except Stop:
                v = Top()
            if isinstance(v, (Cls, Ext)):
                if isinstance(v, Ext) and v.name in ("typing.Generic", "builtins.object"):
                    continue
                bases.append(v)
            elif isinstance(v, Un):
                bases.append(next((m for m in v.ms if isinstance(m, Cls)), Ext("unknown")))
            else:
                bases.append(Ext("unknown.base"))
        info = ClassInfo(s.name, f.mod, s, bases, None)
        fo = self.get(f.oid)
        par = f.oid if not isinstance(fo.parent, tuple) else fo.parent[1]
        cf = Frame(None, f.fn, f.mod)
        cf.oid = self.fresh_id("c")
        if self.loading:
            cf.oid = "g" + cf.oid
        self.st.heap[cf.oid] = HFrame({}, ("class", par))
        self.frames.append(cf)
        info.frame = cf.oid
        try:
            for d in s.decorator_list:
                n = d.func if isinstance(d, ast.Call) else d
                nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
                info.decos.append(nm)
            info.dataclass = "dataclass" in info.decos
            for b in s.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kinds = set()
                    for d in b.decorator_list:
                        nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None) or (d.func.attr if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) else "")
                        kinds.add(nm)
                    fn = self.make_fn(b, info)
                    if "setter" in kinds:
                        info.attrs["%set%" + b.name] = ("method", fn, kinds)
                        continue
                    info.attrs[b.name] = ("method", fn, kinds)
                    self.assign_name(b.name, fn)
                elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    info.ann.append((b.target.id, b.annotation))
                    if b.value is not None:
                        try:
                            v = self.eval(b.value)
                        except Stop:
                            v = Top()
                        info.attrs[b.target.id] = ("value", v, None)
                        self.assign_name(b.target.id, v)
                elif isinstance(b, ast.Assign):
                    try:
                        v = self.eval(b.value)
                    except Stop:
                        v = Top()
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            info.attrs[t.id] = ("value", v, None)
                            self.assign_name(t.id, v)
                elif isinstance(b, ast.ClassDef):
                    self.exec_stmt(b)
                    info.attrs[b.name] = ("value", self.get(cf.oid).vars[b.name], None)
                elif isinstance(b, (ast.If, ast.For, ast.Try)):
                    self.exec_stmt(b)
        finally:
            self.frames.pop()
        eb = [e.name for e in info.ext_bases() if isinstance(e, Ext)]
        info.enum = any(e.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for e in eb)
        info.namedtuple = any(e.endswith("NamedTuple") for e in eb)
        self.assign_name(s.name, Cls(info))
        return True

    def s_Return(self, s):
        try:
            v = self.eval(s.value) if s.value is not None else NONE
        except Stop:
            return False
        f = self.frames[-1]
        f.rets.append((self.st, self.wpc(v), s, self.cond))
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                pass
            elif isinstance(t, ast.Subscript):
                try:
                    o = self.eval(t.value)
                    k = self.eval(t.slice)
                    self.P.delitem(o, k)
                except Stop:
                    return False
        return True

    def s_Assign(self, s):
        try:
            v = self.eval(s.value)
            v = self.wpc(v)
            for t in s.targets:
                self.assign(t, v)
        except Stop:
            return False
        return True

    def s_AnnAssign(self, s):
        if s.value is None:
            return True
        try:
            v = self.wpc(self.eval(s.value))
            self.assign(s.target, v)
        except Stop:
            return False
        return True

    def s_AugAssign(self, s):
        try:
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.lookup(t.id)
                r = self.eval(s.value)
                self.node = s
                self.assign(t, self.wpc(self.aug(cur, s.op, r)))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                cur = self.getattr(o, t.attr)
                r = self.eval(s.value)
                self.node = s
                self.setattr(o, t.attr, self.wpc(self.aug(cur, s.op, r)))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                cur = self.P.getitem(o, k)
                r = self.eval(s.value)
                self.node = s
                self._sub = 0
                v = self.binop(s.op, cur, r)
                self.P.setitem(o, k, self.wpc(v))
        except Stop:
            return False
        return True

    def aug(self, cur, op, r):
        if isinstance(cur, Un):
            return self.branch([lambda m=m: self.aug(m, op, r) for m in cur.ms])
        if isinstance(cur, (Tn, Top)) and (isinstance(cur, Tn) or cur.base):
            return self.T.inplace(cur, _BINNAME.get(type(op), "add"), [r])
        if isinstance(cur, Ref) and isinstance(op, ast.Add):
            o = self.obj(cur)
            if isinstance(o, HList):
                self.P.list_extend(cur, r)
                return cur
        if isinstance(cur, Ref) and isinstance(op, ast.BitOr):
            o = self.obj(cur)
            if isinstance(o, HDict):
                self.P.dict_update(cur, r)
                return cur
        return self.binop(op, cur, r)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.node = t
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.node = t
            self._sub = 0
            self.P.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, elts, v):
        if isinstance(v, Un):
            base = self.st
            outs = []
            for m in v.ms:
                self.st = base.fork()
                try:
                    self.unpack(elts, m)
                    outs.append(self.st)
                except Stop:
                    pass
            if not outs:
                raise Stop()
            self.st = self.join_paths(outs)
            return
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        kind, items, length = self.P.iter_items(v)
        if kind == "known":
            if star is None:
                if len(items) != n:
                    self.do_raise("ValueError", "unpack")
                for e, x in zip(elts, items):
                    self.assign(e, x)
            else:
                if len(items) < n - 1:
                    self.do_raise("ValueError", "unpack")
                k = len(items) - (n - 1)
                for e, x in zip(elts[:star], items[:star]):
                    self.assign(e, x)
                self.assign(elts[star].value, self.new_list(items[star:star + k]))
                for e, x in zip(elts[star + 1:], items[star + k:]):
                    self.assign(e, x)
        else:
            for i, e in enumerate(elts):
                if i == star:
                    self.assign(e.value, self.new_list(None, items, None))
                else:
                    self.assign(e, items if items is not None else Top())

    # --- branching
    def test(self, node):
        """evaluate a condition; returns (truth, control deps)"""
        v = self.eval(node)
        return self.truth(v), ctl(self.deps(v))

    def truth(self, v):
        return self.P.truth(v)

    def refine(self, node, truth):
        """narrow the current state assuming node evaluates to truth; returns False if contradictory"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return self.refine(node.operand, not truth)
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And) and truth or isinstance(node.op, ast.Or) and not truth:
                return all(self.refine(x, truth) for x in node.values)
            return True
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value is None:
                want = truth if isinstance(op, (ast.Is, ast.Eq)) else not truth
                return self.filter(node.left, lambda m: (isinstance(m, Sc) and m.kind == "none") if want else not (isinstance(m, Sc) and m.kind == "none"))
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                want = truth if isinstance(op, (ast.Eq, ast.Is)) else not truth
                try:
                    rv = self.peek(r)
                except Exception:
                    rv = None
                if isinstance(rv, Sc) and rv.v is not UNK:
                    return self.filter(node.left, lambda m: self.P.eq(m, rv) is not (not want))
            return True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and len(node.args) == 2 and node.func.id == "isinstance":
            tv = self.peek(node.args[1])
            if tv is not None:
                return self.filter(node.args[0], lambda m: self.P.isinstance_(m, tv) is not (not truth))
            return True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "is_tensor" and node.args:
            return self.filter(node.args[0], lambda m: self.P.isinstance_(m, Ext("torch.Tensor")) is not (not truth))
        if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript)):
            return self.filter(node, lambda m: self.P.truth_pure(m) is not (not truth))
        if isinstance(node, ast.NamedExpr):
            return self.refine(node.target, truth)
        return True

    def peek(self, node):
        """evaluate a side-effect free reference expression (Name / attribute / constant / tuple of those) or None"""
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, (ast.Name, ast.Attribute)):
            x = node
            while isinstance(x, ast.Attribute):
                x = x.value
            if isinstance(x, ast.Name):
                n = len(self.events)
                st = self.st
                self.st = st.fork()
                try:
                    v = self.eval(node)
                except Stop:
                    return None
                finally:
                    self.st = st
                    del self.events[n:]
                return v
        if isinstance(node, ast.Tuple):
            xs = [self.peek(e) for e in node.elts]
            if all(x is not None for x in xs):
                return Tup(xs)
        return None

    def filter(self, node, pred):
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            v = self.lookup(node.id)
            if isinstance(v, Un):
                ms = [m for m in v.ms if pred(m)]
                if not ms:
                    return False
                if len(ms) < len(v.ms):
                    f = self.frames[-1]
                    if node.id in self.get(f.oid).vars:
                        self.assign_name(node.id, self.mkun(ms))
            elif not isinstance(v, Top):
                return bool(pred(v)) if not isinstance(v, (Tn,)) or True else True
            return True
        if isinstance(node, ast.Attribute):
            o = self.peek(node.value)
            if isinstance(o, Ref):
                ob = self.obj(o)
                if isinstance(ob, HInst) and node.attr in ob.attrs:
                    v = ob.attrs[node.attr]
                    if isinstance(v, Un):
                        ms = [m for m in v.ms if pred(m)]
                        if not ms:
                            return False
                        if len(ms) < len(v.ms):
                            na = dict(ob.attrs)
                            na[node.attr] = self.mkun(ms)
                            self.st.heap[o.oid] = HInst(ob.cls, na, ob.extra)
                    elif not isinstance(v, Top):
                        return bool(pred(v))
            return True
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
            o = self.lookup(node.value.id)
            k = self.peek(node.slice)
            ob = self.obj(o) if isinstance(o, Ref) else None
            if isinstance(ob, HDict) and isinstance(k, Sc) and k.v is not UNK and k.v in ob.known:
                v = ob.known[k.v]
                if isinstance(v, Un):
                    ms = [m for m in v.ms if pred(m)]
                    if not ms:
                        return False
                    kn = dict(ob.known)
                    kn[k.v] = self.mkun(ms)
                    self.st.heap[o.oid] = HDict(kn, ob.rest, ob.maybe)
                elif not isinstance(v, Top):
                    return bool(pred(v))
        return True

    def split_test(self, node):
        """yields the feasible (truth, State) alternatives of a condition; and its control deps"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            alts, cd = self.split_test(node.operand)
            return [(not t, s) for t, s in alts], cd
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cd = EMPTY
            done = []
            cur = [self.st]
            for x in node.values:
                nxt = []
                for s in cur:
                    self.st = s
                    try:
                        alts, d = self.split_test(x)
                    except Stop:
                        continue
                    cd |= d
                    for t, s2 in alts:
                        if t is isand:
                            nxt.append(s2)
                        else:
                            done.append(s2)
                cur = [self.join_paths(nxt)] if nxt else []
            alts = []
            if cur:
                alts.append((isand, cur[0]))
            if done:
                alts.append((not isand, self.join_paths(done)))
            if not alts:
                raise Stop()
            return alts, cd
        t, cd = self.test(node)
        if t is True or t is False:
            st = self.st
            if isinstance(node, (ast.Name, ast.Attribute)):
                pass
            return [(t, st)], cd
        alts = []
        base = self.st
        for want in (True, False):
            self.st = base.fork()
            if self.refine(node, want):
                alts.append((want, self.st))
        self.st = base
        if not alts:
            alts = [(True, base.fork()), (False, base.fork())]
        return alts, cd

    def s_If(self, s):
        try:
            alts, cd = self.split_test(s.test)
        except Stop:
            return False
        f = self.frames[-1]
        both = len(alts) > 1
        savepc, savecond, saveguard = self.pc, self.cond, self.guard
        outs = []
        if both:
            self.guard = cd
        for t, st in alts:
            self.st = st
            self.pc = savepc | cd
            self.cond = savecond + (1 if both else 0)
            body = s.body if t else s.orelse
            if self.exec_block(body):
                outs.append(self.st)
        self.pc, self.cond, self.guard = savepc, savecond, saveguard
        if cd and (_escapes(s.body) or _escapes(s.orelse)):
            f.pc = f.pc | cd
            self.pc = self.pc | cd
        if not outs:
            return False
        self.st = self.join_paths(outs)
        return True

    def s_Assert(self, s):
        try:
            alts, cd = self.split_test(s.test)
        except Stop:
            return False
        ok = [st for t, st in alts if t]
        bad = [st for t, st in alts if not t]
        if bad:
            self.raise_stack[-1].append((bad[0], "AssertionError", s, self.cond + (1 if ok else 0), tuple(self.stack), self.loc(s), cd if ok else self.guard))
        if not ok:
            return False
        self.st = self.join_states(ok)
        return True

    def may_raise(self, name, key):
        """a library call that can fail at run time (asked for by the I/O rule only)"""
        if not self.io_raises or self.phase != 1 or key in self.io_raises:
            return
        self.io_raises.add(key)
        self.raise_stack[-1].append((self.st.fork(), name, self.node, self.cond + 1, tuple(self.stack), self.loc() + " (I/O error)"))

    def do_raise(self, name, why=""):
        self.raise_stack[-1].append((self.st, name, self.node, self.cond, tuple(self.stack), self.loc()))
        raise Stop()

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is None:
            name = "reraise"
        else:
            try:
                e = s.exc
                v = self.eval(e.func if isinstance(e, ast.Call) else e)
                if isinstance(e, ast.Call):
                    for a in e.args:
                        try:
                            self.eval(a.value if isinstance(a, ast.Starred) else a)
                        except Stop:
                            pass
                name = v.name.split(".")[-1] if isinstance(v, Ext) else (v.info.name if isinstance(v, Cls) else "Exception")
                if isinstance(v, Ref):
                    o = self.obj(v)
                    if isinstance(o, HInst):
                        name = o.cls if isinstance(o.cls, str) else o.cls.name
                        name = name.split(".")[-1]
            except Stop:
                pass
        self.raise_stack[-1].append((self.st, name, s, self.cond, tuple(self.stack), self.loc(s), self.guard))
        return False

    def s_Try(self, s):
        pre = self.st.fork()
        fr = self.frames[-1]
        nret = len(fr.rets)
        lp = fr.loops[-1] if fr.loops else {}
        nlp = {k: len(x) for k, x in lp.items() if isinstance(x, list)}
        self.raise_stack.append([])
        cont = self.exec_block(s.body)
        if cont and s.orelse:
            cont = self.exec_block(s.orelse)
        raises = self.raise_stack.pop()
        outs = [self.st] if cont else []
        post = self.st if cont else None
        remaining = list(raises)
        has_call = any(isinstance(n, (ast.Call, ast.Subscript, ast.Import, ast.ImportFrom)) for b in s.body for n in ast.walk(b))
        savecond = self.cond
        for h in s.handlers:
            names = self.handler_names(h)
            here, rest = [], []
            for r in remaining:
                if names is None or any(exc_is(r[1], n) or r[1] == "reraise" for n in names):
                    here.append(r)
                else:
                    rest.append(r)
            remaining = rest
            states = [r[0] for r in here]
            certain = bool(states) and not cont
            if has_call:
                states = states + [pre] + ([post] if post is not None else [])
            if not states:
                continue
            self.st = self.join_states([x.fork() for x in states])
            self.cond = savecond + (0 if certain else 1)
            if h.name:
                self.assign_name(h.name, Top(hint="exception"))
            if self.exec_block(h.body):
                outs.append(self.st)
            self.cond = savecond
        if s.finalbody:
            # returning, breaking and exceptional exits run the finally body on their own state
            def through(st):
                self.st = st.fork()
                self.exec_block(s.finalbody)
                return self.st
            n = len(self.raise_stack[-1])
            for i in range(nret, len(fr.rets)):
                fr.rets[i] = (through(fr.rets[i][0]),) + fr.rets[i][1:]
            for k, x in lp.items():
                for i in range(nlp.get(k, 0), len(x) if isinstance(x, list) else 0):
                    if isinstance(x[i], State):
                        x[i] = through(x[i])
            remaining = [(through(r[0]),) + r[1:] for r in remaining]
            del self.raise_stack[-1][n:]
            self.raise_stack[-1].extend(remaining)
            if outs:
                self.st = self.join_states(outs)
                return self.exec_block(s.finalbody)
            self.st = pre
            if not remaining and len(fr.rets) == nret:
                self.exec_block(s.finalbody)
            return False
        self.raise_stack[-1].extend(remaining)
        if not outs:
            return False
        self.st = self.join_states(outs)
        return True

    s_TryStar = s_Try

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "Exception")
            if n in ("Exception", "BaseException"):
                return None
            out.append(n)
        return out

    def s_With(self, s):
        return self._with(s.items, s.body)

    s_AsyncWith = s_With

    def _with(self, items, body):
        if not items:
            return self.exec_block(body)
        it = items[0]
        try:
            v = self.eval(it.context_expr)
        except Stop:
            return False
        savened = self.nograd
        o = self.obj(v) if isinstance(v, Ref) else None
        entered = v
        cm = None
        fr = self.frames[-1]
        nret, nraise = len(fr.rets), len(self.raise_stack[-1])
        lp = fr.loops[-1] if fr.loops else {}
        nlp = {k: len(x) for k, x in lp.items() if isinstance(x, list)}
        if isinstance(o, HInst) and isinstance(o.cls, str):
            if o.cls in ("torch.no_grad", "torch.inference_mode"):
                self.nograd += 1
            elif o.cls in ("torch.enable_grad",):
                self.nograd = 0
            elif o.cls in ("torch.set_grad_enabled",):
                m = o.attrs.get("mode")
                if isinstance(m, Sc) and m.v is False:
                    self.nograd += 1
                elif isinstance(m, Sc) and m.v is True:
                    self.nograd = 0
            ent = o.attrs.get("__enter__value")
            if ent is not None:
                entered = ent
        if isinstance(o, HInst) and o.cls == "contextmanager" and v.oid in self.cms:
            c = self.cms[v.oid]
            try:
                self.call_fn(*c, cm=WithBlock(self, it.optional_vars, items[1:], body))
            except Stop:
                return False
            return True
        elif isinstance(o, HInst) and isinstance(o.cls, ClassInfo):
            try:
                entered = self.call_method(v, "__enter__", [])
            except Stop:
                return False
            cm = v
        if it.optional_vars is not None:
            try:
                self.assign(it.optional_vars, entered)
            except Stop:
                return False
        amb = None
        if isinstance(o, HInst) and o.cls in ("torch.no_grad", "torch.enable_grad", "torch.inference_mode", "torch.set_grad_enabled"):
            amb = "grad", o.attrs.get("%prev") or self.T.ambient("grad")
        elif isinstance(o, HInst) and o.cls == "torch.random.fork_rng":
            amb = "rng", self.T.ambient("rng")
        cont = self._with(items[1:], body)
        self.nograd = savened
        if cm is not None and cont:
            try:
                self.call_method(cm, "__exit__", [NONE, NONE, NONE])
            except Stop:
                return False
        f = v
        if isinstance(o, HInst) and o.cls == "contextlib.closing":
            f = entered
        fs = [m for m in (f.ms if isinstance(f, Un) else (f,)) if isinstance(m, Ref)]
        fs = [m for m in fs if isinstance(self.obj(m), HInst) and self.obj(m).cls == "file"]
        if fs or amb is not None and amb[1] is not None:
            # every way out of the block closes the file, or restores the process-wide state
            sts = [r[0] for r in fr.rets[nret:]] + [r[0] for r in self.raise_stack[-1][nraise:]]
            for k, n in nlp.items():
                sts += [x for x in lp[k][n:] if isinstance(x, State)]
            saved = self.st
            for st in [saved] + sts:
                self.st = st
                for m in fs:
                    if m.oid in st.heap:
                        self.P.close_file(m)
                if amb is not None and amb[1] is not None:
                    self.T.ambient(*amb)
            self.st = saved
        return cont

    def s_Global(self, s):
        self.frames[-1].globals.update(s.names)
        return True

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)
        return True

    def s_Break(self, s):
        self.frames[-1].loops[-1]["brk"].append(self.st)
        return False

    def s_Continue(self, s):
        self.frames[-1].loops[-1]["cont"].append(self.st)
        return False

    def run_body(self, body):
        """one loop iteration; returns True if iteration can be followed by the next"""
        f = self.frames[-1]
        lp = f.loops[-1]
        lp["cont"] = []
        ok = self.exec_block(body)
        outs = ([self.st] if ok else []) + lp["cont"]
        lp["cont"] = []
        if not outs:
            return False
        self.st = self.join_states(outs)
        return True

    def s_For(self, s):
        try:
            it = self.eval(s.iter)
        except Stop:
            return False
        return self.loop(it, lambda v: self.assign(s.target, v), s.body, s.orelse, s)

    s_AsyncFor = s_For

    def loop(self, it, bind, body, orelse, node):
        f = self.frames[-1]
        if isinstance(it, Un):
            base = self.st
            outs = []
            for m in it.ms:
                self.st = base.fork()
                if self.loop(m, bind, body, orelse, node):
                    outs.append(self.st)
            if not outs:
                return False
            self.st = self.join_states(outs)
            return True
        self.node = node
        try:
            kind, items, length = self.P.iter_items(it)
        except Stop:
            return False
        lp = {"brk": [], "cont": []}
        f.loops.append(lp)
        savepc, savectx, savecond = self.pc, self.ctx, self.cond
        lendeps = ctl(it.deps)
        try:
            if kind == "known" and (len(items) <= UNROLL or len(items) <= 400 and all(isinstance(x, Sc) and x.kind == "str" and x.v is not UNK for x in items)):
                alive = True
                for i, x in enumerate(items):
                    self.ctx = self._id(id(node), "it", i)
                    if lp["brk"]:
                        self.cond = savecond + 1
                    try:
                        bind(x)
                        ok = self.run_body(body)
                    except Stop:
                        ok = False
                    self.ctx = savectx
                    if not ok:
                        alive = False
                        break
                if alive and orelse:
                    alive = self.exec_block(orelse)
                outs = ([self.st] if alive else []) + lp["brk"]
            else:
                elem = items if kind != "known" else None
                if kind == "known":
                    for x in items:
                        elem = self.join(elem, x)
                self.pc = savepc | lendeps
                self.ctx = self._id(id(node), "abs")
                self.cond = savecond + (0 if self.assume_loop_nonempty and length is not None else 1)
                st0 = self.st.fork()
                cur = self.st.fork()
                end = None
                listlens = {}
                for k in range(6):
                    self.st = cur.fork()
                    start_lens = self.mark_lists(st0, k, end, listlens)
                    beg = self.st.fork()
                    try:
                        bind(elem if elem is not None else Top(hint="loopelem"))
                        ok = self.run_body(body)
                    except Stop:
                        ok = False
                    if not ok:
                        end = end
                        break
                    self.track_lists(beg, listlens)
                    newend = self.st if end is None else self.join_states([end, self.st])
                    nxt = self.join_states([cur, self.st])
                    end = newend
                    if self.same_state(nxt, cur):
                        break
                    cur = nxt
                outs = []
                if end is not None:
                    self.st = end
                    self.finish_lists(st0, listlens, length)
                    outs.append(self.st)
                if not (self.assume_loop_nonempty and length is not None):
                    outs.append(st0)
                outs = outs + lp["brk"]
                if end is None and not outs and not lp["brk"]:
                    # the body never completes normally and the loop may be empty
                    if length is None:
                        outs = [st0]
        finally:
            self.ctx = savectx
            self.pc, self.cond = savepc, savecond
            f.loops.pop()
        if _escapes(body):
            # returns inside the body make what follows depend on the loop's conditions
            self.pc = self.pc | f.pc
        if not outs:
            return False
        self.st = self.join_states(outs)
        return True

    # list growth in abstract loops -------------------------------------------------
    def mark_lists(self, st0, k, end, listlens):
        """before an abstract iteration: lists that an earlier iteration changed get a symbolic length"""
        if end is None:
            return
        for oid, o in list(self.st.heap.items()):
            if isinstance(o, HList) and oid in st0.heap and isinstance(st0.heap[oid], HList) and o is not st0.heap[oid]:
                e = self.list_elem(o)
                self.st.heap[oid] = HList(None, e, dims.sym("[len%s]" % oid), o.kind)

    def track_lists(self, beg, listlens):
        for oid, o in self.st.heap.items():
            if not isinstance(o, HList):
                continue
            b = beg.heap.get(oid)
            if not isinstance(b, HList) or b is o:
                continue
            d = dims.sub(o.length, b.length) if o.length is not None and b.length is not None else None
            d = d if isinstance(d, int) else None
            if oid in listlens and listlens[oid] != d:
                d = None
            listlens[oid] = d

    def finish_lists(self, st0, listlens, length):
        for oid, d in listlens.items():
            o = self.st.heap.get(oid)
            b = st0.heap.get(oid)
            if not isinstance(o, HList) or not isinstance(b, HList):
                continue
            e = self.list_elem(o)
            L = None
            if d is not None and b.length is not None and length is not None:
                L = dims.add(b.length, dims.mul(d, length))
            if d == 0 and o.items is not None and b.items is not None and len(o.items) == len(b.items):
                continue
            if b.items is not None and b.items:
                for x in b.items:
                    e = self.join(e, x)
            self.st.heap[oid] = HList(None, e, L, o.kind)

    def s_While(self, s):
        f = self.frames[-1]
        lp = {"brk": [], "cont": []}
        f.loops.append(lp)
        savepc, savecond, savectx = self.pc, self.cond, self.ctx
        outs = []
        try:
            n = 0
            abstract = False
            cur = None
            while True:
                n += 1
                self.ctx = savectx
                try:
                    alts, cd = self.split_test(s.test)
                except Stop:
                    break
                self.pc = self.pc | cd
                falses = [st for t, st in alts if not t]
                trues = [st for t, st in alts if t]
                outs.extend(falses)
                if not trues:
                    break
                if falses or lp["brk"]:
                    abstract = True
                self.st = trues[0]
                if abstract or n > 60:
                    self.cond = savecond + 1
                    if cur is not None:
                        nxt = self.join_states([cur, self.st])
                        if self.same_state(nxt, cur) or n > 70 + 5:
                            break
                        cur = nxt
                    else:
                        cur = self.st.fork()
                    if n > 8 and n < 60 and not falses and not lp["brk"]:
                        pass
                    elif n > 8:
                        if n > 14:
                            break
                    self.st = cur.fork()
                    self.ctx = self._id(id(s), "abs")
                else:
                    self.ctx = self._id(id(s), "it", n)
                if not self.run_body(s.body):
                    break
            if outs and s.orelse:
                self.st = self.join_states(outs)
                outs = [self.st] if self.exec_block(s.orelse) else []
            outs = outs + lp["brk"]
        finally:
            self.pc, self.cond, self.ctx = savepc, savecond, savectx
            f.loops.pop()
        if not outs:
            return False
        self.st = self.join_states(outs)
        return True

    def s_Match(self, s):
        self.unknown("stmt:Match")
        return True

    # ---------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown("expr:" + type(e).__name__)
            return Top(hint=type(e).__name__)
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        sn, ss = self.node, self._sub
        self.node, self._sub = e, 0
        try:
            return m(e)
        finally:
            self.node, self._sub = sn, ss

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, self.wpc(v))
        return v

    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, e.attr)

    def e_Tuple(self, e):
        return self._seq(e.elts, "tuple")

    def e_List(self, e):
        return self._seq(e.elts, "list")

    def e_Set(self, e):
        return self._seq(e.elts, "set")

    def _seq(self, elts, kind):
        items, unk = [], None
        length = 0
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                k, it, ln = self.P.iter_items(v)
                if k == "known":
                    items.extend(it)
                    length = dims.add(length, len(it))
                else:
                    unk = self.join(unk, it)
                    items.append(None)
                    length = dims.add(length, ln)
            else:
                items.append(self.eval(x))
                length = dims.add(length, 1)
        if any(i is None for i in items):
            el = unk
            for i in items:
                el = self.join(el, i)
            if kind == "tuple":
                return Tup(None, el, length)
            return self.new_list(None, el, length, kind)
        if kind == "tuple":
            return Tup(items)
        return self.new_list(items, kind=kind)

    def e_Dict(self, e):
        known, rest = {}, None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                o = self.obj(d) if isinstance(d, Ref) else None
                if isinstance(o, HDict):
                    known.update(o.known)
                    rest = o.rest or rest
                else:
                    rest = (Top(self.deps(d)), Top(self.deps(d), self.gdeps(d), self.bases(d)))
                continue
            kv = self.eval(k)
            vv = self.eval(v)
            kk = self.P.hashkey(kv)
            if kk is not None:
                known[kk] = vv
            else:
                rest = (kv, vv) if rest is None else (self.join(rest[0], kv), self.join(rest[1], vv))
        return self.new_dict(known, rest)

    def e_JoinedStr(self, e):
        parts, d = [], EMPTY
        ok = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                v = self.eval(x.value)
                d = d | self.deps(v)
                if isinstance(v, Sc) and v.v is not UNK and v.kind in ("str", "int", "bool", "none") and not isinstance(v.v, Dim) and x.format_spec is None:
                    parts.append(repr(v.v) if x.conversion == 114 else str(v.v))
                else:
                    ok = False
        return Sc("str", "".join(parts) if ok else UNK, d)

    def e_FormattedValue(self, e):
        v = self.eval(e.value)
        return Sc("str", UNK, self.deps(v))

    def e_Lambda(self, e):
        return self.make_fn(e)

    def e_IfExp(self, e):
        alts, cd = self.split_test(e.test)
        outs, vals = [], []
        savecond, savepc = self.cond, self.pc
        for t, st in alts:
            self.st = st
            self.cond = savecond + (len(alts) > 1)
            self.pc = savepc | cd
            try:
                v = self.eval(e.body if t else e.orelse)
            except Stop:
                continue
            outs.append(self.st)
            vals.append(v)
        self.cond, self.pc = savecond, savepc
        if not outs:
            raise Stop()
        self.st = self.join_paths(outs)
        return self.adddeps(self.join_values(vals), cd)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals, outs = [], []
        cur = self.st
        cd = EMPTY
        savecond = self.cond
        for i, x in enumerate(e.values):
            self.st = cur
            last = i == len(e.values) - 1
            try:
                v = self.eval(x)
            except Stop:
                cur = None
                break
            v = self.adddeps(v, cd)
            if last:
                vals.append(v)
                outs.append(self.st)
                break
            t = self.truth(v)
            d = ctl(self.deps(v))
            if t is (not isand):
                vals.append(v)
                outs.append(self.st)
                break
            cd = cd | d
            if t is isand:
                cur = self.st
                continue
            # unknown
            base = self.st
            self.st = base.fork()
            vv = v
            if isinstance(v, Un):
                ms = [m for m in v.ms if self.P.truth_pure(m) is not isand]
                vv = self.mkun(ms) if ms else v
            if self.refine(x, not isand):
                vals.append(vv)
                outs.append(self.st)
            self.st = base.fork()
            self.cond = savecond + 1
            if not self.refine(x, isand):
                cur = None
                break
            cur = self.st
        self.cond = savecond
        if not outs:
            raise Stop()
        self.st = self.join_paths(outs)
        return self.adddeps(self.join_values(vals), cd)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(v, Un):
            return self.branch([lambda m=m: self.unop(op, m) for m in v.ms])
        if isinstance(op, ast.Not):
            t = self.truth(v)
            return Sc("bool", UNK if t is None else (not t), self.deps(v))
        if isinstance(v, Tn):
            return self.T.call({ast.USub: "neg", ast.Invert: "bitwise_not", ast.UAdd: "positive"}[type(op)], [v], {})
        if isinstance(v, Sc):
            if v.v is not UNK:
                try:
                    if isinstance(v.v, Dim):
                        return Sc(v.kind, dims.neg(v.v) if isinstance(op, ast.USub) else UNK, v.deps)
                    r = {ast.USub: operator.neg, ast.Invert: operator.invert, ast.UAdd: operator.pos}[type(op)](v.v)
                    return _set(const(r), deps=v.deps)
                except Exception:
                    pass
            return Sc(v.kind if v.kind != "bool" else "int", UNK, v.deps)
        return Top(self.deps(v), self.gdeps(v))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Un):
            return self.branch([lambda m=m: self.binop(op, m, b) for m in a.ms])
        if isinstance(b, Un):
            return self.branch([lambda m=m: self.binop(op, a, m) for m in b.ms])
        if isinstance(a, Tn) or isinstance(b, Tn):
            if isinstance(a, (Tn, Sc)) and isinstance(b, (Tn, Sc)):
                return self.T.call(_BINNAME[type(op)], [a, b], {})
            if isinstance(a, Ref) and isinstance(self.obj(a), HInst) or isinstance(b, Ref) and isinstance(self.obj(b), HInst):
                r = self.dunder(op, a, b)
                if r is not None:
                    return r
            if isinstance(a, (Tup, Ref)) or isinstance(b, (Tup, Ref)):
                return self.T.call(_BINNAME[type(op)], [a, b], {})
        if isinstance(a, Sc) and isinstance(b, Sc):
            return self.scalar_op(op, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            d = a.deps | b.deps
            cls = "Size" if a.cls == "Size" and b.cls == "Size" else None
            if a.items is not None and b.items is not None:
                return Tup(a.items + b.items, cls=cls, deps=d)
            return Tup(None, self.join(self.tup_elem(a), self.tup_elem(b)), dims.add(a.length, b.length), cls=cls, deps=d)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Sc) and y.kind in ("int", "bool", "any"):
                    if isinstance(x, Tup):
                        if x.items is not None and isinstance(y.v, int) and y.v is not UNK:
                            return Tup(x.items * int(y.v), deps=x.deps | y.deps)
                        return Tup(None, self.tup_elem(x), dims.mul(x.length, dimof(y)), deps=x.deps | y.deps)
                    if isinstance(x, Ref) and isinstance(self.obj(x), HList):
                        o = self.obj(x)
                        if o.items is not None and y.v is not UNK and isinstance(y.v, int) and y.v * len(o.items) < 400:
                            return self.new_list(o.items * int(y.v))
                        return self.new_list(None, self.list_elem(o), dims.mul(o.length, dimof(y)))
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if isinstance(oa, HList) and isinstance(ob, HList) and isinstance(op, ast.Add):
                if oa.items is not None and ob.items is not None:
                    return self.new_list(oa.items + ob.items)
                return self.new_list(None, self.join(self.list_elem(oa), self.list_elem(ob)), dims.add(oa.length, ob.length))
            if isinstance(oa, HList) and isinstance(ob, HList) and oa.kind == "set":
                return self.new_list(None, self.join(self.list_elem(oa), self.list_elem(ob)), None, "set")
        if isinstance(a, Sc) and a.kind == "str" and isinstance(op, ast.Mod):
            return Sc("str", UNK, a.deps | self.deps(b))
        r = self.dunder(op, a, b)
        if r is not None:
            return r
        return Top(self.deps(a) | self.deps(b), self.gdeps(a) | self.gdeps(b), EMPTY, "binop")

    def dunder(self, op, a, b):
        nm = _DUNDER.get(type(op))
        if nm is None:
            return None
        for x, y, pre in ((a, b, ""), (b, a, "r")):
            o = self.obj(x) if isinstance(x, Ref) else None
            if isinstance(o, HInst) and isinstance(o.cls, ClassInfo):
                m = self.class_attr(o.cls, f"__{pre}{nm}__")
                if m is not None:
                    return self.call(Bound(x, m[1]), [y], {})
        return None

    def scalar_op(self, op, a, b):
        d = a.deps | b.deps
        num = ("int", "float", "bool")
        if a.v is not UNK and b.v is not UNK and not isinstance(a.v, Dim) and not isinstance(b.v, Dim) and a.kind in num + ("str", "bytes") and b.kind in num + ("str", "bytes", "none"):
            try:
                if isinstance(op, ast.Pow) and abs(b.v) > 64:
                    raise OverflowError
                r = _BIN[type(op)](a.v, b.v)
                return _set(const(r), deps=d)
            except TypeError:
                if "none" in (a.kind, b.kind) or a.kind != b.kind:
                    if isinstance(op, ast.Mod) and a.kind == "str":
                        return Sc("str", UNK, d)
                    self.do_raise("TypeError")
                return Top(d)
            except Exception:
                return Sc("float", UNK, d)
        if "none" in (a.kind, b.kind) and not (isinstance(op, ast.Mod) and a.kind == "str"):
            self.do_raise("TypeError")
        if a.kind in ("int", "bool") and b.kind in ("int", "bool"):
            x, y = dimof(a), dimof(b)
            if isinstance(op, ast.Add):
                return intv(dims.add(x, y), d)
            if isinstance(op, ast.Sub):
                return intv(dims.sub(x, y), d)
            if isinstance(op, ast.Mult):
                return intv(dims.mul(x, y), d)
            if isinstance(op, ast.FloorDiv):
                return intv(dims.floordiv(x, y), d)
            if isinstance(op, ast.Mod):
                return intv(dims.mod(x, y), d)
            if isinstance(op, ast.Pow) and isinstance(y, int) and 0 <= y <= 4 and x is not None:
                return intv(dims.prod([x] * y), d)
            if isinstance(op, ast.Div):
                return Sc("float", UNK, d)
            return Sc("int", UNK, d)
        if a.kind in num and b.kind in num:
            if isinstance(op, (ast.Sub, ast.Div)) and a.v is not UNK and b.v is not UNK and a.v == b.v and isinstance(a.v, Dim):
                return Sc("float", UNK, d)
            return Sc("float", UNK, d)
        if a.kind == "str":
            return Sc("str", UNK, d)
        return Sc("any", UNK, d)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            self.node = e
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                t1, t2 = self.truth(res), self.truth(c)
                t = False if (t1 is False or t2 is False) else (True if t1 and t2 else None)
                res = Sc("bool", UNK if t is None else t, self.deps(res) | self.deps(c))
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.P.is_(a, b)
            if t is not None and isinstance(op, ast.IsNot):
                t = not t
            return Sc("bool", UNK if t is None else t, meta(self.shallow(a)) | meta(self.shallow(b)))
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.P.contains(b, a)
            if t is not None and isinstance(op, ast.NotIn):
                t = not t
            return Sc("bool", UNK if t is None else t, self.deps(a) | self.shallow(b))
        if isinstance(a, Un):
            return self.branch([lambda m=m: self.compare(op, m, b) for m in a.ms])
        if isinstance(b, Un):
            return self.branch([lambda m=m: self.compare(op, a, m) for m in b.ms])
        if isinstance(a, Tn) or isinstance(b, Tn):
            if not (isinstance(a, Sc) and a.kind == "none") and not (isinstance(b, Sc) and b.kind == "none") and not isinstance(a, Tup) and not isinstance(b, Tup):
                r = self.T.call({ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)], [a, b], {})
                x, y = (self.T.scal(v) if isinstance(v, Tn) else (v.v if isinstance(v, Sc) and v.kind == "int" and v.v is not UNK else None) for v in (a, b))
                if isinstance(r, Tn) and x is not None and y is not None:
                    t = self.P.cmp(type(op), Sc("int", x), Sc("int", y))
                    if t is not None:
                        return _set(r, tags=r.tags | {("truth", t)})
                return r
        d = self.deps(a) | self.deps(b)
        t = self.P.cmp(type(op), a, b)
        return Sc("bool", UNK if t is None else t, d)

    def shallow(self, v):
        if isinstance(v, (Ref, Tup)):
            return v.deps
        return self.deps(v)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        return self.P.getitem(o, k)

    def e_Slice(self, e):
        return Sl(self.eval(e.lower) if e.lower else NONE, self.eval(e.upper) if e.upper else NONE, self.eval(e.step) if e.step else NONE)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value else NONE
        if self.frames[-1].cm is not None:
            self.frames[-1].cm.enter(self.wpc(v))
            return NONE
        self.frames[-1].yields.append(self.wpc(v))
        return Top(hint="yield")

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        k, it, ln = self.P.iter_items(v)
        if k == "known":
            self.frames[-1].yields.extend(it)
        elif it is not None:
            self.frames[-1].yields.append(it)
        return NONE

    def _comp(self, e, gens, leaf, add):
        """run comprehension; add(value, certain) accumulates. returns total length or None"""
        def rec(i, mult):
            if i == len(gens):
                add(leaf(), mult)
                return
            g = gens[i]
            it = self.eval(g.iter)
            self.comp_iter(it, g, lambda m: rec(i + 1, m), mult, e)
        rec(0, 1)

    def comp_iter(self, it, g, k, mult, node):
        if isinstance(it, Un):
            base = self.st
            outs = []
            for m in it.ms:
                self.st = base.fork()
                try:
                    self.comp_iter(m, g, k, None, node)
                    outs.append(self.st)
                except Stop:
                    pass
            if not outs:
                raise Stop()
            self.st = self.join_states(outs)
            return
        kind, items, length = self.P.iter_items(it)
        savectx, savecond, savepc = self.ctx, self.cond, self.pc

        def one(x, m):
            self.assign(g.target, x)
            states = [self.st]
            for c in g.ifs:
                alts, cd = self.split_test(c)
                tr = [s for t, s in alts if t]
                fa = [s for t, s in alts if not t]
                self.pc = self.pc | cd
                if not tr:
                    return
                if fa:
                    m = None
                    self.cond += 1
                self.st = tr[0]
            k(m)

        try:
            if kind == "known" and (len(items) <= UNROLL or len(items) <= 400 and all(isinstance(x, Sc) and x.kind == "str" and x.v is not UNK for x in items)):
                for i, x in enumerate(items):
                    self.ctx = self._idraw((savectx, id(node), id(g), "it", i))
                    one(x, mult if mult == 1 else mult)
                    self.pc, self.cond = savepc, savecond
            else:
                el = items
                if kind == "known":
                    el = None
                    for x in items:
                        el = self.join(el, x)
                    length = len(items)
                if el is None and length == 0:
                    return
                self.ctx = self._idraw((savectx, id(node), id(g), "abs"))
                self.pc = self.pc | ctl(it.deps)
                one(el if el is not None else Top(), dims.mul(mult, length) if mult is not None and length is not None else None)
        finally:
            self.ctx, self.cond, self.pc = savectx, savecond, savepc

    def _enter_comp(self):
        f = self.frames[-1]
        oid = self.fresh_id("f")
        nf = Frame(oid, f.fn, f.mod)
        nf.pc = f.pc
        par = f.oid
        self.st.heap[oid] = HFrame({}, par)
        self.frames.append(nf)

    def _listcomp(self, e, kind):
        acc = {"items": [], "elem": None, "len": 0, "known": True}

        def add(v, mult):
            v = self.wpc(v)
            if mult == 1:
                acc["items"].append(v)
            else:
                acc["known"] = False
            acc["elem"] = self.join(acc["elem"], v)
            acc["len"] = dims.add(acc["len"], mult) if mult is not None and acc["len"] is not None else None
        self._enter_comp()
        try:
            self._comp(e, e.generators, lambda: self.eval(e.elt), add)
        finally:
            self.frames.pop()
        if acc["known"]:
            return ("known", acc["items"], len(acc["items"]))
        return ("unk", acc["elem"], acc["len"])

    def e_ListComp(self, e):
        k, it, ln = self._listcomp(e, "list")
        return self.new_list(it if k == "known" else None, None if k == "known" else it, ln)

    def e_SetComp(self, e):
        k, it, ln = self._listcomp(e, "set")
        el = it
        if k == "known":
            el = None
            for i in it:
                el = self.join(el, i)
        return self.new_list(None, el, None, "set")

    def e_GeneratorExp(self, e):
        k, it, ln = self._listcomp(e, "gen")
        return self.new_list(it if k == "known" else None, None if k == "known" else it, ln, "gen")

    def e_DictComp(self, e):
        acc = {"known": {}, "rest": None}

        def add(kv, mult):
            k, v = kv
            kk = self.P.hashkey(k)
            v = self.wpc(v)
            if kk is not None and mult == 1:
                acc["known"][kk] = v
            elif kk is not None:
                acc["known"][kk] = v
            else:
                r = acc["rest"]
                acc["rest"] = (k, v) if r is None else (self.join(r[0], k), self.join(r[1], v))
        self._enter_comp()
        try:
            self._comp(e, e.generators, lambda: (self.eval(e.key), self.eval(e.value)), add)
        finally:
            self.frames.pop()
        return self.new_dict(acc["known"], acc["rest"])

    # ---------------------------------------------------------------- attributes
    def class_attr(self, info, name, after=None):
        """(kind, val, kinds) of a class attribute through the MRO"""
        mro = info.mro()
        if after is not None:
            i = next((j for j, c in enumerate(mro) if c is after), -1)
            mro = mro[i + 1:]
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c.attrs[name]
        return None

    def getattr(self, o, name):
        if isinstance(o, Un):
            outs = []
            for m in o.ms:
                if isinstance(m, Sc) and m.kind == "none":
                    continue
                outs.append(m)
            if not outs:
                self.do_raise("AttributeError")
            if len(outs) == 1:
                return self.getattr(outs[0], name)
            return self.branch([lambda m=m: self.getattr(m, name) for m in outs])
        if isinstance(o, Lazy):
            o = self.force(o)
        if isinstance(o, Tn):
            return self.T.attr(o, name)
        if isinstance(o, Ref):
            return self.ref_attr(o, name)
        if isinstance(o, Mod):
            m = self.module(o.name)
            if m is None:
                return Ext(o.name + "." + name)
            try:
                return self.mod_attr(m, name)
            except KeyError:
                self.unknown(f"attr:{o.name}.{name}")
                return Top(hint=f"{o.name}.{name}")
        if isinstance(o, Ext):
            return self.P.ext_attr(o, name)
        if isinstance(o, Cls):
            return self.cls_getattr(o, name)
        if isinstance(o, Super):
            a = self.class_attr(o.inst_cls if hasattr(o, "inst_cls") else self.inst_class(o.inst), name, o.after)
            if a is not None:
                kind, v, kinds = a
                if kind == "method":
                    if kinds and "property" in kinds:
                        return self.call(v, [o.inst], {})
                    if kinds and "staticmethod" in kinds:
                        return v
                    return Bound(o.inst, v)
                return v
            if isinstance(o.inst, Cls):
                return Bound(o.inst, "cls:" + name)
            return Bound(o.inst, "ext:" + name)
        if isinstance(o, Top):
            if name in ("shape", "ndim", "device", "dtype", "is_cuda", "requires_grad"):
                return Top(meta(o.deps), EMPTY, EMPTY, "." + name)
            return Top(o.deps, o.gdeps, o.base, "." + name)
        return self.P.attr(o, name)

    def inst_class(self, v):
        if isinstance(v, Cls):
            return v.info
        if isinstance(v, Tup):
            return v.cls
        return self.obj(v).cls

    def cls_getattr(self, o, name):
        info = o.info
        if name == "__name__" or name == "__qualname__":
            return const(info.name)
        if name == "__mro__":
            return Tup([Cls(c) if isinstance(c, ClassInfo) else c for c in info.mro()])
        a = self.class_attr(info, name)
        if a is not None:
            kind, v, kinds = a
            if kind == "method":
                if "classmethod" in kinds:
                    return Bound(o, v)
                return v
            if info.enum and not name.startswith("_"):
                if any(isinstance(e, Ext) and e.name == "enum.IntEnum" for e in info.ext_bases()) and isinstance(v, Sc) and v.kind == "int":
                    return v
                return Sc("enum", f"{info.name}.{name}")
            return self.force(v) if isinstance(v, Lazy) else v
        if name == "apply" and info.has_base("Function"):
            return Bound(o, "autograd_apply")
        if name == "__doc__":
            return Sc("str", UNK)
        if name in ("__dataclass_fields__", "__annotations__", "__members__", "__dict__"):
            return Top(hint=name)
        if info.ext_bases() or info.namedtuple:
            return Bound(o, "cls:" + name)
        return Bound(o, "cls:" + name)

    def ref_attr(self, r, name):
        o = self.get(r.oid)
        if isinstance(o, HInst):
            if name in o.attrs:
                v = o.attrs[name]
                return self.adddeps(v, r.deps) if r.deps else v
            if isinstance(o.cls, str):
                return self.P.extinst_attr(r, o, name)
            if name == "__class__":
                return Cls(o.cls)
            if name == "__dict__":
                return self.new(HDict(o.attrs))
            a = self.class_attr(o.cls, name)
            if a is not None:
                kind, v, kinds = a
                if kind == "method":
                    if kinds and ("property" in kinds or "cached_property" in kinds):
                        return self.call(v, [r], {})
                    if kinds and "staticmethod" in kinds:
                        return v
                    if kinds and "classmethod" in kinds:
                        return Bound(Cls(o.cls), v)
                    if isinstance(v, Fn):
                        return Bound(r, v)
                    return v
                if isinstance(v, Fn):
                    return Bound(r, v)
                return v
            ga = self.class_attr(o.cls, "__getattr__")
            if ga is not None:
                return self.call(Bound(r, ga[1]), [const(name)], {})
            eb = o.cls.ext_bases()
            if eb:
                v = self.P.extbase_attr(r, o, eb, name)
                if v is not None:
                    return v
                if any(e.name == "torch.nn.Module" for e in eb if isinstance(e, Ext)) and len(eb) <= 1 and not o.extra:
                    self.do_raise("AttributeError")
                return Bound(r, "ext:" + name)
            if name in ("__init__", "__post_init__", "__str__", "__repr__", "__hash__", "__eq__"):
                return Bound(r, "ext:" + name)
            if o.extra == "open":
                return Top(hint="openattr:" + name)
            self.do_raise("AttributeError")
        return self.P.container_attr(r, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Un):
            ms = [m for m in o.ms if not (isinstance(m, Sc) and m.kind == "none")]
            if len(ms) == 1:
                return self.setattr(ms[0], name, v)
            for m in ms:
                ob = self.obj(m) if isinstance(m, Ref) else None
                if isinstance(ob, HInst):
                    na = dict(ob.attrs)
                    na[name] = self.join(na.get(name), v)
                    self.st.heap[m.oid] = HInst(ob.cls, na, ob.extra)
            return
        if isinstance(o, Ref):
            ob = self.get(o.oid)
            if isinstance(ob, HInst):
                if isinstance(ob.cls, ClassInfo):
                    st = self.class_attr(ob.cls, "%set%" + name)
                    if st is not None:
                        self.call(Bound(o, st[1]), [v], {})
                        return
                    sa = self.class_attr(ob.cls, "__setattr__")
                    if sa is not None and not any(f.fn is not None and f.fn.node is sa[1].node for f in self.frames):
                        self.call(Bound(o, sa[1]), [const(name), v], {})
                        return
                na = dict(ob.attrs)
                na[name] = v
                self.st.heap[o.oid] = HInst(ob.cls, na, ob.extra)
                self.note_attr_write(o, name, v)
                return
        if isinstance(o, Tn):
            if name in ("data",):
                self.T.write(o, [v])
                return
            if name == "requires_grad":
                return
            return
        if isinstance(o, Cls):
            self.event("class_attr_write", cls=o.info.qual, attr=name)
            a = o.info.attrs
            return

    def note_attr_write(self, ref, name, v):
        lab = self.in_oids.get(ref.oid)
        if lab is not None:
            self.event("attr_write", obj=lab, attr=name)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e)
        fn = self.eval(e.func)
        args, kw, sargs, skw = [], {}, None, None
        if isinstance(fn, Ext) and fn.name == "itertools.chain" and len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
            fn, args = Ext("itertools.chain.from_iterable"), [self.eval(e.args[0].value)]
            self.node, self._sub = e, 0
            return self.call(fn, args, kw, sargs, skw)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                kind, items, ln = self.P.iter_items(v)
                if kind == "known":
                    args.extend(items)
                else:
                    sargs = self.join(sargs, items if items is not None else Top())
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                for m in (v.ms if isinstance(v, Un) else [v]):
                    o = self.obj(m) if isinstance(m, Ref) else None
                    if isinstance(o, HDict):
                        for kk, vv in o.known.items():
                            if isinstance(kk, str):
                                kw[kk] = vv
                        if o.rest:
                            skw = self.join(skw, o.rest[1])
                    elif isinstance(m, Sc) and m.kind == "none":
                        pass
                    elif isinstance(o, HInst) and ("%dict" in o.attrs or isinstance(o.cls, ClassInfo) and o.cls.has_base("Mapping")):
                        d = self.obj(o.attrs["%dict"]) if "%dict" in o.attrs else None
                        ks = list(d.known) if d is not None and not d.rest else [x.v for x in self.P.iter_items(m)[1]] if d is None and self.P.iter_items(m)[0] == "known" else None
                        if ks is None:
                            skw = self.join(skw, Top(self.deps(m), self.gdeps(m), self.bases(m), "**"))
                        for kk in ks or []:
                            kw[kk] = self.P.getitem(m, const(kk))
                    else:
                        skw = self.join(skw, Top(self.deps(m), self.gdeps(m), self.bases(m), "**"))
            else:
                kw[k.arg] = v
        self.node = e
        self._sub = 0
        return self.call(fn, args, kw, sargs, skw)

    def make_super(self, e):
        if e.args:
            a = [self.eval(x) for x in e.args]
            return Super(a[1], a[0].info if isinstance(a[0], Cls) else None)
        for f in reversed(self.frames):
            if f.fn is not None and f.fn.cls is not None:
                node = f.fn.node
                first = (node.args.posonlyargs + node.args.args)[0].arg
                oid = f.oid
                inst = self.get(oid).vars.get(first)
                if inst is not None:
                    return Super(inst, f.fn.cls)
            if f.fn is not None and f.fn.cls is None:
                continue
        return Top(hint="super")

    def call_method(self, o, name, args, kw=None):
        return self.call(self.getattr(o, name), args, kw or {})

    def call(self, fn, args, kw, sargs=None, skw=None):
        if isinstance(fn, Lazy):
            fn = self.force(fn)
        if isinstance(fn, Un):
            ms = [m for m in fn.ms if not (isinstance(m, Sc) and m.kind == "none")]
            return self.branch([lambda m=m: self.call(m, args, kw, sargs, skw) for m in ms])
        if isinstance(fn, (Fn, Bound, Partial, Cls, Ext)) and fn.deps:
            # which function is called depends on what selected it
            save, d = self.pc, fn.deps
            self.pc = save | d
            try:
                return self.adddeps(self.call(_set(fn, deps=EMPTY), args, kw, sargs, skw), d)
            finally:
                self.pc = save
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw, sargs, skw)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Fn):
                return self.call_fn(fn.fn, [fn.self_] + list(args), kw, sargs, skw)
            if isinstance(fn.fn, Val):
                return self.call(fn.fn, args, kw, sargs, skw)
            return self.P.call_bound(fn, args, kw, sargs, skw)
        if isinstance(fn, Partial):
            k2 = dict(fn.kw)
            k2.update(kw)
            return self.call(fn.fn, list(fn.args) + list(args), k2, sargs, skw)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw, sargs, skw)
        if isinstance(fn, Ext):
            return self.P.call_ext(fn, args, kw, sargs, skw)
        if isinstance(fn, Ref):
            o = self.obj(fn)
            if isinstance(o, HInst):
                if isinstance(o.cls, ClassInfo):
                    m = self.class_attr(o.cls, "__call__")
                    if m is not None:
                        return self.call(Bound(fn, m[1]), args, kw, sargs, skw)
                    m = self.class_attr(o.cls, "forward")
                    if m is not None and o.cls.ext_bases():
                        return self.call(Bound(fn, m[1]), args, kw, sargs, skw)
                else:
                    return self.P.call_extinst(fn, o, args, kw, sargs, skw)
        return self.opaque(fn, args, kw, sargs, skw)

    def opaque(self, fn, args, kw, sargs=None, skw=None, hint=""):
        """result of a call we know nothing about: may depend on everything it was given"""
        d = self.deps(fn)
        g = self.gdeps(fn)
        for v in list(args) + list(kw.values()) + [sargs, skw]:
            if v is not None:
                d = d | self.deps(v)
                g = g | self.gdeps(v)
        if self.nograd:
            g = EMPTY
        self.unknown("call:" + (hint or repr(fn)[:60]))
        return Top(d, g, EMPTY, hint or "call")

    def instantiate(self, c, args, kw, sargs=None, skw=None):
        info = c.info
        if info.enum:
            a = args[0] if args else None
            if isinstance(a, Sc) and a.kind == "enum":
                return a
            if isinstance(a, Un):
                return self.branch([lambda m=m: self.instantiate(c, [m], kw) for m in a.ms])
            if isinstance(a, Sc) and a.v is not UNK:
                mem = {n: v[1] for n, v in info.attrs.items() if isinstance(v[1], Sc)}
                for n, v in mem.items():
                    if v.v is not UNK and v.v == a.v and v.kind == a.kind:
                        return Sc("enum", f"{info.name}.{n}", a.deps)
                if mem and all(v.v is not UNK for v in mem.values()):
                    self.do_raise("ValueError", "enum")
            return Sc("enum", UNK, self.deps(args[0]) if args else EMPTY)
        if info.namedtuple:
            fields, defaults = [], {}
            for k in reversed([x for x in info.mro() if isinstance(x, ClassInfo)]):
                for n, _ in k.ann:
                    if n not in fields:
                        fields.append(n)
                    if n in k.attrs:
                        defaults[n] = k.attrs[n][1]
            items = []
            for i, n in enumerate(fields):
                if i < len(args):
                    items.append(args[i])
                elif n in kw:
                    items.append(kw[n])
                elif sargs is not None or skw is not None:
                    items.append(sargs or skw)
                elif n in defaults:
                    items.append(defaults[n])
                else:
                    self.do_raise("TypeError")
            return Tup(items, cls=info, fields=tuple(fields))
        r = self.new(HInst(info, {}))
        if any(isinstance(e, Ext) and e.name == "torch.nn.Module" for e in info.ext_bases()):
            self.st.heap[r.oid] = HInst(info, {"training": Sc("bool", UNK, frozenset(["training"]))})
        init = self.class_attr(info, "__init__")
        if init is not None and isinstance(init[1], Fn):
            self.call_fn(init[1], [r] + list(args), kw, sargs, skw)
            return r
        if init is not None and isinstance(init[1], Partial):
            pf = init[1]
            self.call(pf.fn, [r] + list(pf.args) + list(args), {**dict(pf.kw), **kw}, sargs, skw)
            return r
        if info.dataclass or any(isinstance(k, ClassInfo) and k.dataclass for k in info.mro()) or info.has_base("Configurable") or info.has_base("ReplaceableBase"):
            self.dataclass_init(r, info, args, kw, sargs, skw)
            return r
        new = self.class_attr(info, "__new__")
        if args or kw:
            ob = self.get(r.oid)
            if info.ext_bases():
                self.st.heap[r.oid] = HInst(info, {**ob.attrs, "%args": Tup(list(args) + list(kw.values()))}, "open")
        return r

    def dataclass_fields(self, info):
        fields = []
        seen = set()
        for k in reversed([x for x in info.mro() if isinstance(x, ClassInfo)]):
            for n, ann in k.ann:
                if isinstance(ann, ast.Subscript) and getattr(ann.value, "id", getattr(ann.value, "attr", "")) == "ClassVar":
                    continue
                if n not in seen:
                    seen.add(n)
                    fields.append(n)
        return fields

    def dataclass_init(self, r, info, args, kw, sargs=None, skw=None):
        thunks = dict(self.C.fields(info)) if self.is_configurable(info) else {n: None for n in self.dataclass_fields(info)}
        fields = list(thunks)
        for n in kw:
            if n not in thunks:
                if not re.search("_args$", n) or not self.is_configurable(info):
                    self.do_raise("TypeError", "dataclass")
                ob = self.get(r.oid)
                self.st.heap[r.oid] = HInst(ob.cls, {**ob.attrs, n: kw[n]}, ob.extra)
        for i, n in enumerate(fields):
            if i < len(args):
                v = args[i]
            elif n in kw:
                v = kw[n]
            elif sargs is not None and i >= len(args):
                v = sargs
            else:
                v = thunks[n]() if thunks[n] is not None else self.field_default(info, n)
                if v is not None:
                    if skw is not None:
                        v = self.join(v, skw)
                elif skw is not None:
                    v = skw
                else:
                    self.do_raise("TypeError")
            ob = self.get(r.oid)
            self.st.heap[r.oid] = HInst(ob.cls, {**ob.attrs, n: v}, ob.extra)
        pi = self.class_attr(info, "__post_init__")
        if pi is not None:
            self.call(Bound(r, pi[1]), [], {})

    def is_configurable(self, info):
        return info.has_base("Configurable") or info.has_base("ReplaceableBase")

    def field_default(self, info, n):
        a = self.class_attr(info, n)
        if a is None or a[0] != "value":
            return None
        v = a[1]
        ob = self.obj(v) if isinstance(v, Ref) else None
        if isinstance(ob, HInst) and ob.cls == "dataclasses.field":
            if "default" in ob.attrs:
                return ob.attrs["default"]
            if "default_factory" in ob.attrs:
                return self.call(ob.attrs["default_factory"], [], {})
            return Top(hint="field")
        return v

    def call_fn(self, fn, args, kw, sargs=None, skw=None, cm=None):
        depth = len(self.frames)
        rec = sum(1 for f in self.frames if f.fn is not None and f.fn.node is fn.node)
        if depth > MAXDEPTH or rec > 6:
            return self.opaque(fn, args, kw, sargs, skw, "recursion:" + fn.qual)
        self.called[fn.qual] = self.called.get(fn.qual, 0) + 1
        if fn.qual in self.assume:
            return self.assume[fn.qual]
        if fn.qual in self.C.native and sargs is None and skw is None:
            v = self.C.native[fn.qual](list(args), kw)
            if v is not None:
                return v
        if cm is None and _is_generator(fn.node) and any((getattr(d, "attr", getattr(d, "id", "")) == "contextmanager") for d in fn.decos):
            # the body runs around the with block that enters it
            r = self.new(HInst("contextmanager", {"%args": Tup(list(args) + list(kw.values()))}))
            self.cms[r.oid] = (fn, list(args), dict(kw), sargs, skw)
            return r
        savectx, savenode, savesub = self.ctx, self.node, self._sub
        callsite = self.node
        calloc = self.loc() if self.frames else "entry"
        self.ctx = self._id(id(callsite), "call", id(fn.node))
        oid = f"f{self._id('frame')}"
        vars = self.bind(fn, args, kw, sargs, skw)
        if vars is None:
            self.ctx = savectx
            self.do_raise("TypeError", "bind")
        par = fn.frame
        if par is not None and par.startswith("m:"):
            pass
        self.st.heap[oid] = HFrame(vars, par)
        f = Frame(oid, fn, fn.mod)
        f.cm = cm
        self.frames.append(f)
        self.stack.append((fn.qual, calloc))
        savepc, savenograd = self.pc, self.nograd
        for d in fn.decos:
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
            if nm in ("no_grad", "inference_mode"):
                self.nograd += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                f.rets.append((self.st, self.wpc(v), fn.node, self.cond))
            elif self.exec_block(fn.node.body):
                f.rets.append((self.st, self.wpc(NONE), fn.node, self.cond))
        except Stop:
            pass
        finally:
            self.frames.pop()
            self.stack.pop()
            self.pc, self.nograd = savepc, savenograd
            self.ctx, self.node, self._sub = savectx, savenode, savesub
        if cm is not None:
            cm.finish(f)
        self.last_rets = f.rets
        if not f.rets:
            raise Stop()
        st = self.join_paths([r[0] for r in f.rets])
        v = self.join_values([r[1] for r in f.rets])
        self.st = st
        if depth > 0 and oid in self.st.heap and not _has_closure(fn.node):
            del self.st.heap[oid]
        if f.pc and savepc is not None and False:
            pass
        if _is_generator(fn.node):
            el = None
            for y in f.yields:
                el = self.join(el, y)
            if cm is not None:
                return NONE
            if el is not None and len(f.yields) >= 1 and not _yield_in_loop(fn.node):
                return self.new_list(f.yields, kind="gen")
            return self.new_list(None, el, None, "gen")
        return v

    def bind(self, fn, args, kw, sargs, skw):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(pos):
            if i < len(args):
                vars[n] = args[i]
                if n in kw:
                    return None
            elif n in kw:
                vars[n] = kw.pop(n)
            elif n in fn.defaults:
                v = fn.defaults[n]
                if sargs is not None:
                    v = self.join(v, sargs)
                if skw is not None:
                    v = self.join(v, skw)
                vars[n] = v
            elif sargs is not None or skw is not None:
                vars[n] = self.join(sargs, skw)
            else:
                return None
        extra = args[len(pos):]
        if a.vararg:
            if sargs is not None:
                e = sargs
                for x in extra:
                    e = self.join(e, x)
                vars[a.vararg.arg] = Tup(None, e, None)
            else:
                vars[a.vararg.arg] = Tup(extra)
        elif extra:
            return None
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw:
                vars[n] = kw.pop(n)
            elif n in fn.defaults:
                vars[n] = fn.defaults[n] if skw is None else self.join(fn.defaults[n], skw)
            elif skw is not None:
                vars[n] = skw
            else:
                return None
        if a.kwarg:
            vars[a.kwarg.arg] = self.new(HDict(kw, (Sc("str"), skw) if skw is not None else None), "k")
        elif kw:
            return None
        return vars


_esc_cache = {}


def _escapes(body):
    """does a block contain return/break/continue (not nested functions)"""
    k = id(body)
    r = _esc_cache.get(k)
    if r is None:
        r = False
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _esc_cache[k] = (r, body)
    else:
        r = r[0]
    return r


def _walk_own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


_gen_cache = {}


def _is_generator(node):
    r = _gen_cache.get(id(node))
    if r is None:
        r = (any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node)), node)
        _gen_cache[id(node)] = r
    return r[0]


def _yield_in_loop(node):
    for n in _walk_own(node):
        if isinstance(n, (ast.For, ast.While)):
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                return True
    return False


_clo_cache = {}


def _has_closure(node):
    r = _clo_cache.get(id(node))
    if r is None:
        r = (any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.ClassDef)) for n in ast.walk(node) if n is not node), node)
        _clo_cache[id(node)] = r
    return r[0]
