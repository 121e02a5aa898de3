"""Builds abstract inputs and runs API entries through the abstract interpreter."""
import sys

from . import dims
from .dims import sym
from .interp import AnalysisError, Budget, Interp, Stop
from .values import *
from .values import _set

sys.setrecursionlimit(20000)


# generic instance: batches under analysis are not empty (the empty case has its own entries)
NONEMPTY = {
    "pytorch3d.structures.meshes:Meshes.isempty": FALSE,
    "pytorch3d.structures.pointclouds:Pointclouds.isempty": FALSE,
    "pytorch3d.renderer.mesh.textures:TexturesBase.isempty": FALSE,
}


class Result:
    __slots__ = ("val", "events", "it", "stopped", "err", "rets", "st", "label")


class H:
    """One analysis context (a fresh abstract heap over shared module state)."""

    def __init__(self, repo=None, fdtype="float32", share=None):
        self.it = share if share is not None else Interp(repo)
        self.f = fdtype
        self.it.st.heap.clear()
        self.it.st.sd.clear()
        self.it.in_bases, self.it.in_oids = {}, {}
        self.it.events = []
        self.it.assume = dict(NONEMPTY)
        self.n = 0
        self.setup_events = []
        self.owned = []          # (label, value) pairs the caller keeps
        self.labels = set()
        self.floats = set()      # labels of floating point input tensors
        self.nconst = self.nlist = self.nopt = 0
        self.perturb = None      # (label, kind): one malformed input
        self.made = {}           # label -> (shape, dtype) of the tensors built
        self.sizes = {}          # degenerate run: size -> 0 or 1
        self.syms = {}           # sizes the entry uses

    def tweak(self, name, shape, dtype):
        """shape and dtype of the tensor called name, malformed if this run asks for it"""
        shape = [self.d(s) for s in shape]
        self.made.setdefault(name, (tuple(shape), dtype))
        if self.perturb is not None and self.perturb[0] == name:
            k = self.perturb[1]
            if k == "rank+":
                shape = shape + [sym("bad")]
            elif k == "rank-":
                shape = shape[:-1]
            elif k == "dtype":
                dtype = "int64" if dtype.startswith("float") else "float32"
            elif k.startswith("dim"):
                i = int(k[3:])
                shape[i] = 5 if isinstance(shape[i], int) else sym("bad")
        return shape, dtype

    def other(self, name, v):
        """the value called name, or something else in its place"""
        if self.perturb is not None and self.perturb[0] == name:
            k = self.perturb[1]
            if k == "notensor":
                return Sc("str", "malformed", v.deps)
            if k == "dev" and v.dev == "D":
                return _set(v, dev="E")
        return v

    # -- leaf values
    def d(self, x):
        if not isinstance(x, str):
            return x
        self.syms[x] = True
        v = self.sizes.get(x)
        return sym(x) if v is None else v

    def count(self, n):
        """number of elements of a batch given as a list"""
        self.syms["%n"] = True
        return self.sizes.get("%n", n)

    def degenerate(self, sizes):
        self.sizes = {k: v for k, v in sizes.items() if k != "%empty"}
        if sizes.get("%empty"):
            self.it.assume = {k: TRUE for k in NONEMPTY if "structures" in k}    # textures learn it from the meshes they belong to

    def T(self, name, *shape, dtype=None, dev="D", grad=True):
        """float tensor"""
        shape, dtype = self.tweak(name, shape, dtype or self.f)
        self.labels.add(name)
        if dtype.startswith("float"):
            self.floats.add(name)
        g = frozenset([name]) if grad and dtype.startswith("float") else EMPTY
        return self.other(name, self.strided(Tn([self.d(s) for s in shape], dtype, dev, frozenset([name]), g, frozenset(["in:" + name])), name))

    def I(self, name, *shape, dtype="int64", dev="D", nonneg=False):
        """integer tensor (nonneg: without the -1 that marks padding)"""
        shape, dtype = self.tweak(name, shape, dtype)
        self.labels.add(name)
        return self.other(name, self.strided(Tn([self.d(s) for s in shape], dtype, dev, frozenset([name]), EMPTY, frozenset(["in:" + name]), tags=frozenset(["nonneg"] if nonneg else [])), name))

    def strided(self, t, name):
        """a tensor of the caller may have any memory layout (a transposed or sliced view, say)"""
        if len(t.shape) < 2:
            return t
        return _set(t, tags=t.tags | {("lay", tuple(sym(f"[any {name} {i}]") for i in range(len(t.shape))))})

    def B(self, name, *shape, dev="D"):
        return self.I(name, *shape, dtype="bool", dev=dev)

    def NP(self, name, *shape, dtype="float64"):
        self.labels.add(name)
        return Tn([self.d(s) for s in shape], dtype, "cpu", frozenset([name]), EMPTY, frozenset(["in:" + name]), "np")

    def int(self, name, v=UNK):
        self.labels.add(name)
        return Sc("int", self.d(v) if v is not UNK else UNK, frozenset([name]))

    def size(self, name):
        self.labels.add(name)
        v = self.d(name)
        return Sc("int", v, frozenset([name]))

    def float(self, name, v=UNK):
        self.labels.add(name)
        return Sc("float", v, frozenset([name]))

    def bool(self, name, v=UNK):
        self.labels.add(name)
        return Sc("bool", v, frozenset([name]))

    def str(self, name, v=UNK):
        self.labels.add(name)
        return Sc("str", v, frozenset([name]))

    def dev(self, v="D"):
        return Sc("device", v)

    def c(self, v):
        if type(v) is int:
            self.nconst += 1
            name = f"const{self.nconst}"
            self.made.setdefault(name, "const")
            if self.perturb is not None and self.perturb[0] == name:
                v = {"neg": -7, "zero": 0, "big": 1000, "float": 1.5, "str": "malformed"}[self.perturb[1]]
        r = const(v)
        if isinstance(r, Sc) and r.kind in ("bool", "str", "int", "float"):
            self.nopt += 1
            self.labels.add(f"opt{self.nopt}")
            r = _set(r, deps=r.deps | {f"opt{self.nopt}"})
        return r

    def L(self, *items):
        self.n += 1
        self.nlist += 1
        name = f"list{self.nlist}"
        self.made.setdefault(name, "list")
        if self.perturb is not None and self.perturb[0] == name and items:
            k = self.perturb[1]
            items = items[:-1] if k == "short" else items + items[-1:] if k == "long" else items[:-1] + (NONE,)
        return self._mk(HList(items))

    def LN(self, elem, n="N"):
        """python list of n abstract elements"""
        return self._mk(HList(None, elem, self.d(n)))

    def dct(self, d):
        """python dict with constant keys"""
        return self._mk(HDict(dict(d)))

    def D(self, **kw):
        return self._mk(HDict({("str", k): v for k, v in kw.items()} if False else dict(kw)))

    def ext(self, cls, **attrs):
        """instance of a library class"""
        return self._mk(HInst(cls, attrs))

    def slice(self, lo, hi, step=None):
        return Sl(const(lo), const(hi), const(step))

    def tup(self, *items):
        return Tup(items)

    def _mk(self, o):
        self.n += 1
        oid = f"h{self.n}"
        self.it.st.heap[oid] = o
        return Ref(oid)

    # -- code
    def ref(self, path):
        """module:qualified.name -> abstract value"""
        modn, qual = path.split(":")
        it = self.it
        m = it.module(modn)
        if m is None:
            raise AnalysisError(f"module {modn} not found")
        parts = qual.split(".")
        try:
            v = it.mod_attr(m, parts[0])
        except KeyError:
            raise AnalysisError(f"{path} not found")
        for p in parts[1:]:
            v = it.getattr(v, p)
        return v

    def call(self, fn, *args, **kw):
        if isinstance(fn, str):
            fn = self.ref(fn)
        return self.site(lambda: self.it.call(fn, list(args), kw))

    def site(self, f):
        """every call made by the harness is its own allocation context"""
        it = self.it
        save = it.ctx, it._sub
        self.n += 1
        it.ctx = it._id("harness", self.n)
        try:
            return f()
        finally:
            it.ctx, it._sub = save

    def mod(self, fn, *args, **kw):
        """an nn.Module, moved to the device of the inputs"""
        o = self.call(fn, *args, **kw)
        return self.site(lambda: self.it.call_method(o, "to", [self.dev()], {}))

    def m(self, o, name, *args, **kw):
        return self.site(lambda: self.it.call_method(o, name, list(args), kw))

    def get(self, o, name):
        return self.it.getattr(o, name)

    def attr(self, o, name):
        """raw attribute of an instance"""
        return self.it.obj(o).attrs.get(name)

    def own(self, label, v):
        """everything reachable from v belongs to the caller from now on"""
        it = self.it
        seen = set()
        self.owned.append((label, v))

        def go(x, lab):
            if isinstance(x, (Tn, Top)):
                for b in x.base:
                    if not b.startswith("in:"):
                        it.in_bases.setdefault(b, lab)
            elif isinstance(x, Tup):
                for i in (x.items if x.items is not None else [x.elem]):
                    if i is not None:
                        go(i, lab)
            elif isinstance(x, Un):
                for i in x.ms:
                    go(i, lab)
            elif isinstance(x, Ref) and x.oid not in seen:
                seen.add(x.oid)
                if x.oid in it.gheap and x.oid not in it.st.heap:
                    return
                it.in_oids.setdefault(x.oid, lab)
                o = it.get(x.oid)
                if isinstance(o, HInst):
                    for k, c in o.attrs.items():
                        go(c, f"{lab}.{k}")
                else:
                    for c in it.children(o):
                        go(c, lab)
        go(v, label)
        return v

    def begin(self):
        """end of the input construction phase"""
        self.setup_events = self.it.events
        self.it.events = []
        self.it.cond = 0
        self.it.phase = 1
        self.it.raise_stack = [[]]

    def run(self, f):
        r = Result()
        it = self.it
        r.it, r.stopped, r.err, r.val = it, False, None, None
        try:
            r.val = f()
        except Stop:
            r.stopped = True
        r.events = it.events
        r.st = it.st
        return r


def show(h, v, depth=0):
    it = h.it
    if isinstance(v, (Tn, Top)):
        d, g = it.eff(v)
        return f"{v!r} d={sorted(d)} g={sorted(g)} b={sorted(v.base)[:3]}"
    if isinstance(v, Tup):
        if v.items is None:
            return f"tuple<{show(h, v.elem, depth + 1)} x {v.length}>"
        return "(" + (",\n" + "  " * (depth + 1)).join((f"{v.fields[i]}=" if v.fields else "") + show(h, x, depth + 1) for i, x in enumerate(v.items)) + ")"
    if isinstance(v, Un):
        return "Un[" + " | ".join(show(h, m, depth + 1) for m in v.ms) + "]"
    if isinstance(v, Sc):
        return f"{v!r} d={sorted(v.deps)}"
    if isinstance(v, Ref):
        o = it.get(v.oid)
        if depth > 3:
            return repr(o)[:100]
        if isinstance(o, HInst):
            n = o.cls if isinstance(o.cls, str) else o.cls.name
            return n + "{" + (",\n" + "  " * (depth + 1)).join(f"{k}={show(h, x, depth + 1)}" for k, x in o.attrs.items()) + "}"
        if isinstance(o, HList):
            if o.items is not None:
                return "[" + ", ".join(show(h, x, depth + 1) for x in o.items) + "]"
            return f"list<{show(h, o.elem, depth + 1) if o.elem is not None else None} x {o.length}>"
        if isinstance(o, HDict):
            return "dict{" + ", ".join(f"{k}: {show(h, x, depth + 1)}" for k, x in o.known.items()) + ("..." if o.rest else "") + "}"
    return repr(v)
