"""Python builtins, containers and standard-library models for the abstract interpreter."""
import ast
import functools
import math
import os

from . import dims
from .dims import Dim
from .values import *
from .values import _set
from . import interp as I

TORCH_DTYPES = {"float32": "float32", "float": "float32", "float64": "float64", "double": "float64", "float16": "float16", "half": "float16",
                "bfloat16": "bfloat16", "int64": "int64", "long": "int64", "int32": "int32", "int": "int32", "int16": "int16", "short": "int16",
                "int8": "int8", "uint8": "uint8", "bool": "bool", "complex64": "complex64", "complex128": "complex128"}
NP_DTYPES = {"float32", "float64", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "bool_", "float_", "int_", "single", "double", "intc"}
CONSTS = {"math.pi": const(math.pi), "math.inf": const(math.inf), "math.e": const(math.e), "math.nan": const(math.nan), "numpy.pi": const(math.pi),
          "numpy.inf": const(math.inf), "numpy.newaxis": NONE, "numpy.nan": const(math.nan), "typing.TYPE_CHECKING": FALSE, "torch.inf": const(math.inf), "torch.pi": const(math.pi),
          "sys.float_info.epsilon": const(2.2e-16), "pytorch3d._C.MAX_UINT": Sc("int"), "pytorch3d._C.EPS": Sc("float"), "pytorch3d._C.MAX_FLOAT": Sc("float"),
          "pytorch3d._C.MAX_INT": Sc("int"), "pytorch3d._C.MAX_USHORT": Sc("int"), "builtins.None": NONE, "builtins.NotImplemented": Sc("any"), "os.sep": const("/"), "sys.platform": Sc("str"),
          "builtins.__debug__": TRUE}
MODULE_METHODS = {"to", "parameters", "named_parameters", "register_buffer", "buffers", "named_buffers", "train", "eval", "state_dict", "load_state_dict", "add_module",
                  "cuda", "cpu", "children", "named_children", "modules", "named_modules", "requires_grad_", "zero_grad", "float", "double", "half", "apply", "register_parameter",
                  "register_forward_hook", "register_load_state_dict_pre_hook", "_register_load_state_dict_pre_hook", "register_forward_pre_hook", "__init__", "extra_repr", "type", "_apply",
                  "register_full_backward_hook", "_register_state_dict_hook", "register_state_dict_pre_hook", "share_memory", "_get_name", "__setattr__", "__repr__", "_load_from_state_dict", "__call__", "forward", "compile", "get_parameter"}
SEQ_ABCS = {"typing.Sequence", "collections.abc.Sequence", "typing.List", "typing.Tuple", "typing.Iterable", "collections.abc.Iterable", "collections.abc.Sized", "typing.Sized"}


@functools.lru_cache(None)
def tensor_attrs():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tensor_attrs.txt")) as f:
        return frozenset(f.read().split())


class PyOps:
    def __init__(self, it):
        self.it = it
        self.keyval = {}

    # ------------------------------------------------------------- externals
    def ext_const(self, d):
        if d in CONSTS:
            return CONSTS[d]
        if d.startswith("torch.") and d[6:] in TORCH_DTYPES:
            return Sc("dtype", TORCH_DTYPES[d[6:]])
        return Ext(d)

    def ext_attr(self, o, name):
        full = f"{o.name}.{name}"
        if name == "__name__":
            return const(o.name.split(".")[-1])
        if o.name == "sys" and name == "version_info":
            return Tup([const(3), const(12), const(3)])
        if o.name.startswith("pytorch3d._C") and full not in CONSTS:
            return Ext(full)
        v = self.ext_const(full)
        return self.it.adddeps(v, o.deps) if o.deps else v

    def close_file(self, v):
        o = self.it.obj(v)
        self.it.st.heap[v.oid] = HInst(o.cls, {**o.attrs, "closed": TRUE})

    # ------------------------------------------------------------- truth / comparison
    def truth_pure(self, v):
        return self.truth(v)

    def truth(self, v):
        it = self.it
        if isinstance(v, Sc):
            if v.kind == "none":
                return False
            if v.kind in ("dtype", "device", "enum", "ellipsis"):
                return True
            if v.v is UNK:
                return None
            if isinstance(v.v, Dim):
                lo = dims.lower(v.v)
                return True if lo is not None and lo > 0 else None
            return bool(v.v)
        if isinstance(v, Tn):
            if ("truth", True) in v.tags:
                return True
            if ("truth", False) in v.tags:
                return False
            if it.T.scal(v) is not None:
                return self.truth(intv(it.T.scal(v)))
            return None
        if isinstance(v, Tup):
            n = v.length
            if v.cls not in (None, "Size") and not isinstance(v.cls, str):
                return True
            return None if n is None else (n > 0 if isinstance(n, int) else self.truth(intv(n)))
        if isinstance(v, Un):
            ts = {self.truth(m) for m in v.ms}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(v, (Fn, Cls, Mod, Bound, Partial, Super, Ext)):
            return True
        if isinstance(v, Ref):
            o = it.obj(v)
            if isinstance(o, HList):
                n = o.length
                return None if n is None else (n > 0 if isinstance(n, int) else self.truth(intv(n)))
            if isinstance(o, HDict):
                if o.rest is None and not o.maybe:
                    return bool(o.known)
                return True if len(o.known) > len(o.maybe) else None
            if isinstance(o, HInst):
                if isinstance(o.cls, str):
                    return True if o.cls not in ("regex_match",) else None
                if it.class_attr(o.cls, "__bool__") or it.class_attr(o.cls, "__len__"):
                    return None
                return True
        return None

    def eq(self, a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.kind == "none" or b.kind == "none":
                if "any" in (a.kind, b.kind):
                    return None
                return a.kind == b.kind
            if a.v is UNK or b.v is UNK:
                return None
            num = ("int", "float", "bool")
            if a.kind in num and b.kind in num:
                if isinstance(a.v, Dim) or isinstance(b.v, Dim):
                    if isinstance(a.v, float) or isinstance(b.v, float):
                        return None
                    if dims.is_opaque(a.v) or dims.is_opaque(b.v):
                        return True if a.v == b.v else None
                    return dims.eq(a.v, b.v)
                return a.v == b.v
            if a.kind != b.kind:
                return False if "any" not in (a.kind, b.kind) else None
            return a.v == b.v
        if isinstance(a, Tup) and isinstance(b, Tup):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                r = True
                for x, y in zip(a.items, b.items):
                    t = self.eq(x, y)
                    if t is False:
                        return False
                    if t is None:
                        r = None
                return r
            return None
        if isinstance(a, Un) or isinstance(b, Un):
            ts = {self.eq(x, y) for x in (a.ms if isinstance(a, Un) else [a]) for y in (b.ms if isinstance(b, Un) else [b])}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(a, (Cls, Ext, Fn)) and isinstance(b, (Cls, Ext, Fn)):
            return a.key() == b.key()
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
            oa, ob = self.it.obj(a), self.it.obj(b)
            if isinstance(oa, HList) and isinstance(ob, HList):
                if oa.items is not None and ob.items is not None:
                    return self.eq(Tup(oa.items), Tup(ob.items))
                if dims.eq(oa.length, ob.length) is False and not dims.is_opaque(oa.length) and not dims.is_opaque(ob.length):
                    return False
            return None
        if isinstance(a, Sc) and a.kind == "none" or isinstance(b, Sc) and b.kind == "none":
            o = b if isinstance(a, Sc) and a.kind == "none" else a
            return None if isinstance(o, Top) else False
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if isinstance(a, Sc) and a.kind == "str" and isinstance(b, (Tup, Ref, Tn)) or isinstance(b, Sc) and b.kind == "str" and isinstance(a, (Tup, Ref)):
            return False
        return None

    def cmp(self, op, a, b):
        if op is ast.Eq:
            return self.eq(a, b)
        if op is ast.NotEq:
            t = self.eq(a, b)
            return None if t is None else not t
        if isinstance(a, Sc) and isinstance(b, Sc) and a.v is not UNK and b.v is not UNK:
            x, y = a.v, b.v
            if "none" in (a.kind, b.kind):
                self.it.do_raise("TypeError")
            if isinstance(x, Dim) or isinstance(y, Dim):
                if isinstance(x, float) or isinstance(y, float):
                    fx, fy = x, y
                    if isinstance(x, float) and math.isinf(x):
                        fx = 10 ** 30 if x > 0 else -10 ** 30
                    if isinstance(y, float) and math.isinf(y):
                        fy = 10 ** 30 if y > 0 else -10 ** 30
                    return None
                if op is ast.Lt:
                    return dims.lt(x, y)
                if op is ast.Gt:
                    return dims.lt(y, x)
                if op is ast.LtE:
                    t = dims.lt(y, x)
                    return None if t is None else not t
                if op is ast.GtE:
                    t = dims.lt(x, y)
                    return None if t is None else not t
            try:
                return I._CMP[op](x, y)
            except TypeError:
                return None
        if isinstance(a, Sc) and isinstance(b, Sc) and "none" in (a.kind, b.kind) and {a.kind, b.kind} & {"int", "float"}:
            self.it.do_raise("TypeError")
        if isinstance(a, Tup) and isinstance(b, Tup) and a.items is not None and b.items is not None and all(isinstance(x, Sc) and isinstance(x.v, int) for x in a.items + b.items):
            return I._CMP[op](tuple(x.v for x in a.items), tuple(x.v for x in b.items))
        return None

    def is_(self, a, b):
        if isinstance(a, Un) or isinstance(b, Un):
            ts = {self.is_(x, y) for x in (a.ms if isinstance(a, Un) else [a]) for y in (b.ms if isinstance(b, Un) else [b])}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        na, nb = (isinstance(x, Sc) and x.kind == "none" for x in (a, b))
        if na or nb:
            if (isinstance(a, Sc) and a.kind == "any") or (isinstance(b, Sc) and b.kind == "any"):
                return None
            return na and nb
        if isinstance(a, Sc) and isinstance(b, Sc) and a.kind in ("bool", "enum", "dtype") and a.kind == b.kind:
            return None if a.v is UNK or b.v is UNK else a.v == b.v
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext)):
            return a.key() == b.key()
        if isinstance(a, Ref) and not isinstance(b, Ref):
            return False
        return None

    def contains(self, c, x):
        it = self.it
        if isinstance(c, Un):
            ts = {self.contains(m, x) for m in c.ms}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(x, Un):
            ts = {self.contains(c, m) for m in x.ms}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(c, Sc) and c.kind == "str" and isinstance(x, Sc) and x.v is not UNK and c.v is not UNK and x.kind == "str":
            return x.v in c.v
        items = None
        if isinstance(c, Tup):
            items = c.items
        elif isinstance(c, Ref):
            o = it.obj(c)
            if isinstance(o, HList):
                items = o.items
            elif isinstance(o, HDict):
                k = self.hashkey(x)
                if k is not None and k in o.known:
                    return None if k in o.maybe else True
                if o.rest is not None:
                    return None
                return False if k is not None else None
            elif isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo) and it.class_attr(o.cls, "__contains__"):
                return self.truth(it.call_method(c, "__contains__", [x]))
        if items is not None:
            r = False
            for i in items:
                t = self.eq(i, x)
                if t is True:
                    return True
                if t is None:
                    r = None
            return r
        return None

    def hashkey(self, v):
        if isinstance(v, Sc):
            if v.v is UNK or isinstance(v.v, Dim):
                return None
            if v.kind == "enum":
                k = ("enum", v.v)
                self.keyval[k] = v
                return k
            if v.kind in ("dtype", "device"):
                k = (v.kind, v.v)
                self.keyval[k] = v
                return k
            return v.v
        if isinstance(v, Tup) and v.items is not None:
            ks = [self.hashkey(x) for x in v.items]
            if any(k is None for k in ks):
                return None
            k = tuple(ks)
            self.keyval[k] = v
            return k
        if isinstance(v, (Cls, Ext, Fn)):
            k = v.key()
            self.keyval[k] = v
            return k
        return None

    def key2val(self, k):
        return self.keyval[k] if k in self.keyval else const(k)

    def isinstance_(self, m, tv):
        it = self.it
        if isinstance(m, Un):
            ts = {self.isinstance_(x, tv) for x in m.ms}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(tv, Tup):
            r = False
            for t in tv.items or ():
                x = self.isinstance_(m, t)
                if x:
                    return True
                if x is None:
                    r = None
            return r
        if isinstance(m, Top):
            return None
        if isinstance(m, Sc) and m.kind == "any":
            return None
        if isinstance(tv, Cls):
            if isinstance(m, Ref):
                o = it.obj(m)
                if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo):
                    return any(c is tv.info for c in o.cls.mro())
                return False
            if isinstance(m, Tup) and isinstance(m.cls, I.ClassInfo):
                return any(c is tv.info for c in m.cls.mro())
            if isinstance(m, Sc) and m.kind == "enum":
                return str(m.v).split(".")[0] == tv.info.name if m.v is not UNK else None
            return False
        if not isinstance(tv, Ext):
            return None
        n = tv.name
        s = n.split(".")[-1]
        if n in ("builtins.object", "typing.Any"):
            return True
        if s in ("Tensor",) and n.startswith("torch"):
            return isinstance(m, Tn) and m.lib == "torch"
        if n in ("torch.LongTensor", "torch.cuda.LongTensor"):
            return isinstance(m, Tn) and m.dtype == "int64" if not isinstance(m, Tn) or m.dtype else None
        if n in ("torch.nn.Parameter", "torch.nn.parameter.Parameter"):
            return (("param" in m.tags) or None) if isinstance(m, Tn) else False
        if n == "torch.Size":
            return isinstance(m, Tup) and m.cls == "Size"
        if n == "torch.device":
            return isinstance(m, Sc) and m.kind == "device"
        if n == "torch.dtype":
            return isinstance(m, Sc) and m.kind == "dtype"
        if n in ("numpy.ndarray",):
            return isinstance(m, Tn) and m.lib == "np"
        if isinstance(m, Tn):
            return False if n.startswith("builtins.") or n.startswith("collections") or n.startswith("typing") or n.startswith("numbers") or n.startswith("pathlib") else None
        if isinstance(m, Sc):
            k = m.kind
            if n == "builtins.int":
                return k in ("int", "bool")
            if n == "builtins.float":
                return k == "float"
            if n == "builtins.bool":
                return k == "bool"
            if n == "builtins.str":
                return k == "str"
            if n == "builtins.bytes":
                return k == "bytes"
            if n in ("numbers.Number", "numbers.Real", "numbers.Integral"):
                return k in (("int", "bool") if s == "Integral" else ("int", "float", "bool"))
            if s == "NoneType":
                return k == "none"
            if n in SEQ_ABCS or s in ("Sequence", "Iterable"):
                return k == "str"
            return False
        if isinstance(m, Sl):
            return n == "builtins.slice"
        if isinstance(m, Tup):
            if n in ("builtins.tuple", "typing.Tuple"):
                return True
            if n in SEQ_ABCS or s in ("Sequence", "Iterable"):
                return True
            return False
        if isinstance(m, Ref):
            o = it.obj(m)
            if isinstance(o, HList):
                want = {"builtins.list": "list", "builtins.set": "set", "typing.List": "list", "typing.Set": "set"}.get(n)
                if want:
                    return o.kind == want
                return o.kind == "list" and s in ("Sequence", "Sized") or s == "Iterable"
            if isinstance(o, HDict):
                return s in ("dict", "Dict", "Mapping", "MutableMapping", "Iterable", "DictConfig", "OrderedDict")
            if isinstance(o, HInst):
                if isinstance(o.cls, str):
                    if o.cls == "file" and n in ("builtins.str", "builtins.bytes", "pathlib.Path", "io.BytesIO", "io.StringIO", "os.PathLike"):
                        return None if n.startswith("io.") and "%stream" in o.attrs else False
                    return True if o.cls == n else False if o.cls == "pathlib.Path" and n.startswith("builtins.") else None
                if s in ("Sequence", "list", "tuple", "dict", "str", "int", "float"):
                    return False
                return True if o.cls.has_base(n) else (None if o.cls.ext_bases() else False)
        if isinstance(m, (Fn, Bound, Partial)):
            return s in ("Callable", "FunctionType")
        return None

    # ------------------------------------------------------------- iteration
    def iter_items(self, v):
        it = self.it
        if isinstance(v, Un):
            ms = [m for m in v.ms if not isinstance(m, Sc)]
            if len(ms) == 1:
                return self.iter_items(ms[0])
        if isinstance(v, Tup):
            if v.items is not None:
                return "known", list(v.items), len(v.items)
            return "unk", it.adddeps(v.elem, v.deps) if v.elem is not None else None, v.length
        if isinstance(v, Tn):
            n = v.shape[0] if v.shape else None
            if isinstance(n, int) and n <= 16:
                return "known", [it.T.select(v, 0, i) for i in range(n)], n
            return "unk", it.T.select(v, 0, None), n
        if isinstance(v, Sc):
            if v.kind == "str":
                if v.v is not UNK:
                    return "known", [Sc("str", c, v.deps) for c in v.v], len(v.v)
                return "unk", Sc("str", UNK, v.deps), None
            if v.kind in ("int", "float", "none", "bool"):
                it.do_raise("TypeError", "not iterable")
            return "unk", Top(v.deps), None
        if isinstance(v, Ref):
            o = it.obj(v)
            if isinstance(o, HList):
                if o.items is not None:
                    return "known", [it.adddeps(x, v.deps) for x in o.items], len(o.items)
                el = o.elem
                return "unk", (it.adddeps(el, v.deps) if el is not None else None), o.length
            if isinstance(o, HDict):
                ks = [self.key2val(k) for k in o.known]
                if o.rest is None and not o.maybe:
                    return "known", ks, len(ks)
                el = o.rest[0] if o.rest else None
                for k in ks:
                    el = it.join(el, k)
                return "unk", el, None
            if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo):
                if it.class_attr(o.cls, "__iter__"):
                    return self.iter_items(it.call_method(v, "__iter__", []))
                if it.class_attr(o.cls, "__getitem__"):
                    ln = dimof(it.call_method(v, "__len__", [])) if it.class_attr(o.cls, "__len__") else None
                    return "unk", it.call_method(v, "__getitem__", [Sc("int")]), ln
                if "%items" in o.attrs:
                    return self.iter_items(o.attrs["%items"])
            elif isinstance(o, HInst) and "%items" in o.attrs:
                return self.iter_items(o.attrs["%items"])
            elif isinstance(o, HInst) and o.cls == "file":
                return "unk", Sc("bytes" if self.binary(o) else "str", UNK, o.attrs["data"].deps), None
            d = it.deps(v)
            return "unk", Top(d, it.gdeps(v), it.bases(v)), None
        if isinstance(v, Un):
            el, ln, first = None, None, True
            kinds = []
            for m in v.ms:
                k, x, n = self.iter_items(m)
                if k == "known":
                    e = None
                    for y in x:
                        e = it.join(e, y)
                    x = e
                el = it.join(el, x) if x is not None else el
                ln = n if first else dims.join(ln, n)
                first = False
            return "unk", el, ln
        if isinstance(v, Cls) and v.info.enum:
            names = [n for n, (k, _, _) in v.info.attrs.items() if k == "value" and not n.startswith("_")]
            return "known", [Sc("enum", f"{v.info.name}.{n}") for n in names], len(names)
        return "unk", Top(it.deps(v), it.gdeps(v), it.bases(v), "iter"), None

    def length(self, v):
        it = self.it
        d = I.meta(it.shallow(v)) if isinstance(v, Tn) else it.shallow(v)
        if isinstance(v, Un):
            return it.branch([lambda m=m: self.length(m) for m in v.ms])
        if isinstance(v, Tup):
            return intv(v.length, d)
        if isinstance(v, Tn):
            if v.shape == ():
                it.do_raise("TypeError")
            return intv(v.shape[0] if v.shape else None, d)
        if isinstance(v, Sc) and v.kind == "str":
            return intv(len(v.v) if v.v is not UNK else None, v.deps)
        if isinstance(v, Sc) and v.kind in ("int", "float", "none", "bool"):
            it.do_raise("TypeError")
        if isinstance(v, Ref):
            o = it.obj(v)
            if isinstance(o, HList):
                return intv(o.length, d)
            if isinstance(o, HDict):
                return intv(len(o.known) if o.rest is None and not o.maybe else None, d)
            if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo) and it.class_attr(o.cls, "__len__"):
                return it.call_method(v, "__len__", [])
            if isinstance(o, HInst) and "%items" in o.attrs:
                return self.length(o.attrs["%items"])
        return Sc("int", UNK, it.deps(v))

    # ------------------------------------------------------------- subscripts
    def _slice_range(self, k, n):
        """python indices selected by slice k on a sequence of known length n, or None"""
        vals = []
        for x in (k.lo, k.hi, k.step):
            if isinstance(x, Sc) and x.kind == "none":
                vals.append(None)
            elif isinstance(x, Sc) and isinstance(x.v, int) and x.v is not UNK:
                vals.append(int(x.v))
            elif isinstance(x, Sc) and isinstance(x.v, Dim) and dims.lower(x.v) is not None and dims.lower(x.v) >= n:
                vals.append(n)
            else:
                return None
        return range(n)[slice(*vals)]

    def slice_len(self, k, n):
        """length of x[k] for a (possibly symbolic) length n"""
        if isinstance(n, int):
            r = self._slice_range(k, n)
            if r is not None:
                return len(r)
        st = k.step
        if not (isinstance(st, Sc) and (st.kind == "none" or st.v == 1)):
            if isinstance(k.lo, Sc) and k.lo.kind == "none" and isinstance(k.hi, Sc) and k.hi.kind == "none" and isinstance(st, Sc) and st.v == -1:
                return n
            return None
        if isinstance(k.lo, Un) or isinstance(k.hi, Un):
            return None
        if n is None:
            return None
        lo = None if not isinstance(k.lo, Sc) else 0 if k.lo.kind == "none" else dimof(k.lo)
        if isinstance(k.hi, Sc) and k.hi.kind == "none":
            hi = n
        else:
            hi = dimof(k.hi) if isinstance(k.hi, Sc) else None
        if lo is None or hi is None:
            return None

        def norm(x):
            if isinstance(x, int) and x < 0:
                return dims.add(n, x)
            lw = dims.lower(x) if isinstance(x, Dim) else None
            if isinstance(x, Dim) and lw is None:
                up = dims.lower(dims.neg(x))
                if up is not None and up > 0:
                    return dims.add(n, x)
                return None
            return x
        lo, hi = norm(lo), norm(hi)
        if lo is None or hi is None:
            return None
        if hi != n:
            t = dims.lt(n, hi)
            if t is True:
                hi = n
            elif t is None:
                return None
        t = dims.lt(hi, lo)
        if t is True:
            return 0
        if t is None and lo != 0:
            return None
        return dims.sub(hi, lo)

    def getitem(self, o, k):
        it = self.it
        if isinstance(o, Un):
            ms = [m for m in o.ms if not (isinstance(m, Sc) and m.kind == "none")]
            if not ms:
                it.do_raise("TypeError")
            return it.branch([lambda m=m: self.getitem(m, k) for m in ms])
        if isinstance(k, Un) and not isinstance(o, (Ext, Top)):
            return it.branch([lambda m=m: self.getitem(o, m) for m in k.ms])
        if isinstance(o, Tn):
            return it.T.index(o, k)
        if isinstance(o, (Ext, Cls)):
            if isinstance(o, Cls) and o.info.enum:
                return Sc("enum", f"{o.info.name}.{k.v}" if isinstance(k, Sc) and k.v is not UNK else UNK)
            return o
        if isinstance(o, Top):
            return Top(o.deps | it.deps(k), o.gdeps, o.base, "[]")
        kd = it.deps(k)
        if isinstance(o, Tup) or isinstance(o, Ref) and isinstance(it.obj(o), HList):
            ob = o if isinstance(o, Tup) else it.obj(o)
            dep = o.deps | kd
            if isinstance(k, Tn) and isinstance(it.T.scal(k), int):
                k = Sc("int", it.T.scal(k), kd)
            if isinstance(k, Sl):
                n = ob.length
                if ob.items is not None:
                    r = self._slice_range(k, n)
                    if r is not None:
                        its = [ob.items[i] for i in r]
                        if isinstance(o, Tup):
                            return Tup([it.adddeps(x, kd) for x in its], cls="Size" if o.cls == "Size" else None, deps=dep)
                        return it.new_list([it.adddeps(x, kd) for x in its])
                el = it.tup_elem(ob) if isinstance(o, Tup) else it.list_elem(ob)
                el = it.adddeps(el, kd)
                ln = self.slice_len(k, n)
                if isinstance(o, Tup):
                    return Tup(None, el, ln, cls="Size" if o.cls == "Size" else None, deps=dep)
                return it.new_list(None, el, ln)
            if ob.items is not None:
                if isinstance(k, Sc) and k.v is not UNK and isinstance(k.v, (int, bool)):
                    i = int(k.v)
                    if -len(ob.items) <= i < len(ob.items):
                        return it.adddeps(ob.items[i], dep)
                    it.do_raise("IndexError")
                if isinstance(k, Sc) and k.kind in ("str", "none", "float"):
                    it.do_raise("TypeError")
            el = it.tup_elem(ob) if isinstance(o, Tup) else it.list_elem(ob)
            if el is None:
                if ob.length == 0 and not isinstance(k, Top):
                    it.do_raise("IndexError")
                return Top(dep)
            return it.adddeps(el, dep)
        if isinstance(o, Ref):
            ob = it.obj(o)
            if isinstance(ob, HDict):
                kk = self.hashkey(k)
                if kk is not None and kk in ob.known:
                    return it.adddeps(ob.known[kk], o.deps | kd)
                if kk is not None and ob.rest is None:
                    if getattr(ob, "default", None) is None and not str(o.oid).startswith("?"):
                        f = self.defaults_of(o)
                        if f is not None:
                            v = it.call(f, [], {})
                            self.setitem(o, k, v)
                            return v
                    it.do_raise("KeyError")
                el = None
                for x in ob.known.values():
                    if kk is None:
                        el = it.join(el, x)
                if ob.rest:
                    el = it.join(el, ob.rest[1])
                if el is None:
                    f = self.defaults_of(o)
                    if f is not None:
                        v = it.call(f, [], {})
                        self.setitem(o, k, v)
                        return v
                    return Top(it.deps(o) | kd, EMPTY, EMPTY, "dict[]")
                return it.adddeps(el, o.deps | kd)
            if isinstance(ob, HInst):
                if isinstance(ob.cls, I.ClassInfo):
                    m = it.class_attr(ob.cls, "__getitem__")
                    if m is not None:
                        return it.call(Bound(o, m[1]), [k], {})
                if "%items" in ob.attrs:
                    return self.getitem(ob.attrs["%items"], k)
            return Top(it.deps(o) | kd, it.gdeps(o), it.bases(o), "inst[]")
        if isinstance(o, Sc):
            if o.kind == "str":
                if o.v is not UNK:
                    if isinstance(k, Sl):
                        r = self._slice_range(k, len(o.v))
                        if r is not None:
                            return Sc("str", "".join(o.v[i] for i in r), o.deps | kd)
                    elif isinstance(k, Sc) and isinstance(k.v, int) and k.v is not UNK:
                        if -len(o.v) <= k.v < len(o.v):
                            return Sc("str", o.v[k.v], o.deps | kd)
                        it.do_raise("IndexError")
                return Sc("str", UNK, o.deps | kd)
            if o.kind in ("int", "float", "none", "bool"):
                it.do_raise("TypeError")
        return Top(it.deps(o) | kd, it.gdeps(o), it.bases(o), "getitem")

    def defaults_of(self, ref):
        return getattr(self, "_dd", {}).get(ref.oid)

    def note_mut(self, o, what):
        lab = self.it.in_oids.get(o.oid) if isinstance(o, Ref) else None
        if lab is not None:
            self.it.event("mutate", base=lab, op=what, heap=True)

    def setitem(self, o, k, v):
        it = self.it
        if isinstance(o, Un):
            ms = [m for m in o.ms if not (isinstance(m, Sc) and m.kind == "none")]
            base = it.st
            outs = []
            for m in ms:
                it.st = base.fork()
                try:
                    self.setitem(m, k, v)
                    outs.append(it.st)
                except I.Stop:
                    pass
            if not outs:
                raise I.Stop()
            it.st = it.join_states(outs)
            return
        if isinstance(o, Tn):
            it.T.index_put(o, k, v)
            return
        if isinstance(o, Ref):
            ob = it.obj(o)
            if isinstance(ob, HList):
                self.note_mut(o, "list[]=")
                if isinstance(k, Sc) and isinstance(k.v, int) and k.v is not UNK and ob.items is not None and -len(ob.items) <= k.v < len(ob.items):
                    xs = list(ob.items)
                    xs[k.v] = it.adddeps(v, it.deps(k))
                    it.st.heap[o.oid] = HList(xs, kind=ob.kind)
                elif isinstance(k, Sl):
                    kk, x, n = self.iter_items(v)
                    if kk == "known":
                        e = None
                        for y in x:
                            e = it.join(e, y)
                        x = e
                    it.st.heap[o.oid] = HList(None, it.join(it.list_elem(ob), x), ob.length, ob.kind)
                else:
                    e = it.join(it.list_elem(ob), it.adddeps(v, it.deps(k)))
                    if ob.items is not None:
                        it.st.heap[o.oid] = HList([it.join(x, v) for x in ob.items], kind=ob.kind)
                    else:
                        it.st.heap[o.oid] = HList(None, e, ob.length, ob.kind)
                return
            if isinstance(ob, HDict):
                self.note_mut(o, "dict[]=")
                kk = self.hashkey(k)
                if kk is not None:
                    kn = dict(ob.known)
                    kn[kk] = v
                    it.st.heap[o.oid] = HDict(kn, ob.rest, ob.maybe - {kk})
                else:
                    r = (k, v) if ob.rest is None else (it.join(ob.rest[0], k), it.join(ob.rest[1], v))
                    it.st.heap[o.oid] = HDict(ob.known, r, ob.maybe)
                return
            if isinstance(ob, HInst):
                if isinstance(ob.cls, I.ClassInfo):
                    m = it.class_attr(ob.cls, "__setitem__")
                    if m is not None:
                        it.call(Bound(o, m[1]), [k, v], {})
                        return
                a = dict(ob.attrs)
                a["%set"] = it.join(a.get("%set"), v)
                it.st.heap[o.oid] = HInst(ob.cls, a, ob.extra)
                return
        if isinstance(o, Top) and o.base:
            it.T.write(Tn(base=o.base), [v, k])

    def delitem(self, o, k):
        it = self.it
        ob = it.obj(o) if isinstance(o, Ref) else None
        if isinstance(ob, HDict):
            self.note_mut(o, "del")
            kk = self.hashkey(k)
            kn = dict(ob.known)
            kn.pop(kk, None)
            it.st.heap[o.oid] = HDict(kn, ob.rest, ob.maybe)
        elif isinstance(ob, HList):
            self.note_mut(o, "del")
            it.st.heap[o.oid] = HList(None, it.list_elem(ob), dims.add(ob.length, -1) if isinstance(k, Sc) else None, ob.kind)

    def list_extend(self, cur, r):
        it = self.it
        o = it.obj(cur)
        self.note_mut(cur, "extend")
        k, items, n = self.iter_items(r)
        if k == "known":
            if o.items is not None:
                it.st.heap[cur.oid] = HList(o.items + tuple(items), kind=o.kind)
                return
            e = o.elem
            for x in items:
                e = it.join(e, x)
            it.st.heap[cur.oid] = HList(None, e, dims.add(o.length, n), o.kind)
        else:
            e = it.list_elem(o)
            it.st.heap[cur.oid] = HList(None, it.join(e, items) if items is not None else e, dims.add(o.length, n), o.kind)

    def dict_update(self, cur, r):
        it = self.it
        o = it.obj(cur)
        self.note_mut(cur, "update")
        rs = r.ms if isinstance(r, Un) else [r]
        for m in rs:
            ob = it.obj(m) if isinstance(m, Ref) else None
            if isinstance(ob, HDict):
                kn = dict(o.known)
                maybe = set(o.maybe)
                for k, v in ob.known.items():
                    if k in ob.maybe and k in kn:
                        kn[k] = it.join(kn[k], v)
                    else:
                        if k in ob.maybe:
                            maybe.add(k)
                        else:
                            maybe.discard(k)
                        kn[k] = v
                rest = o.rest
                if ob.rest:
                    rest = ob.rest if rest is None else (it.join(rest[0], ob.rest[0]), it.join(rest[1], ob.rest[1]))
                    for k in list(kn):
                        if k not in ob.known:
                            kn[k] = it.join(kn[k], ob.rest[1])
                o = HDict(kn, rest, maybe)
            elif isinstance(m, Sc) and m.kind == "none":
                continue
            else:
                kk, items, n = self.iter_items(m)
                if kk == "known":
                    kn = dict(o.known)
                    rest = o.rest
                    for p in items:
                        a, b = self.getitem(p, const(0)), self.getitem(p, const(1))
                        h = self.hashkey(a)
                        if h is not None:
                            kn[h] = b
                        else:
                            rest = (a, b) if rest is None else (it.join(rest[0], a), it.join(rest[1], b))
                    o = HDict(kn, rest, o.maybe)
                else:
                    t = Top(it.deps(m), it.gdeps(m), it.bases(m))
                    o = HDict(o.known, (Sc("str"), t) if o.rest is None else (o.rest[0], it.join(o.rest[1], t)), o.maybe)
        it.st.heap[cur.oid] = o

    # ------------------------------------------------------------- attributes
    def attr(self, v, name):
        it = self.it
        if isinstance(v, Sc):
            if v.kind == "none":
                it.do_raise("AttributeError")
            if v.kind == "device":
                if name == "type":
                    return Sc("str", "cpu" if v.v == "cpu" else UNK if v.v is UNK else "cuda" if v.v == "D" else v.v, v.deps)
                if name == "index":
                    return Sc("int", UNK, v.deps)
            if v.kind == "dtype":
                if name == "is_floating_point":
                    return Sc("bool", UNK if v.v is UNK else v.v.startswith(("float", "bfloat")), v.deps)
                if name == "is_complex":
                    return Sc("bool", UNK if v.v is UNK else v.v.startswith("complex"), v.deps)
                if name in ("type", "kind", "itemsize"):
                    return Top(v.deps)
            if v.kind == "enum":
                if name == "name":
                    return Sc("str", str(v.v).split(".")[-1] if v.v is not UNK else UNK, v.deps)
                if name == "value":
                    if v.v is not UNK:
                        for m in it.mods.values():
                            c = it.gheap.get(m.frame)
                            c = c.vars.get(v.v.split(".")[0]) if c else None
                            if isinstance(c, Cls) and c.info.enum and v.v.split(".")[1] in c.info.attrs:
                                return c.info.attrs[v.v.split(".")[1]][1]
                    return Top(v.deps)
            if v.kind in ("int", "float", "bool") and name in ("shape",):
                it.do_raise("AttributeError")
            if v.kind in ("int", "bool", "float") and name in ("real", "imag", "numerator"):
                return v
            if v.kind in ("int", "float", "bool", "str") and name in ("device", "dtype", "ndim", "dim", "clone", "detach", "to"):
                it.do_raise("AttributeError")
            return Bound(v, name)
        if isinstance(v, Tup):
            if v.fields and name in v.fields and v.items is not None:
                return v.items[v.fields.index(name)]
            if v.fields and name in v.fields:
                return v.elem
            if isinstance(v.cls, I.ClassInfo):
                a = it.class_attr(v.cls, name)
                if a is not None:
                    if a[0] == "method":
                        if a[2] and "property" in a[2]:
                            return it.call(a[1], [v], {})
                        if a[2] and "staticmethod" in a[2]:
                            return a[1]
                        return Bound(v, a[1])
                    return a[1]
            if name == "_fields":
                return const(tuple(v.fields or ()))
            if name == "__class__" and isinstance(v.cls, I.ClassInfo):
                return Cls(v.cls)
            if isinstance(v.cls, I.ClassInfo) and not hasattr(tuple, name) and name not in ("_replace", "_asdict", "_make", "_field_defaults"):
                it.do_raise("AttributeError")
            return Bound(v, name)
        if isinstance(v, Sl):
            if name in ("start", "stop", "step"):
                return {"start": v.lo, "stop": v.hi, "step": v.step}[name]
            return Bound(v, name)
        if isinstance(v, (Fn, Bound, Partial)):
            if name == "__name__":
                return const(v.node.name) if isinstance(v, Fn) and hasattr(v.node, "name") else Sc("str")
            if name == "__self__" and isinstance(v, Bound):
                return v.self_
            if name == "__func__" and isinstance(v, Bound):
                return v.fn if isinstance(v.fn, Val) else Top()
            if name == "func" and isinstance(v, Partial):
                return v.fn
            if name in ("apply",):
                return Bound(v, name)
            return Top(hint="fnattr")
        return Top(it.deps(v), it.gdeps(v), it.bases(v), "." + name)

    def container_attr(self, r, o, name):
        if name == "__class__":
            return Ext("builtins.list" if isinstance(o, HList) else "builtins.dict")
        if isinstance(o, HList):
            if o.kind == "list" and name in ("shape", "device", "dtype", "items", "keys", "values", "verts_packed", "split"):
                self.it.do_raise("AttributeError")
        elif isinstance(o, HDict) and name in o.known and not hasattr(dict, name):
            return o.known[name]
        return Bound(r, name)

    def extinst_attr(self, r, o, name):
        it = self.it
        if o.cls == "autograd_ctx":
            if name == "saved_tensors":
                return o.attrs.get("saved_tensors", Tup(()))
            if name == "needs_input_grad":
                self.asked_needs = True
                return o.attrs.get("%needs", Tup(None, Sc("bool"), None))
            return Bound(r, name)
        if o.cls.startswith("torch.nn."):
            if name in it.T.LPARAMS.get(o.cls.split(".")[-1], ("weight", "bias")):
                return it.T.param(r, o, name)
            if name == "training":
                return o.attrs.get("training", Sc("bool", UNK, frozenset(["training"])))
            if name in ("in_features", "out_features", "in_channels", "out_channels"):
                ps = it.T.largs(o)
                return ps[0 if name.startswith("in") else 1] if len(ps) > 1 and ps[0 if name.startswith("in") else 1] is not None else Sc("int")
            return Bound(r, name)
        if o.cls == "contextmanager" and name in ("__enter__",):
            return Bound(r, name)
        if o.cls == "pathlib.Path":
            d = self.deps_all(r, [], {})
            if name in ("stem", "name", "suffix", "anchor", "root"):
                return Sc("str", UNK, d)
            if name in ("parent",):
                return it.new(HInst("pathlib.Path", {"%p": Sc("str", UNK, d)}))
        if o.cls == "PIL.Image.Image" and name in ("width", "height", "size", "mode", "format"):
            p = self.deps_all(r, [], {})
            return Tup((Sc("int", UNK, p), Sc("int", UNK, p))) if name == "size" else Sc("int" if name in ("width", "height") else "str", UNK, p)
        if o.cls == "file" and name in ("name", "closed", "mode"):
            return o.attrs["closed"] if name == "closed" else o.attrs["mode"] if name == "mode" else Sc("str", UNK, EMPTY)
        return Bound(r, name)

    def extbase_attr(self, r, o, eb, name):
        for e in eb:
            if isinstance(e, Ext) and e.name in ("torch.nn.Module",) or isinstance(e, Ext) and e.name.startswith("torch.nn."):
                if name in MODULE_METHODS:
                    return Bound(r, "ext:" + name)
        if name in ("__name__",):
            return const(o.cls.name)
        return None

    # ------------------------------------------------------------- calls
    def call_extinst(self, fn, o, args, kw, sargs, skw):
        it = self.it
        if o.cls.startswith("torch.nn.") or o.cls.startswith("torchvision."):
            return it.T.layer(fn, o, args, kw)
        return it.opaque(fn, args, kw, sargs, skw, "extinst:" + o.cls)

    def call_bound(self, fn, args, kw, sargs, skw):
        it = self.it
        s, name = fn.self_, fn.fn
        if name == "autograd_apply":
            return self.autograd_apply(s, args, kw, sargs)
        if name.startswith("cls:"):
            return self.cls_call(s, name[4:], args, kw, sargs, skw)
        if name.startswith("ext:"):
            return self.ext_method(s, name[4:], args, kw, sargs, skw)
        if isinstance(s, Tn):
            if sargs is not None:
                args = list(args) + [sargs]
            return it.T.method(s, name, args, kw)
        if isinstance(s, Sc):
            return self.sc_method(s, name, args, kw)
        if isinstance(s, Tup):
            return self.tup_method(s, name, args, kw)
        if isinstance(s, Ref):
            o = it.obj(s)
            if isinstance(o, HList):
                return self.list_method(s, o, name, args, kw)
            if isinstance(o, HDict):
                return self.dict_method(s, o, name, args, kw)
            if isinstance(o, HInst) and isinstance(o.cls, str):
                return self.extinst_method(s, o, name, args, kw, sargs, skw)
        if isinstance(s, Sl) and name == "indices":
            return Tup([Sc("int", UNK, s.deps)] * 3)
        return it.opaque(s, args, kw, sargs, skw, "bound:" + name)

    def sc_method(self, s, name, args, kw):
        it = self.it
        d = s.deps
        for a in list(args) + list(kw.values()):
            d = d | it.deps(a)
        if s.kind in ("str", "bytes"):
            cargs = []
            ok = s.v is not UNK
            for a in args:
                if isinstance(a, Sc) and a.v is not UNK and not isinstance(a.v, Dim) and a.kind in ("str", "int", "none", "bytes"):
                    cargs.append(a.v)
                elif isinstance(a, Tup) and a.items is not None and all(isinstance(x, Sc) and x.kind == "str" and x.v is not UNK for x in a.items):
                    cargs.append(tuple(x.v for x in a.items))
                elif name == "join" and isinstance(a, (Ref, Tup)):
                    k, xs, n = self.iter_items(a)
                    if k == "known" and all(isinstance(x, Sc) and x.kind == "str" and x.v is not UNK for x in xs):
                        cargs.append([x.v for x in xs])
                    else:
                        ok = False
                else:
                    ok = False
            if ok and not kw and name not in ("format", "encode", "decode"):
                try:
                    r = getattr(s.v, name)(*cargs)
                    if isinstance(r, list):
                        return it.new_list([Sc(s.kind, x, d) for x in r])
                    return it.adddeps(const(r), d)
                except AttributeError:
                    it.do_raise("AttributeError")
                except Exception:
                    pass
            if name in ("split", "rsplit", "splitlines"):
                return it.new_list(None, Sc(s.kind, UNK, d), None)
            if name in ("partition", "rpartition"):
                return Tup([Sc(s.kind, UNK, d)] * 3)
            if name in ("startswith", "endswith", "isdigit", "isalpha", "isnumeric", "isspace", "isidentifier"):
                return Sc("bool", UNK, d)
            if name in ("find", "index", "count", "rfind"):
                return Sc("int", UNK, d)
            if name == "encode":
                return Sc("bytes", UNK, d)
            return Sc("str", UNK, d)
        if s.kind in ("int", "float") and name in ("item",):
            return s
        if name in ("is_integer",):
            return Sc("bool", UNK, d)
        return Top(d, EMPTY, EMPTY, "sc." + name)

    def tup_method(self, s, name, args, kw):
        it = self.it
        if name == "numel":
            if s.items is not None:
                return intv(dims.prod([dimof(x) for x in s.items]), it.deps(s))
            return Sc("int", UNK, it.deps(s))
        if name == "index":
            if s.items is not None:
                for i, x in enumerate(s.items):
                    t = self.eq(x, args[0])
                    if t is True:
                        return const(i)
                    if t is None:
                        break
                else:
                    it.do_raise("ValueError")
            return Sc("int", UNK, it.deps(s) | it.deps(args[0]))
        if name == "count":
            return Sc("int", UNK, it.deps(s))
        if name == "_replace" and s.items is not None and s.fields:
            xs = list(s.items)
            for k, v in kw.items():
                if k in s.fields:
                    xs[s.fields.index(k)] = v
            return Tup(xs, cls=s.cls, fields=s.fields, deps=s.deps)
        if name == "_asdict" and s.fields and s.items is not None:
            return it.new_dict(dict(zip(s.fields, s.items)))
        return it.opaque(s, args, kw, hint="tup." + name)

    def list_method(self, s, o, name, args, kw):
        it = self.it
        if name == "__next__":
            return self.builtin("next", [s], {}, None, None)
        if name in ("append", "add", "appendleft"):
            self.note_mut(s, name)
            v = it.wpc(args[0])
            if name == "add":
                if o.items is not None and any(self.eq(x, v) is True for x in o.items):
                    return NONE
                if o.items is not None and len(o.items) < 12:
                    it.st.heap[s.oid] = HList(o.items + (v,), kind=o.kind)
                else:
                    it.st.heap[s.oid] = HList(None, it.join(it.list_elem(o), v), None, o.kind)
                return NONE
            if o.items is not None and len(o.items) < 400:
                it.st.heap[s.oid] = HList((v,) + o.items if name == "appendleft" else o.items + (v,), kind=o.kind)
            else:
                it.st.heap[s.oid] = HList(None, it.join(it.list_elem(o), v), dims.add(o.length, 1), o.kind)
            return NONE
        if name in ("extend", "update"):
            for a in args:
                if name == "extend" or o.kind != "set":
                    self.list_extend(s, a)
                else:
                    self.list_extend(s, a)
                    ob = it.obj(s)
                    it.st.heap[s.oid] = HList(None, it.list_elem(ob), None, "set")
            return NONE
        if name == "insert":
            self.note_mut(s, name)
            if o.items is not None and isinstance(args[0], Sc) and isinstance(args[0].v, int) and args[0].v is not UNK:
                xs = list(o.items)
                xs.insert(args[0].v, args[1])
                it.st.heap[s.oid] = HList(xs, kind=o.kind)
            else:
                it.st.heap[s.oid] = HList(None, it.join(it.list_elem(o), args[1]), dims.add(o.length, 1), o.kind)
            return NONE
        if name in ("pop", "popleft"):
            self.note_mut(s, name)
            if o.items is not None and o.items:
                i = -1 if name == "pop" else 0
                if args:
                    i = args[0].v if isinstance(args[0], Sc) and isinstance(args[0].v, int) and args[0].v is not UNK else None
                if i is not None and -len(o.items) <= i < len(o.items):
                    xs = list(o.items)
                    v = xs.pop(i)
                    it.st.heap[s.oid] = HList(xs, kind=o.kind)
                    return v
            el = it.list_elem(o)
            it.st.heap[s.oid] = HList(None, el, dims.add(o.length, -1), o.kind)
            return el if el is not None else Top(it.deps(s))
        if name in ("sort", "reverse"):
            self.note_mut(s, name)
            if o.items is not None and name == "reverse":
                it.st.heap[s.oid] = HList(o.items[::-1], kind=o.kind)
            else:
                it.st.heap[s.oid] = HList(None, it.list_elem(o), o.length, o.kind)
            return NONE
        if name in ("clear",):
            self.note_mut(s, name)
            it.st.heap[s.oid] = HList((), kind=o.kind)
            return NONE
        if name in ("remove", "discard"):
            self.note_mut(s, name)
            it.st.heap[s.oid] = HList(None, it.list_elem(o), None, o.kind)
            return NONE
        if name == "copy":
            return it.new(HList(o.items, o.elem, o.length, o.kind))
        if name == "index":
            if o.items is not None:
                for i, x in enumerate(o.items):
                    t = self.eq(x, args[0])
                    if t is True:
                        return const(i)
                    if t is None:
                        break
                else:
                    it.do_raise("ValueError")
            return Sc("int", UNK, it.deps(s))
        if name == "count":
            return Sc("int", UNK, it.deps(s))
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            e = it.list_elem(o)
            for a in args:
                k, xs, n = self.iter_items(a)
                for x in (xs if k == "known" else [xs]):
                    e = it.join(e, x) if x is not None else e
            return it.new_list(None, e, None, "set")
        if name in ("issubset", "issuperset", "isdisjoint"):
            return Sc("bool", UNK, it.deps(s))
        if name in ("__iter__",):
            return s
        if name in ("__len__",):
            return self.length(s)
        if name in ("__next__",):
            return it.list_elem(o)
        return it.opaque(s, args, kw, hint="list." + name)

    def dict_method(self, s, o, name, args, kw):
        it = self.it
        if name in ("get", "pop", "setdefault"):
            k = args[0]
            if isinstance(k, Un):
                return it.branch([lambda m=m: self.dict_method(s, it.obj(s), name, [m] + list(args[1:]), kw) for m in k.ms])
            kk = self.hashkey(k)
            dflt = args[1] if len(args) > 1 else kw.get("default")
            if dflt is None and name != "pop":
                dflt = NONE
            r = None
            if kk is not None and kk in o.known:
                r = o.known[kk]
                if kk in o.maybe and dflt is not None:
                    r = it.join(r, dflt)
            else:
                if kk is None:
                    for x in o.known.values():
                        r = it.join(r, x)
                if o.rest:
                    r = it.join(r, o.rest[1])
                if dflt is not None:
                    r = it.join(r, dflt)
                if r is None:
                    it.do_raise("KeyError")
            if name == "pop":
                self.note_mut(s, name)
                kn = dict(o.known)
                if kk is not None:
                    kn.pop(kk, None)
                it.st.heap[s.oid] = HDict(kn, o.rest, o.maybe - {kk})
            elif name == "setdefault":
                self.setitem(s, k, r)
            return it.adddeps(r, s.deps | it.shallow(k))
        if name == "update":
            for a in args:
                self.dict_update(s, a)
            if kw:
                self.dict_update(s, it.new_dict(kw))
            return NONE
        if name == "copy":
            return it.new(HDict(o.known, o.rest, o.maybe))
        if name in ("keys", "__iter__"):
            k, xs, n = self.iter_items(s)
            return it.new_list(xs if k == "known" else None, None if k == "known" else xs, n, "gen")
        if name in ("values", "items"):
            vals = []
            for k, v in o.known.items():
                vals.append(v if name == "values" else Tup([self.key2val(k), v]))
            if o.rest is None and not o.maybe:
                return it.new_list(vals, kind="gen")
            e = None
            for v in vals:
                e = it.join(e, v)
            if o.rest:
                e = it.join(e, o.rest[1] if name == "values" else Tup(list(o.rest)))
            return it.new_list(None, e, None, "gen")
        if name == "clear":
            self.note_mut(s, name)
            it.st.heap[s.oid] = HDict({})
            return NONE
        if name == "popitem":
            return Top(it.deps(s), it.gdeps(s), it.bases(s))
        if name == "__contains__":
            t = self.contains(s, args[0])
            return Sc("bool", UNK if t is None else t, it.deps(args[0]))
        if name == "__len__":
            return self.length(s)
        if name in ("move_to_end",):
            return NONE
        if name in ("most_common",):
            return it.new_list(None, Top(it.deps(s)), None)
        return it.opaque(s, args, kw, hint="dict." + name)

    def extinst_method(self, s, o, name, args, kw, sargs, skw):
        it = self.it
        if o.cls == "autograd_ctx":
            if name == "save_for_backward":
                it.st.heap[s.oid] = HInst(o.cls, {**o.attrs, "saved_tensors": Tup(args)})
                return NONE
            if name == "mark_non_differentiable":
                prev = o.attrs.get("%nondiff", Tup(()))
                it.st.heap[s.oid] = HInst(o.cls, {**o.attrs, "%nondiff": Tup(prev.items + tuple(args))})
                return NONE
            return NONE
        if o.cls == "file":
            return self.file_method(s, o, name, args, kw, sargs, skw)
        if o.cls.endswith(".PathManager"):
            return self.pm_method(s, o, name, args, kw, sargs, skw)
        if o.cls == "pathlib.Path":
            p = self.deps_all(s, args, kw)
            if name == "open":
                return self.open_([s] + list(args), kw, "pathlib")
            if name in ("with_suffix", "with_name", "joinpath", "resolve", "absolute", "expanduser", "relative_to"):
                return it.new(HInst("pathlib.Path", {"%p": Sc("str", UNK, p)}))
            if name in ("exists", "is_file", "is_dir"):
                it.event("fs", op="pathlib." + name)
                return Sc("bool", UNK, p)
            if name in ("mkdir", "unlink", "rename", "touch"):
                it.event("fs", op="pathlib." + name)
                return NONE
            if name in ("read_text", "read_bytes"):
                it.event("open", via="pathlib", path="?", deps=p, mode="r")
                return Sc("str" if name == "read_text" else "bytes", UNK, p | {"file"})
            if name in ("write_text", "write_bytes"):
                it.event("open", via="pathlib", path="?", deps=p, mode="w")
                self.disk(p)
                return Sc("int")
            if name in ("as_posix", "__str__"):
                return Sc("str", UNK, p)
        if o.cls == "PIL.Image.Image":
            p = self.deps_all(s, args, kw)
            if name == "save":
                self.write_to(args[0] if args else kw.get("fp", NONE), self.deps_all(s, args[1:], kw), "PIL")
                return NONE
            if name in ("convert", "resize", "transpose", "crop", "rotate", "copy", "__enter__", "split", "filter", "reduce"):
                return it.new(HInst("PIL.Image.Image", {"%data": Sc("any", UNK, p)})) if name != "__enter__" else s
            if name in ("close", "__exit__", "load", "thumbnail"):
                return NONE
        if o.cls == "struct.Struct":
            p = self.deps_all(s, args, kw)
            if name in ("unpack", "unpack_from"):
                return Tup(None, Sc("any", UNK, p), None)
            if name == "pack":
                return Sc("bytes", UNK, p)
            if name == "iter_unpack":
                return it.new_list(None, Tup(None, Sc("any", UNK, p), None), None, "gen")
        if name in ("__enter__",):
            return o.attrs.get("__enter__value", s)
        if o.cls == "torch.Generator" and name in ("manual_seed",):
            return s
        if o.cls.startswith("torch.nn.") or o.cls.startswith("torchvision"):
            if name in ("train", "eval"):
                self.set_training(s, FALSE if name == "eval" else args[0] if args else kw.get("mode", TRUE))
                return s
            if name in ("to", "cuda", "cpu", "float", "double", "requires_grad_", "apply"):
                return s
            if name in ("append", "extend", "insert", "add_module"):
                items = o.attrs.get("%items")
                if name == "append" and items is not None:
                    self.list_method(items, it.obj(items), "append", args, kw)
                return s
            if name in ("parameters", "named_parameters", "buffers"):
                return self.module_params(s, name)
            if name in ("children", "modules"):
                return it.new_list(None, Top(hint=name), None)
            if name in ("values", "items", "keys", "get", "pop", "update") and "%dict" in o.attrs:
                return it.call_method(o.attrs["%dict"], name, args)
            if name == "forward" or name == "__call__":
                return it.T.layer(s, o, args, kw)
            return it.opaque(s, args, kw, sargs, skw, f"{o.cls}.{name}")
        if o.cls.startswith("functools.") and name in ("cache_clear",):
            return NONE
        if o.cls == "logger":
            return NONE
        return it.opaque(s, args, kw, sargs, skw, f"{o.cls}.{name}")

    def ext_method(self, s, name, args, kw, sargs, skw):
        """method inherited from an external base class"""
        it = self.it
        o = it.obj(s) if isinstance(s, Ref) else None
        if name in ("__init__", "__post_init__", "__init_subclass__", "__enter__", "__exit__"):
            if name == "__init__" and isinstance(o, HInst) and o.cls is not None and isinstance(o.cls, I.ClassInfo) and o.cls.has_base("dict"):
                pass
            return NONE
        if name in ("__str__", "__repr__"):
            return Sc("str", UNK, EMPTY)
        if name in ("__hash__",):
            return Sc("int")
        if name == "__eq__":
            return Sc("bool")
        if name == "__setattr__" and isinstance(o, HInst) and len(args) == 2 and isinstance(args[0], Sc) and args[0].v is not UNK:
            na = dict(o.attrs)
            na[args[0].v] = args[1]
            it.st.heap[s.oid] = HInst(o.cls, na, o.extra)
            return NONE
        if isinstance(o, HInst):
            if name in ("register_buffer", "register_parameter", "add_module") and len(args) >= 2 and isinstance(args[0], Sc) and args[0].v is not UNK:
                it.setattr(s, args[0].v, _set(args[1], tags=args[1].tags | {"buffer"}) if isinstance(args[1], Tn) else args[1])
                return NONE
            if name == "register_buffer" and args and "tensor" in kw and isinstance(args[0], Sc) and args[0].v is not UNK:
                it.setattr(s, args[0].v, _set(kw["tensor"], tags=kw["tensor"].tags | {"buffer"}) if isinstance(kw["tensor"], Tn) else kw["tensor"])
                return NONE
            if name in ("to", "cuda", "cpu", "float", "double", "half", "_apply"):
                dev = None
                if name == "cpu":
                    dev = Sc("device", "cpu")
                elif name == "to":
                    for a in list(args) + list(kw.values()):
                        if isinstance(a, Sc) and a.kind in ("device", "str"):
                            dev = a
                if dev is not None:
                    self.module_to(s, dev)
                return s
            if name in ("train", "eval", "requires_grad_", "apply", "zero_grad", "share_memory"):
                if name in ("train", "eval"):
                    m = FALSE if name == "eval" else args[0] if args else kw.get("mode", TRUE)
                    self.set_training(s, m)
                return s
            if name in ("parameters", "buffers", "named_parameters", "named_buffers"):
                return self.module_params(s, name)
            if name in ("named_children", "named_modules"):
                return it.new_list(None, Tup([Sc("str"), Top()]), None)
            if name in ("children", "modules"):
                return it.new_list(None, Top(), None)
            if name in ("_register_load_state_dict_pre_hook", "_register_state_dict_hook", "register_load_state_dict_pre_hook") and isinstance(o.cls, I.ClassInfo) and o.cls.has_base("torch.nn.Module"):
                return NONE
            if name in ("values", "items", "keys", "get") and isinstance(o.cls, I.ClassInfo) and o.cls.has_base("Mapping"):
                if name == "get":
                    return it.join(self.getitem(s, args[0]), args[1] if len(args) > 1 else NONE)
                k, xs, ln = self.iter_items(s)
                one = lambda x: x if name == "keys" else self.getitem(s, x) if name == "values" else Tup([x, self.getitem(s, x)])
                if k == "known":
                    return it.new_list([one(x) for x in xs])
                return it.new_list(None, one(xs) if xs is not None else None, ln)
        return it.opaque(s, args, kw, sargs, skw, "ext:" + name)

    def module_params(self, r, name):
        it = self.it
        ps = it.T.module_params(r, buffers="buffers" in name)
        if ps is None:
            el = Tn(None, None, None, EMPTY, EMPTY, EMPTY)
            return it.new_list(None, Tup([Sc("str"), el]) if name.startswith("named") else el, None)
        return it.new_list([Tup([const(n), p]) if name.startswith("named") else p for n, p in ps], kind="gen")

    def module_to(self, r, dev, seen=None):
        """Module.to(device): parameters and buffers of the module and of everything registered below it"""
        it = self.it
        seen = set() if seen is None else seen
        if isinstance(r, Un):
            for x in r.ms:
                self.module_to(x, dev, seen)
            return
        if not isinstance(r, Ref) or r.oid in seen:
            return
        seen.add(r.oid)
        o = it.obj(r)
        mv = lambda v: _set(it.T.call("to", [v, dev], {}), tags=v.tags)
        if isinstance(o, HInst) and isinstance(o.cls, str) and o.cls.startswith(("torch.nn.", "torchvision.")):
            if "%dict" in o.attrs:
                d = it.obj(o.attrs["%dict"])
                go = lambda v: mv(v) if isinstance(v, Tn) else (self.module_to(v, dev, seen), v)[1]
                it.st.heap[o.attrs["%dict"].oid] = HDict({k: go(v) for k, v in d.known.items()}, (d.rest[0], go(d.rest[1])) if d.rest else None, d.maybe)
            elif "%items" in o.attrs:
                k, xs, ln = self.iter_items(o.attrs["%items"])
                for x in xs if k == "known" else [xs] if xs is not None else []:
                    self.module_to(x, dev, seen)
        elif isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo) and o.cls.has_base("torch.nn.Module"):
            na = {k: mv(v) if isinstance(v, Tn) and v.tags & {"param", "buffer"} else v for k, v in o.attrs.items()}
            it.st.heap[r.oid] = HInst(o.cls, na, o.extra)
            for x in list(na.values()):
                self.module_to(x, dev, seen)

    def as_param(self, a):
        if isinstance(a, Tn):
            lab = frozenset(["param[" + ",".join("?" if x is None else str(x) for x in (a.shape or ("?",))) + "]"])
            return _set(a, tags=a.tags | {"param"}, deps=frozenset(d for d in a.deps if "#" not in d) | lab, gdeps=lab)
        if isinstance(a, Un):
            return self.it.mkun([self.as_param(m) for m in a.ms])
        return a

    def set_training(self, r, m, seen=None):
        """Module.train: the flag of the module and of everything registered below it"""
        it = self.it
        it.moded = True
        seen = set() if seen is None else seen
        if isinstance(r, Un):
            for x in r.ms:
                self.set_training(x, m, seen)
            return
        if not isinstance(r, Ref) or r.oid in seen:
            return
        seen.add(r.oid)
        o = it.obj(r)
        if isinstance(o, HInst) and isinstance(o.cls, str) and o.cls.startswith(("torch.nn.", "torchvision.")):
            it.st.heap[r.oid] = HInst(o.cls, {**o.attrs, "training": m}, o.extra)
            if "%items" in o.attrs:
                k, xs, ln = self.iter_items(o.attrs["%items"]) if "%dict" not in o.attrs else self.iter_items(it.call_method(o.attrs["%dict"], "values", []))
                for x in xs if k == "known" else [xs] if xs is not None else []:
                    self.set_training(x, m, seen)
        elif isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo) and o.cls.has_base("torch.nn.Module"):
            it.st.heap[r.oid] = HInst(o.cls, {**o.attrs, "training": m}, o.extra)
            for x in list(o.attrs.values()):
                self.set_training(x, m, seen)

    def cls_call(self, c, name, args, kw, sargs, skw):
        it = self.it
        if name in ("__init__", "__setattr__", "__init_subclass__"):
            return NONE
        if name == "__new__":
            info = args[0].info if args and isinstance(args[0], Cls) else c.info
            return it.new(HInst(info, {}))
        if name in ("mro",):
            return it.cls_getattr(c, "__mro__")
        if name == "__subclasses__":
            return it.new_list(None, Top(), None)
        if name == "_make" and c.info.namedtuple:
            k, xs, n = self.iter_items(args[0])
            if k == "known":
                return it.instantiate(c, xs, {})
        return it.opaque(c, args, kw, sargs, skw, f"{c.info.name}.{name}")

    # ------------------------------------------------------------- autograd.Function
    def autograd_apply(self, c, args, kw, sargs):
        it = self.it
        info = c.info
        fwd = it.class_attr(info, "forward")
        bwd = it.class_attr(info, "backward")
        if fwd is None or not isinstance(fwd[1], Fn):
            return it.opaque(c, args, kw, sargs, None, "autograd")
        ctx = it.new(HInst("autograd_ctx", {}))
        outer_g = [it.gdeps(a) for a in args]
        sv = it.nograd
        it.nograd = 1
        try:
            out = it.call_fn(fwd[1], [ctx] + list(args), kw, sargs)
        finally:
            it.nograd = sv
        outs = list(out.items) if isinstance(out, Tup) and out.items is not None else [out]
        nondiff = it.obj(ctx).attrs.get("%nondiff", Tup(())).items
        ndb = set()
        for x in nondiff:
            ndb |= it.bases(x)
        # input tensors returned as they are become views of themselves; keep bases
        grads = None
        if bwd is not None and isinstance(bwd[1], Fn) and sargs is None:
            gouts = []
            for j, o in enumerate(outs):
                if isinstance(o, Tn):
                    gouts.append(Tn(o.shape, o.dtype if o.dtype and o.dtype.startswith("float") else "float32", o.dev, frozenset([f"%g{j}"]), EMPTY, it.storage() if False else frozenset([f"%g{j}"])))
                else:
                    gouts.append(NONE)
            def backward(needs):
                stsave = it.st
                it.st = it.st.fork()
                it.raise_stack.append([])
                it.nograd = 1
                try:
                    it.obj(ctx).attrs["%needs"] = Tup(tuple(const(bool(x)) for x in needs))
                    return self.flat_tuple(it.call_fn(bwd[1], [ctx] + gouts, {}))
                except I.Stop:
                    return None
                finally:
                    it.nograd = sv
                    it.raise_stack.pop()
                    it.st = stsave
            self.asked_needs = False
            grads = backward([bool(x) for x in outer_g])
            if grads is None:
                it.event("autograd_backward_raises", cls=info.qual)
            elif self.asked_needs and sum(map(bool, outer_g)) > 1:
                evs = it.events
                for i, x in enumerate(outer_g):
                    if x and i < len(grads) and any(d.startswith("%g") for d in it.deps(grads[i])):
                        it.events = []
                        alone = backward([i == k for k in range(len(args))])
                        it.events = evs
                        if alone is not None and (i >= len(alone) or isinstance(alone[i], Sc) and alone[i].kind == "none"):
                            it.event("autograd_lost", cls=info.qual, pos=i)
            if grads is not None:
                it.event("autograd", cls=info.qual, nargs=len(args), nret=len(grads), node=bwd[1].node)
                extra = grads[len(args):]       # trailing None gradients are dropped by torch
                if len(grads) < len(args) or not all(isinstance(g, Sc) and g.kind == "none" for g in extra):
                    it.event("autograd_arity", cls=info.qual, nargs=len(args), nret=len(grads))
                for i, (a, g) in enumerate(zip(args, grads)):
                    for gm in (g.ms if isinstance(g, Un) else [g]):
                        if isinstance(gm, Tn):
                            for am in (a.ms if isinstance(a, Un) else [a]):
                                if isinstance(am, Tn) and am.shape is not None and gm.shape is not None:
                                    bad = len(am.shape) != len(gm.shape) or any(dims.eq(x, y) is False and not dims.is_opaque(x) and not dims.is_opaque(y) for x, y in zip(am.shape, gm.shape))
                                    if bad:
                                        it.event("autograd_shape", cls=info.qual, pos=i, arg=repr(am), grad=repr(gm))
                                elif isinstance(am, Sc) and am.kind != "none" and not isinstance(a, Un):
                                    it.event("autograd_nontensor_grad", cls=info.qual, pos=i)
        res = []
        for j, o in enumerate(outs):
            if isinstance(o, Tn):
                g = EMPTY
                if not it.nograd and (o.dtype is None or o.dtype.startswith(("float", "complex", "bfloat"))) and not (o.base & ndb):
                    if grads is None:
                        for x in outer_g:
                            g = g | x
                        if bwd is not None and len(grads or []) == 0 and bwd is not None:
                            pass
                    else:
                        for i, gr in enumerate(grads):
                            if i < len(outer_g) and f"%g{j}" in it.deps(gr):
                                g = g | outer_g[i]
                o = _set(o, gdeps=g)
                # clear gradient info recorded through storages
            res.append(o)
        if isinstance(out, Tup) and out.items is not None:
            return _set(out, items=tuple(res))
        return res[0]

    def flat_tuple(self, v):
        if isinstance(v, Un):
            rs = [self.flat_tuple(m) for m in v.ms]
            n = {len(r) for r in rs}
            if len(n) == 1:
                out = []
                for xs in zip(*rs):
                    e = None
                    for x in xs:
                        e = self.it.join(e, x)
                    out.append(e)
                return out
            return rs[0]
        if isinstance(v, Tup):
            return list(v.items) if v.items is not None else [v.elem] * (v.length if isinstance(v.length, int) else 1)
        return [v]

    # ------------------------------------------------------------- external calls
    def call_ext(self, fn, args, kw, sargs, skw):
        it = self.it
        n = fn.name
        if n.startswith("builtins."):
            return self.builtin(n[9:], args, kw, sargs, skw)
        if n.startswith("pytorch3d._C."):
            return it.T.c_call(n[13:], args, kw)
        if n.startswith(("torch.nn.functional.", "torch.linalg.", "torch.sparse.", "torch.special.", "torch.fft.")):
            if sargs is not None:
                args = list(args) + [sargs]
            return it.T.call(n[6:], args, kw)
        if n == "torch.nn.init._calculate_fan_in_and_fan_out":
            t = args[0] if args else NONE
            sh = t.shape if isinstance(t, Tn) and t.shape is not None and len(t.shape) >= 2 else None
            return Tup([intv(sh[1]) if sh else Sc("int"), intv(sh[0]) if sh else Sc("int")])
        if n.startswith("torch.nn.init."):
            if args and isinstance(args[0], Tn):
                it.event("rng", op=n)
                it.T.write(args[0], args[1:], op=n)
                return args[0]
            return NONE
        if n in ("torch.nn.Parameter", "torch.nn.parameter.Parameter"):
            return self.as_param(args[0] if args else kw.get("data", Top()))
        if n.startswith("torch.nn.") and n[9:10].isupper():
            at = {"%args": Tup(args), "%kw": it.new_dict(kw), "training": Sc("bool", UNK, frozenset(["training"]))}
            if n.endswith((".ModuleList", ".Sequential")):
                if len(args) == 1 and n.endswith("ModuleList"):
                    k, xs, ln = self.iter_items(args[0])
                    at["%items"] = it.new_list(xs if k == "known" else None, None if k == "known" else xs, ln)
                else:
                    at["%items"] = it.new_list(list(args))
            if n.endswith(("ModuleDict", "ParameterDict")):
                at["%dict"] = it.new_dict({})
                if args:
                    self.dict_update(at["%dict"], args[0])
                if n.endswith("ParameterDict"):
                    o = it.obj(at["%dict"])
                    it.st.heap[at["%dict"].oid] = HDict({k: self.as_param(v) for k, v in o.known.items()}, (o.rest[0], self.as_param(o.rest[1])) if o.rest else None, o.maybe)
                at["%items"] = at["%dict"]
            return it.new(HInst(n, at))
        if n in ("torch.nn.utils.weight_norm", "torch.nn.utils.spectral_norm", "torch.nn.utils.parametrizations.weight_norm"):
            return args[0]
        if n.startswith("torch."):
            m = n[6:]
            if m in ("no_grad", "enable_grad", "set_grad_enabled", "inference_mode", "Generator", "device_ctx", "autograd.set_detect_anomaly", "autograd.profiler.record_function",
                     "cuda.stream", "cuda.amp.autocast", "autocast", "cuda.device", "random.fork_rng", "_C._log_api_usage_once"):
                if m == "_C._log_api_usage_once":
                    return NONE
                at = {}
                if m in ("set_grad_enabled",):
                    at["mode"] = args[0] if args else kw.get("mode", TRUE)
                    at["%prev"] = it.T.ambient("grad") or NONE
                    it.T.setamb("grad", [at["mode"]])
                if m == "random.fork_rng":
                    it.event("fork_rng")
                return it.new(HInst(n, at))
            if sargs is not None:
                args = list(args) + [sargs]
            return it.T.call(m, args, kw)
        if n.startswith("numpy."):
            if sargs is not None:
                args = list(args) + [sargs]
            return it.T.np_call(n[6:], args, kw)
        if n.startswith("math."):
            return self.mathfn(n[5:], args)
        d = EMPTY
        for v in list(args) + list(kw.values()) + [sargs, skw]:
            if v is not None:
                d = d | it.deps(v)
        if n in ("warnings.warn", "warnings.filterwarnings", "warnings.simplefilter", "logging.warning", "logging.info", "gc.collect", "atexit.register", "sys.exit", "os.makedirs"):
            if n == "sys.exit":
                it.do_raise("SystemExit")
            if n == "os.makedirs":
                it.event("fs", op=n)
            return NONE
        if n in ("functools.partial", "functools.partialmethod"):
            return Partial(args[0], args[1:], tuple(kw.items()))
        if n in ("functools.wraps", "functools.lru_cache", "functools.cache", "torch.jit.script", "torch.jit.ignore", "typing.no_type_check", "contextlib.contextmanager",
                 "torch.no_grad.__call__", "dataclasses.dataclass"):
            if len(args) == 1 and isinstance(args[0], (Fn, Cls)) and n not in ("functools.wraps",):
                return args[0]
            return Ext("builtins.__identity__")
        if n == "dataclasses.field":
            return it.new(HInst("dataclasses.field", dict(kw)))
        if n in ("dataclasses.replace",):
            o = it.obj(args[0]) if isinstance(args[0], Ref) else None
            if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo):
                base = {k: v for k, v in o.attrs.items() if k in it.dataclass_fields(o.cls)}
                base.update(kw)
                return it.instantiate(Cls(o.cls), [], base)
        if n in ("dataclasses.fields",):
            o = it.obj(args[0]) if isinstance(args[0], Ref) else None
            info = o.cls if isinstance(o, HInst) else (args[0].info if isinstance(args[0], Cls) else None)
            if isinstance(info, I.ClassInfo):
                return Tup([it.new(HInst("dataclasses.Field", {"name": const(f), "type": Top(), "default": Top(), "init": TRUE})) for f in it.dataclass_fields(info)])
        if n in ("dataclasses.asdict",):
            o = it.obj(args[0]) if isinstance(args[0], Ref) else None
            if isinstance(o, HInst):
                return it.new_dict({k: v for k, v in o.attrs.items()})
        if n == "copy.copy":
            return self.copy_(args[0])
        if n == "copy.deepcopy":
            return self.deepcopy(args[0], {})
        if n in ("collections.OrderedDict", "collections.defaultdict", "collections.Counter", "collections.ChainMap"):
            r = it.new_dict({})
            if n.endswith("defaultdict"):
                if args:
                    if not hasattr(self, "_dd"):
                        self._dd = {}
                    self._dd[r.oid] = args[0]
                return r
            if args:
                if n.endswith("Counter"):
                    it.st.heap[r.oid] = HDict({}, (Top(d), Sc("int", UNK, d)))
                else:
                    self.dict_update(r, args[0])
            return r
        if n == "collections.deque":
            if args:
                return self.builtin("list", args[:1], {}, None, None)
            return it.new_list([])
        if n in ("collections.namedtuple",):
            nm = args[0].v if args and isinstance(args[0], Sc) and isinstance(args[0].v, str) else "nt"
            fields = None
            fv = args[1] if len(args) > 1 else kw.get("field_names")
            if isinstance(fv, Sc) and isinstance(fv.v, str):
                fields = fv.v.replace(",", " ").split()
            elif fv is not None:
                k, xs, _ = self.iter_items(fv)
                if k == "known" and all(isinstance(x, Sc) and isinstance(x.v, str) for x in xs):
                    fields = [x.v for x in xs]
            if fields is None:
                return Ext("builtins.__namedtuple__")
            from .interp import ClassInfo
            f = it.frames[-1]
            info = ClassInfo(nm, f.mod, ast.parse(f"class {nm}: pass").body[0], [], None)
            info.namedtuple = True
            info.ann = [(x, None) for x in fields]
            dv = kw.get("defaults")
            if dv is not None:
                k, xs, _ = self.iter_items(dv)
                if k == "known":
                    for fn_, x in zip(fields[len(fields) - len(xs):], xs):
                        info.attrs[fn_] = ("value", x, None)
            return Cls(info)
        if n in ("typing.cast",):
            return args[1]
        if n in ("typing.TypeVar", "typing.NewType", "logging.getLogger"):
            return it.new(HInst("logger", {})) if n.endswith("getLogger") else Ext(n)
        if n == "itertools.chain" or n == "itertools.chain.from_iterable":
            xs = args
            if n.endswith("from_iterable"):
                k, xs, ln = self.iter_items(args[0])
                if k != "known":
                    k2, y, l2 = self.iter_items(xs) if xs is not None else ("known", [], 0)
                    if k2 == "known":
                        l2 = len(y)
                        e = None
                        for i in y:
                            e = it.join(e, i)
                        y = e
                    return it.new_list(None, y, dims.mul(ln, l2) if ln is not None and l2 is not None else None, "gen")
            r = it.new_list([], kind="gen")
            for a in xs:
                self.list_extend(r, a)
            return r
        if n in ("itertools.product", "itertools.combinations", "itertools.permutations", "itertools.zip_longest", "itertools.accumulate", "itertools.islice", "itertools.repeat", "itertools.count", "itertools.groupby"):
            if n.endswith("zip_longest"):
                seqs = [self.iter_items(a) for a in args]
                if all(s[0] == "known" for s in seqs):
                    m = max(len(s[1]) for s in seqs)
                    fill = kw.get("fillvalue", NONE)
                    return it.new_list([Tup([s[1][i] if i < len(s[1]) else fill for s in seqs]) for i in range(m)], kind="gen")
            if n.endswith("product") and "repeat" not in kw:
                seqs = [self.iter_items(a) for a in args]
                if all(s[0] == "known" for s in seqs):
                    import itertools
                    c = list(itertools.product(*[s[1] for s in seqs]))
                    if len(c) <= 64:
                        return it.new_list([Tup(x) for x in c], kind="gen")
                es = []
                ln = 1
                for k, x, m in seqs:
                    if k == "known":
                        e = None
                        for y in x:
                            e = it.join(e, y)
                        x = e
                    es.append(x if x is not None else Top())
                    ln = dims.mul(ln, m)
                return it.new_list(None, Tup(es), ln, "gen")
            if n.endswith("combinations") and isinstance(args[1], Sc) and isinstance(args[1].v, int):
                k, x, m = self.iter_items(args[0])
                if k == "known":
                    import itertools
                    c = list(itertools.combinations(x, args[1].v))
                    if len(c) <= 64:
                        return it.new_list([Tup(y) for y in c], kind="gen")
            if n.endswith("repeat") and args:
                return it.new_list(None, args[0], dimof(args[1]) if len(args) > 1 else None, "gen")
            if n.endswith("accumulate"):
                k, x, m = self.iter_items(args[0])
                return it.new_list(None, Sc("int", UNK, d), m, "gen")
            return it.new_list(None, Top(d, frozenset().union(*[it.gdeps(a) for a in args])), None, "gen")
        if n.startswith("operator."):
            return it.opaque(fn, args, kw, sargs, skw, n)
        if n == "os.environ.get" or n == "os.getenv":
            return it.join(Sc("str"), args[1] if len(args) > 1 else NONE)
        if n.startswith("os.path."):
            if all(isinstance(a, Sc) and a.kind == "str" and a.v is not UNK for a in args) and n in ("os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext", "os.path.split"):
                import os
                r = getattr(os.path, n[8:])(*[a.v for a in args])
                return it.adddeps(const(r), d)
            if n in ("os.path.isfile", "os.path.isdir", "os.path.exists"):
                it.event("fs", op=n)
                return Sc("bool", UNK, d)
            if n in ("os.path.splitext", "os.path.split"):
                return Tup([Sc("str", UNK, d), Sc("str", UNK, d)])
            return Sc("str", UNK, d)
        if n.startswith("random.") or n.startswith("secrets."):
            it.event("rng", op=n)
            if n in ("random.choice", "random.sample", "random.choices"):
                k, x, m = self.iter_items(args[0])
                if k == "known":
                    e = None
                    for y in x:
                        e = it.join(e, y)
                    x = e
                return x if n == "random.choice" else it.new_list(None, x, None)
            if n in ("random.randint", "random.randrange"):
                return Sc("int", UNK, d)
            if n in ("random.random", "random.uniform"):
                return Sc("float", UNK, d)
            return NONE
        if n.startswith("time."):
            return Sc("float", UNK, EMPTY)
        if n in ("struct.calcsize", "struct.pack"):
            return Sc("int" if n.endswith("calcsize") else "bytes", UNK, d)
        if n in ("struct.unpack", "struct.unpack_from"):
            return Tup(None, Sc("any", UNK, d), None)
        if n in ("json.load", "json.loads"):
            return Top(d, EMPTY, EMPTY, "json")
        if n in ("contextlib.ExitStack", "contextlib.nullcontext", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory", "contextlib.suppress"):
            at = {}
            if n.endswith("nullcontext"):
                at["__enter__value"] = args[0] if args else NONE
            return it.new(HInst(n, at))
        if n == "contextlib.closing":
            return it.new(HInst(n, {"__enter__value": args[0] if args else kw.get("thing", NONE)}))
        if n.startswith(("iopath.", "fvcore.")) and n.split(".")[-1][0].isupper():
            return it.new(HInst(n, {}))
        if n == "pathlib.Path":
            return it.new(HInst("pathlib.Path", {"%p": Sc("str", UNK, self.deps_all(NONE, args, kw) | d | (self.deps_all(args[0], [], {}) if args else EMPTY))}))
        if n in ("PIL.Image.open", "PIL.Image.fromarray"):
            if n.endswith("open") and args:
                o = it.obj(args[0]) if isinstance(args[0], Ref) else None
                if not (isinstance(o, HInst) and o.cls in ("file", "io.BytesIO")):
                    it.event("open", via="PIL", path=repr(args[0]), deps=d, mode="r")
                d = d | self.deps_all(args[0], [], {}) | {"file"}
            return it.new(HInst("PIL.Image.Image", {"%data": Sc("any", UNK, d)}))
        if n == "struct.Struct":
            return it.new(HInst("struct.Struct", {"size": Sc("int"), "format": Sc("str"), "%data": Sc("any", UNK, d)}))
        if n in ("json.dump", "pickle.dump"):
            self.write_to(args[1] if len(args) > 1 else kw.get("fp", NONE), it.deps(args[0]), n)
            return NONE
        if n in ("inspect.ismethod", "inspect.isfunction", "inspect.isclass", "inspect.isroutine", "inspect.isbuiltin") and args:
            v = it.force(args[0])
            if isinstance(v, Un):
                return it.branch([lambda m=m: self.call_ext(fn, [m], {}, None, None) for m in v.ms])
            if isinstance(v, (Tn, Sc, Tup, Sl, Mod, Ref)):
                return const(False)
            if isinstance(v, Bound):
                return const(n in ("inspect.ismethod", "inspect.isroutine"))
            if isinstance(v, Fn):
                return const(n in ("inspect.isfunction", "inspect.isroutine"))
            if isinstance(v, Cls):
                return const(n == "inspect.isclass")
            return Sc("bool", UNK, d)
        if n.startswith("inspect."):
            return Top(d, EMPTY, EMPTY, n)
        if n in ("abc.abstractmethod",):
            return args[0] if args else NONE
        return it.opaque(fn, args, kw, sargs, skw, n)

    def mathfn(self, n, args):
        it = self.it
        if any(isinstance(a, Un) for a in args):
            i = next(i for i, a in enumerate(args) if isinstance(a, Un))
            return it.branch([lambda m=m: self.mathfn(n, list(args[:i]) + [m] + list(args[i + 1:])) for m in args[i].ms])
        d = frozenset().union(*[it.deps(a) for a in args]) if args else EMPTY
        vals = [a.v if isinstance(a, Sc) else UNK for a in args]
        if all(v is not UNK and not isinstance(v, Dim) for v in vals):
            try:
                return it.adddeps(const(getattr(math, n)(*vals)), d)
            except Exception:
                pass
        if n == "prod" and args:
            k, x, m = self.iter_items(args[0])
            if k == "known":
                return intv(dims.prod([dimof(y) for y in x]), d)
        if n in ("ceil", "floor", "trunc", "gcd"):
            if isinstance(args[0], Sc) and isinstance(args[0].v, Dim):
                return args[0]
            return Sc("int", UNK, d)
        if n in ("isnan", "isinf", "isfinite", "isclose"):
            return Sc("bool", UNK, d)
        if n in ("frexp", "modf"):
            return Tup([Sc("float", UNK, d)] * 2)
        return Sc("float", UNK, d)

    def copy_(self, v):
        it = self.it
        if isinstance(v, Un):
            return it.branch([lambda m=m: self.copy_(m) for m in v.ms])
        if isinstance(v, Ref):
            o = it.obj(v)
            if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo):
                m = it.class_attr(o.cls, "__copy__")
                if m:
                    return it.call(Bound(v, m[1]), [], {})
                return it.new(HInst(o.cls, o.attrs, o.extra))
            if isinstance(o, HList):
                return it.new(HList(o.items, o.elem, o.length, o.kind))
            if isinstance(o, HDict):
                return it.new(HDict(o.known, o.rest, o.maybe))
        return v

    def deepcopy(self, v, memo):
        it = self.it
        if isinstance(v, Un):
            return Un([self.deepcopy(m, memo) for m in v.ms])
        if isinstance(v, Tn):
            d, g = it.eff(v)
            return _set(v, base=it.storage(), deps=d, gdeps=g)
        if isinstance(v, Tup):
            if v.items is not None:
                return _set(v, items=tuple(self.deepcopy(x, memo) for x in v.items))
            return _set(v, elem=self.deepcopy(v.elem, memo))
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            o = it.obj(v)
            r = it.new(o)
            memo[v.oid] = r
            if isinstance(o, HList):
                n = HList([self.deepcopy(x, memo) for x in o.items], kind=o.kind) if o.items is not None else HList(None, self.deepcopy(o.elem, memo) if o.elem is not None else None, o.length, o.kind)
            elif isinstance(o, HDict):
                n = HDict({k: self.deepcopy(x, memo) for k, x in o.known.items()}, (o.rest[0], self.deepcopy(o.rest[1], memo)) if o.rest else None, o.maybe)
            elif isinstance(o, HInst):
                n = HInst(o.cls, {k: self.deepcopy(x, memo) for k, x in o.attrs.items()}, o.extra)
            else:
                n = o
            it.st.heap[r.oid] = n
            return r
        return v

    def builtin(self, n, args, kw, sargs, skw):
        it = self.it
        d = EMPTY
        for v in list(args) + list(kw.values()):
            d = d | it.deps(v)
        if n == "__identity__":
            return args[0]
        if n == "len":
            return self.length(args[0])
        if n == "range":
            return self.range_(args)
        if n in ("isinstance", "issubclass"):
            if n == "issubclass":
                a, b = args
                bs = b.items if isinstance(b, Tup) else [b]
                if isinstance(a, Cls) and all(isinstance(x, Cls) for x in bs):
                    return const(any(c is x.info for c in a.info.mro() for x in bs))
                if isinstance(a, Ext) and all(isinstance(x, Cls) for x in bs):
                    return FALSE
                return Sc("bool", UNK, d)
            t = self.isinstance_(args[0], args[1])
            return Sc("bool", UNK if t is None else t, I.meta(it.shallow(args[0])))
        if n == "super":
            return Top(hint="super")
        if n == "type":
            if len(args) == 1:
                v = args[0]
                if isinstance(v, Un):
                    return it.branch([lambda m=m: self.builtin(n, [m], {}, None, None) for m in v.ms])
                if isinstance(v, Ref):
                    o = it.obj(v)
                    if isinstance(o, HInst):
                        return Cls(o.cls) if isinstance(o.cls, I.ClassInfo) else Ext(o.cls)
                    if isinstance(o, HDict):
                        return Ext("builtins.dict")
                    return Ext("builtins." + ("list" if o.kind == "gen" else o.kind))
                if isinstance(v, Sc) and v.kind in ("int", "float", "str", "bool", "bytes"):
                    return Ext("builtins." + v.kind)
                if isinstance(v, Sc) and v.kind == "none":
                    return Ext("types.NoneType")
                if isinstance(v, Tn):
                    return Ext("torch.Tensor" if v.lib == "torch" else "numpy.ndarray")
                if isinstance(v, Tup):
                    return Cls(v.cls) if isinstance(v.cls, I.ClassInfo) else Ext("builtins.tuple")
                if isinstance(v, Cls):
                    return Ext("builtins.type")
                if isinstance(v, Fn):
                    return Ext("types.FunctionType")
                if isinstance(v, Bound):
                    return Ext("types.MethodType")
                if isinstance(v, Sc) and v.kind in ("dtype", "device"):
                    return Ext("torch." + v.kind)
                if isinstance(v, Sl):
                    return Ext("builtins.slice")
            return Top(d, hint="type")
        if n in ("list", "tuple", "set", "frozenset", "iter", "reversed", "sorted"):
            if not args:
                return Tup(()) if n == "tuple" else it.new_list([], kind="set" if "set" in n else "list")
            if isinstance(args[0], Un) and n != "iter":
                return it.branch([lambda m=m: self.builtin(n, [m] + list(args[1:]), kw, sargs, skw) for m in args[0].ms])
            k, xs, ln = self.iter_items(args[0])
            dd = args[0].deps if isinstance(args[0], (Tup, Ref)) else EMPTY
            if n == "reversed" and k == "known":
                xs = xs[::-1]
            if n in ("sorted",) and k == "known":
                if all(isinstance(x, Sc) and x.kind in ("int", "str") and x.v is not UNK and not isinstance(x.v, Dim) for x in xs) and "key" not in kw:
                    try:
                        xs = sorted(xs, key=lambda x: x.v, reverse=bool(kw.get("reverse", FALSE).v is True))
                    except TypeError:
                        pass
                elif len(xs) > 1:
                    e = None
                    for x in xs:
                        e = it.join(e, x)
                    if "key" in kw:
                        it.call(kw["key"], [e], {})
                    xs, k = e, "unk"
            elif n == "sorted" and "key" in kw and xs is not None:
                dd = dd | it.deps(it.call(kw["key"], [xs], {}))
            if "set" in n:
                if k == "known":
                    out = []
                    sure = True
                    for x in xs:
                        ts = [self.eq(x, y) for y in out]
                        if True in ts:
                            continue
                        if None in ts:
                            sure = False
                        out.append(x)
                    if sure:
                        return it.new_list(out, kind="set")
                    e = None
                    for x in xs:
                        e = it.join(e, x)
                    return it.new_list(None, e, None, "set")
                return it.new_list(None, xs, None, "set")
            if k == "known":
                return Tup(xs, deps=dd) if n == "tuple" else it.adddeps(it.new_list(xs, kind="gen" if n in ("iter", "reversed") else "list"), dd)
            return Tup(None, xs, ln, deps=dd) if n == "tuple" else it.adddeps(it.new_list(None, xs, ln, "gen" if n in ("iter", "reversed") else "list"), dd)
        if n == "dict":
            r = it.new_dict({})
            for a in args:
                self.dict_update(r, a)
            if kw:
                self.dict_update(r, it.new_dict(kw))
            if skw is not None:
                self.dict_update(r, it.new_dict({}, (Sc("str"), skw)))
            return r
        if n == "enumerate":
            k, xs, ln = self.iter_items(args[0])
            start = args[1] if len(args) > 1 else kw.get("start", const(0))
            if k == "known" and isinstance(start, Sc) and isinstance(start.v, int):
                return it.new_list([Tup([const(i + start.v), x]) for i, x in enumerate(xs)], kind="gen")
            if k == "known":
                e = None
                for x in xs:
                    e = it.join(e, x)
                xs = e
            return it.new_list(None, Tup([Sc("int", UNK, I.ctl(it.shallow(args[0]))), xs if xs is not None else Top()]), ln, "gen")
        if n == "zip":
            seqs = [self.iter_items(a) for a in args]
            if sargs is not None:
                return it.new_list(None, Tup(None, Top(it.deps(sargs), it.gdeps(sargs), it.bases(sargs)), None), None, "gen")
            if seqs and all(s[0] == "known" for s in seqs):
                return it.new_list([Tup(t) for t in zip(*[s[1] for s in seqs])], kind="gen")
            known = [len(s[1]) for s in seqs if s[0] == "known"]
            if known and len(known) < len(seqs) and min(known) <= 8 and all(s[0] == "known" or s[2] is None or dims.lt(min(known) - 1, s[2]) for s in seqs) and all(s[0] == "known" or s[2] is not None for s in seqs):
                m = min(known)
                return it.new_list([Tup([s[1][i] if s[0] == "known" else s[1] for s in seqs]) for i in range(m)], kind="gen")
            es, ln, first = [], None, True
            for k, x, m in seqs:
                if k == "known":
                    e = None
                    for y in x:
                        e = it.join(e, y)
                    x = e
                es.append(x if x is not None else Top())
                if first or ln is None:
                    ln = m
                elif m is not None and m != ln:
                    t = dims.lt(m, ln)
                    ln = m if t is True else (ln if t is False else None)
                first = False
            return it.new_list(None, Tup(es), ln, "gen")
        if n in ("map", "filter"):
            f = args[0]
            if n == "map":
                if len(args) == 2:
                    k, xs, ln = self.iter_items(args[1])
                    if k == "known" and len(xs) <= 40:
                        out = []
                        for i, x in enumerate(xs):
                            it._sub += 1
                            sv = it.ctx
                            it.ctx = it._idraw((sv, id(it.node), "map", i))
                            try:
                                out.append(it.call(f, [x], {}))
                            finally:
                                it.ctx = sv
                        return it.new_list(out, kind="gen")
                    if k == "known":
                        e = None
                        for x in xs:
                            e = it.join(e, x)
                        xs = e
                    return it.new_list(None, it.call(f, [xs if xs is not None else Top()], {}), ln, "gen")
                z = self.builtin("zip", args[1:], {}, None, None)
                k, xs, ln = self.iter_items(z)
                if k == "known":
                    return it.new_list([it.call(f, list(x.items), {}) for x in xs], kind="gen")
                return it.new_list(None, it.call(f, list(xs.items), {}), ln, "gen")
            k, xs, ln = self.iter_items(args[1])
            if k == "known":
                e = None
                for x in xs:
                    e = it.join(e, x)
                xs = e
            if not (isinstance(f, Sc) and f.kind == "none"):
                it.call(f, [xs if xs is not None else Top()], {})
            return it.new_list(None, xs, None, "gen")
        if n in ("any", "all"):
            a = args[0]
            k, xs, ln = self.iter_items(a)
            if k == "known":
                ts = [it.truth(x) for x in xs]
                if n == "any":
                    t = True if True in ts else (False if all(x is False for x in ts) else None)
                else:
                    t = False if False in ts else (True if all(x is True for x in ts) else None)
                return Sc("bool", UNK if t is None else t, d)
            if xs is None and ln == 0:
                return const(n == "all")
            t = it.truth(xs) if xs is not None else None
            t = t if (n == "any" and t is False) or (n == "all" and t is True) else (t if ln is not None and t is not None else None)
            return Sc("bool", UNK if t is None else t, d)
        if n in ("max", "min", "sum"):
            return self.maxmin(n, args, kw, d)
        if n in ("int", "float", "bool", "str"):
            return self.conv(n, args, kw, d)
        if n in ("abs", "round", "divmod", "pow"):
            a = args[0]
            if isinstance(a, Un):
                return it.branch([lambda m=m: self.builtin(n, [m] + list(args[1:]), kw, sargs, skw) for m in a.ms])
            if isinstance(a, Tn):
                return it.T.call({"abs": "abs", "round": "round", "pow": "pow"}.get(n, "abs"), args, kw)
            if isinstance(a, Sc) and a.v is not UNK and not isinstance(a.v, Dim) and all(isinstance(x, Sc) and x.v is not UNK and not isinstance(x.v, Dim) for x in args):
                try:
                    return it.adddeps(const({"abs": abs, "round": round, "divmod": divmod, "pow": pow}[n](*[x.v for x in args])), d)
                except Exception:
                    pass
            if n == "divmod":
                return Tup([Sc("int", UNK, d), Sc("int", UNK, d)])
            return Sc("int" if n == "round" and len(args) == 1 else getattr(a, "kind", "float"), UNK, d)
        if n == "getattr":
            if isinstance(args[1], Un):
                return it.branch([lambda m=m: self.builtin(n, [args[0], m] + list(args[2:]), kw, sargs, skw) for m in args[1].ms])
            if isinstance(args[1], Sc) and args[1].v is not UNK:
                if len(args) > 2:
                    base = it.st
                    it.st = base.fork()
                    nr = len(it.raise_stack[-1])
                    try:
                        return it.adddeps(it.getattr(args[0], args[1].v), args[1].deps)
                    except I.Stop:
                        del it.raise_stack[-1][nr:]
                        it.st = base
                        return args[2]
                return it.adddeps(it.getattr(args[0], args[1].v), args[1].deps)
            return self.any_attr(args[0], d)
        if n == "hasattr":
            v = args[0]
            if isinstance(args[1], Sc) and args[1].v is not UNK:
                if isinstance(v, Top):
                    return Sc("bool", UNK, d)
            return self.hasattr_(v, args[1])
        if n == "setattr":
            if isinstance(args[1], Un):
                for m in args[1].ms:
                    it.setattr(args[0], m.v, args[2])
                return NONE
            if isinstance(args[1], Sc) and args[1].v is not UNK:
                it.setattr(args[0], args[1].v, it.wpc(args[2]))
            else:
                o = it.obj(args[0]) if isinstance(args[0], Ref) else None
                if isinstance(o, HInst):
                    it.st.heap[args[0].oid] = HInst(o.cls, {k: it.join(x, args[2]) for k, x in o.attrs.items()}, "open")
            return NONE
        if n == "delattr":
            o = it.obj(args[0]) if isinstance(args[0], Ref) else None
            if isinstance(o, HInst) and isinstance(args[1], Sc) and args[1].v is not UNK:
                a = dict(o.attrs)
                a.pop(args[1].v, None)
                it.st.heap[args[0].oid] = HInst(o.cls, a, o.extra)
            return NONE
        if n == "callable":
            if isinstance(args[0], (Fn, Cls, Ext, Bound, Partial)):
                return TRUE
            if isinstance(args[0], (Sc, Tn, Tup)):
                return FALSE
            if isinstance(args[0], Ref):
                o = it.obj(args[0])
                if isinstance(o, (HList, HDict)):
                    return FALSE
                if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo):
                    return const(bool(it.class_attr(o.cls, "__call__")) or any(not isinstance(k, I.ClassInfo) for k in o.cls.mro()))
            return Sc("bool", UNK, EMPTY)
        if n == "open":
            return self.open_(args, kw, "builtin")
        if n == "slice":
            a = list(args)
            if len(a) == 1:
                return Sl(NONE, a[0], NONE)
            return Sl(a[0], a[1], a[2] if len(a) > 2 else NONE)
        if n in ("print", "input", "breakpoint"):
            it.event("print", op=n)
            return NONE
        if n == "next":
            k, xs, ln = self.iter_items(args[0])
            if k == "known":
                if xs:
                    return xs[0]
                if len(args) > 1:
                    return args[1]
                it.do_raise("StopIteration")
            r = xs
            if len(args) > 1:
                r = it.join(r, args[1])
            return r if r is not None else Top(d)
        if n in ("id", "hash", "ord"):
            return Sc("int", UNK, d)
        if n in ("repr", "chr", "format", "bin", "hex", "ascii"):
            return Sc("str", UNK, d)
        if n == "vars":
            o = it.obj(args[0]) if args and isinstance(args[0], Ref) else None
            if isinstance(o, HInst):
                return it.new_dict(o.attrs)
            return Top(d)
        if n == "dir":
            o = it.obj(args[0]) if args and isinstance(args[0], Ref) else None
            if isinstance(o, HInst) and isinstance(o.cls, I.ClassInfo):
                names = set(o.attrs)
                for c in o.cls.mro():
                    if isinstance(c, I.ClassInfo):
                        names |= set(c.attrs)
                return it.new_list([const(x) for x in sorted(names)])
            return it.new_list(None, Sc("str"), None)
        if n in ("bytes", "bytearray"):
            return Sc("bytes", UNK, d)
        if n in ("object",):
            return it.new(HInst("builtins.object", {}))
        if n in ("staticmethod", "classmethod", "property"):
            return args[0]
        if n == "memoryview":
            return Top(d)
        if n and n[0].isupper():
            return it.new(HInst("builtins." + n, {}))
        return it.opaque(Ext("builtins." + n), args, kw, sargs, skw, "builtins." + n)

    def any_attr(self, o, d):
        it = self.it
        ob = it.obj(o) if isinstance(o, Ref) else None
        if isinstance(ob, HInst):
            e = None
            for v in ob.attrs.values():
                e = it.join(e, v)
            if e is not None:
                return it.adddeps(e, I.ctl(d - it.deps(o)))
        return Top(d | it.deps(o), it.gdeps(o), it.bases(o), "getattr")

    def hasattr_(self, v, nm):
        it = self.it
        if isinstance(v, Un):
            ts = {self.hasattr_(m, nm).v if self.hasattr_(m, nm).v is not UNK else None for m in v.ms}
            return Sc("bool", ts.pop() if len(ts) == 1 and None not in ts else UNK)
        if not (isinstance(nm, Sc) and nm.v is not UNK):
            return Sc("bool")
        nm = nm.v
        if isinstance(v, Ref):
            o = it.obj(v)
            if isinstance(o, HInst):
                if nm in o.attrs:
                    return TRUE
                if isinstance(o.cls, I.ClassInfo):
                    if it.class_attr(o.cls, nm) is not None:
                        return TRUE
                    if o.extra == "open":
                        return Sc("bool")
                    eb = [e for e in o.cls.ext_bases()]
                    if not eb or all(isinstance(e, Ext) and e.name == "torch.nn.Module" for e in eb):
                        return const(nm in MODULE_METHODS if eb else False)
                    return Sc("bool")
            if isinstance(o, HList):
                return const(hasattr([], nm))
            if isinstance(o, HDict):
                return const(hasattr({}, nm))
        if isinstance(v, Cls):
            return const(it.class_attr(v.info, nm) is not None) if not v.info.ext_bases() else Sc("bool")
        if isinstance(v, Sc):
            if v.kind == "none":
                return const(hasattr(None, nm))
            if v.kind in ("int", "float", "str"):
                return const(hasattr({"int": 0, "float": 0.0, "str": ""}[v.kind], nm))
        if isinstance(v, Tn):
            if v.lib == "torch":
                return const(nm in tensor_attrs() or nm.startswith("__"))
            if nm in ("shape", "dtype", "ndim", "__len__", "size"):
                return TRUE
            if nm.endswith(("_padded", "_packed", "_list")):
                return FALSE
        if isinstance(v, Tup):
            if v.fields and nm in v.fields:
                return TRUE
        return Sc("bool")

    def deps_all(self, s, args, kw):
        it = self.it
        d = it.deps(s)
        o = it.obj(s) if isinstance(s, Ref) else None
        if isinstance(o, HInst):
            for v in o.attrs.values():
                d = d | it.deps(v)
        for a in list(args) + list(kw.values()):
            d = d | it.deps(a)
        return d

    def disk(self, d):
        """data with these dependences has been written to a file"""
        it = self.it
        o = it.st.heap.get("%disk")
        if o is None:
            o = HInst("%disk", {"written": Sc("bytes", UNK, EMPTY)})
        w = o.attrs["written"]
        it.st.heap["%disk"] = HInst("%disk", {"written": Sc("bytes", UNK, w.deps | it.wpc(Sc("bytes", UNK, d)).deps)})

    def file_method(self, s, o, name, args, kw, sargs, skw):
        it = self.it
        d = o.attrs["data"].deps if "data" in o.attrs else EMPTY
        if name not in ("close", "__enter__", "__exit__") and o.cls == "file":
            it.may_raise("OSError", (s.oid, it.node))
        if name in ("write", "writelines"):
            for a in args[:1]:
                if name == "write" and isinstance(a, Sc) and a.kind in ("str", "bytes") and isinstance(o.attrs.get("mode"), Sc) and isinstance(o.attrs["mode"].v, str) and o.cls == "file":
                    if (a.kind == "bytes") != ("b" in o.attrs["mode"].v):
                        it.event("file_kind", got=a.kind, mode=o.attrs["mode"].v)
            self.write_to(s, frozenset().union(*[it.deps(a) for a in args]) if args else EMPTY, "write")
            return Sc("int", UNK, EMPTY)
        if name == "close":
            self.close_file(s)
            return NONE
        if name == "readlines":
            return it.new_list(None, Sc("bytes" if self.binary(o) else "str", UNK, d), None)
        if name in ("read", "readline", "read1"):
            return Sc("bytes" if self.binary(o) else "str", UNK, d | self.deps_all(NONE, args, kw))
        if name in ("tell", "fileno", "readinto"):
            return Sc("int", UNK, d)
        if name in ("readable", "isatty", "writable", "seekable"):
            return Sc("bool", UNK, EMPTY)
        if name in ("seek", "flush"):
            return Sc("int", UNK, EMPTY)
        if name in ("getvalue", "getbuffer"):
            return Sc("bytes", UNK, d)
        if name == "__enter__":
            return s
        if name == "__exit__":
            self.close_file(s)
            return NONE
        if name in ("__iter__",):
            return s
        if name in ("__next__",):
            return Sc("bytes" if self.binary(o) else "str", UNK, d)
        return it.opaque(s, args, kw, sargs, skw, "file." + name)

    def binary(self, o):
        b = o.attrs.get("mode")
        return isinstance(b, Sc) and b.v is not UNK and b.kind == "str" and "b" in b.v

    def write_to(self, f, d, how):
        """a library routine writes data with dependences d to the file or path f"""
        it = self.it
        f = it.force(f)
        if isinstance(f, Un):
            for m in f.ms:
                self.write_to(m, d, how)
            return
        o = it.obj(f) if isinstance(f, Ref) else None
        if isinstance(o, HInst) and o.cls == "file":
            m = o.attrs.get("mode")
            if how != "write":
                it.may_raise("OSError", (f.oid, it.node))
            it.event("file_write", deps=d, mode=m.v if isinstance(m, Sc) and m.v is not UNK else None, closed=o.attrs["closed"].v if isinstance(o.attrs["closed"], Sc) else None)
            self.disk(d)
            w = o.attrs["data"]
            it.st.heap[f.oid] = HInst("file", {**o.attrs, "data": Sc("any", UNK, w.deps | d)})
            return
        if isinstance(o, HInst) and o.cls in ("io.BytesIO", "io.StringIO"):
            return
        if isinstance(f, Sc) and f.kind == "str" or isinstance(o, HInst) and o.cls == "pathlib.Path":
            it.event("open", via=how, path="?", deps=self.deps_all(f, [], {}), mode="w")
            self.disk(d | self.deps_all(f, [], {}))

    def pm_method(self, s, o, name, args, kw, sargs, skw):
        it = self.it
        own = o.attrs.get("%owner")
        via = "path_manager:" + (own.v if isinstance(own, Sc) and isinstance(own.v, str) else "new")
        if name == "open":
            return self.open_(args, kw, via)
        d = self.deps_all(NONE, args, kw)
        if name in ("exists", "isfile", "isdir"):
            it.event("fs", op=via + "." + name)
            return Sc("bool", UNK, d | {"file"})
        if name == "ls":
            it.event("fs", op=via + "." + name)
            return it.new_list(None, Sc("str", UNK, d | {"file"}), None)
        if name == "get_local_path":
            it.event("fs", op=via + "." + name)
            return Sc("str", UNK, d)
        if name in ("mkdirs", "rm", "copy", "register_handler", "set_strict_kwargs_checking", "copy_from_local", "mv"):
            it.event("fs", op=via + "." + name)
            return NONE
        return it.opaque(s, args, kw, sargs, skw, "PathManager." + name)

    def open_(self, args, kw, via):
        it = self.it
        mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        pd = self.deps_all(args[0], [], {}) if args else EMPTY
        mv = mode.v if isinstance(mode, Sc) and mode.v is not UNK else None
        it.event("open", via=via, path=repr(args[0]) if args else "?", deps=pd, mode=mv)
        if isinstance(mv, str) and ("w" in mv or "a" in mv):
            self.disk(pd)
        f = it.new(HInst("file", {"mode": mode, "data": Sc("any", UNK, frozenset(["file"]) | pd), "closed": FALSE, "%site": const(it.loc()), "%via": const(via)}))
        return f

    def range_(self, args):
        it = self.it
        if any(isinstance(a, Un) for a in args):
            i = next(i for i, a in enumerate(args) if isinstance(a, Un))
            return it.branch([lambda m=m: self.range_(list(args[:i]) + [m] + list(args[i + 1:])) for m in args[i].ms])
        d = frozenset().union(*[it.deps(a) for a in args]) if args else EMPTY
        vals = [a.v if isinstance(a, Sc) and a.v is not UNK else None for a in args]
        if all(isinstance(v, int) and v is not None for v in vals):
            r = range(*vals)
            if len(r) <= 400:
                return it.adddeps(it.new_list([it.adddeps(const(i), d) for i in r], kind="range"), d)
            return it.adddeps(it.new_list(None, Sc("int", UNK, d), len(r), "range"), d)
        ln = None
        if len(args) == 1:
            ln = vals[0]
        elif len(args) == 2:
            ln = dims.sub(vals[1], vals[0]) if vals[0] is not None and vals[1] is not None else None
        if isinstance(ln, float):
            ln = None
        return it.adddeps(it.new_list(None, Sc("int", UNK, d), ln, "range"), d)

    def maxmin(self, n, args, kw, d):
        it = self.it
        if n == "sum":
            k, xs, ln = self.iter_items(args[0])
            acc = args[1] if len(args) > 1 else kw.get("start", const(0))
            if k == "known":
                for x in xs:
                    acc = it.binop(ast.Add(), acc, x)
                return acc
            if xs is None:
                return acc
            r = it.binop(ast.Add(), acc, xs)
            if isinstance(xs, Sc) and xs.kind == "int" and ln is not None and xs.v is not UNK:
                return intv(dims.mul(ln, xs.v), d)
            if isinstance(xs, Sc):
                return Sc(xs.kind if xs.kind in ("int", "float") else "int", UNK, d)
            if isinstance(r, Tn):
                r = it.join(r, it.binop(ast.Add(), r, xs))
            return r
        if len(args) == 1:
            a = args[0]
            if isinstance(a, Un):
                return it.branch([lambda m=m: self.maxmin(n, [m], kw, d) for m in a.ms])
            if isinstance(a, Tn):
                return it.T.call(n, [a], {})
            k, xs, ln = self.iter_items(a)
            if k != "known":
                if xs is None:
                    return kw.get("default", Top(d))
                r = xs
                if "key" in kw:
                    r = it.adddeps(r, it.deps(it.call(kw["key"], [xs], {})))
                if isinstance(r, Sc) and r.kind in ("int", "float"):
                    if "default" in kw:
                        r = it.join(r, kw["default"])
                return r
            vals = xs
            if not vals:
                return kw["default"] if "default" in kw else it.do_raise("ValueError")
        else:
            vals = list(args)
        if "key" in kw:
            e = None
            for x in vals:
                e = it.join(e, x)
            it.call(kw["key"], [e], {})
            return it.adddeps(e, d)
        if any(isinstance(x, Un) for x in vals):
            i = next(i for i, a in enumerate(vals) if isinstance(a, Un))
            return it.branch([lambda m=m: self.maxmin(n, vals[:i] + [m] + vals[i + 1:], kw, d) for m in vals[i].ms])
        if any(isinstance(x, Tn) for x in vals):
            e = None
            for x in vals:
                e = it.join(e, x)
            return it.adddeps(e, d)
        if all(isinstance(x, Sc) for x in vals):
            if all(x.v is not UNK for x in vals):
                best = vals[0]
                sure = True
                for x in vals[1:]:
                    try:
                        t = self.cmp(ast.Lt, best, x)
                    except I.Stop:
                        raise
                    if t is None:
                        sure = False
                        break
                    if (t and n == "max") or (not t and n == "min" and best.v != x.v):
                        best = x
                if sure:
                    return it.adddeps(best, d)
                if n == "max" and all(x.kind == "int" for x in vals):
                    m = dims.dmax([x.v for x in vals])
                    if m is not None:
                        return Sc("int", m, d)
            k = "float" if any(x.kind == "float" for x in vals) else "int"
            return Sc(k, UNK, d)
        return Top(d, EMPTY, EMPTY, n)

    def conv(self, n, args, kw, d):
        it = self.it
        if not args:
            return const({"int": 0, "float": 0.0, "bool": False, "str": ""}[n])
        a = args[0]
        if isinstance(a, Un):
            return it.branch([lambda m=m: self.conv(n, [m] + list(args[1:]), kw, d) for m in a.ms])
        if n == "bool":
            t = it.truth(a)
            return Sc("bool", UNK if t is None else t, d)
        if isinstance(a, Tn):
            if a.shape is not None and dims.prod(a.shape) not in (1, None) and n != "str" and not dims.is_opaque(dims.prod(a.shape)):
                it.do_raise("ValueError", "only one element tensors can be converted")
            x = it.T.scal(a) if n == "int" else None
            return Sc(n, UNK if x is None else x, it.deps(a))
        if isinstance(a, Sc):
            if a.kind == "none" and n != "str":
                it.do_raise("TypeError")
            if a.v is not UNK:
                if isinstance(a.v, Dim):
                    return Sc(n, a.v if n == "int" else UNK, d)
                try:
                    return it.adddeps(const({"int": int, "float": float, "str": str}[n](a.v)), d)
                except (ValueError, OverflowError):
                    it.do_raise("ValueError")
                except TypeError:
                    it.do_raise("TypeError")
            return Sc(n, UNK, d)
        return Sc(n, UNK, d)
