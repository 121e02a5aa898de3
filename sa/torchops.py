"""Shape / dtype / device / dependency / differentiability transfer functions for torch and numpy."""
import re

from . import dims
from .dims import Dim
from .values import *
from .values import _set
from . import interp as I

FLOATS = ("float16", "bfloat16", "float32", "float64", "complex64", "complex128")
RANK = {"bool": 0, "uint8": 1, "int8": 2, "uint16": 2, "int16": 3, "uint32": 3, "int32": 4, "int64": 5, "float16": 6, "bfloat16": 6, "float32": 7, "float64": 8, "complex64": 9, "complex128": 10}


def cat_of(dt):
    if dt is None:
        return None
    if dt == "bool":
        return 0
    if dt.startswith(("int", "uint")):
        return 1
    if dt.startswith(("float", "bfloat")):
        return 2
    return 3


FACTS = frozenset(["nonneg", "alltrue", "allfalse"])


def noalt(tags):
    """without the facts that hold on some paths only"""
    return frozenset(x for x in tags if not (isinstance(x, tuple) and x[0] == "alt"))


def named(deps):
    return {d.lstrip("~") for d in deps if "#" not in d and d[0] not in "?%"}


def isfloat(dt):
    return dt is None or dt in FLOATS


def promote2(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if {a, b} == {"uint8", "int8"}:
        return "int16"
    return a if RANK[a] >= RANK[b] else b


UN_FLOAT = {"exp", "log", "sqrt", "sin", "cos", "tan", "acos", "arccos", "asin", "atan", "arctan", "sinh", "cosh", "sigmoid", "tanh", "reciprocal", "rsqrt", "sinc", "erf", "log1p", "expm1", "log2", "log10", "exp2",
            "softplus", "logit", "special.expit", "erfinv", "lgamma", "deg2rad", "rad2deg", "special.logit", "radians", "degrees"}
UN_SAME = {"abs", "neg", "negative", "square", "relu", "clone", "contiguous", "positive", "absolute", "elu", "leaky_relu", "gelu", "selu", "relu6", "silu", "hardtanh", "cumsum", "cumprod", "softmax", "log_softmax", "softmin",
           "normalize", "flip", "fliplr", "flipud", "roll", "clamp", "clip", "clamp_min", "clamp_max", "nan_to_num", "dropout", "tril", "triu", "layer_norm", "group_norm", "instance_norm", "batch_norm", "alpha_dropout", "logcumsumexp", "conj",
           "threshold", "clamp_", "renorm", "conj_physical", "resolve_conj", "ascontiguousarray", "copy", "gumbel_softmax", "cummax1", "rot90same"}
UN_NOGRAD_SAME = {"floor", "ceil", "round", "sign", "trunc", "bitwise_not", "frac", "sgn", "rint", "fix"}
UN_BOOL = {"isnan", "isinf", "isfinite", "logical_not", "signbit", "isneginf", "isposinf"}
BIN = {"add", "sub", "subtract", "mul", "multiply", "maximum", "minimum", "fmod", "remainder", "hypot", "rsub", "fmax", "fmin", "mod", "logaddexp", "copysign", "xlogy", "float_power_same"}
BIN_FLOAT = {"div", "divide", "true_divide", "atan2", "arctan2"}
CMPS = {"eq", "ne", "lt", "le", "gt", "ge", "greater", "less", "greater_equal", "less_equal", "not_equal", "equal_elem", "logical_and", "logical_or", "logical_xor", "isclose"}
BITS = {"bitwise_and", "bitwise_or", "bitwise_xor"}
REDUCE = {"sum", "mean", "prod", "any", "all", "amax", "amin", "std", "var", "logsumexp", "norm", "linalg.norm", "linalg.vector_norm", "argmax", "argmin", "max", "min", "median", "nansum", "nanmean", "nanmedian", "count_nonzero", "mode", "quantile", "ptp", "var_mean", "std_mean", "kthvalue", "aminmax", "cummax", "cummin", "average", "percentile"}
RNG = {"rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "multinomial", "normal", "bernoulli", "poisson"}
INPLACE_RNG = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_", "log_normal_", "geometric_", "cauchy_"}
VIEWS = {"view", "reshape", "expand", "expand_as", "permute", "transpose", "t", "squeeze", "unsqueeze", "flatten", "unbind", "split", "chunk", "narrow", "select", "diagonal", "movedim", "swapaxes", "unflatten", "swapdims", "broadcast_to", "view_as", "T", "mT", "real", "imag",
         "detach", "contiguous", "to", "type_as", "float", "double", "data", "numpy", "from_numpy", "as_tensor", "cpu", "cuda", "unfold", "type", "long", "int", "bool", "half", "as_strided", "ravel", "reshape_as", "positive", "moveaxis", "view_as_real", "view_as_complex", "requires_grad_", "atleast_1d", "atleast_2d", "broadcast_tensors", "asarray", "split_with_sizes", "tensor_split"}
METHOD_ALIAS = {"new_zeros": 1, "new_ones": 1, "new_full": 1, "new_empty": 1, "new_tensor": 1}
NONDIFF = UN_NOGRAD_SAME | UN_BOOL | CMPS | BITS | {"argmax", "argmin", "any", "all", "count_nonzero", "floor_divide", "nonzero", "argsort", "searchsorted", "bincount", "histc", "one_hot", "zeros_like", "ones_like", "empty_like", "full_like", "rand_like", "randn_like", "bucketize", "detach", "unique", "multinomial", "allclose", "equal", "isin"}


class TorchOps:
    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------- helpers
    def dtype(self, v):
        """dtype name from a value (dtype object, python type, numpy type or string); None unknown"""
        if isinstance(v, Sc):
            if v.kind == "dtype":
                return None if v.v is UNK else v.v
            if v.kind == "str" and v.v is not UNK:
                s = v.v.replace("torch.", "")
                return {"float": "float32", "double": "float64", "long": "int64", "int": "int32", "uint8": "uint8", "float32": "float32", "float64": "float64", "int64": "int64", "int32": "int32", "bool": "bool", "<f4": "float32", "f4": "float32", "f8": "float64", "i4": "int32", "i8": "int64"}.get(s)
        if isinstance(v, Ext):
            n = v.name.split(".")[-1]
            if v.name.startswith("builtins."):
                return {"int": "int64", "float": "float32" if not getattr(self, "_np", False) else "float64", "bool": "bool"}.get(n)
            if v.name.startswith("numpy."):
                return {"bool_": "bool", "float_": "float64", "int_": "int64", "single": "float32", "double": "float64", "intc": "int32"}.get(n, n if n in RANK else None)
            return {"LongTensor": "int64", "FloatTensor": "float32", "DoubleTensor": "float64", "BoolTensor": "bool", "IntTensor": "int32", "ByteTensor": "uint8"}.get(n)
        return None

    def device(self, v, default="cpu"):
        if v is None or isinstance(v, Sc) and v.kind == "none":
            return default
        if isinstance(v, Sc) and v.kind in ("str", "device"):
            if v.v is UNK:
                return None
            if v.v in ("cpu", "D"):
                return v.v
            return "D" if str(v.v).startswith("cuda") else v.v
        if isinstance(v, Tn):
            return v.dev
        return None

    def tn(self, v, depth=0):
        """coerce a value to a tensor value (for elementwise ops)"""
        it = self.it
        if isinstance(v, Tn):
            return v
        if isinstance(v, Sc):
            k = {"int": "int64", "bool": "bool", "float": "float32"}.get(v.kind)
            return Tn((), k, "cpu", v.deps, EMPTY, EMPTY, "torch", frozenset(["weak"]))
        if isinstance(v, Top):
            return Tn(None, None, None, v.deps, v.gdeps, EMPTY)
        if isinstance(v, (Tup, Ref)):
            return self.op_tensor([v], {})
        return Tn(None, None, None, it.deps(v), it.gdeps(v), EMPTY)

    def alldeps(self, vs):
        d = g = EMPTY
        for v in vs:
            if v is None:
                continue
            d = d | self.it.deps(v)
            g = g | self.it.gdeps(v)
        return d, g

    def mk(self, shape, dtype, dev, args, base=None, grad=True, lib=None, d=None, g=None, extra=EMPTY):
        it = self.it
        if d is None:
            d, g = self.alldeps(args)
        if not grad or it.nograd or not isfloat(dtype):
            g = EMPTY
        if lib is None:
            lib = "np" if any(isinstance(a, Tn) and a.lib == "np" for a in args) and not any(isinstance(a, Tn) and a.lib == "torch" and "weak" not in a.tags for a in args) else "torch"
        return Tn(shape, dtype, dev, d | extra | it.pc, g, base if base is not None else it.storage(), lib)

    def like(self, t, name, args, shape="same", dtype="same", grad=True, view=False):
        return self.mk(t.shape if shape == "same" else shape, t.dtype if dtype == "same" else dtype, t.dev, args,
                       base=t.base if view else None, grad=grad, lib=t.lib)

    def joindev(self, ts, op):
        """result device; reports a mixture of the caller's device and a fixed one"""
        it = self.it
        devs = set()
        scal = set()
        for t in ts:
            if t.lib == "np":
                continue
            if t.dev is None:
                devs.add(None)
            elif "weak" in t.tags:
                continue
            elif t.shape == () and t.dev == "cpu":
                scal.add(t.dev)
            else:
                devs.add(t.dev)
        if None in devs:
            return None
        if not devs:
            return "cpu"
        if len(devs) > 1:
            it.event("device_mismatch", op=op, args=[repr(t) for t in ts])
            return None
        return next(iter(devs))

    def promote(self, ts, op="", floatdiv=False):
        """torch type promotion with dimensioned / zero-dim / python-scalar categories"""
        if any(t.dtype is None and "weak" not in t.tags for t in ts):
            return None
        levels = [[], [], []]
        for t in ts:
            if "weak" in t.tags:
                if t.dtype is not None:
                    levels[2].append(t.dtype)
            elif t.shape == () and t.lib == "torch":
                levels[1].append(t.dtype)
            elif t.shape is None:
                levels[0].append(t.dtype)
            else:
                levels[0].append(t.dtype)
        res = None
        for i, lv in enumerate(levels):
            if not lv:
                continue
            r = lv[0]
            for x in lv[1:]:
                r = promote2(r, x)
            if i == 2:
                if res is None:
                    res = r
                elif cat_of(r) > cat_of(res):
                    res = "float32" if cat_of(r) == 2 else ("int64" if cat_of(r) == 1 else r)
                    if self.allnp(ts) and res == "float32":
                        res = "float64"
            elif res is None:
                res = r
            elif cat_of(r) > cat_of(res):
                res = r
        if floatdiv and res is not None and cat_of(res) < 2:
            res = "float64" if self.allnp(ts) else "float32"
        return res

    def allnp(self, ts):
        return any(t.lib == "np" for t in ts) and all(t.lib == "np" or "weak" in t.tags for t in ts)

    def bcast(self, shapes, op):
        it = self.it
        if any(s is None for s in shapes):
            return None
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            cur = 1
            unk = False
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                x = s[j]
                if x is None:
                    unk = True
                    continue
                if x == 1:
                    continue
                if cur == 1:
                    cur = x
                elif cur != x:
                    if not dims.is_opaque(cur) and not dims.is_opaque(x):
                        it.event("shape_error", op=op, detail=f"cannot broadcast {' '.join(map(str, shapes))}")
                        unk = True
                    elif dims.is_opaque(cur) and not dims.is_opaque(x):
                        cur = x
            if unk and cur == 1:
                cur = None
            out.append(cur)
        return tuple(out)

    def err(self, op, detail):
        self.it.event("shape_error", op=op, detail=detail)

    def same(self, a, b, op, what):
        """check that two dims agree; returns the better known one"""
        if a is None:
            return b
        if b is None:
            return a
        if a != b and not dims.is_opaque(a) and not dims.is_opaque(b):
            self.err(op, f"{what}: {a} vs {b}")
            return None
        return b if dims.is_opaque(a) else a

    def axis(self, v, nd):
        if isinstance(v, Sc) and isinstance(v.v, int) and v.v is not UNK:
            if nd is None:
                return None
            a = v.v + nd if v.v < 0 else v.v
            return a if 0 <= a < nd else None
        return None

    def axes(self, v, nd):
        """list of axes, or None if unknown"""
        if isinstance(v, Sc):
            a = self.axis(v, nd)
            return None if a is None else [a]
        k, xs, n = self.it.P.iter_items(v)
        if k != "known":
            return None
        out = [self.axis(x, nd) for x in xs]
        return None if any(a is None for a in out) else out

    def shape_arg(self, args):
        """list of dims from f(*sizes) or f(size_tuple)"""
        it = self.it
        if len(args) == 1 and isinstance(args[0], (Tup, Ref)):
            k, xs, n = it.P.iter_items(args[0])
            if k == "known":
                return [dimof(x) if isinstance(x, Sc) else (None) for x in xs]
            return None
        if len(args) == 1 and isinstance(args[0], Top):
            return None
        return [dimof(x) for x in args]

    @staticmethod
    def arg(args, kw, i, *names, default=None):
        if i is not None and i < len(args):
            return args[i]
        for n in names:
            if n in kw:
                return kw[n]
        return default

    def isnone(self, v):
        return v is None or isinstance(v, Sc) and v.kind == "none"

    def truthy(self, v, default=False):
        if v is None:
            return default
        return self.it.P.truth(v)

    # ------------------------------------------------------------- memory layout
    def contig(self, shape):
        """strides of a contiguous tensor"""
        if shape is None:
            return None
        out, acc = [], 1
        for d in reversed(shape):
            out.append(acc)
            acc = None if acc is None or d is None else dims.mul(acc, d)
        return tuple(reversed(out))

    def strides(self, t):
        """element strides (None: not known, not judged)"""
        if t.shape is None:
            return None
        for x in t.tags:
            if isinstance(x, tuple) and x[0] == "lay":
                return x[1] if len(x[1]) == len(t.shape) else (None,) * len(t.shape)
        return self.contig(t.shape)

    def laid(self, t, st):
        """t with the given strides"""
        if not isinstance(t, Tn):
            return t
        tags = frozenset(x for x in t.tags if not (isinstance(x, tuple) and x[0] == "lay"))
        if t.shape is not None and st is not None and len(st) == len(t.shape) and t.lib == "torch":
            c = self.contig(t.shape)
            if any(a != b for a, b, n in zip(st, c, t.shape) if n != 1):
                tags = tags | {("lay", tuple(st))}
        return t if tags == t.tags else _set(t, tags=tags)

    def keeps(self, r, t):
        """r is computed elementwise from t: the layout of a dense t is kept, anything else is written contiguously"""
        if not isinstance(r, Tn) or not isinstance(t, Tn) or r.shape is None or t.shape is None or r.lib != "torch" or t.lib != "torch" or len(r.shape) != len(t.shape):
            return r
        if any(a is None or a != b for a, b in zip(r.shape, t.shape)):
            return r
        st = self.strides(t)
        if st == self.contig(t.shape):
            return r
        if any(x is None for x in st):
            return self.laid(r, (None,) * len(st))
        if self.dense(t.shape, st):
            return self.laid(r, st)
        return r

    def elementwise(self, r, ops):
        """layout of the result of an elementwise operation: the first operand that orders the axes decides"""
        if not isinstance(r, Tn) or r.shape is None or r.lib != "torch" or any(x is None for x in r.shape):
            return r
        ts = [t for t in ops if isinstance(t, Tn) and t.lib == "torch"]
        for i, t in enumerate(ts):
            if t.shape is None or any(x is None for x in t.shape):
                return self.laid(r, (None,) * len(r.shape))
            if t.shape == r.shape:
                return self.keeps(r, t)
            big = [k - len(t.shape) for k, n in enumerate(t.shape) if n != 1]
            if len(big) <= 1:
                continue
            st = self.strides(t)
            if all(self.anystride(st[k]) for k in big):
                out = [None] * len(r.shape)
                u = f"[any {self.it.fresh_id('y')} "
                for k in range(-1, -len(r.shape) - 1, -1):
                    out[k] = dims.mul(out[k + 1], r.shape[k + 1]) if k < -1 and k not in big and k + 1 not in big else dims.sym(u + f"{k}]")
                return self.laid(r, tuple(out))
            nxt = next((x for x in ts[i + 1:] if x.shape is not None and x.shape == r.shape), None)
            if nxt is not None and all(self.anystride(y) for y, n in zip(self.strides(nxt), nxt.shape) if n != 1) and len(big) < sum(n != 1 for n in r.shape):
                # an axis the first operand does not have is placed by the next one, which may put it anywhere
                u = f"[any {self.it.fresh_id('y')} "
                return self.laid(r, tuple(dims.sym(u + f"{k}]") for k in range(-len(r.shape), 0)))
            if any(self.strides(x) != self.contig(x.shape) for x in ts[i:] if x.shape is not None):
                return self.laid(r, (None,) * len(r.shape))
            return r
        return r

    def dense(self, shape, st):
        """do the strides cover the memory without gaps or overlaps, in some order of the axes?"""
        if any(not isinstance(x, int) and self.anystride(x) for x in st):
            return all(x != 0 for x in st)
        todo = [(n, x) for n, x in zip(shape, st) if n != 1]
        acc = 1
        while todo:
            for i, (n, x) in enumerate(todo):
                if x == acc:
                    acc = dims.mul(acc, n)
                    del todo[i]
                    break
            else:
                return False
        return True

    @staticmethod
    def anystride(x):
        return "[any" in str(x)

    def viewed(self, shape, st, new):
        """strides of a view of (shape, st) as the shape new; False when no view exists; None when not known"""
        if shape is None or new is None or st is None or any(x is None for x in shape) or any(x is None for x in new) or any(x is None for x in st):
            return None
        if any(x == 0 for x in shape):
            return self.contig(new)
        if dims.prod(shape) != dims.prod(new):
            return None
        old = [(n, x) for n, x in zip(shape, st) if n != 1]
        chunks = []
        for n, x in old:
            if chunks and chunks[-1][1] == dims.mul(x, n):
                chunks[-1] = (dims.mul(chunks[-1][0], n), x)
            else:
                chunks.append((n, x))
        out = [None] * len(new)
        j = len(new) - 1
        for n, x in reversed(chunks):
            acc = 1
            while j >= 0 and (acc != n or new[j] == 1):
                out[j] = dims.mul(x, acc)
                acc = dims.mul(acc, new[j])
                j -= 1
            if acc != n:
                return False
        while j >= 0:
            if new[j] != 1:
                return None
            out[j] = 1
            j -= 1
        return tuple(out)

    # ------------------------------------------------------------- dispatch
    def call(self, name, args, kw):
        it = self.it
        if not args and "input" in kw:
            args, kw = [kw["input"]], {k: v for k, v in kw.items() if k != "input"}
        for i, a in enumerate(args):
            if isinstance(a, Un) and i < 4:
                return it.branch([lambda m=m: self.call(name, list(args[:i]) + [m] + list(args[i + 1:]), kw) for m in a.ms])
        for k, a in kw.items():
            if isinstance(a, Un) and k not in ("generator", "out"):
                return it.branch([lambda m=m: self.call(name, args, {**kw, k: m}) for m in a.ms])
        base = name
        for p in ("nn.functional.", "Tensor."):
            if base.startswith(p):
                base = base[len(p):]
        f = getattr(self, "op_" + base.replace(".", "_"), None)
        if f is not None:
            r = f(list(args), dict(kw))
        else:
            r = self.generic(base, list(args), dict(kw))
            if isinstance(r, Tn) and args and base != "contiguous" and (base in UN_FLOAT or base in UN_SAME or base in UN_NOGRAD_SAME or base in UN_BOOL or base in BIN or base in BIN_FLOAT or base in CMPS or base in BITS or base in ("pow", "floor_divide")):
                r = self.elementwise(r, list(args) + [kw[k] for k in ("min", "max", "other", "exponent") if k in kw])
        out = kw.get("out")
        if out is not None and isinstance(out, Tn):
            self.write(out, [r], op=name + "(out=)")
            return out
        if args and any(isinstance(a, Tn) and not FACTS.isdisjoint(a.tags) for a in args):
            r = self.facts(base, args, r)
        return r

    def facts(self, n, args, r):
        """what is known of the elements: no negative ones, all true, all false"""
        n = n.strip("_")
        of = [next((x for x in FACTS if x in a.tags and not any(b in self.it.st.sd for b in a.base)), None) if isinstance(a, Tn) else None for a in args]
        f, out = of[0], None
        c = args[1].v if len(args) > 1 and isinstance(args[1], Sc) else self.scal(args[1]) if len(args) > 1 and isinstance(args[1], Tn) else None
        c = c if isinstance(c, (int, float)) and c is not UNK else None
        if f == "nonneg":
            if n in CMPS:
                if c is not None:
                    t = {"gt": c < 0, "greater": c < 0, "ge": c <= 0, "greater_equal": c <= 0, "ne": c < 0, "not_equal": c < 0}.get(n)
                    out = "alltrue" if t else "allfalse" if {"lt": c <= 0, "less": c <= 0, "le": c < 0, "less_equal": c < 0, "eq": c < 0}.get(n) else None
            elif n in ("min", "max", "amin", "amax", "clone", "contiguous", "to", "long", "int", "abs", "detach"):
                out = f
        elif n in ("all", "any", "min", "max", "amin", "amax", "clone", "contiguous", "bool", "to"):
            out = f
        elif n in ("bitwise_not", "logical_not", "invert") and f:
            out = "allfalse" if f == "alltrue" else "alltrue"
        elif n in ("bitwise_and", "logical_and", "and", "mul", "bitwise_or", "logical_or", "or") and len(of) > 1:
            neutral, strong = ("alltrue", "allfalse") if n.endswith("and") or n == "mul" else ("allfalse", "alltrue")
            out = strong if strong in of[:2] else neutral if of[0] == of[1] == neutral else None
        if out is None:
            return r
        if isinstance(r, Tn):
            return _set(r, tags=r.tags | {out})
        if isinstance(r, Tup) and r.items and isinstance(r.items[0], Tn):
            i = list(r.items)
            i[0] = _set(i[0], tags=i[0].tags | {out})
            return _set(r, items=tuple(i))
        return r

    def generic(self, n, args, kw):
        it = self.it
        ts = [a for a in args if isinstance(a, Tn)]
        allv = args + list(kw.values())
        if n in UN_FLOAT and (ts or isinstance(args[0], (Sc, Top))):
            t = self.tn(args[0])
            dt = t.dtype
            if dt is not None and cat_of(dt) < 2:
                dt = "float64" if t.lib == "np" else "float32"
            return self.mk(t.shape, dt, t.dev, allv, lib=t.lib)
        if n in UN_SAME:
            t = self.tn(args[0] if args else kw.get("input", Top()))
            dt = t.dtype
            if n in ("cumsum", "cumprod") and cat_of(dt) in (0, 1):
                dt = "int64"
            if "dtype" in kw and not self.isnone(kw["dtype"]):
                dt = self.dtype(kw["dtype"])
            if n in ("dropout", "alpha_dropout", "gumbel_softmax"):
                tr = kw.get("training", args[2] if len(args) > 2 else TRUE)
                if it.P.truth(tr) is not False:
                    it.event("rng", op=n)
            others = [self.tn(a) for a in args[1:3] if isinstance(a, Tn)] if n in ("clamp", "clip") else []
            if n in ("clamp", "clip"):
                others += [kw[k] for k in ("min", "max") if isinstance(kw.get(k), Tn)]
                sh = self.bcast([x.shape for x in [t] + others], n)
                return self.mk(sh, self.promote([t] + others), self.joindev([t] + others, n), allv, lib=t.lib)
            if n == "contiguous":
                return self.laid(self.like(t, n, allv, view=True), None)
            return self.mk(t.shape, dt, t.dev, allv, lib=t.lib)
        if n in UN_NOGRAD_SAME:
            t = self.tn(args[0])
            return self.mk(t.shape, t.dtype, t.dev, allv, grad=False, lib=t.lib)
        if n in UN_BOOL:
            t = self.tn(args[0])
            return self.mk(t.shape, "bool", t.dev, allv, grad=False, lib=t.lib)
        if n in BIN or n in BIN_FLOAT or n in CMPS or n in BITS or n in ("pow", "floor_divide", "power", "float_power"):
            a = args[0] if args else kw.get("input")
            b = args[1] if len(args) > 1 else kw.get("other", kw.get("exponent", Top()))
            if isinstance(a, Ref) and isinstance(it.obj(a), HInst) or isinstance(b, Ref) and isinstance(it.obj(b), HInst):
                d, g = self.alldeps(allv)
                return Top(d, g, EMPTY, n)
            a, b = self.tn(a), self.tn(b)
            sh = self.bcast([a.shape, b.shape], n)
            dev = self.joindev([a, b], n)
            if n in CMPS:
                dt = "bool"
            else:
                fl = n in BIN_FLOAT
                if n in ("div", "divide") and "rounding_mode" in kw and not self.isnone(kw["rounding_mode"]):
                    dt = self.promote([a, b])
                    return self.mk(sh, dt, dev, allv + [a, b], grad=False)
                dt = self.promote([a, b], n, floatdiv=fl)
            lib = "np" if self.allnp([a, b]) else "torch"
            grad = n not in NONDIFF
            return self.mk(sh, dt, dev, allv, grad=grad, lib=lib)
        if n in REDUCE:
            return self.reduce(n, args, kw)
        if n in RNG:
            return self.random(n, args, kw)
        d, g = self.alldeps(allv)
        it.unknown("torch." + n)
        if it.nograd or n in NONDIFF:
            g = EMPTY
        if ts:
            dev = ts[0].dev
            return Tn(None, None, dev, d | it.pc, g, it.storage(), ts[0].lib)
        return Top(d, g, EMPTY, "torch." + n)

    # ------------------------------------------------------------- attributes / methods
    def attr(self, t, name):
        it = self.it
        d, g = it.eff(t)
        m = I.meta(d)
        if name == "shape":
            if t.shape is None:
                return Tup(None, Sc("int", UNK, m), None, cls="Size", deps=m)
            return Tup([intv(x, m) for x in t.shape], cls="Size", deps=m)
        if name == "dtype":
            return Sc("dtype", UNK if t.dtype is None else t.dtype, m)
        if name == "device":
            return Sc("device", UNK if t.dev is None else t.dev, m)
        if name == "ndim":
            return intv(len(t.shape) if t.shape is not None else None, m)
        if name in ("is_cuda",):
            return Sc("bool", UNK if t.dev is None else t.dev != "cpu", m)
        if name in ("requires_grad", "is_leaf", "is_sparse", "is_quantized", "is_mkldnn"):
            return Sc("bool", UNK if name != "is_sparse" else False, m)
        if name in ("T", "mT", "H"):
            sh = None
            if t.shape is not None:
                sh = t.shape[:-2] + (t.shape[-1], t.shape[-2]) if name == "mT" and len(t.shape) >= 2 else t.shape[::-1]
            st = self.strides(t)
            if st is not None:
                st = st[:-2] + (st[-1], st[-2]) if name == "mT" and len(st) >= 2 else st[::-1]
            return self.laid(_set(t, shape=sh, tags=noalt(t.tags)), st)
        if name == "data":
            return _set(t, gdeps=EMPTY)
        if name == "grad":
            return Top(d)
        if name == "grad_fn":
            return Top(m)
        if name == "size" and t.lib == "np":
            return intv(dims.prod(t.shape) if t.shape is not None else None, m)
        if name in ("real", "imag"):
            dt = {"complex64": "float32", "complex128": "float64"}.get(t.dtype, t.dtype)
            return _set(t, dtype=dt, tags=noalt(t.tags))
        if name in ("flags", "is_floating_point_", "itemsize", "nbytes", "names", "layout"):
            return Top(m)
        if name == "__class__":
            return Ext("torch.Tensor")
        return Bound(t, name)

    def select(self, t, dim, i):
        """t[..., i, ...] removing a dimension"""
        if t.shape is None:
            return self.it.wpc(_set(t))
        sh = t.shape[:dim] + t.shape[dim + 1:]
        st = self.strides(t)
        return self.withvals(self.laid(self.it.wpc(_set(t, shape=sh, tags=EMPTY)), st[:dim] + st[dim + 1:]), self.pick(t, i) if dim == 0 and len(t.shape) == 1 else None)

    # -- integer contents of small index tensors (sizes of list elements and sums of them)
    def vals(self, t):
        """("seq", (d0, d1, ..)) / ("const", d) contents of an int tensor, or None"""
        if not isinstance(t, Tn):
            return None
        for x in t.tags:
            if isinstance(x, tuple) and x[0] in ("seq", "const"):
                if any(b in self.it.st.sd for b in t.base):
                    return None
                return x
        return None

    def withvals(self, t, v):
        if v is None or not isinstance(t, Tn):
            return t
        if v[0] == "seq" and any(x is None for x in v[1]):
            return t
        return _set(t, tags=t.tags | {v})

    def pick(self, t, i):
        v = self.vals(t)
        if v is None:
            return None
        if v[0] == "const":
            return v
        if isinstance(i, int) and -len(v[1]) <= i < len(v[1]):
            return ("seq", (v[1][i],))
        return ("seq", (v[1][0],)) if len(set(v[1])) == 1 else None

    def scal(self, t):
        """the integer held by a 0-d / 1-element tensor"""
        v = self.vals(t)
        if v is None or t.shape is None or dims.prod(t.shape) != 1:
            return None
        return v[1] if v[0] == "const" else (v[1][0] if len(v[1]) == 1 else None)

    def listvals(self, v):
        """contents of a python list of ints"""
        it = self.it
        if not isinstance(v, (Tup, Ref)):
            d = dimof(v) if isinstance(v, Sc) and v.kind == "int" else None
            return None if d is None else ("seq", (d,))
        if isinstance(v, Ref) and not isinstance(it.obj(v), HList):
            return None
        k, xs, n = it.P.iter_items(v)
        if k == "known":
            if not all(isinstance(x, Sc) and x.kind == "int" for x in xs) or not xs:
                return None
            ds = tuple(dimof(x) for x in xs)
            return None if any(x is None for x in ds) else ("seq", ds)
        if isinstance(xs, Sc) and xs.kind == "int" and dimof(xs) is not None:
            return ("const", dimof(xs))
        return None

    def method(self, t, name, args, kw):
        it = self.it
        if name.endswith("_") and not name.startswith("__") and name not in ("requires_grad_", "share_memory_", "retain_grad_"):
            return self.inplace_method(t, name, args, kw)
        if name in ("new_zeros", "new_ones", "new_full", "new_empty", "new_tensor"):
            kw = dict(kw)
            kw.setdefault("dtype", Sc("dtype", UNK if t.dtype is None else t.dtype))
            if self.isnone(kw.get("device")):
                kw["device"] = Sc("device", UNK if t.dev is None else t.dev)
            if name == "new_tensor":
                return self.op_tensor(args, kw)
            if name == "new_full":
                return self.call("full", args, kw)
            return self.call(name[4:], args, kw)
        if name in ("size",):
            s = self.attr(t, "shape")
            if args:
                return it.P.getitem(s, args[0])
            if "dim" in kw:
                return it.P.getitem(s, kw["dim"])
            return s
        if name in ("dim", "ndimension"):
            return self.attr(t, "ndim")
        if name in ("numel", "nelement"):
            return intv(dims.prod(t.shape) if t.shape is not None else None, I.meta(it.deps(t)))
        if name in ("item", "tolist", "__float__", "__int__", "__bool__"):
            d, g = it.eff(t)
            it.event("to_python", gdeps=g, op=name)
            k = "int" if t.dtype and t.dtype.startswith(("int", "uint")) else ("bool" if t.dtype == "bool" else ("float" if t.dtype in FLOATS else "any"))
            if name == "tolist":
                return self.tolist(t, k, d)
            x = self.scal(t) if k == "int" else None
            return Sc(k, UNK if x is None else x, d)
        if name == "__len__":
            return it.P.length(t)
        if name in ("is_floating_point", "is_complex"):
            return Sc("bool", UNK if t.dtype is None else (cat_of(t.dtype) == (2 if "float" in name else 3)), I.meta(it.deps(t)))
        if name == "is_contiguous":
            return Sc("bool", UNK, I.meta(it.deps(t)))
        if name in ("get_device",):
            return Sc("int", UNK, I.meta(it.deps(t)))
        if name in ("data_ptr", "storage_offset", "stride", "element_size"):
            return Sc("int", UNK, I.meta(it.deps(t))) if name != "stride" or args else Tup(None, Sc("int"), None)
        if name in ("requires_grad_", "share_memory_", "pin_memory", "coalesce", "to_dense", "view_", "retain_grad", "register_hook", "backward", "__array__"):
            if name == "requires_grad_" and t.base and any(b.startswith("in:") for b in t.base):
                it.event("mutate", base=sorted(b for b in t.base if b.startswith("in:"))[0], op="requires_grad_")
            return t
        if name == "__getitem__":
            return it.P.getitem(t, args[0])
        if name in ("tofile", "dump"):
            it.P.write_to(args[0] if args else kw.get("fid", NONE), it.deps(t), "numpy." + name)
            return NONE
        if name in ("tobytes", "tostring"):
            return Sc("bytes", UNK, it.deps(t))
        if name == "astype":
            self._np = t.lib == "np"
            dt = self.dtype(args[0] if args else kw.get("dtype"))
            self._np = False
            return self.mk(t.shape, dt, t.dev, [t], lib=t.lib)
        if name.startswith("__") and name.endswith("__"):
            nm = name[2:-2]
            if nm in ("add", "radd", "sub", "mul", "rmul", "truediv", "pow", "eq", "ne", "lt", "gt", "le", "ge"):
                return self.call({"radd": "add", "rmul": "mul", "truediv": "div"}.get(nm, nm), [t] + list(args), kw)
        if t.lib == "np" and name in ("transpose", "sum", "mean", "copy", "reshape", "max", "min", "flatten", "all", "any"):
            if name == "copy":
                return self.call("clone", [t], {})
            if name == "transpose" and not args:
                return self.attr(t, "T")
            if name == "transpose":
                return self.call("permute", [t] + list(args), kw)
        return self.call(name, [t] + list(args), kw)

    def tolist(self, t, k, d):
        it = self.it
        e = Sc(k, UNK, d)
        v = self.vals(t)
        if v is not None and v[0] == "const":
            e = Sc(k, v[1], d)
        elif v is not None and t.shape is not None and len(t.shape) == 1:
            return it.new_list([Sc(k, x, d) for x in v[1]])
        if t.shape is None:
            return Top(d, EMPTY, EMPTY, "tolist")
        if t.shape == ():
            return e
        for n in reversed(t.shape):
            if isinstance(n, int) and n <= 40:
                e = it.new_list([e] * n)
            else:
                e = it.new_list(None, e, n)
        return e

    def inplace_method(self, t, name, args, kw):
        it = self.it
        if name == "copy_":
            return self.inplace(t, "copy", list(args) + list(kw.values()))
        if name in ("resize_", "set_", "swap_"):
            self.write(t, args, op=name)
            return _set(t, shape=None, tags=noalt(t.tags))
        if name in INPLACE_RNG:
            it.event("rng", op=name)
        if name in ("squeeze_", "unsqueeze_", "transpose_", "t_", "detach_"):
            self.mut_event(t, name)
            return self.call(name[:-1], [t] + list(args), kw)
        if name in ("zero_", "fill_", "eye_"):
            self.write(t, args, op=name)
            return _set(t)
        if name in ("scatter_", "scatter_add_", "index_add_", "index_copy_", "index_fill_", "index_put_", "masked_fill_", "masked_scatter_", "scatter_reduce_"):
            tens = [a for a in args if isinstance(a, Tn)] + [a for a in kw.values() if isinstance(a, Tn)]
            self.joindev([t] + [x for x in tens if not (x.shape == ())], name)
            cand = args[2:3] if name != "masked_scatter_" else args[1:2]
            src = [a for a in cand + [kw.get(k) for k in ("src", "source", "tensor")] if isinstance(a, Tn)]
            if name in ("scatter_", "scatter_add_", "index_add_", "masked_scatter_", "index_copy_"):
                for s in src:
                    if s.dtype and t.dtype and s.dtype != t.dtype and "weak" not in s.tags:
                        it.event("dtype_mismatch", op=name, args=[repr(t), repr(s)])
            self.write(t, list(args) + list(kw.values()), op=name)
            d, g = self.alldeps(list(args) + list(kw.values()))
            return _set(t, deps=t.deps | d, gdeps=t.gdeps | (EMPTY if it.nograd else g))
        return self.inplace(t, name[:-1], list(args) + list(kw.values()))

    def mut_event(self, t, op):
        for b in sorted(t.base):
            if b.startswith("in:"):
                self.it.event("mutate", base=b, op=op)
            elif b in self.it.in_bases:
                self.it.event("mutate", base=self.it.in_bases[b], op=op)

    def write(self, t, vals, op="write"):
        """record a write of vals into t's storage"""
        it = self.it
        self.mut_event(t, op)
        d, g = self.alldeps(vals)
        d = d | it.pc
        if it.nograd or not isfloat(t.dtype):
            g = EMPTY
        for b in t.base:
            o = it.st.sd.get(b, (EMPTY, EMPTY))
            it.st.sd[b] = (o[0] | d, o[1] | g)

    def inplace(self, t, op, rhs):
        it = self.it
        if not isinstance(t, Tn):
            self.write(Tn(base=t.base), rhs, op=op + "_")
            d, g = self.alldeps(rhs)
            return Top(t.deps | d, t.gdeps | g, t.base, t.hint)
        for i, r in enumerate(rhs):
            if isinstance(r, Un):
                return it.branch([lambda m=m: self.inplace(t, op, rhs[:i] + [m] + rhs[i + 1:]) for m in r.ms])
        if rhs and isinstance(rhs[0], (Tn, Sc)) and op in ("add", "sub", "mul", "div", "copy", "pow"):
            r = self.tn(rhs[0])
            if op != "copy":
                self.joindev([t, r], op + "_")
            sh = self.bcast([t.shape, r.shape], op + "_")
            if sh is not None and t.shape is not None and len(sh) > len(t.shape):
                self.err(op + "_", f"output {t.shape} smaller than broadcast {sh}")
            elif sh is not None and t.shape is not None:
                for x, y in zip(sh, t.shape):
                    if y == 1 and x != 1 and x is not None:
                        self.err(op + "_", f"output {t.shape} smaller than broadcast {sh}")
                        break
            dt = self.promote([t, r])
            if dt and t.dtype and cat_of(dt) > cat_of(t.dtype) and op != "copy":
                it.event("dtype_mismatch", op=op + "_", args=[repr(t), repr(r)])
            if r.dtype and t.dtype and RANK[r.dtype] > RANK[t.dtype] and cat_of(r.dtype) == 2 == cat_of(t.dtype) and "weak" not in r.tags:
                it.event("narrowing", op=op + "_", src=r.dtype, dst=t.dtype)
        self.write(t, rhs, op=op + "_")
        d, g = self.alldeps(rhs)
        if it.nograd or not isfloat(t.dtype):
            g = EMPTY
        return _set(t, deps=t.deps | d | it.pc, gdeps=t.gdeps | g)

    # ------------------------------------------------------------- indexing
    def index_shape(self, t, k):
        """shape of t[k]; returns (shape or None, isview, list of index values)"""
        it = self.it
        items = list(k.items) if isinstance(k, Tup) and k.items is not None else [k]
        if isinstance(k, Tup) and k.items is None:
            return None, False, [k]
        if isinstance(k, Ref) and isinstance(it.obj(k), HList):
            items = [k]
        nd = None if t.shape is None else len(t.shape)
        if nd is None:
            adv = any(isinstance(x, (Tn, Ref, Top)) for x in items)
            return None, not adv, items
        consumed = 0
        for x in items:
            if isinstance(x, Sc) and x.kind in ("none", "ellipsis", "bool"):
                continue
            if isinstance(x, Tn) and x.dtype == "bool" and x.shape is not None:
                consumed += len(x.shape)
            else:
                consumed += 1
        if any(isinstance(x, Top) for x in items) or any(isinstance(x, Tn) and (x.shape is None or x.dtype is None) for x in items):
            return None, False, items
        if consumed > nd:
            self.it.do_raise("IndexError", "too many indices")
        out, advpos, adv = [], [], []
        dim = 0
        view = True
        seen_ell = False
        for x in items:
            if isinstance(x, Sc) and x.kind == "none":
                out.append(1)
            elif isinstance(x, Sc) and x.kind == "ellipsis":
                n = nd - consumed
                out.extend(t.shape[dim:dim + n])
                dim += n
                seen_ell = True
            elif isinstance(x, Sc) and x.kind in ("int", "any"):
                s = t.shape[dim]
                if isinstance(x.v, int) and x.v is not UNK and isinstance(s, int) and not (-s <= x.v < s):
                    self.it.do_raise("IndexError")
                dim += 1
            elif isinstance(x, Sl):
                s = t.shape[dim]
                out.append(it.P.slice_len(x, s))
                dim += 1
            elif isinstance(x, Tn) or isinstance(x, (Ref, Tup)):
                view = False
                if not isinstance(x, Tn):
                    x = self.op_tensor([x], {})
                if x.dtype == "bool":
                    for a, b in zip(x.shape, t.shape[dim:dim + len(x.shape)]):
                        self.same(a, b, "index", "boolean mask")
                    adv.append((self.picked(x, t),))
                    dim += len(x.shape)
                else:
                    adv.append(x.shape)
                    dim += 1
                advpos.append(len(out))
                out.append("A")
            elif isinstance(x, Sc) and x.kind == "bool":
                out.append(None)
                view = False
            else:
                return None, False, items
        out.extend(t.shape[dim:])
        if adv:
            sh = self.bcast(adv, "index")
            idx = [i for i, o in enumerate(out) if o == "A"]
            # ints between advanced indices make them non adjacent; approximated by adjacency of the markers
            contiguous = idx == list(range(idx[0], idx[0] + len(idx)))
            rest = [o for o in out if o != "A"]
            if sh is None:
                return None, False, items
            pos = idx[0] if contiguous else 0
            out = rest[:pos] + list(sh) + rest[pos:]
        return tuple(out), view, items

    def sliced(self, t, items, nd):
        """strides of t[items] (ints, slices, None, ...)"""
        st = list(self.strides(t))
        gone = sum(1 for x in items if not (isinstance(x, Sc) and x.kind in ("none", "ellipsis")))
        out, i = [], 0
        for x in items:
            if isinstance(x, Sc) and x.kind == "none":
                out.append(1)
            elif isinstance(x, Sc) and x.kind == "ellipsis":
                k = len(st) - gone
                out.extend(st[i:i + k])
                i += k
            elif isinstance(x, Sl):
                k = x.step.v if isinstance(x.step, Sc) and x.step.kind == "int" else 1 if isinstance(x.step, Sc) and x.step.kind == "none" else UNK
                out.append(None if k is UNK or st[i] is None else st[i] if k == 1 else dims.mul(st[i], k) if isinstance(k, int) else None)
                i += 1
            else:
                i += 1
        out.extend(st[i:])
        return tuple(out) if len(out) == nd else (None,) * nd

    def picked(self, x, t=None):
        """number of true elements of the mask x (which selects from t)"""
        if len(x.shape) == 1 and ("alltrue" in x.tags or t is not None and "nonneg" in t.tags and named(self.it.deps(x)) == named(self.it.deps(t))):
            return x.shape[0]
        return dims.sym(f"[nz{self.mask_id(x)}]")

    def mask_id(self, x):
        b = ",".join(sorted(x.base)) if x.base else "?"
        return b + ";" + ",".join(map(str, x.shape or ()))

    def index(self, t, k):
        it = self.it
        if isinstance(k, Tup) and k.items is not None:
            for i, x in enumerate(k.items):
                if isinstance(x, Un):
                    return it.branch([lambda m=m: self.index(t, Tup(k.items[:i] + (m,) + k.items[i + 1:])) for m in x.ms])
        if isinstance(k, Sl):
            for nm in ("lo", "hi", "step"):
                x = getattr(k, nm)
                if isinstance(x, Un):
                    return it.branch([lambda m=m: self.index(t, _set(k, **{nm: m})) for m in x.ms])
        if isinstance(k, Sc) and k.kind == "str":
            return self.mk(None, None, t.dev, [t], base=t.base, lib=t.lib)
        sh, view, items = self.index_shape(t, k)
        d, g = self.alldeps([t] + items)
        g = it.gdeps(t)
        ts = [x for x in items if isinstance(x, Tn) and x.shape != ()]
        for x in ts:
            if x.dev is not None and t.dev is not None and x.dev != t.dev and t.lib == "torch" and x.lib == "torch" and x.dev != "cpu":
                it.event("device_mismatch", op="index", args=[repr(t), repr(x)])
            if x.dtype in FLOATS:
                it.event("dtype_mismatch", op="index", args=[repr(t), repr(x)])
        if it.nograd or not isfloat(t.dtype):
            g = EMPTY
        r = Tn(sh, t.dtype, t.dev, d | it.pc, g, t.base if view else it.storage(), t.lib)
        if view and sh is not None:
            r = self.laid(r, self.sliced(t, items, len(sh)))
        if t.shape is not None and len(t.shape) == 1 and self.vals(t) is not None:
            v = self.vals(t)
            if isinstance(k, Sc) and isinstance(k.v, int) and k.v is not UNK:
                r = self.withvals(r, self.pick(t, k.v))
            elif v[0] == "const":
                r = self.withvals(r, v)
            elif isinstance(k, Sl) and all(isinstance(x, Sc) and (x.kind == "none" or isinstance(x.v, int) and x.v is not UNK) for x in (k.lo, k.hi, k.step)):
                vs = v[1][slice(*[None if x.kind == "none" else x.v for x in (k.lo, k.hi, k.step)])]
                r = self.withvals(r, ("seq", vs)) if vs else r
        return r

    def index_put(self, t, k, v):
        it = self.it
        if isinstance(v, Un):
            base, outs = it.st, []
            for m in v.ms:
                it.st = base.fork()
                try:
                    self.index_put(t, k, m)
                    outs.append(it.st)
                except I.Stop:
                    pass
            if not outs:
                raise I.Stop()
            it.st = it.join_states(outs)
            return
        kk = k
        if not isinstance(k, Un):
            sh, view, items = self.index_shape(t, k)
        else:
            sh, items = None, [k]
        if isinstance(v, Tn):
            if v.shape is not None and sh is not None:
                n = len(sh)
                vs = v.shape
                while len(vs) > n and vs[0] == 1:
                    vs = vs[1:]
                if len(vs) > n:
                    self.err("setitem", f"value {v.shape} into {sh}")
                else:
                    for a, b in zip(vs[::-1], sh[::-1]):
                        if a is None or b is None or a == 1 or a == b or dims.is_opaque(a) or (dims.is_opaque(b) and not str(b).startswith("[nz")):
                            continue
                        self.err("setitem", f"value {v.shape} into {sh}")
                        break
            if v.dev and t.dev and v.dev != t.dev and v.shape != () and v.lib == "torch" == t.lib:
                adv = any(isinstance(x, Tn) for x in items)
                if adv:
                    it.event("device_mismatch", op="setitem", args=[repr(t), repr(v)])
            if v.dtype and t.dtype and RANK.get(v.dtype, 0) > RANK.get(t.dtype, 0) and cat_of(v.dtype) == 2 == cat_of(t.dtype):
                it.event("narrowing", op="setitem", src=v.dtype, dst=t.dtype)
            if any(isinstance(x, Tn) for x in items) and v.dtype and t.dtype and v.dtype != t.dtype and "weak" not in v.tags and v.lib == "torch":
                if cat_of(v.dtype) == cat_of(t.dtype) == 2 or not any(isinstance(x, Tn) and x.dtype == "bool" for x in items):
                    it.event("dtype_mismatch", op="index_put", args=[repr(t), repr(v)])
        self.write(t, [v] + items, op="setitem")

    # ------------------------------------------------------------- creation
    def creation(self, shape, args, kw, default_dtype="float32", vals=()):
        it = self.it
        dt = default_dtype
        if not self.isnone(kw.get("dtype")):
            dt = self.dtype(kw["dtype"])
        dev = self.device(kw.get("device"), "cpu")
        d, g = self.alldeps(list(vals))
        md = EMPTY
        for a in list(args) + [kw.get(k) for k in ("dtype", "device", "size") if k in kw]:
            if a is not None:
                md = md | I.meta(it.deps(a))
        r = Tn(tuple(shape) if shape is not None else None, dt, dev, d | md | it.pc, EMPTY, it.storage())
        self.it.event("create", dtype=dt, dev=dev)
        return r

    def op_zeros(self, args, kw):
        if "size" in kw and not args:
            args = [kw["size"]]
        return self.creation(self.shape_arg(args), args, kw)

    op_ones = op_empty = op_zeros

    def op_full(self, args, kw):
        v = self.arg(args, kw, 1, "fill_value")
        dt = {"int": "int64", "bool": "bool", "float": "float32"}.get(getattr(v, "kind", ""), "float32")
        size = self.arg(args, kw, 0, "size")
        return self.creation(self.shape_arg([size]), [size], kw, dt, [v])

    def op_zeros_like(self, args, kw):
        t = self.tn(args[0])
        kw = dict(kw)
        if self.isnone(kw.get("dtype")):
            kw["dtype"] = Sc("dtype", UNK if t.dtype is None else t.dtype)
        if self.isnone(kw.get("device")):
            kw["device"] = Sc("device", UNK if t.dev is None else t.dev)
        r = self.creation(t.shape, [t], kw, vals=args[1:2])
        return _set(r, lib=t.lib)

    op_ones_like = op_empty_like = op_full_like = op_zeros_like

    def op_rand_like(self, args, kw):
        self.it.event("rng", op="rand_like")
        r = self.op_zeros_like(args[:1], kw)
        return _set(r, deps=r.deps | {"rng"})

    op_randn_like = op_rand_like

    def random(self, n, args, kw):
        it = self.it
        it.event("rng", op=n, generator="generator" in kw and not self.isnone(kw["generator"]))
        if n in ("rand", "randn"):
            r = self.op_zeros(args, kw)
        elif n == "randint":
            sz = self.arg(args, kw, 2, "size")
            if "size" not in kw and len(args) == 2:
                sz = args[1]
            if sz is None:
                sz = Top()
            r = self.creation(self.shape_arg([sz]), [sz], kw, "int64", [a for a in args if isinstance(a, Sc)])
        elif n == "randperm":
            r = self.creation([dimof(args[0])], args, kw, "int64")
        elif n == "multinomial":
            t = self.tn(args[0])
            ns = self.arg(args, kw, 1, "num_samples")
            sh = None if t.shape is None else t.shape[:-1] + (dimof(ns),)
            r = self.mk(sh, "int64", t.dev, args, grad=False)
        elif n in ("normal",):
            if args and isinstance(args[0], Tn):
                r = self.mk(args[0].shape, args[0].dtype, args[0].dev, args, grad=False)
            else:
                sz = self.arg(args, kw, 2, "size", default=Top())
                r = self.creation(self.shape_arg([sz]), [sz], kw, "float32", args[:2])
        else:
            t = self.tn(args[0])
            r = self.mk(t.shape, t.dtype, t.dev, args, grad=False)
        return _set(r, deps=r.deps | {"rng"})

    def op_arange(self, args, kw):
        a = [x for x in args]
        st, en, step = const(0), None, const(1)
        if len(a) == 1:
            en = a[0]
        elif len(a) >= 2:
            st, en = a[0], a[1]
            if len(a) > 2:
                step = a[2]
        st = kw.get("start", st)
        en = kw.get("end", en)
        step = kw.get("step", step)
        n = None
        ds, de, dp = dimof(st), dimof(en) if en is not None else None, dimof(step)
        if ds is not None and de is not None and dp == 1:
            n = dims.sub(de, ds)
        elif all(isinstance(x, int) for x in (ds, de, dp)):
            n = len(range(ds, de, dp))
        dt = "float32" if any(isinstance(x, Sc) and x.kind == "float" for x in (st, en, step)) else "int64"
        if getattr(self, "_np", False) and dt == "float32":
            dt = "float64"
        return self.creation([n], args, kw, dt, [])

    def op_linspace(self, args, kw):
        n = self.arg(args, kw, 2, "steps", "num")
        dt = "float32"
        ts = [x for x in args[:2] if isinstance(x, Tn)]
        r = self.creation([dimof(n)], [n], kw, dt, args[:2])
        if ts and ts[0].shape == ():
            return r
        return r

    op_logspace = op_linspace

    def op_eye(self, args, kw):
        n = dimof(args[0]) if args else None
        m = dimof(args[1]) if len(args) > 1 and isinstance(args[1], Sc) and args[1].kind == "int" else n
        return self.creation([n, m], args, kw)

    def seq_tensor(self, v):
        """(shape, dtype, deps, gdeps, devs) of nested sequence data"""
        it = self.it
        if isinstance(v, Tn):
            d, g = it.eff(v)
            return v.shape, v.dtype, d, g
        if isinstance(v, Sc):
            dt = {"int": "int64", "bool": "bool", "float": "float32"}.get(v.kind)
            return (), dt, v.deps, EMPTY
        if isinstance(v, Un):
            rs = [self.seq_tensor(m) for m in v.ms]
            sh, dt, d, g = rs[0]
            for r in rs[1:]:
                if sh is not None and r[0] is not None and len(sh) == len(r[0]):
                    sh = tuple(dims.join(a, b) for a, b in zip(sh, r[0]))
                else:
                    sh = None
                dt = dt if dt == r[1] else None
                d, g = d | r[2], g | r[3]
            return sh, dt, d, g
        if isinstance(v, (Tup, Ref)):
            k, xs, n = it.P.iter_items(v)
            if k == "known":
                if not xs:
                    return (0,), "float32", EMPTY, EMPTY
                rs = [self.seq_tensor(x) for x in xs]
                sh = rs[0][0]
                dt = rs[0][1]
                d = g = EMPTY
                for r in rs:
                    d, g = d | r[2], g | r[3]
                    if sh is None or r[0] is None or len(r[0]) != len(sh):
                        sh = None
                    else:
                        sh = tuple(dims.join(a, b) for a, b in zip(sh, r[0]))
                    dt = promote2(dt, r[1])
                return (None if sh is None else (len(xs),) + sh), dt, d, g
            sh, dt, d, g = self.seq_tensor(xs) if xs is not None else ((), None, EMPTY, EMPTY)
            return (None if sh is None else (n,) + sh), dt, d | it.deps(v), g
        return None, None, it.deps(v), it.gdeps(v)

    def op_tensor(self, args, kw):
        it = self.it
        v = args[0] if args else kw.get("data", Top())
        if isinstance(v, Tn):
            dt = self.dtype(kw["dtype"]) if not self.isnone(kw.get("dtype")) else v.dtype
            dev = self.device(kw["device"]) if not self.isnone(kw.get("device")) else ("cpu" if v.lib == "np" else v.dev)
            d, g = it.eff(v)
            return Tn(v.shape, dt, dev, d | it.pc, EMPTY, it.storage())
        sh, dt, d, g = self.seq_tensor(v)
        if not self.isnone(kw.get("dtype")):
            dt = self.dtype(kw["dtype"])
        if g:
            it.event("to_python", gdeps=g, op="tensor([...])")
        r = Tn(sh, dt, self.device(kw.get("device"), "cpu"), d | it.pc, EMPTY, it.storage())
        return self.withvals(r, self.listvals(v)) if dt == "int64" else r

    def op_as_tensor(self, args, kw):
        v = args[0] if args else kw.get("data", Top())
        if isinstance(v, Tn):
            r = self.op_to([v] + [x for x in (kw.get("device"), kw.get("dtype")) if x is not None and not self.isnone(x)], {})
            if v.lib == "np" and isinstance(r, Tn):
                r = _set(r, lib="torch", dev=self.device(kw.get("device"), "cpu"))
            return r
        return self.op_tensor(args, kw)

    op_asarray = op_as_tensor

    def op_from_numpy(self, args, kw):
        v = args[0]
        if isinstance(v, Tn):
            return _set(v, lib="torch", dev="cpu")
        return Tn(None, None, "cpu", self.it.deps(v), EMPTY, self.it.bases(v))

    def op_frombuffer(self, args, kw):
        return Tn((None,), self.dtype(kw.get("dtype", NONE)), "cpu", self.it.deps(args[0]), EMPTY, self.it.storage())

    def op_empty_strided(self, args, kw):
        return self.creation(self.shape_arg(args[:1]), args[:1], kw)

    def op_FloatTensor(self, args, kw):
        if args and isinstance(args[0], Sc):
            return self.op_zeros(args, {})
        return self.op_tensor(args, {"dtype": Sc("dtype", "float32")})

    op_Tensor = op_FloatTensor

    def op_LongTensor(self, args, kw):
        return self.op_tensor(args, {"dtype": Sc("dtype", "int64")})

    def op_BoolTensor(self, args, kw):
        return self.op_tensor(args, {"dtype": Sc("dtype", "bool")})

    def op_Size(self, args, kw):
        k, xs, n = self.it.P.iter_items(args[0])
        return Tup(xs if k == "known" else None, None if k == "known" else xs, n, cls="Size")

    # ------------------------------------------------------------- conversion
    def op_to(self, args, kw):
        it = self.it
        t = args[0]
        if not isinstance(t, Tn):
            if isinstance(t, Ref):
                return it.call_method(t, "to", args[1:], kw)
            return Top(it.deps(t), it.gdeps(t), it.bases(t))
        dt, dev = t.dtype, t.dev
        md = EMPTY
        for a in list(args[1:]) + [kw[k] for k in ("device", "dtype", "other") if k in kw]:
            if isinstance(a, Un):
                continue
            if isinstance(a, Sc) and a.kind == "none":
                continue
            md = md | I.meta(it.deps(a))
            if isinstance(a, Tn):
                dt, dev = a.dtype, a.dev
            elif isinstance(a, Sc) and a.kind == "dtype":
                dt = self.dtype(a)
            elif isinstance(a, Sc) and a.kind in ("device", "str"):
                dev = self.device(a)
            elif isinstance(a, Sc) and a.kind in ("int",):
                dev = "D"
            elif isinstance(a, Ext):
                dt = self.dtype(a)
            elif isinstance(a, Sc) and a.kind == "bool":
                pass
            else:
                dt = dev = None
        d, g = it.eff(t)
        cp = kw.get("copy")
        noalias = (cp is not None and it.P.truth(cp) is True) or (dt is not None and t.dtype is not None and dt != t.dtype) or (dev is not None and t.dev is not None and dev != t.dev and {dev, t.dev} != {"cpu", "D"})
        if cat_of(dt) is not None and cat_of(dt) < 2 or it.nograd:
            g = EMPTY
        if t.dtype and dt and cat_of(dt) == 2 == cat_of(t.dtype) and RANK[dt] < RANK[t.dtype]:
            it.event("narrowing", op="to", src=t.dtype, dst=dt)
        r = Tn(t.shape, dt, dev, d | md | it.pc, g, it.storage() if noalias else t.base, "torch", noalt(t.tags) - {"weak"} if not noalias else frozenset(x for x in [self.vals(t)] if x and cat_of(dt) == 1))
        return self.keeps(r, t) if noalias else r

    def _cast(self, dt):
        def f(args, kw):
            return self.op_to([args[0], Sc("dtype", dt)], {})
        return f

    def op_float(self, args, kw):
        return self._cast("float32")(args, kw)

    def op_double(self, args, kw):
        return self._cast("float64")(args, kw)

    def op_half(self, args, kw):
        return self._cast("float16")(args, kw)

    def op_long(self, args, kw):
        return self._cast("int64")(args, kw)

    def op_int(self, args, kw):
        return self._cast("int32")(args, kw)

    def op_bool(self, args, kw):
        return self._cast("bool")(args, kw)

    def op_byte(self, args, kw):
        return self._cast("uint8")(args, kw)

    def op_cpu(self, args, kw):
        return self.op_to([args[0], Sc("device", "cpu")], {})

    def op_cuda(self, args, kw):
        return self.op_to([args[0], Sc("device", "D")], {})

    def op_type_as(self, args, kw):
        t, o = args[0], args[1]
        if isinstance(o, Tn):
            return self.op_to([t, Sc("dtype", UNK if o.dtype is None else o.dtype), Sc("device", UNK if o.dev is None else o.dev)], {})
        return self.op_to([t, Top()], {})

    def op_type(self, args, kw):
        if len(args) == 1 and not kw:
            return Sc("str", UNK)
        return self.op_to([args[0], args[1] if len(args) > 1 else kw.get("dtype")], {})

    def op_detach(self, args, kw):
        t = self.tn(args[0])
        d, g = self.it.eff(t)
        # detached view: writes through the original stay connected, the value itself is not
        return Tn(t.shape, t.dtype, t.dev, d, EMPTY, frozenset("~" + b if not b.startswith(("in:", "~")) else b for b in t.base), t.lib, t.tags - {"weak"})

    def op_numpy(self, args, kw):
        t = self.tn(args[0])
        d, g = self.it.eff(t)
        return Tn(t.shape, t.dtype, "cpu", d, EMPTY, t.base, "np")

    def op_clone(self, args, kw):
        t = self.tn(args[0])
        r = self.withvals(self.mk(t.shape, t.dtype, t.dev, [t], lib=t.lib), self.vals(t))
        m = kw.get("memory_format")
        return r if isinstance(m, Ext) and m.name.endswith("contiguous_format") else self.keeps(r, t)

    # ------------------------------------------------------------- reductions
    def reduce(self, n, args, kw):
        it = self.it
        v = args[0] if args else kw.get("input", Top())
        if n in ("max", "min") and len(args) > 1 and isinstance(args[1], Tn):
            return self.generic("maximum" if n == "max" else "minimum", args[:2], {})
        t = self.tn(v)
        allv = args + list(kw.values())
        if n in ("norm", "linalg.norm", "linalg.vector_norm"):
            dim = self.arg(args, kw, 2, "dim", "axis")
            keep = self.arg(args, kw, 3, "keepdim", "keepdims")
        elif n in ("quantile", "percentile", "kthvalue"):
            dim = self.arg(args, kw, 2, "dim", "axis")
            keep = self.arg(args, kw, 3, "keepdim", "keepdims")
        else:
            dim = self.arg(args, kw, 1, "dim", "axis")
            keep = self.arg(args, kw, 2, "keepdim", "keepdims")
            if n in ("std", "var", "var_mean", "std_mean") and dim is not None and isinstance(dim, Sc) and dim.kind == "bool":
                dim = None
        if n in ("cummax", "cummin"):
            return Tup([self.mk(t.shape, t.dtype, t.dev, allv), self.mk(t.shape, "int64", t.dev, allv, grad=False)])
        keepb = self.truthy(keep, False)
        sh = None
        if t.shape is not None:
            if self.isnone(dim):
                sh = () if not keepb else (1,) * len(t.shape)
                if isinstance(keep, Sc) and keepb is None:
                    sh = None
            else:
                ax = self.axes(dim, len(t.shape))
                if ax == [] and n in ("sum",):
                    ax = list(range(len(t.shape)))
                if ax is not None and keepb is not None:
                    sh = tuple(1 if i in ax else s for i, s in enumerate(t.shape) if keepb or i not in ax)
                elif ax is None and isinstance(dim, Sc) and isinstance(dim.v, int) and dim.v is not UNK and t.shape != ():
                    self.it.do_raise("IndexError")
        dt = t.dtype
        if n in ("any", "all"):
            dt = "bool"
        elif n in ("argmax", "argmin", "count_nonzero"):
            dt = "int64"
        elif n in ("sum", "prod", "nansum") and cat_of(dt) in (0, 1):
            dt = "int64"
        if not self.isnone(kw.get("dtype")):
            dt = self.dtype(kw["dtype"])
        if n in ("mean", "norm", "std", "var") and cat_of(dt) in (0, 1) and t.lib == "np":
            dt = "float64"
        grad = n not in NONDIFF
        r = self.mk(sh, dt, t.dev, allv, grad=grad, lib=t.lib)
        vs = self.vals(t)
        if vs is not None and t.shape is not None and len(t.shape) == 1 and sh == ():
            if n in ("max", "amax"):
                r = self.withvals(r, ("seq", (dims.dmax(vs[1]),)) if vs[0] == "seq" else vs)
            elif n in ("min", "amin") and (vs[0] == "const" or len(set(vs[1])) == 1):
                r = self.withvals(r, self.pick(t, 0))
            elif n == "sum":
                tot = dims.mul(vs[1], t.shape[0]) if vs[0] == "const" else 0
                if vs[0] == "seq":
                    for x in vs[1]:
                        tot = dims.add(tot, x)
                r = self.withvals(r, ("seq", (tot,)))
        if n in ("max", "min", "median", "nanmedian", "mode", "kthvalue") and not self.isnone(dim) and t.lib == "torch":
            return Tup([r, self.mk(sh, "int64", t.dev, allv, grad=False)], cls="minmax", fields=("values", "indices"))
        if n in ("var_mean", "std_mean", "aminmax"):
            return Tup([r, r])
        return r

    # ------------------------------------------------------------- shape ops
    def op_reshape(self, args, kw):
        return self.op_view(args, kw, strict=False)

    def op_view(self, args, kw, strict=True):
        it = self.it
        t = self.tn(args[0])
        rest = args[1:]
        if len(rest) == 1 and isinstance(rest[0], Sc) and rest[0].kind == "dtype":
            return _set(t, dtype=self.dtype(rest[0]), base=t.base, tags=noalt(t.tags))
        if not rest and "shape" in kw:
            rest = [kw["shape"]]
        if not rest and "size" in kw:
            rest = [kw["size"]]
        if any(isinstance(x, Un) for x in rest):
            i = next(i for i, x in enumerate(rest) if isinstance(x, Un))
            return it.branch([lambda m=m: self.op_view([t] + rest[:i] + [m] + rest[i + 1:], kw, strict) for m in rest[i].ms])
        sh = self.shape_arg(rest)
        if sh is not None:
            total = dims.prod(t.shape) if t.shape is not None else None
            neg = [i for i, s in enumerate(sh) if isinstance(s, int) and s == -1]
            if len(neg) == 1:
                known = dims.prod([s for i, s in enumerate(sh) if i != neg[0]])
                q = dims.div_exact(total, known) if total is not None and known is not None else None
                if q is None and total is not None and known is not None:
                    if isinstance(total, int) and isinstance(known, int):
                        self.err("view", f"{t.shape} -> {sh}")
                    elif not dims.is_opaque(total) and not dims.is_opaque(known):
                        # generic sizes: not divisible as polynomials
                        self.err("view", f"{t.shape} -> {sh}")
                if q is None and total is None:
                    # cancel common unknown dims
                    q = self._cancel(t.shape, sh, neg[0])
                sh[neg[0]] = q
            elif not neg:
                p = dims.prod(sh)
                if total is not None and p is not None and total != p and not dims.is_opaque(total) and not dims.is_opaque(p):
                    self.err("view", f"{t.shape} -> {tuple(sh)}")
                unk = [i for i, s in enumerate(sh) if s is None]
                if len(unk) == 1 and total is not None:
                    p = dims.prod([s for s in sh if s is not None])
                    sh[unk[0]] = dims.div_exact(total, p)
            sh = tuple(sh)
        md = frozenset().union(*[I.meta(it.deps(a)) for a in rest]) if rest else EMPTY
        d, g = it.eff(t)
        r = Tn(sh, t.dtype, t.dev, d | md | it.pc, EMPTY if it.nograd else g, t.base, t.lib)
        return self.relaid(r, t, strict, "view")

    def relaid(self, r, t, strict, op):
        """r reshapes t: a view where the memory layout of t allows it, else a copy (an error for view)"""
        if t.lib != "torch" or t.shape is None or r.shape is None:
            return r
        st = self.viewed(t.shape, self.strides(t), r.shape)
        self.it.views += strict and st is not None
        if st is None:
            return self.laid(r, None if self.strides(t) == self.contig(t.shape) else (None,) * len(r.shape))
        if st is False:
            if strict:
                self.it.event("layout", op=op, args=[repr(t)], detail=f"strides {tuple(map(str, self.strides(t)))} of shape {tuple(map(str, t.shape))} do not allow a view of shape {tuple(map(str, r.shape))}")
                return self.laid(r, None)
            if self.it.copies:
                self.it.copied += 1
                r = _set(r, base=self.it.storage())
            return self.laid(r, None)
        return self.laid(r, st)

    def _cancel(self, shape, new, neg):
        return None

    def op_view_as(self, args, kw):
        return self.op_view([args[0], self.attr(self.tn(args[1]), "shape")], {})

    def op_reshape_as(self, args, kw):
        return self.op_view([args[0], self.attr(self.tn(args[1]), "shape")], {}, strict=False)

    def op_flatten(self, args, kw):
        t = self.tn(args[0])
        return self.relaid(self._flatten(args, kw), t, False, "flatten")

    def _flatten(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        s = self.arg(args, kw, 1, "start_dim", default=const(0))
        e = self.arg(args, kw, 2, "end_dim", default=const(-1))
        a, b = self.axis(s, len(t.shape)), self.axis(e, len(t.shape))
        if t.shape == ():
            return self.view_of(t, (1,))
        if a is None or b is None:
            return self.view_of(t, None)
        return self.view_of(t, t.shape[:a] + (dims.prod(t.shape[a:b + 1]),) + t.shape[b + 1:])

    op_ravel = op_flatten

    def op_unflatten(self, args, kw):
        t = self.tn(args[0])
        return self.relaid(self._unflatten(args, kw), t, True, "unflatten")

    def _unflatten(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        a = self.axis(self.arg(args, kw, 1, "dim"), len(t.shape))
        sh = self.shape_arg([self.arg(args, kw, 2, "sizes")])
        if a is None or sh is None:
            return self.view_of(t, None)
        if -1 in [s for s in sh if isinstance(s, int)]:
            i = sh.index(-1)
            sh[i] = dims.div_exact(t.shape[a], dims.prod(sh[:i] + sh[i + 1:]))
        return self.view_of(t, t.shape[:a] + tuple(sh) + t.shape[a + 1:])

    def view_of(self, t, shape, extra=EMPTY, st=None):
        it = self.it
        d, g = it.eff(t)
        r = Tn(shape, t.dtype, t.dev, d | extra | it.pc, EMPTY if it.nograd else g, t.base, t.lib)
        return self.laid(r, st if st is not None else None if shape is None else (None,) * len(shape))

    def op_expand(self, args, kw):
        it = self.it
        t = self.tn(args[0])
        rest = args[1:] or ([kw["size"]] if "size" in kw else [])
        sh = self.shape_arg(rest)
        if sh is None or t.shape is None:
            return self.view_of(t, tuple(sh) if sh is not None and all(not (isinstance(s, int) and s == -1) for s in sh) else None)
        if len(sh) < len(t.shape):
            self.err("expand", f"{t.shape} -> {tuple(sh)}")
            return self.view_of(t, None)
        out = []
        off = len(sh) - len(t.shape)
        st = [0] * off + list(self.strides(t))
        for i, s in enumerate(sh):
            if i < off:
                out.append(s)
                continue
            x = t.shape[i - off]
            if isinstance(s, int) and s == -1:
                out.append(x)
            elif x == 1:
                out.append(s)
                if s != 1:
                    st[i] = 0
            else:
                out.append(self.same(x, s, "expand", f"{t.shape} -> {tuple(sh)}"))
        return self.view_of(t, tuple(out), st=tuple(st))

    def op_expand_as(self, args, kw):
        return self.op_expand([args[0], self.attr(self.tn(args[1]), "shape")], {})

    def op_broadcast_to(self, args, kw):
        return self.op_expand(args, kw)

    def op_broadcast_tensors(self, args, kw):
        ts = [self.tn(a) for a in args]
        if len(args) == 1 and isinstance(args[0], (Ref, Tup)):
            k, xs, n = self.it.P.iter_items(args[0])
            if k != "known":
                return Tup(None, self.view_of(self.tn(xs), None), n)
            ts = [self.tn(x) for x in xs]
        sh = self.bcast([t.shape for t in ts], "broadcast_tensors")
        return Tup([self.view_of(t, sh) for t in ts])

    def op_permute(self, args, kw):
        t = self.tn(args[0])
        rest = args[1:]
        if not rest and "dims" in kw:
            rest = [kw["dims"]]
        if len(rest) == 1 and isinstance(rest[0], (Tup, Ref)):
            k, rest, n = self.it.P.iter_items(rest[0])
            if k != "known":
                return self.view_of(t, None)
        if t.shape is None:
            return self.view_of(t, (None,) * len(rest))
        ax = [self.axis(x, len(t.shape)) for x in rest]
        if len(ax) != len(t.shape):
            self.err("permute", f"{t.shape} with {len(ax)} dims")
            return self.view_of(t, None)
        if any(a is None for a in ax):
            return self.view_of(t, None)
        return self.view_of(t, tuple(t.shape[a] for a in ax), st=tuple(self.strides(t)[a] for a in ax))

    def op_transpose(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        a = self.axis(self.arg(args, kw, 1, "dim0"), len(t.shape))
        b = self.axis(self.arg(args, kw, 2, "dim1"), len(t.shape))
        if a is None or b is None:
            return self.view_of(t, None)
        s = list(t.shape)
        s[a], s[b] = s[b], s[a]
        st = list(self.strides(t))
        st[a], st[b] = st[b], st[a]
        return self.view_of(t, tuple(s), st=tuple(st))

    op_swapaxes = op_swapdims = op_transpose

    def op_t(self, args, kw):
        t = self.tn(args[0])
        return self.view_of(t, None if t.shape is None else t.shape[::-1], st=None if t.shape is None else self.strides(t)[::-1])

    def op_movedim(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        a = self.axis(args[1], len(t.shape)) if isinstance(args[1], Sc) else None
        b = self.axis(args[2], len(t.shape)) if isinstance(args[2], Sc) else None
        if a is None or b is None:
            return self.view_of(t, (None,) * len(t.shape))
        s = list(t.shape)
        st = list(self.strides(t))
        s.insert(b, s.pop(a))
        st.insert(b, st.pop(a))
        return self.view_of(t, tuple(s), st=tuple(st))

    op_moveaxis = op_movedim

    def op_squeeze(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        d = self.arg(args, kw, 1, "dim", "axis")
        if d is None:
            if any(s is None or not isinstance(s, int) for s in t.shape):
                self.it.event("squeeze_any", op="squeeze", detail=f"drops every axis of {t.shape} whose size is 1")
            if any(s is None for s in t.shape):
                return self.view_of(t, None)
            return self.view_of(t, tuple(s for s in t.shape if s != 1), st=tuple(x for x, s in zip(self.strides(t), t.shape) if s != 1))
        ax = self.axes(d, len(t.shape))
        if ax is None:
            if isinstance(d, Sc) and isinstance(d.v, int) and d.v is not UNK:
                self.it.do_raise("IndexError")
            return self.view_of(t, None)
        if any(t.shape[a] is None or dims.is_opaque(t.shape[a]) for a in ax):
            return self.view_of(t, None)
        if any(not isinstance(t.shape[a], int) for a in ax):
            self.it.event("squeeze_any", op="squeeze", detail=f"drops axis {d!r} of {t.shape} when its size is 1")
        return self.view_of(t, tuple(s for i, s in enumerate(t.shape) if not (i in ax and s == 1)), st=tuple(x for i, (x, s) in enumerate(zip(self.strides(t), t.shape)) if not (i in ax and s == 1)))

    def op_unsqueeze(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        a = self.axis(self.arg(args, kw, 1, "dim", "axis"), len(t.shape) + 1)
        if a is None:
            return self.view_of(t, None)
        st = self.strides(t)
        return self.view_of(t, t.shape[:a] + (1,) + t.shape[a:], st=st[:a] + (1,) + st[a:])

    op_expand_dims = op_unsqueeze

    def op_atleast_1d(self, args, kw):
        t = self.tn(args[0])
        return self.view_of(t, (1,) if t.shape == () else t.shape, st=(1,) if t.shape == () else self.strides(t))

    def op_unbind(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return Tup(None, self.view_of(t, None), None)
        a = self.axis(self.arg(args, kw, 1, "dim", default=const(0)), len(t.shape))
        if a is None:
            return Tup(None, self.view_of(t, None), None)
        n = t.shape[a]
        st = self.strides(t)
        e = self.view_of(t, t.shape[:a] + t.shape[a + 1:], st=st[:a] + st[a + 1:])
        if isinstance(n, int) and n <= 40:
            return Tup([e] * n)
        return Tup(None, e, n)

    def op_split(self, args, kw):
        it = self.it
        t = self.tn(args[0])
        ss = self.arg(args, kw, 1, "split_size_or_sections", "split_size", "split_sizes")
        d = it.deps(ss)
        e = self.view_of(t, None, d)
        if t.shape is None:
            return Tup(None, e, None)
        a = self.axis(self.arg(args, kw, 2, "dim", default=const(0)), len(t.shape))
        if a is None:
            return Tup(None, e, None)
        n = t.shape[a]

        def piece(x):
            return self.view_of(t, t.shape[:a] + (x,) + t.shape[a + 1:], d, st=self.strides(t))
        if isinstance(ss, Sc):
            s = dimof(ss)
            if isinstance(s, int) and isinstance(n, int) and s > 0:
                return Tup([piece(min(s, n - i)) for i in range(0, n, s)])
            q = dims.div_exact(n, s) if n is not None and s is not None else None
            if isinstance(q, int) and q <= 40:
                return Tup([piece(s)] * q)
            return Tup(None, piece(s if q is not None else None), q)
        k, xs, ln = it.P.iter_items(ss)
        if k == "known":
            szs = [dimof(x) if isinstance(x, Sc) else None for x in xs]
            tot = 0
            for x in szs:
                tot = dims.add(tot, x)
            self.same(tot, n, "split", f"sizes {szs} of {n}")
            return Tup([piece(x) for x in szs])
        x = dimof(xs) if isinstance(xs, Sc) else None
        if x is None:
            x = dims.sym(f"[sp{it._id(id(it.node), 'sp')}]") if False else None
        return Tup(None, piece(x), ln)

    op_split_with_sizes = op_split

    def op_chunk(self, args, kw):
        t = self.tn(args[0])
        n = dimof(self.arg(args, kw, 1, "chunks"))
        if t.shape is None:
            return Tup([self.view_of(t, None)] * n) if isinstance(n, int) else Tup(None, self.view_of(t, None), None)
        a = self.axis(self.arg(args, kw, 2, "dim", default=const(0)), len(t.shape))
        if a is None:
            return Tup(None, self.view_of(t, None), None)
        q = dims.div_exact(t.shape[a], n) if t.shape[a] is not None and n is not None else None
        e = self.view_of(t, t.shape[:a] + (q,) + t.shape[a + 1:], st=self.strides(t))
        if isinstance(n, int) and q is not None:
            return Tup([e] * n)
        return Tup(None, e, None)

    def op_narrow(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        a = self.axis(self.arg(args, kw, 1, "dim"), len(t.shape))
        n = dimof(self.arg(args, kw, 3, "length"))
        if a is None:
            return self.view_of(t, None)
        return self.view_of(t, t.shape[:a] + (n,) + t.shape[a + 1:], st=self.strides(t))

    def op_select(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.view_of(t, None)
        a = self.axis(self.arg(args, kw, 1, "dim"), len(t.shape))
        st = self.strides(t)
        return self.view_of(t, None if a is None else t.shape[:a] + t.shape[a + 1:], st=None if a is None else st[:a] + st[a + 1:])

    def op_diagonal(self, args, kw):
        t = self.tn(args[0])
        off = self.arg(args, kw, 1, "offset", default=const(0))
        d1 = self.arg(args, kw, 2, "dim1", default=const(0))
        d2 = self.arg(args, kw, 3, "dim2", default=const(1))
        if t.shape is None:
            return self.view_of(t, None)
        a, b = self.axis(d1, len(t.shape)), self.axis(d2, len(t.shape))
        if a is None or b is None:
            return self.view_of(t, None)
        n = dims.join(t.shape[a], t.shape[b]) if getattr(off, "v", None) == 0 else None
        return self.view_of(t, tuple(s for i, s in enumerate(t.shape) if i not in (a, b)) + (n,))

    def op_diag(self, args, kw):
        t = self.tn(args[0])
        if t.shape is None:
            return self.like(t, "diag", args, None)
        if len(t.shape) == 1:
            return self.like(t, "diag", args, (t.shape[0], t.shape[0]))
        return self.like(t, "diag", args, (t.shape[0],))

    def op_diag_embed(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "diag_embed", args, None if t.shape is None else t.shape + (t.shape[-1],))

    def op_trace(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "trace", args, ())

    def seq(self, v):
        """sequence of tensors: ('known', list) or ('unk', elem, length)"""
        k, xs, n = self.it.P.iter_items(v)
        if k == "known":
            return [self.tn(x) for x in xs], None, n
        if xs is None:
            return None, None, n
        if isinstance(xs, Un):
            e = None
            for m in xs.ms:
                m = self.tn(m)
                e = m if e is None else (self.it.join1(e, m) or Tn(None, None, None, e.deps | m.deps, e.gdeps | m.gdeps))
            return None, e, n
        return None, self.tn(xs), n

    def op_stack(self, args, kw):
        it = self.it
        v = self.arg(args, kw, 0, "tensors", "arrays")
        dim = self.arg(args, kw, 1, "dim", "axis", default=const(0))
        if isinstance(v, Tn):
            return self.mk(v.shape, v.dtype, v.dev, [v])
        ts, e, n = self.seq(v)
        d, g = self.alldeps([v])
        if ts is not None:
            if not ts:
                it.do_raise("RuntimeError", "stack of nothing")
            sh = None
            if all(t.shape is not None for t in ts):
                sh = list(ts[0].shape)
                for t in ts[1:]:
                    if len(t.shape) != len(sh):
                        self.err("stack", f"ranks differ: {[x.shape for x in ts]}")
                        sh = None
                        break
                    sh = [self.same(a, b, "stack", f"{[x.shape for x in ts]}") for a, b in zip(sh, t.shape)]
            a = None if sh is None else self.axis(dim, len(sh) + 1)
            out = None if a is None else tuple(sh[:a]) + (len(ts),) + tuple(sh[a:])
            return self.mk(out, self.promote(ts, "stack"), self.joindev([t if t.shape != () else _set(t, shape=(1,)) for t in ts], "stack"), ts)
        if e is None:
            return Tn(None, None, None, d, g, it.storage())
        sh = e.shape
        a = None if sh is None else self.axis(dim, len(sh) + 1)
        out = None if a is None else sh[:a] + (n,) + sh[a:]
        return self.mk(out, e.dtype, e.dev, [], d=d, g=g, lib=e.lib)

    def op_cat(self, args, kw):
        it = self.it
        v = self.arg(args, kw, 0, "tensors", "arrays")
        dim = self.arg(args, kw, 1, "dim", "axis", default=const(0))
        if isinstance(v, Tn):
            return self.mk(None, v.dtype, v.dev, [v])
        ts, e, n = self.seq(v)
        d, g = self.alldeps([v])
        if ts is not None:
            if not ts:
                it.do_raise("RuntimeError", "cat of nothing")
            nz = [t for t in ts if t.shape != (0,)] or ts
            sh = None
            if all(t.shape is not None for t in nz):
                a = self.axis(dim, len(nz[0].shape))
                if a is None and isinstance(dim, Sc) and dim.v is not UNK:
                    it.do_raise("IndexError")
                if a is not None:
                    sh = list(nz[0].shape)
                    for t in nz[1:]:
                        if len(t.shape) != len(sh):
                            self.err("cat", f"ranks differ: {[x.shape for x in ts]}")
                            sh = None
                            break
                        sh = [dims.add(x, y) if i == a else self.same(x, y, "cat", f"{[x.shape for x in ts]}") for i, (x, y) in enumerate(zip(sh, t.shape))]
            return self.mk(None if sh is None else tuple(sh), self.promote(ts, "cat"), self.joindev([t if t.shape != () else _set(t, shape=(1,)) for t in ts], "cat"), ts)
        if e is None:
            return Tn(None, None, None, d, g, it.storage())
        out = None
        if e.shape is not None:
            a = self.axis(dim, len(e.shape))
            if a is not None:
                out = tuple(dims.mul(n, s) if i == a else s for i, s in enumerate(e.shape))
        return self.mk(out, e.dtype, e.dev, [], d=d, g=g, lib=e.lib)

    op_concat = op_concatenate = op_cat

    def op_diff(self, args, kw):
        t = self.tn(args[0])
        n = self.arg(args, kw, 1, "n", default=const(1))
        dim = self.arg(args, kw, 2, "dim", "axis", default=const(-1))
        ts = [x for x in (self.arg(args, kw, 3, "prepend", default=NONE), args[0], self.arg(args, kw, 4, "append", default=NONE)) if not self.isnone(x)]
        c = self.op_cat([Tup(ts), dim], {}) if len(ts) > 1 else t
        sh = None
        if c.shape is not None:
            a = self.axis(dim, len(c.shape))
            if a is not None and isinstance(n, Sc) and isinstance(n.v, int) and n.v is not UNK:
                sh = tuple((None if x is None else dims.add(x, -n.v)) if i == a else x for i, x in enumerate(c.shape))
        return self.mk(sh, c.dtype, c.dev, [c])

    def op_hstack(self, args, kw):
        return self.op_cat([args[0], const(1)], {})

    def op_vstack(self, args, kw):
        r = self.op_cat([args[0], const(0)], {})
        return r

    def op_repeat(self, args, kw):
        t = self.tn(args[0])
        if t.lib == "np":
            return self.like(t, "repeat", args, None)
        sh = self.shape_arg(args[1:] or list(kw.values()))
        if sh is None or t.shape is None:
            return self.mk(None, t.dtype, t.dev, args, lib=t.lib)
        if len(sh) < len(t.shape):
            self.err("repeat", f"{t.shape} x {sh}")
            return self.mk(None, t.dtype, t.dev, args)
        s = (1,) * (len(sh) - len(t.shape)) + t.shape
        d, g = self.it.eff(t)
        md = frozenset().union(*[I.meta(self.it.deps(a)) for a in args[1:]])
        return self.mk(tuple(dims.mul(a, b) for a, b in zip(s, sh)), t.dtype, t.dev, [], d=d | md, g=g)

    def op_tile(self, args, kw):
        t = self.tn(args[0])
        sh = self.shape_arg(args[1:] or list(kw.values()))
        if sh is None or t.shape is None:
            return self.mk(None, t.dtype, t.dev, args, lib=t.lib)
        n = max(len(sh), len(t.shape))
        a = (1,) * (n - len(t.shape)) + t.shape
        b = [1] * (n - len(sh)) + list(sh)
        return self.mk(tuple(dims.mul(x, y) for x, y in zip(a, b)), t.dtype, t.dev, args, lib=t.lib)

    def op_repeat_interleave(self, args, kw):
        t = self.tn(args[0])
        r = self.arg(args, kw, 1, "repeats")
        dim = self.arg(args, kw, 2, "dim")
        if r is None:
            return self.mk((None,), "int64", t.dev, args, grad=False)
        rep = dimof(r) if isinstance(r, Sc) else None
        sh = None
        os = kw.get("output_size")
        if t.shape is not None:
            if self.isnone(dim):
                sh = (dims.mul(dims.prod(t.shape), rep) if rep is not None else (dimof(os) if os is not None else None),)
            else:
                a = self.axis(dim, len(t.shape))
                if a is not None:
                    x = dims.mul(t.shape[a], rep) if rep is not None else (dimof(os) if os is not None else None)
                    sh = t.shape[:a] + (x,) + t.shape[a + 1:]
        if isinstance(r, Tn):
            self.joindev([t, r], "repeat_interleave")
        return self.mk(sh, t.dtype, t.dev, args + list(kw.values()))

    def op_meshgrid(self, args, kw):
        if "indexing" not in kw:
            pass
        if len(args) == 1 and isinstance(args[0], (Tup, Ref)):
            k, xs, n = self.it.P.iter_items(args[0])
            if k != "known":
                return Tup(None, Tn(None, None, None, self.it.deps(args[0])), n)
            args = xs
        ts = [self.tn(a) for a in args]
        sh = tuple(dims.prod(t.shape) if t.shape is not None else None for t in ts)
        ind = kw.get("indexing")
        np_default_xy = any(t.lib == "np" for t in ts) and ind is None
        if (isinstance(ind, Sc) and ind.v == "xy" or np_default_xy) and len(sh) >= 2:
            sh = (sh[1], sh[0]) + sh[2:]
        return Tup([self.view_of(t, sh) for t in ts])

    def op_cartesian_prod(self, args, kw):
        ts = [self.tn(a) for a in args]
        return self.mk((dims.prod([t.shape[0] if t.shape else None for t in ts]), len(ts)), ts[0].dtype, ts[0].dev, ts)

    def op_combinations(self, args, kw):
        t = self.tn(args[0])
        return self.mk((None, 2), t.dtype, t.dev, args)

    def op_pad(self, args, kw):
        t = self.tn(args[0])
        p = self.arg(args, kw, 1, "pad")
        sh = None
        if t.shape is not None and t.lib == "torch":
            k, xs, n = self.it.P.iter_items(p)
            if k == "known":
                sh = list(t.shape)
                if len(xs) > 2 * len(sh):
                    self.err("pad", f"{t.shape} pad {len(xs)}")
                    sh = None
                else:
                    for i in range(0, len(xs) - 1, 2):
                        j = len(sh) - 1 - i // 2
                        sh[j] = dims.add(sh[j], dims.add(dimof(xs[i]), dimof(xs[i + 1])))
        val = self.arg(args, kw, 3, "value")
        return self.mk(None if sh is None else tuple(sh), t.dtype, t.dev, [t, val], lib=t.lib, extra=I.meta(self.it.deps(p)) if p is not None else EMPTY)

    # ------------------------------------------------------------- gather / scatter
    def op_gather(self, args, kw):
        t = self.tn(args[0])
        idx = self.tn(self.arg(args, kw, 2, "index"))
        dim = self.arg(args, kw, 1, "dim")
        self.joindev([t, idx], "gather")
        if t.shape is not None and idx.shape is not None and len(t.shape) != len(idx.shape) and t.shape != () and idx.shape != ():
            self.err("gather", f"{t.shape} index {idx.shape}")
        if idx.dtype in FLOATS or idx.dtype == "int32":
            self.it.event("dtype_mismatch", op="gather", args=[repr(t), repr(idx)])
        a = self.axis(dim, len(t.shape)) if t.shape is not None else None
        if a is not None and idx.shape is not None and len(idx.shape) == len(t.shape):
            for i, (x, y) in enumerate(zip(t.shape, idx.shape)):
                if i != a and x is not None and y is not None and dims.lt(x, y) is True and not dims.is_opaque(x) and not dims.is_opaque(y):
                    self.err("gather", f"{t.shape} index {idx.shape}")
        d, _ = self.alldeps([t, idx])
        return self.mk(idx.shape, t.dtype, t.dev, [], d=d, g=self.it.gdeps(t), lib=t.lib)

    def op_take_along_dim(self, args, kw):
        return self.op_gather([args[0], self.arg(args, kw, 2, "dim"), args[1]], {})

    def op_index_select(self, args, kw):
        t = self.tn(args[0])
        idx = self.tn(self.arg(args, kw, 2, "index"))
        self.joindev([t, idx], "index_select")
        a = self.axis(self.arg(args, kw, 1, "dim"), len(t.shape)) if t.shape is not None else None
        sh = None
        if a is not None and idx.shape is not None:
            if len(idx.shape) > 1:
                self.err("index_select", f"index {idx.shape}")
            sh = t.shape[:a] + (idx.shape[0] if idx.shape else 1,) + t.shape[a + 1:]
        d, _ = self.alldeps([t, idx])
        return self.mk(sh, t.dtype, t.dev, [], d=d, g=self.it.gdeps(t), lib=t.lib)

    def op_masked_select(self, args, kw):
        t, m = self.tn(args[0]), self.tn(args[1])
        return self.mk((None,), t.dtype, t.dev, args)

    def op_masked_fill(self, args, kw):
        t, m = self.tn(args[0]), self.tn(args[1])
        self.joindev([t, m], "masked_fill")
        return self.mk(self.bcast([t.shape, m.shape], "masked_fill"), t.dtype, t.dev, args + list(kw.values()))

    def op_masked_scatter(self, args, kw):
        t, m, s = (self.tn(a) for a in args[:3])
        self.joindev([t, m, s], "masked_scatter")
        return self.mk(self.bcast([t.shape, m.shape], "masked_scatter"), t.dtype, t.dev, args)

    def _scatter(self, n):
        def f(args, kw):
            t = self.tn(args[0])
            ts = [x for x in args[1:] + list(kw.values()) if isinstance(x, Tn)]
            self.joindev([t] + ts, n)
            return self.mk(t.shape, t.dtype, t.dev, args + list(kw.values()))
        return f

    def op_scatter(self, args, kw):
        return self._scatter("scatter")(args, kw)

    def op_scatter_add(self, args, kw):
        return self._scatter("scatter_add")(args, kw)

    def op_index_add(self, args, kw):
        return self._scatter("index_add")(args, kw)

    def op_index_fill(self, args, kw):
        return self._scatter("index_fill")(args, kw)

    def op_index_put(self, args, kw):
        return self._scatter("index_put")(args, kw)

    def op_scatter_reduce(self, args, kw):
        return self._scatter("scatter_reduce")(args, kw)

    def op_where(self, args, kw):
        c = self.tn(args[0])
        if len(args) == 1:
            n = len(c.shape) if c.shape is not None else None
            k = self.picked(c) if c.shape is not None else None
            e = self.mk((k,), "int64", c.dev, [c], grad=False)
            return Tup([e] * n) if n is not None else Tup(None, e, None)
        a, b = self.tn(args[1]), self.tn(args[2])
        sh = self.bcast([c.shape, a.shape, b.shape], "where")
        dev = self.joindev([c, a, b], "where")
        d, _ = self.alldeps([c, a, b])
        g = self.it.gdeps(a) | self.it.gdeps(b)
        return self.elementwise(self.mk(sh, self.promote([a, b]), dev, [], d=d, g=g, lib="np" if self.allnp([c, a, b]) else "torch"), [c, a, b])

    def op_nonzero(self, args, kw):
        t = self.tn(args[0])
        k = self.picked(t) if t.shape is not None else None
        n = len(t.shape) if t.shape is not None else None
        if self.truthy(kw.get("as_tuple"), False):
            e = self.mk((k,), "int64", t.dev, [t], grad=False)
            return Tup([e] * n) if n is not None else Tup(None, e, None)
        if t.lib == "np":
            e = self.mk((k,), "int64", t.dev, [t], grad=False)
            return Tup([e] * n) if n is not None else Tup(None, e, None)
        return self.mk((k, n), "int64", t.dev, [t], grad=False)

    op_argwhere = op_nonzero

    def op_unique(self, args, kw):
        t = self.tn(args[0])
        ri = self.truthy(self.arg(args, kw, 2, "return_inverse"), False)
        rc = self.truthy(self.arg(args, kw, 3, "return_counts"), False)
        dim = self.arg(args, kw, 4, "dim", "axis")
        u = dims.sym(f"[uq{','.join(sorted(t.base))}]")
        vs = self.vals(t)
        if vs is not None and t.shape is not None and len(t.shape) == 1:
            if vs[0] == "const" or len(set(vs[1])) == 1:
                u = 1
            elif not any(dims.is_opaque(x) for x in vs[1]):
                u = len(set(vs[1]))
        if self.isnone(dim):
            sh = (u,)
            ish = t.shape
        else:
            a = self.axis(dim, len(t.shape)) if t.shape is not None else None
            sh = None if a is None else t.shape[:a] + (u,) + t.shape[a + 1:]
            ish = None if a is None else (t.shape[a],)
        outs = [self.mk(sh, t.dtype, t.dev, [t], grad=False, lib=t.lib)]
        if t.lib == "np" and self.truthy(kw.get("return_index"), False):
            outs.append(self.mk((u,), "int64", t.dev, [t], grad=False))
        if ri:
            outs.append(self.mk(ish, "int64", t.dev, [t], grad=False))
        if rc:
            outs.append(self.mk((u,), "int64", t.dev, [t], grad=False))
        return outs[0] if len(outs) == 1 else Tup(outs)

    op_unique_consecutive = op_unique

    def op_sort(self, args, kw):
        t = self.tn(args[0])
        if t.lib == "np":
            return self.like(t, "sort", args)
        return Tup([self.mk(t.shape, t.dtype, t.dev, args), self.mk(t.shape, "int64", t.dev, args, grad=False)], cls="sort", fields=("values", "indices"))

    def op_argsort(self, args, kw):
        t = self.tn(args[0])
        return self.mk(t.shape, "int64", t.dev, args + list(kw.values()), grad=False, lib=t.lib)

    def op_topk(self, args, kw):
        t = self.tn(args[0])
        k = dimof(self.arg(args, kw, 1, "k"))
        dim = self.arg(args, kw, 2, "dim", default=const(-1))
        sh = None
        if t.shape is not None:
            a = self.axis(dim, len(t.shape))
            sh = None if a is None else t.shape[:a] + (k,) + t.shape[a + 1:]
        av = args + list(kw.values())
        return Tup([self.mk(sh, t.dtype, t.dev, av), self.mk(sh, "int64", t.dev, av, grad=False)], cls="topk", fields=("values", "indices"))

    def op_searchsorted(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        self.joindev([a, b], "searchsorted")
        return self.mk(b.shape, "int64", b.dev, args, grad=False)

    def op_bucketize(self, args, kw):
        a, b = self.tn(args[0]), self.tn(self.arg(args, kw, 1, "boundaries"))
        self.joindev([a, b], "bucketize")
        i32 = self.arg(args, kw, 2, "out_int32")
        return self.mk(a.shape, "int64" if i32 is None or i32 is FALSE or getattr(i32, "v", None) is False else None, a.dev, args + list(kw.values()), grad=False)

    def op_bincount(self, args, kw):
        t = self.tn(args[0])
        return self.mk((None,), "int64" if len(args) < 2 and "weights" not in kw else None, t.dev, args + list(kw.values()))

    def op_one_hot(self, args, kw):
        t = self.tn(args[0])
        n = self.arg(args, kw, 1, "num_classes")
        return self.mk(None if t.shape is None else t.shape + (dimof(n) if n is not None else None,), "int64", t.dev, args, grad=False)

    def op_isin(self, args, kw):
        t = self.tn(args[0])
        return self.mk(t.shape, "bool", t.dev, args, grad=False)

    def op_in1d(self, args, kw):
        return self.op_isin(args, kw)

    # ------------------------------------------------------------- matmul family
    def mm(self, name, a, b, extra=()):
        it = self.it
        a, b = self.tn(a), self.tn(b)
        dev = self.joindev([a if a.shape != () else a, b], name)
        if a.dtype and b.dtype and a.dtype != b.dtype and "np" not in (a.lib, b.lib):
            it.event("dtype_mismatch", op=name, args=[repr(a), repr(b)])
        dt = promote2(a.dtype, b.dtype) if "np" in (a.lib, b.lib) else (a.dtype if a.dtype == b.dtype else None)
        sh = None
        if a.shape is not None and b.shape is not None:
            sa, sb = a.shape, b.shape
            if not sa or not sb:
                self.err(name, f"{sa} @ {sb}")
            elif len(sa) == 1 and len(sb) == 1:
                self.same(sa[0], sb[0], name, f"{sa} @ {sb}")
                sh = ()
            elif len(sa) == 1:
                self.same(sa[0], sb[-2], name, f"{sa} @ {sb}")
                sh = sb[:-2] + sb[-1:]
            elif len(sb) == 1:
                self.same(sa[-1], sb[0], name, f"{sa} @ {sb}")
                sh = sa[:-1]
            else:
                self.same(sa[-1], sb[-2], name, f"{sa} @ {sb}")
                lead = self.bcast([sa[:-2], sb[:-2]], name)
                sh = None if lead is None else lead + (sa[-2], sb[-1])
        return self.mk(sh, dt, dev, [a, b] + list(extra))

    def op_matmul(self, args, kw):
        return self.mm("matmul", args[0], args[1])

    op_mm = op_mv = op_matmul

    def op_bmm(self, args, kw):
        a, b = self.tn(args[0]), self.tn(self.arg(args, kw, 1, "mat2"))
        for x in (a, b):
            if x.shape is not None and len(x.shape) != 3:
                self.err("bmm", f"{a.shape} {b.shape}")
                return self.mk(None, a.dtype, a.dev, [a, b])
        if a.shape is not None and b.shape is not None:
            self.same(a.shape[0], b.shape[0], "bmm", f"batch {a.shape} {b.shape}")
        r = self.mm("bmm", a, b)
        return r

    def op_baddbmm(self, args, kw):
        r = self.op_bmm(args[1:3], {})
        t = self.tn(args[0])
        return self.mk(self.bcast([r.shape, t.shape], "baddbmm"), r.dtype, r.dev, [r, t])

    def op_addmm(self, args, kw):
        r = self.mm("addmm", args[1], args[2])
        return self.mk(r.shape, r.dtype, r.dev, [r, args[0]])

    def op_linear(self, args, kw):
        x, w = self.tn(args[0]), self.tn(self.arg(args, kw, 1, "weight"))
        b = self.arg(args, kw, 2, "bias")
        r = self.mm("linear", x, self.call("transpose", [w, const(0), const(1)], {}) if w.shape is not None and len(w.shape) == 2 else w)
        if isinstance(b, Tn):
            self.joindev([r, b], "linear")
        return self.mk(r.shape, r.dtype, r.dev, [x, w] + ([b] if b is not None else []))

    def op_dot(self, args, kw):
        return self.mm("dot", args[0], args[1])

    def op_outer(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        sh = None if a.shape is None or b.shape is None else (dims.prod(a.shape), dims.prod(b.shape))
        return self.mk(sh, self.promote([a, b]), self.joindev([a, b], "outer"), [a, b])

    op_ger = op_outer

    def op_einsum(self, args, kw):
        it = self.it
        eq = args[0]
        ops = args[1:]
        if len(ops) == 1 and isinstance(ops[0], (Tup, Ref)):
            k, xs, n = it.P.iter_items(ops[0])
            ops = xs if k == "known" else [xs]
        ts = [self.tn(a) for a in ops]
        sh = None
        if isinstance(eq, Sc) and eq.v is not UNK:
            s = eq.v.replace(" ", "")
            if "." not in s:
                lhs, _, rhs = s.partition("->")
                dm = {}
                ok = True
                for sub, t in zip(lhs.split(","), ts):
                    if t.shape is None:
                        ok = ok and False
                        continue
                    if len(sub) != len(t.shape):
                        self.err("einsum", f"{s} with {t.shape}")
                        ok = False
                        continue
                    for ch, x in zip(sub, t.shape):
                        cur = dm.get(ch)
                        if cur in (None, 1):
                            dm[ch] = x if x is not None else cur
                        elif x not in (1, None):
                            dm[ch] = self.same(cur, x, "einsum", f"{s} {ch}")
                if "->" not in s:
                    allc = "".join(lhs.split(","))
                    rhs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
                sh = tuple(dm.get(c) for c in rhs)
        for x in ts:
            if x.dtype and ts[0].dtype and x.dtype != ts[0].dtype and x.lib == "torch":
                it.event("dtype_mismatch", op="einsum", args=[repr(t) for t in ts])
                break
        return self.mk(sh, self.promote(ts), self.joindev(ts, "einsum"), ts)

    def op_cross(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        return self.mk(self.bcast([a.shape, b.shape], "cross"), self.promote([a, b]), self.joindev([a, b], "cross"), [a, b])

    op_linalg_cross = op_cross

    def op_lerp(self, args, kw):
        ts = [self.tn(a) for a in args]
        return self.elementwise(self.mk(self.bcast([t.shape for t in ts], "lerp"), self.promote(ts[:2]), self.joindev(ts, "lerp"), args), ts)

    op_addcmul = op_addcdiv = op_lerp

    def op_cosine_similarity(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        sh = self.bcast([a.shape, b.shape], "cosine_similarity")
        dim = self.arg(args, kw, 2, "dim", default=const(1))
        if sh is not None:
            ax = self.axis(dim, len(sh))
            if ax is None:
                self.err("cosine_similarity", f"dim {dim} of {sh}")
            sh = None if ax is None else sh[:ax] + sh[ax + 1:]
        return self.mk(sh, self.promote([a, b]), self.joindev([a, b], "cosine_similarity"), [a, b] + args[3:] + [v for k, v in kw.items() if k == "eps"])

    def op_cdist(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        sh = None
        if a.shape is not None and b.shape is not None:
            sh = a.shape[:-1] + (b.shape[-2],)
        return self.mk(sh, self.promote([a, b]), self.joindev([a, b], "cdist"), args)

    def _loss(self, n):
        def f(args, kw):
            a, b = self.tn(args[0]), self.tn(args[1])
            red = kw.get("reduction")
            sh = ()
            if isinstance(red, Sc) and red.v == "none":
                sh = self.bcast([a.shape, b.shape], n)
            return self.mk(sh, self.promote([a, b]), self.joindev([a, b], n), args + list(kw.values()))
        return f

    def op_mse_loss(self, args, kw):
        return self._loss("mse_loss")(args, kw)

    def op_l1_loss(self, args, kw):
        return self._loss("l1_loss")(args, kw)

    def op_huber_loss(self, args, kw):
        return self._loss("huber_loss")(args, kw)

    def op_smooth_l1_loss(self, args, kw):
        return self._loss("smooth_l1_loss")(args, kw)

    def op_binary_cross_entropy(self, args, kw):
        return self._loss("binary_cross_entropy")(args, kw)

    def op_binary_cross_entropy_with_logits(self, args, kw):
        return self._loss("bce")(args, kw)

    # ------------------------------------------------------------- linalg
    def op_inverse(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "inverse", args)

    op_linalg_inv = op_pinverse = op_linalg_cholesky = op_cholesky = op_matrix_exp = op_linalg_matrix_exp = op_inverse

    def op_linalg_pinv(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "pinv", args, None if t.shape is None else t.shape[:-2] + (t.shape[-1], t.shape[-2]))

    def op_det(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "det", args, None if t.shape is None else t.shape[:-2])

    op_linalg_det = op_logdet = op_det

    def op_svd(self, args, kw):
        t = self.tn(args[0])
        k = None
        if t.shape is not None and len(t.shape) >= 2:
            m, n = t.shape[-2:]
            if m is not None and n is not None:
                lt = dims.lt(m, n)
                k = m if m == n else (m if lt is True else (n if lt is False else None))
            full = self.truthy(self.arg(args, kw, 1, "full_matrices"), True)
            u = t.shape[:-2] + (m, k)
            v = t.shape[:-2] + (n, k)
            return Tup([self.like(t, "svd", args, u), self.like(t, "svd", args, t.shape[:-2] + (k,)), self.like(t, "svd", args, v)], cls="svd", fields=("U", "S", "V"))
        e = self.like(t, "svd", args, None)
        return Tup([e, e, e], cls="svd", fields=("U", "S", "V"))

    def op_linalg_svd(self, args, kw):
        r = self.op_svd(args, kw)
        V = r.items[2]
        Vh = _set(V, shape=None if V.shape is None else V.shape[:-2] + (V.shape[-1], V.shape[-2]))
        return Tup([r.items[0], r.items[1], Vh], cls="svd", fields=("U", "S", "Vh"))

    def op_linalg_eigh(self, args, kw):
        t = self.tn(args[0])
        return Tup([self.like(t, "eigh", args, None if t.shape is None else t.shape[:-1]), self.like(t, "eigh", args)], cls="eigh", fields=("eigenvalues", "eigenvectors"))

    op_symeig = op_linalg_eig = op_linalg_eigh

    def op_linalg_eigvalsh(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "eigvalsh", args, None if t.shape is None else t.shape[:-1])

    def op_linalg_qr(self, args, kw):
        t = self.tn(args[0])
        return Tup([self.like(t, "qr", args), self.like(t, "qr", args, None)], cls="qr", fields=("Q", "R"))

    op_qr = op_linalg_qr

    def op_linalg_solve(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        if a.dtype and b.dtype and a.dtype != b.dtype:
            self.it.event("dtype_mismatch", op="solve", args=[repr(a), repr(b)])
        return self.mk(b.shape, b.dtype, self.joindev([a, b], "solve"), [a, b])

    def op_lstsq(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        sh = None if a.shape is None or b.shape is None else b.shape[:-2] + (a.shape[-1], b.shape[-1])
        return Tup([self.mk(sh, b.dtype, b.dev, [a, b])] + [self.mk(None, b.dtype, b.dev, [a, b])] * 3, cls="lstsq", fields=("solution", "residuals", "rank", "singular_values"))

    op_linalg_lstsq = op_lstsq

    # ------------------------------------------------------------- nn functional
    def op_grid_sample(self, args, kw):
        x, g = self.tn(args[0]), self.tn(self.arg(args, kw, 1, "grid"))
        dev = self.joindev([x, g], "grid_sample")
        if x.dtype and g.dtype and x.dtype != g.dtype:
            self.it.event("dtype_mismatch", op="grid_sample", args=[repr(x), repr(g)])
        sh = None
        if x.shape is not None and g.shape is not None:
            if len(x.shape) != len(g.shape) or len(x.shape) not in (4, 5):
                self.err("grid_sample", f"{x.shape} {g.shape}")
            else:
                self.same(x.shape[0], g.shape[0], "grid_sample", f"batch {x.shape} {g.shape}")
                self.same(g.shape[-1], len(x.shape) - 2, "grid_sample", f"grid {g.shape}")
                sh = x.shape[:2] + g.shape[1:-1]
        rest = args[2:] + [v for k, v in kw.items() if k != "grid"]
        return self.mk(sh, x.dtype, dev, [x, g] + rest)

    def op_affine_grid(self, args, kw):
        t = self.tn(args[0])
        size = self.shape_arg([self.arg(args, kw, 1, "size")])
        sh = None
        if size is not None:
            sh = (size[0],) + tuple(size[2:]) + (len(size) - 2,)
        return self.mk(sh, t.dtype, t.dev, args + list(kw.values()))

    def op_interpolate(self, args, kw):
        t = self.tn(args[0])
        size = self.arg(args, kw, 1, "size")
        sh = None
        if t.shape is not None and not self.isnone(size):
            if isinstance(size, Sc):
                sh = t.shape[:2] + (dimof(size),) * (len(t.shape) - 2)
            else:
                s = self.shape_arg([size])
                sh = None if s is None else t.shape[:2] + tuple(s)
        elif t.shape is not None:
            sf = self.arg(args, kw, 2, "scale_factor")
            if isinstance(sf, Sc) and isinstance(sf.v, int) and sf.v is not UNK:
                sh = t.shape[:2] + tuple(dims.mul(x, sf.v) for x in t.shape[2:])
            else:
                sh = t.shape[:2] + (None,) * (len(t.shape) - 2)
        return self.mk(sh, t.dtype, t.dev, [t] + args[3:] + list(kw.values()))

    op_upsample = op_interpolate

    def _conv(self, nd):
        def f(args, kw):
            x, w = self.tn(args[0]), self.tn(self.arg(args, kw, 1, "weight"))
            self.joindev([x, w], "conv")
            stride = self.arg(args, kw, 3, "stride", default=const(1))
            pad = self.arg(args, kw, 4, "padding", default=const(0))
            sh = None
            if x.shape is not None and w.shape is not None and len(x.shape) == nd + 2:
                if isinstance(stride, Sc) and stride.v == 1 and isinstance(pad, Sc) and isinstance(pad.v, int) and pad.v is not UNK:
                    sh = (x.shape[0], w.shape[0]) + tuple(dims.add(dims.sub(dims.add(s, 2 * pad.v), k), 1) if s is not None and k is not None else None for s, k in zip(x.shape[2:], w.shape[2:]))
                else:
                    sh = (x.shape[0], w.shape[0]) + (None,) * nd
            if x.dtype and w.dtype and x.dtype != w.dtype:
                self.it.event("dtype_mismatch", op="conv", args=[repr(x), repr(w)])
            return self.mk(sh, x.dtype, x.dev, args + list(kw.values()))
        return f

    def op_conv1d(self, args, kw):
        return self._conv(1)(args, kw)

    def op_conv2d(self, args, kw):
        return self._conv(2)(args, kw)

    def op_conv3d(self, args, kw):
        return self._conv(3)(args, kw)

    def op_max_pool2d(self, args, kw):
        t = self.tn(args[0])
        return self.like(t, "pool", args, None if t.shape is None else t.shape[:-2] + (None, None))

    op_avg_pool2d = op_adaptive_avg_pool2d = op_max_pool2d

    def op_max_pool1d(self, args, kw):
        t = self.tn(args[0])
        k, s, p = (self.arg(args, kw, i, n) for i, n in ((1, "kernel_size"), (2, "stride"), (3, "padding")))
        sh = None
        if t.shape is not None:
            L = None
            if isinstance(k, Sc) and isinstance(k.v, int) and isinstance(s, Sc) and s.v == 1 and t.shape[-1] is not None:
                pp = p.v if isinstance(p, Sc) and isinstance(p.v, int) else 0 if p is None else None
                L = None if pp is None else dims.add(t.shape[-1], 2 * pp + 1 - k.v)
            sh = t.shape[:-1] + (L,)
        return self.like(t, "pool", args, sh)

    op_avg_pool1d = op_max_pool1d

    def op_max_pool3d(self, args, kw):
        return self.poolnd(args, kw, 3)

    def op_max_pool2d(self, args, kw):
        return self.poolnd(args, kw, 2)

    op_avg_pool2d, op_avg_pool3d = op_max_pool2d, op_max_pool3d

    def poolnd(self, args, kw, nd):
        t = self.tn(args[0])
        k, s, p = (self.arg(args, kw, i, n) for i, n in ((1, "kernel_size"), (2, "stride"), (3, "padding")))
        sh = None
        if t.shape is not None and len(t.shape) > nd:
            L = [None] * nd
            if isinstance(k, Sc) and isinstance(k.v, int) and isinstance(s, Sc) and s.v == 1:
                pp = p.v if isinstance(p, Sc) and isinstance(p.v, int) else 0 if p is None else None
                L = [None if pp is None or x is None else dims.add(x, 2 * pp + 1 - k.v) for x in t.shape[-nd:]]
            sh = t.shape[:-nd] + tuple(L)
        return self.like(t, "pool", args, sh)

    def op_unfold(self, args, kw):
        t = self.tn(args[0])
        return self.view_of(t, None)

    def op_embedding(self, args, kw):
        i, w = self.tn(args[0]), self.tn(args[1])
        sh = None if i.shape is None or w.shape is None else i.shape + (w.shape[-1],)
        return self.mk(sh, w.dtype, w.dev, [i, w])

    # ------------------------------------------------------------- sparse & misc
    def op_sparse_FloatTensor(self, args, kw):
        sz = self.shape_arg([self.arg(args, kw, 2, "size")]) if len(args) > 2 or "size" in kw else None
        i, v = self.tn(args[0]), self.tn(args[1])
        self.joindev([i, v], "sparse")
        return self.mk(tuple(sz) if sz is not None else None, v.dtype, v.dev, args[:2], extra=I.meta(self.it.deps(args[2])) if len(args) > 2 else EMPTY)

    op_sparse_coo_tensor = op_sparse_FloatTensor

    def op_sparse_mm(self, args, kw):
        return self.mm("sparse.mm", args[0], args[1])

    def op_sparse_sum(self, args, kw):
        return self.reduce("sum", args, kw)

    op_hspmm = op_spmm = op_sparse_mm

    def op_coalesce(self, args, kw):
        return args[0]

    def op__values(self, args, kw):
        t = self.tn(args[0])
        return _set(t, shape=(None,))

    op_values = op__values

    def op__indices(self, args, kw):
        t = self.tn(args[0])
        return self.mk((len(t.shape) if t.shape is not None else None, None), "int64", t.dev, [t], grad=False)

    op_indices = op__indices

    def op_is_tensor(self, args, kw):
        t = self.it.P.isinstance_(args[0], Ext("torch.Tensor"))
        return Sc("bool", UNK if t is None else t, I.meta(self.it.shallow(args[0])))

    def op_is_floating_point(self, args, kw):
        return self.method(self.tn(args[0]), "is_floating_point", [], {})

    def op_numel(self, args, kw):
        return self.method(self.tn(args[0]), "numel", [], {})

    def op_device(self, args, kw):
        v = args[0] if args else kw.get("type")
        if isinstance(v, Sc) and v.kind == "none":
            self.it.do_raise("TypeError")
        d = self.device(v)
        return Sc("device", UNK if d is None else d, self.it.deps(v) if v is not None else EMPTY)

    def op_allclose(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        self.joindev([a, b], "allclose")
        if a.dtype and b.dtype and a.dtype != b.dtype:
            self.it.event("dtype_mismatch", op="allclose", args=[repr(a), repr(b)])
        return Sc("bool", UNK, self.it.deps(a) | self.it.deps(b))

    def op_isclose(self, args, kw):
        a, b = self.tn(args[0]), self.tn(args[1])
        if a.dtype and b.dtype and a.dtype != b.dtype and a.lib == "torch" == b.lib:
            self.it.event("dtype_mismatch", op="isclose", args=[repr(a), repr(b)])
        return self.mk(self.bcast([a.shape, b.shape], "isclose"), "bool", self.joindev([a, b], "isclose"), args, grad=False)

    def op_equal(self, args, kw):
        return Sc("bool", UNK, self.alldeps(args)[0])

    # process-wide state: "initial", or what the code has set it to
    def ambient(self, what, v=None):
        it = self.it
        o = it.st.heap.get("%ambient")
        if o is None:
            return None
        old = o.attrs.get(what)
        if v is not None:
            it.st.heap["%ambient"] = HInst("%ambient", {**o.attrs, what: v})
        return old

    def setamb(self, what, args):
        """set to a value: restored when that value is what was read before"""
        v = args[0] if args else None
        while isinstance(v, Un):
            return self.it.branch([lambda m=m: self.setamb(what, [m]) for m in v.ms])
        if v is not None and f"%{what}" in self.it.deps(v):
            self.ambient(what, Sc("enum", what + ":initial"))
        else:
            self.ambient(what, Sc("enum", f"{what}:{v.v}" if isinstance(v, Sc) and v.v is not UNK else f"{what}:set"))
        return NONE

    def op_manual_seed(self, args, kw):
        self.setamb("rng", [])
        return Top(hint="generator")

    op_cuda_manual_seed_all = op_cuda_manual_seed = op_random_seed = op_seed = op_random_manual_seed = op_manual_seed

    def op_set_rng_state(self, args, kw):
        return self.setamb("rng", args)

    op_random_set_rng_state = op_cuda_set_rng_state = op_set_rng_state

    def op_set_default_dtype(self, args, kw):
        return self.setamb("default_dtype", args)

    op_set_default_tensor_type = op_set_default_dtype

    def op_set_default_device(self, args, kw):
        return self.setamb("default_device", args)

    def op_use_deterministic_algorithms(self, args, kw):
        return self.setamb("deterministic", args)

    def op_are_deterministic_algorithms_enabled(self, args, kw):
        return Sc("bool", UNK, frozenset(["%deterministic"]))

    def op_set_num_threads(self, args, kw):
        return self.setamb("num_threads", args)

    def op_get_num_threads(self, args, kw):
        return Sc("int", UNK, frozenset(["%num_threads"]))

    def op_get_default_dtype(self, args, kw):
        return Sc("dtype", "float32", frozenset(["%default_dtype"]))

    def op_is_grad_enabled(self, args, kw):
        return Sc("bool", UNK, frozenset(["%grad"]))

    def op_cuda_is_available(self, args, kw):
        return Sc("bool", UNK)

    def op_promote_types(self, args, kw):
        a, b = self.dtype(args[0]), self.dtype(args[1])
        r = promote2(a, b)
        return Sc("dtype", UNK if r is None else r)

    def op_result_type(self, args, kw):
        r = self.promote([self.tn(a) for a in args])
        return Sc("dtype", UNK if r is None else r)

    def op_finfo(self, args, kw):
        return self.it.new(HInst("torch.finfo", {"eps": Sc("float"), "max": Sc("float"), "min": Sc("float"), "tiny": Sc("float")}))

    op_iinfo = op_finfo

    def op_get_rng_state(self, args, kw):
        return Top(frozenset(["rng", "%rng"]))

    op_random_get_rng_state = op_cuda_get_rng_state = op_get_rng_state

    def op_jit_is_scripting(self, args, kw):
        return FALSE

    op_jit_is_tracing = op_jit_is_scripting

    def op_autograd_grad(self, args, kw):
        outs, ins = self.arg(args, kw, 0, "outputs"), self.arg(args, kw, 1, "inputs")
        d, g = self.alldeps([outs, ins])
        cg = self.truthy(kw.get("create_graph"), False)
        ts, e, n = self.seq(ins) if not isinstance(ins, Tn) else ([ins], None, 1)
        if ts is not None:
            return Tup([Tn(t.shape, t.dtype, t.dev, d, g if cg else EMPTY, self.it.storage()) for t in ts])
        return Tup(None, Tn(e.shape, e.dtype, e.dev, d, g if cg else EMPTY, self.it.storage()), n)

    def op_load(self, args, kw):
        self.it.event("open", via="torch.load", path=repr(args[0]), deps=self.it.deps(args[0]), mode="r")
        return Top(self.it.deps(args[0]))

    def op_save(self, args, kw):
        self.it.P.write_to(args[1] if len(args) > 1 else kw.get("f", NONE), self.it.deps(args[0]), "torch.save")
        return NONE

    # ------------------------------------------------------------- numpy
    def np_call(self, n, args, kw):
        it = self.it
        for i, a in enumerate(args):
            if isinstance(a, Un) and i < 3:
                return it.branch([lambda m=m: self.np_call(n, list(args[:i]) + [m] + list(args[i + 1:]), kw) for m in a.ms])
        if n.startswith("random."):
            it.event("rng", op="numpy." + n)
            return Top(self.alldeps(list(args) + list(kw.values()))[0] | {"rng"})
        self._np = True
        try:
            if n in ("array", "asarray", "ascontiguousarray", "asanyarray", "require", "fromiter", "stack", "concatenate", "vstack", "hstack") and args:
                if n in ("stack", "concatenate", "vstack", "hstack"):
                    r = self.call({"concatenate": "cat"}.get(n, n), args, kw)
                    return _set(r, lib="np") if isinstance(r, Tn) else r
                v = args[0]
                if isinstance(v, Tn):
                    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                    dt = self.dtype(dt) if not self.isnone(dt) else v.dtype
                    alias = n != "array" and (dt == v.dtype)
                    return Tn(v.shape, dt, "cpu", it.deps(v), EMPTY, v.base if alias else it.storage(), "np")
                o = it.obj(v) if isinstance(v, Ref) else None
                if getattr(o, "cls", None) == "PIL.Image.Image":
                    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                    return Tn(None, "uint8" if self.isnone(dt) else self.dtype(dt), "cpu", it.P.deps_all(v, [], {}), EMPTY, it.storage(), "np")
                sh, dt, d, g = self.seq_tensor(v)
                x = kw.get("dtype", args[1] if len(args) > 1 else None)
                if not self.isnone(x):
                    dt = self.dtype(x)
                elif dt == "float32":
                    dt = "float64"
                return Tn(sh, dt, "cpu", d | it.pc, EMPTY, it.storage(), "np")
            if n in ("zeros", "ones", "empty", "full", "eye", "arange", "linspace", "identity", "zeros_like", "ones_like", "full_like", "empty_like"):
                kw2 = {k: v for k, v in kw.items() if k in ("dtype", "fill_value", "num")}
                a2 = list(args)
                if n in ("zeros", "ones", "empty") and len(a2) > 1:
                    kw2["dtype"] = a2.pop()
                if "shape" in kw and not a2:
                    a2 = [kw["shape"]]
                r = self.call("eye" if n == "identity" else n, a2, kw2)
                if isinstance(r, Tn):
                    dt = r.dtype
                    if "dtype" not in kw2 and dt == "float32" and not n.endswith("_like"):
                        dt = "float64"
                    return _set(r, lib="np", dtype=dt, dev="cpu")
                return r
            if n in ("frombuffer", "fromfile", "fromstring", "loadtxt", "load", "genfromtxt", "fromregex"):
                if n in ("fromfile", "load", "loadtxt", "genfromtxt") and isinstance(args[0], Sc) and args[0].kind == "str":
                    it.event("open", via="numpy." + n, path=repr(args[0]), deps=it.deps(args[0]), mode="r")
                dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                return Tn((None,) if n != "loadtxt" else None, self.dtype(dt) if dt is not None else None, "cpu", self.alldeps(args)[0] | {"file"}, EMPTY, it.storage(), "np")
            if n.split(".")[-1] in ("dtype", "float32", "float64", "int32", "int64", "uint8", "bool_", "int16", "uint16") and args:
                if isinstance(args[0], Sc) and n != "dtype":
                    return args[0]
                if n == "dtype":
                    return Top()
            if n in ("save", "savetxt", "savez", "savez_compressed"):
                it.P.write_to(args[0], frozenset().union(*[it.deps(a) for a in list(args[1:]) + list(kw.values())]), "numpy." + n)
                return NONE
            if n.startswith("testing.") or n in ("set_printoptions",):
                return NONE
            if n in ("isscalar",):
                return Sc("bool", isinstance(args[0], Sc))
            m = n
            if m in ("transpose",):
                t = self.tn(args[0])
                if len(args) == 1 and not kw:
                    return self.view_of(t, None if t.shape is None else t.shape[::-1], st=None if t.shape is None else self.strides(t)[::-1])
                return self.op_permute(args, {"dims": v for k, v in kw.items() if k == "axes"})
            if m in ("reshape", "expand_dims", "squeeze", "tile", "where", "unique", "nonzero", "argsort", "sort", "meshgrid", "cross", "dot", "matmul", "outer", "swapaxes", "moveaxis", "ravel", "in1d", "isin", "broadcast_to", "einsum", "diag", "trace",
                     "linalg.inv", "linalg.det", "linalg.svd", "linalg.solve", "linalg.norm", "linalg.eigh", "allclose"):
                r = self.call(m, args, kw)
            else:
                ts = [a for a in args if isinstance(a, Tn)]
                if m in UN_FLOAT | UN_SAME | UN_NOGRAD_SAME | UN_BOOL | BIN | BIN_FLOAT | CMPS | BITS | REDUCE | {"power", "floor_divide"}:
                    if not ts and args and all(isinstance(a, Sc) for a in args):
                        return Sc("float" if m not in UN_BOOL | CMPS else "bool", UNK, self.alldeps(args)[0])
                    r = self.generic(m, args, kw)
                else:
                    d, g = self.alldeps(list(args) + list(kw.values()))
                    it.unknown("numpy." + n)
                    return Top(d, EMPTY, EMPTY, "np." + n)
            if isinstance(r, Tn):
                return _set(r, lib="np", gdeps=EMPTY, dev="cpu")
            return r
        finally:
            self._np = False

    # ------------------------------------------------------------- layers
    LARGS = {"Linear": ("in_features", "out_features"), "LSTMCell": ("input_size", "hidden_size"), "Embedding": ("num_embeddings", "embedding_dim"),
             "Conv1d": ("in_channels", "out_channels", "kernel_size", "stride", "padding"), "Conv2d": ("in_channels", "out_channels", "kernel_size", "stride", "padding"),
             "Conv3d": ("in_channels", "out_channels", "kernel_size", "stride", "padding"), "ReLU": ("inplace",), "LeakyReLU": ("negative_slope", "inplace"),
             "Dropout": ("p", "inplace"), "LayerNorm": ("normalized_shape",), "MultiheadAttention": ("embed_dim", "num_heads"), "MaxPool2d": ("kernel_size", "stride")}

    def largs(self, o):
        """constructor arguments of a torch layer, by position"""
        a = list(o.attrs.get("%args", Tup(())).items or ())
        kw = self.it.obj(o.attrs["%kw"]).known if "%kw" in o.attrs else {}
        for n in self.LARGS.get(o.cls.split(".")[-1], ())[len(a):]:
            a.append(kw.get(n))
        return a

    def ldim(self, o, i):
        a = self.largs(o)
        return dimof(a[i]) if len(a) > i and a[i] is not None else None

    LPARAMS = {"Linear": ("weight", "bias"), "LSTMCell": ("weight_ih", "weight_hh", "bias_ih", "bias_hh"), "Embedding": ("weight",), "Conv1d": ("weight", "bias"), "Conv2d": ("weight", "bias"),
               "Conv3d": ("weight", "bias"), "LayerNorm": ("weight", "bias"), "BatchNorm1d": ("weight", "bias"), "BatchNorm2d": ("weight", "bias"), "GroupNorm": ("weight", "bias"),
               "ConvTranspose2d": ("weight", "bias"), "InstanceNorm2d": (), "MultiheadAttention": ("in_proj_weight", "in_proj_bias")}

    def param(self, r, o, name):
        i, j = self.ldim(o, 0), self.ldim(o, 1)
        sh = None
        n = o.cls.split(".")[-1]
        if n == "Linear":
            sh = (j, i) if name == "weight" else (j,)
        elif n == "Embedding":
            sh = (i, j)
        elif n == "LSTMCell":
            h4 = None if j is None else dims.mul(j, 4)
            sh = (h4, i if name.endswith("ih") else j) if name.startswith("weight") else (h4,)
        lab = self.plabel(o)
        return Tn(sh, "float32", "D", lab, lab, frozenset(["s:param:" + r.oid + name]), "torch", frozenset(["param"]))

    def plabel(self, o):
        a = self.largs(o)
        return frozenset(["param[" + o.cls.split(".")[-1] + ":" + ",".join(str(x.v) if isinstance(x, Sc) and x.v is not UNK else "?" for x in a) + "]"])

    def module_params(self, r, prefix="", seen=None, buffers=False):
        """[(name, tensor)] of a module and everything registered below it, None if not all are known"""
        it = self.it
        seen = set() if seen is None else seen
        if not isinstance(r, Ref) or r.oid in seen:
            return []
        seen.add(r.oid)
        o = it.obj(r)
        out = []
        if not isinstance(o, HInst):
            return []
        if isinstance(o.cls, str):
            if not o.cls.startswith("torch.nn."):
                return None if o.cls.startswith("torchvision.") else []
            n = o.cls.split(".")[-1]
            if "%items" in o.attrs:
                k, xs, ln = it.P.iter_items(it.call_method(o.attrs["%dict"], "values", []) if "%dict" in o.attrs else o.attrs["%items"])
                if k != "known":
                    return None
                for i, x in enumerate(xs):
                    if isinstance(x, Tn):
                        out.append((f"{prefix}{i}", x))
                        continue
                    y = self.module_params(x, f"{prefix}{i}.", seen, buffers)
                    if y is None:
                        return None
                    out += y
                return out
            if buffers or n not in self.LPARAMS and n in self.SAME:
                return []
            if n not in self.LPARAMS:
                return None
            return [(prefix + p, self.param(r, o, p)) for p in self.LPARAMS[n]]
        if not o.cls.has_base("torch.nn.Module"):
            return []
        for k, v in o.attrs.items():
            if isinstance(v, Tn) and ("buffer" if buffers else "param") in v.tags:
                out.append((prefix + k, v))
            elif isinstance(v, Un) or isinstance(v, Top):
                return None
            elif isinstance(v, Ref):
                y = self.module_params(v, prefix + k + ".", seen, buffers)
                if y is None:
                    return None
                out += y
        return out

    SAME = ("ReLU", "LeakyReLU", "Sigmoid", "Tanh", "Softplus", "ELU", "Dropout", "LayerNorm", "BatchNorm1d", "BatchNorm2d", "GroupNorm", "Identity", "InstanceNorm2d", "Softmax", "GELU")

    def layer(self, r, o, args, kw):
        it = self.it
        n = o.cls.split(".")[-1]
        if not args:
            if n != "MultiheadAttention" and "input" in kw:
                args = [kw["input"]]
            else:
                return it.opaque(r, args, kw, hint=o.cls)
        for i, a in enumerate(args):
            if isinstance(a, Un):
                return it.branch([lambda m=m: self.layer(r, o, list(args[:i]) + [m] + list(args[i + 1:]), kw) for m in a.ms])
        pd = self.plabel(o)
        if n == "Sequential" or n == "ModuleList":
            k, xs, ln = it.P.iter_items(o.attrs["%items"])
            v = args[0]
            if k == "known":
                for x in xs:
                    v = it.call(x, [v], {})
                return v
            return Top(it.deps(v) | pd, it.gdeps(v) | pd)
        x = args[0]
        if not isinstance(x, Tn):
            return it.opaque(r, args, kw, hint=o.cls)
        sh, dt = None, x.dtype
        if n in ("Linear", "LSTMCell"):
            i, j = self.ldim(o, 0), self.ldim(o, 1)
        d, g = self.alldeps(list(args) + list(kw.values()))
        if n in self.LPARAMS:
            d, g = d | pd, g | pd
        if n == "LSTMCell":
            if x.shape is not None:
                self.same(x.shape[-1], i, "LSTMCell", f"{x.shape} with input_size {i}")
            sh = None if x.shape is None else x.shape[:-1] + (j,)
            return Tup([self.mk(sh, dt, x.dev, args, d=d, g=g) for _ in range(2)])
        if n == "MultiheadAttention":
            return Tup([self.mk(x.shape, dt, x.dev, args, d=d, g=g), self.mk(None, dt, x.dev, args, d=d, g=g)])
        if n == "Linear" and x.shape is not None:
            self.same(x.shape[-1], i, "Linear", f"{x.shape} with in_features {i}")
            sh = x.shape[:-1] + (j,)
        elif n in self.SAME:
            sh = x.shape
            la = self.largs(o)
            if n in ("ReLU", "LeakyReLU", "Dropout") and self.truthy(la[0 if n == "ReLU" else 1], False):
                self.write(x, [x], op=n + "(inplace)")
                return x
            if n == "Dropout":
                tr = o.attrs.get("training")
                if not (isinstance(tr, Sc) and tr.v is False) and not (la[0] is not None and isinstance(la[0], Sc) and la[0].v == 0):
                    it.event("rng", op="Dropout")
                    d = d | {"rng"}
        elif n == "Embedding" and x.shape is not None:
            sh, dt = x.shape + (self.ldim(o, 1),), "float32"
        elif n in ("Conv1d", "Conv2d", "Conv3d") and x.shape is not None:
            self.same(x.shape[1], self.ldim(o, 0), n, f"{x.shape} with in_channels {self.ldim(o, 0)}")
            sh = x.shape[:1] + (self.ldim(o, 1),) + (None,) * (len(x.shape) - 2)
        return self.mk(sh, dt, x.dev, args, d=d, g=g)

    # ------------------------------------------------------------- pytorch3d._C
    def c_call(self, name, args, kw):
        from . import cops
        return cops.call(self, name, args, kw)
