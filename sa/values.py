"""Abstract values.  All values are immutable; mutable python objects live in the abstract heap."""
from . import dims

EMPTY = frozenset()


class _Unk:
    def __repr__(self):
        return "?"

    def __bool__(self):
        raise TypeError("truth of UNK")


UNK = _Unk()


class Val:
    __slots__ = ("deps",)


def _set(o, **kw):
    n = object.__new__(type(o))
    for c in type(o).__mro__:
        for s in getattr(c, "__slots__", ()):
            setattr(n, s, kw[s] if s in kw else getattr(o, s))
    return n


class Sc(Val):
    """Python scalar: kind in int,float,bool,str,none,dtype,device,ellipsis,bytes,any."""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v=UNK, deps=EMPTY):
        self.kind, self.v, self.deps = kind, v, deps

    def key(self):
        return ("sc", self.kind, repr(self.v) if self.kind == "float" else (self.v if self.v is not UNK else "<unk>"), self.deps)

    def __repr__(self):
        return f"{self.kind}:{self.v!r}"


class Tn(Val):
    """Tensor (or ndarray when lib == 'np')."""
    __slots__ = ("shape", "dtype", "dev", "gdeps", "base", "lib", "tags")

    def __init__(self, shape=None, dtype=None, dev=None, deps=EMPTY, gdeps=EMPTY, base=EMPTY, lib="torch", tags=EMPTY):
        self.shape = tuple(shape) if shape is not None else None
        self.dtype, self.dev, self.deps, self.gdeps, self.base, self.lib, self.tags = dtype, dev, deps, gdeps, base, lib, tags

    def key(self):
        return ("tn", self.shape, self.dtype, self.dev, self.deps, self.gdeps, self.base, self.lib, self.tags)

    def __repr__(self):
        s = "?" if self.shape is None else "(" + ",".join("?" if d is None else str(d) for d in self.shape) + ")"
        return f"T{s}:{self.dtype}@{self.dev}"


class Tup(Val):
    """Tuple.  items is a tuple of values, or None (then elem / length describe it)."""
    __slots__ = ("items", "elem", "length", "cls", "fields")

    def __init__(self, items=None, elem=None, length=None, cls=None, fields=None, deps=EMPTY):
        self.items = tuple(items) if items is not None else None
        self.elem, self.length, self.cls, self.fields, self.deps = elem, length, cls, fields, deps
        if self.items is not None:
            self.length = len(self.items)

    def key(self):
        return ("tup", tuple(i.key() for i in self.items) if self.items is not None else None,
                self.elem.key() if self.elem is not None else None, self.length, id(self.cls) if not isinstance(self.cls, str) else self.cls, self.deps)

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})" if self.items is not None else f"tuple<{self.elem!r}*{self.length}>"


class Ref(Val):
    __slots__ = ("oid",)

    def __init__(self, oid, deps=EMPTY):
        self.oid, self.deps = oid, deps

    def key(self):
        return ("ref", self.oid, self.deps)

    def __repr__(self):
        return f"&{self.oid}"


class Fn(Val):
    """A function defined in the analysed source (with its defining frame)."""
    __slots__ = ("node", "mod", "frame", "qual", "cls", "defaults", "decos")

    def __init__(self, node, mod, frame, qual, cls=None, defaults=None, decos=()):
        self.node, self.mod, self.frame, self.qual, self.cls, self.defaults, self.decos = node, mod, frame, qual, cls, defaults, decos
        self.deps = EMPTY

    def key(self):
        return ("fn", id(self.node), self.frame, self.deps)

    def __repr__(self):
        return f"<fn {self.qual}>"


class Cls(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info, self.deps = info, EMPTY

    def key(self):
        return ("cls", id(self.info), self.deps)

    def __repr__(self):
        return f"<class {self.info.name}>"


class Mod(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name, self.deps = name, EMPTY

    def key(self):
        return ("mod", self.name)

    def __repr__(self):
        return f"<module {self.name}>"


class Ext(Val):
    """Something outside the analysed source, by dotted name."""
    __slots__ = ("name",)

    def __init__(self, name, deps=EMPTY):
        self.name, self.deps = name, deps

    def key(self):
        return ("ext", self.name, self.deps)

    def __repr__(self):
        return f"<ext {self.name}>"


class Bound(Val):
    """Bound method: fn is Fn or an op name (str) for builtin methods."""
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn, self.deps = self_, fn, EMPTY

    def key(self):
        return ("bound", self.self_.key(), self.fn if isinstance(self.fn, str) else self.fn.key(), self.deps)

    def __repr__(self):
        return f"<bound {self.self_!r}.{self.fn!r}>"


class Partial(Val):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw, self.deps = fn, tuple(args), tuple(kw), EMPTY

    def key(self):
        return ("partial", self.fn.key(), tuple(a.key() for a in self.args), tuple((k, v.key()) for k, v in self.kw), self.deps)


class Super(Val):
    __slots__ = ("inst", "after")

    def __init__(self, inst, after):
        self.inst, self.after, self.deps = inst, after, EMPTY

    def key(self):
        return ("super", self.inst.key(), id(self.after))


class Lazy(Val):
    __slots__ = ("modname", "attr")

    def __init__(self, modname, attr):
        self.modname, self.attr, self.deps = modname, attr, EMPTY

    def key(self):
        return ("lazy", self.modname, self.attr)


class Sl(Val):
    """slice object"""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.deps = lo.deps | hi.deps | step.deps

    def key(self):
        return ("sl", self.lo.key(), self.hi.key(), self.step.key())


class Un(Val):
    __slots__ = ("ms",)

    def __init__(self, ms):
        self.ms = tuple(ms)
        self.deps = frozenset().union(*(m.deps for m in ms))

    def key(self):
        return ("un", tuple(m.key() for m in self.ms))

    def __repr__(self):
        return "Un[" + "|".join(map(repr, self.ms)) + "]"


class Top(Val):
    """Unknown value; base: storages it may alias (only those known)."""
    __slots__ = ("gdeps", "base", "hint")

    def __init__(self, deps=EMPTY, gdeps=EMPTY, base=EMPTY, hint=""):
        self.deps, self.gdeps, self.base, self.hint = deps, gdeps, base, hint

    def key(self):
        return ("top", self.deps, self.gdeps, self.base)

    def __repr__(self):
        return f"Top<{self.hint}>"


NONE = Sc("none", None)
TRUE = Sc("bool", True)
FALSE = Sc("bool", False)


def const(v, deps=EMPTY):
    if v is None:
        return Sc("none", None, deps)
    if isinstance(v, bool):
        return Sc("bool", v, deps)
    if isinstance(v, (int, dims.Dim)):
        return Sc("int", v, deps)
    if isinstance(v, float):
        return Sc("float", v, deps)
    if isinstance(v, str):
        return Sc("str", v, deps)
    if isinstance(v, bytes):
        return Sc("bytes", v, deps)
    if v is Ellipsis:
        return Sc("ellipsis", Ellipsis, deps)
    if isinstance(v, tuple):
        return Tup([const(x, deps) for x in v], deps=deps)
    return Sc("any", UNK, deps)


def intv(d, deps=EMPTY):
    return Sc("int", UNK if d is None else d, deps)


def dimof(v):
    """Dimension (int/Dim/None) of a scalar value."""
    if isinstance(v, Sc) and v.kind in ("int", "bool") and v.v is not UNK:
        return int(v.v) if isinstance(v.v, bool) else v.v
    return None


# ---- heap objects (immutable records; the heap maps oid -> record) -------------------

class HList:
    __slots__ = ("items", "elem", "length", "kind")

    def __init__(self, items=None, elem=None, length=None, kind="list"):
        self.items = tuple(items) if items is not None else None
        self.elem, self.kind = elem, kind
        self.length = len(self.items) if self.items is not None else length

    def key(self):
        return ("hl", tuple(i.key() for i in self.items) if self.items is not None else None,
                self.elem.key() if self.elem is not None else None, self.length, self.kind)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.items))}]" if self.items is not None else f"list<{self.elem!r}*{self.length}>"


class HDict:
    __slots__ = ("known", "maybe", "rest")

    def __init__(self, known=None, rest=None, maybe=EMPTY):
        self.known = dict(known or {})  # key(const) -> Val
        self.rest = rest  # (keyval, val) or None : other entries
        self.maybe = frozenset(maybe)  # known keys that may be absent

    def key(self):
        return ("hd", self.maybe, tuple((k, v.key()) for k, v in self.known.items()),
                (self.rest[0].key(), self.rest[1].key()) if self.rest else None)

    def __repr__(self):
        return f"dict{self.known!r}{'+...' if self.rest else ''}"


class HInst:
    __slots__ = ("cls", "attrs", "extra")

    def __init__(self, cls, attrs=None, extra=None):
        self.cls, self.attrs, self.extra = cls, dict(attrs or {}), extra

    def key(self):
        return ("hi", id(self.cls) if not isinstance(self.cls, str) else self.cls,
                tuple(sorted((k, v.key()) for k, v in self.attrs.items())))

    def __repr__(self):
        n = self.cls if isinstance(self.cls, str) else self.cls.name
        return f"{n}{{{', '.join(f'{k}={v!r}' for k, v in self.attrs.items())}}}"


class HFrame:
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent

    def key(self):
        return ("hf", tuple(sorted((k, v.key()) for k, v in self.vars.items())))
