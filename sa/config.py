"""Model of pytorch3d.implicitron.tools.config: what expand_args_fields, run_auto_creation, get_default_args and the
registry do to a Configurable/ReplaceableBase class, so that the components they create are analysed like any other object."""
import ast
import os
import re

from .values import *

PKG = "pytorch3d.implicitron"
CFG = PKG + ".tools.config:"


def is_configurable(info):
    return info.has_base("Configurable") or info.has_base("ReplaceableBase")


class Config:
    def __init__(self, it):
        self.it = it
        self._registered = None
        self._types = {}
        self.native = {CFG + "run_auto_creation": self.run_auto_creation, CFG + "expand_args_fields": self.expand, CFG + "get_default_args": self.get_default_args,
                       CFG + "enable_get_default_args": self.nothing, CFG + "_Registry.get": self.reg_get, CFG + "_Registry.get_all": self.reg_all}

    def nothing(self, *a, **k):
        return NONE

    # ---------------------------------------------------------------- registry
    def registered(self):
        """class name -> modules which register a class of that name (read from the source text)"""
        if self._registered is None:
            self._registered = {}
            root = os.path.join(self.it.repo, *PKG.split("."))
            for d, ds, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        with open(p, encoding="utf-8") as fh:
                            src = fh.read()
                        for m in re.finditer(r"^@registry\.register\b[^\n]*\n(?:@[^\n]*\n)*class (\w+)", src, re.M):
                            mod = os.path.relpath(p, self.it.repo)[:-3].replace(os.sep, ".")
                            self._registered.setdefault(m.group(1), []).append(mod)
        return self._registered

    def find(self, base, name):
        for mod in self.registered().get(name, ()):
            m = self.it.module(mod)
            if m is None:
                continue
            try:
                v = self.it.mod_attr(m, name)
            except KeyError:
                continue
            if hasattr(v, "info") and (base is None or base in v.info.mro()):
                return v
        return None

    def reg_get(self, args, kw):
        base = kw.get("base_class_wanted", args[1] if len(args) > 1 else None)
        name = kw.get("name", args[2] if len(args) > 2 else None)
        if isinstance(name, Sc) and isinstance(name.v, str):
            v = self.find(base.info if isinstance(base, Cls) else None, name.v)
            if v is not None:
                return v
            self.it.do_raise("ValueError", "registry")
        return None

    def reg_all(self, args, kw):
        base = args[1] if len(args) > 1 else None
        if not isinstance(base, Cls):
            return None
        out = []
        for n in sorted(self.registered()):
            v = self.find(base.info, n)
            if v is not None and v.info is not base.info:
                out.append(v)
        return self.it.new(HList(out))

    # ---------------------------------------------------------------- members
    def resolve(self, info, ann):
        """(type, optional) of an annotation which names a class"""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None, False
        if isinstance(ann, ast.Subscript):
            n = getattr(ann.value, "id", getattr(ann.value, "attr", ""))
            if n == "Optional":
                return self.resolve(info, ann.slice)[0], True
            return None, False
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            sides = [ann.left, ann.right]
            if any(isinstance(s, ast.Constant) and s.value is None for s in sides):
                return self.resolve(info, next(s for s in sides if not isinstance(s, ast.Constant)))[0], True
            return None, False
        if isinstance(ann, ast.Name):
            try:
                v = self.it.mod_attr(info.mod, ann.id)
            except KeyError:
                return None, False
            return (v if isinstance(v, Cls) else None), False
        if isinstance(ann, ast.Attribute) and isinstance(ann.value, ast.Name):
            try:
                v = self.it.mod_attr(info.mod, ann.value.id)
                v = self.it.mod_attr(self.it.module(v.name), ann.attr) if isinstance(v, Mod) else None
            except (KeyError, AttributeError):
                return None, False
            return (v if isinstance(v, Cls) else None), False
        return None, False

    def members(self, info):
        """[(name, type, kind)] which expand_args_fields rewrites, bases first"""
        r = self._types.get(id(info))
        if r is None:
            r = []
            for k in reversed([x for x in info.mro() if hasattr(x, "ann")]):
                for n, ann in k.ann:
                    t, opt = self.resolve(k, ann)
                    if t is None:
                        continue
                    direct = any(getattr(getattr(b, "info", None), "name", "") == "ReplaceableBase" for b in t.info.bases)
                    if direct:
                        r.append((n, t, "optreplaceable" if opt else "replaceable"))
                    elif t.info.has_base("Configurable"):
                        r.append((n, t, "optconfigurable" if opt else "configurable"))
            self._types[id(info)] = r
        return r

    def fields(self, info):
        """[(field name, thunk for the default or None)] of the dataclass which expand_args_fields makes"""
        it = self.it
        mem = {n: (t, k) for n, t, k in self.members(info)}
        out = [(n, None) for n in it.dataclass_fields(info) if n not in mem]
        names = {n for n, _ in out}
        for n, t, kind in self.members(info):
            if "replaceable" in kind:
                if n + "_class_type" not in names:
                    out.append((n + "_class_type", lambda: const("UNDEFAULTED")))
            else:
                out.append((n + "_args", lambda n=n, t=t: self.tweaked(info, n, t)))
        return out

    def tweaked(self, info, name, t):
        args = self.defaults(t)
        m = self.it.class_attr(info, name + "_tweak_args")
        if m is not None and m[0] == "method":
            self.it.call(Bound(Cls(info), m[1]), [t, args], {})
        return args

    def type_args(self, info, name, t, cls):
        """default of <name>_<type>_args"""
        v = self.find(t.info, cls)
        return self.tweaked(info, name, v) if v is not None else None

    def defaults(self, c):
        """get_default_args(c) as a fresh dict"""
        it = self.it
        if isinstance(c, Cls):
            info = c.info
            if is_configurable(info) or info.dataclass or any(getattr(k, "dataclass", False) for k in info.mro()):
                known = {}
                for n, thunk in self.fields(info):
                    v = thunk() if thunk is not None else it.field_default(info, n)
                    if v is not None:
                        known[n] = v
                for n, t, kind in self.members(info):
                    if "replaceable" in kind:
                        ct = known.get(n + "_class_type")
                        if isinstance(ct, Sc) and isinstance(ct.v, str) and ct.v != "UNDEFAULTED":
                            v = self.type_args(info, n, t, ct.v)
                            if v is not None:
                                known[f"{n}_{ct.v}_args"] = v
                return it.new(HDict(known))
            a = it.class_attr(info, "__init__")
            fn = a[1] if a is not None else None
        else:
            fn = c
        if not isinstance(fn, Fn):
            return it.new(HDict({}))
        return it.new(HDict({p: v for p, v in (fn.defaults or {}).items() if isinstance(v, (Sc, Tup))}))

    def expand(self, args, kw):
        return args[0]

    def get_default_args(self, args, kw):
        return self.defaults(args[0]) if isinstance(args[0], (Cls, Fn)) else self.it.new(HDict({}))

    # ---------------------------------------------------------------- creation
    def attr(self, r, name):
        o = self.it.obj(r)
        return o.attrs.get(name)

    def set(self, r, name, v):
        self.it.setattr(r, name, v)

    def run_auto_creation(self, args, kw):
        it = self.it
        r = args[0]
        info = it.obj(r).cls
        ctx = it.ctx
        try:
            for n, t, kind in self.members(info):
                it.ctx = it._idraw((ctx, "create", n))
                m = it.class_attr(info, "create_" + n)
                if m is not None:
                    it.call(Bound(r, m[1]), [], {})
                else:
                    self.create(r, n, t, kind)
        finally:
            it.ctx = ctx
        return NONE

    def create(self, r, n, t, kind):
        it = self.it
        info = it.obj(r).cls
        impl = it.class_attr(info, f"create_{n}_impl")
        if "replaceable" in kind:
            tn = self.attr(r, n + "_class_type")
            if not isinstance(tn, Sc) or tn.v is UNK:
                if impl is None or tn is None:
                    self.set(r, n, Top(hint="component"))
                    return
                a = Top(hint="args")
            elif tn.v is None:
                a = NONE
            else:
                a = self.attr(r, f"{n}_{tn.v}_args")
                if a is None:
                    a = self.type_args(info, n, t, tn.v)
                if a is None:
                    it.do_raise("ValueError", "registry")
            if impl is not None:
                it.call(Bound(r, impl[1]), [tn, a], {})
                return
            if tn.v is None:
                self.set(r, n, NONE)
                return
            c = self.find(t.info, tn.v)
            if c is None:
                it.do_raise("ValueError", "registry")
        else:
            en = self.attr(r, n + "_enabled") if kind == "optconfigurable" else const(True)
            a = self.attr(r, n + "_args")
            if impl is not None:
                it.call(Bound(r, impl[1]), [en, a], {})
                return
            if isinstance(en, Sc) and en.v is False:
                self.set(r, n, NONE)
                return
            c = t
        self.set(r, n, self.build(c, a))

    def build(self, c, a):
        it = self.it
        o = it.obj(a) if isinstance(a, Ref) else None
        if isinstance(o, HDict) and not o.rest and not o.maybe:
            return it.call(c, [], dict(o.known))
        return it.call(c, [], {}, None, Top(hint="args"))
