"""Entries (API calls on abstract inputs), observation of their results, and facts."""
import ast
import importlib
import itertools
import os
import re
import traceback

from . import dims
from .harness import *
from .interp import ClassInfo

ENTRIES = {}


class Entry:
    __slots__ = ("name", "build", "scen", "f64", "rejects", "group", "opts")

    def __init__(self, name, build, scen, f64, rejects, group, opts):
        self.name, self.build, self.scen, self.f64, self.rejects, self.group, self.opts = name, build, scen, f64, rejects, group, opts

    def cases(self):
        keys = list(self.scen)
        for vals in itertools.product(*[self.scen[k] for k in keys]):
            yield dict(zip(keys, vals))


def E(name, build, scen=None, f64=True, rejects=None, group=None, **opts):
    assert name not in ENTRIES, name
    ENTRIES[name] = Entry(name, build, scen or {}, f64, rejects, group, opts)


OBS = {}


def observers(cls, **fs):
    OBS[cls] = fs


def meth(name, *a):
    return lambda h, o: h.m(o, name, *a)


class Leaf:
    __slots__ = ("path", "kind", "shape", "dtype", "dev", "deps", "gdeps", "base", "v", "alts")


def leaf_of(h, path, v):
    it = h.it
    l = Leaf()
    l.path, l.v = path, v
    l.shape = l.dtype = l.dev = None
    l.alts = ()
    l.deps, l.gdeps, l.base = frozenset(), frozenset(), frozenset()
    if isinstance(v, Tn):
        l.kind = "tensor" if v.lib == "torch" else "ndarray"
        l.shape, l.dtype, l.dev = v.shape, v.dtype, v.dev
        l.deps, l.gdeps = it.eff(v)
        l.base = v.base
        l.alts = [(t[1], t[2]) for t in v.tags if isinstance(t, tuple) and t[0] == "alt"]
    elif isinstance(v, Top):
        l.kind = "unknown"
        l.deps, l.gdeps = it.eff(v)
        l.base = v.base
    elif isinstance(v, Sc):
        l.kind = v.kind
        l.deps = v.deps
    else:
        l.kind = type(v).__name__
        l.deps = it.deps(v)
    return l


def clsname(o):
    return o.cls if isinstance(o.cls, str) else o.cls.name


def find_obs(o):
    if isinstance(o.cls, str):
        return OBS.get(o.cls)
    for k in o.cls.mro():
        n = k.name if isinstance(k, ClassInfo) else None
        if n in OBS:
            return OBS[n]
    return None


def flatten(h, v, path="", out=None, depth=0, seen=None):
    it = h.it
    out = out if out is not None else []
    seen = seen or ()
    if isinstance(v, Lazy):
        v = it.force(v)
    if depth > 5:
        return out
    if isinstance(v, Tup):
        if v.items is not None:
            for i, x in enumerate(v.items):
                flatten(h, x, f"{path}.{v.fields[i]}" if v.fields else f"{path}[{i}]", out, depth + 1, seen)
        elif v.elem is not None:
            flatten(h, v.elem, path + "[*]", out, depth + 1, seen)
        return out
    if isinstance(v, Un):
        for i, x in enumerate(v.ms):
            flatten(h, x, f"{path}|{i}", out, depth + 1, seen)
        return out
    if isinstance(v, Ref):
        if v.oid in seen:
            return out
        seen = seen + (v.oid,)
        o = it.get(v.oid)
        if isinstance(o, HList):
            if o.items is not None:
                for i, x in enumerate(o.items):
                    flatten(h, x, f"{path}[{i}]", out, depth + 1, seen)
            elif o.elem is not None:
                flatten(h, o.elem, path + "[*]", out, depth + 1, seen)
            return out
        if isinstance(o, HDict):
            for k, x in o.known.items():
                flatten(h, x, f"{path}[{k}]", out, depth + 1, seen)
            if o.rest:
                flatten(h, o.rest[1], path + "[**]", out, depth + 1, seen)
            return out
        if isinstance(o, HInst):
            if "%stream" in o.attrs:
                return out  # a stream of the caller changes by being written to or read from
            ob = find_obs(o)
            if ob is not None:
                for k, f in ob.items():
                    saved = it.st
                    it.st = saved.fork()
                    try:
                        x = f(h, v)
                    except Stop:
                        x = None
                    if x is not None:
                        flatten(h, x, f"{path}.{k}", out, depth + 1, seen)
                    else:
                        l = leaf_of(h, f"{path}.{k}", NONE)
                        l.kind = "raises"
                        out.append(l)
                    it.st = saved
            else:
                for k, x in o.attrs.items():
                    if k.startswith("__") or isinstance(x, (Fn, Cls, Mod, Bound)):
                        continue
                    flatten(h, x, f"{path}.{k}", out, depth + 1, seen)
            return out
        return out
    out.append(leaf_of(h, path, v))
    return out


def reachable(h, v):
    """caller-owned storage and differentiable inputs of every tensor held by v, private ones included; {other storage: where}"""
    it = h.it
    bases, grads, inner, seen, todo = set(), set(), {}, set(), [(v, "")]
    while todo:
        v, p = todo.pop()
        if isinstance(v, Lazy):
            v = it.force(v)
        if isinstance(v, Tup):
            todo += [(x, p) for x in v.items or []]
            if v.elem is not None:
                todo.append((v.elem, p))
        elif isinstance(v, Un):
            todo += [(x, p) for x in v.ms]
        elif isinstance(v, Tn):
            bases |= {b for b in v.base if b.startswith("in:")}
            inner.update({b: p for b in v.base if not b.startswith(("in:", "g:"))})
            grads |= it.eff(v)[1]
        elif isinstance(v, Ref) and v.oid not in seen:
            seen.add(v.oid)
            o = it.get(v.oid)
            if isinstance(o, HList):
                todo += [(x, p) for x in o.items or []]
                if o.elem is not None:
                    todo.append((o.elem, p))
            elif isinstance(o, HDict):
                todo += [(x, p) for x in o.known.values()]
                if o.rest:
                    todo.append((o.rest[1], p))
            elif isinstance(o, HInst):
                todo += [(x, f"{p}.{k}") for k, x in o.attrs.items()]
    return frozenset(bases), frozenset(g for g in grads), inner


class Case:
    """Analysis result of one entry in one scenario."""
    __slots__ = ("entry", "key", "leaves", "events", "stopped", "raises", "unknowns", "setup", "error", "consulted", "called", "obs_events", "before", "after", "floats", "labels", "files", "made", "rejected", "reach", "modes", "moded", "views", "copied", "shared", "syms", "lines")


_shared = {}


def interp(repo):
    it = _shared.get(repo)
    if it is None:
        it = _shared[repo] = Interp(repo)
    return it


def case_key(scen, fdtype):
    return ",".join(f"{k}={v}" for k, v in scen.items()) + ("" if fdtype == "float32" else ("," if scen else "") + fdtype)


def observe_inputs(h, owned):
    """leaves of every caller-owned value, evaluated on a throw-away copy of the state"""
    it = h.it
    saved, ev, rs, nev = it.st, it.events, it.raise_stack, it.cond
    ph, it.phase = it.phase, 2
    out = []
    for lab, v in owned:
        it.st = saved.fork()
        it.raise_stack = [[]]
        try:
            flatten(h, v, lab, out)
        except Stop:
            pass
        it.st = saved
    it.st, it.events, it.raise_stack, it.cond, it.phase = saved, ev, rs, nev, ph
    return out


def run_case(entry, scen, fdtype, repo, observe=True, inputs=False, io=False, perturb=None, training=None, copies=False, sizes=None, trace=False):
    c = Case()
    c.before, c.after, c.floats = None, None, frozenset()
    c.labels = frozenset()
    c.rejected, c.made, c.reach = False, {}, (frozenset(), frozenset())
    c.files, c.modes, c.moded, c.shared = {}, {}, False, {}
    c.syms, c.lines = {}, set()
    c.entry = entry.name
    c.key = case_key(scen, fdtype)
    c.error, c.leaves, c.events, c.stopped, c.raises, c.unknowns, c.setup, c.obs_events, c.views, c.copied = None, [], [], False, [], {}, [], [], 0, 0
    it = interp(repo)
    it.unknowns, it.called = {}, {}
    it.views, it.copied, it.copies = 0, 0, False
    it.stack, it.frames, it.pc, it.nograd, it.cond, it.ctx, it.node, it._sub, it.steps = [], [], EMPTY, 0, 0, 0, None, 0, 0
    it.raise_stack = [[]]
    it.io_raises = None
    it.phase = 0
    from .interp import State
    it.st = State()
    h = H(share=it, fdtype=fdtype)
    h.perturb = perturb
    c.made, c.syms = h.made, h.syms
    if sizes:
        h.degenerate(sizes)
    it.lines = c.lines if trace else None
    try:
        b = entry.build(h, **scen)
        if isinstance(b, tuple):
            fn, args, kw = (b + ({},))[:3] if len(b) < 3 else b
            if isinstance(fn, str):
                fn = h.ref(fn)
            for i, a in enumerate(args):
                h.own(f"arg{i}", a)
            for k, a in kw.items():
                h.own(k, a)
            thunk = lambda: it.call(fn, list(args), dict(kw))
        else:
            thunk = b
        it.st.heap["%disk"] = HInst("%disk", {"written": Sc("bytes", UNK, EMPTY)})
        amb0 = {k: Sc("enum", k + ":initial") for k in AMBIENT}
        it.st.heap["%ambient"] = HInst("%ambient", amb0)
        it.copies = copies
        m0 = training_modes(it, training)
        it.moded = False
        h.begin()
        it.io_raises = {None} if io else None
        c.setup = h.setup_events
        if inputs:
            c.before = observe_inputs(h, h.owned)
            it.events = []
        r = h.run(thunk)
        c.stopped = r.stopped
        c.raises = raise_facts(it)
        c.rejected = r.stopped
        c.events = it.events
        c.unknowns = dict(it.unknowns)
        c.files = file_states(it, r.stopped)
        c.modes = mode_changes(it, r.stopped, m0, amb0)
        c.moded = it.moded
        c.views, c.copied = it.views, it.copied
        if inputs and not r.stopped:
            c.after = observe_inputs(h, h.owned)
        if not r.stopped and observe:
            it.events = []
            it.phase = 2
            if entry.opts.get("noalias") or entry.opts.get("nograd"):
                b, g, inner = reachable(h, r.val)
                c.reach = b, g
                own = {}
                for lab, v in h.owned:
                    own.update(reachable(h, v)[2])
                c.shared = {p: own[s] for s, p in inner.items() if s in own}
            c.leaves = flatten(h, r.val)
            c.obs_events = it.events
            w = it.st.heap["%disk"].attrs["written"]
            if w.deps:
                c.leaves.append(leaf_of(h, "%disk", w))
        c.floats = frozenset(h.floats)
        c.labels = frozenset(h.labels)
    except Stop:
        c.raises, c.rejected = raise_facts(it), True
        c.error = "input construction raises: " + "; ".join(f"{x[1]} at {x[5]}" for x in it.raise_stack[0][-3:])
    except (AnalysisError, Budget) as e:
        c.error = f"{type(e).__name__}: {e}"
    except RecursionError:
        c.error = "RecursionError"
    except Exception as e:
        c.error = "internal: " + "".join(traceback.format_exc()[-6000:])
    c.called = dict(it.called)
    return c


def raise_facts(it):
    """(type, number of undecided conditions, place, written in the source?, inputs tested) of every way of raising"""
    out = []
    for x in it.raise_stack[0]:
        t = x[6] if len(x) > 6 else frozenset()
        out.append((x[1], x[3], x[5], isinstance(x[2], (ast.Raise, ast.Assert)), frozenset(d.lstrip("?~").split("#")[0] for d in t)))
    return out


PERTURB = ["rank+", "rank-", "dtype", "notensor", "dev"]


def perturbations(c, entry, scen):
    """malformed variants of the inputs of case c"""
    for lab, made in c.made.items():
        if made in ("const", "list"):
            for k in ("neg", "zero", "big", "float", "str") if made == "const" else ("short", "long", "none"):
                yield (lab, k), scen
            continue
        shape = made[0]
        for k in PERTURB + [f"dim{i}" for i in range(len(shape))]:
            if k == "rank-" and not shape:
                continue
            yield (lab, k), scen
    for k, vals in entry.scen.items():
        if all(isinstance(v, str) or v is None for v in vals) and sum(isinstance(v, str) for v in vals) >= 1 and isinstance(scen[k], str):
            yield ("option", k), {**scen, k: "no_such_option"}


SIZED = re.compile(r"^[a-z]+[VFPU]\d?$")


def degenerations(c):
    """name -> sizes that are 0 or 1 instead of generic ones"""
    out = {}
    ss = [s for s in c.syms if s != "%n"]
    el = [s for s in ss if SIZED.match(s)]
    first = [s for s in el if s.endswith("0")]
    if first and any(s.endswith("1") for s in el):
        out["first element empty"] = {s: 0 for s in first}
        out["second element empty"] = {s: 0 for s in el if s.endswith("1")}
        if any(s[:-1].endswith("F") for s in first):
            out["first element without faces"] = {s: 0 for s in first if s[:-1].endswith("F")}
    if el:
        out["all empty"] = {**{s: 0 for s in el}, "%empty": True}
        out["all of size 1"] = {s: 1 for s in el}
    if "%n" in c.syms:
        out["no elements"] = {"%n": 0, "%empty": True}
        out["one element"] = {"%n": 1}
    for s in ss:
        if s not in el:
            out[s + "=1"] = {s: 1}
    return out


AMBIENT = ("grad", "rng", "default_dtype", "default_device", "deterministic", "num_threads")


def training_modes(it, value):
    """oid -> training flag of every module that exists; with a value, unknown flags are set to it"""
    out = {}
    for oid, o in list(it.st.heap.items()):
        if isinstance(o, HInst) and "training" in o.attrs:
            t = o.attrs["training"]
            if value is not None and isinstance(t, Sc) and t.v is UNK:
                t = const(value)
                it.st.heap[oid] = HInst(o.cls, {**o.attrs, "training": t}, o.extra)
            out[oid] = t
    return out


def mode_changes(it, stopped, m0, amb0):
    """way out -> {what: (before, after)}: training modes and process-wide state that differ from those at the call"""
    out = {}
    sts = ([] if stopped else [("return", it.st)]) + [(f"{x[1]} at {x[5]}", x[0]) for x in it.raise_stack[0]]
    show = lambda v: str(v.v) if isinstance(v, Sc) and v.v is not UNK else "|".join(sorted(show(m) for m in v.ms)) if isinstance(v, Un) else "unknown"
    same = lambda a, b: isinstance(b, Sc) and a.v == b.v and a.kind == b.kind
    for how, st in sts:
        d = out.setdefault(how, {})
        for oid, t in m0.items():
            o = st.heap.get(oid)
            if isinstance(o, HInst) and isinstance(t, Sc) and t.v is not UNK and not same(t, o.attrs.get("training", t)):
                d[f"training mode of {o.cls.name if not isinstance(o.cls, str) else o.cls}"] = show(t), show(o.attrs["training"])
        o = st.heap.get("%ambient")
        for k, v in amb0.items():
            if o is not None and not same(v, o.attrs.get(k, v)):
                d[k] = show(v), show(o.attrs[k])
    return out


def file_states(it, stopped):
    """(site, how opened) -> what is known about the file on the ways out of the entry"""
    out = {}
    sts = ([] if stopped else [("return", it.st, 0)]) + [(f"{x[1]} at {x[5]}", x[0], x[3]) for x in it.raise_stack[0]]
    for how, st, cond in sts:
        for o in st.heap.values():
            if isinstance(o, HInst) and o.cls == "file":
                own = "%stream" in o.attrs
                cl = o.attrs["closed"]
                v = cl.v if isinstance(cl, Sc) and isinstance(cl.v, bool) else None
                m = o.attrs.get("mode")
                key = ("caller", "stream") if own else (o.attrs["%site"].v if "%site" in o.attrs else "?", o.attrs["%via"].v if "%via" in o.attrs else "?")
                out.setdefault(key, {})[how] = (v, m.v if isinstance(m, Sc) and isinstance(m.v, str) else None)
    return out


def load_specs():
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
    import sys
    if root not in sys.path:
        sys.path.insert(0, root)
    for f in sorted(os.listdir(root)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module(f[:-3])
