"""Decision rules: facts of one analysed case against its contract, giving findings per property.

A finding is only made from definite evidence; anything the interpreter could not decide is counted
as undecided.  Finding = (property, construct, message); the construct identifies the entry, the scenario
independent place and the rule, never a line number.
"""
import re
from collections import Counter

from . import dims
from .interp import pathjoin
from .values import UNK, Sc

MUT_OK = {}          # filled from the contract: entry -> labels that the documented behaviour modifies


def dimstr(x):
    """printed size; opaque atoms (sizes that depend on data) lose their numbering"""
    return None if x is None else re.sub(r"(\[[A-Za-z]+?)s?\d+", r"\1", str(x))


def base_path(p):
    return re.sub(r"\|\d+", "", p)


class LF:
    """Facts about one observable result value."""
    __slots__ = ("kinds", "shape", "dtype", "dev", "deps", "gdeps", "alias", "n", "v", "alts")

    def __init__(self):
        self.alts = []
        self.kinds, self.shape, self.dtype, self.dev, self.deps, self.gdeps, self.alias, self.n, self.v = set(), None, None, None, set(), set(), set(), 0, None


def scalar(l):
    """known value of a Python scalar result"""
    if l.kind in ("int", "bool", "str", "device", "dtype", "enum") and isinstance(l.v, Sc) and l.v.v is not UNK:
        return str(l.v.v)
    return None


def leaf_facts(leaves):
    out = {}
    for l in leaves:
        p = base_path(l.path)
        f = out.get(p)
        sh = None if l.shape is None else tuple(dimstr(x) for x in l.shape)
        al = {b for b in l.base if b.startswith("in:")}
        if f is None:
            f = out[p] = LF()
            f.v = scalar(l)
        elif f.v != scalar(l):
            f.v = None
        if l.kind in TENSOR:
            # the alternatives a value may have on different paths; a fact all of them share is a fact of the value
            if not f.alts:
                f.shape, f.dtype, f.dev = sh, l.dtype, l.dev
            f.alts.append((sh, l.dtype, l.dev))
            for w, x in l.alts:
                f.alts.append((tuple(dimstr(y) for y in x) if w == "shape" else None, x if w == "dtype" else None, x if w == "dev" else None))
            if f.shape != sh:
                f.shape = None
            if f.dtype != l.dtype:
                f.dtype = None
            if f.dev != l.dev:
                f.dev = None
        f.kinds.add(l.kind)
        if f.n and "|" in l.path and l.kind in TENSOR:
            f.deps, f.gdeps = pathjoin(f.deps, l.deps), pathjoin(f.gdeps, l.gdeps)
        else:
            f.deps, f.gdeps = f.deps | l.deps, f.gdeps | l.gdeps
        f.alias |= al
        f.n += 1
    return out


def ev_key(e):
    """scenario independent place of an event: innermost analysed function"""
    st = [str(s) for s in e.stack]
    return st[-1] if st else e.loc.split(":")[0]


def dump(case):
    """contract record of a case (JSON-able)"""
    r = {"stopped": case.stopped}
    if any(e.kind == "squeeze_any" for e in case.events):
        r["sq"] = True
    L = {}
    for p, f in leaf_facts(case.leaves).items():
        L[p] = [sorted(f.kinds), list(f.shape) if f.shape is not None else None, f.dtype, f.dev,
                sorted(d for d in canon(f.deps) if "#" not in d), sorted(canon(f.gdeps)), sorted(f.alias), f.v]
    r["leaves"] = L
    r["mut"] = sorted({e.data["base"] for e in case.events if e.kind == "mutate"})
    r["rng"] = sorted({e.data["op"] for e in case.events if e.kind == "rng"})
    r["narrow"] = sorted({nkey(e) for e in case.events + case.obs_events if e.kind == "narrowing"})
    r["attr"] = sorted({e.data["obj"].split(".")[0] + "." + e.data["attr"] for e in case.events if e.kind == "attr_write"})
    r["amb"] = dict(Counter(amb_key(e) for e in case.events if e.kind == "ambient"))
    r["io"] = dict(Counter(e.kind + ":" + str(e.data.get("via", e.data.get("op", ""))) for e in case.events if e.kind in ("open", "fs", "file_write")))
    r["cc"] = [[e.data["fn"], {k: sorted(d for d in v if "#" not in d) for k, v in e.data["deps"].items()}] for e in case.events if e.kind == "ccall"]
    r["rs"] = {k: sorted(v) for k, v in raise_checks(case).items()}
    if any(case.reach):
        r["reach"] = [sorted(x) for x in case.reach]
    r["ag"] = [[e.data["cls"], e.data["nargs"], e.data["nret"]] for e in case.events if e.kind == "autograd"]
    if case.before is not None and case.after is not None:
        r["inp"] = sorted(x for x, _ in input_changes(case))
    return r


def raise_checks(case):
    """exception type -> inputs whose values decide whether it is raised"""
    out = {}
    for name, cond, loc, explicit, test in case.raises:
        if explicit and cond and name != "reraise" and "(I/O error)" not in loc:
            out.setdefault(name, set()).update(test & case.labels)
    return {k: v for k, v in out.items() if v}


def nkey(e):
    return f"{e.data['op']}:{e.data['src']}->{e.data['dst']}"


def amb_key(e):
    return e.kind + ":" + str(e.data.get("what", e.data.get("mode", "")))


def opaque(s):
    return s is None or "[" in s


def shape_differs(a, b):
    """definitely different shapes (contract a, current b)"""
    if a is None or b is None:
        return False
    if len(a) != len(b):
        return True
    return any(x != y and not opaque(x) and not opaque(y) for x, y in zip(a, b))


def resized(s, sizes):
    """a size or count of the contract when some sizes are 0 or 1"""
    if not isinstance(s, str) or not any(x in sizes for x in re.findall(r"[A-Za-z_]\w*", s)):
        return s
    if not re.fullmatch(r"[\w*+-]+", s):
        return "[?]"
    tot = 0
    for sign, term in re.findall(r"([+-]?)([^+-]+)", s):
        v = -1 if sign == "-" else 1
        for f in term.split("*"):
            v = dims.mul(v, int(f) if f.isdigit() else sizes[f] if f in sizes else dims.sym(f))
        tot = dims.add(tot, v)
    return dimstr(tot)


def degenerate(k, v):
    """contract of the case with contract k when the sizes v["sizes"] are 0 or 1: the same facts about
    the smaller shapes, except for the results listed in v["over"]"""
    sz = v["sizes"]
    out = {**k, "leaves": {}}
    for p, row in list(k["leaves"].items()) + list(v["over"].items()):
        if p in v["over"]:
            if v["over"][p] is not None:
                out["leaves"][p] = v["over"][p]
            continue
        val = row[7] if len(row) > 7 else None
        out["leaves"][p] = [row[0], [resized(x, sz) for x in row[1]] if row[1] is not None else None, row[2], row[3], [], [], [],
                            resized(val, sz) if row[0] == ["int"] else val]
    return out


def differing(k, case, sizes):
    """results that do not follow the generic contract k: path -> row or None"""
    cur, want = dump(case)["leaves"], degenerate(k, {"sizes": sizes, "over": {}})["leaves"]
    over = {}
    for p in set(cur) | set(want):
        a, b = want.get(p), cur.get(p)
        if b is not None:
            b = b[:4] + [[], [], []] + b[7:]
        if a is None or b is None or a[0] != b[0] or a[2] != b[2] or a[3] != b[3] or shape_differs(a[1], b[1]) or (len(a) > 7 and a[7] != b[7]):
            over[p] = b
    return over


TENSOR = {"tensor", "ndarray"}


def plain(d):
    """label without the marks '?' (control only) and '~' (on some paths only)"""
    return d.lstrip("?~")


def canon(deps):
    """'~l' next to 'l' says nothing"""
    return {d for d in deps if d[0] != "~" or d[1:] not in deps}


def data(deps):
    """labels flowing in as data, on some path"""
    return {plain(d) for d in deps if "#" not in d and "?" not in d}


def missing(req, cur, floats):
    out = []
    cp = set(cur)
    names = {plain(d) for d in cp} | {plain(d.split("#")[0]) for d in cp}
    for d in req:
        n = plain(d)
        if d in cp or n in cp:
            continue
        if n in floats and not d.startswith("?"):
            # values of a floating point tensor have to flow in as data
            if "~" + n in cp:
                if d[0] != "~":
                    out.append(n + " (on every path)")
            else:
                out.append(n)
        elif n not in names:
            out.append(n)
    return out


def missing_grad(req, cur):
    out = []
    for g in req:
        n = plain(g)
        if n in cur or g in cur:
            continue
        if "~" + n in cur:
            out.append(n + " (on every path)")
        else:
            out.append(n)
    return out


def shp(s):
    return "?" if s is None else "(" + ", ".join("?" if x is None else x for x in s) + ")"


def input_changes(case):
    """observable differences of the caller's objects before and after the call"""
    b, a = leaf_facts(case.before), leaf_facts(case.after)
    out = []
    for p, f in b.items():
        g = a.get(p)
        if g is None:
            if not any(k == "unknown" for x in a.values() for k in x.kinds):
                out.append((p, f"{p} is gone after the call"))
            continue
        if "unknown" in g.kinds or "unknown" in f.kinds:
            continue
        if f.kinds != g.kinds and len(f.kinds) == len(g.kinds) == 1:
            out.append((p, f"{p} was {next(iter(f.kinds))} and is {next(iter(g.kinds))} after the call"))
        elif shape_differs(f.shape, g.shape):
            out.append((p, f"{p} had shape {shp(f.shape)} and has {shp(g.shape)} after the call"))
        elif f.dtype and g.dtype and f.dtype != g.dtype:
            out.append((p, f"{p} was {f.dtype} and is {g.dtype} after the call"))
        elif f.dev and g.dev and f.dev != g.dev:
            out.append((p, f"{p} was on {f.dev} and is on {g.dev} after the call"))
        else:
            lost = data(f.deps) - data(g.deps)
            if lost:
                out.append((p, f"{p} no longer holds the caller's {', '.join(sorted(lost))} after the call"))
            else:
                gain = data(g.deps) - data(f.deps)
                if gain and f.kinds <= TENSOR:
                    out.append((p, f"{p} depends on {', '.join(sorted(gain))} after the call"))
    return out


class Judge:
    """Compares a current case with its contract for one property."""

    def __init__(self, prop, entry, contract):
        self.prop, self.e, self.k = prop, entry, contract
        self.n = Counter()
        self.usual = ()         # raises that depend on the values of well formed inputs too

    def out(self, construct, msg, loc=""):
        return (self.prop, f"{self.e.name}::{construct}", msg + (f" [{loc}]" if loc else ""))

    def leaves(self, case):
        """(path, contract row, current facts, unknown?)"""
        cur = leaf_facts(case.leaves)
        anyunk = any("unknown" in f.kinds for f in cur.values())
        for p, row in self.k["leaves"].items():
            f = cur.get(p)
            if f is None:
                # an abstract list '[*]' and explicit items stand for each other
                yield p, row, None, anyunk or any(q.startswith(p.split("[")[0]) for q in cur if "[" in p or "[" in q)
            else:
                yield p, row, f, "unknown" in f.kinds

    def judge(self, case):
        if case.error and not (self.prop == "C09" and case.rejected):
            self.n["not_analysed"] += 1
            return []
        return list(getattr(self, self.prop)(case))

    # -- C01: the caller's values are not modified
    def C01(self, case):
        ok = set(self.k.get("mut", ())) if self.e.opts.get("inplace") else set(self.e.opts.get("mutates", ()))
        self.n["calls"] += 1
        seen = set()
        for e in case.events:
            if e.kind == "mutate":
                b = e.data["base"]
                if b in ok or any(b == o or b.startswith(o + ".") for o in self.e.opts.get("mutates", ())):
                    self.n["declared_inplace_writes"] += 1
                    continue
                key = f"writes {b}"
                if key not in seen:
                    seen.add(key)
                    yield self.out(key, f"{e.data['op']} writes into the caller's {b}", f"{e.loc} in {ev_key(e)}")
        if case.before is not None and case.after is not None and not self.e.opts.get("inplace"):
            okp = set(self.e.opts.get("changes", ()))
            for p, msg in input_changes(case):
                if any(p.startswith(o) for o in okp):
                    continue
                yield self.out(f"changes {p}", msg)
            self.n["observed_input_values"] += len(case.before)

    # -- C02: copies share no storage; detached results carry no gradient
    def C02(self, case):
        for p, row, f, unk in self.leaves(case):
            if f is None or unk or not f.kinds & TENSOR:
                self.n["undecided"] += unk
                continue
            self.n["values"] += 1
            if self.e.opts.get("noalias") and f.alias:
                yield self.out(f"{p} shares", f"{p or 'result'} shares storage with {', '.join(sorted(f.alias))}")
            if self.e.opts.get("nograd") and f.gdeps:
                yield self.out(f"{p} attached", f"{p or 'result'} is still attached to {', '.join(sorted(f.gdeps))}")

        if not case.stopped:
            b, g = (set(x) for x in self.k.get("reach", ((), ())))
            self.n["values"] += 1
            if self.e.opts.get("noalias") and case.reach[0] - b:
                yield self.out("holds", f"the result holds {', '.join(sorted(case.reach[0] - b))} inside")
            if self.e.opts.get("noalias"):
                for a, b in sorted(case.shared.items()):
                    yield self.out(f"shares {a}", f"{a or 'result'} of the result shares storage with {b} of the original")
            if self.e.opts.get("nograd") and not g and case.reach[1]:
                yield self.out("holds attached", f"the result holds a tensor attached to {', '.join(sorted(case.reach[1]))} inside")

    def scalars(self, case, kinds):
        """Python scalars among the results whose value the analysis knows"""
        for p, row, f, unk in self.leaves(case):
            if f is None or unk or len(row) < 8 or row[7] is None or len(row[0]) != 1 or row[0][0] not in kinds or f.kinds != set(row[0]):
                continue
            if f.v is None or "[" in row[7] or "[" in f.v:
                self.n["undecided"] += 1
                continue
            self.n["scalars"] += 1
            if f.v != row[7]:
                yield self.out(f"{p} value", f"{p or 'result'} is {f.v} instead of {row[7]}")

    def deps(self, case, what):
        if case.stopped:
            return
        floats = case.floats
        for p, row, f, unk in self.leaves(case):
            req = [d for d in row[4] if plain(d) not in self.e.opts.get("ignore", ())]
            if not req:
                continue
            if f is None:
                if unk:
                    self.n["undecided"] += 1
                    continue
                self.n["facts"] += len(req)
                yield self.out(f"{p} missing", f"{p or 'result'} is no longer produced, it has to depend on {', '.join(req)}")
                continue
            self.n["facts"] += len(req)
            miss = missing(req, f.deps, floats)
            if miss:
                yield self.out(f"{p} ignores {','.join(miss)}", f"{p or 'result'} does not depend on {', '.join(miss)} ({what}); it depends on {', '.join(sorted(d for d in f.deps if '#' not in d)) or 'nothing'}")

    def C03(self, case):
        return self.deps(case, "accessor after the update")

    def C04(self, case):
        yield from self.deps(case, "attribute has to be carried over")
        yield from self.scalars(case, ("bool", "str", "enum"))

    def replaced(self, case):
        """a value given in the call replaces the stored one, which has no influence any more"""
        rows = self.k.get("leaves", {})
        used = {plain(d) for row in rows.values() for d in row[4]}
        if case.stopped or not any(d.startswith("o.") for d in used):
            return
        for p, row, f, unk in self.leaves(case):
            if f is None or unk or not f.kinds & TENSOR or f.shape is None:
                continue
            self.n["overrides"] += 1
            more = {d for d in data(f.deps) - used if d[0] != "%" and not d.startswith("o.")}
            if more:
                yield self.out(f"{p} still uses {','.join(sorted(more))}", f"{p or 'result'} depends on the stored {', '.join(sorted(more))} although the call gives another value")

    def C08(self, case):
        yield from self.deps(case, "argument has to take effect")
        yield from self.replaced(case)
        yield from self.scalars(case, ("bool", "str", "enum"))

    # -- C05: device
    def C05(self, case):
        for e in case.events + case.obs_events:
            if e.kind == "device_mismatch":
                yield self.out(f"mixes devices in {ev_key(e)}", f"{e.data['op']} combines tensors of different devices {e.data.get('args', '')}", e.loc)
        for p, row, f, unk in self.leaves(case):
            if f is None or unk or row[3] is None:
                continue
            devs = {a[2] for a in f.alts} - {None, row[3]}
            if f.dev is None and not devs:
                self.n["undecided"] += 1
                continue
            self.n["values"] += 1
            if devs:
                yield self.out(f"{p} device", f"{p or 'result'} is on {', '.join(sorted(map(str, devs)))}{' on some path' if len(f.alts) > 1 else ''}, the inputs call for {row[3]}")

        yield from self.scalars(case, ("device",))

    # -- C06: dtype
    def C06(self, case):
        yield from self.scalars(case, ("dtype",))
        for e in case.events + case.obs_events:
            if e.kind in ("dtype_mismatch", "narrowing") and not e.data.get("binding"):
                if e.kind == "narrowing" and self.k.get("narrow"):
                    continue        # float32-only kernels behind this operation
                d = {k: v for k, v in e.data.items()}
                yield self.out(f"{e.kind} {e.data['op']} in {ev_key(e)}", f"{e.kind} in {e.data['op']}: {d}", e.loc)
        for p, row, f, unk in self.leaves(case):
            if f is None or unk or row[2] is None:
                continue
            ts = {a[1] for a in f.alts} - {None, row[2]}
            if f.dtype is None and not ts:
                self.n["undecided"] += 1
                continue
            self.n["values"] += 1
            if ts:
                yield self.out(f"{p} dtype", f"{p or 'result'} is {', '.join(sorted(map(str, ts)))}{' on some path' if len(f.alts) > 1 else ''}, the inputs call for {row[2]}")

    # -- C07: gradient connectivity
    def C07(self, case):
        if case.stopped:
            return
        for p, row, f, unk in self.leaves(case):
            if not row[5]:
                continue
            if f is None or unk:
                self.n["undecided"] += 1
                continue
            if not f.kinds & TENSOR:
                continue
            self.n["paths"] += len(row[5])
            miss = missing_grad(row[5], f.gdeps)
            if miss:
                yield self.out(f"{p} no gradient to {','.join(miss)}", f"{p or 'result'} has no gradient path to {', '.join(miss)}")

    # -- C09: malformed inputs are rejected
    def C09(self, case):
        if self.e.rejects or "rej" in self.k:
            self.n["malformed_inputs"] += 1
            want = set(self.k["rej"]) if "rej" in self.k else (set(self.e.rejects) if self.e.rejects is not True else set())
            got = {r[0] for r in case.raises if r[0] and (r[0], r[2]) not in self.usual}
            if case.rejected:
                return
            if "rej" in self.k and (got or any(e.kind == "shape_error" and e.cond == 0 for e in case.events)):
                self.n["undecided"] += 1
            else:
                yield self.out(f"accepts {self.k.get('what', '')}", f"the malformed input {self.k.get('what', '')} is accepted instead of raising {sorted(want)}")
            return
        if case.stopped:
            return
        cur = raise_checks(case)
        for name, labs in self.k.get("rs", {}).items():
            self.n["value_checks"] += len(labs)
            lost = set(labs) - cur.get(name, set())
            if lost:
                yield self.out(f"no check of {','.join(sorted(lost))}", f"no {name} is raised any more depending on the values of {', '.join(sorted(lost))}")

    # -- C10: shapes
    def C10(self, case):
        if case.stopped:
            if any(u.startswith("stmt:") for u in case.unknowns):
                self.n["undecided"] += 1
            elif not self.k["stopped"]:
                r = [x for x in case.raises if x[1] == 0][:2]
                yield self.out("raises", f"a valid input is rejected: {[(x[0], x[2]) for x in r]}")
            return
        for e in case.events + case.obs_events:
            if e.kind == "shape_error":
                yield self.out(f"shape error {e.data['op']} in {ev_key(e)}", f"{e.data['op']}: {e.data['detail']}", e.loc)
            elif e.kind == "squeeze_any" and e.cond == 0 and not self.k.get("sq"):
                yield self.out(f"squeeze in {ev_key(e)}", f"the rank of a result depends on a size: squeeze {e.data['detail']}", e.loc)
        for p, row, f, unk in self.leaves(case):
            if f is None:
                if unk:
                    self.n["undecided"] += 1
                elif not set(row[0]) & {"none"}:
                    yield self.out(f"{p} missing", f"{p or 'result'} is no longer part of the result")
                continue
            if unk:
                self.n["undecided"] += 1
                continue
            if f.kinds != set(row[0]) and len(f.kinds) == 1 and len(row[0]) == 1:
                a, b = row[0][0], next(iter(f.kinds))
                if (a in TENSOR) != (b in TENSOR) and "none" in (a, b) or {a, b} == TENSOR or "raises" in (a, b) and a != "raises":
                    yield self.out(f"{p} kind", f"{p or 'result'} is {b} instead of {a}")
                    continue
            if row[1] is None or not (set(row[0]) & TENSOR):
                continue
            bad = [a[0] for a in f.alts if a[0] is not None and shape_differs(row[1], a[0])]
            if f.shape is None and not bad:
                self.n["undecided"] += 1
                continue
            self.n["shapes"] += 1
            if bad:
                yield self.out(f"{p} shape", f"{p or 'result'} has shape {shp(bad[0])}{' on some path' if len(f.alts) > 1 else ''}, contract {shp(row[1])}")

        yield from self.scalars(case, ("int",))

    # -- C11: randomness
    def C11(self, case):
        self.n["calls"] += 1
        for e in case.events:
            if e.kind == "rng" and not self.k["rng"]:
                yield self.out(f"{e.data['op']} in {ev_key(e)}", f"{e.data['op']} draws random numbers in a deterministic operation", e.loc)
        if self.k["rng"]:
            for p, row, f, unk in self.leaves(case):
                if f is None or unk or not f.kinds & TENSOR or any("rng" in d for d in row[4]):
                    continue
                self.n["values"] += 1
                if "rng" in f.deps:
                    yield self.out(f"{p} random", f"{p or 'result'} depends on random numbers")

    # -- C12: I/O
    def C12(self, case):
        from . import iorules
        return iorules.judge(self, case)

    # -- C13: binding contract
    def C13(self, case):
        for e in case.events:
            if e.kind == "binding":
                yield self.out(f"{e.data['fn']} {e.data['what']} {e.data.get('param', '')} in {ev_key(e)}", e.data["detail"], e.loc)
            elif e.kind == "dtype_mismatch" and e.data.get("binding"):
                yield self.out(f"{e.data['op']} dtype in {ev_key(e)}", e.data["detail"], e.loc)
            elif e.kind == "shape_error" and str(e.data["op"]).startswith("_C."):
                yield self.out(f"{e.data['op']} shape in {ev_key(e)}", e.data["detail"], e.loc)
            elif e.kind == "autograd_arity":
                yield self.out(f"{e.data['cls']} arity", f"backward returns {e.data['nret']} gradients for {e.data['nargs']} inputs", e.loc)
            elif e.kind == "autograd_shape":
                yield self.out(f"{e.data['cls']} gradient {e.data['pos']}", f"gradient {e.data['pos']} has the shape of another input: {e.data['grad']} for {e.data['arg']}", e.loc)
            elif e.kind == "autograd_nontensor_grad":
                yield self.out(f"{e.data['cls']} gradient {e.data['pos']}", f"backward returns a gradient for the non-tensor input {e.data['pos']}", e.loc)
            elif e.kind == "autograd_lost":
                yield self.out(f"{e.data['cls']} lost {e.data['pos']}", f"backward returns no gradient for input {e.data['pos']} when only that input needs one", e.loc)
            elif e.kind == "autograd_backward_raises" and not self.e.opts.get("nobackward"):
                yield self.out(f"{e.data['cls']} backward", "backward always raises", e.loc)
            elif e.kind == "autograd":
                self.n["autograd_functions"] += 1
        cur = {}
        for e in case.events:
            if e.kind == "ccall":
                cur.setdefault(e.data["fn"], []).append({k: set(v) for k, v in e.data["deps"].items()})
        base = {}
        for fn, d in self.k["cc"]:
            base.setdefault(fn, []).append(d)
        for fn, rows in base.items():
            now = cur.get(fn)
            if now is None:
                self.n["undecided"] += 1     # the call may legitimately be replaced
                continue
            if len(now) != len(rows):
                def union(rs):
                    u = {}
                    for r in rs:
                        for k, v in r.items():
                            u.setdefault(k, set()).update(v)
                    return [u]
                rows, now = union(rows), union(now)
            for i, (b, c) in enumerate(zip(rows, now)):
                for k, req in b.items():
                    if k not in c or not req:
                        continue
                    self.n["call_arguments"] += 1
                    m = missing(sorted(req), c[k], case.floats)
                    if m:
                        yield self.out(f"{fn}.{k}", f"argument {k} of _C.{fn} no longer carries {', '.join(m)} (carries {', '.join(sorted(d for d in c[k] if '#' not in d)) or 'nothing'})")

    # -- C16: ambient state
    def C16(self, case):
        self.n["calls"] += 1
        cur = Counter(amb_key(e) for e in case.events if e.kind == "ambient")
        for k, n in cur.items():
            if n > self.k["amb"].get(k, 0):
                e = next(e for e in case.events if e.kind == "ambient" and amb_key(e) == k)
                yield self.out(k, f"{k} is left changed by the call", f"{e.loc} in {ev_key(e)}")
        self.n["exits"] += len(case.modes)
        for how, changed in case.modes.items():
            for what, (b, a) in changed.items():
                yield self.out(f"{what} {how.split(' at ')[0]}", f"{what} is {b} at the call and {a} when it is left by {how}")

    # -- C17: any memory layout
    def C17(self, case):
        self.n["calls"] += 1
        self.n["views"] += case.views
        for e in case.events + case.obs_events:
            if e.kind == "layout":
                yield self.out(f"{e.data['op']} in {ev_key(e)}", e.data["detail"], e.loc)

    def lost_writes(self, case, alias):
        """results that miss a write because it went into the copy that reshape makes of a tensor it cannot view"""
        self.n["reshape_copies"] += case.copied
        if case.stopped or case.error or alias.error or alias.stopped:
            return []
        a, b = leaf_facts(alias.leaves), leaf_facts(case.leaves)
        out = []
        for p, f in a.items():
            g = b.get(p)
            if g is None or "unknown" in f.kinds | g.kinds:
                continue
            miss = sorted({plain(d) for d in f.deps if "#" not in d} - {plain(d) for d in g.deps if "#" not in d})
            if miss:
                out.append(self.out(f"{p} loses {','.join(miss)}", f"{p or 'result'} does not receive {', '.join(miss)} when the inputs are not contiguous: it is written into a copy made by reshape"))
        return out
