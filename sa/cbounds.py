"""Bounds of the element accesses in the C++ (CPU) kernels, by abstract interpretation on linear
relations between sizes, loop counters and index values.

Every bound function is followed on symbolic sizes (the shapes of cops.TABLE) and on index tensors
whose values lie in the documented range (ELEMS).  A loop is followed once for an arbitrary
iteration: counters are init + step * trip, other modified variables are arbitrary within the
invariants that one iteration preserves.  Each subscript of a tensor accessor, raw pointer or
std::vector of known size is an obligation 0 <= index < size, decided by Fourier-Motzkin
elimination over the relations that hold on the path.  It is a violation when concrete small sizes
exist that satisfy all of them and put the index outside; everything else is undecided."""
import functools
import itertools
import re
from fractions import Fraction

from . import cops, cxx, dims
from .cxx import TV, splitc
from .dims import Dim, add, mul, neg, sub, sym

ONE = ()


def lin(e):
    return {ONE: e} if isinstance(e, int) else dict(e.p)


def atoms(e):
    return {a for m in lin(e) for a in m}


def num(x):
    return isinstance(x, (int, Dim)) and not isinstance(x, bool)


# ---------------------------------------------------------------- linear relations

def norm(d):
    """a relation sum(c*m) >= 0 over the integers, tightened; True/False when trivial"""
    d = {m: c for m, c in d.items() if c}
    vs = [c for m, c in d.items() if m != ONE]
    if not vs:
        return d.get(ONE, 0) >= 0
    g = 0
    for c in vs:
        g = _gcd(g, abs(c))
    if g > 1:
        d = {m: (c // g) for m, c in d.items()}     # floor for the constant: sound for integers
    return frozenset(d.items())


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def infeasible(rels, limit=600):
    """True when no rational (integer tightened) point satisfies all relations (dicts >= 0)"""
    cur = set()
    for r in rels:
        n = norm(r)
        if n is False:
            return True
        if n is not True:
            cur.add(n)
    while True:
        best = None
        pos, negv = {}, {}
        for r in cur:
            for m, c in r:
                if m != ONE:
                    (pos if c > 0 else negv)[m] = (pos if c > 0 else negv).get(m, 0) + 1
        if not pos and not negv:
            return False
        for m in sorted(set(pos) | set(negv)):
            k = pos.get(m, 0) * negv.get(m, 0) - pos.get(m, 0) - negv.get(m, 0)
            if best is None or k < best[0]:
                best = (k, m)
        m = best[1]
        ps, ns, rest = [], [], set()
        for r in cur:
            c = dict(r).get(m)
            if c is None:
                rest.add(r)
            elif c > 0:
                ps.append(dict(r))
            else:
                ns.append(dict(r))
        for p in ps:
            for n in ns:
                a, b = -n[m], p[m]
                d = {}
                for q, c in p.items():
                    d[q] = d.get(q, 0) + a * c
                for q, c in n.items():
                    d[q] = d.get(q, 0) + b * c
                d.pop(m, None)
                x = norm(d)
                if x is False:
                    return True
                if x is not True:
                    rest.add(x)
        # drop dominated relations
        tight = {}
        for r in rest:
            d = dict(r)
            k = d.pop(ONE, 0)
            key = frozenset(d.items())
            if key not in tight or k < tight[key]:
                tight[key] = k
        cur = {frozenset({**dict(k), **({ONE: c} if c else {})}.items()) for k, c in tight.items()}
        if len(cur) > limit:
            return None


def connected(rels, goal):
    """the relations that share atoms with the goal"""
    seen = set(goal)
    rest = [(r, {a for m in r for a in m}) for r in rels]
    out = []
    while True:
        new = [x for x in rest if x[1] & seen or not x[1]]
        if not new:
            return out
        out += [x[0] for x in new]
        rest = [x for x in rest if not (x[1] & seen or not x[1])]
        for x in new:
            seen |= x[1]


class Path:
    """relations and alternatives that hold on a path"""
    __slots__ = ("env", "rel", "alts", "ne", "vague")

    def __init__(self, env=None, rel=(), alts=(), ne=(), vague=frozenset()):
        self.env, self.rel, self.alts, self.ne, self.vague = env if env is not None else {}, list(rel), list(alts), list(ne), vague

    def copy(self):
        return Path(dict(self.env), self.rel, self.alts, self.ne, self.vague)


class Cnd:
    """a condition kept in a variable"""
    def __init__(self, expr, env, names):
        self.expr, self.env = expr, env
        self.key = (id(expr), tuple(sorted((n, repr(env[n]) if num(env[n]) or isinstance(env[n], (bool, type(None))) else str(id(env[n]))) for n in names if n in env)))


class Ptr:
    def __init__(self, t, off):
        self.t, self.off = t, off


class Vec:
    """std::vector/deque/priority_queue: the size lives in env[name]"""

    def __init__(self, name, elem=None):
        self.name, self.elem = name, elem


class It:
    """an iterator of a container"""

    def __init__(self, v, off):
        self.v, self.off = v, off


class Clo:
    def __init__(self, params, body, fn):
        self.params, self.body, self.fn = params, body, fn


class Cmp:
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


class El:
    """element contract of an index tensor"""


class Stop(Exception):
    pass


# documented ranges of index values: lo..hi (inclusive), over the sizes of the table; first(P): starts of
# consecutive runs of P packed elements; count(P): numbers of them
ELEMS = {
    "face_areas_normals_forward": {"faces": ("0", "V-1")},
    "face_areas_normals_backward": {"faces": ("0", "V-1")},
    "packed_to_padded": {"first_idxs": ("first", "P", "$max_size")},
    "padded_to_packed": {"first_idxs": ("first", "$num_inputs", "M")},
    "interp_face_attrs_forward": {"pix_to_face": ("-1", "F-1")},
    "interp_face_attrs_backward": {"pix_to_face": ("-1", "F-1")},
    "knn_points_idx": {"lengths1": ("0", "P1"), "lengths2": ("0", "P2")},
    "knn_points_backward": {"lengths1": ("0", "P1"), "lengths2": ("0", "P2"), "idxs": ("-1", "P2-1")},
    "ball_query": {"lengths1": ("0", "P1"), "lengths2": ("0", "P2")},
    "sample_farthest_points": {"lengths": ("1", "P"), "K": ("1", "$max_K_known"), "start_idxs": ("below", "lengths", "P")},
    "mesh_normal_consistency_find_verts": {"edge_num": ("0", None)},
    "gather_scatter": {"edges": ("0", "V-1")},
    "points_to_volumes_forward": {"grid_sizes": ("grid", "A", "B", "E")},
    "points_to_volumes_backward": {"grid_sizes": ("grid", "A", "B", "E")},
    "rasterize_points": {"cloud_to_packed_first_idx": ("run", "num_points_per_cloud", "P"), "num_points_per_cloud": ("0", "P")},
    "_rasterize_points_naive": {"cloud_to_packed_first_idx": ("run", "num_points_per_cloud", "P"), "num_points_per_cloud": ("0", "P")},
    "rasterize_points_backward": {"idxs": ("-1", "P-1")},
    "rasterize_meshes": {"mesh_to_face_first_idx": ("run", "num_faces_per_mesh", "F"), "num_faces_per_mesh": ("0", "F"), "clipped_faces_neighbor_idx": ("-1", "F-1")},
    "_rasterize_meshes_naive": {"mesh_to_face_first_idx": ("run", "num_faces_per_mesh", "F"), "num_faces_per_mesh": ("0", "F"), "clipped_faces_neighbor_idx": ("-1", "F-1")},
    "rasterize_meshes_backward": {"pix_to_face": ("-1", "F-1")},
    "sigmoid_alpha_blend": {"pix_to_face": ("-1", None)},
    "sigmoid_alpha_blend_backward": {"pix_to_face": ("-1", None)},
    "point_edge_dist_forward": {"points_first_idx": ("first", "P", None), "segms_first_idx": ("first", "S", None)},
    "edge_point_dist_forward": {"points_first_idx": ("first", "P", None), "segms_first_idx": ("first", "S", None)},
    "point_face_dist_forward": {"points_first_idx": ("first", "P", None), "tris_first_idx": ("first", "T", None)},
    "face_point_dist_forward": {"points_first_idx": ("first", "P", None), "tris_first_idx": ("first", "T", None)},
    "point_edge_dist_backward": {"idx_points": ("0", "S-1")},
    "edge_point_dist_backward": {"idx_segms": ("0", "P-1")},
    "point_face_dist_backward": {"idx_points": ("0", "T-1")},
    "face_point_dist_backward": {"idx_tris": ("0", "P-1")},
}
for _n in ("weightedsumnorm", "weightedsum", "alphacomposite"):
    ELEMS["accum_" + _n] = ELEMS["accum_" + _n + "_backward"] = {"points_idx": ("-1", "P-1")}
# relations between sizes a well formed call satisfies
SIZES = {"sample_pdf": ["Np-M-1"], "knn_points_idx": ["$K-1"], "knn_points_backward": ["K-1"], "sample_farthest_points": ["$max_K_known-1"]}
POSITIVE = ("H", "W", "$points_per_pixel", "$faces_per_pixel")


def poly(s):
    """a linear expression like P-1, 2*A, $K"""
    out = 0
    for t in re.findall(r"[+-]?[^+-]+", s):
        t = t.strip()
        n = -1 if t.startswith("-") else 1
        t = t.lstrip("+-")
        v = int(t) if t.isdigit() else sym(t)
        out = add(out, mul(n, v))
    return out


# operators with results made by empty whose complete initialisation is not decided
UNPROVEN = {"mesh_normal_consistency_find_verts"}
INTS = {"int", "int64_t", "int32_t", "uint32_t", "size_t", "std::size_t", "long", "unsigned", "short", "uint8_t", "uint64_t", "auto", "char", "bool", "unsigned int"}
MAXP = 48


class Bounds:
    def __init__(self, prog, name, spec):
        self.prog, self.name, self.spec = prog, name, spec
        self.ob = {}            # (where, text) -> worst outcome so far
        self.k = 0
        self.depth = 0
        self.vague = set()      # atoms whose values are not known to be all possible
        self.quiet = 0
        self.elem = {}          # atom -> (tensor name, index tuple)
        self.memo = {}
        self.cache = {}
        self.work = 0
        self.nest, self.trip, self.row, self.spawned, self.tails, self.writes, self.tensors, self.ranges = [], None, None, [], [], {}, {}, {}
        self.contract = ELEMS.get(name, {})
        self.unread = 0
        self.soft, self.lens = set(), set()
        self.called = set()

    def fresh(self, tag="v", vague=False):
        self.k += 1
        n = f"~{tag}{self.k}"
        if vague:
            self.vague.add(n)
        return sym(n)

    def length(self):
        v = self.fresh("s", True)
        self.lens |= set(atoms(v))
        return v

    # ---- entailment
    def base(self, p, goal_atoms):
        out = [lin(r) for r in p.rel]
        return out

    def rels(self, p, extra, goal):
        rs = [lin(r) for r in p.rel] + [lin(r) for r in extra]
        ats = set()
        for r in rs + [goal]:
            for m in r:
                ats |= set(m)
        for a in ats:
            if not a.startswith("~"):
                rs.append({(a,): 1} if a not in POSITIVE else {(a,): 1, ONE: -1})
        rs += [lin(x) for x in self.contracts(p, ats)]
        return rs

    def contracts(self, p, ats):
        """relations between elements of index tensors"""
        out = []
        el = [(a, *self.elem[a]) for a in sorted(ats) if a in self.elem]
        for a, t, ix in el:
            c = self.contract.get(t)
            if c is None:
                continue
            if c[0] == "run":
                for b, u, jx in el:
                    if u == c[1] and self.same(ix, jx):
                        out.append(sub(poly(c[2]), add(sym(a), sym(b))))
            elif c[0] == "below":
                for b, u, jx in el:
                    if u == c[1] and self.same(ix, jx):
                        out.append(sub(sub(sym(b), sym(a)), 1))
            elif c[0] == "first" and len(ix) == 1:
                for b, u, jx in el:
                    if u == t and a != b and num(ix[0]) and num(jx[0]):
                        d = sub(jx[0], ix[0])
                        if d == 1:
                            out.append(sub(sym(b), sym(a)))
                            if c[2]:
                                out.append(sub(poly(c[2]), sub(sym(b), sym(a))))
        return out

    def same(self, a, b):
        return len(a) == len(b) and all(num(x) and num(y) and x == y for x, y in zip(a, b))

    def proves(self, p, goal, extra=(), depth=3):
        """goal >= 0 on every point of the path"""
        if isinstance(goal, int):
            if goal >= 0:
                return True
        key = (goal, tuple(p.rel), tuple(extra), tuple(id(x) for x in p.alts), depth)
        if key in self.cache:
            return self.cache[key]
        r = self.proves1(p, goal, list(extra), depth)
        self.cache[key] = r
        return r

    def proves1(self, p, goal, extra, depth):
        self.work += 1
        if self.work > 60000:
            return False
        ng = lin(sub(-1, goal))
        rs = self.rels(p, extra, ng)
        near = connected(rs, {a for m in ng for a in m} | {a for x in extra for a in atoms(x)})
        near = self.products(near, ng)
        if infeasible(near + [ng]) is True:
            return True
        if depth <= 0:
            return False
        ats = {a for r in near for m in r for a in m} | {a for m in ng for a in m}
        for i, alt in enumerate(p.alts):
            if not any(atoms(x) & ats for c in alt for x in c):
                continue
            q = p.copy()
            q.alts = p.alts[:i] + p.alts[i + 1:]
            if all(self.proves(q, goal, tuple(extra) + tuple(c), depth - 1) for c in alt):
                return True
            # one successful split is enough; otherwise further alternatives are tried below it
        return False

    def products(self, rs, goal):
        """relations multiplied by non negative quantities, for goals with products"""
        want = {m for m in goal if len(m) > 1}
        if not want:
            want = {m for r in rs for m in r if len(m) > 1}
        if not want:
            return rs
        pos = {next(iter(m for m in r if m != ONE))[0] for r in rs if len([m for m in r if m != ONE]) == 1 and all(len(m) < 2 and c > 0 or m == ONE and c <= 0 for m, c in r.items())}
        out = list(rs)
        seen = {frozenset(r.items()) for r in rs}
        deg = max(len(m) for m in want)
        for rnd in range(deg - 1):
            new = []
            for a in sorted({a for m in want for a in m} & pos):
                for r in out:
                    if r.keys() == {(a,)} or max((len(q) for q in r), default=0) >= deg:
                        continue
                    d = {tuple(sorted(q + (a,))): c for q, c in r.items()}
                    if not any(q in want for q in d) and not rnd < deg - 2:
                        continue
                    k = frozenset(d.items())
                    if k not in seen and len(out) + len(new) < 220:
                        seen.add(k)
                        new.append(d)
            out += new
        return out

    def feasible(self, p):
        rs = self.rels(p, (), {})
        return infeasible(self.products(rs, {})) is not True

    # ---- witnesses
    def witness(self, p, goals, lower=False, every=True):
        """small sizes satisfying the path on which all goals (>= 0) hold; None when none was found"""
        base = [lin(r) for r in p.rel] + [lin(g) for g in goals]
        gat = {a for g in goals for a in atoms(g)}
        for combo in itertools.islice(itertools.product(*[range(len(a)) for a in p.alts]), 64):
            rs = base + [lin(x) for a, i in zip(p.alts, combo) for x in a[i]]
            ats = {a for r in rs for m in r for a in m}
            fake = Path(rel=())
            rs2 = rs + [lin(x) for x in self.contracts(fake, ats)]
            for a in sorted(ats):
                if not a.startswith("~"):
                    rs2.append({(a,): 1} if a not in POSITIVE else {(a,): 1, ONE: -1})
            if infeasible(rs2) is True:
                continue
            near = connected(rs2, gat)
            ne = [lin(x) for x in p.ne]
            w = self.solve(near, ne)
            if w is not None:
                if any(a in p.vague for a in w) or lower and any(a in self.soft for a in w):
                    return "vague"
                free = [a for a in w if a in self.vague]
                if free:            # any value of it has to do
                    if len(free) > 1 or not every or free[0] not in self.lens:
                        return "vague"
                    for k in (1, 2, 5):
                        w2 = self.solve(near + [{(free[0],): 1, ONE: -k}, {(free[0],): -1, ONE: k}], ne)
                        if w2 is None:
                            return "vague"
                    return w2
                return w
        return None

    def solve(self, rs, ne):
        rs = [dict(r) for r in rs if any(m != ONE for m in r) or r.get(ONE, 0) < 0]
        if any(not any(m != ONE for m in r) for r in rs):
            return None
        ats = sorted({a for r in rs for m in r for a in m})
        if len(ats) > 40:
            return None
        budget = [4000]

        def simp(rs, a, v):
            out = []
            for r in rs:
                if not any(a in m for m in r):
                    out.append(r)
                    continue
                d = {}
                for m, c in r.items():
                    k = m.count(a)
                    m2 = tuple(x for x in m if x != a) if k else m
                    d[m2] = d.get(m2, 0) + c * v ** k
                d = {m: c for m, c in d.items() if c}
                if not any(m != ONE for m in d):
                    if d.get(ONE, 0) < 0:
                        return None
                    continue
                out.append(d)
            return out

        def rng(rs, a):
            lo, hi = None, None
            for r in rs:
                if set(r) <= {(a,), ONE} and (a,) in r:
                    c, k = r[(a,)], r.get(ONE, 0)
                    if c > 0:
                        b = -(k // c)
                        b = (-k + c - 1) // c
                        lo = b if lo is None or b > lo else lo
                    else:
                        b = k // (-c)
                        hi = b if hi is None or b < hi else hi
            return lo, hi

        def go(rs, asg):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            left = {a for r in rs for m in r for a in m}
            if not left:
                for n in ne:
                    v = 0
                    for m, c in n.items():
                        t = c
                        for x in m:
                            if x not in asg:
                                t = None
                                break
                            t *= asg[x]
                        if t is None:
                            v = None
                            break
                        v += t
                    if v == 0:
                        return None
                return dict(asg)
            # the atom with the smallest range first
            best = None
            for a in sorted(left):
                lo, hi = rng(rs, a)
                w = (hi - lo) if lo is not None and hi is not None else 50 if lo is not None or hi is not None else 100
                if w < 0:
                    return None
                if best is None or w < best[0]:
                    best = (w, a, lo, hi)
            w, a, lo, hi = best
            if lo is None and hi is None:
                vals = (0, 1, 2, -1, 3, 4, 5)
            elif lo is None:
                vals = range(hi, hi - 6, -1)
            elif hi is None:
                vals = range(lo, lo + 7)
            else:
                vals = range(lo, min(hi, lo + 8) + 1)
            for v in vals:
                r2 = simp(rs, a, v)
                if r2 is None:
                    continue
                if infeasible(r2, 200) is True:
                    continue
                x = go(r2, {**asg, a: v})
                if x is not None:
                    return x
                if budget[0] < 0:
                    return None
            return None

        return go(rs, {})

    # ---- obligations
    def require(self, p, where, what, i, size, known=True):
        """0 <= i < size"""
        if self.quiet:
            return
        if self.row is not None and num(i) and p.env.get(self.row[0]) == i:
            self.row[1].add(size)
        key = (where, what)
        old = self.ob.get(key)
        if old is not None and old[0] == "bad":
            return
        if not num(i) or not num(size):
            self.ob[key] = ("unknown", None)
            return
        if self.proves(p, i) and self.proves(p, sub(sub(size, 1), i)):
            if old is None:
                self.ob[key] = ("ok", None)
            return
        for g, t in (([sub(-1, i)], f"index {i} can be negative"), ([sub(i, size)], f"index {i} can reach the size {size}")):
            w = self.witness(p, g, "negative" in t)
            if isinstance(w, dict):
                if self.feasible(p):
                    txt = ", ".join(f"{a.lstrip('~$')}={v}" for a, v in sorted(w.items()))
                    self.ob[key] = ("bad", f"{t} ({txt})")
                    return
        self.ob[key] = ("unknown", f"{i} of {size}")

    # ---- statements
    def run(self, f, args):
        p = Path()
        for x in SIZES.get(self.name, ()):
            p.rel.append(poly(x))
        for q, _ in self.call(f, args, p) or [(p, None)]:
            self.finish(q)
        self.covered()
        self.joined()

    def joined(self):
        """threads are waited for"""
        for fn in sorted(self.called):
            path, name = fn.split(":", 1)
            for g in self.prog.get(name, ()):
                if g.path == path and self.threads(g.body):
                    self.ob[(f"{path}:{g.line}", f"{name} waits for the threads it starts")] = ("ok", None) if self.calls(g.body, "join") else ("bad", "the threads still write to the results when it returns")

    def threads(self, x):
        if isinstance(x, tuple):
            if x and x[0] == "decl":
                return any(re.match(r"std::(vector\s*<\s*std::thread|thread)", d[0]) for d in x[1])
            return any(self.threads(y) for y in x)
        return isinstance(x, list) and any(self.threads(y) for y in x)

    def calls(self, x, m):
        if isinstance(x, tuple):
            return len(x) > 2 and x[0] == "member" and x[2] == m or any(self.calls(y, m) for y in x)
        return isinstance(x, list) and any(self.calls(y, m) for y in x)

    def call(self, f, args, p, targs=()):
        """list of (path, value)"""
        self.called.add(f"{f.path}:{f.name}")
        if self.depth > 10:
            return [(p, None)]
        env = {n: a for (n, _), a in zip(f.params, args) if n}
        for n, a in zip(f.tparams, targs):
            env[n] = a
        saved = p.env
        q = p.copy()
        q.env = env
        for k, v in saved.items():
            if k.startswith("#"):
                q.env[k] = v
        self.depth += 1
        try:
            rets = []
            live = self.block(f.body, [q], rets, f, None)
            out = [(x, v) for x, v in rets] + [(x, ("void",)) for x in live]
        finally:
            self.depth -= 1
        res = []
        for x, v in out:
            e = dict(saved)
            for k, y in x.env.items():
                if k.startswith("#"):
                    e[k] = y
            for (n, ty), a in zip(f.params, args):      # references to local variables are not followed back
                pass
            x.env = e
            res.append((x, v))
        return self.join(res)

    def join(self, res):
        if len(res) <= 1:
            return res
        out, seen = [], set()
        for x, v in res:
            k = (repr(v) if num(v) or isinstance(v, bool) else id(v) if v is not None else None, tuple(x.rel), len(x.alts), repr(sorted((a, b) for a, b in x.env.items() if num(b) or isinstance(b, bool))))
            if k in seen:
                continue
            seen.add(k)
            out.append((x, v))
        return out[:MAXP]

    def block(self, b, paths, rets, f, loop):
        for s in b:
            nxt = []
            for p in paths:
                nxt += self.st(s, p, rets, f, loop)
            paths = self.merge(nxt)
            if not paths:
                break
        return paths

    def merge(self, ps):
        """drops repeated paths; joins paths which differ only in relations"""
        if len(ps) <= 1:
            return ps
        groups = {}
        for p in ps:
            k = tuple(sorted((n, repr(v) if num(v) or isinstance(v, (bool, type(None), tuple)) else repr(v.key) if isinstance(v, Cnd) else str(id(v))) for n, v in p.env.items()))
            groups.setdefault(k, []).append(p)
        out = []
        for g in groups.values():
            p = g[0]
            if len(g) > 1:
                common = [r for r in p.rel if all(r in q.rel for q in g[1:])]
                alts = [a for a in p.alts if all(any(a is b for b in q.alts) for q in g[1:])]
                ne = [r for r in p.ne if all(r in q.ne for q in g[1:])]
                q = Path(p.env, common, alts, ne, frozenset().union(*[x.vague for x in g]))
                rest = [[r for r in x.rel if r not in common] for x in g]
                if all(rest) and len(g) <= 4:
                    q.alts.append(rest)
                p = q
            out.append(p)
        if len(out) > MAXP:
            self.unread += 1
            out = out[:MAXP]
        return out

    def st(self, s, p, rets, f, loop):
        k = s[0]
        self.where = f"{f.path}:{s[-1]}"
        try:
            if k == "decl":
                for ty, names, ref, init in s[1]:
                    self.decl(ty, names, init, p, f)
                return [p]
            if k == "expr":
                return self.exprst(s[1], p, f)
            if k == "block":
                return self.block(s[1], [p], rets, f, loop)
            if k == "if":
                out = []
                self.segment(s, p, f)
                self.nest.append(("if", s, None))
                before, new, live = p.vague, set(), set()
                for q, t in self.test(s[1], p, f):
                    new |= q.vague - before
                    if t:
                        res = self.st(s[2], q, rets, f, loop)
                    else:
                        res = self.st(s[3], q, rets, f, loop) if s[3] is not None else [q]
                    if res:
                        live.add(t)
                    out += res
                self.nest.pop()
                if new and len(live) == 2:
                    for q in out:
                        q.vague -= new
                return out
            if k in ("for", "while", "forr", "switch"):
                return self.loop(s, p, rets, f)
            if k == "return":
                if s[1] is None:
                    rets.append((p, ("void",)))
                elif s[1][0] == "bin" and s[1][1] in ("&&", "||", "<", ">", "<=", ">=", "==", "!=") or s[1][0] == "un" and s[1][1] == "!":
                    for q, t in self.test(s[1], p, f):
                        rets.append((q, t))
                else:
                    rets.append((p, self.ev(s[1], p, f)))
                return []
            if k == "break":
                if loop is not None:
                    loop["break"].append(p)
                return []
            if k == "continue":
                if loop is not None:
                    loop["cont"].append(p)
                return []
            if k == "mess":
                self.unread += 1
                for n in s[1]:
                    if n in p.env and num(p.env[n]):
                        p.env[n] = self.fresh("m", True)
                return [p]
            return [p]
        except Stop:
            return []

    def decl(self, ty, names, init, p, f):
        if init is None:
            for n in names:
                p.env[n] = None
                self.vecdecl(ty, n, None, p, f)
            return
        if init[0] == "call" and init[1][0] == "id" and init[1][1].startswith("ctor:") or init[0] == "init":
            args = init[2] if init[0] == "call" else init[1]
            if self.vecdecl(ty, names[0], args, p, f):
                return
            if len(args) == 1 and ty.replace("const", "").strip() in INTS:
                p.env[names[0]] = self.asint(self.ev(args[0], p, f), ty, p)
                return
            for a in args:
                self.ev(a, p, f)
            p.env[names[0]] = None
            return
        v = self.ev(init, p, f)
        if len(names) > 1:
            for i, n in enumerate(names):
                p.env[n] = v[1][i] if isinstance(v, tuple) and v[0] == "tup" and len(v[1]) == len(names) else None
            return
        p.env[names[0]] = self.keep(names[0], self.asint(v, ty, p), init, p)

    def asint(self, v, ty, p):
        base = ty.replace("const", "").replace("&", "").strip()
        if base in ("bool",):
            return v
        if num(v) and base in INTS and base != "auto":
            return self.trunc(v, p)
        return v

    def trunc(self, v, p):
        """conversion of a (possibly floating) number to an integer"""
        if isinstance(v, int) or not any(a.startswith("~f") for a in atoms(v)):
            return v
        key = ("trunc", v)
        if key not in self.memo:
            self.memo[key] = self.fresh("t")
        return self.memo[key]

    def vecdecl(self, ty, n, args, p, f):
        m = re.match(r"(?:const )?std::(vector|deque|priority_queue|array)\b", ty)
        if not m:
            return False
        v = Vec(n)
        p.env[n] = v
        size = 0
        if m.group(1) == "array":
            q = re.search(r", (\w+) >", ty)
            size = int(q.group(1)) if q and q.group(1).isdigit() else p.env.get(q.group(1)) if q else None
        elif args and args[0][0] != "init":
            size = self.ev(args[0], p, f)
            if len(args) > 1:
                self.ev(args[1], p, f)
        elif args:
            size = None
        p.env["#" + n] = size
        return True

    def exprst(self, e, p, f):
        """an expression statement; branches of conditions inside calls are followed"""
        if e[0] == "call" and e[1][0] == "id":
            sh = e[1][1].split("::")[-1]
            if sh in ("TORCH_CHECK", "AT_ASSERTM", "AT_ASSERT", "TORCH_INTERNAL_ASSERT", "TORCH_CHECK_ARG") and e[2]:
                return [q for q, t in self.test(e[2][0], p, f) if t]
            if sh in ("AT_ERROR", "TORCH_CHECK_NOT_IMPLEMENTED"):
                return []
            g = self.callee(e, p, f)
            if g is not None:
                return [q for q, v in g(p)]
        self.ev(e, p, f)
        return [p]

    # ---- conditions
    def test(self, e, p, f):
        """[(path, truth)]"""
        k = e[0]
        if k == "bin" and e[1] in ("&&", "||"):
            out = []
            for q, t in self.test(e[2], p, f):
                if t == (e[1] == "||"):
                    out.append((q, t))
                else:
                    out += self.test(e[3], q, f)
            return out
        if k == "un" and e[1] == "!":
            return [(q, not t) for q, t in self.test(e[2], p, f)]
        if k == "call" and e[1][0] == "id":
            g = self.callee(e, p, f)
            if g is not None:
                out = []
                for q, v in g(p):
                    out += self.truth(v, q)
                return out
        v = self.ev(e, p, f)
        out = self.truth(v, p)
        if not isinstance(v, (bool, int, Cnd)) and not (isinstance(v, Cmp) and num(v.a) and num(v.b)):
            t = self.taint(e, p)
            for q, _ in out:
                q.vague |= t
        return out

    def taint(self, e, p):
        """sizes and indices an expression of unknown value is computed from"""
        out = set()
        for n in self.names(e):
            v = p.env.get(n)
            if num(v):
                out |= {a for a in atoms(v) if not a.startswith("~f")}
            elif isinstance(v, Cnd):
                out |= self.taint(v.expr, Path(v.env))
            out |= set(p.env.get("?" + n) or ())
        return frozenset(out)

    def keep(self, n, v, e, p):
        """the value of a variable, conditions are kept"""
        if v is None:
            if e[0] == "bin" and e[1] in ("&&", "||", "<", ">", "<=", ">=", "==", "!=") or e[0] == "un" and e[1] == "!" or e[0] == "call":
                if e[0] != "call":
                    v = Cnd(e, {k: x for k, x in p.env.items() if not isinstance(x, Cnd) or True}, self.names(e))
            t = self.taint(e, p)
            if t:
                p.env["?" + n] = tuple(sorted(t))
            else:
                p.env.pop("?" + n, None)
        else:
            p.env.pop("?" + n, None)
        return v

    def truth(self, v, p):
        if isinstance(v, Cnd):
            saved, p2 = p.env, p.copy()
            p2.env = dict(v.env)
            self.quiet += 1
            try:
                out = self.test(v.expr, p2, None)
            finally:
                self.quiet -= 1
            for q, _ in out:
                q.env = dict(saved)
            return out
        if isinstance(v, bool):
            return [(p, v)]
        if isinstance(v, int):
            return [(p, v != 0)]
        if isinstance(v, Cmp) and num(v.a) and num(v.b):
            d = sub(v.b, v.a)             # b - a
            op = v.op
            out = []
            for t in (True, False):
                o = op if t else {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
                q = p.copy()
                if o == "<":
                    q.rel.append(sub(d, 1))
                elif o == "<=":
                    q.rel.append(d)
                elif o == ">":
                    q.rel.append(sub(neg(d), 1))
                elif o == ">=":
                    q.rel.append(neg(d))
                elif o == "==":
                    q.rel += [d, neg(d)]
                else:
                    if self.proves(p, d):
                        q.rel.append(sub(d, 1))
                    elif self.proves(p, neg(d)):
                        q.rel.append(sub(neg(d), 1))
                    else:
                        q.ne.append(d)
                if q.rel and infeasible(connected(self.rels(q, (), lin(d)), atoms(d))) is not True:
                    out.append((q, t))
                elif not q.rel:
                    out.append((q, t))
            return out
        return [(p.copy(), True), (p, False)]

    # ---- loops
    def modified(self, x):
        """{name: [kinds]} changed in a piece of syntax"""
        out = {}

        def go(y):
            if isinstance(y, tuple):
                if len(y) > 2 and y[0] == "assign":
                    l = y[2]
                    if l[0] == "id":
                        out.setdefault(l[1], []).append(("=" if y[1] == "=" else y[1], y[3]))
                    elif l[0] == "call" and l[1][0] == "id" and l[1][1] in ("std::tie", "tie"):
                        for z in l[2]:
                            if z[0] == "id":
                                out.setdefault(z[1], []).append(("=", None))
                elif len(y) > 2 and y[0] == "un" and y[1] in ("++", "--", "post++", "post--") and y[2][0] == "id":
                    out.setdefault(y[2][1], []).append(("+=" if "++" in y[1] else "-=", ("num", "1")))
                elif len(y) > 2 and y[0] == "un" and y[1] == "&" and y[2][0] == "id":
                    out.setdefault(y[2][1], []).append(("=", None))
                elif len(y) > 2 and y[0] == "call" and y[1][0] == "member" and y[1][1][0] == "id" and y[1][2] in ("emplace", "emplace_back", "push", "push_back", "pop", "pop_back", "pop_front", "push_front",
                                                                                                                      "resize", "clear", "insert", "erase"):
                    out.setdefault("#" + y[1][1][1], []).append((y[1][2], None))
                for z in y:
                    go(z)
            elif isinstance(y, list):
                for z in y:
                    go(z)
        go(x)
        return out

    def declared(self, x):
        out = set()

        def go(y):
            if isinstance(y, tuple):
                if y and y[0] == "decl":
                    for d in y[1]:
                        out.update(d[1])
                        out.update("#" + n for n in d[1])
                for z in y:
                    go(z)
            elif isinstance(y, list):
                for z in y:
                    go(z)
        go(x)
        return out

    def loop(self, s, p, rets, f):
        k = s[0]
        if k == "switch":
            out = self.st(s[2], p.copy(), rets, f, {"break": [], "cont": []})
            return self.merge(out + [p])
        if k == "forr":
            names = s[1][1]
            p = p.copy()
            mod = self.modified(s[3])
            for n in mod:
                if n in p.env:
                    p.env[n] = self.fresh("h", True) if num(p.env[n]) else p.env[n]
            q = p.copy()
            for n in names:
                q.env[n] = None
            self.st(s[3], q, rets, f, {"break": [], "cont": []})
            return [p]
        if k == "for":
            ini, cond, inc, body = s[1], s[2], s[3], s[4]
        else:
            ini, cond, inc, body = None, s[1], None, s[2]
        scope = {}
        if ini is not None and ini[0] != "nop":
            if ini[0] == "decl":
                scope = {n: p.env.get(n) for d in ini[1] for n in d[1]}
            p = (self.st(ini + (s[-1],), p, rets, f, None) or [p])[0]
        local = self.declared(body)
        mod = {n: v for n, v in self.modified([body, inc, cond]).items() if n in p.env and n not in (local - set(scope))}
        mod = {n: v for n, v in mod.items() if num(p.env[n]) or isinstance(p.env[n], Ptr) or n.startswith("#") or p.env[n] is None}
        init = {n: p.env[n] for n in mod}
        t = self.fresh("i")
        steps, loose = self.steps(mod, inc, body, p, f)
        loose = [n for n in loose]
        unit = {n for n in loose if num(init[n]) and all(o == "+=" and e == ("num", "1") for o, e in mod[n]) and not self.guards(body, n) & set(mod)}

        def at(q, trip, inv):
            """the state at the start of iteration `trip`"""
            for n, c in steps.items():
                v = init[n]
                q.env[n] = Ptr(v.t, add(v.off, mul(c, trip)) if num(v.off) else None) if isinstance(v, Ptr) else add(v, mul(c, trip))
                if n.startswith("#"):
                    q.rel.append(q.env[n])
            for n in loose:
                if isinstance(init[n], Ptr):
                    q.env[n] = Ptr(init[n].t, self.fresh("p", True))
                elif num(init[n]) or n.startswith("#"):
                    v = self.fresh("u", n not in unit)
                    q.env[n] = v
                    if n.startswith("#"):
                        self.lens |= set(atoms(v))
                    if n.startswith("#"):
                        q.rel.append(v)
                    if n in unit:
                        q.rel += [sub(v, init[n]), sub(add(init[n], trip), v)]
                    for g in inv.get(n, ()):
                        q.rel.append(sub(g, v))
                        self.vague.discard(next(iter(atoms(v))))
                        if n.startswith("#"):
                            self.soft.add(next(iter(atoms(v))))
                    if n in inv.get("lower", ()):
                        q.rel.append(sub(v, init[n]))
                    if n in inv.get("zero", ()):
                        q.rel.append(v)
                elif n in q.env:
                    q.env[n] = None
            q.rel.append(trip)
            return q

        inv = {}
        cands = [n for n in loose if (num(init[n]) and n not in unit or n.startswith("#") and num(init.get(n)))]
        if cands and self.depth + 1:
            inv = self.invariants(cands, mod, init, at, cond, body, inc, p, f)
        # pointers advanced by inner loops
        for n in [n for n in loose if isinstance(init[n], Ptr) and num(init[n].off)]:
            c = self.probe(n, at, inv, cond, body, inc, p, f)
            if c is not None:
                steps[n] = c
                loose.remove(n)
        for n in [n for n in loose if n.startswith("#") and num(init[n])]:
            c = self.probe(n, at, inv, cond, body, inc, p, f)
            if c is not None:
                steps[n] = c
                loose.remove(n)
        # an arbitrary iteration
        q = at(p.copy(), t, inv)
        brk = []
        ctx = {"break": brk, "cont": []}
        hi = self.tripcount(cond, inc, steps, init, p, f, brk, body)
        for r, tr in (self.test(cond, q, f) if cond is not None else [(q, True)]):
            if tr:
                if num(hi) and not isinstance(hi, int):
                    r.rel.append(sub(sub(hi, t), 1))
                self.nest.append((k, s, (t, hi, self.rowname(cond))))
                old, self.trip = self.trip, t
                live = self.st(body, r, rets, f, ctx)
                self.nest.pop()
                self.trip = old
                for x in self.merge(live + ctx["cont"]):
                    if inc is not None:
                        self.where = f"{f.path}:{s[-1]}"
                        self.ev(inc, x, f)
                ctx["cont"] = []
        # behind the loop
        out = p.copy()
        leaves = self.hasbreak(body)
        if hi is not None and not leaves:
            out = at(out, hi, inv)
            out.rel.pop() if isinstance(hi, int) else None
        else:
            t2 = self.fresh("j")
            out = at(out, t2, inv)
            if cond is not None and not leaves:
                q0 = [x for x, tr in self.test(cond, out, f) if not tr]
                out = q0[0] if len(q0) == 1 else out
                prev = at(p.copy(), sub(t2, 1), inv)
                self.quiet += 1
                ok = [x for x, tr in self.test(cond, prev, f) if tr]
                self.quiet -= 1
                if len(ok) == 1 and not loose:
                    new = [r for r in ok[0].rel if r not in p.rel]
                    out.alts.append([[neg(t2), t2], new])
        for n in scope:
            if scope[n] is None:
                out.env.pop(n, None)
            else:
                out.env[n] = scope[n]
        for n in local:
            if n in out.env and n not in p.env:
                out.env.pop(n)
        if not self.quiet and self.spawned and self.spawned[-1][0] is s:
            self.partition(s, hi, p, out)
        return [out]

    def hasbreak(self, body):
        def go(y, inner):
            if isinstance(y, tuple):
                if y and y[0] == "break":
                    return not inner
                if y and y[0] == "return" and len(y) >= 2:
                    return True
                nest = inner or bool(y) and y[0] in ("for", "while", "forr", "switch")
                return any(go(z, nest) for z in y)
            if isinstance(y, list):
                return any(go(z, inner) for z in y)
            return False
        return go(body, False)

    def steps(self, mod, inc, body, p, f):
        """({name: constant step per iteration}, [other names])"""
        top = body[1] if body[0] == "block" else [body]
        st, loose = {}, []
        cont = self.has(body, "continue")
        for n, ops in mod.items():
            v = p.env.get(n)
            if not (num(v) or isinstance(v, Ptr)) or n.startswith("#") or len(ops) != 1 or ops[0][0] not in ("+=", "-="):
                loose.append(n)
                continue
            direct = inc is not None and n in self.modified(inc) or not cont and any(x[0] == "expr" and n in self.modified(x[1]) and not self.inside(x[1]) for x in top)
            if not direct:
                loose.append(n)
                continue
            e = ops[0][1]
            names = self.names(e)
            if names & set(mod):
                loose.append(n)
                continue
            self.quiet += 1
            c = self.ev(e, p, f)
            self.quiet -= 1
            if not num(c) or any(a.startswith("~f") for a in atoms(c)):
                loose.append(n)
                continue
            st[n] = c if ops[0][0] == "+=" else neg(c)
        return st, loose

    def guards(self, x, n):
        """names in the conditions under which n is changed"""
        out = set()

        def go(y, conds):
            if isinstance(y, tuple):
                if y and y[0] in ("if", "while") and len(y) > 2:
                    c = conds | self.names(y[1])
                    for z in y[2:]:
                        go(z, c)
                    return
                if y and y[0] == "for":
                    c = conds | self.names(y[2])
                    for z in y[3:]:
                        go(z, c)
                    return
                if len(y) > 2 and y[0] in ("un", "assign") and y[2] == ("id", n, ()) or len(y) > 2 and y[0] in ("un", "assign") and y[2][:2] == ("id", n):
                    out.update(conds)
                for z in y:
                    go(z, conds)
            elif isinstance(y, list):
                for z in y:
                    go(z, conds)
        go(x, frozenset())
        return out - {n}

    def inside(self, e):
        return e[0] in ("tern",) or e[0] == "bin" and e[1] in ("&&", "||")

    def has(self, x, kind):
        if isinstance(x, tuple):
            return bool(x) and x[0] == kind or any(self.has(y, kind) for y in x)
        if isinstance(x, list):
            return any(self.has(y, kind) for y in x)
        return False

    def names(self, e):
        out = set()

        def go(y):
            if isinstance(y, tuple):
                if len(y) > 1 and y[0] == "id":
                    out.add(y[1])
                for z in y:
                    go(z)
            elif isinstance(y, list):
                for z in y:
                    go(z)
        go(e)
        return out

    def tripcount(self, cond, inc, steps, init, p, f, brk, body):
        """number of iterations of `for (i = a; i < b; ++i)` with an unchanged b and no way out"""
        if cond is None or cond[0] != "bin" or cond[1] not in ("<", "<=", "!=") or cond[2][0] != "id" or cond[2][1] not in steps or steps[cond[2][1]] != 1:
            return None
        if self.names(cond[3]) & (set(init)):
            return None
        self.quiet += 1
        b = self.ev(cond[3], p, f)
        self.quiet -= 1
        a = init[cond[2][1]]
        if not num(a) or not num(b):
            return None
        n = sub(b, a) if cond[1] != "<=" else add(sub(b, a), 1)
        return n if self.proves(p, n) else None

    def once(self, at, inv, cond, body, inc, p, f, quiet=True):
        """states at the end of one arbitrary iteration: [(start, end)]"""
        self.quiet += 1
        try:
            q = at(p.copy(), self.fresh("i"), inv)
            start = dict(q.env)
            out = []
            ctx = {"break": [], "cont": []}
            for r, tr in (self.test(cond, q, f) if cond is not None else [(q, True)]):
                if tr:
                    live = self.st(body, r, [], f, ctx)
                    for x in live + ctx["cont"]:
                        if inc is not None:
                            self.ev(inc, x, f)
                        out.append((start, x))
                    ctx["cont"] = []
            return out
        finally:
            self.quiet -= 1

    def invariants(self, cands, mod, init, at, cond, body, inc, p, f):
        """upper bounds (and the initial value as a lower bound) kept by an iteration"""
        fixed = []
        for n, v in p.env.items():
            if num(v) and n not in mod and v not in fixed and not isinstance(v, bool) and not any(q.startswith("~f") for q in atoms(v)) and len(fixed) < 14:
                fixed.append(v)
        def limits(y):
            if isinstance(y, tuple):
                if len(y) > 3 and y[0] == "bin" and y[1] in ("<", ">", "<=", ">=", "==", "!="):
                    for z in (y[2], y[3]):
                        if z[0] in ("bin", "un", "cast") and self.names(z) and not self.names(z) & set(mod) and not self.has(z, "call") and all(num(p.env.get(n)) for n in self.names(z)):
                            self.quiet += 1
                            v = self.asnum(self.ev(z, p, f))
                            self.quiet -= 1
                            if num(v) and v not in fixed and not any(q.startswith("~f") for q in atoms(v)) and len(fixed) < 20:
                                fixed.append(v)
                for z in y:
                    limits(z)
            elif isinstance(y, list):
                for z in y:
                    limits(z)
        limits([body, cond])
        inv = {}
        for n in cands:
            a = init[n]
            if not num(a):
                continue
            inv[n] = [w for v in reversed(fixed) for w in (v, sub(v, 1)) if self.proves(p, sub(w, a))][:12]
        low = inv["lower"] = {n for n in cands if num(init[n])}
        zero = inv["zero"] = {n for n in cands if num(init[n]) and self.proves(p, init[n])}
        for _ in range(4):
            ends = self.once(at, inv, cond, body, inc, p, f)
            changed = False
            for n in cands:
                if n not in inv:
                    continue
                keep = [g for g in inv[n] if all(num(x.env.get(n)) and self.proves(x, sub(g, x.env[n])) for _, x in ends)]
                if len(keep) != len(inv[n]):
                    inv[n], changed = keep, True
            for n in list(low):
                if not all(num(x.env.get(n)) and self.proves(x, sub(x.env[n], init[n])) for _, x in ends):
                    low.discard(n)
                    changed = True
            for n in list(zero):
                if not all(num(x.env.get(n)) and self.proves(x, x.env[n]) for _, x in ends):
                    zero.discard(n)
                    changed = True
            if not changed:
                return inv
        return {}

    def probe(self, n, at, inv, cond, body, inc, p, f):
        """the amount by which an iteration always advances a pointer"""
        ends = self.once(at, inv, cond, body, inc, p, f)
        c = None
        for st, x in ends:
            a, b = st.get(n), x.env.get(n)
            if n.startswith("#"):
                if not num(a) or not num(b):
                    return None
                d = sub(b, a)
            elif not (isinstance(a, Ptr) and isinstance(b, Ptr) and num(a.off) and num(b.off)):
                return None
            else:
                d = sub(b.off, a.off)
            if any(q.startswith("~") for q in atoms(d)) or c is not None and c != d:
                return None
            c = d
        return c

    # ---- threads
    def rowname(self, cond):
        return cond[2][1] if cond is not None and cond[0] == "bin" and cond[2][0] == "id" else None

    def rangeof(self, g):
        """positions of the two parameters that bound the outermost loop over a range in a worker"""
        ps = [n for n, _ in g.params]

        def go(y):
            if isinstance(y, tuple):
                if y and y[0] == "for" and y[1] and y[1][0] == "decl" and y[2] is not None and y[2][0] == "bin" and y[2][1] == "<":
                    d = y[1][1][0]
                    if d[3] is not None and d[3][0] == "id" and d[3][1] in ps and y[2][3][0] == "id" and y[2][3][1] in ps:
                        return ps.index(d[3][1]), ps.index(y[2][3][1]), d[1][0]
                for z in y:
                    r = go(z)
                    if r:
                        return r
            elif isinstance(y, list):
                for z in y:
                    r = go(z)
                    if r:
                        return r
            return None
        return go(g.body)

    def start(self, g, av, p):
        """a worker started in a thread, or its last part run by the caller"""
        r = self.rangeof(g)
        if r is None or self.quiet:
            return self.call(g, av, p.copy())
        old, here = self.row, self.where
        self.row = [r[2], set(), g]
        try:
            res = self.call(g, av, p.copy())
            self.where = here
            loop = next((x for x in reversed(self.nest) if x[0] in ("for", "while", "forr")), None)
            if loop is not None and loop[2] is not None:
                self.spawned.append((loop[1], self.where, g, av[r[0]], av[r[1]], p.copy(), loop[2][0], self.row[1]))
        finally:
            self.row = old
        return res

    def subst(self, e, t, v):
        a = next(iter(atoms(t)))
        out = 0
        for m, c in lin(e).items():
            x = c
            for q in m:
                x = mul(x, v if q == a else sym(q))
            out = add(out, x)
        return out

    def again(self, e, q, p, t, v, mark):
        """an expression of another iteration, with the relations that hold there"""
        ta = next(iter(atoms(t)))
        known = {a for r in p.rel for a in atoms(r)} | {a for x in p.alts for c in x for r in c for a in atoms(r)} | {a for y in p.env.values() if num(y) for a in atoms(y)}
        ren = {}

        def go(r):
            out = 0
            for m, c in lin(r).items():
                x = c
                for a in m:
                    if a == ta:
                        y = v
                    elif a.startswith("~") and a not in known:
                        y = ren.setdefault(a, sym(a + mark))
                    else:
                        y = sym(a)
                    x = mul(x, y)
                out = add(out, x)
            return out
        new = [go(r) for r in q.rel if r not in p.rel]
        new = [r for r in new if not isinstance(r, int) or r >= 0]
        alts = [[[go(r) for r in c] for c in x] for x in q.alts if not any(x is y for y in p.alts)]
        return go(e), (new, alts)

    def decide(self, p, where, what, extra, text):
        """the relations in extra never hold on the path"""
        key = (where, what)
        if self.ob.get(key, ("",))[0] == "bad":
            return
        if self.proves(p, -1, tuple(extra), 4):
            self.ob.setdefault(key, ("ok", None))
            return
        w = self.witness(p, extra)
        if isinstance(w, dict) and self.feasible(p):
            self.ob[key] = ("bad", text + " (" + ", ".join(f"{a.lstrip('~$')}={v}" for a, v in sorted(w.items())) + ")")
        else:
            self.ob[key] = ("unknown", text)

    def partition(self, s, hi, p, out):
        """ranges given to threads do not overlap and cover everything"""
        sp = [x for x in self.spawned if x[0] is s]
        self.spawned = [x for x in self.spawned if x[0] is not s]
        if len(sp) != 1:
            return
        _, where, g, a, b, q, t, sizes = sp[0]
        q0 = q.copy()
        if not num(a) or not num(b):
            return
        nxt, q2 = self.again(a, q, p, t, add(t, 1), "'")
        q.rel, q.alts = q.rel + q2[0], q.alts + q2[1]
        self.decide(q, where, f"{g.name}: ranges of threads are disjoint", [sub(sub(b, nxt), 1), sub(sub(b, a), 1)], "two threads are given the same rows")
        ends = list(sizes)
        if len(ends) != 1:
            return
        end = ends[0]
        self.decide(q, where, f"{g.name}: ranges of threads leave no gap", [sub(sub(nxt, b), 1), sub(sub(end, b), 1)], "rows between two threads are left out")
        first, q3 = self.again(a, q0, p, t, 0, "'")
        p = p.copy()
        r1 = p.copy()
        r1.rel, r1.alts = r1.rel + q3[0], r1.alts + q3[1]
        self.decide(r1, where, f"{g.name}: the first thread starts at row 0", [sub(first, 1)], "the first rows are left out")
        if hi is not None:
            last, q4 = self.again(a, q0, p, t, hi, "''")
            self.tails.append((where, g, last, end, q4))

    def tail(self, g, av, p):
        """the caller itself handles the rest of the rows"""
        r = self.rangeof(g)
        for x in self.tails:
            if x[1] is g and r is not None and num(av[r[0]]) and num(av[r[1]]):
                self.tails.remove(x)
                _, _, last, end, more = x
                where = self.where
                p = p.copy()
                p.rel, p.alts = p.rel + more[0], p.alts + more[1]
                self.decide(p, where, f"{g.name}: the rest starts where the threads end", [sub(sub(av[r[0]], last), 1), sub(sub(end, last), 1)], "rows behind the last thread are left out")
                self.decide(p, where, f"{g.name}: the rest does not repeat rows", [sub(sub(last, av[r[0]]), 1)], "rows of a thread are handled again")
                self.decide(p, where, f"{g.name}: the rest ends with the last row", [sub(sub(end, av[r[1]]), 1), sub(sub(end, last), 1)], "the last rows are left out")
                return

    def finish(self, p):
        for where, g, last, end, more in self.tails:
            p = p.copy()
            p.rel, p.alts = p.rel + more[0], p.alts + more[1]
            self.decide(p, where, f"{g.name}: the threads reach the last row", [sub(sub(end, last), 1)], "the last rows are left out")
        self.tails = []

    # ---- packed elements
    def segment(self, s, p, f):
        """`if (i == end) { ...; end = first[..]; }` does not get past an empty batch element"""
        c = s[1]
        if c[0] != "bin" or c[1] not in ("==", ">=") or c[2][0] != "id" or c[3][0] != "id" or self.quiet:
            return
        loops = [x for x in self.nest if x[0] == "for" and x[2][2] == c[2][1]]
        if not loops or self.nest[-1] is not loops[-1]:
            return
        for n, ops in self.modified(s[2]).items():
            if n == c[3][1] and any(e is not None and e[0] == "index" and e[1][0] == "id" and isinstance(p.env.get(e[1][1]), TV) and
                                    self.contract.get(p.env[e[1][1]].name, ("",))[0] == "first" for o, e in ops):
                self.ob[(self.where, f"{n} is advanced past empty batch elements")] = ("bad", f"{c[2][1]} is compared with the end of one batch element only: behind an empty one, "
                                                                                      "elements are attributed to the wrong batch element")

    # ---- written elements
    def wrote(self, l, p, op="="):
        """an assignment to an element of an accessor or pointer"""
        if self.quiet:
            return
        names, e = [], l
        while e[0] == "index":
            names.append(e[2])
            e = e[1]
        self.quiet += 1
        b = self.ev(e, p, None)
        ix = [self.asnum(self.ev(x, p, None)) for x in reversed(names)]
        self.quiet -= 1
        if isinstance(b, TV) and b.shape is not None and len(ix) == len(b.shape):
            key = getattr(b, "key", None)
            full = getattr(b, "ix", ()) + tuple(ix)
            if key is not None:
                self.writes.setdefault(key, []).append((self.where, [self.span(i) for i in full], self.conditional() or op != "=", p.copy()))

    def created(self, t, how):
        """a tensor made by the operator itself"""
        t.key = (self.where, len([k for k in self.tensors if k[0] == self.where]))
        self.tensors[t.key] = (t, how)
        return t

    def covered(self):
        """no element of a result stays unwritten"""
        self.gaps = {}          # number of the tensor -> [dimension -> "full", "gap", "unknown"]
        for n, (key, (t, how)) in enumerate(self.tensors.items()):
            ws = self.writes.get(key, ())
            if not ws or t.shape is None:
                continue
            self.gaps[n] = []
            for d, size in enumerate(t.shape):
                sp = [w[1][d] for w in ws]
                g = self.gap(sp, size, [w[3] for w in ws])
                self.gaps[n].append((key[0], g))
                k = (key[0], f"dimension {d} of the result is written from end to end")
                self.ob[k] = ("bad", "elements are never written " + show(g)) if isinstance(g, dict) else ("ok" if g == "full" else "unknown", None)
            if how == "empty":
                sure = [w for w in ws if not w[2]]
                k = (key[0], "every element of a tensor made by empty is written")
                if not sure:
                    self.ob[k] = ("bad", "the memory is not initialised and no write to it is made in every case")
                else:
                    g = [self.gap([w[1][d] for w in sure], size, [w[3] for w in sure]) for d, size in enumerate(t.shape)]
                    bad = [x for x in g if isinstance(x, dict)]
                    self.ob[k] = ("bad", "elements are not initialised " + show(bad[0])) if bad else ("ok", None) if all(x == "full" for x in g) else ("unknown", None)
                    if self.ob[k][0] == "unknown" and self.name not in UNPROVEN:
                        self.ob[k] = ("bad", "the memory is not initialised and the writes to it depend on the data")

    def gap(self, sp, size, ps):
        """is there an index below size outside all the spans"""
        if not num(size):
            return "unknown"
        us = [(x, q) for x, q in zip(sp, ps) if x is not None and not any(a.startswith("~") and a not in atoms(size) for y in x for a in atoms(y))]
        some = len(us) < len(sp)
        first, us2 = {}, []
        for x, q in us:
            k = repr(x)
            if k not in first:
                first[k] = q
                us2.append((x, q))
        if not us2 or len(us2) > 6:
            return "unknown"
        sp, ps = [x for x, _ in us2], [q for _, q in us2]
        x = sym("~x")
        found = None
        for p in ps:
            hit = None
            for c in range(2 ** len(sp)):
                goal = [x, sub(sub(size, 1), x)]
                for k, (lo, hi) in enumerate(sp):
                    goal.append(sub(sub(lo, x), 1) if c >> k & 1 else sub(sub(x, hi), 1))
                if self.proves(p, -1, tuple(goal), 2):
                    continue
                w = self.witness(p, goal) if not some else None
                if not isinstance(w, dict):
                    return "unknown"
                hit = w
            if hit is None:
                return "full"
            found = found or hit
        return found

    def span(self, i):
        """(first, last) of an index that runs with one loop"""
        if not num(i):
            return None
        if isinstance(i, int):
            return (i, i)
        for k, s, x in self.nest:
            if k != "for" or x is None:
                continue
            t, hi, _ = x
            a = next(iter(atoms(t)))
            if a in atoms(i):
                c = lin(i).get((a,), 0)
                rest = sub(i, mul(c, t))
                if a in atoms(rest) or any(y.startswith("~i") for y in atoms(rest)) or hi is None or c not in (1, -1):
                    return None
                return (rest, add(rest, sub(hi, 1))) if c == 1 else (sub(rest, sub(hi, 1)), rest)
        return None

    def conditional(self):
        """is the current statement skipped on some way through the loops around it"""
        return any(k in ("if", "while", "forr") for k, s, x in self.nest) or any(k == "for" and self.skips(s[4]) for k, s, x in self.nest)

    def skips(self, body):
        def go(y):
            if isinstance(y, tuple):
                if y and y[0] in ("continue", "break"):
                    return True
                if y and y[0] in ("for", "while", "forr", "switch"):
                    return False
                return any(go(z) for z in y)
            if isinstance(y, list):
                return any(go(z) for z in y)
            return False
        return go(body)

    # ---- expressions
    def callee(self, e, p, f):
        """a function following a call of the program or a closure, or None"""
        fn, args = e[1], e[2]
        n = fn[1]
        v = p.env.get(n)
        if isinstance(v, Clo):
            def run(p, v=v, args=args):
                av = [self.ev(a, p, f) for a in args]
                return self.closure(v, av, p)
            return run
        sh = n.split("::")[-1]
        fs = [g for g in self.prog.get(sh, ()) if len(g.params) == len(args) and not g.scope]
        if len(fs) != 1 or sh in ("min", "max", "abs"):
            return None
        g = fs[0]

        def run(p, g=g, args=args):
            av = [self.ev(a, p, f) for a in args]
            if not any(isinstance(a, (TV, Ptr, Clo, Vec)) for a in av) and not any(num(a) for a in av):
                return [(p, None)]
            av = [self.asint(a, ty, p) for a, (_, ty) in zip(av, g.params)]
            ta = []
            for x in splitc([("", y, 0) for y in (e[3] if len(e) > 3 else ())]):
                w = x[0][1] if len(x) == 1 else ""
                ta.append(int(w) if w.isdigit() else w == "true" if w in ("true", "false") else p.env.get(w))
            if self.tails and not self.quiet:
                self.tail(g, av, p)
            return self.call(g, av, p, ta)
        return run

    def closure(self, v, av, p):
        if self.depth > 10:
            return [(p, None)]
        saved = p.env
        q = p.copy()
        params = [x if isinstance(x, str) else x for x in v.params]
        for n, a in zip(params, av):
            q.env[n] = a
        for n, ty in zip(params, v.types):
            if num(q.env.get(n)) and ty in INTS:
                q.env[n] = self.trunc(q.env[n], q)
        for n, a in v.env.items():
            q.env.setdefault(n, a)
        self.depth += 1
        try:
            rets = []
            live = self.block(v.body, [q], rets, v.fn, None)
        finally:
            self.depth -= 1
        res = []
        for x, val in rets + [(y, ("void",)) for y in live]:
            x.env = {k: (x.env.get(k, a) if k not in params and k in saved else a) for k, a in saved.items()}
            res.append((x, val))
        return self.join(res)

    def ev(self, e, p, f):
        k = e[0]
        if k == "num":
            try:
                return int(re.sub(r"[uUlL]+$", "", e[1]), 0)
            except ValueError:
                return self.fresh("f")
        if k == "id":
            n = e[1]
            if n in p.env:
                v = p.env[n]
                return v
            if n in ("true", "false"):
                return n == "true"
            sh = n.split("::")[-1]
            if sh in cxx.KDT:
                return cxx.Opt(cxx.KDT[sh])
            return None
        if k == "init":
            return ("list", [self.ev(x, p, f) for x in e[1]])
        if k == "cast":
            v = self.ev(e[2], p, f)
            return self.trunc(v, p) if num(v) and e[1] in INTS else v
        if k == "lambda":
            c = Clo(e[1], e[2], f)
            c.types = [t.replace("const", "").replace("&", "").strip() for t in e[3]]
            c.env = dict(p.env)
            return c
        if k == "tern":
            ts = self.test(e[1], p.copy(), f)
            vals = []
            for q, t in ts:
                v = self.ev(e[2] if t else e[3], q, f)
                vals.append((q, v))
            if not vals:
                return None
            if all(num(v) for _, v in vals):
                if all(v == vals[0][1] for _, v in vals):
                    return vals[0][1]
                if any(a.startswith("~f") for _, v in vals for a in atoms(v)):
                    return self.fresh("f")
                a = self.fresh("c")
                p.alts.append([[x for x in q.rel if x not in p.rel] + [sub(a, v), sub(v, a)] for q, v in vals])
                return a
            return vals[0][1] if all(v is vals[0][1] for _, v in vals) else None
        if k == "un":
            return self.unary(e, p, f)
        if k == "bin":
            return self.binop(e, p, f)
        if k == "assign":
            return self.assign(e, p, f)
        if k == "index":
            return self.index(e, p, f)
        if k == "call":
            return self.callx(e, p, f)
        if k == "member":
            self.ev(e[1], p, f)
            return None
        return None

    def unary(self, e, p, f):
        op = e[1]
        if op == "*":
            v = self.ev(e[2], p, f)
            if isinstance(v, Ptr):
                self.require(p, self.where, f"*({cut(e[2])})", v.off, dims.prod(v.t.shape) if v.t.shape is not None and all(num(x) for x in v.t.shape) else None)
                return self.element(v.t, None, p)
            return None
        if op in ("++", "--", "post++", "post--"):
            l = e[2]
            if l[0] == "id":
                v = p.env.get(l[1])
                d = 1 if "++" in op else -1
                new = Ptr(v.t, add(v.off, d) if num(v.off) else None) if isinstance(v, Ptr) else It(v.v, add(v.off, d)) if isinstance(v, It) else add(v, d) if num(v) else None
                p.env[l[1]] = new
                return v if op.startswith("post") else new
            v = self.ev(l, p, f)
            return It(v.v, add(v.off, 1 if "++" in op else -1)) if isinstance(v, It) and not op.startswith("post") else None
        v = self.ev(e[2], p, f)
        if op == "!":
            if isinstance(v, Cmp):
                return Cmp({"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[v.op], v.a, v.b)
            return (not v) if isinstance(v, bool) else None
        if op == "-" and num(v):
            return neg(v)
        if op == "&":
            if e[2][0] == "id" and num(p.env.get(e[2][1])):
                p.env[e[2][1]] = self.fresh("f")
            return v if isinstance(v, (TV, Ptr)) else None
        return v if op == "+" else None

    def asnum(self, v):
        return int(v) if isinstance(v, bool) else v

    def binop(self, e, p, f):
        op = e[1]
        if op == ",":
            self.ev(e[2], p, f)
            return self.ev(e[3], p, f)
        if op in ("&&", "||"):
            a = self.ev(e[2], p, f)
            if isinstance(a, bool) and a == (op == "||"):
                return a
            # the right operand is only evaluated when the left one allows it
            for q, t in self.truth(a, p.copy()):
                if t != (op == "||"):
                    b = self.ev(e[3], q, f)
                    if isinstance(a, bool):
                        return b
            return None
        a, b = self.asnum(self.ev(e[2], p, f)), self.asnum(self.ev(e[3], p, f))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, It) and isinstance(b, It):
                a, b = a.off, b.off
            if isinstance(a, int) and isinstance(b, int):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
            fl = [x for x in (a, b) if num(x) and any(q.startswith("~f") for q in atoms(x))]
            return Cmp(op, a, b) if num(a) and num(b) and not fl else None
        if isinstance(a, It) and isinstance(b, It) and op == "-":
            return sub(a.off, b.off)
        if isinstance(a, It) and num(b) and op in ("+", "-"):
            return It(a.v, (add if op == "+" else sub)(a.off, b))
        if isinstance(a, Ptr) and num(b) and op in ("+", "-"):
            return Ptr(a.t, add(a.off, b if op == "+" else neg(b)) if num(a.off) else None)
        if isinstance(b, Ptr) and num(a) and op == "+":
            return Ptr(b.t, add(b.off, a) if num(b.off) else None)
        if not num(a) or not num(b):
            return None
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            r = mul(a, b)
            return r if not isinstance(r, Dim) or all(len(m) < 5 for m, _ in r.p) else None
        if op in ("/", "%"):
            if any(q.startswith("~f") for x in (a, b) for q in atoms(x)):
                return self.fresh("f")
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    return None
                q = abs(a) // abs(b) * (1 if a * b >= 0 else -1)
                return q if op == "/" else a - b * q
            if not (self.proves(p, sub(b, 1)) and self.proves(p, a)):
                return self.fresh("d", True)
            key = ("div", a, b)
            q = self.memo.get(key)
            if q is None:
                q = self.memo[key] = self.fresh("q")
            qb = mul(q, b)
            for r in (q, sub(a, qb), sub(add(qb, sub(b, 1)), a)):
                if r not in p.rel:
                    p.rel.append(r)
            return q if op == "/" else sub(a, qb)
        return None

    def assign(self, e, p, f):
        op, l = e[1], e[2]
        v = self.ev(e[3], p, f)
        if l[0] == "id":
            if op != "=":
                old = p.env.get(l[1])
                if op in ("+=", "-="):
                    v = self.asnum(v)
                    if isinstance(old, Ptr):
                        v = Ptr(old.t, add(old.off, v if op == "+=" else neg(v)) if num(old.off) and num(v) else None)
                    else:
                        v = (add(old, v) if op == "+=" else sub(old, v)) if num(old) and num(v) else None
                elif op == "*=":
                    v = mul(old, v) if num(old) and num(v) else None
                else:
                    v = None
            p.env[l[1]] = self.keep(l[1], v, e[3] if op == "=" else ("call", ("id", "?", ()), [l, e[3]]), p)
        elif l[0] == "call" and l[1][0] == "id" and l[1][1] in ("std::tie", "tie"):
            for i, x in enumerate(l[2]):
                if x[0] == "id":
                    p.env[x[1]] = v[1][i] if isinstance(v, tuple) and v[0] == "tup" and len(v[1]) == len(l[2]) else None
        else:
            self.ev(l, p, f)
            if l[0] == "index":
                self.wrote(l, p, op)
        return v

    def index(self, e, p, f):
        o = self.ev(e[1], p, f)
        i = self.asnum(self.ev(e[2], p, f))
        if isinstance(i, Dim):
            i = self.trunc(i, p)
        if isinstance(o, TV):
            if o.shape is None or not o.shape:
                return None
            t = getattr(o, "acc", False)
            if t:
                self.require(p, self.where, f"{cut(e)}", i, o.shape[0])
            r = TV(o.shape[1:], o.dtype, o.name)
            r.acc = t
            r.ix = getattr(o, "ix", ()) + (i,)
            r.key = getattr(o, "key", None)
            if not r.shape and t:
                return self.element(o, r.ix, p)
            return r
        if isinstance(o, Ptr):
            q = Ptr(o.t, add(o.off, i) if num(o.off) and num(i) else None)
            self.require(p, self.where, f"{cut(e)}", q.off, dims.prod(o.t.shape) if o.t.shape is not None and all(num(x) for x in o.t.shape) else None)
            return self.element(o.t, None, p)
        if isinstance(o, Vec):
            n = p.env.get("#" + o.name)
            if num(n):
                self.require(p, self.where, f"{cut(e)}", i, n)
            return None
        return None

    def element(self, t, ix, p):
        """the value of an element"""
        if t.dtype not in ("int64", "int32"):
            return self.fresh("f")
        c = self.contract.get(t.name)
        key = ("el", t.name, ix) if ix is not None and t.name is not None else None
        if key is not None and key in self.memo and not self.written(t.name):
            v = self.memo[key]
            new = False
        else:
            v = self.fresh("e", c is None)
            new = True
            if key is not None:
                self.memo[key] = v
                self.elem[next(iter(atoms(v)))] = (t.name, ix)
        if c is None:
            return v
        lo, hi = 0, None
        if c[0] == "first":
            hi = poly(c[1])
        elif c[0] == "run":
            hi = poly(c[2])
        elif c[0] == "below":
            hi = sub(poly(c[2]), 1)
        elif c[0] == "grid":
            lo, hi = 1, None
            if ix is not None and isinstance(ix[-1], int) and ix[-1] < 3:
                hi = poly(c[1 + ix[-1]])
        else:
            lo = poly(c[0])
            hi = poly(c[1]) if c[1] is not None else None
        for r in [sub(v, lo)] + ([sub(hi, v)] if hi is not None else []):
            if r not in p.rel:
                p.rel.append(r)
        if c[0] == "first" and ix is not None and num(ix[0]):
            if ix[0] == 0:
                p.rel.append(neg(v))
            n = self.tv.get(t.name)
            if c[2] and n is not None:
                d = sub(sub(n.shape[0], 1), ix[0])        # the last run ends with the packed elements
                p.alts.append([[sub(d, 1)], [neg(d), d, sub(poly(c[2]), sub(poly(c[1]), v))]])
        return v

    def written(self, name):
        return False

    def callx(self, e, p, f):
        fn, args = e[1], e[2]
        if fn[0] == "member":
            return self.method(e, p, f)
        if fn[0] != "id":
            self.ev(fn, p, f)
            for a in args:
                self.ev(a, p, f)
            return None
        n = fn[1]
        sh = n.split("::")[-1]
        if sh in ("TORCH_CHECK", "AT_ASSERTM", "AT_ASSERT", "TORCH_INTERNAL_ASSERT"):
            return None
        if sh in ("AT_ERROR",):
            raise Stop()
        if sh.startswith(("CHECK_", "AT_", "C10_", "TORCH_")):
            return None
        g = self.callee(e, p, f)
        if g is not None:
            rs = g(p)
            if not rs:
                raise Stop()
            if len(rs) == 1:
                q, v = rs[0]
                p.rel, p.alts, p.ne, p.vague = q.rel, q.alts, q.ne, q.vague
                for k, x in q.env.items():
                    if k in p.env:
                        p.env[k] = x
                return v
            vs = [v for _, v in rs]
            a = vs[0]
            if all(num(v) for v in vs):
                if all(v == a for v in vs):
                    return a
                x = self.fresh("c")
                p.alts.append([[r for r in q.rel if r not in p.rel] + [sub(x, v), sub(v, x)] for q, v in rs])
                return x
            return self.mergev(vs)
        av = [self.ev(x, p, f) for x in args]
        if sh in ("min", "max") and len(av) == 2:
            a, b = (self.asnum(x) for x in av)
            if num(a) and num(b):
                if any(q.startswith("~f") for x in (a, b) for q in atoms(x)):
                    return self.fresh("f")
                lo = sh == "min"
                d = sub(b, a)
                if self.proves(p, d):
                    return a if lo else b
                if self.proves(p, neg(d)):
                    return b if lo else a
                m = self.fresh("n")
                if lo:
                    p.rel += [sub(a, m), sub(b, m)]
                    p.alts.append([[sub(a, m), sub(m, a), d], [sub(b, m), sub(m, b), neg(d)]])
                else:
                    p.rel += [sub(m, a), sub(m, b)]
                    p.alts.append([[sub(a, m), sub(m, a), neg(d)], [sub(b, m), sub(m, b), d]])
                return m
            if sh == "max" and len(av) == 1:
                pass
            return None
        if sh == "max" and len(av) == 1 and isinstance(av[0], TV):
            r = TV([], av[0].dtype, av[0].name)
            r.all = sh
            return r
        if sh == "get_num_threads":
            v = sym("threads")
            if sub(v, 1) not in p.rel:
                p.rel.append(sub(v, 1))
            return v
        if sh in ("zeros", "ones", "empty", "full") and av:
            s = av[0]
            shp = [self.trunc(x, p) if isinstance(x, Dim) else x if num(x) else None for x in s[1]] if isinstance(s, tuple) and s[0] == "list" else None
            return self.created(TV(shp, next((a.dtype for a in av[1:] if isinstance(a, cxx.Opt)), None)), sh)
        if sh in ("zeros_like", "empty_like", "ones_like", "full_like") and av and isinstance(av[0], TV):
            return self.created(TV(av[0].shape, next((a.dtype for a in av[1:] if isinstance(a, cxx.Opt)), av[0].dtype)), sh[:-5])
        if sh == "parallel_for" and len(av) == 4 and isinstance(av[3], Clo) and num(av[0]) and num(av[1]):
            lo, hi = self.fresh("b"), self.fresh("b")
            p.rel += [sub(lo, av[0]), sub(hi, lo), sub(av[1], hi)]
            self.ranges[next(iter(atoms(lo)))] = (av[0], av[1])
            self.ranges[next(iter(atoms(hi)))] = (av[0], av[1])
            self.closure(av[3], [lo, hi], p)
            return None
        if sh in ("make_tuple", "make_pair", "tuple"):
            return ("tup", av)
        if sh == "get" and av:
            t = e[3] if len(e) > 3 else ()
            v = av[0]
            return v[1][int(t[0])] if isinstance(v, tuple) and v[0] in ("tup", "list") and len(t) == 1 and t[0].isdigit() and int(t[0]) < len(v[1]) else None
        if sh in ("move", "ref", "cref", "forward") and len(av) == 1:
            return av[0]
        if sh in ("static_cast", "int", "int64_t", "int32_t", "size_t", "long") and len(av) == 1:
            t = "".join(e[3]) if len(e) > 3 and e[3] else sh
            return self.trunc(av[0], p) if num(av[0]) and t in INTS else self.asnum(av[0])
        if sh in ("lround", "floor", "ceil", "round", "floorf", "modf", "sqrt", "abs", "fabs", "exp"):
            return self.fresh("f")
        if sh == "distance" and len(av) == 2 and all(isinstance(x, It) for x in av):
            return sub(av[1].off, av[0].off)
        if sh in ("lower_bound", "upper_bound", "find", "find_if", "partition_point", "max_element", "min_element") and len(av) > 1 and isinstance(av[0], It) and isinstance(av[1], It):
            v = self.fresh("o")
            lo, hi = av[0].off, av[1].off
            if sh.endswith("element") and self.proves(p, sub(sub(hi, lo), 1)):
                hi = sub(hi, 1)
            p.rel += [sub(v, lo), sub(hi, v)]
            return It(av[0].v, v)
        if sh in ("next", "prev") and av and isinstance(av[0], It):
            d = av[1] if len(av) > 1 and num(av[1]) else 1
            return It(av[0].v, (add if sh == "next" else sub)(av[0].off, d))
        return None

    def mergev(self, vs):
        a = vs[0]
        return a if all(v is a for v in vs) else None

    def method(self, e, p, f):
        fn, args = e[1], e[2]
        m = fn[2]
        if fn[1][0] == "id" and isinstance(p.env.get(fn[1][1]), Vec):
            v = p.env[fn[1][1]]
            key = "#" + v.name
            n = p.env.get(key)
            if m in ("emplace", "emplace_back", "push", "push_back", "push_front"):
                if args and args[0][0] == "id" and v.name and m in ("emplace_back", "push_back"):
                    g = [x for x in self.prog.get(args[0][1].split("::")[-1], ()) if len(x.params) == len(args) - 1]
                    if len(g) == 1:
                        av = [self.ev(a, p, f) for a in args[1:]]
                        self.start(g[0], [self.asint(a, ty, p) for a, (_, ty) in zip(av, g[0].params)], p)
                        return None
                for a in args:
                    self.ev(a, p, f)
                p.env[key] = add(n, 1) if num(n) else None
                return None
            if m in ("top", "back", "front", "pop", "pop_back", "pop_front") and num(n):
                self.require(p, self.where, f"{v.name}.{m}()", sub(n, 1), n)
            if m in ("pop", "pop_back", "pop_front"):
                p.env[key] = sub(n, 1) if num(n) else None
                return None
            if m == "clear":
                p.env[key] = 0
                return None
            if m == "resize" and args:
                p.env[key] = self.ev(args[0], p, f)
                return None
            if m in ("insert", "erase"):
                p.env[key] = None
                return None
            if m == "size":
                if not num(n):
                    n = self.length()
                    p.rel.append(n)
                    p.env[key] = n
                return n
            if m == "empty":
                return Cmp("==", n, 0) if num(n) else None
            if m in ("begin", "cbegin"):
                return It(v, 0)
            if m in ("end", "cend"):
                if not num(n):
                    n = p.env[key] = self.length()
                    p.rel.append(n)
                return It(v, n)
            if m in ("at",) and args:
                i = self.asnum(self.ev(args[0], p, f))
                if num(n):
                    self.require(p, self.where, f"{v.name}.at({cut(args[0])})", i, n)
                return None
            for a in args:
                self.ev(a, p, f)
            return None
        o = self.ev(fn[1], p, f)
        av = [self.ev(x, p, f) for x in args]
        if isinstance(o, TV):
            if m == "size" and av:
                return o.shape[av[0]] if o.shape is not None and isinstance(av[0], int) and -len(o.shape) <= av[0] < len(o.shape) else None
            if m in ("dim", "ndimension"):
                return len(o.shape) if o.shape is not None else None
            if m == "numel":
                return dims.prod(o.shape) if o.shape is not None and all(num(x) for x in o.shape) else None
            if m == "options":
                return cxx.Opt(o.dtype)
            if m in ("scalar_type", "dtype"):
                return cxx.Opt(o.dtype)
            if m == "is_cuda":
                return False
            if m.startswith(("accessor", "packed_accessor")):
                r = TV(o.shape, o.dtype, o.name)
                r.acc = True
                r.ix = getattr(o, "ix", ())
                r.key = getattr(o, "key", None)
                return r
            if m in ("data_ptr", "const_data_ptr", "mutable_data_ptr"):
                return Ptr(o, 0)
            if m in ("contiguous", "clone", "detach", "cpu"):
                if getattr(o, "key", None) is not None:
                    return o
                return TV(o.shape, o.dtype, o.name)
            if m == "item":
                if getattr(o, "all", None):
                    return self.maximum(o, p)
                ix = getattr(o, "ix", ())
                return self.element(o, ix, p) if o.shape == [] else None
            if m == "to" and av and isinstance(av[0], cxx.Opt):
                return TV(o.shape, av[0].dtype, o.name)
            return None
        if isinstance(o, cxx.Opt):
            return cxx.Opt(av[0].dtype if av and isinstance(av[0], cxx.Opt) else None) if m == "dtype" else o
        if m == "to" and num(o):
            return o
        if m == "max" and fn[1][0] == "id" and "numeric_limits" in fn[1][1]:
            return self.fresh("x", True)
        return None

    def maximum(self, o, p):
        """the largest value of an index tensor"""
        c = self.contract.get(o.name)
        key = ("max", o.name)
        v = self.memo.get(key)
        if v is None:
            if c and c[0] not in ("first", "run", "grid") and c[1] is not None and c[1].startswith("$"):
                v = poly(c[1])
            else:
                v = self.fresh("g", True)
            self.memo[key] = v
        return v


def show(w):
    return "(" + ", ".join(f"{a.lstrip('~$')}={v}" for a, v in sorted(w.items()) if not a.startswith("~") or a == "~x") + ")"


def cut(e):
    """short text of an expression"""
    k = e[0]
    if k == "id":
        return e[1]
    if k == "num":
        return e[1]
    if k == "index":
        return f"{cut(e[1])}[{cut(e[2])}]"
    if k == "bin":
        return f"{cut(e[2])} {e[1]} {cut(e[3])}"
    if k == "un":
        return f"{e[1]}{cut(e[2])}"
    if k == "call":
        return f"{cut(e[1])}(..)"
    if k == "member":
        return f"{cut(e[1])}.{e[2]}"
    if k == "cast":
        return cut(e[2])
    return "..."


def analyse(repo, name):
    ent = cops.TABLE[name]
    sp = cops.parse(ent[0])
    f = cxx.bound_fn(repo, name)
    if f is None:
        return None
    b = Bounds(cxx.program(repo), name, sp)
    args = cxx.arguments(sp, f.params)
    b.tv = {a.name: a for a in args if isinstance(a, TV)}
    b.run(f, args)
    return b


def _one(a):
    repo, name = a
    try:
        b = analyse(repo, name)
    except Exception as e:  # noqa: BLE001
        return name, None, type(e).__name__ + ": " + str(e)[:100]
    return name, None if b is None else (b.ob, b.unread, sorted(b.called)), None


def c18(repo):
    import multiprocessing
    names = list(cops.TABLE)
    with multiprocessing.Pool(min(8, len(names))) as pool:
        res = pool.map(_one, [(repo, n) for n in names], chunksize=1)
    fs, cnt, un, per, fns, seen = [], {"cpp_obligations": 0, "cpp_undecided": 0, "cpp_unread_statements": 0}, {}, {}, set(), set()
    for name, r, err in res:
        if r is None:
            un[name] = err or "not found"
            continue
        ob, unread, called = r
        fns |= set(called)
        cnt["cpp_unread_statements"] += unread
        per[name] = 0
        for (where, what), (st, text) in ob.items():
            if st == "bad":
                if (where, what) not in seen:
                    seen.add((where, what))
                    fs.append((f"c++ {name}: {what}", f"{where}: {text}"))
            if st == "unknown":
                cnt["cpp_undecided"] += 1
                un.setdefault("undecided", []).append(f"{where}: {what}")
            else:
                cnt["cpp_obligations"] += 1
                per[name] += 1
    if "undecided" in un:
        un["undecided"] = sorted(set(un["undecided"]))[:40]
    return fs, cnt, {"cpp_operators": per, "cpp_functions": sorted(fns), "cpp_not_decided": un}
