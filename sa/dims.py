"""Symbolic tensor dimensions: polynomials with integer coefficients over size symbols.

A dimension is a python int, a Dim, or None (unknown).  Size symbols stand for
arbitrary, pairwise unrelated sizes (>= 17): two different polynomials are two
different sizes on a generic instance.
"""


class Dim:
    __slots__ = ("p", "_h")

    def __init__(self, p):
        self.p = p  # frozenset of (monomial tuple, coeff)
        self._h = hash(p)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Dim) and o.p == self.p

    def __repr__(self):
        out = []
        for m, c in sorted(self.p, key=lambda t: (-len(t[0]), t[0])):
            s = "*".join(m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{c}*{s}")
        return "+".join(out).replace("+-", "-")


def sym(name):
    return Dim(frozenset([((name,), 1)]))


def _poly(a):
    if isinstance(a, int):
        return {(): a} if a else {}
    return dict(a.p)


def _mk(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return Dim(frozenset(d.items()))


def add(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _mk(d)


def neg(a):
    return mul(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is None or b is None:
        return 0 if (a == 0 or b == 0) else None
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    d = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return _mk(d)


def prod(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def _divmono(m, by):
    m = list(m)
    for s in by:
        if s in m:
            m.remove(s)
        else:
            return None
    return tuple(m)


def div_exact(a, b):
    """a / b when it is a polynomial, else None."""
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b and a % b == 0 else None
    if b == 0:
        return None
    if a == b:
        return 1
    pb = _poly(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        out = {}
        for m, c in _poly(a).items():
            q = _divmono(m, mb)
            if q is None or c % cb:
                return None
            out[q] = c // cb
        return _mk(out)
    # try: a == k * b for a monomial k taken from the leading terms
    pa = _poly(a)
    lb = max(pb, key=lambda m: (len(m), m))
    la = max(pa, key=lambda m: (len(m), m)) if pa else None
    if la is None:
        return 0
    q = _divmono(la, lb)
    if q is None or pa[la] % pb[lb]:
        return None
    k = _mk({q: pa[la] // pb[lb]})
    rest = sub(a, mul(k, b))
    if rest == 0:
        return k
    r = div_exact(rest, b)
    return None if r is None else add(k, r)


def floordiv(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else None
    e = div_exact(a, b)
    if e is not None:
        return e
    return sym(f"[{a}//{b}]")


def mod(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else None
    if div_exact(a, b) is not None:
        return 0
    return None


def eq(a, b):
    """True / False / None.  Distinct polynomials differ on a generic instance."""
    if a is None or b is None:
        return None
    return a == b


def is_opaque(a):
    return isinstance(a, Dim) and any("[" in s for m, _ in a.p for s in m)


def lower(a):
    """A lower bound of the polynomial when all coefficients are >= 0 (symbols >= 17)."""
    if isinstance(a, int):
        return a
    lo = 0
    for m, c in a.p:
        if c < 0 and m:
            return None
        if any(s.startswith("[") and not s.startswith("[max(") for s in m):
            lo += 0
        else:
            lo += c * 17 ** len(m)
    return lo


def lt(a, b):
    if a is None or b is None:
        return None
    d = sub(b, a)  # a<b iff d>0
    if isinstance(d, int):
        return d > 0
    if isinstance(a, Dim) and repr(b) in maxparts(a):
        return False
    lo = lower(d)
    if lo is not None and lo > 0:
        return True
    lo = lower(neg(d))
    if lo is not None and lo >= 0:
        return False
    return None


def maxparts(d):
    """the sizes whose maximum d is"""
    r = repr(d)
    if r.startswith("[max(") and r.endswith(")]") and r.count("[max(") == 1:
        return set(r[5:-2].split("|"))
    return ()


def join(a, b):
    return a if a == b else None


def dmax(xs):
    """maximum of sizes: exact when equal or comparable, else an opaque symbol"""
    xs = list(xs)
    if any(x is None for x in xs) or not xs:
        return None
    best = []
    for x in xs:
        if any(x == y or lt(x, y) is True for y in best):
            continue
        best = [y for y in best if lt(y, x) is not True] + [x]
    if len(best) == 1:
        return best[0]
    parts = set()
    for b in best:
        parts.update(maxparts(b) or [repr(b)])
    return sym("[max(" + "|".join(sorted(parts)) + ")]")
