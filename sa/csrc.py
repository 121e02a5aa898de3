"""A small reader for the C++ sources behind pytorch3d._C (pulsar excluded): the functions, their
parameters and bodies, and the raw memory accesses in them."""
import functools
import glob
import os
import re

RAW = ("data_ptr", "const_data_ptr", "mutable_data_ptr", "data", "unsafeGetTensorImpl", "storage", "view")


def clean(t):
    t = re.sub(r'R"\((?:.|\n)*?\)"', '""', t)
    t = re.sub(r'"(?:\\.|[^"\\\n])*"', '""', t)
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), t, flags=re.S)
    return re.sub(r"^[ \t]*#(?:[^\n\\]|\\.|\\\n)*", lambda m: "\n" * m.group(0).count("\n"), t, flags=re.M)


def close(t, i, a, b):
    """index of the bracket closing the one at t[i]"""
    n = 0
    for j in range(i, len(t)):
        if t[j] == a:
            n += 1
        elif t[j] == b:
            n -= 1
            if n == 0:
                return j
    return None


def split(s):
    """split at top level commas"""
    out, n, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            n += 1
        elif c in ")]}>":
            n -= 1
        if c == "," and n <= 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


class F:
    def __init__(self, name, params, body, path, line):
        self.name, self.params, self.body, self.path, self.line = name, params, body, path, line

    @property
    def where(self):
        return f"{self.path}:{self.line}"


KEYWORDS = {"if", "for", "while", "switch", "catch", "return", "sizeof", "alignas", "decltype", "defined"}


def functions(path, rel):
    t = clean(open(path, errors="replace").read())
    out, i = [], 0
    for m in re.finditer(r"([A-Za-z_]\w*)\s*\(", t):
        if m.start() < i or m.group(1) in KEYWORDS:
            continue
        p = close(t, m.end() - 1, "(", ")")
        if p is None:
            continue
        tail = re.match(r"\s*(?:const|noexcept|override)?\s*\{", t[p + 1:])
        if not tail:
            continue
        b = p + tail.end()
        e = close(t, b, "{", "}")
        if e is None:
            continue
        params = []
        for q in split(t[m.end():p]):
            q = q.split("=")[0].strip()
            mm = re.match(r"(.*?)([A-Za-z_]\w*)?(?:\[\d*\])?$", re.sub(r"\s+", " ", q), re.S)
            params.append((mm.group(2) or "", mm.group(1).strip()))
        out.append(F(m.group(1), params, t[b + 1:e], rel, t.count("\n", 0, m.start()) + 1))
        i = e
    return out


@functools.lru_cache(None)
def load(repo):
    root = os.path.join(repo, "pytorch3d", "csrc")
    out = []
    for ext in ("*.h", "*.cpp", "*.cu", "*.cuh"):
        for p in sorted(glob.glob(os.path.join(root, "*", ext))):
            if os.sep + "pulsar" + os.sep in p:
                continue
            out += functions(p, os.path.relpath(p, repo))
    return out


def istensor(ty):
    return re.search(r"\bTensor\s*&?\s*$", ty) is not None and "Accessor" not in ty


def calls(body, name):
    for m in re.finditer(r"\b" + name + r"\b\s*(<[^;(){}]*>)?\s*(?:<<<[^;]*?>>>)?\s*(\(|,)", body):
        if m.group(2) == "(":
            e = close(body, m.end() - 1, "(", ")")
            if e is not None:
                yield split(body[m.end():e])
        else:
            # std::thread(name, args...)
            o = max(body.rfind("(", 0, m.start()), body.rfind("{", 0, m.start()))
            if o >= 0 and body[o + 1:m.start()].strip() in ("", "&"):
                e = close(body, o, body[o], ")" if body[o] == "(" else "}")
                if e is not None:
                    yield split(body[m.end():e])


def raw_uses(f):
    """{tensor parameter: text} of accesses that assume a contiguous layout"""
    out = {}
    for n, ty in f.params:
        if not n or not istensor(ty):
            continue
        if re.search(r"\b" + n + r"\s*=[^=;]*contiguous\s*\(", f.body):
            continue
        m = re.search(r"\b" + n + r"\s*\.\s*(?:template\s+)?(" + "|".join(RAW) + r")\b\s*[<(]", f.body)
        if m:
            out[n] = m.group(1)
    return out


@functools.lru_cache(None)
def layout(repo):
    """(violations, {function: parameters that the caller must pass contiguous}, number of tensor parameters)"""
    fs = load(repo)
    names = {}
    for f in fs:
        names.setdefault(f.name, []).append(f)
    need = {}          # (name, index) -> where
    for f in fs:
        for n, how in raw_uses(f).items():
            need.setdefault((f.name, [p for p, _ in f.params].index(n)), (f, n, how))
    bad, checked = [], {}
    todo, seen = list(need), set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        fn, i = k
        src = need[k]
        called = False
        for g in fs:
            if g.name == fn and g is src[0]:
                if re.search(r"CHECK_CONTIGUOUS(?:_CUDA)?\s*\(\s*" + src[1] + r"\s*\)", g.body):
                    called = True
                continue
            for args in calls(g.body, fn):
                if i >= len(args):
                    continue
                called = True
                a = args[i]
                ps = [p for p, ty in g.params if istensor(ty)]
                if a not in ps:
                    continue           # a local tensor or an expression
                if re.search(r"CHECK_CONTIGUOUS(?:_CUDA)?\s*\(\s*" + a + r"\s*\)", g.body):
                    checked.setdefault(g.name, set()).add(a)
                    continue
                if re.search(r"\b" + a + r"\s*=[^=;]*contiguous\s*\(", g.body):
                    continue
                kk = (g.name, [p for p, _ in g.params].index(a))
                need.setdefault(kk, (g, a, f"{fn}({a})"))
                todo.append(kk)
        if not called:
            bad.append((fn, src))
    n = sum(1 for f in fs for p, ty in f.params if istensor(ty))
    return bad, checked, n


@functools.lru_cache(None)
def bound(repo):
    """{name in pytorch3d._C: C++ function}"""
    try:
        src = clean_keep(open(os.path.join(repo, "pytorch3d", "csrc", "ext.cpp")).read())
    except OSError:
        return {}
    return {a: b.split("::")[-1] for a, b in re.findall(r'm\.def\(\s*"(\w+)"\s*,\s*&?([\w:]+)', src)}


def clean_keep(t):
    return re.sub(r"/\*.*?\*/", "", re.sub(r"//[^\n]*", "", t), flags=re.S)


def must_be_contiguous(repo, name):
    """parameters of the bound function that have to be contiguous"""
    return layout(repo)[1].get(bound(repo).get(name), ())


def c17(repo):
    bad, checked, n = layout(repo)
    fs = [(f"c++ {fn}({src[1]})", f"{src[0].where}: {src[1]}.{src[2]} assumes a contiguous tensor, and no caller makes it contiguous or checks it") for fn, src in bad]
    return fs, {"cpp_tensor_parameters": n, "cpp_functions": len(load(repo))}, {"cpp_contiguity_checks": {k: sorted(v) for k, v in checked.items()}}
