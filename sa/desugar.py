"""match statements rewritten to if chains before the analysis sees the tree."""
import ast


class _No(Exception):
    pass


def _at(n, src):
    for x in ast.walk(n):
        if not hasattr(x, "lineno"):
            ast.copy_location(x, src)
    return n


def _test(p, subj, src):
    """list of conjuncts that hold exactly when the pattern matches (captures bind on the way)"""
    load = lambda: _at(subj(), src)
    if isinstance(p, ast.MatchValue):
        return [_at(ast.Compare(load(), [ast.Eq()], [p.value]), p)]
    if isinstance(p, ast.MatchSingleton):
        return [_at(ast.Compare(load(), [ast.Is()], [ast.Constant(p.value)]), p)]
    if isinstance(p, ast.MatchOr):
        alts = []
        for q in p.patterns:
            c = _test(q, subj, src)
            if not c:
                return []
            alts.append(_all(c, q))
        return [_at(ast.BoolOp(ast.Or(), alts), p)]
    if isinstance(p, ast.MatchAs):
        c = _test(p.pattern, subj, src) if p.pattern is not None else []
        if p.name is not None:
            c = c + [_at(ast.List([ast.NamedExpr(ast.Name(p.name, ast.Store()), load())], ast.Load()), p)]
        return c
    if isinstance(p, ast.MatchClass) and not p.patterns:
        c = [_at(ast.Call(ast.Name("isinstance", ast.Load()), [load(), p.cls], []), p)]
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            c += _test(q, lambda a=a: ast.Attribute(subj(), a, ast.Load()), src)
        return c
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        kinds = ast.Tuple([ast.Name("list", ast.Load()), ast.Name("tuple", ast.Load())], ast.Load())
        c = [_at(ast.Call(ast.Name("isinstance", ast.Load()), [load(), kinds], []), p),
             _at(ast.Compare(ast.Call(ast.Name("len", ast.Load()), [subj()], []), [ast.Eq()], [ast.Constant(len(p.patterns))]), p)]
        for i, q in enumerate(p.patterns):
            c += _test(q, lambda i=i: ast.Subscript(subj(), ast.Constant(i), ast.Load()), src)
        return c
    raise _No()


def _all(c, src):
    if not c:
        return _at(ast.Constant(True), src)
    return c[0] if len(c) == 1 else _at(ast.BoolOp(ast.And(), c), src)


class Matches(ast.NodeTransformer):
    def visit_Match(self, s):
        self.generic_visit(s)
        pre, e = [], s.subject

        def name(x, k):
            if isinstance(x, ast.Name):
                return lambda: ast.Name(x.id, ast.Load())
            nm = f"__match_{s.lineno}_{s.col_offset}_{k}"
            pre.append(_at(ast.Assign([ast.Name(nm, ast.Store())], x), s))
            return lambda: ast.Name(nm, ast.Load())

        try:
            tests = []
            if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts) and all(
                    isinstance(c.pattern, ast.MatchSequence) and len(c.pattern.patterns) == len(e.elts) and not any(isinstance(q, ast.MatchStar) for q in c.pattern.patterns)
                    or isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.pattern.name is None for c in s.cases):
                subs = [name(x, i) for i, x in enumerate(e.elts)]
                for c in s.cases:
                    t = []
                    for q, sub in zip(getattr(c.pattern, "patterns", []), subs):
                        t += _test(q, sub, s)
                    tests.append(t)
            else:
                sub = name(e, "s")
                tests = [_test(c.pattern, sub, s) for c in s.cases]
        except _No:
            return s
        rest = []
        for c, t in reversed(list(zip(s.cases, tests))):
            t = t + ([c.guard] if c.guard is not None else [])
            if not t:
                rest = c.body
            else:
                rest = [_at(ast.If(_all(t, c.pattern), c.body, rest), c.pattern)]
        return pre + rest


def matches(tree):
    if any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        tree = ast.fix_missing_locations(Matches().visit(tree))
    return tree
