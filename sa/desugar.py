"""Match statements with plain patterns rewritten into conditionals."""
import ast
import copy


class Unsupported(Exception):
    pass


class _Names(ast.NodeTransformer):
    def __init__(self, binds):
        self.binds = dict(binds)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.binds:
            return ast.copy_location(copy.deepcopy(self.binds[n.id]), n)
        return n


def pattern(p, subj, binds):
    """The test of a pattern; None when it always matches.  Captured names are collected in binds."""
    def at(x):
        return ast.copy_location(x, p)

    if isinstance(p, ast.MatchValue):
        return at(ast.Compare(copy.deepcopy(subj), [ast.Eq()], [p.value]))
    if isinstance(p, ast.MatchSingleton):
        return at(ast.Compare(copy.deepcopy(subj), [ast.Is()], [at(ast.Constant(p.value))]))
    if isinstance(p, ast.MatchAs):
        t = pattern(p.pattern, subj, binds) if p.pattern is not None else None
        if p.name:
            binds.append((p.name, subj))
        return t
    if isinstance(p, ast.MatchOr):
        got = []
        for q in p.patterns:
            b = []
            t = pattern(q, subj, b)
            if b:
                raise Unsupported
            if t is None:
                return None
            got.append(t)
        return at(ast.BoolOp(ast.Or(), got))
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        n = at(ast.Call(at(ast.Name("len", ast.Load())), [copy.deepcopy(subj)], []))
        got = [at(ast.Compare(copy.deepcopy(n), [ast.Eq()], [at(ast.Constant(len(p.patterns)))]))]
        for i, q in enumerate(p.patterns):
            t = pattern(q, at(ast.Subscript(copy.deepcopy(subj), at(ast.Constant(i)), ast.Load())), binds)
            if t is not None:
                got.append(t)
        return got[0] if len(got) == 1 else at(ast.BoolOp(ast.And(), got))
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return at(ast.Call(at(ast.Name("isinstance", ast.Load())), [copy.deepcopy(subj), p.cls], []))
    raise Unsupported


class Desugar(ast.NodeTransformer):
    def visit_Match(self, s):
        self.generic_visit(s)
        try:
            return self.rewrite(s)
        except Unsupported:
            return s

    def rewrite(self, s):
        out = []
        if isinstance(s.subject, ast.Name):
            subj = ast.copy_location(ast.Name(s.subject.id, ast.Load()), s)
            bound = {x.name for c in s.cases for x in ast.walk(c.pattern) if isinstance(x, ast.MatchAs)}
            if s.subject.id in bound:
                raise Unsupported
        else:
            name = f"__match_{s.lineno}_{s.col_offset}"
            out.append(ast.Assign([ast.Name(name, ast.Store())], s.subject))
            subj = ast.copy_location(ast.Name(name, ast.Load()), s)
        rest = []
        for c in reversed(s.cases):
            binds = []
            test = pattern(c.pattern, subj, binds)
            guard = _Names(binds).visit(copy.deepcopy(c.guard)) if c.guard is not None else None
            if guard is not None:
                test = guard if test is None else ast.BoolOp(ast.And(), [test, guard])
            body = [ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(v)) for n, v in binds] + c.body
            rest = body if test is None else [ast.If(test, body, rest)]
        out += rest or [ast.Pass()]
        for x in out:
            ast.copy_location(x, s)
            for y in ast.walk(x):
                if not hasattr(y, "lineno") and isinstance(y, (ast.expr, ast.stmt)):
                    ast.copy_location(y, s)
        return [ast.fix_missing_locations(x) for x in out]


def desugar(tree):
    if any(isinstance(x, ast.Match) for x in ast.walk(tree)):
        tree = ast.fix_missing_locations(Desugar().visit(tree))
    return tree
