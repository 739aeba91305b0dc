"""Backward slice of a function on chosen elements of its returned tuples: other
elements become None and local assignments nobody reads any more are dropped
(right-hand sides are assumed free of effects on the kept elements)."""
import ast
import copy


class _Ret(ast.NodeTransformer):
    def __init__(self, keep):
        self.keep = keep

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        v = n.value
        if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in v.elts):
            v.elts = [e if i in self.keep else ast.copy_location(ast.Constant(None), e) for i, e in enumerate(v.elts)]
        return n


def _names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for e in t.elts:
            s = _names(e)
            if s is None:
                return None
            out += s
        return out
    return None


class _Drop(ast.NodeTransformer):
    def __init__(self, used):
        self.used = used
        self.changed = False

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def _dead(self, targets):
        for t in targets:
            ns = _names(t)
            if ns is None or any(x in self.used for x in ns):
                return False
        return True

    def visit_Assign(self, n):
        if self._dead(n.targets):
            self.changed = True
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_AugAssign(self, n):
        if self._dead([n.target]):
            self.changed = True
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if all(isinstance(s, ast.Pass) for s in n.body + n.orelse):
            return ast.copy_location(ast.Pass(), n)
        return n


def body_slice(fn, keep):
    m = copy.deepcopy(fn)
    m.body = [_Ret(keep).visit(s) for s in m.body]
    while True:
        used = set()
        for s in m.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    used.add(x.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    used.update(x.names)
        d = _Drop(used)
        m.body = [d.visit(s) for s in m.body]
        if not d.changed:
            return m.body
