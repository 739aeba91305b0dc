"""Syntactic normal form applied to every module before analysis.

A counted while loop
        while i < stop:
            BODY
            i += step
is the for loop  `for i in range(i, stop, step): BODY`  when stop keeps its value in BODY, i is stored nowhere else in BODY and no
`continue` skips the increment (i is max(start, stop) afterwards).  The engine then treats both spellings alike."""
import ast
import copy


def _names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def _jumps(body, kind=ast.Continue):
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            # a continue in an inner loop's else clause belongs to this loop
            if isinstance(s, (ast.For, ast.While)) and _jumps(s.orelse, kind):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _jumps(getattr(s, f, None) or [], kind):
                return True
        for h in getattr(s, 'handlers', []):
            if _jumps(h.body, kind):
                return True
    return False


def _step(s, i):
    """the constant step of the statement `i += c`, or None"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.op, (ast.Add, ast.Sub)):
        v, sign = s.value, 1 if isinstance(s.op, ast.Add) else -1
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and \
            isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)):
        a, b = s.value.left, s.value.right
        if isinstance(a, ast.Name) and a.id == i:
            v, sign = b, 1 if isinstance(s.value.op, ast.Add) else -1
        elif isinstance(b, ast.Name) and b.id == i and isinstance(s.value.op, ast.Add):
            v, sign = a, 1
        else:
            return None
    else:
        return None
    if isinstance(v, ast.Constant) and type(v.value) is int and v.value > 0:
        return sign * v.value
    return None


def _invariant(e, body):
    """e keeps its value while body runs, as far as body mentions it"""
    ok = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Load, ast.operator, ast.unaryop, ast.Call)
    if not all(isinstance(x, ok) for x in ast.walk(e)):
        return False
    mod = ast.Module(body=body, type_ignores=[])
    if _names(e, ast.Load) & _names(mod, (ast.Store, ast.Del)):
        return False
    for c in ast.walk(e):
        if isinstance(c, ast.Call) and not (isinstance(c.func, ast.Name) and c.func.id == 'len' and len(c.args) == 1 and not c.keywords):
            return False
    parts = {ast.dump(x) for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute)) and not (isinstance(x, ast.Name) and x.id in ('len', 'self'))}
    attrs = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}
    lens = any(isinstance(x, ast.Call) for x in ast.walk(e))
    for x in ast.walk(mod):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in attrs:
            return False
        if lens and isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and ast.dump(x.func.value) in parts:
                return False
            if any(ast.dump(a) in parts for a in x.args):
                return False
    return True


class _Loops(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn

    def visit_FunctionDef(self, n):
        return n        # nested functions have their own pass

    visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_While(self, n):
        self.generic_visit(n)
        t = n.test
        if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1) or len(n.body) < 2:
            return n
        for i, op, stop in ((t.left, t.ops[0], t.comparators[0]), (t.comparators[0], {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(), ast.GtE: ast.LtE()}.get(
                type(t.ops[0])), t.left)):
            if not isinstance(i, ast.Name) or op is None:
                continue
            step = _step(n.body[-1], i.id)
            if step is None or (step > 0) != isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                continue
            body = n.body[:-1]
            if i.id in _names(ast.Module(body=body, type_ignores=[]), (ast.Store, ast.Del)) or _jumps(body) or not _invariant(stop, body):
                continue
            inside = {id(x) for x in ast.walk(n)}
            if any(isinstance(x, (ast.Global, ast.Nonlocal)) and i.id in x.names for x in ast.walk(self.fn)):
                continue
            live = any(isinstance(x, ast.Name) and x.id == i.id and isinstance(x.ctx, ast.Load) and id(x) not in inside or
                       isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i.id and id(x) not in inside for x in ast.walk(self.fn))
            if live and (step != 1 or _jumps(body, ast.Break) or not isinstance(op, ast.Lt)):
                continue
            if isinstance(op, (ast.LtE, ast.GtE)):
                # an integer bound (counted loops run over integers)
                stop = ast.BinOp(left=ast.Call(func=ast.Name(id='int', ctx=ast.Load()), args=[stop], keywords=[]), op=ast.Add() if step > 0 else ast.Sub(),
                                 right=ast.Constant(value=1))
            args = [ast.Name(id=i.id, ctx=ast.Load()), stop] + ([ast.Constant(value=step)] if step != 1 else [])
            new = ast.For(target=ast.Name(id=i.id, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=args, keywords=[]),
                          body=body, orelse=[])
            ast.copy_location(new, n)
            for x in ast.walk(new.iter):
                ast.copy_location(x, n)
            ast.copy_location(new.target, n)
            new = ast.fix_missing_locations(new)
            if not live:
                return new
            # the counter's value after the loop
            pre = ast.parse('__start_of_%s = %s' % (i.id, i.id)).body[0]
            post = ast.parse('%s = max(__start_of_%s, 0)' % (i.id, i.id)).body[0]
            post.value.args[1] = copy.deepcopy(stop)
            for x in [y for r in (pre, post) for y in ast.walk(r)]:
                ast.copy_location(x, n)
            return [pre, new, post]
        return n


def normalise(tree):
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        lo = _Loops(fn)
        body = []
        for s in fn.body:
            r = lo.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        fn.body = body
    return tree
