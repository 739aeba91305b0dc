#!/usr/bin/env python3
"""usage: refactor.py SRC DST SEED PROB [KIND,...]   copy the repository SRC to DST with behaviour-preserving rewrites of its sources
(development aid: the checks have to stay quiet on DST)"""
import ast
import copy
import os
import random
import shutil
import sys

N = [0]
LOG = []


def fresh(p):
    N[0] += 1
    return '%s_%d' % (p, N[0])


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def pure(e):
    return not has(e, ast.Call, ast.Subscript, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Lambda)


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(op=ast.Not(), operand=t)


def exits(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def unconditional(e, path=()):
    """sub-expressions that are evaluated whenever e is"""
    yield e
    if isinstance(e, (ast.IfExp,)):
        kids = [e.test]
    elif isinstance(e, ast.BoolOp):
        kids = [e.values[0]]
    elif isinstance(e, ast.Compare):
        kids = [e.left, e.comparators[0]]
    elif isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.JoinedStr)):
        kids = []
    else:
        kids = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
    for k in kids:
        yield from unconditional(k)


class Sub(ast.NodeTransformer):
    def __init__(self, node, new):
        self.node, self.new = node, new

    def visit(self, n):
        return self.new if n is self.node else super().visit(n)


class Rewriter:
    def __init__(self, rng, prob, kinds):
        self.rng, self.prob, self.kinds = rng, prob, kinds

    def yes(self, kind, scale=1.):
        return (not self.kinds or kind in self.kinds) and self.rng.random() < self.prob * scale

    # ---- module / class / function level
    def module(self, tree):
        self.tree = tree
        self.new_top = []
        self.scope(tree.body, None, top=True)
        # helper functions at the end of the module: called later than the module body only
        tree.body.extend(self.new_top)

    def scope(self, body, cls, top=False):
        for st in list(body):
            if isinstance(st, ast.ClassDef):
                self.scope(st.body, st)
            elif isinstance(st, ast.FunctionDef):
                self.function(st, cls)

    def function(self, fn, cls):
        if has(fn, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global) or fn.name in ('__repr__', '__str__'):
            return
        nested = any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for s in fn.body for x in ast.walk(s))
        self.fn, self.cls = fn, cls
        decos = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in fn.decorator_list]
        self.jit = any('jit' in (ast.unparse(d)) for d in fn.decorator_list)
        if self.jit:
            return
        self.kind = 'static' if 'staticmethod' in decos else 'class' if 'classmethod' in decos else 'method' if cls is not None else 'function'
        self.prop = any(d in ('property', 'setter', 'getter', 'deleter', 'jit') for d in decos)
        self.params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs] + \
            ([fn.args.vararg.arg] if fn.args.vararg else []) + ([fn.args.kwarg.arg] if fn.args.kwarg else [])
        if not nested:
            self.helpers(fn)
            self.rename(fn)
        fn.body = self.block(fn.body, True)

    def helper_call(self, hname, free, body):
        """define a helper with body; returns the call expression"""
        args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in free], kwonlyargs=[], kw_defaults=[], defaults=[])
        call_args = [name(a) for a in free]
        if self.cls is None:
            fd = ast.FunctionDef(name=hname, args=args, body=body, decorator_list=[], type_params=[])
            self.new_top.append(fd)
            return ast.Call(func=name(hname), args=call_args, keywords=[])
        first = self.params[0] if self.params else None
        if self.kind == 'method' and first:
            free2 = [a for a in free if a != first]
            args.args = [ast.arg(arg=first)] + [ast.arg(arg=a) for a in free2]
            fd = ast.FunctionDef(name=hname, args=args, body=body, decorator_list=[], type_params=[])
            self.cls.body.append(fd)
            return ast.Call(func=ast.Attribute(value=name(first), attr=hname, ctx=ast.Load()), args=[name(a) for a in free2], keywords=[])
        return None

    def helpers(self, fn):
        special = any(isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') for x in ast.walk(fn))
        if special or self.prop or fn.name in ('__new__', '__init__', '__setattr__', '__getattr__') or self.kind in ('static', 'class'):
            return
        if self.kind == 'method' and self.params and self.params[0] in set().union(*[stores(s) for s in fn.body] or [set()]):
            return
        # tail extraction
        body = fn.body
        start = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        if len(body) - start >= 3 and self.yes('tail', .6):
            k = self.rng.randrange(start + 1, len(body))
            imports = any(isinstance(x, (ast.Import, ast.ImportFrom)) for s in body[:k] for x in ast.walk(s))
            definite = set(self.params)
            for s in body[:k]:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        definite |= stores(t)
            maybe = set().union(*[stores(s) for s in body[:k]]) - definite
            used = set().union(*[loads(s) for s in body[k:]])
            # augmented assignments and conditional stores read/keep the old value
            used |= {x.target.id for s in body[k:] for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            locs = definite | maybe
            if not imports and not (used & maybe):
                free = sorted(used & locs)
                c = self.helper_call(fresh('_vtail'), free, copy.deepcopy(body[k:]))
                if c is not None:
                    fn.body = body[:k] + [ast.Return(value=c)]
                    LOG.append(('tail', fn.name))
        # expression extraction
        locs = set(self.params)
        for s in fn.body:
            locs |= stores(s)
        for s in fn.body:
            for st in [x for x in ast.walk(s) if isinstance(x, (ast.Return, ast.Assign)) and x.value is not None]:
                if isinstance(st.value, (ast.BinOp, ast.Call, ast.Compare)) and not has(st.value, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await) and \
                        self.yes('helper', .3):
                    imp = {a.asname or a.name.split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
                    if loads(st.value) & imp:
                        continue
                    free = sorted(loads(st.value) & locs)
                    c = self.helper_call(fresh('_vhelp'), free, [ast.Return(value=st.value)])
                    if c is not None:
                        st.value = c
                        LOG.append(('helper', fn.name))

    def rename(self, fn):
        if not self.yes('rename', .6):
            return
        locs = set().union(*[stores(s) for s in fn.body]) - set(self.params)
        imp = {a.asname or a.name.split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        exc = {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler)}
        locs -= imp | exc
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in locs:
                    x.id = x.id + '_v'
        LOG.append(('rename', fn.name))

    # ---- statement level
    def block(self, body, is_fn=False):
        out = []
        for i, st in enumerate(body):
            out.extend(self.stmt(st, body[i + 1:]))
        # statements after a jump are dead already in the original; merge guard clauses
        for i, st in enumerate(out):
            if isinstance(st, ast.If) and not st.orelse and exits(st.body) and i + 1 < len(out) and self.yes('guard', .5):
                LOG.append(('guard', self.fn.name))
                st.orelse = out[i + 1:]
                out = out[:i + 1]
                break
            if isinstance(st, ast.If) and st.orelse and exits(st.body) and self.yes('unguard', .5):
                LOG.append(('unguard', self.fn.name))
                out = out[:i] + [ast.If(test=st.test, body=st.body, orelse=[])] + st.orelse + out[i + 1:]
                break
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and pure(a.value) and pure(b.value) and \
                    all(isinstance(t, ast.Name) for t in a.targets + b.targets):
                sa, sb = stores(a), stores(b)
                if not (sa & (loads(b.value) | sb)) and not (sb & loads(a.value)) and self.yes('swap', .7):
                    out[i], out[i + 1] = b, a
                    LOG.append(('swap', self.fn.name))
                    i += 1
            i += 1
        return out

    def stmt(self, st, rest):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return [st]
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(st, f, None):
                setattr(st, f, self.block(getattr(st, f)))
        if isinstance(st, ast.Try):
            for h in st.handlers:
                h.body = self.block(h.body)
        out = []
        if isinstance(st, ast.If):
            st.test = self.test(st.test)
            if st.orelse and self.yes('ifswap', .6):
                st.test, st.body, st.orelse = negate(st.test), st.orelse, st.body
                LOG.append(('ifswap', self.fn.name))
            elif st.orelse and len(st.body) == len(st.orelse) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(st.orelse[0], ast.Assign) and \
                    len(st.body[0].targets) == len(st.orelse[0].targets) == 1 and isinstance(st.body[0].targets[0], ast.Name) and \
                    ast.dump(st.body[0].targets[0]) == ast.dump(st.orelse[0].targets[0]) and self.yes('ternary', .8):
                LOG.append(('ternary', self.fn.name))
                return [ast.Assign(targets=st.body[0].targets, value=ast.IfExp(test=st.test, body=st.body[0].value, orelse=st.orelse[0].value), lineno=1)]
            if not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And) and self.yes('nest', .6):
                LOG.append(('nest', self.fn.name))
                inner = ast.If(test=ast.BoolOp(op=ast.And(), values=st.test.values[1:]) if len(st.test.values) > 2 else st.test.values[1], body=st.body, orelse=[])
                st.test, st.body = st.test.values[0], [inner]
            if has(st.test, ast.BoolOp) is False and pure(st.test) and self.yes('tmpcond', .3):
                v = fresh('cond_v')
                LOG.append(('tmpcond', self.fn.name))
                out.append(ast.Assign(targets=[name(v, ast.Store())], value=st.test, lineno=1))
                st.test = name(v)
            return out + [st]
        if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == 'range' and \
                isinstance(st.target, ast.Name) and not st.orelse and not has(st, ast.Continue) and len(st.iter.args) <= 2 and not st.iter.keywords:
            i = st.target.id
            used_after = any(i in loads(r) for r in rest)
            if not used_after and i not in set().union(*[stores(s) for s in st.body]) and self.yes('while', .6):
                LOG.append(('while', self.fn.name))
                a = st.iter.args
                start, stop = (ast.Constant(0), a[0]) if len(a) == 1 else (a[0], a[1])
                v = fresh('stop_v')
                # start is evaluated first, as in the call
                return [ast.Assign(targets=[name(i, ast.Store())], value=start, lineno=1),
                        ast.Assign(targets=[name(v, ast.Store())], value=stop, lineno=1),
                        ast.While(test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[name(v)]),
                                  body=st.body + [ast.AugAssign(target=name(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
        if isinstance(st, ast.While):
            st.test = self.test(st.test)
            if not st.orelse and not (isinstance(st.test, ast.Constant)) and self.yes('whiletrue', .6):
                LOG.append(('whiletrue', self.fn.name))
                return [ast.While(test=ast.Constant(True), body=[ast.If(test=negate(st.test), body=[ast.Break()], orelse=[])] + st.body, orelse=[])]
            return [st]
        if isinstance(st, ast.For) and not st.orelse and isinstance(st.target, ast.Name) and isinstance(st.iter, (ast.Name, ast.Attribute)):
            it, tgt = ast.unparse(st.iter), st.target.id
            txt = '\n'.join(ast.unparse(b) for b in st.body)
            if len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(st.body[0].value, ast.Call) and \
                    isinstance(st.body[0].value.func, ast.Attribute) and st.body[0].value.func.attr == 'append' and self.yes('extend', .9):
                LOG.append(('extend', self.fn.name))
                c = st.body[0].value
                return [ast.Expr(value=ast.Call(func=ast.Attribute(value=c.func.value, attr='extend', ctx=ast.Load()), keywords=[], args=[ast.ListComp(
                    elt=c.args[0], generators=[ast.comprehension(target=st.target, iter=st.iter, ifs=[], is_async=0)])]))]
            if it not in txt and tgt not in set().union(*[stores(b) for b in st.body]) and self.yes('forindex', .7):
                LOG.append(('forindex', self.fn.name + ' ' + it))
                v = fresh('k_v')
                get = ast.Assign(targets=[st.target], value=ast.Subscript(value=st.iter, slice=name(v), ctx=ast.Load()), lineno=1)
                return [ast.For(target=name(v, ast.Store()), iter=ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[st.iter], keywords=[])], keywords=[]),
                                body=[get] + st.body, orelse=[], lineno=1)]
        if isinstance(st, ast.For) and not st.orelse and isinstance(st.target, ast.Tuple) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and \
                st.iter.func.id == 'enumerate' and len(st.iter.args) == 1 and isinstance(st.iter.args[0], (ast.Name, ast.Attribute)) and \
                all(isinstance(e, ast.Name) for e in st.target.elts) and self.yes('unenum', .9):
            LOG.append(('unenum', self.fn.name))
            i, x = st.target.elts
            xs = st.iter.args[0]
            get = ast.Assign(targets=[x], value=ast.Subscript(value=xs, slice=name(i.id), ctx=ast.Load()), lineno=1)
            return [ast.For(target=i, iter=ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[xs], keywords=[])], keywords=[]),
                            body=[get] + st.body, orelse=[], lineno=1)]
        if isinstance(st, (ast.Assign, ast.Return, ast.AugAssign, ast.Expr)) and getattr(st, 'value', None) is not None:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.IfExp) and self.yes('unternary', .8):
                LOG.append(('unternary', self.fn.name))
                t = st.targets
                return [ast.If(test=st.value.test, body=[ast.Assign(targets=t, value=st.value.body, lineno=1)],
                               orelse=[ast.Assign(targets=t, value=st.value.orelse, lineno=1)])]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.ListComp) and \
                    len(st.value.generators) == 1 and st.targets[0].id not in loads(st.value) and self.yes('unlist', .9):
                g = st.value.generators[0]
                if isinstance(g.target, ast.Name) and not has(st.value.elt, ast.ListComp):
                    LOG.append(('unlist', self.fn.name))
                    tgt = st.targets[0].id
                    add = ast.Expr(value=ast.Call(func=ast.Attribute(value=name(tgt), attr='append', ctx=ast.Load()), args=[st.value.elt], keywords=[]))
                    body = [add]
                    for c in g.ifs:
                        body = [ast.If(test=c, body=body, orelse=[])]
                    return [ast.Assign(targets=st.targets, value=ast.List(elts=[], ctx=ast.Load()), lineno=1),
                            ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=1)]
            if isinstance(st, ast.Return) and isinstance(st.value, ast.BoolOp) is False and not isinstance(st.value, (ast.Constant, ast.Name)) and self.yes('rettmp', .4):
                v = fresh('ret_v')
                LOG.append(('rettmp', self.fn.name))
                return [ast.Assign(targets=[name(v, ast.Store())], value=st.value, lineno=1), ast.Return(value=name(v))]
            cands = [e for e in unconditional(st.value) if isinstance(e, ast.BinOp) and pure(e) and e is not st.value and not isinstance(e.op, ast.Mod)]
            if cands and self.yes('extract', .6):
                e = self.rng.choice(cands)
                v = fresh('tmp_v')
                LOG.append(('extract', self.fn.name))
                out.append(ast.Assign(targets=[name(v, ast.Store())], value=e, lineno=1))
                st.value = Sub(e, name(v)).visit(st.value)
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.value, ast.Constant) and self.yes('augment', .6):
                LOG.append(('augment', self.fn.name))
                return out + [ast.Assign(targets=[name(st.target.id, ast.Store())], value=ast.BinOp(left=name(st.target.id), op=st.op, right=st.value), lineno=1)]
            return out + [st]
        return [st]

    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def test(self, t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in self.FLIP and pure(t) and self.yes('flip', .5):
            LOG.append(('flip', self.fn.name))
            return ast.Compare(left=t.comparators[0], ops=[self.FLIP[type(t.ops[0])]()], comparators=[t.left])
        if isinstance(t, ast.BoolOp):
            t.values = [self.test(v) for v in t.values]
            if self.yes('demorgan', .4):
                LOG.append(('demorgan', self.fn.name))
                op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                return ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[negate(v) for v in t.values]))
        return t


def main():
    src, dst, seed, prob = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    kinds = set(sys.argv[5].split(',')) if len(sys.argv) > 5 else None
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True)
    rng = random.Random(seed)
    for d, _, fs in sorted(os.walk(os.path.join(dst, 'pytracer'))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith('.py') or '/data' in p:
                continue
            tree = ast.parse(open(p).read())
            Rewriter(rng, prob, kinds).module(tree)
            ast.fix_missing_locations(tree)
            with open(p, 'w') as fh:
                fh.write(ast.unparse(tree) + '\n')
    import collections
    print(dict(collections.Counter(k for k, _ in LOG)))


main()
