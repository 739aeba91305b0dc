"""Effects of functions on objects they did not create.

For every function of the package: which of the objects reachable from its receiver, its parameters or module variables it may modify
(attribute and item stores, in-place operators on arrays, mutating container and array methods, effects of the functions it calls), and
which of them its result may alias.  Variables are tracked flow-sensitively (a rebound name forgets what it was), calls are resolved
through the class hierarchy, summaries are computed to a fixpoint over the call graph.
"""
import ast
from .resolve import params, walk_own, targets
from .loader import ClassInfo, FuncInfo

CONTAINER = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'itemset',
             'put', 'resize', 'partition', 'setflags', 'appendleft', 'popleft', 'heappush'}
VIEWS = {'view', 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'flat', 'T', 'real', 'imag'}
NPVIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'reshape', 'ravel', 'squeeze', 'transpose', 'atleast_1d', 'atleast_2d', 'swapaxes', 'broadcast_to', 'diagonal', 'moveaxis', 'rollaxis', 'flipud', 'fliplr', 'flip'}
NPWRITES = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'shuffle': 0}
SCALAR = {'FLOAT', 'INT', 'UINT', 'DOUBLE', 'float', 'int', 'bool', 'str', 'np.float64', 'np.int', 'np.uint32', 'bytes', 'complex', 'tuple'}
ARRAYS = {'np.ndarray', 'ndarray', 'list', 'dict', 'set'}
DEPTH = 3
NUM, ARR, ANY = 'num', 'arr', None


def cut(p):
    return p if len(p) <= DEPTH else p[:DEPTH]


class Val:
    """what an expression may denote: places of pre-existing objects it may alias, its type when certain, the parts of a display"""
    __slots__ = ('r', 't', 'parts', 'cls', 'fields')

    def __init__(self, r=frozenset(), t=ANY, parts=None, cls=None, fields=None):
        self.r, self.t, self.parts, self.cls, self.fields = r, t, parts, cls, fields

    def sub(self, name, t=ANY, cls=None):
        if self.fields is not None and name in self.fields:
            f = self.fields[name]
            return f if f.t is not ANY and f.t == t and f.cls is cls or t is ANY else Val(f.r, t, f.parts, cls, f.fields)
        return Val(frozenset(cut(p + (name,)) for p in self.r), t, None, cls)


FRESH = Val()
NUMBER = Val(frozenset(), NUM)


def merge(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    parts = None
    if a.parts is not None and b.parts is not None and len(a.parts) == len(b.parts):
        parts = [merge(x, y) for x, y in zip(a.parts, b.parts)]
    fields = None
    if a.fields is not None or b.fields is not None:
        fields = {k: merge((a.fields or {}).get(k) or FRESH, (b.fields or {}).get(k) or FRESH) for k in {**(a.fields or {}), **(b.fields or {})}}
    return Val(a.r | b.r, a.t if a.t == b.t else ANY, parts, a.cls if a.cls == b.cls else None, fields)


def objects(v, path):
    """places of what a path of attributes and items leads to"""
    if not path:
        return set(v.r)
    if path[0] == '[]' and v.parts is not None:
        return set().union(*[objects(x, path[1:]) for x in v.parts])
    if v.fields is not None and path[0] in v.fields:
        return objects(v.fields[path[0]], path[1:])
    return {cut(r + path) for r in v.r}


class Summary:
    __slots__ = ('effects', 'ret', 'made')

    def __init__(self):
        self.effects = {}       # place -> (description, location) of one cause
        self.ret = None         # Val
        self.made = {}          # attribute -> Val, for constructors

    def key(self):
        return (frozenset(self.effects), _vk(self.ret), tuple(sorted((k, _vk(v)) for k, v in self.made.items() if v.r)))


def _vk(v):
    return None if v is None else (v.r, v.t, v.cls, None if v.parts is None else tuple(_vk(x) for x in v.parts),
                                  None if v.fields is None else tuple(sorted((k, _vk(x)) for k, x in v.fields.items() if x.r)))


class Effects:
    def __init__(self, certain, contracts=None):
        self.c = certain
        self.contracts = contracts or {}
        self.sum = {}           # node -> Summary
        self.fns = {}           # node -> (FuncInfo, frame)
        self.index = {}         # the call resolution works on normalised trees, the analysis on the text as it is
        self.attrs = {}
        self.deps = {}
        self.sites = 0

    # -- types
    def ann(self, e, module):
        """type of an annotation: NUM, ARR or a class"""
        if e is None:
            return ANY, None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return ANY, None
        if isinstance(e, ast.List) or isinstance(e, ast.Subscript) and ast.unparse(e.value) in ('List', 'list', 'typing.List'):
            return ARR, None
        s = ast.unparse(e)
        if s in SCALAR or s.split('.')[-1] in ('FLOAT', 'INT', 'UINT', 'DOUBLE'):
            return NUM, None
        if s in ARRAYS:
            return ARR, None
        k = self.c.annotated(e, module)
        if k is None and isinstance(e, (ast.Name, ast.Attribute)):
            # a name in a string need not be imported there: the one class of that name
            n = 'CoefficientSpectrum' if s.split('.')[-1] == 'Spectrum' else s.split('.')[-1]
            ks = [x for x in self.c.all_classes if x.name == n]
            k = ks[0] if len(ks) == 1 and not self.c.enum(ks[0]) else None
        if k is not None:
            return (ARR if self.arrayclass(k) else 'obj'), k
        return ANY, None

    def arrayclass(self, k):
        """does the class define in-place arithmetic (ndarray subclasses, or an explicit __iadd__)"""
        for x in k.mro():
            if not isinstance(x, ClassInfo):
                return 'ndarray' in str(x)
            if any(n in x.methods for n in ('__iadd__', '__imul__')):
                return True
        return any('ndarray' in str(b) for b in k.external_bases())

    def attr_type(self, cls, name):
        """type of an attribute when every assignment in the hierarchy agrees"""
        key = (cls, name)
        if key in self.attrs:
            return self.attrs[key]
        self.attrs[key] = (ANY, None)
        ts = set()
        c = self.c
        fam = {x for y in [cls] + c.subs.get(cls, []) for x in y.mro() if isinstance(x, ClassInfo)}
        for k in fam:
            for f in k.all_defs:
                ps = params(f.node)
                if not ps:
                    continue
                for s in walk_own(f.node):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else ()
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == ps[0] and k.mangled(x.attr) == name:
                                if isinstance(s, ast.AugAssign):
                                    continue
                                v = s.value
                                if t is not x and isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts) and x in t.elts:
                                    v = v.elts[t.elts.index(x)]
                                elif t is not x:
                                    v = None
                                ts.add(self.simple_type(v, f, k))
        ts.discard('none')
        r = ts.pop() if len(ts) == 1 else (ANY, None)
        self.attrs[key] = r
        return r

    def simple_type(self, v, f, k):
        if v is None:
            return ANY, None
        if isinstance(v, ast.Constant):
            return 'none' if v.value is None else (NUM, None)
        if isinstance(v, ast.Name):
            a = next((a for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg == v.id), None)
            if a is not None and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == v.id for x in walk_own(f.node)):
                return self.ann(a.annotation, f.module)
            return ANY, None
        if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp)):
            return ARR, None
        if isinstance(v, ast.Call):
            fn = v.func
            if isinstance(fn, ast.Attribute) and fn.attr == 'copy' and not v.args:
                return self.simple_type(fn.value, f, k)
            if isinstance(fn, (ast.Name, ast.Attribute)):
                s = ast.unparse(fn)
                if s in ('len', 'int', 'float', 'bool', 'FLOAT', 'INT', 'UINT', 'str', 'min', 'max', 'abs', 'round', 'np.sqrt', 'np.cos', 'np.sin', 'np.tan'):
                    return (NUM, None) if s in ('len', 'int', 'float', 'bool', 'FLOAT', 'INT', 'UINT', 'str') else (ANY, None)
                if s.startswith('np.') and s.split('.')[-1] in ('zeros', 'ones', 'empty', 'full', 'array', 'arange', 'eye'):
                    return ARR, None
                r = f.module.resolve_expr(fn)
                if isinstance(r, ClassInfo) and not self.c.enum(r):
                    return (ARR if self.arrayclass(r) else 'obj'), r
        return ANY, None

    def node(self, fi):
        return self.index.get((fi.module.name, fi.node.lineno, fi.name), fi.node)

    def summary(self, fi):
        return self.sum.get(self.node(fi))

    def effects(self, fi):
        """what a call of the function may modify: by its contract if it has one"""
        n = self.node(fi)
        if n in self.contracts:
            return self.contracts[n]
        s = self.sum.get(n)
        return s.effects if s is not None else {}

    # -- summaries
    def functions(self):
        for fi, fr in self.c.done:
            self.fns[fr.node] = (fi, fr)
            self.index[fr.module.name, fr.node.lineno, fi.name] = fr.node

    def run(self):
        self.functions()
        todo = list(self.fns)
        self.sum = {n: Summary() for n in todo}
        users = {}
        self.users = users
        pending = set(todo)
        rounds = 0
        while todo and rounds < 40 * len(self.fns):
            rounds += 1
            n = todo.pop(0)
            pending.discard(n)
            old = self.sum[n].key()
            s = Flow(self, *self.fns[n]).summary()
            self.sum[n] = s
            if s.key() != old:
                for u in users.get(n, ()):
                    if u not in pending:
                        pending.add(u)
                        todo.append(u)
        return self

    def callees(self, e, fr, recv):
        """package functions the call may reach, with the number of leading arguments supplied by the receiver; None when unknown"""
        c = self.c
        f = e.func
        self.named = False      # candidates known by the name of the method only
        if isinstance(f, ast.Attribute):
            n = fr.cls.mangled(f.attr) if fr.cls is not None else f.attr
            b = c.kind(f.value, fr)
            if b is None and recv is not None and recv.cls is not None:
                b = ('any', recv.cls)
            if b is not None and b[0] in ('any', 'self', 'inst') and c.lookup(b[1], n) is None:
                k = self.attr_type(b[1], n)[1]
                return [(x, 2) for x in c.family(k, '__call__') if isinstance(x, FuncInfo)] if k is not None else []
            if b is not None and b[0] in ('any', 'self', 'inst'):
                if b[0] == 'inst':
                    r = c.lookup(b[1], n)
                    fs = [r[1]] if r is not None else []
                else:
                    fs = c.family(b[1], n)
                return [(x, 1 if x.kind == 'method' else 0 if x.kind == 'staticmethod' else -1) for x in fs if isinstance(x, FuncInfo) and x.kind in ('method', 'classmethod', 'staticmethod')]
            if b is not None and b[0] == 'super':
                r = c.lookup(b[1], n, True)
                return [(r[1], 1)] if r is not None and isinstance(r[1], FuncInfo) and r[1].kind == 'method' else []
            if b is not None and b[0] == 'class':
                r = c.lookup(b[1], n)
                if r is not None and isinstance(r[1], FuncInfo):
                    return [(r[1], -1 if r[1].kind == 'classmethod' else 0)]
                return []
            k = c.kind(f, fr)
            if k is not None and k[0] == 'func':
                return [(k[1], 0)]
            if k is not None and k[0] == 'class':
                return [k]
            if b is None:
                self.named = True
                fs = c.by_name(n)
                tops = {[k for k in x.cls.mro() if isinstance(k, ClassInfo) and n in k.methods][-1] for x in fs if x.cls is not None}
                return [(x, 1) for x in fs] if len(tops) == 1 else []
            return []
        k = c.kind(f, fr)
        if k is not None and k[0] == 'func':
            return [(k[1], 0)]
        if k is not None and k[0] == 'class':
            return [k]
        if k is not None and k[0] in ('any', 'inst'):
            return [(x, 2) for x in c.family(k[1], '__call__') if isinstance(x, FuncInfo)]
        if isinstance(f, ast.Name) and fr.cls is not None and fr.outer is None and fr.node in self.fns and self.fns[fr.node][0].kind == 'classmethod' and params(fr.node)[:1] == [f.id] and not any(isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store) for x in walk_own(fr.node)):
            return [('class', fr.cls)]
        if isinstance(f, ast.Name):
            g = fr
            while g is not None:
                for x in walk_own(g.node):
                    if isinstance(x, ast.FunctionDef) and x.name == f.id and x in self.fns:
                        return [(self.fns[x][0], 0)]
                g = g.outer
        return []


class Flow:
    def __init__(self, E, fi, fr):
        self.E, self.fi, self.fr = E, fi, fr
        self.s = Summary()
        self.env = {}
        self.ctor = fi.name in ('__init__', '__new__', '__array_finalize__') and fr.cls is not None and fr.outer is None
        node = fr.node
        ps = params(node)
        anns = {a.arg: a.annotation for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        for i, p in enumerate(ps):
            t, k = E.ann(anns.get(p), fr.module)
            kd = fr.kinds.get(p)
            if i == 0 and fr.cls is not None and fr.outer is None and fi.kind in ('method', 'property', 'setter') and node.name != '__new__':
                t, k = (ARR if E.arrayclass(fr.cls) else 'obj'), fr.cls
            self.env[p] = Val(frozenset([('%' + str(i),)]) if t != NUM else frozenset(), t, None, k)
        if node.args.vararg:
            self.env[node.args.vararg.arg] = Val(frozenset([('*' + node.args.vararg.arg,)]))
        if node.args.kwarg:
            self.env[node.args.kwarg.arg] = Val(frozenset([('*' + node.args.kwarg.arg,)]))
        if self.ctor and ps:
            self.env[ps[0]] = Val(frozenset(), 'obj', None, fr.cls, {})

    def summary(self):
        node = self.fr.node
        if isinstance(node, ast.Lambda):
            self.s.ret = self.val(node.body)
        else:
            self.block(node.body)
            self.leave()
        return self.s

    def leave(self):
        """a constructor ends: what the new object holds"""
        ps = params(self.fr.node)
        if self.ctor and ps and self.env is not None:
            for k, v in (self.env[ps[0]].fields or {}).items():
                self.s.made[k] = merge(self.s.made.get(k), v) if k in self.s.made else v

    def update(self, e, v, name, new):
        """attribute of a local object: every variable that denotes it now sees the new value"""
        if v.fields is None or not isinstance(e, ast.Name):
            return
        fs = dict(v.fields)
        if new is None:
            fs.pop(name, None)
        else:
            fs[name] = new
        nv = Val(v.r, v.t, v.parts, v.cls, fs)
        for k, x in self.env.items():
            if x is v:
                self.env[k] = nv

    def loc(self, n):
        return '%s:%d' % (self.fr.module.path if hasattr(self.fr.module, 'path') else self.fr.module.name, getattr(n, 'lineno', 0))

    def effect(self, v, what, node, name=None, must=True):
        for p in v.r:
            q = cut(p + (name,)) if name is not None else p
            self.s.effects.setdefault(q, (what, self.loc(node)))

    # -- statements
    def block(self, body):
        for s in body:
            if self.env is None:
                return
            self.stmt(s)

    def joined(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: merge(a.get(k), b.get(k)) for k in {**a, **b}}

    def branch(self, *bodies):
        start, out = self.env, None
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            out = self.joined(out, self.env)
        self.env = out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.val(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.val(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.val(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                old = self.name(t.id)
                if old.t == ARR:
                    self.effect(old, 'in-place operator on %s' % t.id, s, '[]')
                else:
                    self.env[t.id] = Val(frozenset(), NUM if old.t == NUM and v.t == NUM else ANY)
                if t.id in self.fr.globals:
                    self.glob(t.id, s)
            elif isinstance(t, ast.Attribute):
                b = self.val(t.value)
                self.effect(b, 'in-place operator on .%s' % t.attr, s, self.attr(t.attr))
                if b.fields is not None:
                    x = self.v_Attribute(t)
                    if x.t == ARR:
                        self.effect(x, 'in-place operator on .%s' % t.attr, s, '[]')
            elif isinstance(t, ast.Subscript):
                b = self.val(t.value)
                self.val(t.slice)
                self.effect(b, 'in-place operator on an item', s, '[]')
        elif isinstance(s, ast.Expr):
            self.val(s.value)
        elif isinstance(s, ast.Return):
            v = self.val(s.value) if s.value is not None else NUMBER
            self.s.ret = merge(self.s.ret, v)
            self.leave()
            self.env = None
        elif isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    self.val(e)
            self.env = None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(dict(self.env))
            self.env = None
        elif isinstance(s, ast.If):
            self.val(s.test)
            self.narrow(s)
        elif isinstance(s, (ast.For, ast.While)):
            self.loop(s)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.val(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, FRESH, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            mid = self.joined(start, self.env)
            if self.env is not None and s.orelse:
                self.block(s.orelse)
            out = self.env
            for h in s.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = FRESH
                self.block(h.body)
                out = self.joined(out, self.env)
            self.env = out
            if s.finalbody:
                dead = self.env is None
                if dead:
                    self.env = dict(mid)
                self.block(s.finalbody)
                if dead:
                    self.env = None
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    self.effect(self.val(t.value), 'del .%s' % t.attr, s, t.attr)
                elif isinstance(t, ast.Subscript):
                    self.effect(self.val(t.value), 'del of an item', s, '[]')
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.env.pop(a.asname or a.name.split('.')[0], None)
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = FRESH
            self.nested(s)
        elif isinstance(s, ast.Assert):
            self.val(s.test)

    def narrow(self, s):
        """a type test says what the tested name is inside"""
        start = self.env
        self.env = dict(start)
        t = s.test
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id in self.env:
            ks = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            ts = {self.E.ann(k, self.fr.module) for k in ks}
            v = self.env[t.args[0].id]
            if len(ts) == 1:
                a, k = ts.pop()
                if a is not ANY:
                    self.env[t.args[0].id] = Val(v.r if a != NUM else frozenset(), a, v.parts, k)
            elif all(x[0] == NUM for x in ts):
                self.env[t.args[0].id] = Val(frozenset(), NUM)
        self.block(s.body)
        a = self.env
        self.env = dict(start)
        self.block(s.orelse)
        self.env = self.joined(a, self.env)

    loops = ()

    def loop(self, s):
        if isinstance(s, ast.While):
            self.val(s.test)
        else:
            it = self.val(s.iter)
        exits = []
        old = self.loops
        for _ in range(3):
            start = dict(self.env)
            self.loops = list(old) + [exits]
            if isinstance(s, ast.While):
                self.val(s.test)
            else:
                self.assign(s.target, self.element(s.iter, it), s)
            self.block(s.body)
            for x in exits:
                self.env = self.joined(self.env, x)
            exits.clear()
            self.loops = old
            self.env = self.joined(start, self.env)
            if {k: _vk(v) for k, v in self.env.items()} == {k: _vk(v) for k, v in start.items()}:
                break
        if s.orelse:
            self.block(s.orelse)

    def element(self, e, v):
        if v.parts is not None:
            out = None
            for p in v.parts:
                out = merge(out, p)
            return out or FRESH
        return v.sub('[]')

    def nested(self, s):
        """a local function may run any time: what it does to captured objects counts here"""
        node = s
        f = self.E.fns.get(node)
        if f is None:
            return
        inner = Flow(self.E, f[0], f[1])
        for k, v in self.env.items():
            inner.env.setdefault(k, v)
        inner.captured = set(self.env) - set(params(node))
        sm = inner.summary()
        for p, why in sm.effects.items():
            if not (p[0].startswith('%') and self.own(p, inner)):
                self.s.effects.setdefault(p, why)

    def own(self, p, inner):
        return False

    def glob(self, n, node):
        self.s.effects.setdefault(('@' + self.fr.module.name, n), ('module variable %s is rebound' % n, self.loc(node)))

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if t.id in self.fr.globals:
                self.glob(t.id, s)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.parts is not None and len(v.parts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.parts):
                    self.assign(x, y, s)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v.sub('[]'), s)
        elif isinstance(t, ast.Attribute):
            b = self.val(t.value)
            k = self.E.c.kind(t.value, self.fr)
            if k is not None and k[0] == 'mod':
                self.s.effects.setdefault(('@' + k[1], t.attr), ('module variable %s is rebound' % t.attr, self.loc(s)))
            self.effect(b, 'assignment to .%s' % t.attr, s, self.attr(t.attr))
            self.update(t.value, b, self.attr(t.attr), v)
        elif isinstance(t, ast.Subscript):
            b = self.val(t.value)
            self.val(t.slice)
            self.effect(b, 'assignment to an item', s, '[]')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def attr(self, n):
        return self.fr.cls.mangled(n) if self.fr.cls is not None else n

    # -- expressions
    def name(self, n):
        if n in self.env:
            return self.env[n]
        if n in self.fr.locals and n not in self.fr.globals:
            return FRESH
        r = self.fr.module.resolve(n)
        if isinstance(r, ClassInfo):
            return Val(frozenset([('@' + r.qual,)]), 'class')
        if isinstance(r, tuple) and r[0] == 'assign' and r[1] is not None:
            vs = r[1].assigns.get(r[2], [])
            if vs and all(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp)) for x in vs if x is not None):
                return Val(frozenset([('@' + r[1].name, r[2])]), ARR)
            if vs and all(isinstance(x, ast.Call) for x in vs if x is not None):
                return Val(frozenset([('@' + r[1].name, r[2])]), ANY)
        return FRESH

    def val(self, e):
        m = getattr(self, 'v_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.val(x)
        return FRESH

    def v_Constant(self, e):
        return NUMBER

    def v_Name(self, e):
        return self.name(e.id)

    def v_NamedExpr(self, e):
        v = self.val(e.value)
        self.env[e.target.id] = v
        return v

    def v_Tuple(self, e):
        ps = [self.val(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return Val(frozenset().union(*[p.r for p in ps]) if ps else frozenset(), ANY)
        return Val(frozenset(), ANY if isinstance(e, ast.Tuple) else ARR, ps)

    v_List = v_Tuple

    def v_IfExp(self, e):
        self.val(e.test)
        return merge(self.val(e.body), self.val(e.orelse))

    def v_BoolOp(self, e):
        out = None
        for x in e.values:
            out = merge(out, self.val(x))
        return out

    def v_Compare(self, e):
        self.val(e.left)
        for x in e.comparators:
            self.val(x)
        return NUMBER

    def v_BinOp(self, e):
        a, b = self.val(e.left), self.val(e.right)
        if a.t == NUM and b.t == NUM:
            return NUMBER
        if ARR in (a.t, b.t):
            return Val(frozenset(), ARR, None, a.cls if a.t == ARR else b.cls)
        return FRESH

    def v_UnaryOp(self, e):
        v = self.val(e.operand)
        return Val(frozenset(), v.t, None, v.cls)

    def v_Starred(self, e):
        return self.val(e.value)

    def v_Lambda(self, e):
        f = self.E.fns.get(e)
        old = dict(self.env)
        for p in params(e):
            self.env[p] = FRESH
        self.val(e.body)
        self.env = old
        return FRESH

    def v_ListComp(self, e):
        old = dict(self.env)
        for g in e.generators:
            it = self.val(g.iter)
            self.assign(g.target, self.element(g.iter, it), e)
            for c in g.ifs:
                self.val(c)
        v = self.val(e.elt) if not isinstance(e, ast.DictComp) else (self.val(e.key), self.val(e.value))[1]
        self.env = old
        return Val(frozenset(), ARR, [v])  if not isinstance(e, ast.GeneratorExp) else Val(frozenset(), ANY, [v])

    v_SetComp = v_GeneratorExp = v_DictComp = v_ListComp

    def v_Dict(self, e):
        for x in list(e.keys) + list(e.values):
            if x is not None:
                self.val(x)
        return Val(frozenset(), ARR)

    def v_Subscript(self, e):
        b = self.val(e.value)
        self.val(e.slice)
        if b.parts is not None:
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b.parts) <= e.slice.value < len(b.parts):
                return b.parts[e.slice.value]
            return self.element(e, b)
        if isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            return Val(b.r, b.t, None, None)        # views of arrays; slices of lists hold the same elements
        if b.cls is not None and self.E.arrayclass(b.cls):
            return NUMBER
        return b.sub('[]')

    def v_Attribute(self, e):
        b = self.val(e.value)
        n = self.attr(e.attr)
        if n in VIEWS:
            return b
        k = self.E.c.kind(e.value, self.fr)
        c = k[1] if k is not None and k[0] in ('any', 'self', 'inst') else b.cls
        if k is not None and k[0] == 'class':
            r = self.E.c.lookup(k[1], n)
            if r is not None and not isinstance(r[1], FuncInfo) and not isinstance(r[1], ClassInfo):
                return NUMBER if isinstance(r[1], ast.Constant) and r[1].value is not None else Val(frozenset([('@' + r[0].qual, n)]))
            return FRESH
        if k is not None and k[0] == 'mod':
            m = self.E.c.p.modules.get(k[1])
            r = m.resolve(n) if m is not None else None
            if isinstance(r, tuple) and r[0] == 'assign' and r[1] is not None:
                return Val(frozenset([('@' + k[1], n)]))
            return FRESH
        if c is not None:
            r = self.E.c.lookup(c, n)
            if r is not None and isinstance(r[1], FuncInfo) and r[1].kind == 'property':
                out = None
                for f in self.E.c.family(c, n):
                    if isinstance(f, FuncInfo):
                        out = merge(out, self.apply(f, [b], {}, e))
                return out or FRESH
            if r is not None and not isinstance(r[1], FuncInfo):
                # class attribute: shared by all instances
                tk = self.E.simple_type(r[1], None, None) if isinstance(r[1], (ast.Constant, ast.List, ast.Dict)) and not isinstance(r[1], ast.Name) else (ANY, None)
                t = ANY if tk == 'none' else tk[0]
                if t == NUM:
                    return NUMBER
                return Val(frozenset([('@' + r[0].qual, n)]) | b.sub(n).r, t)
            t, kk = self.E.attr_type(c, n)
            if t == NUM:
                return NUMBER
            return b.sub(n, t, kk)
        return b.sub(n)

    def args(self, e):
        pos, kw, star = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = True
                pos.append(self.val(a.value))
            else:
                pos.append(self.val(a))
        for w in e.keywords:
            v = self.val(w.value)
            if w.arg is None:
                star = True
            else:
                kw[w.arg] = v
        return pos, kw, star

    def v_Call(self, e):
        f = e.func
        fr, E = self.fr, self.E
        recv = self.val(f.value) if isinstance(f, ast.Attribute) else self.val(f) if isinstance(f, ast.Name) and f.id in self.env else None
        pos, kw, star = self.args(e)
        k = E.c.kind(f, fr)
        if k is not None and k[0] == 'ext':
            return self.external(k[1], pos, kw, e)
        cs = E.callees(e, fr, recv)
        if cs:
            E.sites += 1
            out = None
            common = None
            if E.named and len(cs) > 1:
                for x in cs:
                    ef = set(E.effects(x[0]))
                    common = ef if common is None else common & ef
            for c in cs:
                if c[0] == 'class':
                    r = E.c.lookup(c[1], '__new__')
                    if r is not None and isinstance(r[1], FuncInfo):
                        v = self.apply(r[1], [FRESH] + pos, kw, e)
                        if not star and E.arrayclass(c[1]):
                            out = merge(out, Val(v.r, ARR, None, c[1]))
                            continue
                    r = E.c.lookup(c[1], '__init__')
                    fs = None
                    if r is not None and isinstance(r[1], FuncInfo):
                        if not star:
                            fs = self.made(r[1], [FRESH] + pos, kw)
                        self.apply(r[1], [FRESH] + pos, kw, e)
                    out = merge(out, Val(frozenset(), ARR if E.arrayclass(c[1]) else 'obj', None, c[1], fs))
                    continue
                fi, lead = c
                if lead == 2 and isinstance(f, ast.Attribute):
                    a = [self.v_Attribute(f)] + pos
                elif lead == 1:
                    b = recv
                    if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                        ps = params(fr.node)
                        b = self.env.get(ps[0], FRESH) if ps and self.env is not None else FRESH
                    a = [b] + pos
                elif lead == 2:
                    a = [recv if recv is not None else FRESH] + pos
                elif lead == -1:
                    a = [FRESH] + pos
                else:
                    a = pos
                if star:
                    a = a[:1] if lead == 1 else []
                if fi.name == '__init__' and self.ctor and a and a[0].fields is not None and not star:
                    fs = self.made(fi, a, kw)
                    n = params(fr.node)[0]
                    self.env[n] = Val(a[0].r, a[0].t, None, a[0].cls, {**a[0].fields, **fs})
                v = self.apply(fi, a, kw, e, common)
                out = merge(out, v) if common is None else Val(out.r & v.r if out is not None else v.r)
                sm = E.summary(fi)
                if sm is not None:
                    for i, (x, ex) in enumerate(zip(a, ([f.value] if lead == 1 else [None] if lead else []) + list(e.args))):
                        if x is not None and x.fields and isinstance(ex, ast.Name):
                            for q in E.effects(fi):
                                if q[0] == '%' + str(i) and len(q) == 2:
                                    self.update(ex, self.env.get(ex.id, x), q[1], None)
            return out or FRESH
        if isinstance(f, ast.Attribute):
            n = f.attr
            b = E.c.kind(f.value, fr)
            if n in CONTAINER and not (b is not None and b[0] in ('mod', 'ext', 'class')):
                self.effect(recv, '.%s()' % n, e, '[]')
                if n in ('pop', 'setdefault', 'popitem'):
                    return recv.sub('[]')
                return FRESH
            if n in ('get', 'values', 'items', 'keys', '__getitem__'):
                return recv.sub('[]')
            if n in VIEWS:
                return Val(recv.r, recv.t)
            if n == 'copy':
                return Val(frozenset(), recv.t, None, recv.cls)
        elif isinstance(f, ast.Name):
            if f.id in ('len', 'int', 'float', 'bool', 'str', 'abs', 'round', 'isinstance', 'range', 'sum', 'any', 'all'):
                return NUMBER if f.id not in ('abs', 'sum', 'round') else FRESH
            if f.id in ('min', 'max') and len(pos) > 1:
                out = None
                for p in pos:
                    out = merge(out, p)
                return out
            if f.id in ('list', 'tuple', 'sorted', 'set', 'iter', 'reversed', 'dict') and pos:
                p = pos[0]
                return Val(frozenset(), ARR if f.id != 'tuple' else ANY, [self.element(None, p)])
            if f.id == 'enumerate' and pos:
                return Val(frozenset(), ANY, [Val(frozenset(), ANY, [NUMBER, self.element(None, pos[0])])])
            if f.id == 'zip':
                return Val(frozenset(), ANY, [Val(frozenset(), ANY, [self.element(None, p) for p in pos])])
            if f.id == 'setattr' and pos:
                n = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '?'
                self.effect(pos[0], 'setattr', e, str(n))
        return FRESH

    def external(self, name, pos, kw, e):
        n = name.rstrip('()[]').split('.')[-1]
        if 'out' in kw:
            self.effect(kw['out'], 'out= of %s' % n, e, '[]')
        if n in NPWRITES and pos:
            self.effect(pos[NPWRITES[n]], '%s()' % n, e, '[]')
        if name.endswith('.at') and pos:
            self.effect(pos[0], '%s()' % name, e, '[]')
        if n in NPVIEWS and pos:
            return Val(pos[0].r, ANY)
        if n in ('zeros', 'ones', 'empty', 'full', 'array', 'arange', 'eye', 'zeros_like', 'ones_like', 'copy', 'linspace', 'identity'):
            return Val(frozenset(), ARR)
        return FRESH

    def made(self, fi, args, kw):
        sm = self.E.summary(fi)
        ps = params(fi.node)
        m = {'%' + str(i): a for i, a in enumerate(args)}
        m.update({'%' + str(ps.index(n)): v for n, v in kw.items() if n in ps})
        return {k: self.back(v, m) for k, v in sm.made.items()} if sm is not None else {}

    def apply(self, fi, args, kw, e, common=None):
        """the effects and the result of a call, in terms of the caller"""
        E = self.E
        sm = E.summary(fi)
        E.users.setdefault(E.node(fi), set()).add(self.fr.node)
        if sm is None:
            return FRESH
        ps = params(fi.node)
        m = {}
        for i, a in enumerate(args):
            if i < len(ps):
                m['%' + str(i)] = a
        for n, v in kw.items():
            if n in ps:
                m['%' + str(ps.index(n))] = v
        for p, (what, loc) in E.effects(fi).items():
            if common is not None and p not in common:
                continue
            if p[0].startswith('@'):
                if fi.name in ('__init__', '__new__'):
                    continue            # allocation
                self.s.effects.setdefault(p, (what, loc))
                continue
            v = m.get(p[0])
            if v is None:
                continue
            why = (what if ' in ' in what else '%s in %s' % (what, fi.qual), loc) if loc is not None else (what, self.loc(e))
            for r in objects(v, p[1:-1]):
                self.s.effects.setdefault(cut(r + p[-1:] if len(p) > 1 else r), why)
        return self.back(sm.ret, m)

    def back(self, v, m):
        if v is None:
            return FRESH
        r = set()
        for p in v.r:
            if p[0].startswith('%'):
                a = m.get(p[0])
                if a is not None:
                    r |= objects(a, p[1:])
            elif p[0].startswith('@'):
                r.add(p)
        return Val(frozenset(r), v.t, None if v.parts is None else [self.back(x, m) for x in v.parts], v.cls,
                   None if v.fields is None else {k: self.back(x, m) for k, x in v.fields.items()})
