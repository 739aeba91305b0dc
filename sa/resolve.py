"""Certain failures: constructs that raise whenever they are executed.

Two classical analyses over the syntax trees of the whole package, nothing is imported or executed.
``Imports`` replays the module-level statements in import order (which names are bound when each of them runs), once for
every module of the package as the first one imported.  ``Certain`` checks every function body: names, attributes, argument
lists, instantiations, format strings, function-level imports.  Anything not known is assumed to succeed.
"""
import ast
import builtins
import string

from .npnames import NUMPY_NAMES, NDARRAY_NAMES

BUILTIN_NAMES = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__loader__', '__builtins__', '__class__'}
TYPE_ATTRS = {n for t in (str, bytes, int, float, complex, list, dict, set, frozenset, tuple, type, object, BaseException, OSError, range, slice, bool)
              for n in dir(t)} | {n for n in dir(type(lambda: 0))} | set(dir(property)) | set(dir(type((lambda: (yield))()))) | set(dir(open(__file__)))


class Names:
    """what is bound in a module namespace: definitely or possibly"""
    def __init__(self):
        self.maybe = {}        # name -> binding ('mod', m) | ('def', module, node) | None
        self.state = 'new'


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


class Imports:
    """abstract execution of module bodies"""
    def __init__(self, project):
        self.p = project
        self.trees = {}
        for n, m in project.modules.items():
            self.trees[n] = ast.parse(m.source, m.path)
        self.errors = {}       # (rel, construct) -> (message, line, entry)
        self.future = {n: any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names)
                              for s in t.body) for n, t in self.trees.items()}
        self.checked = 0

    # -- one interpreter session
    def session(self, entry):
        self.ns = {n: Names() for n in self.trees}
        self.entry = entry
        self.quiet = 0
        self.load(entry, None)
        return self.ns

    def err(self, mod, node, key, msg):
        if self.quiet:
            self.failed = True
            return
        k = (self.p.modules[mod].rel, key)
        if k not in self.errors:
            self.errors[k] = (msg, getattr(node, 'lineno', 0), self.entry)

    def load(self, name, node, user=None):
        """import of a module of the package with its parents; False if there is no such module"""
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            q = '.'.join(parts[:i])
            if q not in self.trees:
                if i > 1:
                    par = '.'.join(parts[:i - 1])
                    if parts[0] == self.p.package and not any(m.startswith(q + '.') for m in self.trees):
                        return False
                    continue            # a directory without __init__
                return True
            n = self.ns[q]
            if n.state == 'new':
                n.state = 'running'
                self.body(self.trees[q].body, q, n.maybe, None)
                n.state = 'done'
                up = '.'.join(parts[:i - 1])
                if up in self.ns:
                    self.ns[up].maybe[parts[i - 1]] = ('mod', q)
        return True

    def body(self, stmts, mod, env, outer):
        for s in stmts:
            self.stmt(s, mod, env, outer)

    def stmt(self, s, mod, env, outer):
        ev = lambda e: self.expr(e, mod, env, outer)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                ev(d)
            a = s.args
            for d in a.defaults + [k for k in a.kw_defaults if k is not None]:
                ev(d)
            if not self.future[mod]:
                for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
                    if x.annotation is not None:
                        ev(x.annotation)
                if s.returns is not None:
                    ev(s.returns)
            for d in reversed(s.decorator_list):
                self.runtime_call(d, mod, env, outer)
            env[s.name] = ('def', mod, s)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                ev(d)
            inner = {'__module__': None, '__qualname__': None}
            self.body(s.body, mod, inner, env if outer is None else outer)
            env[s.name] = ('class', mod, s)
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split('.')[0] == self.p.package:
                    if not self.load(a.name, s):
                        self.err(mod, s, 'import ' + a.name, "no module named '%s'" % a.name)
                    env[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
                else:
                    env[a.asname or a.name.split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            m = self.p.modules[mod]._pkg(s.level, s.module)
            if m.split('.')[0] != self.p.package:
                for a in s.names:
                    if a.name != '*':
                        env[a.asname or a.name] = ('ext', m + '.' + a.name)
                return
            if not self.load(m, s):
                self.err(mod, s, 'from ' + m, "no module named '%s'" % m)
                for a in s.names:
                    env[a.asname or a.name] = None
                return
            src = self.ns[m].maybe
            for a in s.names:
                self.checked += 1
                if a.name == '*':
                    al = self.all_of(m)
                    if al is not None:
                        for n in al:
                            if n not in src and not (m + '.' + n in self.trees and self.load(m + '.' + n, s)):
                                self.err(mod, s, 'from %s import *' % m, "'%s' lists '%s' in __all__, which is not bound when '%s' imports it" % (m, n, mod))
                            env[n] = src.get(n)
                    else:
                        for n, b in list(src.items()):
                            if not n.startswith('_'):
                                env[n] = b
                    continue
                if a.name not in src and m + '.' + a.name in self.trees:
                    self.load(m + '.' + a.name, s)
                    env[a.asname or a.name] = ('mod', m + '.' + a.name)
                    continue
                if a.name not in src:
                    why = 'is not bound yet (circular import)' if self.ns[m].state == 'running' else 'does not exist'
                    self.err(mod, s, 'from %s import %s' % (m, a.name), "name '%s' of '%s' %s" % (a.name, m, why))
                env[a.asname or a.name] = src.get(a.name)
        elif isinstance(s, ast.Assign):
            ev(s.value)
            for t in s.targets:
                self.bind(t, s.value, mod, env, outer)
        elif isinstance(s, ast.AugAssign):
            ev(s.value)
            if isinstance(s.target, ast.Name):
                ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
        elif isinstance(s, ast.AnnAssign):
            if not self.future[mod]:
                ev(s.annotation)
            if s.value is not None:
                ev(s.value)
                self.bind(s.target, s.value, mod, env, outer)
        elif isinstance(s, ast.Expr):
            ev(s.value)
        elif isinstance(s, ast.If):
            t = ast.unparse(s.test)
            if t in ('TYPE_CHECKING', 'typing.TYPE_CHECKING'):
                self.body(s.orelse, mod, env, outer)
                return
            if '__name__' in t:
                return
            ev(s.test)
            # names bound on either side may be bound afterwards
            for b in (s.body, s.orelse):
                e = dict(env)
                self.body(b, mod, e, outer)
                for k, v in e.items():
                    env.setdefault(k, v)
        elif isinstance(s, ast.Try):
            if s.handlers:
                self.quiet += 1
                self.body(s.body, mod, env, outer)
                self.quiet -= 1
                for h in s.handlers:
                    e = dict(env)
                    if h.name:
                        e[h.name] = None
                    self.quiet += 1
                    self.body(h.body, mod, e, outer)
                    self.quiet -= 1
                    for k, v in e.items():
                        env.setdefault(k, v)
            else:
                self.body(s.body, mod, env, outer)
            self.body(s.orelse, mod, env, outer)
            self.body(s.finalbody, mod, env, outer)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            ev(s.iter)
            for n in targets(s.target):
                env[n] = None
            self.body(s.body, mod, env, outer)
            self.body(s.orelse, mod, env, outer)
        elif isinstance(s, ast.While):
            ev(s.test)
            self.body(s.body, mod, env, outer)
        elif isinstance(s, ast.With):
            for i in s.items:
                ev(i.context_expr)
                if i.optional_vars is not None:
                    for n in targets(i.optional_vars):
                        env[n] = None
            self.body(s.body, mod, env, outer)
        elif isinstance(s, ast.Assert):
            ev(s.test)

    def all_of(self, m):
        r = None
        for s in self.trees[m].body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
                r = [e.value for e in s.value.elts if isinstance(e, ast.Constant)] if isinstance(s.value, (ast.List, ast.Tuple)) else None
        return r if '__all__' in self.ns[m].maybe else None

    def bind(self, t, v, mod, env, outer):
        if isinstance(t, ast.Name):
            env[t.id] = self.value(v, env, outer)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.expr(t.value, mod, env, outer)
            b = self.value(t.value, env, outer)
            if isinstance(t, ast.Attribute) and b and b[0] == 'mod' and b[1] in self.ns:
                self.ns[b[1]].maybe[t.attr] = None
        else:
            for n in targets(t):
                env[n] = None

    def value(self, e, env, outer):
        if isinstance(e, ast.Name):
            return env.get(e.id) or (outer or {}).get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.value(e.value, env, outer)
            if b and b[0] == 'mod' and b[1] in self.ns:
                return self.ns[b[1]].maybe.get(e.attr)
        return None

    def expr(self, e, mod, env, outer, bound=()):
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.expr(d, mod, env, outer, bound)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in e.generators:
                self.expr(g.iter, mod, env, outer, tuple(b))
                b |= set(targets(g.target))
                for c in g.ifs:
                    self.expr(c, mod, env, outer, tuple(b))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, mod, env, outer, tuple(b))
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            self.checked += 1
            if e.id not in env and e.id not in bound and e.id not in BUILTIN_NAMES and not (outer is not None and e.id in outer):
                if '*unknown' in env or outer and '*unknown' in outer:
                    return
                self.err(mod, e, 'name ' + e.id, "name '%s' is not bound when this module-level code runs" % e.id)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, mod, env, outer, bound)
            env[e.target.id] = None
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice)) or isinstance(c, ast.AST) and not isinstance(c, (ast.expr_context, ast.operator)):
                if isinstance(c, ast.keyword):
                    c = c.value
                if isinstance(c, ast.expr):
                    self.expr(c, mod, env, outer, bound)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            b = self.value(e.value, env, outer)
            if b and b[0] == 'mod' and b[1] in self.ns:
                self.checked += 1
                if e.attr not in self.ns[b[1]].maybe and not e.attr.startswith('__'):
                    self.err(mod, e, 'attribute %s.%s' % (b[1], e.attr), "module '%s' has no attribute '%s' when this module-level code runs" % (b[1], e.attr))
        if isinstance(e, ast.Call):
            self.runtime_call(e.func, mod, env, outer)

    def runtime_call(self, f, mod, env, outer):
        """a function of the package called at import time: the statements it certainly executes"""
        b = self.value(f, env, outer)
        if not b or b[0] != 'def' or not isinstance(b[2], ast.FunctionDef) or getattr(self, 'depth', 0) > 3:
            return
        self.depth = getattr(self, 'depth', 0) + 1
        loc = {}
        fn = b[2]
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
            loc[x.arg] = None
        g = self.ns[b[1]].maybe
        for s in fn.body:
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.Assign, ast.Expr, ast.AugAssign, ast.Assert)):
                self.stmt(s, b[1], loc, g)
            elif isinstance(s, ast.FunctionDef):
                loc[s.name] = None
            else:
                if isinstance(s, (ast.If, ast.While)):
                    self.expr(s.test, b[1], loc, g)
                elif isinstance(s, ast.For):
                    self.expr(s.iter, b[1], loc, g)
                elif isinstance(s, ast.Return) and s.value is not None:
                    self.expr(s.value, b[1], loc, g)
                break
        self.depth -= 1

    def run(self):
        for n in sorted(self.trees):
            self.session(n)
        return self.errors


THIRD_PARTY = {'query', 'query_ball_point', 'query_pairs', 'save', 'convert', 'resize', 'size', 'mode', 'crop', 'paste', 'show', 'getdata', 'putdata',
               'load', 'split', 'merge', 'tobytes', 'frombytes', 'fromarray', 'open', 'Image', 'spatial', 'components', 'normalized', 'slerp',
               'quaternion', 'as_rotation_matrix', 'as_quat_array', 'as_float_array', 'cKDTree', 'KDTree', 'data', 'n', 'm', 'maxes', 'mins',
               'w', 'x', 'y', 'z', 'vec', 'thumbnail', 'rotate', 'transpose', 'filter', 'point', 'info', 'format', 'width', 'height', 'getpixel', 'putpixel', 'alpha_composite'}
STDLIB = ('threading', 'os', 'os.path', 'sys', 'copy', 'collections', 'collections.abc', 'enum', 'typing', 'abc', 'math', 'time', 'functools',
          'itertools', 'multiprocessing', 'queue', 'struct', 'array', 'io', 're', 'random', 'bisect', 'heapq', 'operator', 'string', 'json', 'warnings',
          'logging', 'concurrent.futures', 'contextlib', 'pathlib', 'fractions', 'decimal', 'numbers', 'types', 'weakref', 'collections')


def _stdlib():
    import importlib
    out, mods = set(), {}
    for n in STDLIB:
        try:
            m = importlib.import_module(n)
        except ImportError:
            continue
        mods[n] = set(dir(m))
        out |= set(dir(m))
        for v in vars(m).values():
            if isinstance(v, type):
                out |= set(dir(v))
                # attributes set by the constructors
                import dis
                for f in vars(v).values():
                    c = getattr(f, '__code__', None)
                    if c is not None:
                        out |= set(c.co_names)
    out |= set(dir(mods)) | {'acquire', 'release', 'locked'}
    return out, mods


def walk_own(fn):
    """nodes of a function body without nested functions, classes and lambdas (which are yielded themselves)"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]]


def assigned(fn):
    """local names of a function: parameters and everything bound in its body"""
    out, glob = set(params(fn)), set()
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Import):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            out |= {a.asname or a.name for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    return out - glob


class Signature:
    def __init__(self, fn, skip=0):
        a = fn.args
        self.pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        self.required = self.pos[:max(0, len(self.pos) - len(a.defaults))]
        self.kwonly = {x.arg: d is not None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        self.var, self.kw = a.vararg is not None, a.kwarg is not None

    def misfit(self, npos, kws):
        """why a call with npos positional arguments and these keywords certainly fails"""
        if npos > len(self.pos) and not self.var:
            return 'takes at most %d positional arguments, %d given' % (len(self.pos), npos)
        for k in kws:
            if k not in self.pos and k not in self.kwonly and not self.kw:
                return "has no parameter '%s'" % k
            if k in self.pos[:npos]:
                return "gets two values for '%s'" % k
        miss = [r for r in self.required[npos:] if r not in kws] + [k for k, d in self.kwonly.items() if not d and k not in kws]
        if miss:
            return "misses '%s'" % "', '".join(miss)
        return None


class Certain:
    """function bodies"""
    def __init__(self, project):
        from .loader import ClassInfo, FuncInfo
        self.C, self.F = ClassInfo, FuncInfo
        self.p = project
        self.imp = Imports(project)
        self.imp.quiet = 1
        self.imp.entry = None
        self.imp.ns = {n: Names() for n in self.imp.trees}
        for n in sorted(self.imp.trees):
            self.imp.load(n, None)
        self.ns = {n: set(v.maybe) for n, v in self.imp.ns.items()}
        # global statements bind module names
        for n, t in self.imp.trees.items():
            for g in ast.walk(t):
                if isinstance(g, ast.Global):
                    self.ns[n] |= set(g.names)
        self.std, self.stdmods = _stdlib()
        self.errors = []
        self.frames, self._attr_types, self._by_name = {}, {}, {}
        self.counts = {'functions': 0, 'names': 0, 'attributes': 0, 'calls': 0, 'classes': 0, 'formats': 0}
        self.collect()

    def collect(self):
        self.all_classes = []

        def nest(c):
            self.all_classes.append(c)
            for a in c.attrs.values():
                if isinstance(a, self.C):
                    nest(a)
        for c in self.p.classes():
            nest(c)
        self.own = {}           # class -> names assigned on self in its methods
        self.external = set()   # attribute names assigned on anything that is not self
        self.guarded = set()
        for n, t in self.imp.trees.items():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')):
                    self.external.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'setattr') and len(x.args) > 1:
                    if isinstance(x.args[1], ast.Constant):
                        self.guarded.add(x.args[1].value)
                elif isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in ('namedtuple', 'NamedTuple', 'make_dataclass', 'SimpleNamespace', 'Enum', 'type'):
                    self.guarded |= {k.arg for k in x.keywords if k.arg}
                    for y in ast.walk(x):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str):
                            self.guarded |= set(y.value.replace(',', ' ').split())
        known = set()
        for c in self.all_classes:
            s = set(c.methods) | set(c.setters) | set(c.attrs)
            for f in c.all_defs:
                ps = params(f.node)
                recv = ps[0] if ps else None
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in (recv, 'self', 'cls'):
                        s.add(c.mangled(x.attr))
            self.own[c] = s
            known |= s
        for m in self.p.modules.values():
            known |= {m.name.split('.')[-1]}
            known |= self.ns[m.name]
        self.subs = {}
        for c in self.all_classes:
            for b in c.mro():
                if isinstance(b, self.C) and b is not c:
                    self.subs.setdefault(b, []).append(c)
        self.anyattr = known | self.external | self.guarded | set(NUMPY_NAMES) | set(NDARRAY_NAMES) | TYPE_ATTRS | self.std | THIRD_PARTY

    def err(self, fi, node, key, msg):
        if self.quiet:
            return
        self.errors.append((fi.qual, key, msg, fi.module.rel, getattr(node, 'lineno', 0)))

    # -- attributes of a class
    def dynamic(self, c):
        return any('__getattr__' in self.own.get(k, ()) or '__getattribute__' in self.own.get(k, ()) for k in c.mro() if isinstance(k, self.C))

    def has(self, c, name, subs=True):
        if name.startswith('__') and name.endswith('__') or name in ('name', 'value') and self.enum(c):
            return True
        if self.dynamic(c) or name in self.external or name in self.guarded:
            return True
        for k in c.mro():
            if isinstance(k, self.C):
                if name in self.own[k]:
                    return True
            elif k in ('numpy.ndarray', 'np.ndarray'):
                if name in NDARRAY_NAMES:
                    return True
            elif k.split('.')[-1] == 'Enum':
                if name in ('name', 'value', 'mro'):
                    return True
            elif k != 'object':
                return True
        if subs:
            return any(name in self.own[s] for s in self.subs.get(c, ()))
        return False

    def enum(self, c):
        return any(isinstance(k, str) and k.split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for k in c.mro())

    # -- what an expression certainly is: ('mod', name) ('ext', dotted) ('class', C) ('func', F, bound) ('inst', C) ('self', C) ('super', C)
    def kind(self, e, fr):
        if isinstance(e, ast.Name):
            return self.name_kind(e.id, fr)
        if isinstance(e, ast.Attribute):
            b = self.kind(e.value, fr)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.module_attr(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] in ('any', 'self', 'inst'):
                t = self.attr_type(b[1], fr.cls.mangled(e.attr) if fr.cls is not None else e.attr)
                if t is not None:
                    return t
            if b[0] == 'any':
                return None
            if b[0] in ('class', 'inst', 'self', 'super'):
                c = b[1]
                n = fr.cls.mangled(e.attr) if fr.cls is not None else e.attr
                if b[0] in ('self',) and (n in self.selfset(c) or n in self.external or any(n in self.own[s] for s in self.subs.get(c, ()))):
                    return None        # may be overridden or assigned
                r = self.lookup(c, n, b[0] == 'super')
                if r is None:
                    return None
                own, v = r
                if isinstance(v, self.F):
                    if v.kind == 'property':
                        return None
                    if v.kind == 'staticmethod':
                        return ('func', v, 0)
                    if v.kind == 'classmethod':
                        return ('func', v, 1)
                    if any(d not in ('abstractmethod', 'overload', 'staticmethod', 'classmethod') and not d.endswith('abstractmethod') for d in v.decos):
                        return None
                    if b[0] == 'class':
                        return ('func', v, 0)
                    return ('func', v, 1)
                if isinstance(v, self.C):
                    return ('class', v)
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and fr.cls is not None and not e.args:
                return ('super', fr.cls)
            k = self.kind(e.func, fr)
            if k is None:
                return None
            if k[0] == 'class' and not any('__new__' in self.own[x] for x in k[1].mro() if isinstance(x, self.C)) :
                return ('inst', k[1])
            if k[0] == 'ext':
                return ('ext', k[1] + '()')
            if k[0] == 'func' and k[1].node.returns is not None and not k[1].decos:
                c = self.annotated(k[1].node.returns, k[1].module)
                if c is not None:
                    return ('any', c)
        if isinstance(e, ast.Subscript):
            k = self.kind(e.value, fr)
            if k and k[0] == 'ext':
                return ('ext', k[1] + '[]')
        return None

    def selfset(self, c):
        """names assigned on self (they hide methods)"""
        r = self._selfset.get(c)
        if r is None:
            r = set()
            for k in c.mro():
                if isinstance(k, self.C):
                    r |= {n for n in self.own[k] if n not in k.methods and n not in k.attrs and n not in k.setters}
            self._selfset[c] = r
        return r
    _selfset = {}

    def lookup(self, c, n, skip=False):
        m = [k for k in c.mro()][1 if skip else 0:]
        for k in m:
            if not isinstance(k, self.C):
                return None
            if n in k.methods:
                return k, k.methods[n]
            if n in k.attrs:
                return k, k.attrs[n]
        return None

    def module_attr(self, m, n):
        mm = self.p.modules.get(m)
        if mm is None:
            return ('mod', m + '.' + n) if m + '.' + n in self.p.modules else None
        return self.static(mm.resolve(n)) or (('mod', m + '.' + n) if m + '.' + n in self.p.modules and n not in mm.functions and n not in mm.classes and n not in mm.assigns else None)

    def static(self, r):
        if isinstance(r, self.C):
            return ('class', r)
        if isinstance(r, self.F):
            return ('func', r, 0) if not r.decos else None
        if isinstance(r, tuple) and r[0] in ('mod', 'ext'):
            return r
        return None

    def name_kind(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals:
                return f.kinds.get(n)
            f = f.outer
        mod = fr.module
        if mod.name in self.ns and n in self.ns[mod.name]:
            r = mod.resolve(n)
            if isinstance(r, tuple) and r[0] == 'assign' and r[1] is not None:
                return None
            # bound more than once: unknown
            if (n in mod.assigns) + (n in mod.classes) + (n in mod.functions) + (n in mod.imports) > 1:
                return None
            return self.static(r)
        return None

    def attr_type(self, c, name):
        """kind of an instance attribute every assignment of which, anywhere, gives an instance of the same annotated class"""
        key = (c, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None
        if name in self.external or name in self.guarded:
            return None
        kinds = []
        for k in {x for y in [c] + self.subs.get(c, []) for x in y.mro() if isinstance(x, self.C)}:
            if name in k.methods or name in k.attrs or name in k.setters:
                return None
            for f in k.all_defs:
                ps = params(f.node)
                if not ps:
                    continue
                for x in ast.walk(f.node):
                    if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == ps[0]
                            and k.mangled(x.attr) == name):
                        continue
                    st = next((s for s in walk_own(f.node) if isinstance(s, ast.Assign) and len(s.targets) == 1 and s.targets[0] is x), None)
                    if st is None:
                        return None
                    if isinstance(st.value, ast.Constant) and st.value.value is None:
                        continue
                    fr = self.frames.get(f.node)
                    if fr is None:
                        fr = self.frames[f.node] = self.frame(f, f.node, k.module, k, None)
                    t = self.kind(st.value, fr)
                    if t is None or t[0] not in ('any', 'inst'):
                        return None
                    kinds.append(('any', t[1]))
        if kinds and all(t == kinds[0] for t in kinds):
            self._attr_types[key] = kinds[0]
            return kinds[0]
        return None

    def outside(self, e, fr):
        """is the object declared with a class that the package does not have"""
        if isinstance(e, ast.Name) and isinstance(fr.node, ast.FunctionDef):
            a = [x for x in fr.node.args.posonlyargs + fr.node.args.args + fr.node.args.kwonlyargs if x.arg == e.id]
            return bool(a) and a[0].annotation is not None and self.annotated(a[0].annotation, fr.module) is None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and fr.kinds.get(e.value.id, ('',))[0] == 'self':
            c = fr.kinds[e.value.id][1]
            for k in {x for y in [c] + self.subs.get(c, []) for x in y.mro() if isinstance(x, self.C)}:
                for f in k.all_defs:
                    for x in walk_own(f.node):
                        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == e.attr for t in x.targets) and isinstance(x.value, ast.Name):
                            g = self.Frame()
                            g.node, g.module, g.kinds = f.node, k.module, {}
                            if self.outside(x.value, g):
                                return True
        return False

    def by_name(self, n):
        """all methods of that name, when nothing else can have the name"""
        if n in self._by_name:
            return self._by_name[n]
        out = []
        if not n.startswith('__') and n not in self.std and n not in TYPE_ATTRS and n not in NUMPY_NAMES and n not in NDARRAY_NAMES \
                and n not in THIRD_PARTY and n not in self.external and n not in self.guarded and not any(n in v for v in self.ns.values()):
            for k in self.all_classes:
                if n in k.attrs or n in self.selfset(k):
                    out = []
                    break
                g = k.methods.get(n)
                if g is None:
                    continue
                if not isinstance(g, self.F) or g.kind != 'method' or [d for d in g.decos if not d.endswith('abstractmethod')]:
                    out = []
                    break
                out.append(g)
        self._by_name[n] = out
        return out

    def annotated(self, e, module):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return None
        r = module.resolve_expr(e, True)
        return r if isinstance(r, self.C) and not self.enum(r) else None

    def family(self, c, name):
        """the definitions a call on an instance of c or of a subclass may reach: abstract ones only where nothing replaces them"""
        out, bare = [], True
        for k in [c] + self.subs.get(c, []):
            r = self.lookup(k, name)
            if r is None or self.foreign(k) and not r:
                return []
            if name in self.selfset(k) or name in self.external:
                return []
            if r[1] not in out:
                out.append(r[1])
        real = [f for f in out if isinstance(f, self.F) and not any(d.endswith('abstractmethod') for d in f.decos)]
        return real or out

    # -- frames
    class Frame:
        pass

    def frame(self, fi, node, module, cls, outer):
        fr = self.Frame()
        fr.fi, fr.node, fr.module, fr.cls, fr.outer = fi, node, module, cls, outer
        fr.locals = assigned(node) if not isinstance(node, ast.Lambda) else set(params(node))
        fr.kinds = {}
        fr.globals = {n for x in walk_own(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        ps = params(node)
        if cls is not None and outer is None and fi is not None and ps and fi.node is node and not isinstance(node, ast.Lambda):
            stores = {x.id for x in walk_own(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if ps[0] not in stores:
                if fi.kind in ('method', 'property', 'setter') and node.name != '__new__':
                    fr.kinds[ps[0]] = ('self', cls)
        # parameters with a class of the package as their annotation
        if not isinstance(node, ast.Lambda):
            stores = {x.id for x in walk_own(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
                if a.annotation is not None and a.arg not in stores and a.arg not in fr.kinds:
                    c = self.annotated(a.annotation, module)
                    if c is not None:
                        fr.kinds[a.arg] = ('any', c)
        # names bound exactly once, by an import or a constructor call
        binds = {}
        for x in walk_own(node):
            if isinstance(x, ast.Import):
                for a in x.names:
                    k = ('mod', a.name if a.asname else a.name.split('.')[0]) if a.name.split('.')[0] == self.p.package else ('ext', a.name if a.asname else a.name.split('.')[0])
                    binds.setdefault(a.asname or a.name.split('.')[0], []).append(k)
            elif isinstance(x, ast.ImportFrom):
                m = module._pkg(x.level, x.module)
                for a in x.names:
                    if m.split('.')[0] != self.p.package:
                        k = ('ext', m + '.' + a.name)
                    else:
                        mm = self.p.modules.get(m)
                        k = self.static(mm.resolve(a.name)) if mm is not None else None
                        if k is None and m + '.' + a.name in self.p.modules:
                            k = ('mod', m + '.' + a.name)
                    binds.setdefault(a.asname or a.name, []).append(k)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                binds.setdefault(x.id, []).append(None)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                binds.setdefault(x.name, []).append(None)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                binds.setdefault(x.name, []).append(None)
        for n, ks in binds.items():
            if n not in ps and ks[0] is not None and all(k == ks[0] for k in ks):
                fr.kinds[n] = ks[0]
        if not isinstance(node, ast.Lambda):
            for x in walk_own(node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and len(binds.get(x.targets[0].id, ())) == 1 \
                        and x.targets[0].id not in ps and isinstance(x.value, ast.Call):
                    k = self.kind(x.value, fr)
                    if k and k[0] in ('inst', 'ext', 'any'):
                        fr.kinds[x.targets[0].id] = k
        return fr

    # -- checks
    def run(self):
        self.quiet = 0
        self.done = []
        for m in self.p.modules.values():
            tree = self.imp.trees[m.name]
            for s in ast.walk(tree):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    s._seen = False
            self.scope(tree.body, m, None, None)
        return self.errors

    def scope(self, body, m, cls, outer):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.function(s, m, cls, outer)
            elif isinstance(s, ast.ClassDef):
                c = self.find_class(m, cls, s)
                self.scope(s.body, m, c, outer)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for n in ('body', 'orelse', 'finalbody'):
                    self.scope(getattr(s, n, []), m, cls, outer)
                for h in getattr(s, 'handlers', []):
                    self.scope(h.body, m, cls, outer)

    def find_class(self, m, cls, s):
        c = (cls.attrs.get(cls.mangled(s.name)) if cls is not None else m.classes.get(s.name))
        if isinstance(c, self.C) and c.node.lineno == s.lineno:
            return c
        return None

    def function(self, s, m, cls, outer):
        if any(ast.unparse(d).split('.')[-1] == 'overload' for d in s.decorator_list):
            return
        self.counts['functions'] += 1
        fi = self.F(s.name, s, m, cls)
        fr = self.frame(fi, s, m, cls, outer)
        self.done.append((fi, fr))
        if outer is not None:
            fi.qual = outer.fi.qual + '.' + s.name
        elif cls is not None:
            fi.qual = cls.qual + '.' + s.name
        self.stmts(s.body, set(params(s)), fr)
        if cls is not None and outer is None and s.name == '__init__' and params(s) and not self.foreign(cls) and not self.dynamic(cls):
            self.construction(s, fr, cls, params(s)[0])

    def construction(self, s, fr, cls, me):
        """instance attributes read before anything can have set them"""
        have, escaped = set(), False
        for k in cls.mro():
            if isinstance(k, self.C):
                have |= set(k.methods) | set(k.setters) | set(k.attrs)
        have |= self.external | self.guarded

        def is_self(x):
            return isinstance(x, ast.Name) and x.id == me

        def visit(x):
            nonlocal escaped
            if escaped or isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                if x.value is not None:
                    visit(x.value)
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    visit(t)
                return
            if isinstance(x, ast.AugAssign):
                visit(x.value)
                if isinstance(x.target, ast.Attribute) and is_self(x.target.value):
                    read(x.target)
                visit(x.target)
                return
            if isinstance(x, (ast.For, ast.While)):
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and is_self(y.value):
                        have.add(cls.mangled(y.attr))
            if isinstance(x, ast.Attribute) and is_self(x.value):
                if isinstance(x.ctx, ast.Store):
                    have.add(cls.mangled(x.attr))
                elif isinstance(x.ctx, ast.Load):
                    read(x)
                return
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                for y in list(x.args) + [w.value for w in x.keywords]:
                    visit(y)
                visit(x.func)
                if is_self(x.func.value) or isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super':
                    escaped = True
                return
            if isinstance(x, ast.Name) and x.id == me:
                escaped = True
                return
            for y in ast.iter_child_nodes(x):
                visit(y)

        def read(x):
            n = cls.mangled(x.attr)
            v = self.lookup(cls, n)
            if v is not None and isinstance(v[1], self.F) and v[1].kind == 'property':
                nonlocal escaped
                escaped = True
            if n not in have and not n.startswith('__'):
                self.err(fr.fi, x, 'unset ' + n, "'%s' is read in the constructor before anything can have set it" % n)
        for st in s.body:
            visit(st)

    def stmts(self, body, have, fr):
        """have: names possibly assigned here; returns them after the statements, None when control cannot get there"""
        for s in body:
            if have is None:
                break
            have = self.stmt(s, have, fr)
        return have

    @staticmethod
    def join(*xs):
        xs = [x for x in xs if x is not None]
        return set().union(*xs) if xs else None

    def stmt(self, s, have, fr):
        ev = lambda e: self.expr(e, have, fr)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                ev(d)
            have = have | {s.name}
            self.function(s, fr.module, None, fr)
            return have
        if isinstance(s, ast.ClassDef):
            for d in s.bases:
                ev(d)
            return have | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.imports(s, fr)
            if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                return have
            return have | {a.asname or (a.name.split('.')[0] if isinstance(s, ast.Import) else a.name) for a in s.names}
        if isinstance(s, ast.Assign):
            ev(s.value)
            for t in s.targets:
                self.target(t, have, fr)
            return have | {n for t in s.targets for n in targets(t)} | self.walrus(s)
        if isinstance(s, ast.AugAssign):
            ev(s.value)
            if isinstance(s.target, ast.Name):
                ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
            elif isinstance(s.target, ast.Attribute):
                ev(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target))
            else:
                self.target(s.target, have, fr)
            return have | set(targets(s.target))
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                ev(s.value)
                self.target(s.target, have, fr)
                return have | set(targets(s.target))
            return have
        if isinstance(s, ast.Expr):
            ev(s.value)
            return have | self.walrus(s)
        if isinstance(s, ast.Return):
            if s.value is not None:
                ev(s.value)
            return None
        if isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    ev(e)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            fr.loop.append(set(have))
            return None
        if isinstance(s, ast.If):
            ev(s.test)
            have = have | self.walrus(s.test)
            t = ast.unparse(s.test)
            if t in ('TYPE_CHECKING', 'False', '0'):
                return self.stmts(s.orelse, have, fr)
            guard = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'callable', 'isinstance', 'issubclass') for x in ast.walk(s.test))
            self.quiet += guard
            a = self.stmts(s.body, set(have), fr)
            b = self.stmts(s.orelse, set(have), fr)
            self.quiet -= guard
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            ev(s.iter if not isinstance(s, ast.While) else s.test)
            if not isinstance(s, ast.While):
                self.target(s.target, have, fr)
            inside = set(have) | (set(targets(s.target)) if not isinstance(s, ast.While) else self.walrus(s.test))
            # assignments of earlier iterations may be visible
            for x in s.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        inside.add(y.id)
                    elif isinstance(y, (ast.Import, ast.ImportFrom)):
                        inside |= {a.asname or a.name.split('.')[0] for a in y.names}
                    elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                        inside.add(y.name)
            old = getattr(fr, 'loop', None)
            fr.loop = []
            end = self.stmts(s.body, inside, fr)
            brk = fr.loop
            fr.loop = old
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if forever and not brk and not any(isinstance(x, ast.Break) for y in s.body for x in ast.walk(y)):
                return None
            out = self.join(have, end, *brk)
            return self.stmts(s.orelse, out, fr) if s.orelse else out
        if isinstance(s, ast.With):
            for i in s.items:
                ev(i.context_expr)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, have, fr)
                    have = have | set(targets(i.optional_vars))
            return self.stmts(s.body, have, fr)
        if isinstance(s, ast.Try):
            self.quiet += bool(s.handlers)
            a = self.stmts(s.body, set(have), fr)
            self.quiet -= bool(s.handlers)
            some = set(have)
            for x in s.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        some.add(y.id)
                    elif isinstance(y, (ast.Import, ast.ImportFrom)):
                        some |= {q.asname or q.name.split('.')[0] for q in y.names}
            hs = [self.stmts(h.body, some | ({h.name} if h.name else set()), fr) for h in s.handlers]
            if a is not None and s.orelse:
                a = self.stmts(s.orelse, a, fr)
            out = self.join(a, *hs)
            if s.finalbody:
                r = self.stmts(s.finalbody, out if out is not None else some, fr)
                return None if out is None else r
            return out
        if isinstance(s, ast.Assert):
            ev(s.test)
            return None if isinstance(s.test, ast.Constant) and not s.test.value else have
        if isinstance(s, ast.Delete):
            return have
        return have

    def walrus(self, s):
        return {x.target.id for x in ast.walk(s) if isinstance(x, ast.NamedExpr)}

    def target(self, t, have, fr):
        if isinstance(t, ast.Attribute):
            self.expr(t.value, have, fr)
        elif isinstance(t, ast.Subscript):
            self.expr(t.value, have, fr)
            self.expr(t.slice, have, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.target(e, have, fr)

    def imports(self, s, fr):
        self.counts['names'] += 1
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split('.')[0] == self.p.package and a.name not in self.p.modules and not any(q.startswith(a.name + '.') for q in self.p.modules):
                    self.err(fr.fi, s, 'import ' + a.name, "no module named '%s'" % a.name)
            return
        m = fr.module._pkg(s.level, s.module)
        if m.split('.')[0] != self.p.package:
            if m == 'numpy':
                for a in s.names:
                    if a.name != '*' and a.name not in NUMPY_NAMES:
                        self.err(fr.fi, s, 'from numpy import ' + a.name, "numpy has no '%s'" % a.name)
            elif m in self.stdmods:
                pass
            return
        if m not in self.p.modules:
            if not any(q.startswith(m + '.') for q in self.p.modules):
                self.err(fr.fi, s, 'from ' + m, "no module named '%s'" % m)
            return
        for a in s.names:
            if a.name != '*' and a.name not in self.ns[m] and m + '.' + a.name not in self.p.modules:
                self.err(fr.fi, s, 'from %s import %s' % (m, a.name), "'%s' has no '%s'" % (m, a.name))

    def comp(self, e, have, fr):
        b = set(have)
        new = set()
        for i, g in enumerate(e.generators):
            self.expr(g.iter, b, fr)
            new |= set(targets(g.target))
            b = b | new
            fr.comp = getattr(fr, 'comp', []) + [new]
            for c in g.ifs:
                self.expr(c, b, fr)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            self.expr(x, b, fr)
        fr.comp = fr.comp[:-len(e.generators)]

    def expr(self, e, have, fr):
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.expr(d, have, fr)
            sub = self.frame(fr.fi, e, fr.module, None, fr)
            sub.comp = list(getattr(fr, 'comp', []))
            self.expr(e.body, set(params(e)), sub)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.comp(e, have, fr)
            return
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            test = e.test if isinstance(e, ast.IfExp) else e.values[0]
            self.expr(test, have, fr)
            guard = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'callable', 'isinstance', 'issubclass') for x in ast.walk(test))
            self.quiet += guard
            for x in ([e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values[1:]):
                self.expr(x, have, fr)
            self.quiet -= guard
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.load(e, have, fr)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, have, fr)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, have, fr)
            elif isinstance(c, ast.Slice):
                for x in (c.lower, c.upper, c.step):
                    if x is not None:
                        self.expr(x, have, fr)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            self.attribute(e, fr)
        elif isinstance(e, ast.Call):
            self.call(e, fr)

    def load(self, e, have, fr):
        self.counts['names'] += 1
        n = e.id
        if any(n in c for c in getattr(fr, 'comp', [])):
            return
        if n in fr.locals:
            if n not in have:
                self.err(fr.fi, e, 'local ' + n, "local variable '%s' is read where nothing has assigned it" % n)
            return
        f = fr.outer
        while f is not None:
            if n in f.locals or any(n in c for c in getattr(f, 'comp', [])):
                return
            f = f.outer
        if n in self.ns[fr.module.name] or n in BUILTIN_NAMES:
            return
        # a wildcard import inside the function
        if any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in walk_own(fr.node)):
            return
        self.err(fr.fi, e, 'name ' + n, "name '%s' is not defined" % n)

    def attribute(self, e, fr):
        self.counts['attributes'] += 1
        k = self.kind(e.value, fr)
        n = fr.cls.mangled(e.attr) if fr.cls is not None else self.outer_mangle(e.attr, fr)
        if k is not None:
            if k[0] == 'mod':
                if k[1] in self.ns:
                    if n not in self.ns[k[1]] and k[1] + '.' + n not in self.p.modules and not n.startswith('__') and not any(q.startswith(k[1] + '.' + n + '.') for q in self.p.modules):
                        self.err(fr.fi, e, 'attribute %s.%s' % (k[1], n), "module '%s' has no attribute '%s'" % (k[1], n))
                return
            if k[0] == 'ext':
                if k[1] == 'numpy' and n not in NUMPY_NAMES:
                    self.err(fr.fi, e, 'attribute numpy.' + n, "numpy has no attribute '%s'" % n)
                elif k[1] in self.stdmods and n not in self.stdmods[k[1]] and k[1] not in ('collections', 'typing', 'sys', 'os'):
                    self.err(fr.fi, e, 'attribute %s.%s' % (k[1], n), "module '%s' has no attribute '%s'" % (k[1], n))
                return
            if k[0] == 'class':
                ok = self.has(k[1], n, False) and not (n in self.selfset(k[1]) and n not in self.external and self.lookup(k[1], n) is None and not self.foreign(k[1])) \
                    or n in TYPE_ATTRS and n in dir(type) or self.foreign(k[1]) and n in self.anyattr
                if not ok:
                    self.err(fr.fi, e, 'attribute %s.%s' % (k[1].name, n), "class '%s' has no attribute '%s'" % (k[1].qual, n))
                return
            if k[0] in ('inst', 'self', 'any'):
                if not self.has(k[1], n, k[0] != 'inst') or n not in self.anyattr and not n.startswith('__'):
                    self.err(fr.fi, e, 'attribute %s.%s' % (k[1].name, n), "'%s' has no attribute '%s'" % (k[1].qual, n))
                return
            if k[0] == 'super':
                if not self.foreign(k[1]) and self.lookup(k[1], n, True) is None and not hasattr(object, n):
                    self.err(fr.fi, e, 'super ' + n, "no base of '%s' has '%s'" % (k[1].qual, n))
                return
            return
        if n not in self.anyattr and not n.startswith('__'):
            self.err(fr.fi, e, 'attribute ' + n, "nothing in the package has an attribute '%s'" % n)

    def foreign(self, c):
        return any(isinstance(b, str) and b != 'object' for b in c.mro())

    def outer_mangle(self, n, fr):
        f = fr
        while f is not None:
            if f.cls is not None:
                return f.cls.mangled(n)
            f = f.outer
        return n

    def call(self, e, fr):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
            self.format(e, fr)
            return
        npos, kws = len(e.args), [w.arg for w in e.keywords]
        if any(isinstance(a, ast.Starred) for a in e.args) or None in kws:
            return
        if isinstance(e.func, ast.Attribute):
            b = self.kind(e.func.value, fr)
            if b is not None and b[0] == 'ext' and b[1].split('.')[-1].endswith('()'):
                return
            if b is not None and b[0] in ('any', 'self'):
                n = fr.cls.mangled(e.func.attr) if fr.cls is not None else e.func.attr
                for f in self.family(b[1], n):
                    if not isinstance(f, self.F) or f.kind not in ('method', 'classmethod', 'staticmethod'):
                        continue
                    if any(d.split('.')[-1] not in ('abstractmethod', 'classmethod', 'staticmethod') for d in f.decos):
                        continue
                    self.counts['calls'] += 1
                    why = Signature(f.node, f.kind != 'staticmethod').misfit(npos, kws)
                    if why:
                        self.err(fr.fi, e, 'call ' + f.qual, 'call on a %s that may be %s: it %s' % (b[1].name, f.qual, why))
                return
            if b is None:
                n = fr.cls.mangled(e.func.attr) if fr.cls is not None else e.func.attr
                fs = [] if self.outside(e.func.value, fr) else self.by_name(n)
                whys = [Signature(f.node, 1).misfit(npos, kws) for f in fs]
                if fs:
                    self.counts['calls'] += 1
                    if all(whys):
                        self.err(fr.fi, e, 'call .' + n, 'no definition of %s in the package takes this call: %s' % (n, '; '.join('%s %s' % (f.qual, w) for f, w in zip(fs, whys))))
                return
        k = self.kind(e.func, fr)
        if k is None:
            return
        if k[0] == 'func':
            self.counts['calls'] += 1
            why = Signature(k[1].node, k[2]).misfit(npos, kws)
            if why:
                self.err(fr.fi, e, 'call ' + k[1].qual, 'call of %s: it %s' % (k[1].qual, why))
        elif k[0] == 'class':
            self.counts['calls'] += 1
            c = k[1]
            if self.enum(c):
                return
            ab = c.nested_abstract()
            if ab and c.has_abc_meta():
                self.err(fr.fi, e, 'instance ' + c.qual, "abstract class '%s' is instantiated (%s)" % (c.qual, ', '.join(sorted(ab))))
                return
            r = self.lookup(c, '__init__')
            nw = self.lookup(c, '__new__')
            if nw is not None and isinstance(nw[1], self.F):
                r = nw
            elif self.foreign(c) and r is None:
                return
            if r is None:
                if npos or kws:
                    if not self.foreign(c):
                        self.err(fr.fi, e, 'call ' + c.qual, "'%s' takes no arguments" % c.qual)
                return
            if isinstance(r[1], self.F) and not [d for d in r[1].decos if not d.endswith('abstractmethod') and d != 'staticmethod']:
                why = Signature(r[1].node, 1).misfit(npos, kws)
                if why:
                    self.err(fr.fi, e, 'call ' + c.qual, 'construction of %s: it %s' % (c.qual, why))

    def format(self, e, fr):
        self.counts['formats'] += 1
        if any(isinstance(a, ast.Starred) for a in e.args) or any(w.arg is None for w in e.keywords):
            return
        try:
            fields = [f for _, f, _, _ in string.Formatter().parse(e.func.value.value) if f is not None]
        except ValueError as x:
            self.err(fr.fi, e, 'format', 'format string: %s' % x)
            return
        auto = 0
        for f in fields:
            n = f.split('.')[0].split('[')[0]
            if n == '':
                n, auto = str(auto), auto + 1
            if n.isdigit():
                if int(n) >= len(e.args):
                    self.err(fr.fi, e, 'format', 'format string has more fields than the %d arguments' % len(e.args))
                    return
            elif n not in [w.arg for w in e.keywords]:
                self.err(fr.fi, e, 'format', "format string names '%s', which is not passed" % n)
                return


class Classes:
    """every class that implements an abstract one can be constructed, and takes the calls made through it"""
    def __init__(self, certain):
        self.c = certain
        self.errors = []
        self.done = 0
        self.calls = 0

    def run(self):
        c = self.c
        for k in c.all_classes:
            if not k.has_abc_meta():
                continue
            ab = k.nested_abstract()
            if ab and not c.subs.get(k) and any(b.nested_abstract().keys() - ab.keys() for b in k.mro() if isinstance(b, c.C) and b is not k):
                self.errors.append((k.qual, 'abstract', 'it implements part of its base, has no subclass, and leaves %s abstract: it can never be constructed' % ', '.join(sorted(ab)),
                                    k.module.rel, k.node.lineno))
            if ab:
                continue
            self.done += 1
            for b in k.mro():
                if not isinstance(b, c.C) or b is k:
                    continue
                for n, f in b.methods.items():
                    if not isinstance(f, c.F) or f.kind not in ('method', 'classmethod') or n.startswith('_') or not any(d.endswith('abstractmethod') for d in f.decos):
                        continue
                    r = c.lookup(k, n)
                    if r is None or not isinstance(r[1], c.F) or r[1] is f:
                        continue
                    g = r[1]
                    if any(not d.split('.')[-1] in ('classmethod', 'staticmethod', 'abstractmethod') for d in g.decos) or g.kind == 'property':
                        continue
                    base = Signature(f.node, 1)
                    over = Signature(g.node, g.kind != 'staticmethod')
                    self.calls += 1
                    for m in sorted({len(base.required), len(base.pos)}):
                        why = over.misfit(m, [])
                        if why:
                            self.errors.append((g.qual, 'override ' + n, 'a call that fits %s (%d arguments) fails: it %s' % (f.qual, m, why), g.module.rel, g.node.lineno))
                            break
        return self.errors


class Returns:
    """unpacking assignments: every display the callee may return has as many elements as the target"""
    def __init__(self, certain):
        self.c = certain
        self.errors = []
        self.sites = 0
        self.seen = set()
        self.shapes = {}

    def shape(self, f):
        """lengths of the displays a function returns: {length: line}; None entries for a plain None"""
        if f in self.shapes:
            return self.shapes[f]
        out = self.shapes[f] = {}
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
        if gen or f.abstract:
            return out
        for x in walk_own(f.node):
            if isinstance(x, ast.Return):
                v = x.value
                if v is None or isinstance(v, ast.Constant) and v.value is None:
                    out.setdefault(None, x.lineno)
                elif isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in v.elts):
                    out.setdefault(len(v.elts), x.lineno)
                else:
                    out.setdefault('?', x.lineno)
        if not out and f.cls is None and not any(isinstance(x, ast.Raise) for x in walk_own(f.node)):
            out[None] = f.node.lineno       # it only falls off its end
        return out

    def callees(self, e, fr):
        c = self.c
        if isinstance(e.func, ast.Attribute):
            b = c.kind(e.func.value, fr)
            n = fr.cls.mangled(e.func.attr) if fr.cls is not None else e.func.attr
            if b is not None and b[0] in ('any', 'self', 'inst'):
                return [f for f in c.family(b[1], n) if isinstance(f, c.F) and f.kind in ('method', 'classmethod', 'staticmethod') and not f.abstract]
            if b is None and not n.startswith('__') and n not in c.std and n not in TYPE_ATTRS and n not in NUMPY_NAMES and n not in NDARRAY_NAMES and n not in c.external:
                fs = []
                for k in c.all_classes:
                    g = k.methods.get(n)
                    if n in c.selfset(k):
                        return []
                    if isinstance(g, c.F) and g.kind == 'method' and not g.abstract and g not in fs:
                        if not Signature(g.node, 1).misfit(len(e.args), [w.arg for w in e.keywords]):
                            fs.append(g)
                return fs
        k = c.kind(e.func, fr)
        if k is not None and k[0] == 'func' and not [d for d in k[1].decos if d.split('.')[-1] not in ('classmethod', 'staticmethod')] and not k[1].abstract:
            return [k[1]]
        return []

    def run(self):
        c = self.c
        for m in c.p.modules.values():
            for fi, fr in c.done:
                if fi.module is not m:
                    continue
                for s in walk_own(fr.node):
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) \
                            and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
                        n = len(s.targets[0].elts)
                        if any(isinstance(a, ast.Starred) for a in s.value.args) or any(w.arg is None for w in s.value.keywords):
                            continue
                        fs = self.callees(s.value, fr)
                        known = c.kind(s.value.func.value, fr) is not None if isinstance(s.value.func, ast.Attribute) else True
                        if not fs:
                            continue
                        self.sites += 1
                        self.seen.add(fi.qual)
                        shapes = [(f, self.shape(f)) for f in fs]
                        if not known and any(set(h) <= {'?'} or n in h for _, h in shapes):
                            # some definition fits: the others may never be meant
                            fits = [set(h) for _, h in shapes if n in h]
                            shapes = [(f, h) for f, h in shapes if n in h]
                        for f, h in shapes:
                            for k, line in h.items():
                                if k != '?' and k != n and not (k is None and self.raises(f)):
                                    self.errors.append((fi.qual, 'unpack ' + f.qual, 'it unpacks %d values, and %s returns %s at line %d' % (n, f.qual, 'None' if k is None else k, line),
                                                        m.rel, s.lineno))
        return self.errors

    def raises(self, f):
        return False
