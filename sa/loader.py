"""Source model of /repo/pytracer: modules, classes, functions, resolved names.

Nothing of the analysed program is imported or executed; everything is read
from the current working tree with the standard library's ``ast``.
"""
import ast
import os

from .norm import normalise

REPO = os.environ.get('SA_REPO', '/repo')


class AnchorMissing(Exception):
    """A construct a rule is anchored on has vanished: the analysis is broken
    (error exit), never a silent pass."""


class FuncInfo:
    __slots__ = ('name', 'node', 'module', 'cls', 'kind', 'qual', 'decos', 'outer')

    def __init__(self, name, node, module, cls=None, outer=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.decos = []
        self.kind = 'function' if cls is None else 'method'
        for d in getattr(node, 'decorator_list', []):
            t = ast.unparse(d)
            self.decos.append(t)
            if t == 'property':
                self.kind = 'property'
            elif t == 'classmethod':
                self.kind = 'classmethod'
            elif t == 'staticmethod':
                self.kind = 'staticmethod'
            elif t.endswith('.setter'):
                self.kind = 'setter'
        self.qual = (module.name + '.' + (cls.name + '.' if cls else '') + name)

    @property
    def abstract(self):
        return any(d.split('.')[-1] in ('abstractmethod', 'abstractproperty') for d in self.decos)

    @property
    def args(self):
        return self.node.args

    def argnames(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.module.rel, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<fn %s>' % self.qual


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.qual = module.name + '.' + name
        self.methods = {}      # last definition wins
        self.setters = {}
        self.all_defs = []
        self.attrs = {}        # class level assignments name -> value node
        for s in node.body:
            self._stmt(s)
        self._mro = None

    def mangled(self, n):
        return '_' + self.name.lstrip('_') + n if n.startswith('__') and not n.endswith('__') else n

    def _stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(s.name, s, self.module, self)
            if any(d.split('.')[-1] == 'overload' for d in fi.decos):
                return
            self.all_defs.append(fi)
            if fi.kind == 'setter':
                self.setters[self.mangled(s.name)] = fi
            else:
                self.methods[self.mangled(s.name)] = fi
        elif isinstance(s, ast.ClassDef):
            c = ClassInfo(s.name, s, self.module)
            c.qual = self.qual + '.' + s.name
            for f in list(c.methods.values()) + list(c.setters.values()):
                f.qual = c.qual + '.' + f.name
            self.attrs[self.mangled(s.name)] = c
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[self.mangled(t.id)] = s.value
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            self.attrs[self.mangled(e.id)] = ast.Subscript(value=s.value, slice=ast.Constant(value=i), ctx=ast.Load())
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                self.attrs[self.mangled(s.target.id)] = s.value
        elif isinstance(s, (ast.If, ast.Try, ast.With)):
            for b in ast.iter_child_nodes(s):
                if isinstance(b, ast.stmt):
                    self._stmt(b)

    @property
    def bases(self):
        """list of ClassInfo or strings (external)"""
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            if isinstance(r, ClassInfo):
                out.append(r)
            else:
                out.append(r[1] if isinstance(r, tuple) else ast.unparse(b))
        return out

    @property
    def metaclass(self):
        for k in self.node.keywords:
            if k.arg == 'metaclass':
                return ast.unparse(k.value)
        return None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                if isinstance(b, ClassInfo):
                    for c in b.mro():
                        if c not in out:
                            out.append(c)
                elif b not in out:
                    out.append(b)
            self._mro = out
        return self._mro

    def lookup(self, name):
        """(ClassInfo, FuncInfo|ast expr) or None"""
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c, c.methods[name]
                if name in c.attrs:
                    return c, c.attrs[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    def external_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def is_sub(self, other):
        return other in self.mro()

    def nested_abstract(self):
        ab = {}
        for c in reversed([c for c in self.mro() if isinstance(c, ClassInfo)]):
            for n, f in c.methods.items():
                if f.abstract:
                    ab[n] = f
                else:
                    ab.pop(n, None)
            for n in c.attrs:
                ab.pop(n, None)
        return ab

    def has_abc_meta(self):
        return any(isinstance(c, ClassInfo) and (c.metaclass or '').endswith('ABCMeta') for c in self.mro()) \
            or any(isinstance(c, str) and c.endswith('ABC') for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.qual


class Module:
    def __init__(self, project, name, path, source=None):
        self.project = project
        self.name = name
        self.path = path
        if source is None:
            self.rel = os.path.relpath(path, project.root)
            self.is_pkg = os.path.basename(path) == '__init__.py'
            with open(path, encoding='utf-8') as f:
                self.source = f.read()
        else:
            self.rel = path
            self.is_pkg = False
            self.source = source
        self.tree = normalise(ast.parse(self.source, path))
        self.functions = {}
        self.classes = {}
        self.assigns = {}      # name -> list of value nodes
        self.imports = {}      # name -> ('mod', modname) | ('from', modname, name)
        self.typing_imports = {}   # only under TYPE_CHECKING
        self.stars = []
        self.all = None
        self.order = []
        self._collect(self.tree.body, False)

    def _pkg(self, level, mod):
        if level == 0:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([mod] if mod else []))

    def _collect(self, body, typing):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = FuncInfo(s.name, s, self)
                self.order.append(s.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s.name, s, self)
                self.order.append(s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    d = self.typing_imports if typing else self.imports
                    if a.asname:
                        d[a.asname] = ('mod', a.name)
                    else:
                        d[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                m = self._pkg(s.level, s.module)
                for a in s.names:
                    if a.name == '*':
                        if not typing:
                            self.stars.append(m)
                    else:
                        (self.typing_imports if typing else self.imports)[a.asname or a.name] = ('from', m, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._target(t, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.If):
                t = ast.unparse(s.test)
                ty = typing or t in ('TYPE_CHECKING', 'typing.TYPE_CHECKING')
                self._collect(s.body, ty)
                self._collect(s.orelse, typing)
            elif isinstance(s, ast.Try):
                self._collect(s.body, typing)
                for h in s.handlers:
                    self._collect(h.body, typing)
                self._collect(s.orelse, typing)
                self._collect(s.finalbody, typing)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                if isinstance(s, ast.For):
                    self._target(s.target, None)
                self._collect(s.body, typing)

    def _target(self, t, v):
        if isinstance(t, ast.Name):
            if t.id == '__all__' and isinstance(v, (ast.List, ast.Tuple)):
                self.all = [e.value for e in v.elts if isinstance(e, ast.Constant)]
            self.assigns.setdefault(t.id, []).append(v)
            self.order.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                sub = None
                if v is not None:
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        sub = v.elts[i]
                    else:
                        sub = ast.Subscript(value=v, slice=ast.Constant(value=i), ctx=ast.Load())
                        ast.copy_location(sub, v)
                        ast.fix_missing_locations(sub)
                self._target(e, sub)

    # -- name resolution -------------------------------------------------
    def exported(self):
        """names bound by ``from self import *``"""
        if self.all is not None:
            return list(self.all)
        names = set(self.functions) | set(self.classes) | set(self.assigns) | set(self.imports)
        for m in self.stars:
            mm = self.project.modules.get(m)
            if mm is not None and mm is not self:
                names |= set(mm.exported())
        # sub-modules imported become attributes of the package as well
        if self.is_pkg:
            names |= self.submodules_loaded()
        return [n for n in names if not n.startswith('_')]

    def submodules_loaded(self):
        pre = self.name + '.'
        return {m[len(pre):] for m in self.project.modules if m.startswith(pre) and '.' not in m[len(pre):]}

    def resolve(self, name, _seen=None):
        """-> ClassInfo | FuncInfo | ('assign', Module, name) | ('mod', name) | ('ext', 'a.b') | None"""
        seen = _seen or set()
        if (self.name, name) in seen:
            return None
        seen = seen | {(self.name, name)}
        # last binding wins approximately: local definitions over imports
        if name in self.classes:
            return self.classes[name]
        if name in self.functions:
            return self.functions[name]
        if name in self.assigns:
            return ('assign', self, name)
        if name in self.imports:
            return self._res_import(self.imports[name], seen)
        for m in reversed(self.stars):
            mm = self.project.modules.get(m)
            if mm is not None:
                if mm is self:
                    continue
                if name in mm.exported():
                    r = mm.resolve(name, seen)
                    if r is not None:
                        return r
        sub = self.name + '.' + name
        if self.is_pkg and sub in self.project.modules:
            return ('mod', sub)
        return None

    def _res_import(self, imp, seen):
        if imp[0] == 'mod':
            return ('mod', imp[1]) if imp[1] in self.project.modules else ('ext', imp[1])
        _, m, n = imp
        mm = self.project.modules.get(m)
        if mm is None:
            if m.split('.')[0] == 'pytracer':
                return None
            return ('ext', m + '.' + n)
        r = mm.resolve(n, seen)
        if r is None and (m + '.' + n) in self.project.modules:
            return ('mod', m + '.' + n)
        return r

    def resolve_typing(self, name):
        r = self.resolve(name)
        if r is None and name in self.typing_imports:
            r = self._res_import(self.typing_imports[name], set())
        return r

    def resolve_expr(self, e, typing=False):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
            typing = True
        if isinstance(e, ast.Name):
            return self.resolve_typing(e.id) if typing else self.resolve(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, typing)
            if isinstance(b, tuple):
                if b[0] == 'mod':
                    mm = self.project.modules[b[1]]
                    r = mm.resolve(e.attr)
                    if r is None and (b[1] + '.' + e.attr) in self.project.modules:
                        return ('mod', b[1] + '.' + e.attr)
                    return r
                if b[0] == 'ext':
                    return ('ext', b[1] + '.' + e.attr)
            return None
        return None


class Project:
    def __init__(self, root=None, package='pytracer'):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnchorMissing('package directory %s' % base)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.modules[rel] = Module(self, rel, p)

    def functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.all_defs:
                    yield f

    def classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def cls(self, qual):
        """class by 'module.Class'; follows re-exports"""
        m, _, n = qual.rpartition('.')
        mm = self.modules.get(m)
        r = mm.resolve(n) if mm else None
        if not isinstance(r, ClassInfo):
            # moved inside the package: accept a unique class of that name
            c = [k for k in self.classes() if k.name == n]
            if len(c) == 1:
                return c[0]
            raise AnchorMissing('class %s' % qual)
        return r

    def func(self, qual):
        """function or method by qualified name; follows re-exports and inheritance"""
        m, _, n = qual.rpartition('.')
        mm = self.modules.get(m)
        if mm is not None:
            r = mm.resolve(n)
            if isinstance(r, FuncInfo):
                return r
            raise AnchorMissing('function %s' % qual)
        c = self.cls(m)
        r = c.lookup(n)
        if r is None or not isinstance(r[1], FuncInfo):
            raise AnchorMissing('method %s' % qual)
        return r[1]

    def subclasses(self, cls):
        return [c for c in self.classes() if c is not cls and cls in c.mro()]
