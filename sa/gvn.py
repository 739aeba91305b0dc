"""Gated value numbering over the syntax tree.

Every function is summarised once, structurally: both arms of a branch are
analysed and their states are *joined* with a gate on the branch condition
(gated SSA), calls to repository functions are replaced by their summaries
(bounded inlining), loops with statically known trip counts are unrolled and
all other loops are summarised by forgetting what their body may change.
No path is enumerated, no constraint solver is consulted and nothing of the
analysed program is executed.
"""
import ast
from fractions import Fraction

from . import terms as T
from .terms import (Const, TRUE, FALSE, NONE, UNBOUND, Num, Atom, Ref, ARef, Tup, Vec, Snap, Term, Fn, Ite,
                    BVar, num, sym, from_atom, ite, band, bor, bnot, lift, rel, sub, add, mul, div, neg,
                    ZERO, ONE, POSINF, app)
from . import arith
from .loader import ClassInfo, FuncInfo, Project, AnchorMissing

NUMTYPES = {'float', 'int', 'FLOAT', 'INT', 'UINT', 'DOUBLE', 'numpy.float', 'numpy.float64', 'numpy.float32',
            'numpy.int', 'numpy.int32', 'numpy.int64', 'numpy.uint32', 'numpy.uint', 'numpy.number', 'numpy.uint8'}


class Unsupported(Exception):
    pass


class HObj(object):
    """heap object; treated as immutable (copy on write)"""
    __slots__ = ('kind', 'cls', 'f', 'symbolic', 'exact')

    def __init__(self, kind, cls, f, symbolic=False, exact=True):
        self.kind = kind       # obj | arr | list | dict
        self.cls = cls
        self.f = f
        self.symbolic = symbolic
        self.exact = exact

    def put(self, k, v):
        if self.kind in ('arr', 'list'):
            l = list(self.f)
            l[k] = v
            return HObj(self.kind, self.cls, l, self.symbolic, self.exact)
        d = dict(self.f)
        d[k] = v
        return HObj(self.kind, self.cls, d, self.symbolic, self.exact)


class State(object):
    __slots__ = ('vars', 'heap', 'rel', 'base')

    def __init__(self, vars, heap, rel, base):
        self.vars = vars
        self.heap = heap
        self.rel = rel
        self.base = base

    def copy(self):
        return State(dict(self.vars), dict(self.heap), self.rel, self.base)

    @property
    def pc(self):
        return band(self.base, self.rel)


class Event(object):
    __slots__ = ('kind', 'pc', 'data', 'node', 'fi', 'stack', 'seq', 'heap')

    def __init__(self, kind, pc, data, node, fi, stack, seq, heap):
        self.kind, self.pc, self.data, self.node, self.fi = kind, pc, data, node, fi
        self.stack, self.seq, self.heap = stack, seq, heap

    def loc(self):
        return self.fi.loc(self.node) if self.fi else '?'

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.loc(), self.data)


class Frame(object):
    __slots__ = ('fi', 'returns', 'breaks', 'conts', 'loops', 'module', 'closure', 'yields', 'locals', 'loopstack')

    def __init__(self, fi, module, closure=None):
        self.fi = fi
        self.module = module
        self.returns = []
        self.breaks = []
        self.conts = []
        self.loops = 0
        self.closure = closure
        self.yields = []
        self.locals = _local_names(fi.node) if fi is not None else set()
        self.loopstack = []

    def globals(self):
        if self.fi is None or isinstance(self.fi.node, ast.Lambda):
            return ()
        r = _globals_cache.get(id(self.fi.node))
        if r is None:
            r = _globals_cache[id(self.fi.node)] = {x for n in ast.walk(self.fi.node) if isinstance(n, ast.Global) for x in n.names}
        return r


_locals_cache = {}
_globals_cache = {}


def _literal(d):
    """a small table of constants"""
    if len(d.keys) > 64:
        return False
    try:
        ast.literal_eval(d)
    except (ValueError, TypeError):
        return False
    return True




def _local_names(fn):
    r = _locals_cache.get(id(fn))
    if r is not None:
        return r[1]
    names = set()
    glob = set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def walk(stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                names.add(s.name)
                continue
            if isinstance(s, ast.Global):
                glob.update(s.names)
            if isinstance(s, (ast.Nonlocal,)):
                glob.update(s.names)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    names.add((a.asname or a.name).split('.')[0])
            for f in ('targets', 'target'):
                t = getattr(s, f, None)
                if t is not None:
                    for x in (t if isinstance(t, list) else [t]):
                        tgt(x)
            if isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.NamedExpr):
                    tgt(n.target)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    walk(b)
            for h in getattr(s, 'handlers', []):
                if h.name:
                    names.add(h.name)
                walk(h.body)
    if isinstance(fn, ast.Lambda):
        body = []
    else:
        body = fn.body
    walk(body)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    names -= glob
    _locals_cache[id(fn)] = (fn, names)
    return names


class Summary(object):
    def __init__(self, ret, st, ok, engine):
        self.ret = ret
        self.st = st
        self.ok = ok          # condition under which the function returns
        self.engine = engine

    @property
    def value(self):
        return self.engine.snap(self.ret, self.st)


def broadcast(shapes):
    """the numpy broadcast shape, or None"""
    out = ()
    for sh in shapes:
        n = max(len(out), len(sh))
        a, b = (1,) * (n - len(out)) + out, (1,) * (n - len(sh)) + tuple(sh)
        if any(p != q and p != 1 and q != 1 for p, q in zip(a, b)):
            return None
        out = tuple(q if p == 1 else p for p, q in zip(a, b))
    return out


def spread(src, dst):
    """flat source position of every element of the broadcast result"""
    src = (1,) * (len(dst) - len(src)) + tuple(src)
    pos = [0]
    for s, d in zip(src, dst):
        pos = [p * s + (0 if s == 1 else k) for p in pos for k in range(d)]
    return pos


def const_bound(n, upper):
    """a constant bound read off a sum of clamped terms, or None"""
    out = Fraction(0)
    for m, c in n.terms.items():
        if m == ():
            out += c
            continue
        at = T.Atom._all[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
        want = upper == (c > 0)
        if at is None or at.op != ('min' if want else 'max'):
            return None
        ks = [x.const for x in at.args[0] if isinstance(x, Num) and x.const is not None]
        if not ks:
            return None
        out += c * (min(ks) if want else max(ks))
    return out


def _writes_params(fn):
    """does the body store into an object it was given"""
    if isinstance(fn, ast.Lambda):
        return False
    names = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}

    def base(n):
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None
    for n in ast.walk(fn):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and base(n) in names:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'add', 'union', 'expand') and base(n.func) in names:
            return True
    return False


class Engine(object):
    replace = {}
    inner = {}
    recurse = 1
    keep_exits = True
    MAXDEPTH = 30
    UNROLL = 40

    def __init__(self, project, opaque=(), inline=None, nan=False, spec_native=True, types=None, unroll=None,
                 forget_dg=False, slices=None, try_total=False, recurse=1):
        self.p = project
        self.try_total = try_total
        self.recurse = recurse
        self.opaque = set(opaque)
        self.slices = slices or {}
        self._sl = {}
        self.inline_pred = inline
        self.nan = nan
        self.events = []
        self.stack = []
        self.nobj = 0
        self.diags = []
        self.exact = None
        self.cuts = []
        self.tries = []
        self.exits = []         # states in which an exception leaves the bodies of the active try statements (try_total only)
        self.types = types or {}
        self.modvals = {}
        self.draws = 0
        self.ndraw = {}
        self.spec_cls = self._spec_classes() if spec_native else set()
        self.via_new = set() if spec_native else self._spec_classes()
        self.nodes_seen = 0
        self.fns_seen = set()
        self.on_call = None
        self._fieldcache = {}
        self.ncalls = {}
        if unroll:
            self.UNROLL = unroll

    # ------------------------------------------------------------------ util
    def _spec_classes(self):
        out = set()
        for c in self.p.classes():
            if c.name == 'CoefficientSpectrum' or any(isinstance(b, ClassInfo) and b.name == 'CoefficientSpectrum'
                                                      for b in c.mro()):
                out.add(c)
        return out

    def is_arrcls(self, c):
        return isinstance(c, ClassInfo) and 'numpy.ndarray' in c.external_bases() and c not in self.spec_cls

    def event(self, kind, st, data, node):
        fr = self.stack[-1] if self.stack else None
        e = Event(kind, st.pc, data, node, fr.fi if fr else None,
                  tuple((f.fi.qual if f.fi else '?') for f in self.stack), len(self.events), st.heap)
        self.events.append(e)
        return e

    def diag(self, kind, st, msg, node, guard=TRUE):
        fr = self.stack[-1] if self.stack else None
        pc = st.pc if guard is TRUE else band(st.pc, guard)
        if pc is not FALSE:
            self.diags.append((kind, fr.fi if fr else None, node, msg, pc))

    def needs(self, v, what, st, node):
        """an operation that fails on None"""
        c = self.iswhen(v, NONE)
        if c is FALSE:
            return
        if self.tries:
            # the failure may be handled
            c = band(st.rel, c)
            self.tries[-1].append(c)
            if self.exits and c is not FALSE:
                self.exits[-1].append((band(st.pc, c), dict(st.heap)))
            st.rel = band(st.rel, bnot(c))
        else:
            self.diag('none-operand', st, 'None %s' % what, node, c)

    @staticmethod
    def iswhen(v, leaf):
        """condition under which the gated value v is the given leaf"""
        if isinstance(v, Ite):
            return lift(lambda l: TRUE if l is leaf else FALSE, v) if any(l is leaf for l in T.leaves(v)) else FALSE
        return TRUE if v is leaf else FALSE

    def newid(self, tag):
        self.nobj += 1
        return '#%d:%s' % (self.nobj, tag)

    # ------------------------------------------------------- types & symbols
    def ann_type(self, module, node, ret=False):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if node.value is None:
                return 'none'
            if isinstance(node.value, str):
                try:
                    return self.ann_type(module, ast.parse(node.value.strip(), mode='eval').body, ret)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.Name) and node.id in ('float', 'int', 'FLOAT', 'INT', 'UINT', 'DOUBLE'):
            return 'num'
        if isinstance(node, ast.Name) and node.id == 'bool':
            return 'bool'
        if isinstance(node, ast.Name) and node.id == 'str':
            return 'str'
        if isinstance(node, (ast.List, ast.Tuple)):
            ts = [self.ann_type(module, e, ret) for e in node.elts]
            if isinstance(node, ast.List) and len(ts) == 1:
                return ('list', ts[0])
            if isinstance(node, ast.Tuple) and not ret:
                if len(set(ts)) == 1:
                    return ts[0]
                return None
            return ('seq', tuple(ts))
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = module.resolve_expr(node, True)
            if isinstance(r, ClassInfo):
                return r
            if isinstance(r, tuple) and r[0] == 'assign':
                vs = r[1].assigns.get(r[2], [])
                for v in vs:
                    if isinstance(v, (ast.Name, ast.Attribute)):
                        t = self.ann_type(r[1], v, ret)
                        if t is not None:
                            return t
                return None
            if isinstance(r, tuple) and r[0] == 'ext':
                if r[1] in NUMTYPES:
                    return 'num'
                if r[1] == 'numpy.ndarray':
                    return 'ndarray'
            txt = ast.unparse(node)
            if txt in ('np.ndarray', 'numpy.ndarray'):
                return 'ndarray'
            # unresolvable short names: unique class of that name
            nm = txt.split('.')[-1]
            if nm == 'Spectrum':
                r = self.p.modules['pytracer.spectral.spectrum'].resolve('Spectrum')
                return self.ann_type(self.p.modules['pytracer.spectral.spectrum'], ast.Name(id='Spectrum', ctx=ast.Load()))
            cs = [c for c in self.p.classes() if c.name == nm]
            if len(cs) == 1:
                return cs[0]
        return None

    def mksym(self, path, ty, st, exact=False):
        if ty == 'num':
            return from_atom(Atom('sym', (path,)))
        if ty == 'bool':
            return T.bvar_node(BVar('truth', (path,)).id)
        if ty == 'none':
            return NONE
        if isinstance(ty, tuple) and ty[0] == 'seq':
            return Tup(self.mksym(self.subpath(path, str(i)), t, st) for i, t in enumerate(ty[1]))
        if isinstance(ty, tuple) and ty[0] == 'opt':
            v = self.mksym(path, ty[1], st)
            return ite(T.bvar_node(BVar('isnone', (path,)).id), NONE, v)
        if isinstance(ty, tuple) and ty[0] == 'mat':
            n, m = ty[1], ty[2]
            st.heap.setdefault(path, HObj('arr', None, [from_atom(Atom('sym', (self.subpath(path, '%d%d' % (i, j)),)))
                                                        for i in range(n) for j in range(m)]))
            return ARef(path, tuple(range(n * m)), (n, m), 'ndarray')
        if isinstance(ty, tuple) and ty[0] == 'arr':
            n = ty[1]
            st.heap.setdefault(path, HObj('arr', None, [from_atom(Atom('sym', (self.subpath(path, str(i)),)))
                                                        for i in range(n)]))
            return ARef(path, tuple(range(n)), (n,), 'ndarray')
        if isinstance(ty, ClassInfo):
            if ty in self.spec_cls:
                return from_atom(Atom('sym', (path,)), True)
            if self.is_arrcls(ty):
                st.heap.setdefault(path, HObj('arr', None, [from_atom(Atom('sym', (self.subpath(path, c),)))
                                                            for c in 'xyz']))
                return ARef(path, (0, 1, 2), (3,), ty)
            if self.is_enum(ty):
                return Term('sym', (path,), ty)
            if path not in st.heap:
                st.heap[path] = HObj('obj', ty, {}, True, exact)
            return Ref(path)
        return Term('sym', (path,), ty)

    def subpath(self, path, name):
        if isinstance(path, str):
            return path + '.' + name
        return Term('attr', (path, name))

    def is_enum(self, c):
        return any(isinstance(b, str) and b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for b in c.mro())

    def field_type(self, cls, name):
        """declared type of a field: explicit table, else what the constructor stores"""
        for c in cls.mro():
            if isinstance(c, ClassInfo) and (c.name, name) in self.types:
                return self.types[(c.name, name)]
        tab = self.field_table(cls)
        return tab.get(name, False)

    def field_table(self, cls):
        """name -> type (None unknown) of every attribute assigned on self/cls instances"""
        if cls in self._fieldcache:
            return self._fieldcache[cls]
        tab = {}
        self._fieldcache[cls] = tab
        for c in reversed([c for c in cls.mro() if isinstance(c, ClassInfo)]):
            for f in c.all_defs:
                a = f.argnames()
                if not a or f.kind == 'staticmethod':
                    continue
                selfs = {a[0]} if f.kind != 'classmethod' else set()
                selfs |= {'self'}
                ptypes = {}
                for x in f.node.args.args + f.node.args.kwonlyargs:
                    ptypes[x.arg] = self.ann_type(c.module, x.annotation)
                for n in ast.walk(f.node):
                    ts = []
                    val = None
                    if isinstance(n, ast.Assign):
                        ts, val = n.targets, n.value
                    elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                        ts, val = [n.target], n.value
                    elif isinstance(n, (ast.For,)):
                        ts = [n.target]
                    for t in ts:
                        pairs = [(t, val)]
                        if isinstance(t, (ast.Tuple, ast.List)):
                            if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts):
                                pairs = list(zip(t.elts, val.elts))
                            else:
                                pairs = [(e, None) for e in t.elts]
                        for tt, vv in pairs:
                            if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and tt.value.id in selfs:
                                ty = self._expr_type(c.module, vv, ptypes)
                                nm = self.mangle(tt.attr, c)
                                if tab.get(nm) is None or (f.name == '__init__' and ty is not None and nm not in tab):
                                    tab[nm] = ty
        return tab

    def _expr_type(self, module, e, ptypes):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            return ptypes.get(e.id)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return 'bool'
            if isinstance(e.value, (int, float)):
                return 'num'
            if isinstance(e.value, str):
                return 'str'
            return None
        if isinstance(e, ast.Call):
            r = module.resolve_expr(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(r, ClassInfo):
                return r
            if isinstance(r, FuncInfo):
                t = self.ann_type(r.module, r.node.returns, True)
                if t is None and e.args:
                    return None
                return t
            if isinstance(r, tuple) and r[0] == 'assign':
                t = self.ann_type(module, e.func)
                return t
            if isinstance(r, tuple) and r[0] == 'ext' and r[1] in ('numpy.sqrt', 'numpy.exp', 'numpy.cos', 'numpy.sin',
                                                                   'numpy.deg2rad', 'numpy.arccos', 'numpy.clip'):
                return 'num'
            if isinstance(e.func, ast.Name) and e.func.id in ('min', 'max', 'abs', 'len', 'float', 'int'):
                return 'num'
            if isinstance(e.func, ast.Attribute):
                b = None
                if isinstance(e.func.value, ast.Name):
                    b = ptypes.get(e.func.value.id)
                if isinstance(e.func.value, (ast.Name, ast.Attribute)):
                    rb = module.resolve_expr(e.func.value)
                    if isinstance(rb, ClassInfo):
                        b = rb
                if isinstance(b, ClassInfo):
                    if e.func.attr == 'copy':
                        lk = b.lookup('copy')
                        if lk is None:
                            return b
                    lk = b.lookup(e.func.attr)
                    if lk and isinstance(lk[1], FuncInfo):
                        t = self.ann_type(lk[0].module, lk[1].node.returns, True)
                        if t is None and lk[1].kind == 'classmethod':
                            return b
                        return t
            return None
        if isinstance(e, ast.BinOp):
            a, b = self._expr_type(module, e.left, ptypes), self._expr_type(module, e.right, ptypes)
            if a == 'num' and b == 'num':
                return 'num'
            if isinstance(a, ClassInfo):
                return a
            return None
        if isinstance(e, ast.UnaryOp):
            return self._expr_type(module, e.operand, ptypes) if not isinstance(e.op, ast.Not) else 'bool'
        if isinstance(e, ast.Compare):
            return 'bool'
        return None

    @staticmethod
    def mangle(name, cls):
        if name.startswith('__') and not name.endswith('__') and cls is not None:
            return '_' + cls.name.lstrip('_') + name
        return name

    # ------------------------------------------------------------- snapshots
    def snap(self, v, st, depth=0):
        def f(l):
            return self._snapleaf(l, st, depth)
        if isinstance(v, Ite):
            return lift(f, v)
        return f(v)

    def _snapleaf(self, l, st, depth):
        if isinstance(l, ARef):
            h = st.heap.get(l.sid)
            kind = l.kind.name if isinstance(l.kind, ClassInfo) else l.kind
            return self._vecdd(kind, l.shape, [self.snap(h.f[i], st, depth + 1) for i in l.idx])
        if isinstance(l, Tup):
            return Tup(self.snap(i, st, depth + 1) for i in l.items)
        if isinstance(l, Ref):
            h = st.heap.get(l.id)
            if h is None or depth > 8:
                return l
            if h.kind == 'list':
                return Tup(self.snap(i, st, depth + 1) for i in h.f)
            if h.kind == 'dict':
                return Snap('dict', tuple((repr(k), self.snap(v, st, depth + 1)) for k, v in h.f.items()))
            if h.kind == 'obj':
                if h.symbolic:
                    mod = []
                    for k, v in sorted(h.f.items()):
                        s = self.snap(v, st, depth + 1)
                        d = self.snap(self.default_field(l.id, h.cls, k, State({}, {}, TRUE, TRUE)),
                                      State({}, self._freshheap(l.id, h.cls, k), TRUE, TRUE), depth + 1)
                        if s is not d and not (isinstance(s, Ref) and isinstance(d, Ref) and s.id == d.id):
                            mod.append((k, s))
                    if not mod:
                        return l
                    return Snap('%s@%s' % (h.cls.name, T.show(l.id) if not isinstance(l.id, str) else l.id), tuple(mod))
                return Snap(h.cls.name, tuple((k, self.snap(v, st, depth + 1)) for k, v in sorted(h.f.items())))
        return l

    def _freshheap(self, oid, cls, k):
        s = State({}, {}, TRUE, TRUE)
        self.default_field(oid, cls, k, s)
        return s.heap

    def _vecdd(self, kind, shape, items):
        return Vec(kind, shape, items)

    def default_field(self, oid, cls, name, st):
        ty = self.field_type(cls, name)
        if ty is False:
            ty = None
        return self.mksym(self.subpath(oid, name), ty, st)

    # --------------------------------------------------------------- coerce
    def tonum(self, l, st):
        if isinstance(l, Num):
            return l
        if l is TRUE:
            return ONE
        if l is FALSE:
            return ZERO
        if isinstance(l, (Ref, ARef, Tup)):
            l = self.snap(l, st)
        if isinstance(l, Ite):
            return lift(lambda x: self.tonum(x, st), l)
        spec = isinstance(l, Term) and l.ty in self.spec_cls
        return from_atom(Atom('val', (l,)), spec)

    def truth(self, v, st):
        def f(l):
            if isinstance(l, Const):
                return Const(bool(l.v))
            if isinstance(l, Num):
                if l.spec:
                    return T.bvar_node(BVar('truth', (l,)).id)
                return bnot(rel('eq', l))
            if isinstance(l, Tup):
                return Const(len(l.items) > 0)
            if isinstance(l, Ref):
                h = st.heap.get(l.id)
                if h is not None and h.kind == 'list' and self.gated(h.f):
                    acc = FALSE
                    for x in h.f:
                        acc = bor(acc, self.present(x))
                    return acc
                if h is not None and h.kind in ('list', 'dict'):
                    return Const(len(h.f) > 0)
                if h is not None and h.kind == 'obj':
                    if h.cls.lookup('__bool__') or h.cls.lookup('__len__'):
                        m = h.cls.lookup('__bool__') or h.cls.lookup('__len__')
                        r = self.call_user(m[1], [l], {}, st, None)
                        return self.truth(r, st)
                    return TRUE
            if isinstance(l, Fn):
                return TRUE
            if l is UNBOUND:
                return FALSE
            if isinstance(l, ARef):
                l = self.snap(l, st)
                if isinstance(l, Vec) and len(l.items) == 1:
                    return self.truth(l.items[0], st)
            return T.bvar_node(BVar('truth', (l,)).id)
        if isinstance(v, Ite):
            return lift(f, v)
        return f(v)

    # ----------------------------------------------------------- arithmetic
    def ew(self, f, args, st, kind=None):
        """elementwise application with scalar broadcast"""
        def g(*ls):
            arrs = [a for a in ls if isinstance(a, ARef)]
            from . import npmodel
            if any(npmodel.is_lazy(a) for a in ls):
                return npmodel.lazy_ew(f, ls, self, st)
            if arrs and any(isinstance(a, (Ref, Tup)) for a in ls):
                ls = [npmodel.toarr(self, a, st) or a if isinstance(a, (Ref, Tup)) else a for a in ls]
                arrs = [a for a in ls if isinstance(a, ARef)]
            if not arrs:
                ns = [self.tonum(a, st) for a in ls]
                if any(isinstance(n, Ite) for n in ns):
                    return lift(f, *ns)
                return f(*ns)
            shape = broadcast([a.shape for a in arrs])
            if shape is None:
                return Term('call', (Const('numpy.broadcast'),) + tuple(self.snap(a, st) for a in ls), 'ndarray')
            k = kind
            if k is None:
                k = 'ndarray'
                for a in arrs:
                    if a.kind != 'ndarray':
                        k = a.kind
                        break
            n = len_(shape)
            cols = []
            for a in ls:
                if isinstance(a, ARef):
                    el = [st.heap[a.sid].f[i] for i in a.idx]
                    if a.shape == shape:
                        cols.append(el)
                    else:
                        cols.append([el[i] for i in spread(a.shape, shape)])
                elif isinstance(a, Num) and a.spec and a.const is None and n == 3:
                    cols.append([self.num_item(a, num(i)) for i in range(3)])
                elif isinstance(a, Num) and a.spec and a.const is not None:
                    cols.append([num(a.const)] * n)
                else:
                    cols.append([a] * n)
            out = []
            for tup in zip(*cols):
                out.append(lift(lambda *xs: self._f_num(f, xs, st), *tup))
            return self.newarr(out, shape, k, st)
        return lift(g, *args)

    def ew_call(self, fn, ls, st, node):
        """a Python function applied element by element (numpy.frompyfunc)"""
        from . import npmodel
        ls = [npmodel.toarr(self, a, st) or a if isinstance(a, (Ref, Tup)) else a for a in ls]
        arrs = [a for a in ls if isinstance(a, ARef)]
        if not arrs:
            return self.call(fn, ls, {}, st, node)
        shape = broadcast([a.shape for a in arrs])
        if shape is None or len_(shape) > 64:
            return Term('call', (Const('numpy.frompyfunc'),) + tuple(self.snap(a, st) for a in ls), 'ndarray')
        cols = []
        for a in ls:
            if isinstance(a, ARef):
                el = [st.heap[a.sid].f[i] for i in a.idx]
                cols.append([el[i] for i in spread(a.shape, shape)])
            else:
                cols.append([a] * len_(shape))
        return self.newarr([self.call(fn, list(t), {}, st, node) for t in zip(*cols)], shape, 'ndarray', st)

    def num_item(self, v, i):
        k, at = T.scaled_atom(v) or (None, None)
        if v.spec and at is not None and at.op in ('max', 'min') and isinstance(i, Num) and i.const is not None:
            f = T.vmax if at.op == 'max' else T.vmin
            return T.mul(num(k), f(*[self.num_item(x, i) if x.spec and x.const is None else num(x.const) if x.const is not None else x for x in at.args[0]]))
        if at is not None and k != 1:
            return T.mul(num(k), self.num_item(T.from_atom(at, v.spec), i))
        return from_atom(Atom('item', (v, i)))

    def spec_default(self):
        """the class the package exports as Spectrum"""
        if not hasattr(self, '_specdef'):
            m = self.p.modules.get('pytracer')
            r = m.resolve('Spectrum') if m is not None else None
            for _ in range(4):
                if isinstance(r, tuple) and r[0] == 'assign':
                    vs = r[1].assigns.get(r[2], [])
                    r = r[1].resolve_expr(vs[-1]) if vs and vs[-1] is not None else None
            self._specdef = r
        return self._specdef

    def _f_num(self, f, xs, st):
        ns = [self.tonum(x, st) for x in xs]
        if any(isinstance(n, Ite) for n in ns):
            return lift(f, *ns)
        return f(*ns)

    def newarr(self, elems, shape, kind, st):
        sid = self.newid('arr')
        st.heap[sid] = HObj('arr', None, list(elems))
        return ARef(sid, tuple(range(len(elems))), tuple(shape), kind)

    def newlist(self, items, st):
        i = self.newid('list')
        st.heap[i] = HObj('list', None, list(items))
        return Ref(i)

    BIN = {ast.Add: ('__add__', '__radd__', '__iadd__'), ast.Sub: ('__sub__', '__rsub__', '__isub__'),
           ast.Mult: ('__mul__', '__rmul__', '__imul__'), ast.Div: ('__truediv__', '__rtruediv__', '__itruediv__'),
           ast.FloorDiv: ('__floordiv__', '__rfloordiv__', '__ifloordiv__'), ast.Mod: ('__mod__', '__rmod__', '__imod__'),
           ast.Pow: ('__pow__', '__rpow__', '__ipow__'), ast.BitAnd: ('__and__', '__rand__', '__iand__'),
           ast.BitOr: ('__or__', '__ror__', '__ior__'), ast.BitXor: ('__xor__', '__rxor__', '__ixor__'),
           ast.LShift: ('__lshift__', '__rlshift__', '__ilshift__'), ast.RShift: ('__rshift__', '__rrshift__', '__irshift__'),
           ast.MatMult: ('__matmul__', '__rmatmul__', '__imatmul__')}

    def usermethod(self, l, name, st):
        """user-defined dunder on a leaf, or None"""
        c = self.leafcls(l, st)
        if isinstance(c, ClassInfo):
            r = c.lookup(name)
            if r and isinstance(r[1], FuncInfo):
                return r[1]
        return None

    def boundmethod(self, v, name, st):
        """the user-defined method of every object v may be, bound; or None"""
        ls = T.leaves(v) if isinstance(v, Ite) else [v]
        ms = {l: self.usermethod(l, name, st) if isinstance(l, Ref) else None for l in ls}
        if any(m is None for m in ms.values()):
            return None
        return lift(lambda l: Fn('bound', l, ms[l]), v)

    def leafcls(self, l, st):
        if isinstance(l, Ref):
            h = st.heap.get(l.id)
            if h is not None:
                return h.cls if h.kind == 'obj' else h.kind
        if isinstance(l, ARef):
            return l.kind
        if isinstance(l, Num):
            if l.spec:
                return 'spec'
            return 'num'
        if isinstance(l, Tup):
            return 'tuple'
        if isinstance(l, Const):
            return type(l.v).__name__
        if isinstance(l, Term):
            return l.ty
        return None

    def binop(self, op, a, b, st, node):
        t = type(op)

        def g(x, y):
            m = self.usermethod(x, self.BIN[t][0], st)
            if m is not None:
                return self.call_user(m, [x, y], {}, st, node)
            m = self.usermethod(y, self.BIN[t][1], st)
            if m is not None and not isinstance(x, ARef):
                return self.call_user(m, [y, x], {}, st, node)
            return self.binleaf(t, x, y, st, node)
        try:
            c = bor(self.iswhen(a, NONE), self.iswhen(b, NONE))
        except T.Blowup:
            c = TRUE
        if c is not FALSE:
            self.diag('none-operand', st, 'None used as operand of %s' % t.__name__, node, c)
        try:
            return lift(g, a, b)
        except T.Blowup:
            return Term('blowup', (Const(id(node)),))

    def numop(self, t):
        if t is ast.Add:
            return add
        if t is ast.Sub:
            return sub
        if t is ast.Mult:
            return mul
        if t is ast.Div:
            return div
        if t is ast.Pow:
            return npow
        if t is ast.FloorDiv:
            return lambda a, b: app('floordiv', a, b)
        if t is ast.Mod:
            return lambda a, b: app('mod', a, b)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
            return lambda a, b: bitop(t, a, b)
        return lambda a, b: app(t.__name__, a, b)

    def binleaf(self, t, x, y, st, node):
        if t is ast.Add and isinstance(x, Const) and isinstance(x.v, str) and isinstance(y, Const) and isinstance(y.v, str):
            return Const(x.v + y.v)
        if isinstance(x, Const) and isinstance(x.v, str) or (isinstance(y, Const) and isinstance(y.v, str)):
            return Term('str', (self.snap(x, st), self.snap(y, st)), 'str')
        if isinstance(x, Ref) and isinstance(y, Ref) and t is ast.Add:
            hx, hy = st.heap.get(x.id), st.heap.get(y.id)
            if hx and hy and hx.kind == 'list' and hy.kind == 'list':
                return self.newlist(list(hx.f) + list(hy.f), st)
        if isinstance(x, Tup) and isinstance(y, Tup) and t is ast.Add:
            return Tup(x.items + y.items)
        if t in (ast.Mult, ast.Div, ast.Pow, ast.FloorDiv, ast.Mod) and isinstance(x, ARef) and isinstance(y, ARef) and x.kind == y.kind == 'quaternion':
            if t is not ast.Mult:
                return Term('call', (Const('numpy.quaternion'), self.snap(x, st), self.snap(y, st)))
            a, b = [[self.tonum(st.heap[v.sid].f[i], st) for i in v.idx] for v in (x, y)]
            ps = [[(0, 0, 1), (1, 1, -1), (2, 2, -1), (3, 3, -1)], [(0, 1, 1), (1, 0, 1), (2, 3, 1), (3, 2, -1)],
                  [(0, 2, 1), (1, 3, -1), (2, 0, 1), (3, 1, 1)], [(0, 3, 1), (1, 2, 1), (2, 1, -1), (3, 0, 1)]]
            out = []
            for row in ps:
                acc = T.ZERO
                for i, j, s in row:
                    acc = lift(lambda p, q, r: add(p, mul(num(s), mul(q, r))), acc, a[i], b[j])
                out.append(acc)
            return self.newarr(out, (4,), 'quaternion', st)
        if t is ast.Mult and isinstance(y, Num) and y.const is not None:
            if isinstance(x, Tup):
                return Tup(x.items * int(y.const))
            if isinstance(x, Ref):
                hx = st.heap.get(x.id)
                if hx is not None and hx.kind == 'list':
                    return self.newlist(list(hx.f) * int(y.const), st)
        if t is ast.Mult and isinstance(x, Ref) and isinstance(y, Num):
            hx = st.heap.get(x.id)
            if hx is not None and hx.kind == 'list':
                return Term('rep', (self.snap(x, st), y), None)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            # booleans
            if self.isbool(x) and self.isbool(y):
                bx, by = self.truth(x, st), self.truth(y, st)
                if t is ast.BitAnd:
                    return band(bx, by)
                if t is ast.BitOr:
                    return bor(bx, by)
                return ite(bx, bnot(by), by)
        from . import npmodel
        if (isinstance(x, Ref) and not (isinstance(y, ARef) and npmodel.toarr(self, x, st))) or (
                isinstance(y, Ref) and not (isinstance(x, ARef) and npmodel.toarr(self, y, st))):
            cx, cy = self.leafcls(x, st), self.leafcls(y, st)
            if isinstance(cx, ClassInfo) or isinstance(cy, ClassInfo):
                self.diag('operand', st, 'unsupported operand %s for %s and %s' % (
                    t.__name__, getattr(cx, 'name', cx), getattr(cy, 'name', cy)), node)
            return Term('bin' + t.__name__, (self.snap(x, st), self.snap(y, st)))
        if x is UNBOUND or y is UNBOUND:
            return UNBOUND
        return self.ew(self.numop(t), [x, y], st)

    @staticmethod
    def isbool(l):
        return l is TRUE or l is FALSE or (isinstance(l, Term) and l.ty == 'bool')

    def compare(self, op, a, b, st, node):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            def g(x, y):
                if y is NONE or x is NONE:
                    o = x if y is NONE else y
                    if o is NONE:
                        return TRUE
                    if isinstance(o, Term) and (o.ty is None):
                        return T.bvar_node(BVar('isnone', (o.args[0] if o.op == 'sym' else o,)).id)
                    return FALSE
                if isinstance(x, Const) and isinstance(y, Const):
                    return Const(x is y)
                if isinstance(x, Fn) and isinstance(y, Fn) and x is not y and 'cls' in (x.kind, y.kind) and {x.kind, y.kind} <= {'cls', 'ext', 'builtin'}:
                    return FALSE        # a class of the repository and another class
                if isinstance(x, Ref) and isinstance(y, Ref) and x is not y:
                    hs = [st.heap.get(r.id) for r in (x, y)]
                    if all(h is not None and (h.kind in ('list', 'dict') or h.kind == 'obj' and h.exact) and not h.symbolic for h in hs):
                        return FALSE
                if isinstance(x, (Num, Tup)) and isinstance(y, Ref) or isinstance(y, (Num, Tup)) and isinstance(x, Ref):
                    return FALSE
                return Const(True) if x is y else T.bvar_node(BVar('is', (self.snap(x, st), self.snap(y, st))).id)
            r = lift(g, a, b)
            return r if t is ast.Is else bnot(r)
        if t in (ast.In, ast.NotIn):
            self.needs(b, 'is searched', st, node)

            def g(x, y):
                items = None
                if isinstance(y, Tup):
                    items = y.items
                elif isinstance(y, Ref) and st.heap.get(y.id) is not None and st.heap[y.id].kind == 'list':
                    items = st.heap[y.id].f
                elif isinstance(y, Ref) and st.heap.get(y.id) is not None and st.heap[y.id].kind == 'dict' and isinstance(x, Const) \
                        and all(isinstance(k, Const) for k in st.heap[y.id].f):
                    return Const(any(k is x or k == x for k in st.heap[y.id].f))
                elif isinstance(y, Ref) and st.heap.get(y.id) is not None and st.heap[y.id].kind == 'dict':
                    ms = self.dictmatch(st.heap[y.id], x, st, node)
                    if ms is not None:
                        acc = FALSE
                        for c, k in ms:
                            acc = bor(acc, band(c, bnot(self.iswhen(st.heap[y.id].f[k], UNBOUND))))
                        return acc
                if items is not None:
                    acc = FALSE
                    for i in items:
                        acc = bor(acc, self.compare(ast.Eq(), x, i, st, node))
                    return acc
                return T.bvar_node(BVar('in', (self.snap(x, st), self.snap(y, st))).id)
            r = lift(g, a, b)
            return r if t is ast.In else bnot(r)
        if t not in (ast.Eq, ast.NotEq):
            c = bor(self.iswhen(a, NONE), self.iswhen(b, NONE))
            if c is not FALSE:
                self.diag('none-operand', st, 'None used in an ordering comparison', node, c)

        def g(x, y):
            if t in (ast.Eq, ast.NotEq):
                m = self.usermethod(x, '__eq__' if t is ast.Eq else '__ne__', st)
                if m is not None:
                    return self.truth(self.call_user(m, [x, y], {}, st, node), st)
                if t is ast.NotEq:
                    m = self.usermethod(x, '__eq__', st)
                    if m is not None:
                        return bnot(self.truth(self.call_user(m, [x, y], {}, st, node), st))
                r = self.eqleaf(x, y, st)
                return r if t is ast.Eq else bnot(r)
            mm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[t]
            m = self.usermethod(x, mm, st)
            if m is not None:
                return self.truth(self.call_user(m, [x, y], {}, st, node), st)
            if x is UNBOUND or y is UNBOUND:
                return FALSE
            if isinstance(x, ARef) and not (isinstance(y, Num) and y.spec) or isinstance(y, ARef) and not (isinstance(x, Num) and x.spec):
                f = {ast.Lt: lambda p, q: rel('lt', sub2(p, q)), ast.LtE: lambda p, q: rel('le', sub2(p, q)),
                     ast.Gt: lambda p, q: rel('lt', sub2(q, p)), ast.GtE: lambda p, q: rel('le', sub2(q, p))}[t]
                return self.ew(f, [x, y], st, 'ndarray')
            nx, ny = self.tonum(x, st), self.tonum(y, st)

            def h(p, q):
                if (p.spec or q.spec) and not (all(T.scalar_atom(a) for a in p.atoms() | q.atoms())):
                    # element-wise comparison of spectra: opaque truth array
                    return T.bvar_node(BVar('speccmp', (mm, p, q)).id)
                if t is ast.Lt:
                    return rel('lt', sub2(p, q))
                if t is ast.LtE:
                    return rel('le', sub2(p, q))
                if t is ast.Gt:
                    return rel('lt', sub2(q, p))
                return rel('le', sub2(q, p))
            return lift(h, nx, ny)
        return lift(g, a, b)

    @staticmethod
    def _speceq(d):
        if d.const is not None and d.terms:
            return FALSE
        return T.bvar_node(BVar('speceq', (d,)).id) if d.terms else TRUE

    def dictmatch(self, h, i, st, node):
        """[(condition, key)]: the entries a structured key may designate; None when the keys cannot be compared"""
        def known(k):
            return isinstance(k, (Const, Num, Fn)) or isinstance(k, Tup) and all(known(x) for x in k.items) or \
                isinstance(k, Ref) and self.usermethod(k, '__eq__', st) is not None
        if h.symbolic or not isinstance(i, (Tup, Ref)) or not known(i) or not all(known(k) for k in h.f):
            return None
        out = []
        for k in h.f:
            c = self.compare(ast.Eq(), i, k, st, node)
            if c is not FALSE:
                out.append((c, k))
        return out

    def eqleaf(self, x, y, st):
        if isinstance(x, Const) and isinstance(y, Const):
            return Const(x.v == y.v)
        if x is y and not isinstance(x, Term):
            return TRUE
        if (isinstance(x, Const) and x.v is None) or (isinstance(y, Const) and y.v is None):
            if isinstance(x, Term) or isinstance(y, Term):
                o = x if isinstance(x, Term) else y
                return T.bvar_node(BVar('isnone', (o.args[0] if o.op == 'sym' else o,)).id)
            return FALSE
        if x in (TRUE, FALSE) and isinstance(y, Num) or y in (TRUE, FALSE) and isinstance(x, Num):
            x, y = [num(int(v is TRUE)) if v in (TRUE, FALSE) else v for v in (x, y)]
        if isinstance(x, Num) or isinstance(y, Num):
            if isinstance(x, (Num, Term)) and isinstance(y, (Num, Term)):
                return lift(lambda p, q: rel('eq', sub(p, q)) if not (p.spec or q.spec) else
                            self._speceq(sub(p, q)),
                            self.tonum(x, st), self.tonum(y, st))
            k, o = (x, y) if isinstance(x, Const) else (y, x)
            if isinstance(k, Const) and isinstance(k.v, str) and isinstance(o, Num) and o.const is not None:
                return FALSE
        if isinstance(x, ARef) and isinstance(y, ARef):
            return self.arreq(x, y, st)
        if isinstance(x, Fn) and isinstance(y, Fn) and 'dtype' in (x.kind, y.kind):
            kinds = ['object' if f.a == 'object' else 'float' if str(f.a).split('.')[-1].startswith('float') else None for f in (x, y)]
            if None not in kinds:
                return Const(kinds[0] == kinds[1])
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items):
                return FALSE
            acc = TRUE
            for a, b in zip(x.items, y.items):
                acc = band(acc, self.compare(ast.Eq(), a, b, st, None))
            return acc
        if isinstance(x, Fn) and isinstance(y, Fn) and x is not y and 'cls' in (x.kind, y.kind) and {x.kind, y.kind} <= {'cls', 'ext', 'builtin'}:
            return FALSE
        if isinstance(x, Ref) and isinstance(y, Ref):
            hs = [st.heap.get(r.id) for r in (x, y)]
            if all(h is not None and h.kind == 'list' and not h.symbolic for h in hs):
                if len(hs[0].f) != len(hs[1].f):
                    return FALSE
                acc = TRUE
                for a, b in zip(hs[0].f, hs[1].f):
                    acc = band(acc, lift(lambda p, q: self.eqleaf(p, q, st), a, b))
                return acc
            if all(h is not None and (h.kind == 'list' or h.kind == 'obj' and h.exact) and not h.symbolic for h in hs):
                return FALSE            # distinct objects without __eq__ compare by identity
        sx, sy = self.snap(x, st), self.snap(y, st)
        if sx is sy:
            return TRUE
        a, b = sorted([sx, sy], key=T.show)
        return T.bvar_node(BVar('eq', (a, b)).id)

    def arreq(self, x, y, st):
        if x.shape != y.shape:
            return FALSE
        acc = TRUE
        for i, j in zip(x.idx, y.idx):
            p, q = st.heap[x.sid].f[i], st.heap[y.sid].f[j]
            acc = band(acc, lift(lambda a, b: self.eqleaf(a, b, st), p, q))
        return acc

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st, node):
        c = self.iswhen(v, NONE)
        if c is not FALSE:
            self.diag('none-attr', st, "None has no attribute '%s'" % name, node, c)
        return lift(lambda l: self.getattr_leaf(l, name, st, node), v) if isinstance(v, Ite) \
            else self.getattr_leaf(v, name, st, node)

    def curcls(self):
        return self.stack[-1].fi.cls if self.stack and self.stack[-1].fi else None

    def getattr_leaf(self, l, name, st, node):
        from . import npmodel
        if isinstance(l, Ref):
            h = st.heap.get(l.id)
            if h is not None and h.kind == 'obj':
                return self.objattr(l, h, name, st, node)
            if h is not None:
                return Fn('bmeth', (l, h.kind), name)
        if isinstance(l, ARef):
            c = l.kind
            if isinstance(c, ClassInfo):
                r = c.lookup(name)
                if r is not None:
                    return self.bindattr(l, c, r, name, st, node)
            return npmodel.arr_attr(self, l, name, st, node)
        if isinstance(l, Num):
            return npmodel.num_attr(self, l, name, st, node)
        if isinstance(l, Fn):
            return self.fnattr(l, name, st, node)
        if isinstance(l, Tup):
            return Fn('bmeth', (l, 'tuple'), name)
        if isinstance(l, Const):
            if isinstance(l.v, str):
                return Fn('bmeth', (l, 'str'), name)
            if isinstance(l.v, tuple) and l.v and l.v[0] == 'enum':
                return Term('attr', (l, name))
            if isinstance(l.v, bool) and name == 'all':
                # the truth of a comparison that covers all elements of a spectrum
                return Fn('bmeth', (l, 'bool'), name)
            return Term('attr', (l, Const(name)))
        if l is UNBOUND:
            return UNBOUND
        if isinstance(l, Term):
            c = l.ty
            if isinstance(c, ClassInfo) and not self.is_enum(c):
                r = Ref(l)
                if l not in st.heap:
                    st.heap[l] = HObj('obj', c, {}, True, False)
                return self.getattr_leaf(r, name, st, node)
            if c == 'ndarray':
                return npmodel.term_arr_attr(self, l, name, st, node)
            return Term('attr', (l, Const(name)))
        return Term('attr', (self.snap(l, st), Const(name)))

    def objattr(self, ref, h, name, st, node):
        cc = self.curcls()
        mname = self.mangle(name, cc)
        if mname in h.f:
            return h.f[mname]
        r = h.cls.lookup(mname)
        if r is not None and isinstance(r[1], FuncInfo):
            # data descriptors / methods on the class
            ft = self.field_table(h.cls)
            if not (h.symbolic and mname in ft and r[1].kind == 'method'):
                return self.bindattr(ref, h.cls, r, mname, st, node)
        if h.symbolic:
            ft = self.field_type(h.cls, mname)
            if ft is not False:
                v = self.default_field(ref.id, h.cls, mname, st)
                st.heap[ref.id] = h.put(mname, v)
                # default_field may have added heap entries; keep them
                return v
        if r is not None:
            return self.bindattr(ref, h.cls, r, mname, st, node)
        if name == '__class__':
            return Fn('cls', h.cls)
        if name in ('__dict__', '__doc__'):
            return Term('attr', (ref, Const(name)))
        # attribute defined by some subclass?  abstract mixins are resolved per class
        if not h.exact:
            for sc in self.p.subclasses(h.cls):
                if mname in self.field_table(sc) or sc.lookup(mname):
                    return self.mksym(self.subpath(ref.id, mname), None, st)
        self.diag('attr', st, "'%s' has no attribute '%s'" % (h.cls.name, name), node)
        return Term('attr', (ref, Const(name)))

    def bindattr(self, l, cls, r, name, st, node):
        owner, d = r
        if isinstance(d, FuncInfo):
            if d.kind == 'property':
                return self.call_user(d, [l], {}, st, node, recv=l)
            if d.kind == 'staticmethod':
                return Fn('func', d)
            if d.kind == 'classmethod':
                return Fn('bound', Fn('cls', cls), d)
            return Fn('bound', l, d)
        return self.classattr(cls, owner, name, d, st, node)

    def classattr(self, cls, owner, name, d, st, node):
        hid = 'class:' + owner.qual
        h = st.heap.get(hid)
        if h is not None and name in h.f:
            return h.f[name]
        if isinstance(d, ClassInfo):
            return Fn('cls', d)
        if self.is_enum(cls):
            return Const(('enum', cls.qual, name))
        # evaluate in the class body scope
        return self.eval_static(d, owner.module, owner, st)

    def eval_static(self, node, module, cls, st):
        key = (id(node), cls.qual if cls else module.name)
        if key in self.modvals:
            v = self.modvals[key]
            if v is None:
                return Term('cyclic', (Const(module.name),))
            if isinstance(v, tuple):
                val, heap = v
                for k, o in heap.items():
                    st.heap.setdefault(k, o)
                return val
            return v
        self.modvals[key] = None
        s = State({}, {}, TRUE, TRUE)
        fr = Frame(None, module)
        fr.fi = None
        fr.closure = (cls,)
        self.stack.append(fr)
        ev, dg = self.events, self.diags
        self.events, self.diags = [], []
        try:
            val = self.eval(node, s)
        except Unsupported:
            val = Term('static', (Const(ast.unparse(node)[:80]),))
        finally:
            self.stack.pop()
            self.events, self.diags = ev, dg
        self.modvals[key] = (val, s.heap)
        for k, o in s.heap.items():
            st.heap.setdefault(k, o)
        return val

    def fnattr(self, l, name, st, node):
        from . import npmodel
        if l.kind in ('cls', 'super'):
            name = self.mangle(name, self.curcls())
        if l.kind == 'mod':
            return self.modattr(l.a, name, st, node)
        if l.kind == 'ext':
            return npmodel.ext(self, l.a + '.' + name, st, node)
        if l.kind == 'cls':
            c = l.a
            hid = 'class:' + c.qual
            for k in c.mro():
                if isinstance(k, ClassInfo):
                    h = st.heap.get('class:' + k.qual)
                    if h is not None and name in h.f:
                        return h.f[name]
            r = c.lookup(name)
            if r is None:
                if name in ('__name__', '__doc__', '__module__', '__class__', '__bases__'):
                    return Const(c.name)
                if self.external_attr_ok(c):
                    return Term('attr', (l, Const(name)))
                if name in self.class_writes(c):
                    return Term('attr', (l, Const(name)))
                self.diag('attr', st, "class '%s' has no attribute '%s'" % (c.name, name), node)
                return Term('attr', (l, Const(name)))
            owner, d = r
            if isinstance(d, FuncInfo):
                if d.kind == 'classmethod':
                    return Fn('bound', l, d)
                return Fn('func', d)
            return self.classattr(c, owner, name, d, st, node)
        if l.kind == 'super':
            cls, selfv = l.a, l.b
            c0 = self.leafcls(selfv, st) if not isinstance(selfv, Fn) else selfv.a
            mro = c0.mro() if isinstance(c0, ClassInfo) else cls.mro()
            i = mro.index(cls) if cls in mro else -1
            for k in mro[i + 1:]:
                if isinstance(k, ClassInfo):
                    if name in k.methods:
                        m = k.methods[name]
                        if m.kind == 'property':
                            return self.call_user(m, [selfv], {}, st, node, recv=selfv)
                        if m.kind == 'staticmethod':
                            return Fn('func', m)
                        return Fn('bound', selfv if m.kind != 'classmethod' else Fn('cls', k), m)
                    if name in k.attrs:
                        return self.classattr(k, k, name, k.attrs[name], st, node)
            return Fn('objmeth', selfv, name)
        if l.kind in ('func', 'bound') and name in ('__name__', '__doc__'):
            return Term('attr', (l, Const(name)))
        return Term('attr', (l, Const(name)))

    def class_writes(self, c):
        out = set()
        for k in c.mro():
            if isinstance(k, ClassInfo):
                for f in k.all_defs:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                                and n.value.id in (k.name, 'cls'):
                            out.add(n.attr)
        return out

    def external_attr_ok(self, c):
        return any(b != 'object' for b in c.external_bases())

    def modattr(self, mod, name, st, node):
        m = self.p.modules[mod]
        r = m.resolve(name)
        h = st.heap.get('module:' + mod)
        if h is not None and Const(name) in h.f:
            v = h.f[Const(name)]
            if UNBOUND not in T.leaves(v):
                return v
            old = self.static(r, st) if r is not None else Fn('mod', mod + '.' + name) if mod + '.' + name in self.p.modules else UNBOUND
            return lift(lambda x: old if x is UNBOUND else x, v)
        if r is None:
            if mod + '.' + name in self.p.modules:
                return Fn('mod', mod + '.' + name)
            if name.startswith('__'):
                return Term('modattr', (mod, name))
            self.diag('modattr', st, "module '%s' has no attribute '%s'" % (mod, name), node)
            return Term('modattr', (mod, name))
        return self.static(r, st)

    def static(self, r, st):
        from . import npmodel
        if isinstance(r, ClassInfo):
            return Fn('cls', r)
        if isinstance(r, FuncInfo):
            return Fn('func', r)
        if r[0] == 'mod':
            return Fn('mod', r[1])
        if r[0] == 'ext':
            return npmodel.ext(self, r[1], st)
        if r[0] == 'assign':
            m, name = r[1], r[2]
            vs = m.assigns.get(name, [])
            if name in ('EPS',):
                return sym('EPS')
            if len(vs) >= 1 and vs[-1] is not None:
                if len(vs) > 1 and len({ast.dump(v) for v in vs if v is not None}) > 1:
                    return Term('global', (m.name, name))
                v = vs[-1]
                if isinstance(v, ast.DictComp) or isinstance(v, ast.Dict) and not _literal(v):
                    return Term('global', (m.name, name))
                return self.eval_static(v, m, None, st)
            return Term('global', (m.name, name))
        raise Unsupported('static %r' % (r,))

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, node):
        fr = self.stack[-1]
        if name in st.vars:
            v = st.vars[name]
            if v is UNBOUND or (isinstance(v, Ite) and UNBOUND in T.leaves(v)):
                g = FALSE
                for lf, gd in T.guarded_leaves(v):
                    if lf is UNBOUND:
                        g = bor(g, gd)
                if not T.unsat(band(st.pc, g)):
                    self.diag('unbound', st, "local variable '%s' may be used before assignment" % name, node, g)
                # continue under the assumption that it is bound
                v = lift(lambda x: x, v)
                if v is not UNBOUND:
                    v = T.restrict(v, bnot(g)) if g is not FALSE else v
            return v
        if fr.fi is not None and name in fr.locals:
            self.diag('unbound', st, "local variable '%s' is used before assignment" % name, node)
            return Term('unbound', (Const(name),))
        c = fr.closure
        while c is not None and isinstance(c, tuple):
            env = c[0]
            if isinstance(env, State):
                if name in env.vars:
                    return env.vars[name]
            elif isinstance(env, ClassInfo):
                name = self.mangle(name, env)
                if name in env.attrs:
                    return self.classattr(env, env, name, env.attrs[name], st, node)
                if name in env.methods:
                    return Fn('func', env.methods[name])
            c = c[1] if len(c) > 1 else None
        if 'module:' + fr.module.name in st.heap and Const(name) in st.heap['module:' + fr.module.name].f:
            return self.modattr(fr.module.name, name, st, node)
        r = fr.module.resolve(name)
        if r is not None:
            return self.static(r, st)
        if name in BUILTINS:
            return Fn('builtin', name)
        if name in ('__file__', '__name__', '__doc__'):
            return Term('dunder', (Const(name),), 'str')
        if name == '__class__':
            return Fn('cls', self.curcls())
        self.diag('name', st, "name '%s' is not defined" % name, node)
        return Term('undefined', (Const(name),))

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        self.nodes_seen += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('%s at %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return Const(v)
        if isinstance(v, (int, float)):
            if isinstance(v, float) and v in (float('inf'),):
                return POSINF
            return num(v)
        if v is Ellipsis:
            return Const('...')
        return Const(repr(v))

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Attribute(self, e, st):
        v = self.eval(e.value, st)
        return self.getattr(v, e.attr, st, e)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete(self.eval(x.value, st), st)
                if it is None:
                    return Term('tuple*', (self.snap(self.eval(x.value, st), st),))
                out.extend(it)
            else:
                out.append(self.eval(x, st))
        return Tup(out)

    def e_List(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete(self.eval(x.value, st), st)
                if it is None:
                    return Term('list*', (self.snap(self.eval(x.value, st), st),))
                out.extend(it)
            else:
                out.append(self.eval(x, st))
        return self.newlist(out, st)

    def e_Set(self, e, st):
        return self.e_Tuple(e, st)

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return Term('dict', (Const(ast.unparse(e)[:60]),))
            kv = self.eval(k, st)
            d[kv] = self.eval(v, st)
        i = self.newid('dict')
        st.heap[i] = HObj('dict', None, d)
        return Ref(i)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            def g(x):
                m = self.usermethod(x, '__neg__', st)
                if m is not None:
                    return self.call_user(m, [x], {}, st, e)
                if x is UNBOUND:
                    return x
                return self.ew(neg, [x], st)
            return lift(g, v)
        if isinstance(e.op, ast.UAdd):
            return v

        def g(x):
            m = self.usermethod(x, '__invert__', st)
            if m is not None:
                return self.call_user(m, [x], {}, st, e)
            return self.ew(lambda n: (num(~int(n.const)) if n.const is not None else app('invert', n)), [x], st)
        return lift(g, v)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        saved = st.rel
        acc = self.eval(e.values[0], st)
        cond = TRUE
        for x in e.values[1:]:
            t = self.truth(acc, st)
            g = t if isand else bnot(t)
            st.rel = band(st.rel, g)
            if st.pc is FALSE:
                break
            nxt = self.eval(x, st)
            acc = ite(t, nxt, acc) if isand else ite(t, acc, nxt)
        st.rel = saved
        return acc

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        saved = st.rel
        a = b = None
        if c is not FALSE:
            st.rel = band(saved, c)
            a = self.eval(e.body, st)
        if c is not TRUE:
            st.rel = band(saved, bnot(c))
            b = self.eval(e.orelse, st)
        st.rel = saved
        if a is None:
            return b
        if b is None:
            return a
        return self.gate(c, a, b, st)

    def gate(self, c, a, b, st):
        return ite(c, a, b)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        acc = TRUE
        saved = st.rel
        first = True
        for op, r in zip(e.ops, e.comparators):
            if not first:
                st.rel = band(st.rel, self.truth(acc, st))
            rv = self.eval(r, st)
            c = self.compare(op, left, rv, st, e)
            acc = c if first else band(acc, c)
            left = rv
            first = False
        st.rel = saved
        return acc

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, st)
        return Term('str', (Const(ast.unparse(e)[:60]),), 'str')

    def e_Lambda(self, e, st):
        fi = FuncInfo('<lambda>', e, self.stack[-1].module, None)
        return Fn('closure', fi, _Env(st, self.stack[-1].closure))

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        st.vars[e.target.id] = v
        return v

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        self.event('yield', st, (v,), e)
        self.stack[-1].yields.append((st.rel, self.snap(v, st)))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        self.event('yield', st, (v,), e)
        self.stack[-1].yields.append((st.rel, self.snap(v, st)))
        return NONE

    def e_Slice(self, e, st):
        return Tup([Const('slice')] + [self.eval(x, st) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_DictComp(self, e, st):
        for g in e.generators:
            self.eval(g.iter, st)
        return Term('dictcomp', (Const(ast.unparse(e)[:60]),))

    def comp(self, e, st, kind):
        if len(e.generators) >= 1:
            out = []
            ok = self._comp(e, 0, st, out)
            if ok:
                return self.newlist(out, st)
        g = e.generators[0]
        it = self.eval(g.iter, st)
        saved = dict(st.vars)
        self.assign(g.target, self.item_of(it, st, e), st)
        for g2 in e.generators[1:]:
            it2 = self.eval(g2.iter, st)
            self.assign(g2.target, self.item_of(it2, st, e), st)
        v = self.eval(e.elt, st)
        r = Term('comp', (self.snap(v, st), self.snap(it, st)), None)
        st.vars = saved
        return r

    def _comp(self, e, k, st, out):
        if k == len(e.generators):
            out.append(self.eval(e.elt, st))
            return True
        g = e.generators[k]
        itv = self.eval(g.iter, st)
        self.needs(itv, 'is iterated over', st, e)
        it = self.concrete(itv, st)
        if it is None:
            # a range between symbolic ends: items present under a condition
            it = self.bounded_range(itv)
            if it is not None and (len(e.generators) > 1 or g.ifs):
                return False
        if it is None or len(it) > self.UNROLL * 4:
            return False
        saved = dict(st.vars)
        for x in it:
            c = self.present(x)
            if c is FALSE:
                continue
            if c is not TRUE:
                rel0 = st.rel
                self.assign(g.target, T.restrict(x, c), st)
                st.rel = band(rel0, c)
                if st.rel is not FALSE:
                    out.append(ite(c, self.eval(e.elt, st), UNBOUND))
                st.rel = bor(st.rel, band(rel0, bnot(c)))
                continue
            self.assign(g.target, x, st)
            skip = False
            for c in g.ifs:
                t = self.truth(self.eval(c, st), st)
                if t is FALSE:
                    skip = True
                elif t is not TRUE:
                    st.vars = saved
                    return False
            if skip:
                continue
            if not self._comp(e, k + 1, st, out):
                st.vars = saved
                return False
        st.vars = saved
        return True

    # -- subscripts
    def e_Subscript(self, e, st):
        v = self.eval(e.value, st)
        i = self.eval(e.slice, st)
        return self.getitems(v, i, st, e)

    def getitems(self, v, i, st, node):
        """lifted subscript; index diagnostics carry the guard of the index leaf"""
        self.needs(v, 'is subscripted', st, node)
        if self.conditional(i):
            return lift(lambda a, *xs: self.getitem(a, Tup(xs), st, node), v, *i.items)
        if not isinstance(i, Ite) and not isinstance(v, Ite):
            return self.getitem(v, i, st, node)
        blame = []

        def g(a, b):
            n = len(self.diags)
            r = self.getitem(a, b, st, node)
            for k in range(n, len(self.diags)):
                if self.diags[k][0] == 'index':
                    blame.append((k, a, b))
            return r
        r = lift(g, v, i)
        if blame:
            gv, gi = dict(T.guarded_leaves(v)), dict(T.guarded_leaves(i))
            for k, a, b in blame:
                d = self.diags[k]
                self.diags[k] = d[:4] + (band(d[4], band(gv.get(a, TRUE), gi.get(b, TRUE))),)
        return r

    @staticmethod
    def conditional(i):
        return isinstance(i, Tup) and any(isinstance(x, Ite) for x in i.items)

    def getitem(self, v, i, st, node):
        m = self.usermethod(v, '__getitem__', st)
        if m is not None:
            return self.call_user(m, [v, i], {}, st, node)
        if isinstance(v, ARef):
            return self.arrindex(v, i, st, node)
        if isinstance(v, Term) and v.op == 'lazy' and isinstance(i, Num):
            from . import npmodel
            return npmodel.lazy_item(v, i)
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref):
            h = st.heap.get(v.id)
            if h is not None and h.kind == 'list':
                items = h.f
            elif h is not None and h.kind == 'dict':
                if i in h.f:
                    return h.f[i]
                ms = self.dictmatch(h, i, st, node) if h.f else None
                if ms:
                    r = UNBOUND
                    for c, k in ms:
                        r = ite(c, h.f[k], r)
                    return r
                return Term('item', (self.snap(v, st), self.snap(i, st)))
        elif isinstance(v, Vec):
            items = v.items
        if items is not None:
            if isinstance(v, Ref) and isinstance(i, Num) and self.gated(items):
                return self.nth(items, i, st, node)
            if isinstance(i, Num) and i.const is not None and i.const.denominator == 1:
                k = int(i.const)
                if -len(items) <= k < len(items):
                    return items[k]
                self.diag('index', st, 'constant index %d out of range (length %d)' % (k, len(items)), node)
                return Term('oob', (num(k),))
            if isinstance(i, Tup) and i.items and i.items[0] is Const('slice'):
                s = self.pyslice(i)
                if s is not None:
                    r = list(items)[s]
                    return Tup(r) if isinstance(v, Tup) else self.newlist(r, st)
            if isinstance(i, Num) and 0 < len(items) <= 4:
                r = items[-1]
                for k in range(len(items) - 2, -1, -1):
                    r = ite(rel('eq', sub(i, num(k))), items[k], r)
                return r
            if i in (TRUE, FALSE):
                return items[1 if i is TRUE else 0]
        ty = None
        if isinstance(v, Term) and isinstance(v.ty, tuple) and v.ty[0] == 'list':
            if not (isinstance(i, Tup)):
                ty = v.ty[1]
            else:
                ty = v.ty
        if isinstance(v, Num):
            # indexing into a spectrum / opaque numeric array
            return self.num_item(v, self.snap(i, st))
        t = Term('item', (self.snap(v, st), self.snap(i, st)), ty)
        if ty is not None:
            return self.mksym_term(t, ty, st)
        return t

    def mksym_term(self, t, ty, st):
        if ty is None or (isinstance(ty, tuple) and ty[0] == 'list') or ty in ('str', 'ndarray'):
            return Term(t.op, t.args, ty)
        return self.mksym(Term(t.op, t.args, None), ty, st)

    def pyslice(self, i):
        out = []
        for x in i.items[1:]:
            if x is NONE:
                out.append(None)
            elif isinstance(x, Num) and x.const is not None:
                out.append(int(x.const))
            else:
                return None
        return slice(*out)

    def arrindex(self, v, i, st, node):
        """indexing an array view with constants / slices"""
        idx = i.items if (isinstance(i, Tup) and not (i.items and i.items[0] is Const('slice'))) else (i,)
        import itertools
        shape = v.shape
        sel = []
        outshape = []
        ok = len(idx) <= len(shape)
        if ok:
            for k, n in enumerate(shape):
                if k < len(idx):
                    x = idx[k]
                    if isinstance(x, Num) and x.const is not None:
                        c = int(x.const)
                        if not (-n <= c < n):
                            self.diag('index', st, 'constant index %d out of range (size %d)' % (c, n), node)
                            return Term('oob', (num(c),))
                        sel.append([c % n])
                    elif isinstance(x, Tup) and x.items and x.items[0] is Const('slice'):
                        s = self.pyslice(x)
                        if s is None:
                            ok = False
                            break
                        r = list(range(n))[s]
                        sel.append(r)
                        outshape.append(len(r))
                    else:
                        ok = False
                        break
                else:
                    sel.append(list(range(n)))
                    outshape.append(n)
        if ok:
            flat = []
            for combo in itertools.product(*sel):
                p = 0
                for k, c in enumerate(combo):
                    p = p * shape[k] + c
                flat.append(v.idx[p])
            if not outshape:
                return st.heap[v.sid].f[flat[0]]
            kind = v.kind if isinstance(v.kind, ClassInfo) and outshape == [3] and len(shape) == 1 else 'ndarray'
            return ARef(v.sid, tuple(flat), tuple(outshape), kind)
        if len(shape) == 1 and len(idx) == 1 and isinstance(idx[0], Num) and shape[0] <= 4:
            items = [st.heap[v.sid].f[k] for k in v.idx]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(rel('eq', sub(idx[0], num(k))), items[k], r)
            return r
        if len(shape) == 1 and len(idx) == 1 and isinstance(idx[0], ARef) and len(idx[0].shape) == 1:
            # gather
            es = [st.heap[idx[0].sid].f[k] for k in idx[0].idx]
            if all(isinstance(l, Num) for x in es for l in T.leaves(x)):
                return self.newarr([lift(lambda l: self.arrindex(v, l, st, node), x) for x in es], (len(es),), 'ndarray', st)
        for k, n in enumerate(shape[:len(idx)]):
            x = idx[k]
            if isinstance(x, Num) and x.const is None and not x.spec:
                if n > 8 or any(isinstance(y, Tup) for y in idx):
                    break
                # one case per position
                subs = [self.arrindex(v, Tup(idx[:k] + (num(j),) + idx[k + 1:]), st, node) for j in range(n)]
                r = subs[-1]
                for j in range(n - 2, -1, -1):
                    r = ite(rel('eq', sub(x, num(j))), subs[j], r)
                return r
        return Term('item', (self.snap(v, st), self.snap(i, st)))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.stack[-1]
            a = fr.fi.argnames()
            return Fn('super', fr.fi.cls, st.vars.get(a[0]) if a else None)
        f = self.eval(e.func, st)
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.concrete(self.eval(a.value, st), st)
                if it is None:
                    star = True
                    args.append(Term('star', (self.snap(self.eval(a.value, st), st),)))
                else:
                    args.extend(it)
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                h = st.heap.get(v.id) if isinstance(v, Ref) else None
                if h is not None and h.kind == 'dict' and not h.symbolic and all(isinstance(n, Const) and isinstance(n.v, str) for n in h.f):
                    for n, x in h.f.items():
                        kw[n.v] = x
                    continue
                star = True
                kw['**'] = v
            else:
                kw[k.arg] = v
        r = self.call(f, args, kw, st, e, star)
        if isinstance(r, Num):
            if T.clamped(r) and st.pc is not TRUE and st.pc is not FALSE:
                r = arith.settle(r, st.pc)
        elif isinstance(r, Ite) and st.pc is not TRUE and st.pc is not FALSE:
            ls = T.leaves(r)
            if len(ls) <= 16 and any(T.clamped(l) for l in ls):
                c = st.pc
                r = lift(lambda l: arith.settle(l, c) if isinstance(l, Num) else l, r)
        return r

    def call(self, f, args, kw, st, node, star=False):
        gl = T.guarded_leaves(f) if isinstance(f, Ite) else [(f, TRUE)]
        if len(gl) == 1:
            return self.call_leaf(gl[0][0], args, kw, st, node, star)
        # each callee runs on its own copy of the state: its effects happen only when it is the one called
        saved, outs, res = st.rel, [], None
        for lf, g in gl:
            s = st.copy()
            s.rel = band(saved, g)
            if s.rel is FALSE or band(st.base, s.rel) is FALSE:
                continue
            r = self.call_leaf(lf, args, kw, s, node, star)
            outs.append((g, s, r))
        if not outs:
            st.rel = FALSE
            return NONE
        _, acc, res = outs[-1]
        for g, s, r in reversed(outs[:-1]):
            tmp = State({}, {}, TRUE, st.base)
            self.join(g, s, acc, tmp)
            acc, res = tmp, ite(g, r, res)
        st.vars, st.heap, st.rel = acc.vars, acc.heap, acc.rel
        return res

    def call_leaf(self, f, args, kw, st, node, star=False):
        from . import npmodel
        if isinstance(f, Fn):
            if f.kind == 'func':
                return self.call_user(f.a, args, kw, st, node, star=star, raw=f.b)
            if f.kind == 'bound':
                return self.call_user(f.b, [f.a] + args, kw, st, node, recv=f.a, star=star)
            if f.kind == 'closure':
                return self.call_user(f.a, args, kw, st, node, closure=(f.b.st, f.b.outer), star=star)
            if f.kind == 'cls':
                return self.construct(f.a, args, kw, st, node, star)
            if self.replace and f.kind in ('builtin', 'ext') and isinstance(f.a, str) and f.kind + ':' + f.a in self.replace:
                return self.call_user(self.replace[f.kind + ':' + f.a], args, kw, st, node, star=star)
            if f.kind == 'builtin':
                return npmodel.builtin(self, f.a, args, kw, st, node)
            if f.kind == 'ext':
                self.event('ext', st, (f.a, tuple(args), kw), node)
                return npmodel.call(self, f.a, args, kw, st, node)
            if f.kind == 'bmeth' and f.a[1] == 'bool':
                return f.a[0]
            if f.kind == 'bmeth':
                self.event('bmeth', st, (f.b, f.a[0], tuple(args)), node)
                return npmodel.bmeth(self, f.a[0], f.a[1], f.b, args, kw, st, node)
            if f.kind == 'arrmeth':
                self.event('bmeth', st, (f.b, f.a, tuple(args)), node)
                return npmodel.arr_method(self, f.a, f.b, args, kw, st, node)
            if f.kind == 'ufunc' and not kw:
                return lift(lambda *ls: self.ew_call(f.a, list(ls), st, node), *args)
            if f.kind == 'nummeth':
                return npmodel.num_method(self, f.a, f.b, args, kw, st, node)
            if f.kind == 'objmeth':
                return NONE
            if f.kind == 'opaque':
                return self.opaque_call(f.a, args, kw, st, node)
        if isinstance(f, Ref):
            m = self.usermethod(f, '__call__', st)
            if m is not None:
                return self.call_user(m, [f] + args, kw, st, node, recv=f, star=star)
            h = st.heap.get(f.id)
            if h is not None and h.kind == 'obj':
                self.diag('call', st, "'%s' object is not callable" % h.cls.name, node)
        if f is NONE or isinstance(f, (Num, Tup)) or (isinstance(f, Const) and isinstance(f.v, str)):
            if not (isinstance(f, Num) and T.as_atom(f) is not None and T.as_atom(f).op in ('val', 'sym')):
                self.diag('call', st, 'value %s is not callable' % T.show(f)[:60], node)
        if isinstance(f, Term) and self.is_rng(f):
            return self.draw(f, args, st, node)
        self.event('opaque', st, (f, tuple(args), kw), node)
        return self.opaque_result(Term('call', (self.snap(f, st),) + tuple(self.snap(a, st) for a in args) +
                                       tuple(x for k in sorted(kw) for x in (Const(k), self.snap(kw[k], st)))), None, st)

    def is_rng(self, t):
        return t.op == 'sym' and isinstance(t.args[0], str) and t.args[0].split('.')[-1] == 'rng'

    def draw(self, f, args, st, node):
        self.event('draw', st, (f, tuple(args)), node)
        self.draws += 1
        if args:
            return Term('draw', (self.snap(f, st), num(self.draws)) + tuple(self.snap(a, st) for a in args))
        return from_atom(Atom('draw', (self.snap(f, st), num(self.draws))))

    def opaque_result(self, term, ty, st):
        if ty is None:
            return term
        return self.mksym_term(term, ty, st)

    def opaque_call(self, fi, args, kw, st, node):
        ret = None
        if isinstance(fi, FuncInfo):
            ret = self.ann_type(fi.module, fi.node.returns, True)
            ret = self.types.get(('ret', fi.qual), ret)
            name = fi.qual
            if fi.cls is not None:
                # the same virtual operation whatever class declares it
                name = fi.name
        else:
            name = str(fi)
        t = Term('call', (Const(name),) + tuple(self.snap(a, st) for a in args) +
                 tuple(x for k in sorted(kw) for x in (Const(k), self.snap(kw[k], st))))
        return self.opaque_result(t, ret, st)

    def overridden(self, cls, fi):
        for sc in self.p.subclasses(cls):
            r = sc.lookup(fi.name)
            if r is not None and r[1] is not fi and isinstance(r[1], FuncInfo):
                return True
        return False

    def bind(self, fi, args, kw, st, node, star):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            if a.vararg is None:
                if not star:
                    self.diag('arity', st, "%s takes %d positional arguments but %d were given" % (
                        fi.qual, len(names), len(args)), node)
                args = args[:len(names)]
            else:
                out[a.vararg.arg] = Tup(args[len(names):])
                args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        kwn = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == '**':
                continue
            if k in kwn:
                if k in out:
                    self.diag('arity', st, "%s got multiple values for argument '%s'" % (fi.qual, k), node)
                out[k] = v
            else:
                if a.kwarg is None:
                    self.diag('arity', st, "%s got an unexpected keyword argument '%s'" % (fi.qual, k), node)
                extra[k] = v
        if a.kwarg is not None:
            i = self.newid('dict')
            st.heap[i] = HObj('dict', None, {Const(k): v for k, v in extra.items()})
            out[a.kwarg.arg] = Ref(i)
        # defaults
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0 and '**' not in kw:
                    out[n] = self.default_arg(fi, a.defaults[j], st)
                else:
                    if not star and '**' not in kw:
                        self.diag('arity', st, "%s missing required argument '%s'" % (fi.qual, n), node)
                    out[n] = Term('missing', (Const(n),))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out:
                if d is not None and '**' not in kw:
                    out[x.arg] = self.default_arg(fi, d, st)
                else:
                    self.diag('arity', st, "%s missing required argument '%s'" % (fi.qual, x.arg), node)
                    out[x.arg] = Term('missing', (Const(x.arg),))
        return out

    def default_arg(self, fi, d, st):
        return self.eval_static(d, fi.module, fi.cls, st)

    def decorators(self, fi):
        """the decorators of a function that are functions of the repository"""
        r = self._decos.get(id(fi.node))
        if r is None:
            r = []
            for d in getattr(fi.node, 'decorator_list', ()):
                q = d.func if isinstance(d, ast.Call) else d
                k = fi.module.resolve_expr(q) if isinstance(q, (ast.Name, ast.Attribute)) else None
                if isinstance(k, FuncInfo) and k.node is not fi.node:
                    r.append(d)
            self._decos[id(fi.node)] = r
        return r

    _decos = {}

    def call_user(self, fi, args, kw, st, node, recv=None, closure=None, star=False, force=False, raw=None):
        if self.replace:
            fi = self.replace.get(fi.qual, fi)
        if raw is None and closure is None and self.decorators(fi):
            f = Fn('func', fi, 'raw')
            for d in reversed(self.decorators(fi)):
                self.stack.append(Frame(None, fi.module, (fi.cls,) if fi.cls is not None else None))
                try:
                    f = self.call_leaf(self.eval(d, st), [f], {}, st, node)
                finally:
                    self.stack.pop()
            return self.call(f, args, kw, st, node, star)
        if self.inner and fi.qual in self.inner and any(f.fi is fi for f in self.stack):
            # the induction hypothesis stands for the recursive call
            fi = self.inner[fi.qual]
        # virtual dispatch on symbolic receivers
        if not force and recv is not None and isinstance(recv, Ref):
            h = st.heap.get(recv.id)
            if h is not None and h.kind == 'obj' and not h.exact and fi.name != '__init__':
                if fi.abstract or self.overridden(h.cls, fi):
                    self.event('vcall', st, (fi, tuple(args), kw), node)
                    self.bind(fi, args, kw, st, node, star)
                    return self.opaque_call(fi, args, kw, st, node)
        if not force and self.is_opaque(fi):
            self.event('vcall', st, (fi, tuple(args), kw), node)
            self.bind(fi, args, kw, st, node, star)
            return self.opaque_call(fi, args, kw, st, node)
        depth = sum(1 for f in self.stack if f.fi is fi)
        if depth > 1 and depth <= self.recurse and arith.unsat(band(st.pc, st.rel)):
            st.rel = FALSE
            return NONE
        if depth > self.recurse or len(self.stack) > self.MAXDEPTH:
            self.event('vcall', st, (fi, tuple(args), kw), node)
            if _writes_params(fi.node):
                self.cuts.append((band(st.pc, st.rel), fi))
            return self.opaque_call(fi, args, kw, st, node)
        env = self.bind(fi, args, kw, st, node, star)
        self.event('call', st, (fi, tuple(args), kw), node)
        return self.inline(fi, env, st, closure)

    def is_opaque(self, fi):
        if fi.qual in self.opaque or fi.name in self.opaque or (fi.cls and (fi.cls.name + '.' + fi.name) in self.opaque):
            return True
        if self.inline_pred is not None and not self.inline_pred(fi):
            return True
        return False

    def inline(self, fi, env, st, closure=None):
        self.fns_seen.add(fi.qual)
        fr = Frame(fi, fi.module, closure)
        # loop summaries of different calls of one function are different values
        n = self.ncalls.get(fi.qual, 0)
        self.ncalls[fi.qual] = n + 1
        fr.loops = 1000 * n
        st2 = State(env, st.heap, TRUE, st.pc)
        self.stack.append(fr)
        try:
            if isinstance(fi.node, ast.Lambda):
                r = self.eval(fi.node.body, st2)
                st.heap = st2.heap
                st.rel = band(st.rel, st2.rel)
                return r
            body = self.sliced(fi)
            k = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                k = 1
            if len(body) == k + 1 and isinstance(body[k], ast.Return):
                r = self.eval(body[k].value, st2) if body[k].value is not None else NONE
                st.heap = st2.heap
                st.rel = band(st.rel, st2.rel)
                return r
            self.block(body, st2, fr)
            rets = fr.returns
            if st2.rel is not FALSE:
                rets.append((st2.rel, NONE, st2.heap))
            if fr.yields or self.is_generator(fi):
                g = Term('generator', (Const(fi.qual),) + tuple(x for p in fr.yields for x in p))
                ok, _, heap = self.merge_returns(rets)
                st.heap = heap if heap is not None else st.heap
                return g
            ok, val, heap = self.merge_returns(rets)
            if ok is None:
                # never returns normally
                st.rel = FALSE
                return NONE
            st.heap = heap
            st.rel = band(st.rel, ok)
            return val
        finally:
            self.stack.pop()

    def sliced(self, fi):
        for k, keep in self.slices.items():
            if k in (fi.qual, fi.name) or (fi.cls and fi.cls.name + '.' + fi.name == k):
                b = self._sl.get(id(fi.node))
                if b is None:
                    from .slice import body_slice
                    b = self._sl[id(fi.node)] = body_slice(fi.node, keep)
                return b
        return fi.node.body

    _gen = {}

    def is_generator(self, fi):
        r = self._gen.get(id(fi.node))
        if r is None:
            r = False
            todo = list(fi.node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                todo.extend(ast.iter_child_nodes(n))
            self._gen[id(fi.node)] = r
        return r

    def merge_returns(self, rets):
        if not rets:
            return None, None, None
        ok = FALSE
        val = heap = None
        for c, v, h in reversed(rets):
            if val is None:
                val, heap = v, h
            else:
                val = ite(c, v, val)
                heap = self.merge_heap(c, h, heap)
            ok = bor(ok, c)
        return ok, val, heap

    # ----------------------------------------------------------- construction
    def construct(self, cls, args, kw, st, node, star=False):
        from . import npmodel
        self.event('new', st, (cls, tuple(args), kw), node)
        if cls in self.spec_cls:
            return npmodel.make_spec(self, cls, args, st, node)
        if self.is_enum(cls):
            return Term('enumcall', (Const(cls.qual),) + tuple(self.snap(a, st) for a in args), cls)
        if cls in self.via_new and cls.lookup('__new__') is not None:
            m = cls.lookup('__new__')
            ref = self.call_user(m[1], [Fn('cls', cls)] + args, kw, st, node, star=star)
            m = cls.lookup('__init__')
            if m is not None and isinstance(ref, ARef):
                self.call_user(m[1], [ref] + args, kw, st, node, recv=ref, star=star)
            return ref
        if cls.has_abc_meta():
            ab = cls.nested_abstract()
            if ab:
                self.diag('abstract', st, "abstract class '%s' is instantiated (%s)" % (cls.name, ', '.join(sorted(ab))), node)
        if self.is_arrcls(cls):
            sid = self.newid(cls.name)
            st.heap[sid] = HObj('arr', None, [from_atom(Atom('uninit', (sid, i))) for i in range(3)])
            ref = ARef(sid, (0, 1, 2), (3,), cls)
        else:
            i = self.newid(cls.name)
            st.heap[i] = HObj('obj', cls, {}, False, True)
            ref = Ref(i)
        m = cls.lookup('__init__')
        if m is not None:
            self.call_user(m[1], [ref] + args, kw, st, node, recv=ref, star=star)
        elif args and not self.external_attr_ok(cls):
            self.diag('arity', st, '%s() takes no arguments' % cls.name, node)
        return ref

    # -------------------------------------------------------------- iteration
    # lists joined from states of different length hold items present only under a condition (UNBOUND otherwise)
    @staticmethod
    def present(x):
        if x is UNBOUND:
            return FALSE
        if isinstance(x, Ite) and UNBOUND in T.leaves(x):
            acc = FALSE
            for lf, gd in T.guarded_leaves(x):
                if lf is not UNBOUND:
                    acc = bor(acc, gd)
            return acc
        return TRUE

    @staticmethod
    def gated(items):
        return any(x is UNBOUND or isinstance(x, Ite) and UNBOUND in T.leaves(x) for x in items)

    def count(self, items):
        """number of items present, a conditional constant"""
        n, acc = 0, num(0)
        for x in items:
            c = self.present(x)
            if c is TRUE:
                n += 1
            elif c is not FALSE:
                acc = lift(add, acc, ite(c, num(1), num(0)))
        return lift(lambda a: add(a, num(n)), acc)

    def ranks(self, items):
        """(position among the present items, presence, item)"""
        out = []
        for k, x in enumerate(items):
            c = self.present(x)
            if c is not FALSE:
                out.append((self.count(items[:k]), c, x if c is TRUE else T.restrict(x, c)))
        return out

    def nth(self, items, i, st, node):
        """item number i (a number leaf) of a list with conditional items"""
        if i.const is not None and i.const < 0:
            i = lift(lambda n: add(n, i), self.count(items))
        r = Term('oob', (i if not isinstance(i, Ite) else num(0),))
        for pos, c, x in reversed(self.ranks(items)):
            r = ite(band(c, lift(lambda p, q: rel('eq', sub(p, q)), pos, i)), x, r)
        return T.restrict(r, st.pc) if isinstance(r, Ite) and st.pc is not FALSE else r

    def concrete(self, v, st, partial=False):
        """finite list of items if statically known"""
        r = self._concrete(v, st)
        if r is not None and not partial and not isinstance(v, (ARef, Vec)) and self.gated(r):
            return None
        return r

    def _concrete(self, v, st):
        if isinstance(v, Tup):
            if v.items and v.items[0] is Const('slice'):
                return None
            return list(v.items)
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if h is not None and h.kind == 'list':
                return list(h.f)
            if h is not None and h.kind == 'dict':
                return list(h.f.keys())
            m = self.usermethod(v, '__iter__', st)
        if isinstance(v, ARef):
            if len(v.shape) == 1:
                return [st.heap[v.sid].f[i] for i in v.idx]
            n = v.shape[0]
            k = len(v.idx) // n if n else 0
            return [ARef(v.sid, v.idx[i * k:(i + 1) * k], v.shape[1:], 'ndarray') for i in range(n)]
        if isinstance(v, Vec):
            return list(v.items)
        if isinstance(v, Term) and v.op == 'range' and all(isinstance(a, Num) and a.const is not None for a in v.args):
            r = range(*[int(a.const) for a in v.args])
            if len(r) <= 4096:
                return [num(i) for i in r]
        if isinstance(v, Term) and v.op == 'enumerate':
            it = self.concrete(v.args[0], st)
            if it is not None:
                return [Tup((num(i), x)) for i, x in enumerate(it)]
        if isinstance(v, Term) and v.op == 'zip':
            its = [self.concrete(a, st) for a in v.args]
            if all(i is not None for i in its):
                return [Tup(t) for t in zip(*its)]
        if isinstance(v, Term) and v.op == 'generator':
            pairs = list(zip(v.args[1::2], v.args[2::2]))
            if all(c is TRUE for c, _ in pairs):
                return [x for _, x in pairs]
        if isinstance(v, Ite) and False:
            pass
        return None

    def item_of(self, it, st, node):
        fr = self.stack[-1]
        ty = None
        if isinstance(it, Term) and isinstance(it.ty, tuple) and it.ty[0] == 'list':
            ty = it.ty[1]
        s = self.snap(it, st)
        if isinstance(it, Term) and it.op == 'range':
            return from_atom(Atom('iter', (s, fr.loops)))
        if isinstance(it, Term) and it.op == 'enumerate':
            a = it.args[0]
            el = self.item_of(a, st, node)
            return Tup((from_atom(Atom('iter', (s, fr.loops))), el))
        if isinstance(it, Term) and it.op == 'zip':
            return Tup(self.item_of(a, st, node) for a in it.args)
        t = Term('iter', (s, num(fr.loops)), ty)
        return self.mksym_term(t, ty, st) if ty is not None else t

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.rel is FALSE:
                return
            if st.pc is FALSE:
                st.rel = FALSE
                return
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        self.nodes_seen += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('%s at %d' % (type(s).__name__, s.lineno))
        m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def s_Pass(self, s, st, fr):
        pass

    def s_Global(self, s, st, fr):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            if full in self.p.modules:
                st.vars[nm] = Fn('mod', full)
            else:
                if full.split('.')[0] == self.p.package:
                    self.diag('import', st, "no module named '%s'" % full, s)
                from . import npmodel
                st.vars[nm] = npmodel.ext(self, full, st)

    def s_ImportFrom(self, s, st, fr):
        from . import npmodel
        m = fr.module._pkg(s.level, s.module)
        mm = self.p.modules.get(m)
        if mm is None and m.split('.')[0] == self.p.package:
            self.diag('import', st, "no module named '%s'" % m, s)
        for a in s.names:
            nm = a.asname or a.name
            if mm is None:
                st.vars[nm] = npmodel.ext(self, m + '.' + a.name, st)
                continue
            r = mm.resolve(a.name)
            if 'module:' + m in st.heap and Const(a.name) in st.heap['module:' + m].f:
                st.vars[nm] = self.modattr(m, a.name, st, s)
            elif r is None and (m + '.' + a.name) in self.p.modules:
                st.vars[nm] = Fn('mod', m + '.' + a.name)
            elif r is None:
                self.diag('import', st, "cannot import name '%s' from '%s'" % (a.name, m), s)
                st.vars[nm] = Term('undefined', (Const(a.name),))
            else:
                st.vars[nm] = self.static(r, st)

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st) if s.value is not None else NONE
        self.event('return', st, (v,), s)
        fr.returns.append((st.rel, v, dict(st.heap)))
        st.rel = FALSE

    def s_Raise(self, s, st, fr):
        exc = None
        if s.exc is not None:
            exc = ast.unparse(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.eval(a, st)
        self.event('raise', st, (exc,), s)
        if self.exits and st.rel is not FALSE:
            self.exits[-1].append((st.pc, dict(st.heap)))
        st.rel = FALSE

    def s_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st), st)
        self.event('assert', st, (c,), s)
        st.rel = band(st.rel, c)

    def settle(self, v, st):
        c = st.pc
        if c is TRUE or c is FALSE:
            return v
        if isinstance(v, Ite):
            v = T.under(v, T.necessary(c))
        if isinstance(v, Num):
            return arith.settle(v, c)
        if isinstance(v, Ite) and all(isinstance(l, Num) for l in T.leaves(v)):
            return lift(lambda l: arith.settle(l, c), v)
        return v

    def s_Assign(self, s, st, fr):
        v = self.settle(self.eval(s.value, st), st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                idx = self.eval(t.slice, st)
                for l, g in T.guarded_leaves(base):
                    self.delitem(l, idx, g, st, s)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st)
                for l, g in T.guarded_leaves(base):
                    h = st.heap.get(l.id) if isinstance(l, Ref) else None
                    if h is not None and h.kind == 'obj' and t.attr in h.f:
                        st.heap[l.id] = h.put(t.attr, ite(g, UNBOUND, h.f[t.attr]))

    def delitem(self, l, i, g, st, node):
        h = st.heap.get(l.id) if isinstance(l, Ref) else None
        if h is None:
            return
        if h.kind == 'dict' and not h.symbolic:
            ms = [(TRUE, i)] if i in h.f else self.dictmatch(h, i, st, node) or []
            if not ms:
                self.diag('index', st, 'deletes an entry that is not there', node)
            for c, k in ms:
                c = band(g, c)
                if c is TRUE:
                    f = dict(h.f)
                    del f[k]
                    h = HObj('dict', None, f)
                else:
                    h = h.put(k, ite(c, UNBOUND, h.f[k]))
            st.heap[l.id] = h
        elif h.kind == 'list' and isinstance(i, Num) and i.const is not None and i.const.denominator == 1 and g is TRUE and -len(h.f) <= int(i.const) < len(h.f) and not self.gated(h.f):
            new = list(h.f)
            del new[int(i.const)]
            st.heap[l.id] = HObj('list', None, new)
        else:
            st.heap[l.id] = HObj('list', None, [Term('del', (self.snap(l, st), self.snap(i, st)))]) if h.kind == 'list' else h

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s.name, s, fr.module, None, outer=fr.fi)
        st.vars[s.name] = Fn('closure', fi, _Env(st, fr.closure))

    def s_ClassDef(self, s, st, fr):
        st.vars[s.name] = Fn('cls', ClassInfo(s.name, s, fr.module))

    def s_AugAssign(self, s, st, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.getattr(base, t.attr, st, t)
        else:
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            cur = self.getitems(base, idx, st, t)
        rhs = self.eval(s.value, st)
        ipl = [l for l in T.leaves(cur) if isinstance(l, ARef) or (isinstance(l, Ref) and st.heap.get(l.id) is not None
                                                                  and st.heap[l.id].kind == 'list')
               or (self.usermethod(l, self.BIN[op][2], st) is not None)]
        if ipl:
            new = None
            saved = st.rel
            for l, g in T.guarded_leaves(cur):
                um = self.usermethod(l, self.BIN[op][2], st)
                if um is not None:
                    st.rel = band(saved, g)
                    r = self.call_user(um, [l, rhs], {}, st, s, recv=l)
                    live = st.rel
                    if live is FALSE:
                        saved = band(saved, bnot(g))
                        continue
                elif isinstance(l, ARef):
                    # in-place update of the storage
                    res = self.binleafdd(op, l, rhs, st, s)
                    self.event('inplace', st, (l, s.target), s)
                    self.store_all(l, res, g, st)
                    r = l
                elif isinstance(l, Ref):
                    h = st.heap[l.id]
                    it = self.concrete(rhs, st) if not isinstance(rhs, Ite) else None
                    self.event('inplace', st, (l, s.target), s)
                    if op is ast.Add and it is not None:
                        st.heap[l.id] = HObj('list', None, list(h.f) + it)
                    r = l
                else:
                    r = self.binop(s.op, l, rhs, st, s)
                new = r if new is None else ite(g, r, new)
            st.rel = saved
            if new is None:
                st.rel = FALSE
                return
        else:
            new = self.binop(s.op, cur, rhs, st, s)
            if any(isinstance(l, Num) and l.spec for l in T.leaves(cur)):
                self.event('inplace-spec', st, (cur, s.target), s)
        if isinstance(t, ast.Name):
            st.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, new, st, s)
        else:
            self.setitem(base, idx, new, st, s)

    def binleafdd(self, op, l, rhs, st, node):
        return lift(lambda y: self.binleaf(op, l, y, st, node), rhs)

    def store_all(self, l, res, g, st):
        """write the elements of res (DD over arrays) into view l under guard g"""
        h = st.heap[l.sid]
        el = list(h.f)
        for k, pos in enumerate(l.idx):
            def pick(r):
                if isinstance(r, ARef):
                    return st.heap[r.sid].f[r.idx[k]]
                return r
            v = lift(pick, res)
            el[pos] = ite(g, v, el[pos])
        st.heap[l.sid] = HObj('arr', None, el)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in self.stack[-1].globals():
                return self.setmod(self.stack[-1].module.name, t.id, v, st)
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            outs = self.unpack(v, n, st, t)
            for x, o in zip(t.elts, outs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, o, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.setattr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            self.setitem(base, idx, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported('target %s' % type(t).__name__)

    def unpack(self, v, n, st, node):
        star = any(isinstance(x, ast.Starred) for x in node.elts)

        def one(l):
            it = self.concrete(l, st)
            if it is not None and not star:
                if len(it) != n:
                    self.diag('unpack', st, 'cannot unpack %d values into %d targets' % (len(it), n), node)
                    it = (it + [Term('missing', (num(i),)) for i in range(n)])[:n]
                return Tup(it)
            if it is not None:
                return Tup((it + [NONE] * n)[:n])
            if l is NONE or isinstance(l, Fn) or (isinstance(l, Num) and not l.spec and
                                                 not (T.as_atom(l) is not None and T.as_atom(l).op in ('val', 'sym', 'item'))):
                self.diag('unpack', st, 'value %s cannot be unpacked into %d targets' % (T.show(l)[:60], n), node)
            s = self.snap(l, st)
            ty = None
            if isinstance(l, Term) and isinstance(l.ty, tuple) and l.ty[0] == 'list':
                ty = l.ty[1]
            return Tup(self.mksym_term(Term('item', (s, num(i)), None), ty, st) if ty else Term('item', (s, num(i)))
                       for i in range(n))
        r = lift(one, v) if isinstance(v, Ite) else one(v)
        if isinstance(r, Tup):
            return r.items
        return [lift(lambda l: l.items[i], r) for i in range(n)]

    def setmod(self, mod, name, v, st):
        """a module variable is rebound; a name that is absent on some path still has its initial value there"""
        h = st.heap.get('module:' + mod)
        f = dict(h.f) if h is not None else {}
        f[Const(name)] = v
        st.heap['module:' + mod] = HObj('dict', None, f)

    def setattr(self, base, name, v, st, node):
        mname = self.mangle(name, self.curcls())
        for l, g in (T.guarded_leaves(base) if isinstance(base, Ite) else [(base, TRUE)]):
            self.event('write', st, (l, mname, v, g), node)
            if isinstance(l, Term) and isinstance(l.ty, ClassInfo) and not self.is_enum(l.ty):
                if l not in st.heap:
                    st.heap[l] = HObj('obj', l.ty, {}, True, False)
                l = Ref(l)
            if isinstance(l, Ref):
                h = st.heap.get(l.id)
                if h is None or h.kind != 'obj':
                    continue
                setter = h.cls.lookup_setter(mname)
                if setter is not None:
                    self.call_user(setter, [l, v], {}, st, node, recv=l)
                    continue
                r = h.cls.lookup(mname)
                if r is not None and isinstance(r[1], FuncInfo) and r[1].kind == 'property':
                    self.diag('readonly', st, "can't set attribute '%s' of '%s'" % (name, h.cls.name), node)
                    continue
                old = h.f.get(mname)
                if old is None and g is not TRUE:
                    old = self.default_field(l.id, h.cls, mname, st) if h.symbolic else UNBOUND
                    h = st.heap[l.id]
                st.heap[l.id] = h.put(mname, v if g is TRUE else ite(g, v, old))
            elif isinstance(l, ARef) and isinstance(l.kind, ClassInfo):
                setter = l.kind.lookup_setter(mname)
                if setter is not None:
                    if g is TRUE:
                        self.call_user(setter, [l, v], {}, st, node, recv=l)
                    else:
                        before = dict(st.heap)
                        self.call_user(setter, [l, v], {}, st, node, recv=l)
                        st.heap = self.merge_heap(g, st.heap, before)
            elif isinstance(l, Fn) and l.kind == 'mod':
                self.setmod(l.a, name, v if g is TRUE else ite(g, v, self.modattr(l.a, name, st, node)), st)
            elif isinstance(l, Fn) and l.kind == 'cls':
                hid = 'class:' + l.a.qual
                h = st.heap.get(hid) or HObj('obj', l.a, {}, False, True)
                st.heap[hid] = h.put(mname, v)
            elif l is NONE:
                self.diag('none-attr', st, "attribute '%s' set on None" % name, node, g)

    def setitem(self, base, idx, v, st, node):
        self.needs(base, 'has no items to set', st, node)
        if isinstance(idx, Ite):
            # only the positions possible here
            idx = T.restrict(idx, st.pc)
        for l, g in (T.guarded_leaves(base) if isinstance(base, Ite) else [(base, TRUE)]):
            self.event('setitem', st, (l, idx, v, g), node)
            if isinstance(l, ARef):
                if isinstance(idx, Ite):
                    for il, ig in T.guarded_leaves(idx):
                        if T.unsat(band(st.pc, ig)) or arith.unsat(band(st.pc, ig)):
                            continue
                        n = len(self.diags)
                        tl = self.arr_lhs(l, il, st, node)
                        self.diags[n:] = [d[:4] + (band(d[4], ig),) for d in self.diags[n:]]
                        if isinstance(tl, ARef):
                            self.store_into(tl, v, band(g, ig), st)
                        elif not (isinstance(tl, Term) and tl.op == 'oob'):
                            self.havoc_arr(l, il, v, st, node)
                    continue
                tgt = self.arr_lhs(l, idx, st, node) if not self.conditional(idx) else \
                    lift(lambda *xs: self.arr_lhs(l, Tup(xs), st, node), *idx.items)
                for tl, tg in (T.guarded_leaves(tgt) if isinstance(tgt, Ite) else [(tgt, TRUE)]):
                    if isinstance(tl, ARef):
                        self.store_into(tl, v, band(g, tg), st)
                    else:
                        self.havoc_arr(l, idx, v, st, node)
            elif isinstance(l, Ref):
                h = st.heap.get(l.id)
                if h is None:
                    continue
                m = self.usermethod(l, '__setitem__', st)
                if m is not None:
                    self.call_user(m, [l, idx, v], {}, st, node, recv=l)
                elif h.kind == 'list' and self.gated(h.f):
                    i = idx
                    if isinstance(i, Num) and i.const is not None and i.const < 0:
                        i = lift(lambda n: add(n, idx), self.count(h.f))
                    new = []
                    for k, old in enumerate(h.f):
                        c = band(self.present(old), lift(lambda p, q: rel('eq', sub(p, q)), self.count(h.f[:k]), i)) \
                            if all(isinstance(x, Num) for x in T.leaves(i)) else FALSE
                        new.append(ite(band(g, c), v, old))
                    st.heap[l.id] = HObj('list', None, new)
                elif h.kind == 'list':
                    if isinstance(idx, Num) and idx.const is not None and -len(h.f) <= idx.const < len(h.f):
                        k = int(idx.const)
                        st.heap[l.id] = h.put(k, ite(g, v, h.f[k]))
                    elif isinstance(idx, Num) and idx.const is not None:
                        self.diag('index', st, 'constant index %s out of range' % idx.const, node)
                    elif isinstance(idx, Tup) and idx.items and idx.items[0] is Const('slice') and g is TRUE and \
                            self.pyslice(idx) is not None and not isinstance(v, Ite) and self.concrete(v, st) is not None:
                        new = list(h.f)
                        new[self.pyslice(idx)] = self.concrete(v, st)
                        st.heap[l.id] = HObj('list', None, new)
                    else:
                        new = []
                        for k, old in enumerate(h.f):
                            if isinstance(idx, Num) or isinstance(idx, Ite) and all(isinstance(x, Num) for x in T.leaves(idx)):
                                new.append(ite(band(g, lift(lambda x: rel('eq', sub(x, num(k))), idx)), v, old))
                            else:
                                new.append(Term('upd', (self.snap(old, st), self.snap(idx, st), self.snap(v, st), num(k))))
                        st.heap[l.id] = HObj('list', None, new)
                elif h.kind == 'dict':
                    ms = self.dictmatch(h, idx, st, node) if idx not in h.f and h.f else None
                    if ms:
                        # replaces the entry of an equal key
                        rest = TRUE
                        for c, k in ms:
                            h = h.put(k, ite(c, v, h.f[k]))
                            rest = band(rest, bnot(c))
                        st.heap[l.id] = h if rest is FALSE else h.put(idx, ite(rest, v, UNBOUND))
                    else:
                        st.heap[l.id] = h.put(idx, v)

    def arr_lhs(self, l, i, st, node):
        """view designated by an index, always as ARef"""
        idx = list(i.items) if (isinstance(i, Tup) and not (i.items and i.items[0] is Const('slice'))) else [i]
        conv = []
        for x in idx:
            if isinstance(x, Num) and x.const is not None:
                k = int(x.const)
                conv.append(Tup((Const('slice'), num(k), num(k + 1) if k != -1 else NONE, NONE)))
            else:
                conv.append(x)
        ds = len(self.diags)
        for x, n in zip(idx, l.shape):
            if isinstance(x, Num) and x.const is not None and not (-n <= x.const < n):
                self.diag('index', st, 'constant index %s out of range (size %d)' % (x.const, n), node)
                return Term('oob', ())
        r = self.arrindex(l, Tup(conv) if len(conv) > 1 else conv[0], st, node)
        return r

    def store_into(self, view, v, g, st):
        el = list(st.heap[view.sid].f)
        n = len(view.idx)
        for k, pos in enumerate(view.idx):
            def pick(r):
                if isinstance(r, ARef):
                    m = len(r.idx)
                    if n == 1 and (m > 1 or el[pos] is NONE or isinstance(el[pos], ARef)):
                        return r            # an array kept in one cell
                    return st.heap[r.sid].f[r.idx[k if m == n else k % m]]
                if isinstance(r, Ref) and st.heap.get(r.id) is not None and st.heap[r.id].kind == 'list':
                    its = st.heap[r.id].f
                    return its[k % len(its)] if its else r
                if isinstance(r, Tup) and r.items:
                    return r.items[k % len(r.items)]
                if isinstance(r, (Num, Const)):
                    return r
                if n == 1:
                    return r
                return Term('item', (self.snap(r, st), num(k)))
            el[pos] = ite(g, lift(pick, v), el[pos])
        st.heap[view.sid] = HObj('arr', None, el)

    def havoc_arr(self, l, idx, v, st, node):
        el = list(st.heap[l.sid].f)
        if isinstance(idx, Num) and len(l.shape) == 1 and len(el) <= 4:
            for k, pos in enumerate(l.idx):
                el[pos] = ite(rel('eq', sub(idx, num(k))), v, el[pos])
        else:
            for k, pos in enumerate(l.idx):
                el[pos] = from_atom(Atom('upd', (self.snap(el[pos], st), self.snap(idx, st), self.snap(v, st), num(k))))
        st.heap[l.sid] = HObj('arr', None, el)

    # -- control flow
    def s_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st), st)
        self.branch(c, s.body, s.orelse, st, fr)

    def branch(self, c, body, orelse, st, fr):
        pc = st.pc
        ct = band(pc, c)
        cf = band(pc, bnot(c))
        tdead = ct is FALSE or T.unsat(ct)
        fdead = cf is FALSE or T.unsat(cf)
        if tdead and fdead:
            st.rel = FALSE
            return
        if fdead:
            self.block(body, st, fr)
            return
        if tdead:
            self.block(orelse, st, fr)
            return
        s1 = st.copy()
        s1.rel = band(st.rel, c)
        s2 = st
        heap0 = dict(st.heap)
        vars0 = dict(st.vars)
        rel0 = st.rel
        s2 = State(vars0, heap0, band(rel0, bnot(c)), st.base)
        self.block(body, s1, fr)
        self.block(orelse, s2, fr)
        self.join(c, s1, s2, st)

    def join(self, c, s1, s2, st):
        if s1.rel is FALSE and s2.rel is FALSE:
            st.rel = FALSE
            return
        if s1.rel is FALSE:
            st.vars, st.heap, st.rel = s2.vars, s2.heap, s2.rel
            return
        if s2.rel is FALSE:
            st.vars, st.heap, st.rel = s1.vars, s1.heap, s1.rel
            return
        st.vars = self.merge_vars(c, s1.vars, s2.vars)
        st.heap = self.merge_heap(c, s1.heap, s2.heap)
        st.rel = bor(s1.rel, s2.rel)

    def merge_vars(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            va, vb = a.get(k, UNBOUND), b.get(k, UNBOUND)
            out[k] = va if va is vb else ite(c, va, vb)
        return out

    def merge_heap(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, ha in a.items():
            hb = b.get(k)
            if hb is ha:
                continue
            if hb is None:
                if not (isinstance(k, str) and k.startswith('module:')):
                    out[k] = ha
                    continue
                hb = HObj('dict', None, {})
            out[k] = self.merge_obj(c, k, ha, hb)
        for k, hb in b.items():
            if isinstance(k, str) and k.startswith('module:') and k not in a:
                out[k] = self.merge_obj(c, k, HObj('dict', None, {}), hb)
        return out

    def merge_obj(self, c, oid, ha, hb):
        if ha.kind == 'arr' and len(ha.f) == len(hb.f):
            return HObj('arr', None, [x if x is y else ite(c, x, y) for x, y in zip(ha.f, hb.f)])
        if ha.kind == 'list':
            if len(ha.f) == len(hb.f):
                return HObj('list', None, [x if x is y else ite(c, x, y) for x, y in zip(ha.f, hb.f)])
            # lists of different length: keep the longer with gated presence
            n = max(len(ha.f), len(hb.f))
            fa = list(ha.f) + [UNBOUND] * (n - len(ha.f))
            fb = list(hb.f) + [UNBOUND] * (n - len(hb.f))
            return HObj('list', None, [x if x is y else ite(c, x, y) for x, y in zip(fa, fb)])
        if ha.kind == 'obj':
            f = {}
            for k in list(ha.f) + [k for k in hb.f if k not in ha.f]:
                x, y = ha.f.get(k), hb.f.get(k)
                if x is None:
                    x = self.default_field(oid, ha.cls, k, State({}, {}, TRUE, TRUE)) if ha.symbolic else UNBOUND
                if y is None:
                    y = self.default_field(oid, hb.cls, k, State({}, {}, TRUE, TRUE)) if hb.symbolic else UNBOUND
                f[k] = x if x is y else ite(c, x, y)
            return HObj('obj', ha.cls, f, ha.symbolic, ha.exact)
        if ha.kind == 'dict':
            f = {}
            for k in list(ha.f) + [k for k in hb.f if k not in ha.f]:
                x, y = ha.f.get(k, UNBOUND), hb.f.get(k, UNBOUND)
                f[k] = x if x is y else ite(c, x, y)
            return HObj('dict', None, f)
        return hb

    def s_With(self, s, st, fr):
        entered = []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            self.event('enter', st, (v,), it.context_expr)
            m = self.boundmethod(v, '__enter__', st)
            entered.append((v, it, self.boundmethod(v, '__exit__', st) if m is not None else None))
            r = self.call(m, [], {}, st, it.context_expr) if m is not None else Term('with', (self.snap(v, st),))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st)
        if all(x is None for _, _, x in entered):
            self.block(s.body, st, fr)
            for v, it, x in reversed(entered):
                self.event('exit', st, (v,), it.context_expr)
            return

        def leave(z, e=NONE):
            for v, it, x in reversed(entered):
                if x is not None:
                    self.call(x, [e, e, e], {}, z, it.context_expr)
                self.event('exit', z, (v,), it.context_expr)

        pre = st.copy()
        marks = self.marks(fr)
        if self.exits:
            self.exits.append([])
        self.block(s.body, st, fr)
        if self.exits:
            self.unwind(self.exits.pop(), pre, st, lambda z: leave(z, Term('exc', (Const('with'),))))
        self.leaving(fr, marks, leave, pre, st)
        if st.rel is not FALSE:
            leave(st)

    def marks(self, fr):
        return len(fr.returns), [(len(b), len(c)) for b, c in fr.loopstack]

    def leaving(self, fr, marks, cleanup, pre, st):
        """the returns, breaks and continues recorded since the marks pass through the clean up code"""
        n, loops = marks
        for i in range(n, len(fr.returns)):
            rel, v, heap = fr.returns[i]
            if rel is FALSE:
                continue
            z = State({**pre.vars, **st.vars}, dict(heap), rel, st.base)
            cleanup(z)
            fr.returns[i] = (z.rel, v, z.heap)
        for (nb, nc), (b, c) in zip(loops, fr.loopstack):
            for k in range(nb, len(b)):
                cleanup(b[k])
            for k in range(nc, len(c)):
                cleanup(c[k])

    def unwind(self, states, pre, st, cleanup):
        """exceptions leave through the clean up code"""
        for c, heap in states:
            z = State({**pre.vars, **st.vars}, dict(heap), c, TRUE)
            cleanup(z)
            if self.exits and z.rel is not FALSE:
                self.exits[-1].append((z.rel, z.heap))

    def s_Try(self, s, st, fr):
        pre = st.copy()
        marks = self.marks(fr)
        self.tries.append([])
        track = self.try_total and bool(s.handlers)
        if track:
            self.exits.append([])
        through = bool(s.finalbody) and bool(self.exits)
        if through:
            self.exits.insert(len(self.exits) - track, [])
        self.block(s.body, st, fr)
        raised = self.tries.pop()
        left = self.exits.pop() if track else []
        if s.handlers:
            fr.loops += 1
            exc = T.bvar_node(BVar('exc', (fr.fi.qual if fr.fi else '?', fr.loops)).id)
            if raised and all(h.type is not None and ast.unparse(h.type).endswith('LinAlgError') for h in s.handlers):
                exc = FALSE         # the singular systems are the only source of this exception
                for c in raised:
                    exc = T.bor(exc, c)
            if self.try_total and not any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b)):
                # the caller states that only explicit raise statements leave the body
                exc = bnot(st.rel)
            outs = [(bnot(exc), st.copy())]
            # the body did not complete: start again from the state before it
            acc = None
            for h in s.handlers:
                s2 = pre.copy()
                s2.rel = band(pre.rel, exc)
                if left:
                    s2.heap = left[-1][1]
                    for c, hp in reversed(left[:-1]):
                        s2.heap = self.merge_heap(c, hp, s2.heap)
                for n in _stored(s.body):
                    if n not in pre.vars:
                        s2.vars[n] = UNBOUND
                if h.name:
                    s2.vars[h.name] = Term('exc', (Const(h.name),))
                self.block(h.body, s2, fr)
                if acc is None or acc.rel is FALSE:
                    acc = s2
                elif s2.rel is not FALSE:
                    hv = T.bvar_node(BVar('handler', (fr.loops, len(outs))).id)
                    tmp = State({}, {}, TRUE, st.base)
                    self.join(hv, acc, s2, tmp)
                    acc = tmp
            cur = st.copy()
            cur.rel = band(cur.rel, bnot(exc))
            self.join(exc, acc, cur, st)
        if s.orelse:
            self.block(s.orelse, st, fr)
        if s.finalbody:
            if through:
                self.unwind(self.exits.pop(), pre, st, lambda z: self.block(s.finalbody, z, fr))
            self.leaving(fr, marks, lambda z: self.block(s.finalbody, z, fr), pre, st)
            self.block(s.finalbody, st, fr)

    def s_Break(self, s, st, fr):
        fr.loopstack[-1][0].append(st.copy())
        st.rel = FALSE

    def s_Continue(self, s, st, fr):
        fr.loopstack[-1][1].append(st.copy())
        st.rel = FALSE

    def merge_list(self, states, st):
        """merge states with disjoint relative conditions into st"""
        states = [x for x in states if x.rel is not FALSE]
        if not states:
            st.rel = FALSE
            return
        acc = states[-1]
        for x in reversed(states[:-1]):
            tmp = State({}, {}, TRUE, st.base)
            self.join(x.rel, x, acc, tmp)
            acc = tmp
        st.vars, st.heap, st.rel = acc.vars, acc.heap, acc.rel

    def bounded_range(self, it):
        """elements of a range with symbolic ends between two constants: each guarded by its presence"""
        ls = T.leaves(it)
        if not all(isinstance(l, Term) and l.op == 'range' and 1 <= len(l.args) <= 2 and
                   all(isinstance(a, Num) and not a.spec for a in l.args) for l in ls):
            return None
        los, his = [], []
        for l in ls:
            lo, hi = (ZERO, l.args[0]) if len(l.args) == 1 else l.args
            los.append(const_bound(lo, False))
            his.append(const_bound(hi, True))
        if any(b is None for b in los + his):
            return None
        a, b = min(los), max(his)
        a, b = -((-a) // 1), -((-b) // 1)
        if b - a > 12:
            return None

        def there(k):
            def g(l):
                lo, hi = (ZERO, l.args[0]) if len(l.args) == 1 else l.args
                return band(rel('le', sub(lo, num(k))), rel('lt', sub(num(k), hi)))
            return lift(g, it)
        return [ite(there(k), num(k), UNBOUND) for k in range(int(a), int(b))]

    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st)
        self.needs(it, 'is iterated over', st, s)
        items = self.concrete(it, st, True) if not isinstance(it, Ite) else None
        if items is None and isinstance(it, Ite):
            # gated lists of equal length
            ls = T.leaves(it)
            cs = [self.concrete(l, st) for l in ls]
            if all(c is not None for c in cs) and len({len(c) for c in cs}) == 1:
                items = [lift(lambda l: self.concrete(l, st)[k], it) for k in range(len(cs[0]))]
        if items is None:
            items = self.bounded_range(it)
        if items is not None and len(items) <= self.UNROLL:
            breaks = []
            fr.loops += 1
            for x in items:
                if st.rel is FALSE:
                    break
                conts = []
                g = TRUE
                if isinstance(x, Ite) and UNBOUND in T.leaves(x):
                    # element present only on some joined states
                    g = FALSE
                    for lf, gd in T.guarded_leaves(x):
                        if lf is not UNBOUND:
                            g = bor(g, gd)
                    skip = st.copy()
                    skip.rel = band(st.rel, bnot(g))
                    conts.append(skip)
                    st.rel = band(st.rel, g)
                    x = T.restrict(x, g)
                fr.loopstack.append((breaks, conts))
                self.assign(s.target, x, st)
                self.block(s.body, st, fr)
                fr.loopstack.pop()
                self.merge_list([st.copy()] + conts, st)
            if s.orelse and st.rel is not FALSE:
                self.block(s.orelse, st, fr)
            if breaks:
                self.merge_list([st.copy()] + breaks, st)
            return
        self.genloop(s, st, fr, it)

    SYMUNROLL = 5

    def s_While(self, s, st, fr):
        # unroll while the condition is decided
        breaks = []
        n = nsym = 0
        fr.loops += 1
        snap = st.copy()
        ev, dg, rets, lps, nob, ndr = len(self.events), len(self.diags), len(fr.returns), fr.loops, self.nobj, self.draws
        while n < self.UNROLL * 4:
            ds, es = len(self.diags), len(self.events)
            c = self.truth(self.eval(s.test, st), st)
            if c is FALSE or band(st.pc, c) is FALSE:
                if breaks:
                    self.merge_list([st.copy()] + breaks, st)
                return
            if c is not TRUE and not (band(st.pc, bnot(c)) is FALSE):
                if T.unsat(band(st.pc, c)):
                    self.merge_list([st.copy()] + breaks, st)
                    return
                if not T.unsat(band(st.pc, bnot(c))):
                    # bounded unrolling over an undecided condition; summarised below when it does not end
                    nsym += 1
                    if nsym > self.SYMUNROLL:
                        break
                    out = st.copy()
                    out.rel = band(st.rel, bnot(c))
                    breaks.append(out)
                    st.rel = band(st.rel, c)
            conts = []
            exits = len(breaks) + len(fr.returns)
            fr.loopstack.append((breaks, conts))
            self.block(s.body, st, fr)
            fr.loopstack.pop()
            self.merge_list([st.copy()] + conts, st)
            n += 1
            if st.rel is FALSE:
                if breaks:
                    self.merge_list(breaks, st)
                return
            if isinstance(s.test, ast.Constant) and len(breaks) + len(fr.returns) > exits:
                nsym += 1
                if nsym > self.SYMUNROLL:
                    break
        # give up unrolling
        if nsym > self.SYMUNROLL and breaks and not isinstance(s.test, ast.Constant) and self.spent(band(st.pc, c)):
            self.merge_list(breaks, st)
            return
        if nsym > self.SYMUNROLL and breaks and self.keep_exits:
            # the exits found so far stay exact, the rest of the iterations is summarised
            self.genloop(s, st, fr, None)
            self.merge_list([st.copy()] + breaks, st)
            return
        # restart with a summary
        st.vars, st.heap, st.rel = snap.vars, snap.heap, snap.rel
        del self.events[ev:]
        del self.diags[dg:]
        del fr.returns[rets:]
        fr.loops, self.nobj, self.draws = lps - 1, nob, ndr
        self.genloop(s, st, fr, None)

    def spent(self, c):
        """no further iteration is possible, by linear arithmetic over the condition reached"""
        from . import arith
        try:
            return bool(arith.unsat(c, 400))
        except (arith.Limit, RecursionError):
            return False

    def genloop(self, s, st, fr, it):
        """loop summary: forget what the body may change, analyse the body once
        from that state (covers every iteration), then forget again"""
        if self.exact is None:
            self.exact = len(self.diags)        # what was found before this summary was found on the exact path
        fr.loops += 1
        lid = fr.loops
        entry = st.copy()
        changed_vars = set(_stored([s])) & (set(st.vars) | set(_stored([s])))
        changed_heap = set()
        for attempt in range(3):
            ev, dg, rets, nob, ndr, nl, ny = (len(self.events), len(self.diags), len(fr.returns), self.nobj, self.draws,
                                              fr.loops, len(fr.yields))
            cur = entry.copy()
            self.havoc(cur, changed_vars, changed_heap, lid, fr)
            pre = cur.copy()
            breaks, conts = [], []
            if isinstance(s, ast.While):
                c = self.truth(self.eval(s.test, cur), cur)
                exit_state = cur.copy()
                exit_state.rel = band(cur.rel, bnot(c))
                cur.rel = band(cur.rel, c)
            else:
                exit_state = cur.copy()
                more = T.bvar_node(BVar('more', (fr.fi.qual if fr.fi else '?', lid)).id)
                exit_state.rel = band(cur.rel, bnot(more))
                cur.rel = band(cur.rel, more)
                self.assign(s.target, self.item_of(it, cur, s), cur)
            fr.loopstack.append((breaks, conts))
            self.event('loop', cur, (lid, s), s)
            self.block(s.body, cur, fr)
            self.event('endloop', cur, (lid, s), s)
            fr.loopstack.pop()
            # locations changed by the body
            nch = set()
            for stt in [cur] + breaks + conts:
                if stt.rel is FALSE and stt is not cur:
                    continue
                for k, h in stt.heap.items():
                    h0 = pre.heap.get(k)
                    if h0 is None or h0 is h:
                        continue
                    if h.kind == 'obj':
                        for f, v in h.f.items():
                            v0 = h0.f.get(f)
                            if v0 is None:
                                if h.symbolic and not self._is_default(k, h.cls, f, v):
                                    nch.add((k, f))
                                elif not h.symbolic:
                                    nch.add((k, f))
                            elif v0 is not v:
                                nch.add((k, f))
                    elif h.kind == 'arr':
                        if any(x is not y for x, y in zip(h.f, h0.f)):
                            nch.add((k, None))
                    else:
                        if len(h.f) != len(h0.f) or (h.kind == 'list' and any(x is not y for x, y in zip(h.f, h0.f))) \
                                or (h.kind == 'dict' and h.f != h0.f):
                            nch.add((k, None))
            if nch <= changed_heap:
                break
            changed_heap |= nch
            if attempt < 2:
                del self.events[ev:]
                del self.diags[dg:]
                del fr.returns[rets:]
                del fr.yields[ny:]
                self.nobj, self.draws, fr.loops = nob, ndr, nl
        states = []
        if isinstance(s, ast.While):
            if exit_state.rel is not FALSE:
                states.append(exit_state)
        else:
            states.append(exit_state)
        if s.orelse:
            self.block(s.orelse, exit_state, fr)
        allst = states + breaks
        # make conditions disjoint for the merge
        allst = [x for x in allst if x.rel is not FALSE]
        self.merge_list(allst, st)

    def _is_default(self, oid, cls, f, v):
        s = State({}, {}, TRUE, TRUE)
        d = self.default_field(oid, cls, f, s)
        return d is v

    def havoc(self, st, names, heaps, lid, fr):
        q = fr.fi.qual if fr.fi else '?'
        for n in sorted(names):
            if n in st.vars:
                st.vars[n] = self.havoc_val(st.vars[n], ('loop', q, lid, n), st)
        for k, f in sorted(heaps, key=repr):
            h = st.heap.get(k)
            if h is None:
                continue
            if f is not None:
                old = h.f.get(f)
                if old is None:
                    old = self.default_field(k, h.cls, f, st) if h.symbolic else UNBOUND
                    h = st.heap.get(k)
                st.heap[k] = h.put(f, self.havoc_val(old, ('loop', q, lid, T.show(k) if not isinstance(k, str) else self._stable(k), f), st))
            elif h.kind == 'arr':
                st.heap[k] = HObj('arr', None, [from_atom(Atom('sym', (('loop', q, lid, self._stable(k), i),)))
                                                for i in range(len(h.f))])
            elif h.kind == 'list':
                # unknown contents: becomes an opaque list
                st.heap[k] = HObj('list', None, [])
                st.heap[k] = HObj('opaquelist', None, {})
                for n, v in list(st.vars.items()):
                    if isinstance(v, Ref) and v.id == k:
                        st.vars[n] = Term('sym', (('loop', q, lid, n),), None)
                for k2, h2 in list(st.heap.items()):
                    if h2.kind == 'obj':
                        for f2, v2 in h2.f.items():
                            if isinstance(v2, Ref) and v2.id == k:
                                st.heap[k2] = h2.put(f2, Term('sym', (('loop', q, lid, self._stable(k2), f2),), None))
                                h2 = st.heap[k2]
            else:
                st.heap[k] = HObj('dict', None, {})

    def _stable(self, k):
        return k.split(':')[-1] if isinstance(k, str) and k.startswith('#') else (k if isinstance(k, str) else T.show(k))

    def havoc_val(self, v, name, st):
        ls = T.leaves(v)
        ls2 = [l for l in ls if l is not UNBOUND]
        if not ls2:
            # assigned only inside the loop: may still be unbound
            return ite(T.bvar_node(BVar('first', (name,)).id), UNBOUND, Term('sym', (name,)))
        kinds = {type(l) for l in ls2}
        if kinds == {Num}:
            return from_atom(Atom('sym', (name,)), any(l.spec for l in ls2))
        if all(l in (TRUE, FALSE) for l in ls2):
            return T.bvar_node(BVar('truth', (name,)).id)
        if kinds == {ARef} and len({(l.shape, l.kind) for l in ls2}) == 1:
            l = ls2[0]
            sid = ('loopvar',) + name
            st.heap[sid] = HObj('arr', None, [from_atom(Atom('sym', (name + (i,),))) for i in range(len(l.idx))])
            return ARef(sid, tuple(range(len(l.idx))), l.shape, l.kind)
        if kinds == {Ref}:
            cs = {st.heap[l.id].cls for l in ls2 if l.id in st.heap and st.heap[l.id].kind == 'obj'}
            if len(cs) == 1 and all(l.id in st.heap and st.heap[l.id].kind == 'obj' for l in ls2):
                oid = Term('sym', (name,))
                st.heap[oid] = HObj('obj', next(iter(cs)), {}, True, False)
                return Ref(oid)
        return Term('sym', (name,), None)

    # ---------------------------------------------------------------- entry
    def entry(self, fi, given=None, selfcls=None, st=None, skip_default=True):
        """symbolic arguments for analysing fi from scratch"""
        st = st or State({}, {}, TRUE, TRUE)
        env = {}
        given = given or {}
        a = fi.node.args
        params = a.posonlyargs + a.args
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        for i, (p, d) in enumerate(zip(params, defaults)):
            if p.arg in given:
                g = given[p.arg]
                if isinstance(g, str):
                    g = self.p.cls(g) if '.' in g else g
                if isinstance(g, (str, tuple, ClassInfo)):
                    g = self.mksym(p.arg, g, st)
                env[p.arg] = g(self, st) if callable(g) else g
                continue
            if i == 0 and fi.cls is not None and fi.kind in ('method', 'property', 'setter'):
                c = selfcls or fi.cls
                env[p.arg] = self.mksym(p.arg, c, st, exact=selfcls is not None)
                continue
            if i == 0 and fi.kind == 'classmethod':
                env[p.arg] = Fn('cls', selfcls or fi.cls)
                continue
            ty = self.types.get((fi.name, p.arg)) or self.types.get(('arg', p.arg)) or self.ann_type(fi.module, p.annotation)
            if ty is None and d is not None:
                ty = self._expr_type(fi.module, d, {})
            if d is not None and isinstance(d, ast.Constant) and d.value is None and ty is not None:
                ty = ('opt', ty)
            env[p.arg] = self.mksym(p.arg, ty, st)
        for p in a.kwonlyargs:
            ty = self.ann_type(fi.module, p.annotation)
            env[p.arg] = self.mksym(p.arg, ty, st)
        if a.vararg:
            env[a.vararg.arg] = Term('sym', ('*' + a.vararg.arg,), None)
        if a.kwarg:
            env[a.kwarg.arg] = Term('sym', ('**' + a.kwarg.arg,), None)
        return env, st

    def run(self, fi, given=None, selfcls=None, st=None):
        """summary of fi on symbolic arguments"""
        env, st = self.entry(fi, given, selfcls, st)
        env0 = dict(env)
        self.stack = []
        v = self.inline_top(fi, env, st)
        s = Summary(v, st, st.rel, self)
        s.env = env0
        return s

    def inline_top(self, fi, env, st):
        return self.inline(fi, env, st)


class _Env(object):
    """closure environment (compared by identity)"""
    def __init__(self, st, outer):
        self.st = st
        self.outer = outer


_stored_cache = {}


def _stored(stmts):
    names = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                go(g.iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return names


def len_(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def sub2(p, q):
    return sub(p, q)


def npow(a, b):
    c = b.const
    if c is not None:
        if c.denominator == 1:
            n = int(c)
            if abs(n) <= (64 if a.const is not None else 8):
                r = T.power(a, abs(n))
                return r if n >= 0 else T.inverse(r)
        if c == Fraction(1, 2):
            return T.sqrt(a)
        if c.denominator == 2 and abs(c) < 6:
            n = int(c - Fraction(1, 2)) if c > 0 else int(c - Fraction(1, 2))
            if c > 0:
                return mul(T.power(a, int(c - Fraction(1, 2))), T.sqrt(a))
    return app('pow', a, b)


def bitop(t, a, b):
    if a.const is not None and b.const is not None:
        x, y = int(a.const), int(b.const)
        if t is ast.BitAnd:
            return num(x & y)
        if t is ast.BitOr:
            return num(x | y)
        if t is ast.BitXor:
            return num(x ^ y)
        if t is ast.LShift:
            return num(x << y)
        return num(x >> y)
    if t is ast.BitAnd:
        for x, y in ((a, b), (b, a)):
            if x.const is not None and x.const >= 1 and x.const.denominator == 1 and (int(x.const) & (int(x.const) + 1)) == 0 and T._whole(y):
                return app('mod', y, num(int(x.const) + 1))
    if t in (ast.BitAnd, ast.BitOr):
        op = {ast.BitAnd: 'band', ast.BitOr: 'bor'}[t]
        flat, cst = set(), None
        for x in (a, b):
            at = T.as_atom(x)
            if at is not None and at.op == op:
                for y in at.args[0]:
                    flat.add(y)
            else:
                flat.add(x)
        cs = [x for x in flat if x.const is not None]
        rest = {x for x in flat if x.const is None}
        if cs:
            v = int(cs[0].const)
            for x in cs[1:]:
                v = (v & int(x.const)) if t is ast.BitAnd else (v | int(x.const))
            if t is ast.BitAnd and v == 0:
                return ZERO
            if not (t is ast.BitOr and v == 0):
                rest.add(num(v))
        if len(rest) == 1:
            return next(iter(rest))
        return from_atom(Atom(op, (frozenset(rest),)))
    if t is ast.BitXor:
        a, b = sorted([a, b], key=T.show)
        return app('bxor', a, b)
    if t is ast.RShift and b.const is not None:
        return app('floordiv', a, num(2 ** int(b.const)))
    if t is ast.LShift and b.const is not None:
        return mul(a, num(2 ** int(b.const)))
    return app({ast.LShift: 'shl', ast.RShift: 'shr'}[t], a, b)


BUILTINS = (set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)) | {'_D', '_ch'}
