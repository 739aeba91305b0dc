"""Transfer functions for builtins, numpy and the spectrum classes."""
import os
import ast
from fractions import Fraction

from . import terms as T
from .terms import (Const, TRUE, FALSE, NONE, UNBOUND, Num, Atom, Ref, ARef, Tup, Vec, Term, Fn, Ite, BVar,
                    num, sym, from_atom, ite, band, bor, bnot, lift, rel, sub, add, mul, div, neg, ZERO, ONE,
                    POSINF, NEGINF, PI, app)
from .loader import ClassInfo, FuncInfo
from .npnames import NUMPY_NAMES, NDARRAY_NAMES

UNARY = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'arcsin', 'arccos': 'arccos', 'arctan': 'arctan',
         'exp': 'exp', 'log': 'log', 'floor': 'floor', 'ceil': 'ceil', 'log2': 'log2', 'log10': 'log10',
         'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'rint': 'round', 'trunc': 'int', 'round': 'round',
         'around': 'round', 'round_': 'round'}
NUMERIC_TYPES = {'float', 'float32', 'float64', 'int', 'int32', 'int64', 'uint32', 'uint', 'uint8', 'double', 'int_',
                 'float_', 'bool', 'bool_', 'intp', 'int8', 'int16', 'uint16', 'uint64'}


def ext(en, dotted, st, node=None):
    if dotted == 'numpy.pi' or dotted == 'math.pi':
        return PI
    if dotted in ('numpy.inf', 'numpy.Inf', 'numpy.infty', 'math.inf', 'numpy.PINF'):
        return POSINF
    if dotted in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return sym('nan')
    if dotted == 'numpy.newaxis':
        return NONE
    if dotted == 'numpy.e':
        return sym('e')
    if dotted.startswith('numpy.'):
        parts = dotted.split('.')
        ok = '.'.join(parts[1:]) in NUMPY_NAMES
        if len(parts) <= 3 and not ok:
            en.diag('modattr', st, "module 'numpy' has no attribute '%s'" % '.'.join(parts[1:]), node)
    return Fn('ext', dotted)


def _deref(v, st):
    return v


def _elems(en, v, st):
    """flat list of element values of a concrete sequence leaf, with its shape"""
    if isinstance(v, ARef):
        return [st.heap[v.sid].f[i] for i in v.idx], v.shape
    it = en.concrete(v, st)
    if it is None:
        return None, None
    out, shape = [], None
    for x in it:
        if isinstance(x, (Tup, ARef)) or (isinstance(x, Ref) and st.heap.get(x.id) is not None
                                          and st.heap[x.id].kind == 'list'):
            e, s = _elems(en, x, st)
            if e is None or (shape is not None and s != shape):
                return None, None
            shape = s
            out.extend(e)
        else:
            if shape not in (None, ()):
                return None, None
            shape = ()
            out.append(x)
    return out, (len(it),) + (shape or ())


def toarr(en, v, st):
    """coerce to array leaf (fresh storage) or None"""
    e, s = _elems(en, v, st)
    if e is None:
        return None
    return en.newarr(e, s, 'ndarray', st)


def asarr(en, v, st):
    if isinstance(v, ARef):
        return v
    return toarr(en, v, st)


def _scalarish(en, v, st):
    return isinstance(v, (Num, Const)) or (isinstance(v, Term))


def _opaque(en, name, args, kw, st, ty=None):
    t = Term('call', (Const(name),) + tuple(en.snap(a, st) for a in args) +
             tuple(x for k in sorted(kw) for x in (Const(k), en.snap(kw[k], st))))
    if ty == 'num':
        return from_atom(Atom('call', t.args))
    return t


def _broadcast_to(e, fs, s):
    """the elements of shape fs repeated to shape s, or None"""
    import itertools
    if len(fs) > len(s):
        return None
    fs = (1,) * (len(s) - len(fs)) + tuple(fs)
    if any(a != b and a != 1 for a, b in zip(fs, s)):
        return None
    out = []
    for p in itertools.product(*[range(n) for n in s]):
        k = 0
        for a, i in zip(fs, p):
            k = k * a + (i if a != 1 else 0)
        out.append(e[k])
    return out


def dot(en, a, b, st):
    def g(x, y):
        ax, ay = asarr(en, x, st), asarr(en, y, st)
        if ax is None or ay is None:
            return None
        ex = [en_num(en, st.heap[ax.sid].f[i], st) for i in ax.idx]
        ey = [en_num(en, st.heap[ay.sid].f[i], st) for i in ay.idx]

        def sp(p, q):
            acc = ZERO
            for u, v in zip(p, q):
                acc = lift(add, acc, lift(mul, u, v))
            return acc
        if len(ax.shape) == 1 and len(ay.shape) == 1:
            if len(ex) != len(ey):
                en.diag('shape', st, 'dot of lengths %d and %d' % (len(ex), len(ey)), None)
                return None
            return sp(ex, ey)
        if len(ax.shape) == 2 and len(ay.shape) == 1:
            n, m = ax.shape
            if m != len(ey):
                en.diag('shape', st, 'dot of shapes %s and %s' % (ax.shape, ay.shape), None)
                return None
            return en.newarr([sp(ex[i * m:(i + 1) * m], ey) for i in range(n)], (n,), 'ndarray', st)
        if len(ax.shape) == 2 and len(ay.shape) == 2:
            n, m = ax.shape
            m2, k = ay.shape
            if m != m2:
                en.diag('shape', st, 'dot of shapes %s and %s' % (ax.shape, ay.shape), None)
                return None
            return en.newarr([sp(ex[i * m:(i + 1) * m], [ey[r * k + j] for r in range(m)])
                              for i in range(n) for j in range(k)], (n, k), 'ndarray', st)
        if len(ax.shape) == 1 and len(ay.shape) == 2:
            m, k = ay.shape
            if m != len(ex):
                return None
            return en.newarr([sp(ex, [ey[r * k + j] for r in range(m)]) for j in range(k)], (k,), 'ndarray', st)
        return None
    return g(a, b)


def en_num(en, v, st):
    return lift(lambda l: en.tonum(l, st), v)


def vlift(f, *args):
    return lift(f, *args)


def reduce_minmax(f, vals):
    return lift(f, *vals) if len(vals) <= 3 else _fold(f, vals)


def _fold(f, vals):
    acc = vals[0]
    for v in vals[1:]:
        acc = lift(f, acc, v)
    return acc


def _const_inverse(M):
    """exact inverse of a matrix of constants, None when not constant or singular"""
    n = len(M)
    if any(not isinstance(x, Num) or x.const is None for r in M for x in r):
        return None
    A = [[x.const for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def inverse_mat(en, a, st):
    n = a.shape[0]
    M = [[en_num(en, st.heap[a.sid].f[a.idx[i * n + j]], st) for j in range(n)] for i in range(n)]
    if any(isinstance(x, Ite) for r in M for x in r):
        return None
    C = _const_inverse(M)
    if C is not None:
        return en.newarr([num(x) for r in C for x in r], a.shape, 'ndarray', st)
    key = T.Vec('ndarray', a.shape, [x for r in M for x in r])
    return en.newarr([from_atom(Atom('matinv', (key, num(i)))) for i in range(n * n)], a.shape, 'ndarray', st)


def _matinv_source(elems):
    """if the elements are exactly matinv(K, 0..n-1) give K"""
    k = None
    for i, e in enumerate(elems):
        at = T.as_atom(e) if isinstance(e, Num) else None
        if at is None or at.op != 'matinv' or at.args[1].const != i:
            return None
        if k is None:
            k = at.args[0]
        elif k is not at.args[0]:
            return None
    return k


ELEMENTWISE = {'clip', 'minimum', 'maximum', 'fmin', 'fmax', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'mod', 'floor_divide',
               'arctan2', 'hypot', 'fmod', 'copysign', 'sqrt', 'exp', 'log', 'log2', 'sin', 'cos', 'tan', 'fabs', 'abs', 'absolute', 'floor', 'ceil'}


def call(en, dotted, args, kw, st, node):
    mod, _, name = dotted.rpartition('.')
    root = dotted.split('.')[0]
    a0 = args[0] if args else None
    if root == 'numpy' and 'random' in mod:
        en.event('draw', st, (Const(dotted), tuple(args)), node)
        en.draws += 1
        if name == 'shuffle' and len(args) == 1:
            return _shuffle(en, a0, st, node)
        if name in ('rand', 'random', 'random_sample') and args and all(isinstance(a, Num) and a.const is not None for a in args):
            n = 1
            for a in args:
                n *= int(a.const)
            if n <= 64:
                return en.newarr([from_atom(Atom('draw', (Const(dotted), num(en.draws), num(i)))) for i in range(n)],
                                 tuple(int(a.const) for a in args), 'ndarray', st)
        if name in ('rand', 'random', 'random_sample', 'uniform') and not args:
            return from_atom(Atom('draw', (Const(dotted), num(en.draws))))
        return Term('draw', (Const(dotted), num(en.draws)) + tuple(en.snap(a, st) for a in args))
    if mod == 'os.path' and name in ('split', 'splitext', 'basename', 'dirname', 'join') and args and not kw and all(isinstance(a, Const) and isinstance(a.v, str) for a in args):
        r = getattr(os.path, name)(*[a.v for a in args])
        return Const(r) if isinstance(r, str) else Tup(tuple(Const(x) for x in r))
    if root == 'copy' and name in ('copy', 'deepcopy'):
        return lift(lambda l: copy_obj(en, l, st, name == 'deepcopy'), a0)
    if root == 'numpy' and name in ELEMENTWISE:
        args = [(toarr(en, a, st) or a) if isinstance(a, (Ref, Tup)) else a for a in args]
    if root == 'numpy' or root == 'math':
        r = npcall(en, name, args, kw, st, node)
        if r is not None:
            return r
    if name in ('Lock', 'RLock'):
        return Term('lock', (num(len(en.events)),), 'lock')
    return _opaque(en, dotted, args, kw, st)


def copy_obj(en, l, st, deep=False, depth=0):
    if isinstance(l, Ref):
        h = st.heap.get(l.id)
        if h is None:
            return l
        m = en.usermethod(l, '__deepcopy__' if deep else '__copy__', st)
        from .gvn import HObj
        i = en.newid(h.cls.name if h.kind == 'obj' else h.kind)
        if h.kind == 'obj':
            f = {}
            if h.symbolic:
                for k in en.field_table(h.cls):
                    f[k] = h.f[k] if k in h.f else en.default_field(l.id, h.cls, k, st)
                for k in h.f:
                    f.setdefault(k, h.f[k])
            else:
                f = dict(h.f)
            if deep and depth < 6:
                f = {k: lift(lambda x: copy_obj(en, x, st, True, depth + 1), v) for k, v in f.items()}
            st.heap[i] = HObj('obj', h.cls, f, False, h.exact)
        elif h.kind == 'list':
            st.heap[i] = HObj('list', None, [lift(lambda x: copy_obj(en, x, st, True, depth + 1), v) if deep else v for v in h.f])
        else:
            st.heap[i] = h
        return Ref(i)
    if isinstance(l, ARef):
        return en.newarr([st.heap[l.sid].f[i] for i in l.idx], l.shape, l.kind, st)
    return l


def rounded(op, n, st):
    """floor or ceil, a number where the path condition confines the argument to one unit interval"""
    if isinstance(n, Num) and n.const is None and not n.spec and len(n.terms) <= 2 and st.pc is not TRUE:
        c = n.terms.get((), Fraction(0))
        base = c.numerator // c.denominator
        for k in (base, base - 1, base + 1):
            lo, hi = (k, k + 1) if op == 'floor' else (k - 1, k)
            a, b = rel('lt', sub(n, num(lo))), rel('lt', sub(n, num(hi)))
            if op == 'ceil':
                a, b = rel('le', sub(n, num(lo))), rel('le', sub(n, num(hi)))
            if T.implies(st.pc, band(bnot(a), b)):
                return num(k)
    return app(op, n)


def npcall(en, name, args, kw, st, node):
    a0 = args[0] if args else None
    if name in UNARY and len(args) >= 1:
        op = UNARY[name]
        if op in ('floor', 'ceil'):
            return lift(lambda l: en.ew(lambda n: rounded(op, n, st), [l], st) if _numish(en, l, st) else
                        _arrterm(en, name, [l], st), a0)
        return lift(lambda l: en.ew(lambda n: app(op, n), [l], st) if _numish(en, l, st) else
                    _arrterm(en, name, [l], st), a0)
    if name == 'sqrt':
        return lift(lambda l: en.ew(T.sqrt, [l], st) if _numish(en, l, st) else _arrterm(en, name, [l], st), a0)
    if name in ('fabs', 'abs', 'absolute'):
        return lift(lambda l: en.ew(T.absolute, [l], st) if _numish(en, l, st) else _arrterm(en, name, [l], st), a0)
    if name in ('square',):
        return lift(lambda l: en.ew(lambda n: mul(n, n), [l], st), a0)
    if name in ('deg2rad', 'radians'):
        return lift(lambda l: en.ew(lambda n: mul(n, div(PI, num(180))), [l], st), a0)
    if name in ('rad2deg', 'degrees'):
        return lift(lambda l: en.ew(lambda n: div(mul(n, num(180)), PI), [l], st), a0)
    if name in ('reciprocal',):
        return lift(lambda l: en.ew(T.inverse, [l], st), a0)
    if name == 'negative':
        return lift(lambda l: en.ew(neg, [l], st), a0)
    if name == 'quaternion' and len(args) == 4 and not kw:
        return en.newarr([en_num(en, x, st) for x in args], (4,), 'quaternion', st)
    if name == 'trace' and len(args) == 1:
        def g(x):
            ax = asarr(en, x, st)
            if ax is None or len(ax.shape) != 2:
                return _opaque(en, 'numpy.trace', args, kw, st, 'num')
            return _fold(add, [en_num(en, st.heap[ax.sid].f[ax.idx[i * ax.shape[1] + i]], st) for i in range(min(ax.shape))])
        return lift(g, a0)
    if name == 'diag' and len(args) == 1:
        def g(x):
            ax = asarr(en, x, st)
            if ax is None or len(ax.shape) not in (1, 2):
                return _opaque(en, 'numpy.diag', args, kw, st)
            e = [st.heap[ax.sid].f[i] for i in ax.idx]
            if len(ax.shape) == 2:
                return en.newarr([e[i * ax.shape[1] + i] for i in range(min(ax.shape))], (min(ax.shape),), 'ndarray', st)
            n = len(e)
            return en.newarr([e[i] if i == j else ZERO for i in range(n) for j in range(n)], (n, n), 'ndarray', st)
        return lift(g, a0)
    if name in ('frompyfunc', 'vectorize') and args and isinstance(a0, Fn):
        return Fn('ufunc', a0, name)
    if name == 'sinc' and len(args) == 1:
        def sinc(x):
            y = mul(T.PI, x)
            return T.ite(rel('eq', x), num(1), div(app('sin', y), y) if y is not ZERO else num(1))
        return lift(lambda x: en.ew(sinc, [x], st), a0)
    if name in ('minimum', 'fmin') and len(args) == 2:
        return lift(lambda x, y: en.ew(T.vmin, [x, y], st), *args)
    if name in ('maximum', 'fmax') and len(args) == 2:
        return lift(lambda x, y: en.ew(T.vmax, [x, y], st), *args)
    if name in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'mod', 'floor_divide') and len(args) == 2:
        f = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div,
             'power': _npow, 'mod': lambda a, b: app('mod', a, b), 'floor_divide': lambda a, b: app('floordiv', a, b)}[name]
        return lift(lambda x, y: en.ew(f, [x, y], st), *args)
    if name in ('arctan2', 'hypot', 'fmod', 'copysign') and len(args) == 2:
        return lift(lambda x, y: en.ew(lambda p, q: app(name, p, q), [x, y], st), *args)
    if name in ('clip',) and (len(args) == 3 or (args and ('a_min' in kw or 'a_max' in kw))):
        lo = args[1] if len(args) > 1 else kw.get('a_min', NONE)
        hi = args[2] if len(args) > 2 else kw.get('a_max', NONE)
        if lo is NONE:
            lo = NEGINF
        if hi is NONE:
            hi = POSINF
        return lift(lambda x, l, h: en.ew(lambda p, q, r: T.vmin(T.vmax(p, q), r), [x, l, h], st), a0, lo, hi)
    if name in ('dot', 'matmul', 'inner', 'vdot') and len(args) == 2:
        def g(x, y):
            r = dot(en, x, y, st)
            if r is None:
                return Term('call', (Const('numpy.dot'), en.snap(x, st), en.snap(y, st)), None)
            return r
        return lift(g, *args)
    if name == 'cross' and len(args) == 2:
        def g(x, y):
            ax, ay = asarr(en, x, st), asarr(en, y, st)
            if ax is None or ay is None or ax.shape != (3,) or ay.shape != (3,):
                return _opaque(en, 'numpy.cross', [x, y], {}, st)
            p = [en_num(en, st.heap[ax.sid].f[i], st) for i in ax.idx]
            q = [en_num(en, st.heap[ay.sid].f[i], st) for i in ay.idx]

            def d(i, j):
                return lift(sub, lift(mul, p[i], q[j]), lift(mul, p[j], q[i]))
            kind = ax.kind if ax.kind != 'ndarray' else ay.kind
            return en.newarr([d(1, 2), d(2, 0), d(0, 1)], (3,), 'ndarray', st)
        return lift(g, *args)
    if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'copy'):
        def g(x):
            if isinstance(x, ARef):
                if name in ('asarray', 'asanyarray', 'ascontiguousarray') and not kw:
                    return ARef(x.sid, x.idx, x.shape, 'ndarray' if name != 'asanyarray' else x.kind)
                return en.newarr([st.heap[x.sid].f[i] for i in x.idx], x.shape, 'ndarray', st)
            m = en.usermethod(x, '__array__', st) if isinstance(x, Ref) else None
            if m is not None:
                return g(en.call_user(m, [x], {}, st, None))
            r = toarr(en, x, st)
            if r is None:
                if isinstance(x, Num):
                    return x
                return Term('call', (Const('numpy.array'), en.snap(x, st)), 'ndarray')
            return r
        return lift(g, a0)
    if name in ('eye', 'identity') and isinstance(a0, Num) and a0.const is not None:
        n = int(a0.const)
        return en.newarr([ONE if i == j else ZERO for i in range(n) for j in range(n)], (n, n), 'ndarray', st)
    if name in ('zeros', 'ones', 'empty', 'full'):
        shp = args[0] if args else kw.get('shape')
        s = None
        if isinstance(shp, Num) and shp.const is not None:
            s = (int(shp.const),)
        else:
            it = en.concrete(shp, st)
            if it is not None and all(isinstance(x, Num) and x.const is not None for x in it):
                s = tuple(int(x.const) for x in it)
        if s is not None:
            k = 1
            for x in s:
                k *= x
            if k <= 300:
                fill = {'zeros': ZERO, 'ones': ONE}.get(name)
                if name == 'full':
                    fill = args[1] if len(args) > 1 else kw.get('fill_value', ZERO)
                if name == 'full' and isinstance(fill, (Tup, ARef, Ref)) and not isinstance(fill, Num):
                    e, fs = _elems(en, fill, st)
                    if e is not None:
                        r = _broadcast_to(e, fs, s)
                        if r is None:
                            en.diag('call', st, 'a sequence of shape %s does not fill an array of shape %s' % (fs, s), node)
                            return Term('call', (Const('numpy.full'), en.snap(fill, st)), 'ndarray')
                        return en.newarr(r, s, 'ndarray', st)
                sid = None
                dt = kw.get('dtype', args[1] if len(args) > 1 else None)
                if fill is None and isinstance(dt, Fn) and dt.a == 'object':
                    fill = NONE             # cells of an object array
                if fill is None:
                    sid = en.nobj + 1
                return en.newarr([fill if fill is not None else from_atom(Atom('uninit', (num(sid), num(i)))) for i in range(k)],
                                 s, 'ndarray', st)
        en.draws += 0
        t = Term('call', (Const('numpy.' + name), en.snap(shp, st)) +
                 tuple(en.snap(a, st) for a in args[1:]) , 'ndarray')
        return t
    if name == 'roots' and len(args) == 1:
        e, shp = _elems(en, a0, st) if not isinstance(a0, Ite) else (None, None)
        if e is not None and len(e) == 3:
            A, B, C = [en_num(en, x, st) for x in e]

            def quad(sign):
                def g(a, b, c):
                    d = sub(mul(b, b), mul(num(4), mul(a, c)))
                    s = T.sqrt(d)
                    return div(add(neg(b), s if sign > 0 else neg(s)), mul(num(2), a))
                return lift(g, A, B, C)
            # the order in which numpy returns the two roots is unspecified
            o = T.bvar_node(BVar('rootorder', tuple(en.snap(x, st) for x in e)).id)
            hi, lo = quad(1), quad(-1)
            return en.newarr([T.ite(o, hi, lo), T.ite(o, lo, hi)], (2,), 'ndarray', st)
    if name in ('transpose',):
        return lift(lambda l: transpose(en, l, st), a0)
    if name in ('isnan', 'isinf', 'isfinite'):
        def g(l):
            if isinstance(l, Num) and not l.spec:
                if name == 'isnan':
                    return TRUE if l is sym('nan') or l is T.UNDEF else (FALSE if not en.nan else T.bvar_node(BVar('isnan', (l,)).id))
                if name == 'isinf':
                    return TRUE if T._is_inf(l) else (FALSE if l.const is not None else T.bvar_node(BVar('isinf', (l,)).id))
                return T.bvar_node(BVar('isfinite', (l,)).id)
            if isinstance(l, ARef):
                return en.newarr([g(en_num(en, st.heap[l.sid].f[i], st)) for i in l.idx], l.shape, 'ndarray', st)
            if isinstance(l, Ite):
                return lift(g, l)
            if not en.nan and name == 'isnan':
                return Term('allfalse', (en.snap(l, st),), 'bool')
            return Term('call', (Const('numpy.' + name), en.snap(l, st)), 'boolarr')
        return lift(g, a0)
    if name in ('sum', 'mean') and len(args) + len(kw) == 2 and (args[1] if len(args) > 1 else kw.get('axis')) is num(0) and not isinstance(a0, Ite):
        # along the first axis: items of equal length added component by component
        it = en.concrete(a0, st)
        cols = [_elems(en, x, st) for x in it] if it else []
        if cols and all(c[0] is not None and len(c[0]) == len(cols[0][0]) and not isinstance(x, Num) for c, x in zip(cols, it)):
            if all(c[1] is None or len(c[1]) <= 1 for c in cols):
                tot = [_fold(add, [en_num(en, c[0][i], st) for c in cols]) for i in range(len(cols[0][0]))]
                if name == 'mean':
                    tot = [lift(lambda x: div(x, num(len(cols))), t) for t in tot]
                return en.newarr(tot, (len(tot),), 'ndarray', st)
    if name in ('sum', 'prod', 'min', 'max', 'amin', 'amax', 'mean', 'any', 'all', 'argmax', 'argmin') and len(args) == 1 and not kw:
        return lift(lambda l: reduce_arr(en, name, l, st, node), a0)
    if name in ('float', 'float64', 'float32', 'double', 'float_'):
        return lift(lambda l: en.tonum(l, st) if isinstance(l, (Num, Const, Term)) else _opaque(en, name, [l], {}, st, 'num'), a0) \
            if args else ZERO
    if name in NUMERIC_TYPES:
        if name.startswith('bool'):
            return en.truth(a0, st)
        return lift(lambda l: app('int', en.tonum(l, st)) if isinstance(l, (Num, Const, Term)) else _opaque(en, name, [l], {}, st, 'num'),
                    a0) if args else ZERO
    if name == 'arange' and args and all(isinstance(a, Num) and a.const is not None for a in args):
        b = [a.const for a in args]
        lo, hi, step = (0, b[0], 1) if len(b) == 1 else (b[0], b[1], b[2] if len(b) > 2 else 1)
        if step and -1 < (hi - lo) / step <= 64:
            out = []
            while (lo < hi) if step > 0 else (lo > hi):
                out.append(num(lo))
                lo += step
            return en.newarr(out, (len(out),), 'ndarray', st)
    if name == 'linspace' and len(args) >= 2 and 'endpoint' not in kw and 'dtype' not in kw:
        n = args[2] if len(args) > 2 else kw.get('num', num(50))
        if isinstance(n, Num) and n.const is not None and 1 < n.const <= 64:
            k = int(n.const) - 1
            return en.newarr([lift(lambda p, q: add(mul(num(Fraction(k - i, k)), p), mul(num(Fraction(i, k)), q)),
                                   en_num(en, args[0], st), en_num(en, args[1], st)) for i in range(k + 1)], (k + 1,), 'ndarray', st)
    if name in ('tile', 'repeat') and len(args) == 2 and isinstance(args[1], Num) and args[1].const is not None:
        def g(x):
            ax = asarr(en, x, st)
            n = int(args[1].const)
            if ax is None or len(ax.shape) != 1 or n * len(ax.idx) > 64:
                return _opaque(en, 'numpy.' + name, args, kw, st)
            els = [st.heap[ax.sid].f[i] for i in ax.idx]
            return en.newarr(els * n if name == 'tile' else [x for x in els for _ in range(n)], (n * len(els),), 'ndarray', st)
        return lift(g, a0)
    if name in ('concatenate', 'hstack', 'vstack', 'column_stack', 'stack', 'append') and not (set(kw) - {'axis'}):
        r = _join(en, name, args, kw, st)
        if r is not None:
            return r
    if name in ('cumsum', 'diff') and len(args) == 1 and not kw:
        def g(x):
            ax = asarr(en, x, st)
            if ax is None or len(ax.shape) != 1:
                return _opaque(en, 'numpy.' + name, args, kw, st)
            els = [en_num(en, st.heap[ax.sid].f[i], st) for i in ax.idx]
            if name == 'diff':
                out = [lift(sub, q, p) for p, q in zip(els, els[1:])]
            else:
                out, acc = [], ZERO
                for x in els:
                    acc = lift(add, acc, x)
                    out.append(acc)
            return en.newarr(out, (len(out),), 'ndarray', st)
        return lift(g, a0)
    if name in ('arange',):
        if 1 <= len(args) <= 2 and all(isinstance(a, Num) and not a.spec for a in args):
            lo, hi = (ZERO, args[0]) if len(args) == 1 else args
            return Term('lazy', (LazyBox(lambda k: add(lo, k)), sub(hi, lo)), 'ndarray')
        return Term('range', tuple(en.snap(a, st) for a in args))
    if name == 'ndindex':
        return _ndindex(en, args, st)
    if name in ('isclose',) and len(args) >= 2:
        return T.bvar_node(BVar('isclose', tuple(sorted([en.snap(a, st) for a in args[:2]], key=T.show))).id)
    if name == 'shape' and len(args) == 1 and isinstance(a0, ARef):
        def g(l):
            if isinstance(l, ARef):
                return Tup(num(i) for i in l.shape)
            return Term('shape', (en.snap(l, st),), ('list', 'num'))
        return lift(g, a0)
    if name == 'det' and len(args) == 1:
        def g(l):
            if isinstance(l, ARef) and l.shape in ((2, 2), (3, 3)):
                e = [en_num(en, st.heap[l.sid].f[i], st) for i in l.idx]
                return lift(_det, *e)
            return _opaque(en, 'numpy.linalg.det', [l], {}, st, 'num')
        return lift(g, a0)
    if name == 'solve' and len(args) == 2:
        def g(x, y):
            ax, ay = asarr(en, x, st), asarr(en, y, st)
            if ax is None or ay is None or ax.shape not in ((2, 2), (3, 3)) or ay.shape != ax.shape[:1]:
                return _opaque(en, 'numpy.linalg.solve', [x, y], {}, st)
            n = ax.shape[0]
            e = [en_num(en, st.heap[ax.sid].f[i], st) for i in ax.idx]
            b = [en_num(en, st.heap[ay.sid].f[i], st) for i in ay.idx]
            d = lift(_det, *e)
            singular = lift(lambda l: rel('eq', l), d)
            if en.tries:
                en.tries[-1].append(T.band(st.rel, singular))
            st.rel = T.band(st.rel, T.bnot(singular))
            out = []
            for k in range(n):
                m = [b[i // n] if i % n == k else e[i] for i in range(n * n)]
                out.append(lift(lambda t, u: T.div(t, u) if u is not ZERO else ZERO, lift(_det, *m), d))
            return en.newarr(out, (n,), 'ndarray', st)
        return lift(g, *args)
    if name == 'array_equal' and len(args) == 2:
        def g(x, y):
            ax, ay = asarr(en, x, st), asarr(en, y, st)
            if ax is not None and ay is not None:
                return en.arreq(ax, ay, st)
            return T.bvar_node(BVar(name, tuple(sorted([en.snap(a, st) for a in (x, y)], key=T.show))).id)
        return lift(g, *args)
    if name in ('allclose', 'array_equal') and len(args) >= 2:
        return T.bvar_node(BVar(name, tuple(sorted([en.snap(a, st) for a in args[:2]], key=T.show))).id)
    if name == 'where' and len(args) == 3:
        def g(c, x, y):
            if c in (TRUE, FALSE):
                return x if c is TRUE else y
            return _opaque(en, 'numpy.where', [c, x, y], {}, st)
        return lift(g, *args)
    if name == 'inv' and len(args) == 1:
        def g(l):
            if isinstance(l, ARef) and len(l.shape) == 2 and l.shape[0] == l.shape[1]:
                els = [st.heap[l.sid].f[i] for i in l.idx]
                src = _matinv_source(els)
                if src is not None:
                    return en.newarr(list(src.items), l.shape, 'ndarray', st)
                r = inverse_mat(en, l, st)
                if r is not None:
                    return r
            return _opaque(en, 'numpy.linalg.inv', [l], {}, st)
        return lift(g, a0)
    if name == 'norm' and len(args) == 1 and not kw:
        def g(l):
            if isinstance(l, ARef):
                els = [en_num(en, st.heap[l.sid].f[i], st) for i in l.idx]
                return lift(lambda *xs: T.sqrt(_sumsq(xs)), *els)
            return _opaque(en, 'numpy.linalg.norm', [l], {}, st, 'num')
        return lift(g, a0)
    if name in ('sign',):
        return lift(lambda l: ite(rel('lt', en.tonum(l, st)), num(-1), ite(rel('eq', en.tonum(l, st)), ZERO, ONE))
                    if isinstance(l, Num) else _opaque(en, name, [l], {}, st), a0)
    if name == 'searchsorted' and len(args) >= 2:
        side = kw.get('side', args[2] if len(args) > 2 else Const('left'))

        def g(l, x):
            ax = asarr(en, l, st)
            if ax is None or len(ax.shape) != 1 or len(ax.idx) > 8 or not isinstance(side, Const) or not isinstance(x, Num):
                return _opaque(en, 'numpy.searchsorted', args, kw, st, 'num')
            els = [en_num(en, st.heap[ax.sid].f[i], st) for i in ax.idx]
            out = num(len(els))
            for i in range(len(els) - 1, -1, -1):
                c = T.lift(lambda e: rel('le' if side.v == 'left' else 'lt', T.sub(x, e)), els[i])
                out = T.ite(c, num(i), out)
            return out
        return lift(g, *args[:2])
    if name in ('argsort', 'sort') and len(args) == 1 and not kw:
        def g(l):
            e, s = _elems(en, l, st)
            if e is None or len(s) != 1 or len(e) > 4 or not all(isinstance(x, (Num, Ite)) for x in e):
                return _opaque(en, 'numpy.' + name, args, kw, st)
            els = [en_num(en, x, st) for x in e]
            n = len(els)
            # position of each element: those that come before it (ties keep their order)
            before = [[None if i == j else lift(lambda x, y: rel('le' if j < i else 'lt', sub(y, x)), els[i], els[j]) for j in range(n)]
                      for i in range(n)]

            def at(k, i):
                """element i stands at position k"""
                acc = {0: TRUE}
                for j in range(n):
                    if j == i:
                        continue
                    b = before[i][j]
                    nx = {}
                    for c, g_ in acc.items():
                        nx[c] = bor(nx.get(c, FALSE), band(g_, bnot(b)))
                        nx[c + 1] = bor(nx.get(c + 1, FALSE), band(g_, b))
                    acc = nx
                return acc.get(k, FALSE)
            out = []
            for k in range(n):
                r = num(n - 1) if name == 'argsort' else els[n - 1]
                for i in range(n - 2, -1, -1):
                    r = T.ite(at(k, i), num(i) if name == 'argsort' else els[i], r)
                out.append(r)
            return en.newarr(out, (n,), 'ndarray', st)
        return lift(g, a0)
    if name == 'trapz' and len(args) in (1, 2) and not kw:
        def g(y, *x):
            ey, sy = _elems(en, y, st)
            ex, sx = _elems(en, x[0], st) if x else (None if ey is None else [num(i) for i in range(len(ey))], sy)
            if ey is None or ex is None or len(sy) != 1 or sx != sy:
                return _opaque(en, 'numpy.trapz', args, kw, st, 'num')
            a, b = [en_num(en, v, st) for v in ey], [en_num(en, v, st) for v in ex]
            r = ZERO
            for i in range(len(a) - 1):
                r = lift(lambda q, p0, p1, x0, x1: add(q, mul(mul(num(Fraction(1, 2)), add(p0, p1)), sub(x1, x0))), r, a[i], a[i + 1], b[i], b[i + 1])
            return r
        return lift(g, *args)
    if name in ('ndim', 'shape') and len(args) == 1:
        def g(l):
            if isinstance(l, Num) and not l.spec:
                return ZERO if name == 'ndim' else Tup(())
            e, s = _elems(en, l, st)
            if e is None:
                return Term('shape', (en.snap(l, st),), ('list', 'num')) if name == 'shape' else _opaque(en, 'numpy.ndim', args, kw, st, 'num')
            return num(len(s)) if name == 'ndim' else Tup(num(i) for i in s)
        return lift(g, a0)
    if name == 'ndarray' and len(args) == 1 and not kw:
        # the argument is a shape
        e, s = _elems(en, a0, st) if not isinstance(a0, Ite) else (None, None)
        if e is not None and any(isinstance(x, Num) and (x.const is None or x.const.denominator != 1) for x in e):
            en.diag('call', st, 'numpy.ndarray is given values where it expects a shape', node)
    if name in ('count_nonzero', 'size', 'ndim', 'argsort', 'searchsorted'):
        if name == 'size' and isinstance(a0, ARef):
            return num(len(a0.idx))
        return _opaque(en, 'numpy.' + name, args, kw, st, 'num' if name != 'argsort' else None)
    if name in ('fill_diagonal', 'copyto', 'put'):
        en.event('setitem', st, (a0, NONE, args[1] if len(args) > 1 else NONE, TRUE), node)
        return NONE
    return None


def _join(en, name, args, kw, st):
    parts = list(args) if name == 'append' else en.concrete(a0, st) if (a0 := args[0]) is not None and not isinstance(a0, ARef) else None
    axis = kw.get('axis', args[1] if len(args) > 1 and name in ('concatenate', 'stack') else num(0))
    if name == 'append' and len(args) != 2:
        return None
    if parts is None or not isinstance(axis, Num) or axis.const is None or any(isinstance(p, Ite) for p in parts):
        return None
    arrs = []
    for p in parts:
        if isinstance(p, Num) and name in ('hstack', 'append'):
            arrs.append(([p], (1,)))
            continue
        a = asarr(en, p, st)
        if a is None:
            return None
        arrs.append(([st.heap[a.sid].f[i] for i in a.idx], a.shape))
    if not arrs or sum(len(e) for e, _ in arrs) > 256:
        return None
    k = int(axis.const)
    shapes = [s for _, s in arrs]
    if name in ('column_stack', 'stack'):
        if any(len(s) != 1 or s != shapes[0] for s in shapes):
            if name == 'stack':
                return None
        else:
            n = shapes[0][0]
            if name == 'stack' and k == 0:
                return en.newarr([x for e, _ in arrs for x in e], (len(arrs), n), 'ndarray', st)
            return en.newarr([e[i] for i in range(n) for e, _ in arrs], (n, len(arrs)), 'ndarray', st)
        k = 1
    if name == 'vstack':
        arrs = [(e, s if len(s) == 2 else (1,) + s) for e, s in arrs]
        k = 0
    if name == 'hstack':
        k = 0 if len(shapes[0]) == 1 else 1
    shapes = [s for _, s in arrs]
    if all(len(s) == 1 for s in shapes) and k == 0:
        out = [x for e, _ in arrs for x in e]
        return en.newarr(out, (len(out),), 'ndarray', st)
    if all(len(s) == 2 for s in shapes):
        if k == 0 and len({s[1] for s in shapes}) == 1:
            return en.newarr([x for e, _ in arrs for x in e], (sum(s[0] for s in shapes), shapes[0][1]), 'ndarray', st)
        if k in (1, -1) and len({s[0] for s in shapes}) == 1:
            out = []
            for r in range(shapes[0][0]):
                for e, s in arrs:
                    out.extend(e[r * s[1]:(r + 1) * s[1]])
            return en.newarr(out, (shapes[0][0], sum(s[1] for s in shapes)), 'ndarray', st)
    return None


# exchanges through which every order of 2, 3 or 4 items can be reached
_SWAPS = {1: [], 2: [(0, 1)], 3: [(0, 1), (1, 2), (0, 1)], 4: [(0, 1), (2, 3), (0, 2), (1, 3), (1, 2)]}


def _shuffle(en, a0, st, node):
    """random.shuffle: an arbitrary permutation of the rows"""
    en.event('setitem', st, (a0, NONE, NONE, TRUE), node)
    if isinstance(a0, ARef) and a0.shape[0] in _SWAPS:
        n = a0.shape[0]
        w = len(a0.idx) // n
        f = list(st.heap[a0.sid].f)
        for k, (i, j) in enumerate(_SWAPS[n]):
            c = T.bvar_node(BVar('choice', (num(en.draws), num(k))).id)
            for q in range(w):
                p, r = a0.idx[i * w + q], a0.idx[j * w + q]
                f[p], f[r] = ite(c, f[r], f[p]), ite(c, f[p], f[r])
        from .gvn import HObj
        h = st.heap[a0.sid]
        st.heap[a0.sid] = HObj(h.kind, h.cls, f, h.symbolic, h.exact)
        return NONE
    if isinstance(a0, Ref) and st.heap.get(a0.id) is not None and st.heap[a0.id].kind == 'list' and len(st.heap[a0.id].f) in _SWAPS:
        h = st.heap[a0.id]
        f = list(h.f)
        for k, (i, j) in enumerate(_SWAPS[len(f)]):
            c = T.bvar_node(BVar('choice', (num(en.draws), num(k))).id)
            f[i], f[j] = ite(c, f[j], f[i]), ite(c, f[i], f[j])
        from .gvn import HObj
        st.heap[a0.id] = HObj('list', h.cls, f, h.symbolic, h.exact)
        return NONE
    if isinstance(a0, ARef):
        from .gvn import HObj
        h = st.heap[a0.sid]
        f = list(h.f)
        for i in a0.idx:
            f[i] = from_atom(Atom('iter', (num(en.draws), num(i))))
        st.heap[a0.sid] = HObj(h.kind, h.cls, f, h.symbolic, h.exact)
    return NONE


def _det(*e):
    if len(e) == 4:
        return sub(mul(e[0], e[3]), mul(e[1], e[2]))

    def m(a, b, c, d):
        return sub(mul(a, d), mul(b, c))
    return add(sub(mul(e[0], m(e[4], e[5], e[7], e[8])), mul(e[1], m(e[3], e[5], e[6], e[8]))),
               mul(e[2], m(e[3], e[4], e[6], e[7])))


def _sumsq(xs):
    acc = ZERO
    for x in xs:
        acc = add(acc, mul(x, x))
    return acc


def _npow(a, b):
    from .gvn import npow
    return npow(a, b)


def _ndindex(en, args, st):
    import itertools
    dims = None
    if len(args) == 1 and not isinstance(args[0], Num):
        dims = en.concrete(args[0], st)
    else:
        dims = list(args)
    if dims is not None and all(isinstance(d, Num) and d.const is not None for d in dims):
        rs = [range(int(d.const)) for d in dims]
        n = 1
        for r in rs:
            n *= len(r)
        if n <= 64:
            return Tup(Tup(num(i) for i in c) for c in itertools.product(*rs))
    return Term('ndindex', tuple(en.snap(a, st) for a in args), ('list', ('seq', ('num',) * (len(dims) if dims else 1))))


class LazyBox(object):
    """element function of an array of symbolic length"""

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return '<elements>'


def is_lazy(l):
    return isinstance(l, Term) and l.op == 'lazy'


def lazy_ew(f, ls, en, st):
    for a in ls:
        if isinstance(a, ARef) or isinstance(a, (Ref, Tup)):
            return Term('call', (Const('numpy.ufunc'),) + tuple(en.snap(x, st) for x in ls if not is_lazy(x)), 'ndarray')
    n = [a.args[1] for a in ls if is_lazy(a)][0]
    fs = [a.args[0].f if is_lazy(a) else (lambda v: lambda k: v)(en.tonum(a, st)) for a in ls]
    return Term('lazy', (LazyBox(lambda k: lift(f, *[g(k) for g in fs])), n), 'ndarray')


def lazy_item(l, i):
    neg_ = T.rel('lt', i)
    f, n = l.args[0].f, l.args[1]
    if neg_ is T.FALSE:
        return f(i)
    return T.ite(neg_, f(add(n, i)), f(i))


def _numish(en, l, st):
    if is_lazy(l):
        return True
    if isinstance(l, (Num, ARef)):
        return True
    if isinstance(l, Const):
        return True
    if isinstance(l, Term) and l.ty not in ('ndarray', 'boolarr'):
        return True
    return False


def _arrterm(en, name, args, st):
    a = asarr(en, args[0], st)
    if a is not None:
        op = UNARY.get(name, name)
        f = T.sqrt if name == 'sqrt' else (T.absolute if name in ('fabs', 'abs', 'absolute') else (lambda n: app(op, n)))
        return en.ew(f, [a], st)
    return Term('call', (Const('numpy.' + name),) + tuple(en.snap(x, st) for x in args), 'ndarray')


def transpose(en, l, st):
    if isinstance(l, ARef) and len(l.shape) == 2:
        n, m = l.shape
        return ARef(l.sid, tuple(l.idx[i * m + j] for j in range(m) for i in range(n)), (m, n), l.kind)
    if isinstance(l, ARef):
        return l
    return Term('call', (Const('numpy.transpose'), en.snap(l, st)), 'ndarray')


def reduce_arr(en, name, l, st, node):
    if isinstance(l, Num) and l.spec and name in ('any', 'all', 'sum', 'min', 'max', 'mean', 'amin', 'amax'):
        if name in ('any', 'all'):
            return T.bvar_node(BVar('np' + name, (l,)).id)
        return from_atom(Atom('np' + name, (l,)))
    if isinstance(l, (Num,)):
        return l if name not in ('any', 'all') else en.truth(l, st)
    if isinstance(l, Const) and l.v in (True, False):
        return l
    if isinstance(l, Term) and l.op == 'allfalse':
        return FALSE
    e, _ = _elems(en, l, st)
    if e is not None and e:
        if name in ('any', 'all'):
            acc = FALSE if name == 'any' else TRUE
            for x in e:
                t = en.truth(x, st)
                acc = bor(acc, t) if name == 'any' else band(acc, t)
            return acc
        ns = [en_num(en, x, st) for x in e]
        if name == 'sum':
            return _fold(add, ns)
        if name == 'prod':
            return _fold(mul, ns)
        if name == 'mean':
            return lift(lambda x: div(x, num(len(ns))), _fold(add, ns))
        if name in ('min', 'amin'):
            return lift(lambda *a: T.vmin(*a), *ns)
        if name in ('max', 'amax'):
            return lift(lambda *a: T.vmax(*a), *ns)
        if name in ('argmax', 'argmin'):
            r = num(len(ns) - 1)
            best = ns[-1]
            for k in range(len(ns) - 2, -1, -1):
                c = lift(lambda p, q: rel('le', sub(q, p)), ns[k], best) if name == 'argmax' else \
                    lift(lambda p, q: rel('le', sub(p, q)), ns[k], best)
                r = ite(c, num(k), r)
                best = ite(c, ns[k], best)
            return r
    if name in ('any', 'all'):
        return T.bvar_node(BVar('np' + name, (en.snap(l, st),)).id)
    return from_atom(Atom('np' + name, (en.snap(l, st),)))


# ------------------------------------------------------------------ builtins
def builtin(en, name, args, kw, st, node):
    a0 = args[0] if args else None
    if name == 'len':
        en.needs(a0, 'has no length', st, node)

        def g(l):
            if isinstance(l, Const) and isinstance(l.v, str):
                return num(len(l.v))
            m = en.usermethod(l, '__len__', st)
            if m is not None:
                return en.call_user(m, [l], {}, st, node)
            it = en.concrete(l, st, True) if not isinstance(l, Term) else None
            if it is not None:
                return num(len(it)) if isinstance(l, ARef) else en.count(it)
            return from_atom(Atom('len', (en.snap(l, st),)))
        return lift(g, a0)
    if name == 'range':
        return Term('range', tuple(en.snap(a, st) for a in args)) if not any(isinstance(a, Ite) for a in args) \
            else lift(lambda *x: Term('range', tuple(x)), *args)
    if name == 'enumerate':
        return lift(lambda l: Term('enumerate', (l,)), a0)
    if name == 'zip':
        return lift(lambda *l: Term('zip', tuple(l)), *args)
    if name == 'reversed':
        it = en.concrete(a0, st)
        if it is not None:
            return Tup(reversed(it))
        return Term('reversed', (en.snap(a0, st),), getattr(a0, 'ty', None))
    if name in ('list', 'tuple', 'sorted', 'set', 'iter', 'frozenset'):
        if not args:
            return en.newlist([], st) if name == 'list' else Tup(())
        it = en.concrete(a0, st) if not isinstance(a0, Ite) else None
        if it is not None and name in ('list', 'tuple', 'iter'):
            return en.newlist(it, st) if name == 'list' else Tup(it)
        return Term(name, (en.snap(a0, st),), getattr(a0, 'ty', None))
    if name in ('min', 'max'):
        if len(args) == 1 and not kw:
            def g(l):
                it = en.concrete(l, st)
                if it:
                    ns = [en_num(en, x, st) for x in it]
                    return lift(lambda *x: (T.vmin if name == 'min' else T.vmax)(*x), *ns)
                return from_atom(Atom('np' + name, (en.snap(l, st),)))
            return lift(g, a0)
        if not kw:
            ns = [en_num(en, x, st) for x in args]
            return lift(lambda *x: (T.vmin if name == 'min' else T.vmax)(*x), *ns)
        return _opaque(en, name, args, {}, st)
    if name == 'abs':
        def g(l):
            m = en.usermethod(l, '__abs__', st)
            if m is not None:
                return en.call_user(m, [l], {}, st, node)
            return en.ew(T.absolute, [l], st)
        return lift(g, a0)
    if name == 'pow':
        return lift(lambda x, y: en.ew(_npow, [x, y], st), *args[:2])
    if name == 'float':
        return lift(lambda l: en.tonum(l, st) if not isinstance(l, ARef) else en.tonum(st.heap[l.sid].f[l.idx[0]], st)
                    if len(l.idx) == 1 else en.tonum(l, st), a0) if args else ZERO
    if name == 'int':
        return lift(lambda l: app('int', en.tonum(l, st)), a0) if args else ZERO
    if name == 'round':
        return lift(lambda l: app('round', en.tonum(l, st)), a0)
    if name == 'bool':
        return en.truth(a0, st) if args else FALSE
    if name == '_ch':
        # one channel of a spectrum as a plain number (spec intrinsic)
        return lift(lambda x: (lambda t: Num(t.terms, False))(en.tonum(x, st)), args[0])
    if name == '_D':
        from . import deriv
        xa = args[1].atoms()[0] if isinstance(args[1], Num) and not isinstance(args[1].atoms(), (set, frozenset)) else list(args[1].atoms())[0]
        try:
            return deriv.d(en.tonum(a0, st) if not isinstance(a0, Ite) else a0, xa)
        except deriv.NoDerivative as e:
            return from_atom(Atom('first', (Const('no derivative %s' % e), args[0], args[1])))
    if name == 'isinstance':
        return lift(lambda l, c: isinst(en, l, c, st), a0, args[1])
    if name == 'issubclass':
        return T.bvar_node(BVar('issubclass', (en.snap(a0, st), en.snap(args[1], st))).id)
    if name == 'sum':
        it = en.concrete(a0, st) if not isinstance(a0, Ite) else None
        if it is not None:
            acc = args[1] if len(args) > 1 else ZERO
            for x in it:
                acc = en.binop(ast.Add(), acc, x, st, node)
            return acc
        return from_atom(Atom('npsum', (en.snap(a0, st),)))
    if name in ('any', 'all'):
        it = en.concrete(a0, st) if not isinstance(a0, Ite) else None
        if it is not None:
            acc = FALSE if name == 'any' else TRUE
            for x in it:
                t = en.truth(x, st)
                acc = bor(acc, t) if name == 'any' else band(acc, t)
            return acc
        return lift(lambda l: T.bvar_node(BVar('py' + name, (en.snap(l, st),)).id), a0)
    if name == 'super':
        if len(args) == 2 and isinstance(args[0], Fn):
            return Fn('super', args[0].a, args[1])
    if name in ('hasattr',):
        def g(l):
            nm = args[1].v if isinstance(args[1], Const) else None
            if nm in ('__iter__', '__len__', '__getitem__'):
                if isinstance(l, Num) and not l.spec:
                    return FALSE
                if isinstance(l, (ARef, Tup)):
                    return TRUE
            return T.bvar_node(BVar('hasattr', (en.snap(l, st), args[1])).id)
        if not (isinstance(a0, Ref)):
            return lift(g, a0)
        return T.bvar_node(BVar('hasattr', (en.snap(a0, st), args[1])).id)
    if name == 'getattr':
        if isinstance(args[1], Const) and isinstance(args[1].v, str) and len(args) == 2:
            return en.getattr(a0, args[1].v, st, node)
        return Term('getattr', tuple(en.snap(a, st) for a in args))
    if name == 'type':
        def g(l):
            c = en.leafcls(l, st)
            if isinstance(c, ClassInfo):
                if isinstance(l, Ref) and st.heap.get(l.id) is not None and not st.heap[l.id].exact:
                    return Term('typeof', (en.snap(l, st),))
                return Fn('cls', c)
            return Term('typeof', (en.snap(l, st),))
        return lift(g, a0)
    if name == 'callable':
        return TRUE if isinstance(a0, Fn) else T.bvar_node(BVar('callable', (en.snap(a0, st),)).id)
    if name == 'print':
        en.event('print', st, tuple(args), node)
        return NONE
    if name in ('str', 'repr', 'format', 'chr', 'hex'):
        return Term('str', tuple(en.snap(a, st) for a in args), 'str')
    if name == 'id' and len(args) == 1:
        def g(x):
            h = st.heap.get(x.id) if isinstance(x, Ref) else None
            if h is not None and not h.symbolic and x.id.startswith('#'):
                return num(int(x.id[1:].split(':')[0]))     # addresses grow in order of creation
            return Term('id', (en.snap(x, st),), 'num')
        return lift(g, a0)
    if name in ('hash', 'ord'):
        return _opaque(en, name, args, kw, st, 'num')
    if name == 'divmod':
        return Tup((app('floordiv', args[0], args[1]), app('mod', args[0], args[1])))
    if name == 'map':
        def g(it):
            c = en.concrete(it, st)
            if c is None:
                return Term('map', (en.snap(args[0], st), en.snap(it, st)))
            return Tup(en.call(args[0], [x], {}, st, node) for x in c)
        if len(args) == 2:
            return lift(g, args[1])
    if name == 'filter' and len(args) == 2:
        return Term('filter', (en.snap(args[0], st), en.snap(args[1], st)), getattr(args[1], 'ty', None))
    if name == 'next':
        return Term('next', (en.snap(a0, st),))
    if name == 'slice':
        return Tup((Const('slice'),) + tuple(args) + (NONE,) * (3 - len(args)))
    return Term('call', (Const(name),) + tuple(en.snap(a, st) for a in args))


def isinst(en, l, c, st):
    if isinstance(c, Tup):
        acc = FALSE
        nm = {x.a.split('.')[-1] for x in c.items if isinstance(x, Fn) and x.kind in ('builtin', 'ext')}
        if isinstance(l, Num) and not l.spec and 'float' in nm and nm & {'int', 'integer', 'int64'}:
            return TRUE         # a number is one or the other
        for x in c.items:
            acc = bor(acc, isinst(en, l, x, st))
        return acc
    if isinstance(c, Fn) and c.kind == 'cls':
        lc = en.leafcls(l, st)
        if isinstance(lc, ClassInfo):
            if lc.is_sub(c.a):
                return TRUE
            exact = True
            if isinstance(l, Ref):
                exact = st.heap[l.id].exact
            elif isinstance(l, Term):
                exact = False
            if exact:
                return FALSE
            # possible only when a common subclass exists
            subs = [lc] + list(en.p.subclasses(lc))
            if not any(s.is_sub(c.a) for s in subs):
                return FALSE
            return T.bvar_node(BVar('isinst', (_key(en, l, st), Const(c.a.name))).id)
        if lc == 'spec':
            if c.a is en.spec_default():
                return TRUE
            return T.bvar_node(BVar('isinst', (_key(en, l, st), Const(c.a.name))).id) if c.a in en.spec_cls and \
                c.a.name not in ('CoefficientSpectrum',) else Const(c.a in en.spec_cls)
        if isinstance(l, (Num, Const, Tup)):
            return FALSE
        if isinstance(l, (Ref, ARef)):
            return FALSE
        return T.bvar_node(BVar('isinst', (_key(en, l, st), Const(c.a.name))).id)
    if isinstance(c, Fn) and c.kind in ('builtin', 'ext'):
        n = c.a.split('.')[-1]
        if isinstance(l, Num):
            if l.spec:
                return Const(n == 'ndarray')
            if n in ('float', 'int', 'integer', 'number', 'floating', 'float64', 'float32', 'Number', 'uint32', 'int64'):
                return T.bvar_node(BVar('isinst', (l, Const(n))).id)
            return FALSE
        if isinstance(l, Const):
            return Const(type(l.v).__name__ == n)
        if isinstance(l, Term) and l.op == 'str':
            return Const(n in ('str', 'Iterable', 'Sequence'))
        if isinstance(l, Tup):
            return Const(n in ('tuple', 'Iterable', 'Sequence'))
        if isinstance(l, ARef):
            return Const(n == (l.kind if l.kind == 'quaternion' else 'ndarray') or n == 'Iterable')
        if isinstance(l, Ref):
            h = st.heap.get(l.id)
            if h is not None and h.kind == 'list':
                return Const(n in ('list', 'Iterable', 'Sequence'))
            if h is not None and h.kind == 'dict':
                return Const(n in ('dict', 'Iterable'))
        return T.bvar_node(BVar('isinst', (_key(en, l, st), Const(n))).id)
    return T.bvar_node(BVar('isinst', (_key(en, l, st), en.snap(c, st))).id)


def _key(en, l, st):
    return l if isinstance(l, (Ref, Term, Num)) else en.snap(l, st)


LISTMETH = {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'sort', 'reverse', 'index', 'count', 'copy'}


def bmeth(en, recv, kind, name, args, kw, st, node):
    if kind == 'lazy':
        if name == 'astype' and args and intdtype(en, args[0]):
            return lazy_ew(lambda x: app('int', x), [recv], en, st)
        return recv
    from .gvn import HObj
    if kind == 'list' and isinstance(recv, Ref):
        h = st.heap[recv.id]
        if name not in LISTMETH and not name.startswith('__'):
            en.diag('attr', st, "'list' object has no attribute '%s'" % name, node)
        if name == 'append':
            st.heap[recv.id] = HObj('list', None, list(h.f) + [args[0]])
            return NONE
        if name == 'extend':
            it = en.concrete(args[0], st, True) if not isinstance(args[0], Ite) else None
            if it is not None:
                st.heap[recv.id] = HObj('list', None, list(h.f) + it)
            else:
                st.heap[recv.id] = HObj('list', None, list(h.f) + [Term('star', (en.snap(args[0], st),))])
            return NONE
        if name == 'pop' and en.gated(h.f) and (not args or isinstance(args[0], Num) and args[0].const == -1):
            v = Term('pop', (en.snap(recv, st),))
            later, l = FALSE, []
            for x in h.f:
                c = en.present(x)
                if c is not FALSE:
                    v = ite(c, x if c is TRUE else T.restrict(x, c), v)
            for x in reversed(h.f):
                l.append(ite(later, x, UNBOUND))
                later = bor(later, en.present(x))
            while l and l[0] is UNBOUND:
                l.pop(0)
            st.heap[recv.id] = HObj('list', None, l[::-1])
            return v
        if name == 'pop' and not en.gated(h.f):
            if h.f and (not args or (isinstance(args[0], Num) and args[0].const is not None and
                                     -len(h.f) <= args[0].const < len(h.f))):
                l = list(h.f)
                v = l.pop(*[int(a.const) for a in args])
                st.heap[recv.id] = HObj('list', None, l)
                return v
            if not h.f:
                if en.tries:
                    st.rel = FALSE
                else:
                    en.diag('index', st, 'pop from an empty list', node)
                return Term('oob', (num(-1),))
            return Term('pop', (en.snap(recv, st),))
        if name == 'insert' and not en.gated(h.f) and isinstance(args[0], Num) and args[0].const is not None:
            l = list(h.f)
            l.insert(int(args[0].const), args[1])
            st.heap[recv.id] = HObj('list', None, l)
            return NONE
        if name == 'clear':
            st.heap[recv.id] = HObj('list', None, [])
            return NONE
        if name == 'copy':
            return en.newlist(list(h.f), st)
        if name in ('sort', 'reverse'):
            if name == 'reverse':
                st.heap[recv.id] = HObj('list', None, list(reversed(h.f)))
            return NONE
        if name in ('index', 'count'):
            return _opaque(en, 'list.' + name, [recv] + args, kw, st, 'num')
        return Term('call', (Const('list.' + name), en.snap(recv, st)) + tuple(en.snap(a, st) for a in args))
    if kind == 'dict' and isinstance(recv, Ref):
        h = st.heap[recv.id]
        if name == 'get' and args and args[0] in h.f:
            return h.f[args[0]]
        if name == 'items':
            return Tup(Tup((k, v)) for k, v in h.f.items())
        if name == 'keys':
            return Tup(h.f.keys())
        if name == 'values':
            return Tup(h.f.values())
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            return Term('dictget', (en.snap(recv, st), en.snap(args[0], st), en.snap(d, st)))
        return Term('call', (Const('dict.' + name), en.snap(recv, st)) + tuple(en.snap(a, st) for a in args))
    if kind == 'tuple':
        if name in ('index', 'count'):
            return _opaque(en, 'tuple.' + name, [recv] + args, kw, st, 'num')
        if not name.startswith('__'):
            en.diag('attr', st, "'tuple' object has no attribute '%s'" % name, node)
        return Term('call', (Const('tuple.' + name), en.snap(recv, st)))
    if kind == 'str':
        if not hasattr(str, name):
            en.diag('attr', st, "'str' object has no attribute '%s'" % name, node)
        if isinstance(recv, Const) and isinstance(recv.v, str) and not kw and all(isinstance(a, Const) for a in args) and \
                name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'lstrip', 'rstrip', 'capitalize', 'title', 'replace', 'isdigit'):
            try:
                return Const(getattr(recv.v, name)(*[a.v for a in args]))
            except (TypeError, ValueError):
                pass
        if name == 'format' and isinstance(recv.v, str):
            import string
            try:
                need = -1
                auto = 0
                for _, f, _, _ in string.Formatter().parse(recv.v):
                    if f is None:
                        continue
                    head = f.split('.')[0].split('[')[0]
                    if head == '':
                        need = max(need, auto)
                        auto += 1
                    elif head.isdigit():
                        need = max(need, int(head))
                    elif head not in kw:
                        en.diag('format', st, "format string needs keyword '%s'" % head, node)
                if need >= len(args):
                    en.diag('format', st, 'format string needs %d arguments, %d given' % (need + 1, len(args)), node)
            except ValueError as x:
                en.diag('format', st, 'malformed format string: %s' % x, node)
        return Term('str', (recv, Const(name)) + tuple(en.snap(a, st) for a in args), 'str')
    return Term('call', (Const('%s.%s' % (kind, name)), en.snap(recv, st)) + tuple(en.snap(a, st) for a in args))


# ------------------------------------------------------------------- arrays
def arr_attr(en, l, name, st, node):
    if l.kind == 'quaternion' and len(l.idx) == 4:
        if name in ('w', 'x', 'y', 'z'):
            return st.heap[l.sid].f[l.idx['wxyz'.index(name)]]
        if name == 'components':
            return ARef(l.sid, l.idx, l.shape, 'ndarray')
    if name == 'T':
        return transpose(en, l, st)
    if name == 'shape':
        return Tup(num(i) for i in l.shape)
    if name == 'size':
        return num(len(l.idx))
    if name == 'ndim':
        return num(len(l.shape))
    if name == 'dtype' and l.kind == 'ndarray':
        els = [st.heap[l.sid].f[i] for i in l.idx]
        if all(isinstance(x, Num) and not x.spec for x in els):
            return Fn('dtype', 'float')
        if any(isinstance(x, Ref) for x in els):
            return Fn('dtype', 'object')
    if name in ('dtype', 'base', 'real', 'imag', 'flat', 'data', 'nbytes', 'itemsize', 'strides', 'ctypes'):
        if name == 'flat' and not isinstance(l.kind, ClassInfo):
            return l
        return Term('attr', (en.snap(l, st), Const(name)))
    if name == 'flags':
        return Fn('arrflags', l)
    if name == '__class__' and isinstance(l.kind, ClassInfo):
        return Fn('cls', l.kind)
    if l.kind == 'quaternion' and name in ('normalized', 'norm', 'abs', 'conjugate'):
        return Fn('arrmeth', l, name)
    if name not in NDARRAY_NAMES and not name.startswith('__'):
        en.diag('attr', st, "'%s' has no attribute '%s'" % (l.kind.name if isinstance(l.kind, ClassInfo) else 'ndarray', name), node)
        return Term('attr', (en.snap(l, st), Const(name)))
    return Fn('arrmeth', l, name)


def arr_method(en, l, name, args, kw, st, node):
    if name == 'trace' and not args:
        return call(en, 'numpy.trace', [l], {}, st, node)
    if l.kind == 'quaternion' and len(l.idx) == 4 and not args:
        e = [en_num(en, st.heap[l.sid].f[i], st) for i in l.idx]
        n2 = _fold(add, [lift(mul, x, x) for x in e])
        if name == 'normalized':
            return en.newarr([lift(lambda p, q: div(p, T.sqrt(q)) if q is not ZERO else sym('nan'), x, n2) for x in e], (4,), 'quaternion', st)
        if name in ('norm', 'abs'):
            return n2 if name == 'norm' else lift(T.sqrt, n2)
        if name == 'conjugate':
            return en.newarr([e[0]] + [lift(neg, x) for x in e[1:]], (4,), 'quaternion', st)
    if name == 'dot':
        def g(y):
            r = dot(en, l, y, st)
            if r is None:
                return Term('call', (Const('numpy.dot'), en.snap(l, st), en.snap(y, st)))
            if isinstance(r, ARef) and isinstance(l.kind, ClassInfo) and r.shape == (3,):
                return r
            return r
        return lift(g, args[0])
    if name in ('copy', '__copy__', '__deepcopy__'):
        return en.newarr([st.heap[l.sid].f[i] for i in l.idx], l.shape, l.kind, st)
    if name == 'astype':
        els = [st.heap[l.sid].f[i] for i in l.idx]
        if args and intdtype(en, args[0]):
            els = [lift(lambda x: app('int', x) if isinstance(x, Num) and not x.spec else x, x) for x in els]
        return en.newarr(els, l.shape, l.kind, st)
    if name == 'view':
        if args and isinstance(args[0], Fn) and args[0].kind == 'cls':
            return ARef(l.sid, l.idx, l.shape, args[0].a)
        if args and isinstance(args[0], Fn) and args[0].a == 'numpy.ndarray':
            return ARef(l.sid, l.idx, l.shape, 'ndarray')
        return l
    if name in ('sum', 'prod', 'min', 'max', 'mean', 'any', 'all', 'argmax', 'argmin'):
        if not args and not kw:
            return reduce_arr(en, name, l, st, node)
        return _opaque(en, 'numpy.' + name, [l] + args, kw, st)
    if name in ('flatten', 'ravel'):
        if name == 'ravel':
            return ARef(l.sid, l.idx, (len(l.idx),), 'ndarray')
        return en.newarr([st.heap[l.sid].f[i] for i in l.idx], (len(l.idx),), 'ndarray', st)
    if name == 'reshape':
        sh = args if len(args) != 1 or isinstance(args[0], Num) else en.concrete(args[0], st)
        if sh and all(isinstance(x, Num) and x.const is not None for x in sh):
            dims = [int(x.const) for x in sh]
            if -1 in dims:
                k = 1
                for d in dims:
                    if d != -1:
                        k *= d
                dims[dims.index(-1)] = len(l.idx) // k
            return ARef(l.sid, l.idx, tuple(dims), 'ndarray')
    if name == 'transpose':
        return transpose(en, l, st)
    if name == 'tolist':
        return en.newlist([st.heap[l.sid].f[i] for i in l.idx], st)
    if name == 'item':
        if len(l.idx) == 1:
            return st.heap[l.sid].f[l.idx[0]]
    if name == 'fill':
        en.event('setitem', st, (l, NONE, args[0], TRUE), node)
        en.store_into(l, args[0], TRUE, st)
        return NONE
    if name == 'clip' and len(args) == 2:
        return lift(lambda a, b: en.ew(lambda p, q, r: T.vmin(T.vmax(p, q), r), [l, a, b], st), *args)
    if name in ('setflags', 'sort', 'resize', 'itemset', 'put'):
        return NONE
    if name == '__setitem__':
        en.setitem(l, args[0], args[1], st, node)
        return NONE
    if name == '__getitem__':
        return en.arrindex(l, args[0], st, node)
    return _opaque(en, 'ndarray.' + name, [l] + args, kw, st)


def intdtype(en, d):
    n = d.v if isinstance(d, Const) and isinstance(d.v, str) else d.a if isinstance(d, Fn) and isinstance(d.a, str) else ''
    return n.split('.')[-1].startswith(('int', 'uint'))


def term_arr_attr(en, l, name, st, node):
    if name not in NDARRAY_NAMES and not name.startswith('__'):
        en.diag('attr', st, "'ndarray' has no attribute '%s'" % name, node)
    if is_lazy(l) and name in ('astype', 'copy'):
        return Fn('bmeth', (l, 'lazy'), name)
    if name == 'shape':
        return Term('shape', (l,), ('list', 'num'))
    if name in ('T', 'real', 'flat'):
        return Term('attr', (l, Const(name)), 'ndarray')
    if name in ('size', 'ndim'):
        return from_atom(Atom(name, (l,)))
    return Term('attr', (l, Const(name)))


# ----------------------------------------------------------------- spectra
SPEC_NATIVE = {'sqrt': T.sqrt}


def speccls(en):
    best = None
    for c in en.spec_cls:
        if c.name == 'RGBSpectrum':
            return c
        best = best or c
    return best


def num_attr(en, l, name, st, node):
    if l.spec:
        c = speccls(en)
        if name == 'c':
            return l
        r = c.lookup(name)
        if r is not None:
            if name in ('y', 'is_black', 'sqrt', 'exp', 'pow', 'clip', 'copy', 'has_nans', 'lerp', 'to_rgb', 'to_xyz',
                        'to_rgb_spectrum'):
                return Fn('nummeth', l, name)
            if isinstance(r[1], FuncInfo):
                if r[1].kind == 'property':
                    return from_atom(Atom('specattr', (l, Const(name))))
                if r[1].kind in ('classmethod',):
                    return Fn('bound', Fn('cls', c), r[1])
                if r[1].kind == 'staticmethod':
                    return Fn('func', r[1])
                return Fn('nummeth', l, name)
            return en.classattr(c, r[0], name, r[1], st, node)
        if name in en.field_table(c):
            return from_atom(Atom('specattr', (l, Const(name))))
        if name in NDARRAY_NAMES and en_spec_isarr(en, c):
            return Fn('nummeth', l, name)
        en.diag('attr', st, "spectrum has no attribute '%s'" % name, node)
        return Term('attr', (l, Const(name)))
    if name in ('real',):
        return l
    at = T.as_atom(l)
    if at is not None and at.op in ('val', 'item', 'call', 'iter'):
        # a value of unknown type used numerically before
        return Term('attr', (l, Const(name)))
    if name in NDARRAY_NAMES or name.startswith('__') or name in ('is_integer', 'bit_length', 'numerator', 'denominator'):
        return Fn('nummeth', l, name)
    en.diag('attr', st, "number has no attribute '%s'" % name, node)
    return Term('attr', (l, Const(name)))


def en_spec_isarr(en, c):
    return 'numpy.ndarray' in c.external_bases()


def num_method(en, l, name, args, kw, st, node):
    if name == 'y' and l.spec:
        return spec_y(l)
    if name == 'is_black':
        if not l.terms:
            return TRUE
        if all(T.scalar_atom(a) for a in l.atoms()):
            # the same value at every wavelength
            return rel('lt', sub(Num(l.terms), T.sym('EPS')))
        return T.bvar_node(BVar('black', (_specnorm(l),)).id)
    if name == 'has_nans':
        return FALSE if not en.nan else T.bvar_node(BVar('isnan', (l,)).id)
    if name == 'sqrt':
        return T.sqrt(l)
    if name == 'exp':
        return app('exp', l)
    if name == 'pow' and args:
        return lift(lambda x: _npow(l, en.tonum(x, st)), args[0])
    if name == 'clip':
        lo = args[0] if args else kw.get('low', kw.get('lo', ZERO))
        hi = args[1] if len(args) > 1 else kw.get('high', kw.get('hi', POSINF))
        return lift(lambda p, q: T.vmin(T.vmax(l, en.tonum(p, st)), en.tonum(q, st)), lo, hi)
    if name in ('copy', 'astype', 'view'):
        return l
    if name == 'lerp' and len(args) == 2 and l.spec:
        return lift(lambda t, o: add(mul(sub(ONE, en.tonum(t, st)), l), mul(en.tonum(t, st), en.tonum(o, st))), *args)
    if name in ('to_xyz', 'to_rgb') and l.spec:
        return from_atom(Atom('specmeth', (l, Const(name))), True)
    if name in ('sum', 'min', 'max', 'mean', 'any', 'all'):
        return reduce_arr(en, name, l, st, node)
    return from_atom(Atom('specmeth', (l, Const(name)) + tuple(en.snap(a, st) for a in args)))


def _specnorm(l):
    """blackness does not depend on a non-zero constant factor"""
    c, m, p = T.primitive(l)
    return Num({k: v / c for k, v in l.terms.items()}, l.spec)


def spec_y(l):
    """luminance is linear in the spectrum: scalar factors come out of it"""
    out = ZERO
    for m, k in l.terms.items():
        a = tuple((i, e) for i, e in m if T.scalar_atom(T.Atom._all[i]))
        b = tuple((i, e) for i, e in m if (i, e) not in a)
        out = add(out, mul(Num({a: k}, False), from_atom(Atom('specy', (Num({b: 1}, True),)))))
    return out


def make_spec(en, cls, args, st, node):
    if not args:
        return num(0, True)

    def g(*a):
        x = a[0]
        if len(a) == 1:
            if isinstance(x, Num):
                return Num(x.terms, True)
            if isinstance(x, Const) and x.v is None:
                return num(0, True)
            e, s = _elems(en, x, st)
            if e is not None and e and all(y is e[0] for y in e) and isinstance(e[0], Num):
                return Num(e[0].terms, True)
            if isinstance(x, Term):
                return from_atom(Atom('val', (x,)), True)
        return from_atom(Atom('mkspec', tuple(en.snap(y, st) for y in a)), True)
    return lift(g, *args)
