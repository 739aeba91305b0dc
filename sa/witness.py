"""Confirming that two normal forms differ.

A refuted obligation is a boolean term over canonical atoms that the decision procedure could not reduce to FALSE.  The
normal forms are not complete for ordered-field arithmetic, so before it is reported the term itself (never the program) is
evaluated at sample points in the manner of Schwartz-Zippel identity testing: uninterpreted symbols are given arbitrary
but functionally consistent values.  A term with no satisfying point among the samples is reported as undecided.
"""
import math
import random
import zlib
from fractions import Fraction

from . import terms as T


class Ambiguous(Exception):
    pass


TOL = 1e-10
MARGIN = 1e-7


def _h(key, seed):
    # a checksum is linear (two keys would always agree or always differ in a bit), so its bits are mixed
    h = zlib.crc32(repr((seed, key)).encode()) & 0xffffffff
    h = ((h ^ (h >> 16)) * 0x85ebca6b) & 0xffffffff
    h = ((h ^ (h >> 13)) * 0xc2b2ae35) & 0xffffffff
    return h ^ (h >> 16)


INTOPS = {'len', 'int', 'floor', 'ceil', 'round', 'floordiv', 'nat'}


class Point(object):
    """a total assignment, generated lazily"""
    def __init__(self, seed, mode, fixed=None):
        self.seed, self.mode = seed, mode
        self.rng = random.Random(seed)
        self.vals = dict(fixed or {})
        self.memo = {}
        self.work = 0

    def sym(self, at):
        nm = at.args[0]
        if nm == 'pi':
            return math.pi
        if nm == 'inf':
            return 1e18
        if nm in ('EPS',):
            return 1e-5
        if nm in ('nan', 'undef'):
            raise Ambiguous()
        v = self.vals.get(at.id)
        if v is None:
            v = self.vals[at.id] = self.gen(_h(('sym', at.id), self.seed))
        return v

    def gen(self, h):
        r = random.Random(h)
        m = self.mode
        if m == 'mix':
            m = r.choice(['small', 'unit', 'int', 'sgn', 'wide'])
        if m == 'small':
            return r.uniform(-2.2, 2.2)
        if m == 'unit':
            return r.uniform(0.01, 0.99)
        if m == 'int':
            return float(r.choice([-2, -1, 0, 0, 1, 1, 2, 3]))
        if m == 'sgn':
            return float(r.choice([-1, 0, 1]))
        return r.choice([-1, 1]) * math.exp(r.uniform(-4, 4))

    # ---- numbers
    def num(self, n):
        k = ('n', id(n))
        if k in self.memo:
            return self.memo[k]
        s = 0.
        mag = 0.
        self.work += len(n.terms)
        for m, c in n.terms.items():
            t = float(c)
            for a, e in m:
                v = self.atom(T.Atom._all[a])
                if v == 0. and e < 0:
                    raise Ambiguous()
                try:
                    t *= v ** e
                except OverflowError:
                    raise Ambiguous()
            s += t
            mag += abs(t)
        if s != s or mag > 1e200:
            raise Ambiguous()
        if abs(s) <= TOL * mag:
            s = 0.
        elif abs(s) < MARGIN * mag and mag < 1e17:
            raise Ambiguous()
        self.memo[k] = s
        return s

    def atom(self, a):
        k = ('a', a.id)
        if k in self.memo:
            return self.memo[k]
        v = self._atom(a)
        if isinstance(v, complex) or v != v:
            raise Ambiguous()
        self.memo[k] = v
        return v

    def _atom(self, a):
        op = a.op
        if op == 'sym':
            return self.sym(a)
        g = a.args
        try:
            if op == 'inv':
                x = self.val(g[0])
                if x == 0:
                    raise Ambiguous()
                return 1. / x
            if op == 'sqrt':
                return math.sqrt(self.val(g[0]))
            if op == 'abs':
                return abs(self.val(g[0]))
            if op in ('min', 'max'):
                return (min if op == 'min' else max)(self.val(x) for x in g[0])
            if op in ('sin', 'cos', 'tan', 'exp', 'log', 'sinh', 'tanh', 'cosh', 'log2', 'log10'):
                return getattr(math, op)(self.val(g[0]))
            if op in ('arcsin', 'arccos', 'arctan'):
                return getattr(math, 'a' + op[3:])(self.val(g[0]))
            if op == 'arctan2':
                return math.atan2(self.val(g[0]), self.val(g[1]))
            if op == 'hypot':
                return math.hypot(self.val(g[0]), self.val(g[1]))
            if op in ('floor', 'ceil'):
                return float(getattr(math, op)(self.val(g[0])))
            if op == 'int':
                return float(int(self.val(g[0])))
            if op == 'round':
                return float(round(self.val(g[0])))
            if op == 'floordiv':
                return float(self.val(g[0]) // self.val(g[1]))
            if op == 'mod':
                return float(self.val(g[0]) % self.val(g[1]))
            if op == 'pow':
                return float(self.val(g[0]) ** self.val(g[1]))
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise Ambiguous()
        key = ('atom', op) + tuple(self.canon(x) for x in g)
        h = _h(key, self.seed)
        if op in INTOPS:
            return float(1 + h % 5)
        if op == 'draw':
            return (h % 9973) / 9973.
        return self.gen(h)

    def val(self, v):
        """number of a DD"""
        v = self.leaf(v)
        if isinstance(v, T.Num):
            return self.num(v)
        if isinstance(v, T.Const):
            if isinstance(v.v, bool):
                return float(v.v)
        raise Ambiguous()

    def leaf(self, v):
        while isinstance(v, T.Ite):
            v = v.hi if self.bvar(T.BVar._all[v.var]) else v.lo
        return v

    def bvar(self, b):
        k = ('b', b.id)
        if k in self.memo:
            return self.memo[k]
        r = self._bvar(b)
        self.memo[k] = r
        return r

    def _bvar(self, b):
        if b.op in ('lt0', 'le0', 'eq0'):
            x = self.num(b.args[0])
            return x < 0 if b.op == 'lt0' else (x <= 0 if b.op == 'le0' else x == 0)
        if b.op == 'speceq':
            return self.num(b.args[0]) == 0         # one channel stands for all
        if b.op == 'isnan':
            return False
        key = ('bvar', b.op) + tuple(self.canon(x) for x in b.args)
        return bool(_h(key, self.seed) & 64)

    def canon(self, x):
        """hashable key invariant under equality of values"""
        if isinstance(x, T.Ite):
            return self.canon(self.leaf(x))
        if isinstance(x, T.Num):
            return ('#', round(self.num(x), 6) + 0.)
        if isinstance(x, T.Const):
            return ('c', repr(x.v))
        if isinstance(x, T.Tup):
            return ('t',) + tuple(self.canon(y) for y in x.items)
        if isinstance(x, T.Vec):
            return ('v',) + tuple(self.canon(y) for y in x.items)
        if isinstance(x, T.Snap):
            return ('s', str(x.cls)) + tuple((k, self.canon(y)) for k, y in x.fields)
        if isinstance(x, T.Term):
            return ('T', x.op) + tuple(self.canon(y) for y in x.args)
        if isinstance(x, T.Ref):
            return ('r', repr(x.id) if not isinstance(x.id, tuple) else tuple(self.canon(y) for y in x.id))
        if isinstance(x, T.Atom):
            return ('a', self.atom(x))
        if isinstance(x, (tuple, list)):
            return tuple(self.canon(y) for y in x)
        if isinstance(x, frozenset):
            return tuple(sorted(map(repr, (self.canon(y) for y in x))))
        if isinstance(x, (str, int, float, Fraction, type(None))):
            return x
        return repr(x)

    def bool(self, v):
        v = self.leaf(v)
        if v is T.TRUE:
            return True
        if v is T.FALSE:
            return False
        raise Ambiguous()


def _paths(c, limit=24):
    """some paths to TRUE, as [(BVar, polarity)]"""
    out = []

    def go(v, acc):
        if len(out) >= limit:
            return
        if v is T.TRUE:
            out.append(list(acc))
            return
        if not isinstance(v, T.Ite):
            return
        b = T.BVar._all[v.var]
        for val, ch in ((False, v.lo), (True, v.hi)):
            acc.append((b, val))
            go(ch, acc)
            acc.pop()
    go(c, [])
    return out


def _occurs(at, x, depth=0):
    """does the symbol occur inside another atom"""
    if isinstance(x, T.Atom):
        return x is at or any(_occurs(at, y, depth + 1) for y in x.args)
    if isinstance(x, T.Num):
        return any(_occurs(at, y, depth + 1) for y in x.atoms())
    if isinstance(x, (tuple, frozenset)):
        return any(_occurs(at, y, depth + 1) for y in x)
    if isinstance(x, (T.Tup, T.Vec)):
        return any(_occurs(at, y) for y in x.items)
    if isinstance(x, T.Term):
        return any(_occurs(at, y) for y in x.args)
    if isinstance(x, T.Ite):
        return True
    return False


def _solve(path, pt, used):
    """satisfy the equality literals of a path by solving for linear symbols"""
    for b, val in path:
        if b.op not in ('eq0', 'speceq') or not val:
            continue
        q = b.args[0]
        try:
            if pt.num(q) == 0:
                continue
        except Ambiguous:
            pass
        done = False
        for at in sorted(q.atoms(), key=lambda a: a.id):
            if at.op != 'sym' or at.args[0] in ('pi', 'inf', 'EPS', 'nan', 'undef') or at.id in used:
                continue
            if any(_occurs(at, o) for o in q.atoms() if o is not at):
                continue
            k = 0.
            r = 0.
            ok = True
            try:
                for m, c in q.terms.items():
                    e = dict(m).get(at.id, 0)
                    t = float(c)
                    for a, ee in m:
                        if a != at.id:
                            t *= pt.atom(T.Atom._all[a]) ** ee
                    if e == 0:
                        r += t
                    elif e == 1:
                        k += t
                    else:
                        ok = False
                if ok and k != 0:
                    pt.vals[at.id] = -r / k
                    pt.memo.clear()
                    used.add(at.id)
                    done = True
                    break
            except (Ambiguous, OverflowError, ZeroDivisionError):
                continue
        if not done:
            return False
    return True


def _literal(pt, b):
    """(penalty of b being False wanted, True wanted)"""
    try:
        if b.op in ('lt0', 'le0', 'eq0', 'speceq'):
            x = pt.num(b.args[0])

            def m(d):
                d = min(d, 1e6)
                return 1. + d / (1. + d) if d else 0.
            if b.op in ('eq0', 'speceq'):
                return (1. if x == 0 else 0.), m(abs(x))
            t = x < 0 if b.op == 'lt0' else x <= 0
            return (m(max(-x, 1e-3)), 0.) if t else (0., m(max(x, 1e-3)))
        return (2., 0.) if pt.bvar(b) else (0., 2.)
    except (Ambiguous, OverflowError, RecursionError):
        return 3., 3.


def _postorder(c):
    out, seen = [], set()
    stack = [(c, False)]
    while stack:
        v, done = stack.pop()
        if not isinstance(v, T.Ite):
            continue
        if done:
            out.append(v)
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        stack.append((v, True))
        stack.append((v.lo, False))
        stack.append((v.hi, False))
    return out


def climb(bad, budget=1500000):
    """local search: minimise the distance of a point to the nearest path of ``bad`` to TRUE"""
    order = _postorder(bad)
    if not order:
        return None
    bs = sorted({v.var for v in order})
    left = [budget]
    rng = random.Random(7)
    modes = ['small', 'mix', 'unit', 'wide']
    inf = float('inf')

    def score(pt):
        pen = {b: _literal(pt, T.BVar._all[b]) for b in bs}
        best = {}

        def get(v):
            return best[id(v)] if isinstance(v, T.Ite) else (0. if v is T.TRUE else inf)
        for v in order:
            f, t = pen[v.var]
            best[id(v)] = min(get(v.lo) + f, get(v.hi) + t)
        left[0] -= pt.work + len(order) + 50
        return best[id(bad)], pen, best

    def path(pen, best):
        out = []
        v = bad
        while isinstance(v, T.Ite):
            f, t = pen[v.var]

            def get(x):
                return best[id(x)] if isinstance(x, T.Ite) else (0. if x is T.TRUE else inf)
            val = get(v.hi) + t < get(v.lo) + f
            out.append((T.BVar._all[v.var], val))
            v = v.hi if val else v.lo
        return out
    k = 0
    while left[0] > 0:
        k += 1
        pt = None
        for j in range(3):
            q = Point(100000 + 7 * k + j, modes[(k + j) % 4])
            x = score(q)
            if pt is None or x[0] < cur[0]:
                pt, cur = q, x
        for step in range(150):
            if cur[0] == 0. or left[0] <= 0 or not pt.vals:
                break
            q = Point(pt.seed, pt.mode, pt.vals)
            keys = sorted(q.vals)
            if rng.random() < .2:
                pa = path(cur[1], cur[2])
                if any(b.op in ('eq0', 'speceq') and v for b, v in pa):
                    _solve(pa, q, set())
            else:
                for i in range(rng.choice((1, 1, 1, 2, 3))):
                    a = keys[rng.randrange(len(keys))]
                    v = q.vals[a]
                    m = rng.randrange(6)
                    q.vals[a] = (v + rng.gauss(0, .5), v + rng.gauss(0, .05), v * math.exp(rng.gauss(0, .7)), -v,
                                 rng.uniform(-3, 3), float(rng.choice((-1, 0, 1, 2))))[m]
            if any(v and not 1e-2 <= abs(v) <= 1e3 for v in q.vals.values()):
                continue            # tiny or huge values: cancellation would pass for equality
            x = score(q)
            if x[0] <= cur[0]:
                pt, cur = q, x
        if cur[0] == 0.:
            q = Point(pt.seed, pt.mode, pt.vals)
            try:
                if q.bool(bad):
                    return q
            except (Ambiguous, RecursionError, OverflowError):
                pass
    return None


def find(bad, ok=T.TRUE, trials=1500):
    """a Point at which ``bad`` holds, or None; second result: number of points that satisfied ``ok``"""
    valid = 0
    paths = [p for p in _paths(bad) if any(b.op in ('eq0', 'speceq') and v for b, v in p)]
    okp = [p for p in _paths(ok, 6) if any(b.op in ('eq0', 'speceq') and v for b, v in p)]
    modes = ['small', 'mix', 'unit', 'int', 'mix', 'wide']
    for t in range(trials):
        pt = Point(t, modes[t % len(modes)])
        try:
            if t % 2 and (paths or okp):
                used = set()
                c = (paths or okp) if (t // 2) % 2 or not okp else okp
                if not _solve(c[(t // 4) % len(c)], pt, used):
                    continue
            if ok is not T.TRUE and not pt.bool(ok):
                continue
            valid += 1
            if pt.bool(bad):
                return pt, valid
        except (Ambiguous, RecursionError, OverflowError):
            continue
    return None, valid


def describe(pt, v, n=8):
    out = []
    for i, x in pt.vals.items():
        out.append('%s=%.4g' % (T.Atom._all[i].args[0], x))
    return ', '.join(out[:n])
