"""Value domain of the gated value-numbering analysis.

Leaves are hash-consed normal forms; ``Ite`` nodes form ordered decision
diagrams over canonical relation atoms, so two program fragments that compute
the same value by different statements normally get the same term.

  numbers   Laurent polynomials over atoms (exact rational coefficients)
  booleans  BDDs over canonical sign atoms  p<0, p<=0, p==0  and opaque atoms
"""
from fractions import Fraction
import bisect
import math
import zlib
import builtins
import sys

sys.setrecursionlimit(200000)

# --------------------------------------------------------------------------
# leaves


class Leaf(object):
    __slots__ = ()


class Const(Leaf):
    """None, bool, str and other plain constants"""
    __slots__ = ('v',)
    _tab = {}

    def __new__(cls, v):
        k = (type(v).__name__, v)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.v = v
            cls._tab[k] = r
        return r

    def __repr__(self):
        return repr(self.v)


TRUE = Const(True)
FALSE = Const(False)
NONE = Const(None)


class Unbound(Leaf):
    __slots__ = ()

    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Atom(object):
    """opaque numeric quantity: op applied to canonical arguments"""
    __slots__ = ('op', 'args', 'id')
    _tab = {}
    _all = []

    def __new__(cls, op, args=()):
        k = (op, args)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op = op
            r.args = args
            r.id = len(cls._all)
            cls._all.append(r)
            cls._tab[k] = r
        return r

    def __repr__(self):
        return _memo(self, self._show)

    @staticmethod
    def _show(self):
        if self.op == 'sym':
            return str(self.args[0])
        return '%s(%s)' % (self.op, ', '.join(map(show, self.args)))


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items()))


MAXTERMS = 400


_shown = {}


def _memo(v, f):
    """text of a shared value, computed once; long texts are cut (they are for reading only)"""
    t = _shown.get(id(v))
    if t is None:
        t = f(v)
        if len(t) > 3000:
            t = t[:3000] + '...#%x' % (zlib.crc32(t.encode()) & 0xffffffff)
        _shown[id(v)] = t
    return t


class Num(Leaf):
    """canonical Laurent polynomial; ``spec`` marks per-wavelength spectra"""
    __slots__ = ('terms', 'spec', '_h')
    _tab = {}

    def __new__(cls, terms, spec=False):
        key = (frozenset(terms.items()), spec)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.terms = dict(terms)
            r.spec = spec
            r._h = hash(key)
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # -- queries
    @property
    def const(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def atoms(self):
        s = set()
        for m in self.terms:
            for a, _ in m:
                s.add(a)
        return {Atom._all[i] for i in s}

    def __repr__(self):
        return _memo(self, show_num)


def show_num(n):
    if not n.terms:
        return '0'
    out = []
    for m, c in sorted(n.terms.items(), key=lambda mc: (len(mc[0]), mc[0])):
        f = []
        for a, e in m:
            s = repr(Atom._all[a])
            f.append(s if e == 1 else '%s^%d' % (s, e))
        cs = str(c) if c.denominator == 1 or c.denominator > 10 ** 6 else str(c)
        if f:
            out.append((cs + '*' if c != 1 else '') + '*'.join(f))
        else:
            out.append(cs)
    s = ' + '.join(out)
    return ('(%s)' % s) if len(out) > 1 else s


def num(c, spec=False):
    c = Fraction(c) if not isinstance(c, float) else _frac(c)
    return Num({(): c} if c else {}, spec)


def _frac(f):
    return Fraction(repr(f))


ZERO = num(0)
ONE = num(1)
INF = None  # set below


SPEC_ATOMS = set()      # ids of atoms that stand for a whole spectrum
SCALAR_OPS = ('sym', 'sqrt', 'abs', 'max', 'min', 'sin', 'cos', 'tan', 'exp', 'log', 'pow', 'specy', 'acos', 'asin', 'atan', 'atan2', 'floor', 'ceil', 'inv')


def scalar_atom(a, depth=0):
    """the atom certainly stands for one number, not for a spectrum"""
    if a.id in SPEC_ATOMS or a.op not in SCALAR_OPS or depth > 6:
        return False
    if a.op in ('sym', 'specy'):
        return True
    todo = list(a.args)
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list, set, frozenset)):
            todo.extend(x)
        elif isinstance(x, Num):
            if x.spec or not all(scalar_atom(b, depth + 1) for b in x.atoms()):
                return False
        elif isinstance(x, Atom):
            if not scalar_atom(x, depth + 1):
                return False
        elif isinstance(x, (int, float, str, Fraction)) or x is None:
            pass
        else:
            return False
    return True


def from_atom(a, spec=False):
    if spec:
        SPEC_ATOMS.add(a.id)
    return Num({((a.id, 1),): Fraction(1)}, spec)


def sym(name, spec=False):
    return from_atom(Atom('sym', (name,)), spec)


UNDEF = sym('undef')
_special = {}


def _reduce(terms):
    """rewrite even powers of sqrt/sin atoms, inverse-polynomial atoms"""
    changed = True
    while changed:
        changed = False
        for m in list(terms):
            c = terms[m]
            for a, e in m:
                at = Atom._all[a]
                if at.op == 'sqrt' and (e >= 2 or e < 0):
                    # sqrt(q)^2 -> q ; sqrt(q)^-2 -> 1/q
                    rest = _strip(m, a, e - (2 if e > 0 else -2))
                    q = at.args[0]
                    q = q if e > 0 else div(ONE, q)
                    del terms[m]
                    _addto(terms, mul(Num({rest: c}), q).terms)
                    changed = True
                    break
                if at.op == 'sin' and e >= 2:
                    rest = _strip(m, a, e - 2)
                    cq = app('cos', at.args[0])
                    del terms[m]
                    _addto(terms, {rest: c})
                    _addto(terms, mul(Num({rest: -c}), mul(cq, cq)).terms)
                    changed = True
                    break
                if at.op == 'sin' and e < 0:
                    # 1/sin -> sin / (1 - cos^2)
                    rest = _strip(m, a, e + 2)
                    cq = app('cos', at.args[0])
                    del terms[m]
                    _addto(terms, mul(Num({rest: c}), inverse(sub(ONE, mul(cq, cq)))).terms)
                    changed = True
                    break
                if at.op == 'abs' and (e >= 2 or e < 0):
                    k = e - e % 2
                    rest = _strip(m, a, e % 2)
                    q = power(at.args[0], k) if k > 0 else inverse(power(at.args[0], -k))
                    del terms[m]
                    _addto(terms, mul(Num({rest: c}), q).terms)
                    changed = True
                    break
                if at.op == 'inv' and e < 0:
                    rest = _strip(m, a, 0)
                    q = power(at.args[0], -e)
                    del terms[m]
                    _addto(terms, mul(Num({rest: c}), q).terms)
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        # c * inv(d): cancel multiples of d
        invs = {}
        for m in terms:
            for a, e in m:
                if Atom._all[a].op == 'inv' and e > 0:
                    invs.setdefault(a, 0)
        for a in sorted(invs):
            if _cancel_inv(terms, a):
                changed = True
                break
    for m in [m for m, c in terms.items() if c == 0]:
        del terms[m]
    return terms


def _strip(m, a, ne):
    return tuple((k, (ne if k == a else e)) for k, e in m if not (k == a and ne == 0))


def _addto(t, o):
    for m, c in o.items():
        v = t.get(m, 0) + c
        if v == 0:
            t.pop(m, None)
        else:
            t[m] = v


_mkeys = {}


_weights = {}


def _weight(a):
    """(degree, rank) of an atom, chosen so that sqrt(q)^2 -> q, |p|^2 -> p^2 and sin^2 -> 1 - cos^2 never increase"""
    w = _weights.get(a)
    if w is None:
        at = Atom._all[a]
        w = (1., 0.)            # dyadic rationals: exact as floats
        if at.op in ('sqrt', 'abs') and isinstance(at.args[0], Num) and at.args[0].terms:
            ks = [_mkey(m) for m in at.args[0].terms]
            d, r = max(k[0] for k in ks), max(k[1] for k in ks)
            if d > 0:
                w = (d / 2, r / 2 + 1) if at.op == 'sqrt' else (d, r + 1)
        elif at.op == 'sin':
            w = (1., 2.)
        _weights[a] = w
    return w


def _mkey(m):
    """graded lexicographic order (a monomial order, also with negative exponents)"""
    k = _mkeys.get(m)
    if k is None:
        k = _mkeys[m] = (sum(e * _weight(a)[0] for a, e in m), sum(e * _weight(a)[1] for a, e in m if e > 0),
                         tuple((-i, e) if e > 0 else (i - 10 ** 9, e) for i, e in m) + ((-5 * 10 ** 8, 0),))
    return k


def _lead(terms):
    return max(terms, key=_mkey)


def _cancel_inv(terms, a):
    """terms: polynomial; a: id of inv(d).  Rewrite coefficient*inv(d)^k
    modulo d (multivariate division by the leading monomial)."""
    d = Atom._all[a].args[0]
    dl = _lead(d.terms)
    dlc = d.terms[dl]
    groups = {}
    for m, c in terms.items():
        e = dict(m).get(a, 0)
        if e > 0:
            groups.setdefault(e, {})[_strip(m, a, 0)] = c
    did = False
    for e in sorted(groups, reverse=True):
        g = dict(groups[e])
        if not any(_mono_div(m, dl) is not None for m in g):
            continue
        quo = {}
        rem = {}
        steps = 0
        order = sorted((_mkey(m), m) for m in g)
        while order and steps < 200:
            l = order.pop()[1]
            if l not in g:
                continue
            steps += 1
            q = _mono_div(l, dl)
            if q is None:
                _addto(rem, {l: g.pop(l)})
                continue
            qc = g[l] / dlc
            _addto(quo, {q: qc})
            for m2, c2 in d.terms.items():
                t = _mono_mul(q, m2)
                if t not in g and t != l:
                    bisect.insort(order, (_mkey(t), t))
                _addto(g, {t: -qc * c2})
        if g:
            continue
        if quo:
            # accept only when it simplifies (all divided or fewer terms)
            if True:
                for m, c in groups[e].items():
                    terms.pop(_mono_mul(m, ((a, e),)), None)
                lo = ((a, e - 1),) if e > 1 else ()
                _addto(terms, {_mono_mul(m, lo): c for m, c in quo.items()})
                _addto(terms, {_mono_mul(m, ((a, e),)): c for m, c in rem.items()})
                did = True
                break
    return did


def _mono_div(m, d):
    dm = dict(m)
    for k, e in d:
        have = dm.get(k, 0)
        if e > 0 and have < e:
            return None
        if e < 0 and have > e:
            return None
        dm[k] = have - e
        if dm[k] == 0:
            del dm[k]
    return tuple(sorted(dm.items()))


def _is_inf(n):
    return n is POSINF or n is NEGINF


def add(a, b):
    if a.spec != b.spec:
        sp = True
    else:
        sp = a.spec
    if _is_inf(a) or _is_inf(b):
        if a is b:
            return a
        if _is_inf(a) and not _is_inf(b):
            return a
        if _is_inf(b) and not _is_inf(a):
            return b
        return sym('nan')
    t = dict(a.terms)
    _addto(t, b.terms)
    r = _cap(Num(_reduce(t), sp))
    if (a in _sos or b in _sos) and nonneg(a) and nonneg(b):
        _sos.add(r)
    return r


def neg(a):
    if a is POSINF:
        return NEGINF
    if a is NEGINF:
        return POSINF
    return Num({m: -c for m, c in a.terms.items()}, a.spec)


def sub(a, b):
    return add(a, neg(b))


_mulmemo = {}
_sos = set()        # polynomials built as sums / products of squares: non-negative wherever defined


def mul(a, b):
    k = (a, b)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    sp = a.spec or b.spec
    t = {}
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m = _mono_mul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
    r = _cap(Num(_reduce(t), sp))
    if len(r.terms) > 1 and (a is b or ((a in _sos or b in _sos) and nonneg(a) and nonneg(b))):
        _sos.add(r)
    _mulmemo[k] = r
    return r


def _cap(n):
    if len(n.terms) > MAXTERMS:
        # too large to keep expanded: name it by its own normal form
        return from_atom(Atom('poly', (n,)), n.spec)
    return n


def content(n):
    """(constant, monomial) factored out of n; leading coefficient positive"""
    ms = list(n.terms)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for k in set(common) | set(d):
                e1, e2 = common.get(k, 0), d.get(k, 0)
                e = min(e1, e2)
                if e != 0:
                    nc[k] = e
            common = nc
    mono = tuple(sorted((common or {}).items()))
    lead = n.terms[_lead(n.terms)]
    return lead, mono


def primitive(n):
    c, m = content(n)
    inv = tuple((k, -e) for k, e in m)
    t = {}
    for mm, cc in n.terms.items():
        t[_mono_mul(mm, inv)] = cc / c
    return c, m, Num(t, n.spec)


def inverse(a):
    if not a.terms:
        return from_atom(Atom('div0', ()), a.spec)
    if _is_inf(a):
        return ZERO
    c, m, p = primitive(a)
    # atoms within the factored monomial
    invm = tuple((k, -e) for k, e in m)
    r = Num(_reduce({invm: 1 / c}), a.spec)
    if p.const == 1:
        return r
    p0 = p if not p.spec else Num(p.terms, False)
    return mul(r, from_atom(Atom('inv', (p0,)), a.spec))


def div(a, b):
    if not a.terms and not b.terms:
        return UNDEF           # 0/0 is no number
    return mul(a, inverse(b))


def power(a, n):
    r = num(1, a.spec)
    for _ in range(n):
        r = mul(r, a)
    return r


def equal_num(a, b):
    """exact equality of rational functions (clears inv atoms)"""
    if a is b:
        return True
    if len(a.terms) + len(b.terms) > 600:
        return False
    d = sub(a, b)
    for _ in range(8):
        if not d.terms:
            return True
        iv = sorted({x.id for x in d.atoms() if x.op == 'inv'})
        if not iv:
            neg_exp = {}
            for m in d.terms:
                for k, e in m:
                    if e < 0:
                        neg_exp[k] = min(neg_exp.get(k, 0), e)
            if not neg_exp:
                break
            mm = tuple(sorted((k, -e) for k, e in neg_exp.items()))
            d = mul(d, Num({mm: Fraction(1)}))
            continue
        k = iv[-1]
        e = max(dict(m).get(k, 0) for m in d.terms)
        den = Atom._all[k].args[0]
        t = {}
        for m, c in d.terms.items():
            ee = dict(m).get(k, 0)
            _addto(t, mul(Num({_strip(m, k, 0): c}), power(den, e - ee)).terms)
        d = Num(_reduce(t), d.spec)
    return not d.terms


# ---- numeric functions in normal form ------------------------------------

PI = None


def _sq_factor(c):
    """c>0 Fraction -> (s, r) with c = s^2 r when s rational square part"""
    from math import isqrt
    n, d = c.numerator, c.denominator
    s1, s2 = isqrt(n), isqrt(d)
    if s1 * s1 == n and s2 * s2 == d:
        return Fraction(s1, s2), Fraction(1)
    return Fraction(1), c


def _square_root(q):
    """h with h*h == q for a polynomial q, or None"""
    sq = []
    for m, c in q.terms.items():
        if c > 0 and all(e % 2 == 0 for k, e in m):
            s, r = _sq_factor(c)
            if r == 1:
                sq.append((tuple((k, e // 2) for k, e in m), s))
    n = len(sq)
    if n < 2 or len(q.terms) > n * (n + 1) // 2 or n > 5:
        return None
    # the sign of every candidate relative to the first from the cross terms
    signs = [1] + [0] * (n - 1)
    for _ in range(n):
        for i in range(n):
            for j in range(n):
                if signs[i] and not signs[j]:
                    c = q.terms.get(_mono_mul(sq[i][0], sq[j][0]))
                    if c:
                        signs[j] = signs[i] if c > 0 else -signs[i]
    if not all(signs):
        return None
    h = Num({m: s * z for (m, s), z in zip(sq, signs)}, q.spec)
    return h if mul(h, h) is q or mul(h, h).terms == q.terms else None


def sqrt(a):
    if a.const is not None and a.const >= 0:
        s, r = _sq_factor(a.const)
        if r == 1:
            return num(s, a.spec)
    if a is POSINF:
        return POSINF
    if not a.terms:
        return a
    c, m, p = primitive(a)
    if len(a.terms) == 1 or True:
        # pull out even powers of the monomial content as abs()
        out = num(1, a.spec)
        rest = []
        for k, e in m:
            at = Atom._all[k]
            if e % 2 == 0:
                h = abs(e) // 2
                v = power(absolute(from_atom(at)), h)
                out = mul(out, v if e > 0 else inverse(v))
            else:
                rest.append((k, e))
        # perfect squares of two-term polynomials are left alone
        s, r = _sq_factor(abs(c))
        c0 = c
        if r == 1:
            c0 = Fraction(1 if c > 0 else -1)
            out = mul(out, num(s))
        q = Num({_mono_mul(mm, tuple(rest)): cc * c0 for mm, cc in p.terms.items()}, a.spec)
        if q.const == 1:
            return out
        if 3 <= len(q.terms) <= 15:
            h = _square_root(q)
            if h is not None:
                return mul(out, absolute(h))
        if len(q.terms) == 2:
            # r (1 - cos^2 x) = r sin^2 x
            for mm, cc in q.terms.items():
                for k, e in mm:
                    if e == 2 and Atom._all[k].op == 'cos' and q.terms.get(_strip(mm, k, 0)) == -cc:
                        return mul(mul(out, absolute(app('sin', Atom._all[k].args[0]))),
                                   sqrt(Num({_strip(mm, k, 0): -cc}, a.spec)))
        # separate denominators: sqrt(x/y) kept as one atom with inv inside
        return mul(out, from_atom(Atom('sqrt', (q,)), a.spec))


NONNEG_OPS = {'sqrt', 'abs', 'exp', 'norm', 'draw'}
NONNEG_SYMS = {'pi', 'EPS'}


def nonneg(a):
    """syntactic non-negativity of a normal form (sound, incomplete)"""
    if a in _sos:
        return True
    for m, c in a.terms.items():
        if c < 0:
            return False
        for k, e in m:
            at = Atom._all[k]
            if e % 2 == 0:
                continue
            if at.op in NONNEG_OPS or (at.op == 'sym' and at.args[0] in NONNEG_SYMS):
                continue
            if at.op == 'max' and any(isinstance(x, Num) and nonneg(x) for x in at.args[0]):
                continue
            if at.op == 'min' and all(isinstance(x, Num) and nonneg(x) for x in at.args[0]):
                continue
            if at.op in ('inv', 'pow') and isinstance(at.args[0], Num) and nonneg(at.args[0]):
                continue
            return False
    return True


def absolute(a):
    if a.const is not None:
        return num(abs(a.const), a.spec)
    if _is_inf(a):
        return POSINF
    if nonneg(a):
        return a
    if nonneg(neg(a)):
        return neg(a)
    c, m, p = primitive(a)
    out = num(abs(c), a.spec)
    for k, e in m:
        at = from_atom(Atom._all[k])
        v = at if nonneg(at) else from_atom(Atom('abs', (at,)))
        out = mul(out, power(v, e) if e > 0 else inverse(power(v, -e)))
    if p.const == 1:
        return out
    return mul(out, from_atom(Atom('abs', (p,)), a.spec))


def _minmax(op, args):
    flat = []
    spec = any(a.spec for a in args)
    for a in args:
        at = as_atom(a)
        if at is not None and at.op == op:
            flat.extend(at.args[0])
            continue
        if at is None and len(a.terms) == 1:
            (m, c), = a.terms.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1 and Atom._all[m[0][0]].op == op:
                flat.extend(mul(num(c), x) for x in Atom._all[m[0][0]].args[0])
                continue
        flat.append(a)
    consts = [a.const for a in flat if a.const is not None]
    rest = {a for a in flat if a.const is None}
    big, small = (POSINF, NEGINF)
    if op == 'max':
        big, small = NEGINF, POSINF
    # min: +inf neutral, -inf absorbing
    if small in rest:
        return small
    rest.discard(big)
    if consts:
        cc = min(consts) if op == 'min' else max(consts)
        # drop the constant when every other operand is on one side (abs>=0)
        if op == 'max' and cc <= 0 and any(nonneg(r) for r in rest):
            pass
        else:
            rest.add(num(cc, spec and not rest))
    if len(rest) > 1:
        vals = [(numval(r), r) for r in rest if len(r.terms) < 4]
        vals = sorted(((v, repr(r), r) for v, r in vals if v is not None), key=lambda x: x[:2])
        while len(vals) > 1 and abs(vals[0][0] - vals[-1][0]) > 1e-6:
            rest.discard(vals.pop(-1 if op == 'min' else 0)[2])
    if not rest:
        return big
    if len(rest) == 1:
        return next(iter(rest))
    # max(x,-x) = |x|
    if len(rest) == 2 and op == 'max':
        x, y = rest
        if x is neg(y):
            return absolute(x)
    if len(rest) == 2 and op == 'min':
        x, y = rest
        if x is neg(y):
            return neg(absolute(x))
    # constant differences
    rl = list(rest)
    drop = set()
    for i in range(len(rl)):
        for j in range(len(rl)):
            if i != j and rl[i] not in drop and rl[j] not in drop:
                d = sub(rl[i], rl[j])
                dd = d.const
                if dd is not None:
                    if (op == 'min' and dd >= 0) or (op == 'max' and dd <= 0):
                        drop.add(rl[i])
                elif not _is_inf(d) and (nonneg(d) if op == 'min' else nonneg(neg(d))):
                    drop.add(rl[i])
                elif not _is_inf(d) and len(d.terms) < 4 and any(a.op == 'sym' and a.args[0] == 'EPS' for a in d.atoms()) and \
                        _numsign(d) == (1 if op == 'min' else -1):
                    drop.add(rl[i])
    rest = [r for r in rl if r not in drop]
    if len(rest) == 1:
        return rest[0]
    # common positive factor: max(c a, c b) = c max(a, b)
    g = None
    for r in rest:
        if _is_inf(r):
            g = 1
            break
        for c in r.terms.values():
            g = abs(c) if g is None else Fraction(math.gcd(g.numerator, abs(c).numerator),
                                                  g.denominator * abs(c).denominator // math.gcd(g.denominator, abs(c).denominator))
    if g is not None and g != 1:
        rest = [Num({m: c / g for m, c in r.terms.items()}, r.spec) for r in rest]
        return mul(num(g), from_atom(Atom(op, (frozenset(rest),)), spec))
    return from_atom(Atom(op, (frozenset(rest),)), spec)


def vmin(*a):
    return _minmax('min', a)


def vmax(*a):
    return _minmax('max', a)


def as_atom(n):
    if isinstance(n, Num) and len(n.terms) == 1:
        (m, c), = n.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return Atom._all[m[0][0]]
    return None


def scaled_atom(n):
    """(c, atom) when n is a constant multiple of one atom"""
    if isinstance(n, Num) and len(n.terms) == 1:
        (m, c), = n.terms.items()
        if len(m) == 1 and m[0][1] == 1:
            return c, Atom._all[m[0][0]]
    return None


def clamped(n):
    """a constant multiple of a minimum, maximum or absolute value"""
    r = scaled_atom(n)
    return r is not None and r[1].op in ('min', 'max', 'abs')


def app(op, *args):
    """uninterpreted or lightly-interpreted numeric function"""
    spec = any(isinstance(a, Num) and a.spec for a in args)
    a0 = args[0] if args else None
    if op in ('sin', 'cos', 'tan', 'arcsin', 'arctan', 'sinh', 'tanh') and isinstance(a0, Num):
        if not a0.terms:
            return num(1, spec) if op == 'cos' else a0
        if op == 'tan':
            return div(app('sin', a0), app('cos', a0))
        if op in ('sin', 'cos'):
            # reduce a rational multiple of pi in the argument to [0, 1/2)
            (pm, _), = PI.terms.items()
            k = a0.terms.get(pm, 0)
            if k and not 0 <= k < Fraction(1, 2) or (k and len(a0.terms) == 1 and k.denominator <= 6):
                h = int(k * 2 // 1)             # number of quarter turns
                rest = sub(a0, mul(num(Fraction(h, 2)), PI))
                if not rest.terms:
                    s0, c0 = ZERO, num(1, spec)
                else:
                    rk = rest.terms.get(pm, 0) if len(rest.terms) == 1 else None
                    if rk == Fraction(1, 6):
                        s0, c0 = num(Fraction(1, 2)), div(sqrt(num(3)), num(2))
                    elif rk == Fraction(1, 3):
                        s0, c0 = div(sqrt(num(3)), num(2)), num(Fraction(1, 2))
                    elif rk == Fraction(1, 4):
                        s0 = c0 = div(sqrt(num(2)), num(2))
                    elif rest is a0 or rest.terms == a0.terms:
                        s0 = c0 = None
                    else:
                        s0, c0 = app('sin', rest), app('cos', rest)
                if s0 is not None:
                    h %= 4
                    if op == 'sin':
                        return (s0, c0, neg(s0), neg(c0))[h]
                    return (c0, neg(s0), neg(c0), s0)[h]
        # sign normalisation
        c = a0.terms[_lead(a0.terms)]
        if c < 0:
            r = app(op, neg(a0))
            return r if op == 'cos' else neg(r)
        # inverse compositions
        at = as_atom(a0)
        if at is not None and op == 'cos' and at.op == 'arccos':
            return at.args[0]
        if at is not None and op == 'sin' and at.op == 'arcsin':
            return at.args[0]
        if at is not None and op in ('sin', 'cos') and at.op in ('arccos', 'arcsin'):
            return sqrt(sub(ONE, mul(at.args[0], at.args[0])))
        if at is not None and op in ('sin', 'cos') and at.op == 'arctan':
            x = at.args[0]
            r = div(ONE, sqrt(add(ONE, mul(x, x))))
            return r if op == 'cos' else mul(x, r)
    if op == 'arctan2' and all(isinstance(x, Num) and x.const is not None for x in args):
        y, x = args[0].const, args[1].const
        k = None
        if y == 0:
            k = 0 if x >= 0 else 1
        elif x == 0 and y != 0:
            k = Fraction(1, 2)
        elif y and abs(x) == abs(y):
            k = Fraction(1, 4) if x > 0 else Fraction(3, 4)
        if k is not None:
            return mul(num(-k if y < 0 else k), PI)
    if op in ('arccos', 'arcsin', 'arctan') and isinstance(a0, Num) and a0.const in (0, 1, -1):
        k = {'arccos': {0: Fraction(1, 2), 1: 0, -1: 1}, 'arcsin': {0: 0, 1: Fraction(1, 2), -1: Fraction(-1, 2)},
             'arctan': {0: 0, 1: Fraction(1, 4), -1: Fraction(-1, 4)}}[op][int(a0.const)]
        return mul(num(k), PI)
    if op == 'exp' and isinstance(a0, Num):
        if not a0.terms:
            return num(1, spec)
        if a0 is NEGINF:
            return ZERO
    if op == 'log' and isinstance(a0, Num) and a0.const == 1:
        return ZERO
    if op == 'log2' and isinstance(a0, Num) and a0.const is not None and a0.const > 0:
        c = Fraction(a0.const)
        for p, q, s in ((c.numerator, c.denominator, 1), (c.denominator, c.numerator, -1)):
            if q == 1 and p & (p - 1) == 0:
                return num(s * (p.bit_length() - 1))
    if op in ('floor', 'ceil', 'round', 'int') and isinstance(a0, Num):
        at = as_atom(a0)
        if at is not None and at.op == 'log2' and at.args[0].const is not None and at.args[0].const >= 1:
            # not a power of two here: the integer part is exact
            c = at.args[0].const
            k = int(c).bit_length() - 1
            if op == 'round':
                k += c * c > 2 ** (2 * k + 1)
            return num(k + (op == 'ceil'))
    if op in ('floor', 'ceil', 'round', 'int') and isinstance(a0, Num) and a0.const is not None:
        import math
        f = {'floor': math.floor, 'ceil': math.ceil, 'round': round, 'int': int}[op]
        return num(f(a0.const))
    if op in ('floor', 'ceil', 'int', 'round') and isinstance(a0, Num):
        v = numval(a0) if len(a0.terms) < 8 else None
        if v is not None and abs(v - round(v)) > 1e-7 and (op != 'round' or abs(v * 2 - round(v * 2)) > 1e-7):
            import math
            return num({'floor': math.floor, 'ceil': math.ceil, 'round': round, 'int': int}[op](v))
        at = as_atom(a0)
        if at is not None and at.op in ('floor', 'ceil', 'int', 'round', 'len', 'floordiv'):
            return a0
        if _whole(a0):
            return a0
        if op in ('floor', 'ceil') and not a0.spec:
            # whole terms move out: floor(k + x) = k + floor(x)
            w = {m: c for m, c in a0.terms.items() if c.denominator == 1 and all(e > 0 and _whole_atom(Atom._all[k]) for k, e in m)}
            if w:
                return add(Num(w), app(op, Num({m: c for m, c in a0.terms.items() if m not in w})))
    if op == 'mod' and isinstance(a0, Num) and isinstance(args[1], Num) and not a0.spec and args[1].const is not None and args[1].const >= 1 and \
            args[1].const.denominator == 1 and a0.const is None:
        # multiples of the modulus vanish
        n, t, more = int(args[1].const), {}, None
        for m, c in a0.terms.items():
            if c.denominator == 1 and all(e > 0 and _whole_atom(Atom._all[k]) for k, e in m):
                at = Atom._all[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                if at is not None and at.op == 'mod' and isinstance(at.args[1], Num) and at.args[1] is args[1]:
                    more = add(more or ZERO, mul(num(c), at.args[0]))
                    continue
                c = Fraction(int(c) % n)
            if c:
                t[m] = c
        b = Num(t)
        if more is not None:
            return app('mod', add(b, more), args[1])
        if b is not a0:
            return app('mod', b, args[1])
    if op == 'floordiv' and all(isinstance(x, Num) and x.const is not None for x in args) and args[1].const != 0:
        return num(args[0].const // args[1].const)
    if op == 'mod' and all(isinstance(x, Num) and x.const is not None for x in args) and args[1].const != 0:
        return num(args[0].const % args[1].const)
    return from_atom(Atom(op, tuple(args)), spec)


# infinities are ordinary atoms with special comparison behaviour
POSINF = from_atom(Atom('sym', ('inf',)))
NEGINF = Num({m: -c for m, c in POSINF.terms.items()})
PI = sym('pi')

# --------------------------------------------------------------------------
# other leaves


class Ref(Leaf):
    """reference to a heap object"""
    __slots__ = ('id',)
    _tab = {}

    def __new__(cls, i):
        r = cls._tab.get(i)
        if r is None:
            r = object.__new__(cls)
            r.id = i
            cls._tab[i] = r
        return r

    def __repr__(self):
        return '&%s' % (self.id,)


class ARef(Leaf):
    """array view: storage id, flat element positions, shape, class name"""
    __slots__ = ('sid', 'idx', 'shape', 'kind', '_h')
    _tab = {}

    def __new__(cls, sid, idx, shape, kind):
        k = (sid, idx, shape, kind)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.sid, r.idx, r.shape, r.kind = k
            r._h = hash(k)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return '&arr%s%s' % (self.sid, self.shape)


class Tup(Leaf):
    __slots__ = ('items', '_h')
    _tab = {}

    def __new__(cls, items):
        items = tuple(items)
        r = cls._tab.get(items)
        if r is None:
            r = object.__new__(cls)
            r.items = items
            r._h = hash(('tup', items))
            cls._tab[items] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return _memo(self, lambda v: '(%s)' % ', '.join(map(show, v.items)))


class Vec(Leaf):
    """deep (immutable) snapshot of an array, used inside terms and results"""
    __slots__ = ('kind', 'shape', 'items', '_h')
    _tab = {}

    def __new__(cls, kind, shape, items):
        k = (kind, shape, tuple(items))
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.kind, r.shape, r.items = k
            r._h = hash(k)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return _memo(self, lambda v: '%s%s[%s]' % (v.kind, '' if len(v.shape) == 1 else v.shape, ', '.join(map(show, v.items))))


class Snap(Leaf):
    """deep snapshot of a constructed object"""
    __slots__ = ('cls', 'fields', '_h')
    _tab = {}

    def __new__(cls_, cls, fields):
        k = (cls, fields)
        r = cls_._tab.get(k)
        if r is None:
            r = object.__new__(cls_)
            r.cls, r.fields = k
            r._h = hash(k)
            cls_._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%s' % (k, show(v)) for k, v in self.fields))


class Term(Leaf):
    """opaque non-numeric value (or value of unknown type)"""
    __slots__ = ('op', 'args', 'ty', '_h')
    _tab = {}

    def __new__(cls, op, args=(), ty=None):
        k = (op, tuple(args), ty)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op, r.args, r.ty = k
            r._h = hash(k)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return _memo(self, Term._show)

    @staticmethod
    def _show(self):
        if self.op == 'sym':
            return str(self.args[0])
        return '%s(%s)' % (self.op, ', '.join(map(show, self.args)))


class Fn(Leaf):
    """callable or module-like static value"""
    __slots__ = ('kind', 'a', 'b', '_h')
    _tab = {}

    def __new__(cls, kind, a=None, b=None):
        k = (kind, a, b)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.kind, r.a, r.b = k
            r._h = hash(k)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return '<%s %r%s>' % (self.kind, self.a, '' if self.b is None else ' %r' % (self.b,))


# --------------------------------------------------------------------------
# decision diagrams


class BVar(object):
    """boolean atom"""
    __slots__ = ('op', 'args', 'id')
    _tab = {}
    _all = []

    def __new__(cls, op, args):
        k = (op, args)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op, r.args = k
            r.id = len(cls._all)
            cls._all.append(r)
            cls._tab[k] = r
        return r

    def __repr__(self):
        if self.op == 'lt0':
            return '%s < 0' % show(self.args[0])
        if self.op == 'le0':
            return '%s <= 0' % show(self.args[0])
        if self.op == 'eq0':
            return '%s == 0' % show(self.args[0])
        return '%s(%s)' % (self.op, ', '.join(map(show, self.args)))


class Ite(object):
    __slots__ = ('var', 'hi', 'lo', '_h')
    _tab = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def _mm(var, h, l):
    """merge hi/lo of a sign atom into min/max when they are the two operands"""
    if h is l:
        return h
    if isinstance(h, Num) and isinstance(l, Num):
        q = BVar._all[var].args[0]
        d = sub(h, l)
        if not d.terms or len(d.terms) != len(q.terms):
            if not d.terms:
                return h
            return None
        m = _lead(q.terms)
        if m not in d.terms:
            return None
        k = d.terms[m] / q.terms[m]
        kq = Num({mm: c * k for mm, c in q.terms.items()}, d.spec)
        if kq is not d and not (kq.terms == d.terms):
            return None
        return vmin(h, l) if k > 0 else vmax(h, l)
    if isinstance(h, Ite) and isinstance(l, Ite) and h.var == l.var:
        a = _mm(var, h.hi, l.hi)
        if a is None:
            return None
        b = _mm(var, h.lo, l.lo)
        if b is None:
            return None
        return mk(h.var, a, b)
    if isinstance(h, Tup) and isinstance(l, Tup) and len(h.items) == len(l.items):
        return None
    return None


def mk(var, hi, lo):
    if hi is lo:
        return hi
    bv = BVar._all[var]
    if bv.op in ('lt0', 'le0'):
        r = _mm(var, hi, lo)
        if r is not None:
            return r
    if bv.op == 'eq0' and isinstance(hi, Num) and isinstance(lo, Num):
        # ite(q==0, x, y) with x-y a multiple of q
        d = sub(hi, lo)
        q = bv.args[0]
        m = _lead(q.terms)
        if m in d.terms and len(d.terms) == len(q.terms):
            k = d.terms[m] / q.terms[m]
            if {mm: c * k for mm, c in q.terms.items()} == d.terms:
                return lo
    if isinstance(hi, Tup) and isinstance(lo, Tup) and len(hi.items) == len(lo.items):
        return Tup(mk_top(var, a, b) for a, b in zip(hi.items, lo.items))
    if isinstance(hi, Vec) and isinstance(lo, Vec) and hi.shape == lo.shape and hi.kind == lo.kind:
        return Vec(hi.kind, hi.shape, [mk_top(var, a, b) for a, b in zip(hi.items, lo.items)])
    k = (var, hi, lo)
    r = Ite._tab.get(k)
    if r is None:
        r = object.__new__(Ite)
        r.var, r.hi, r.lo = k
        r._h = hash((var, id(hi), id(lo)))
        Ite._tab[k] = r
    return r


def _topvar(*vs):
    t = None
    for v in vs:
        if isinstance(v, Ite) and (t is None or v.var < t):
            t = v.var
    return t


def _cof(v, var, val):
    if isinstance(v, Ite) and v.var == var:
        return v.hi if val else v.lo
    return v


_itememo = {}


def ite(c, a, b):
    """c: boolean DD"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None:
        return r
    v = _topvar(c, a, b)
    r = mk(v, ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True)),
           ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False)))
    _itememo[k] = r
    return r


def mk_top(var, hi, lo):
    """like mk but re-orders when children contain smaller variables"""
    if hi is lo:
        return hi
    return ite(mk(var, TRUE, FALSE), hi, lo)


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


class Blowup(Exception):
    pass


MAXLEAVES = 4000


def lift(f, *args):
    """apply f to the leaves of DD arguments"""
    memo = {}
    cnt = [0]

    def go(a):
        r = memo.get(a)
        if r is not None:
            return r
        v = _topvar(*a)
        if v is None:
            cnt[0] += 1
            if cnt[0] > MAXLEAVES:
                raise Blowup()
            r = f(*a)
        else:
            h = go(tuple(_cof(x, v, True) for x in a))
            l = go(tuple(_cof(x, v, False) for x in a))
            if h is l:
                r = h
            elif _mintop(h, l) <= v:
                r = ite(bvar_node(v), h, l)
            else:
                r = mk(v, h, l)
        memo[a] = r
        return r
    return go(tuple(args))


def _mintop(h, l):
    t = _topvar(h, l)
    return t if t is not None else 1 << 60


def bvar_node(v):
    return mk(v, TRUE, FALSE)


def leaves(v, out=None):
    out = [] if out is None else out
    seen = set()

    def go(x):
        if isinstance(x, Ite):
            if id(x) in seen:
                return
            seen.add(id(x))
            go(x.hi)
            go(x.lo)
        elif x not in out:
            out.append(x)
    go(v)
    return out


def guarded_leaves(v):
    """[(leaf, guard BDD)]"""
    if not isinstance(v, Ite):
        return [(v, TRUE)]
    import heapq
    out = {}
    order = []
    guard = {v: TRUE}
    q = [(v.var, 0, v)]
    n = 0
    while q:
        var, _, x = heapq.heappop(q)
        g = guard.pop(x)
        b = bvar_node(x.var)
        for child, gg in ((x.hi, band(g, b)), (x.lo, band(g, bnot(b)))):
            if gg is FALSE:
                continue
            if isinstance(child, Ite):
                if child in guard:
                    guard[child] = bor(guard[child], gg)
                else:
                    guard[child] = gg
                    n += 1
                    heapq.heappush(q, (child.var, n, child))
            elif child in out:
                out[child] = bor(out[child], gg)
            else:
                out[child] = gg
                order.append(child)
    return [(x, out[x]) for x in order]


_restmemo = {}


def restrict(v, c):
    """simplify DD v under assumption c (Coudert-Madre style)"""
    if c is TRUE or not isinstance(v, Ite):
        return v
    if c is FALSE:
        return v
    k = (v, c)
    r = _restmemo.get(k)
    if r is not None:
        return r
    t = _topvar(v, c)
    ch, cl = _cof(c, t, True), _cof(c, t, False)
    if ch is FALSE:
        r = restrict(_cof(v, t, False), cl)
    elif cl is FALSE:
        r = restrict(_cof(v, t, True), ch)
    elif not (isinstance(v, Ite) and v.var == t):
        r = restrict(v, bor(ch, cl))
    else:
        r = mk_top(t, restrict(v.hi, ch), restrict(v.lo, cl))
    _restmemo[k] = r
    return r


# ---- relations -------------------------------------------------------------


def _signed(p):
    """normalise polynomial up to positive scale: (q, flipped)"""
    lead = p.terms[_lead(p.terms)]
    q = Num({m: c / abs(lead) for m, c in p.terms.items()}, p.spec)
    if p in _sos:
        _sos.add(q)
    if lead < 0:
        r = neg(q)
        if neg(p) in _sos:
            _sos.add(r)
        return r, True
    return q, False


def _clear_pos(p):
    """multiply by provably positive denominators (even powers, sqrt, abs, exp, pi)"""
    neg_exp = {}
    for m in p.terms:
        for k, e in m:
            at = Atom._all[k]
            if e < 0 and (at.op in NONNEG_OPS or (at.op == 'sym' and at.args[0] in NONNEG_SYMS)):
                neg_exp[k] = min(neg_exp.get(k, 0), e)
    if neg_exp:
        p = mul(p, Num({tuple(sorted((k, -e) for k, e in neg_exp.items())): Fraction(1)}))
    # drop a common strictly positive monomial factor such as pi
    if p.terms:
        c, m = content(p)
        keep = []
        for k, e in m:
            at = Atom._all[k]
            if at.op == 'exp' or (at.op == 'sym' and at.args[0] in NONNEG_SYMS):
                keep.append((k, -e))
            elif at.op == 'inv' and isinstance(at.args[0], Num) and e > 0:
                # a defined reciprocal of a non-negative quantity is positive, and so is the root of that quantity
                root = [(k2, -e2) for k2, e2 in m if Atom._all[k2].op == 'sqrt' and Atom._all[k2].args[0] == at.args[0]]
                if root or nonneg(at.args[0]):
                    keep.append((k, -e))
                    keep += root
        if keep:
            p = _times(p, keep)
    return p


def _times(p, mono):
    """p times a monomial that divides every term into whole powers (no re-normalisation of reciprocal pairs)"""
    d = dict(mono)
    t = {}
    for m, c in p.terms.items():
        x = dict(m)
        for k, e in d.items():
            x[k] = x.get(k, 0) + e
            if x[k] == 0:
                del x[k]
        t[tuple(sorted(x.items()))] = c
    return Num(t, p.spec)


def _split_mm(p):
    """(atom, coef, rest) if p = coef*minmax/abs + rest with constant coef"""
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1:
            at = Atom._all[m[0][0]]
            if at.op in ('min', 'max', 'abs'):
                # the atom must not occur elsewhere
                k = m[0][0]
                if sum(1 for mm in p.terms if any(kk == k for kk, _ in mm)) == 1:
                    rest = Num({mm: cc for mm, cc in p.terms.items() if mm != m}, p.spec)
                    return at, c, rest
    return None


def clear_denominators(p):
    """polynomial with the same zeros where all denominators are non-zero"""
    for _ in range(12):
        if not p.terms:
            return p
        iv = sorted({x.id for x in p.atoms() if x.op == 'inv'})
        if not iv:
            neg_exp = {}
            for m in p.terms:
                for k, e in m:
                    if e < 0:
                        neg_exp[k] = min(neg_exp.get(k, 0), e)
            if not neg_exp:
                return p
            mm = tuple(sorted((k, -e) for k, e in neg_exp.items()))
            p = mul(p, Num({mm: Fraction(1)}))
            continue
        if len(p.terms) > 300:
            return p
        k = iv[-1]
        e = max(dict(m).get(k, 0) for m in p.terms)
        den = Atom._all[k].args[0]
        t = {}
        for m, c in p.terms.items():
            ee = dict(m).get(k, 0)
            _addto(t, mul(Num({_strip(m, k, 0): c}), power(den, e - ee)).terms)
        p = Num(_reduce(t), p.spec)
    return p


def _eq_simplify(p):
    q = clear_denominators(p)
    # a common monomial factor that cannot vanish is dropped; sqrt(q) == 0 <=> q == 0
    if len(q.terms) == 1:
        (m, c), = q.terms.items()
        if len(m) == 1:
            at = Atom._all[m[0][0]]
            if at.op in ('sqrt', 'abs'):
                return _eq_simplify(at.args[0])
            if at.op == 'exp' or (at.op == 'sym' and at.args[0] in NONNEG_SYMS):
                return ONE
            return from_atom(at, q.spec)
    return q


_relmemo = {}


def rel(op, p):
    """boolean DD for  p op 0,  op in lt, le, eq"""
    k = (op, p)
    r = _relmemo.get(k)
    if r is None:
        r = _rel(op, p)
        _relmemo[k] = r
    return r


_NUMFN = {'sqrt', 'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'inv', 'abs', 'pow', 'poly'}
_atomvals = {}


def _atomval(at):
    """value of an atom over numbers only (None otherwise)"""
    if at.id in _atomvals:
        return _atomvals[at.id]
    r = None
    xs = [numval(x) if isinstance(x, Num) else None for x in at.args]
    if xs and None not in xs:
        import math
        try:
            r = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'log2': math.log2, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
                 'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'arctan2': math.atan2, 'inv': lambda x: 1. / x,
                 'abs': abs, 'pow': lambda x, y: x ** y, 'poly': lambda x: x}[at.op](*xs)
            if isinstance(r, complex) or r != r or abs(r) > 1e12:
                r = None
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            r = None
    _atomvals[at.id] = r
    return r


def numval(p):
    """approximate value of a form over numbers, pi and elementary functions of such forms; None if it has other symbols or if
    cancellation makes the approximation unreliable"""
    import math
    val = err = 0.
    for m, c in p.terms.items():
        v = float(c)
        for k, e in m:
            at = Atom._all[k]
            if at.op == 'sym' and at.args[0] == 'pi':
                v *= math.pi ** e
            elif at.op in _NUMFN:
                w = _atomval(at)
                if w is None or (w == 0 and e < 0):
                    return None
                v *= w ** e
            else:
                return None
        val += v
        err += abs(v)
    return val if err == 0. or abs(val) > 1e-6 * err else None


def _numsign(p):
    """sign of a form built from numbers, pi, square roots of numbers and the small constant EPS (0 < EPS < 1/1000)"""
    import math
    val = err = eps = 0.
    only = True
    for m, c in p.terms.items():
        v, small, neg_ = abs(float(c)), False, c < 0
        for k, e in m:
            at = Atom._all[k]
            if at.op == 'sym' and at.args[0] == 'pi':
                v *= math.pi ** e
            elif at.op in _NUMFN:
                w = _atomval(at)
                if w is None or (w == 0 and e < 0):
                    return None
                w = w ** e
                if w < 0:
                    neg_ = not neg_
                v *= abs(w)
            elif at.op == 'sym' and at.args[0] == 'EPS' and e > 0:
                v *= 1e-3 ** e
                small = True
            else:
                return None
        if small:
            eps += v
        else:
            only = False
            val += -v if neg_ else v
            err += v
    if only:
        if len(p.terms) == 1:
            return 1 if list(p.terms.values())[0] > 0 else -1
        return None
    if abs(val) > eps + 1e-9 * err:
        return 1 if val > 0 else -1
    return None


def _rounded(x):
    at = as_atom(x)
    if at is None:
        return False
    return at.op in ('floor', 'ceil', 'int') or at.op in ('min', 'max') and any(_rounded(y) for y in at.args[0])


def _rel_int(op, p):
    """comparisons of a rounded quantity with a constant, as comparisons of the quantity itself"""
    import math
    if len(p.terms) > 2 or p.spec:
        return None
    at, cf, k = None, None, Fraction(0)
    for m, c in p.terms.items():
        if m == ():
            k = c
        elif at is None and len(m) == 1 and m[0][1] == 1:
            at, cf = Atom._all[m[0][0]], c
        else:
            return None
    if at is None or at.op not in ('floor', 'ceil', 'int', 'min', 'max', 'sqrt', 'draw'):
        return None
    t = -k / cf
    if at.op == 'draw':
        # 0 <= draw < 1
        if op == 'eq':
            return FALSE if t < 0 or t >= 1 else None
        if cf > 0:              # draw < t / draw <= t
            return TRUE if t >= 1 else FALSE if t < 0 or (t == 0 and op == 'lt') else None
        return FALSE if t >= 1 else TRUE if t < 0 or (t == 0 and op == 'le') else None
    if at.op == 'sqrt':
        # root of a non-negative quantity against a number
        if not isinstance(at.args[0], Num) or t == 0:
            return None
        d = sub(at.args[0], num(t * t))
        if op == 'eq':
            return FALSE if t < 0 else rel('eq', d)
        if t < 0:
            return FALSE if cf > 0 else TRUE
        return rel(op, d if cf > 0 else neg(d))
    if at.op in ('min', 'max'):
        xs = list(at.args[0])
        if op != 'eq' or not any(_rounded(x) for x in xs):
            return None
        # min(S) == t: no element below t and not all of them above t
        lo, hi = TRUE, TRUE
        for x in xs:
            d = sub(x, num(t))
            if at.op == 'max':
                d = neg(d)
            lo = band(lo, rel('le', neg(d)))
            hi = band(hi, rel('lt', neg(d)))
        return band(lo, bnot(hi))
    x = at.args[0]
    if not isinstance(x, Num) or x.spec:
        return None

    def below(y, v, strict):            # y < v  /  y <= v
        return rel('lt' if strict else 'le', sub(y, num(v)))

    def atmost(n):                      # rounded value <= n for an integer n
        if at.op == 'floor' or (at.op == 'int' and n >= 0):
            return below(x, n + 1, True)
        return below(x, n, False)
    if op == 'eq':
        if t.denominator != 1:
            return FALSE
        return band(atmost(t), bnot(atmost(t - 1)))
    if cf > 0:
        return atmost(Fraction(math.floor(t)) if op == 'le' else Fraction(math.ceil(t) - 1))
    # value > t  /  value >= t
    return bnot(atmost(Fraction(math.floor(t)) if op == 'lt' else Fraction(math.ceil(t) - 1)))


def _whole(p):
    if p.spec:
        return False
    for m, c in p.terms.items():
        if c.denominator != 1 or any(e < 0 or not _whole_atom(Atom._all[k]) for k, e in m):
            return False
    return True


def _whole_atom(at):
    if at.op in ('floor', 'ceil', 'int'):
        return True
    return at.op == 'mod' and all(isinstance(x, Num) and _whole(x) for x in at.args)


def _rel(op, p):
    c = p.const
    if c is not None:
        return Const({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op])
    ud = as_atom(UNDEF).id
    if any(k == ud for m in p.terms for k, e in m):
        return FALSE
    inf_id = as_atom(POSINF).id
    ci = [cc for m, cc in p.terms.items() if m == ((inf_id, 1),)]
    if ci:
        # finite quantities against an infinity
        return Const(op != 'eq' and ci[0] < 0)
    r = _rel_int(op, p)
    if r is not None:
        return r
    if op == 'le' and _whole(p):
        # p <= 0 is p < 1 for whole numbers
        return rel('lt', sub(p, ONE))
    p = _clear_pos(p)
    z = _numsign(p)
    if z is not None:
        return Const({'lt': z < 0, 'le': z <= 0, 'eq': False}[op])
    if op == 'eq':
        p = _eq_simplify(p)
        if p.const is not None:
            return Const(p.const == 0)
        q, _ = _signed(p)
        qc, qm, qp = primitive(q)
        return bvar_node(BVar('eq0', (q,)).id)
    s = _split_mm(p)
    if s is not None:
        at, cf, rest = s
        if at.op == 'abs':
            ops, kind = [at.args[0], neg(at.args[0])], 'max'
        else:
            ops, kind = sorted(at.args[0], key=lambda x: sorted(x.terms.items())), at.op
        pos = cf > 0
        # cf*min(S)+rest < 0 : OR if cf>0 else AND ; max dual
        use_or = (kind == 'min') == pos
        acc = FALSE if use_or else TRUE
        for o in ops:
            t = rel(op, add(mul(num(cf), o), rest))
            acc = bor(acc, t) if use_or else band(acc, t)
        return acc
    q, fl = _signed(p)
    if nonneg(q):
        # q>=0 known
        if not fl:
            return FALSE if op == 'lt' else rel('eq', q)
        return TRUE if op == 'le' else bnot(rel('eq', q))
    if not fl:
        return bvar_node(BVar('lt0' if op == 'lt' else 'le0', (q,)).id)
    # p = -q : p<0 <=> q>0 <=> not q<=0 ; p<=0 <=> not q<0
    return bnot(bvar_node(BVar('le0' if op == 'lt' else 'lt0', (q,)).id))


def bvars(v):
    s = set()
    seen = set()

    def go(x):
        if isinstance(x, Ite):
            if id(x) in seen:
                return
            seen.add(id(x))
            s.add(x.var)
            go(x.hi)
            go(x.lo)
    go(v)
    return s


def theory(vs):
    """implications between sign atoms on the same polynomial up to a constant"""
    groups = {}
    for v in vs:
        b = BVar._all[v]
        if b.op in ('lt0', 'le0', 'eq0'):
            q = b.args[0]
            base = tuple(sorted((m, c) for m, c in q.terms.items() if m != ()))
            # positive-scaled forms share the leading coefficient 1 already
            k = q.terms.get((), Fraction(0))
            groups.setdefault(base, []).append((-k, b))
    # opposite orientation never occurs: _signed fixes the sign of the lead
    cons = TRUE
    for base, lst in groups.items():
        # atom: X < t / X <= t / X == t
        cuts = []
        for t, b in lst:
            if b.op == 'lt0':
                cuts.append((t, 0, b))
            elif b.op == 'le0':
                cuts.append((t, 1, b))
        cuts.sort(key=lambda x: (x[0], x[1]))
        for (t1, s1, b1), (t2, s2, b2) in zip(cuts, cuts[1:]):
            cons = band(cons, bor(bnot(bvar_node(b1.id)), bvar_node(b2.id)))
        for t, b in lst:
            if b.op == 'eq0':
                e = bvar_node(b.id)
                for t2, s2, b2 in cuts:
                    holds = t < t2 or (t == t2 and s2 == 1)
                    x = bvar_node(b2.id)
                    cons = band(cons, bor(bnot(e), x if holds else bnot(x)))
                lt = [b2 for t2, s2, b2 in cuts if t2 == t and s2 == 0]
                le = [b2 for t2, s2, b2 in cuts if t2 == t and s2 == 1]
                if lt and le:
                    # X<=t and not X<t  ->  X==t
                    cons = band(cons, bor(e, bor(bvar_node(lt[0].id), bnot(bvar_node(le[0].id)))))
                for t3, b3 in lst:
                    if b3.op == 'eq0' and b3 is not b and t3 != t:
                        cons = band(cons, bnot(band(e, bvar_node(b3.id))))
    return cons


def unsat(c):
    if c is FALSE:
        return True
    if c is TRUE:
        return False
    return band(c, theory(bvars(c))) is FALSE


def implies(a, b):
    return unsat(band(a, bnot(b)))


_necmemo = {}


def necessary(c):
    """literals {var: bool} true on every path of c to TRUE"""
    if not isinstance(c, Ite):
        return {}
    r = _necmemo.get(c)
    if r is not None:
        return r
    if c.hi is FALSE:
        r = dict(necessary(c.lo))
        r[c.var] = False
    elif c.lo is FALSE:
        r = dict(necessary(c.hi))
        r[c.var] = True
    else:
        a, b = necessary(c.hi), necessary(c.lo)
        r = {k: v for k, v in a.items() if b.get(k) == v}
    _necmemo[c] = r
    return r


def under(v, lits, memo=None):
    """cofactor of the DD v by literals"""
    memo = {} if memo is None else memo

    def go(x):
        if not isinstance(x, Ite):
            return x
        r = memo.get(x)
        if r is None:
            k = lits.get(x.var)
            if k is True:
                r = go(x.hi)
            elif k is False:
                r = go(x.lo)
            else:
                h, l = go(x.hi), go(x.lo)
                r = x if (h is x.hi and l is x.lo) else mk_top(x.var, h, l)
            memo[x] = r
        return r
    return go(v)


def show(v, depth=0):
    if isinstance(v, Ite):
        if v.hi is TRUE and v.lo is FALSE:
            return '[%r]' % BVar._all[v.var]
        if v.hi is FALSE and v.lo is TRUE:
            return '[not %r]' % BVar._all[v.var]
        if depth > 12:
            return '...'
        return '(%r ? %s : %s)' % (BVar._all[v.var], show(v.hi, depth + 1), show(v.lo, depth + 1))
    if isinstance(v, frozenset):
        return '{%s}' % ', '.join(sorted(map(show, v)))
    return repr(v)


LOSSY = {'iter', 'comp', 'generator', 'star', 'pop', 'blowup', 'missing', 'undefined', 'unbound', 'upd', 'uninit', 'bcast',
         'filter', 'map', 'list*', 'tuple*', 'cyclic', 'static', 'next', 'with', 'more', 'first', 'exc', 'handler', 'poly', 'lazy'}


def _libcall(op, args):
    # an uninterpreted library operation: equal arguments give equal results, nothing else is known
    if op.startswith('bin'):
        return True
    return op == 'call' and args and isinstance(args[0], Const) and isinstance(args[0].v, str) and (
        ('.' in args[0].v and not args[0].v.startswith(('pytracer', 'sa_spec'))) or hasattr(builtins, args[0].v))


def decided_part(d, extra=()):
    """the part of a condition that is true whatever the forgotten values are: every test of one of them is quantified away"""
    memo, lm = {}, {}

    def go(x):
        if not isinstance(x, Ite):
            return x
        r = memo.get(x)
        if r is None:
            v = lm.get(x.var)
            if v is None:
                v = lm[x.var] = lossy(mk(x.var, TRUE, FALSE), extra) is not None
            h, l = go(x.hi), go(x.lo)
            r = memo[x] = band(h, l) if v else mk_top(x.var, h, l)
        return r
    return go(d)


def lossy(v, extra=()):
    """does the value depend on something the analysis forgot (loop state, unsupported construct)?"""
    seen = set()
    found = []

    def go(x):
        if isinstance(x, (str, int, Fraction, type(None))):
            return
        if isinstance(x, tuple):
            if x and x[0] == 'loop':
                found.append(x)
                return
            for y in x:
                go(y)
            return
        if id(x) in seen or found:
            return
        seen.add(id(x))
        if isinstance(x, Ite):
            b = BVar._all[x.var]
            if b.op in LOSSY or b.op in extra or _libcall(b.op, b.args):
                found.append(b)
                return
            for a in b.args:
                go(a)
            go(x.hi)
            go(x.lo)
        elif isinstance(x, Num):
            for a in x.atoms():
                go(a)
        elif isinstance(x, Atom):
            if x.op in LOSSY or x.op in extra or _libcall(x.op, x.args):
                found.append(x)
                return
            for a in x.args:
                go(a)
        elif isinstance(x, Term):
            if x.op in LOSSY or x.op in extra or _libcall(x.op, x.args):
                found.append(x)
                return
            for a in x.args:
                go(a)
        elif isinstance(x, (Tup, Vec)):
            for a in x.items:
                go(a)
        elif isinstance(x, Snap):
            for k, a in x.fields:
                go(a)
        elif isinstance(x, frozenset):
            for a in x:
                go(a)
        elif isinstance(x, (Ref,)):
            go(x.id)
    go(v)
    return found[0] if found else None
