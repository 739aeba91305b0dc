"""Symbolic differentiation of normal forms (spec intrinsic ``_D(value, symbol)``).

Used to state that the density of a sampling map is the reciprocal of its Jacobian: both the code and its derivative are terms,
nothing is executed."""
from . import terms as T
from .terms import Num, ZERO, ONE, num, add, mul, div, neg, app, from_atom


class NoDerivative(Exception):
    pass


def d(v, x, memo=None):
    """derivative of a (gated) number with respect to the symbol atom x"""
    memo = {} if memo is None else memo
    if isinstance(v, T.Ite):
        return T.lift(lambda l: d(l, x, memo), v)
    if not isinstance(v, Num):
        raise NoDerivative(repr(v)[:60])
    k = id(v)
    if k in memo:
        return memo[k]
    out = ZERO
    for a in v.atoms():
        da = datom(a, x, memo)
        if da is ZERO:
            continue
        # partial derivative of the polynomial with respect to the atom
        acc = ZERO
        for m, c in v.terms.items():
            e = dict(m).get(a.id, 0)
            if not e:
                continue
            rest = tuple((i, n - 1 if i == a.id else n) for i, n in m if not (i == a.id and n == 1))
            acc = add(acc, mul(num(e), Num(T._reduce({rest: c}))))
        out = add(out, T.lift(lambda p, q: mul(p, q), acc, da) if isinstance(da, T.Ite) else mul(acc, da))
    memo[k] = out
    return out


def datom(a, x, memo):
    if a is x:
        return ONE
    if a.op == 'sym':
        return ZERO
    g = a.args
    if not _mentions(a, x):
        return ZERO

    def ch(f, i=0):
        return T.lift(lambda p: mul(f, p), d(g[i], x, memo))
    if a.op == 'poly':
        return d(g[0], x, memo)
    if a.op == 'inv':
        q = from_atom(a)
        return ch(neg(mul(q, q)))
    if a.op == 'sqrt':
        return ch(div(num(1), mul(num(2), from_atom(a))))
    if a.op == 'sin':
        return ch(app('cos', g[0]))
    if a.op == 'cos':
        return ch(neg(app('sin', g[0])))
    if a.op == 'exp':
        return ch(from_atom(a))
    if a.op == 'log':
        return ch(div(ONE, g[0]))
    if a.op == 'abs':
        return ch(div(from_atom(a), g[0]))
    if a.op == 'arccos':
        return ch(neg(div(ONE, T.sqrt(T.sub(ONE, mul(g[0], g[0]))))))
    if a.op == 'arctan':
        return ch(div(ONE, add(ONE, mul(g[0], g[0]))))
    if a.op == 'arctan2':
        y, xx = g
        den = add(mul(y, y), mul(xx, xx))
        return T.lift(lambda p, q: div(T.sub(mul(xx, p), mul(y, q)), den), d(y, x, memo), d(xx, x, memo))
    if a.op == 'pow':
        if isinstance(g[1], Num) and not _mentions_v(g[1], x):
            return ch(mul(g[1], div(from_atom(a), g[0])))
    raise NoDerivative(a.op)


def _mentions(a, x):
    return a is x or any(_mentions_v(y, x) for y in a.args)


def _mentions_v(v, x):
    if isinstance(v, Num):
        return any(_mentions(b, x) for b in v.atoms())
    if isinstance(v, T.Atom):
        return _mentions(v, x)
    if isinstance(v, T.Ite):
        return any(_mentions_v(l, x) for l in T.leaves(v))
    if isinstance(v, (tuple, frozenset)):
        return any(_mentions_v(y, x) for y in v)
    if isinstance(v, (T.Tup, T.Vec)):
        return any(_mentions_v(y, x) for y in v.items)
    if isinstance(v, T.Term):
        return any(_mentions_v(y, x) for y in v.args)
    return False
