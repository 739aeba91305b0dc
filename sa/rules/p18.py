"""Reconstruction filters: published kernels, symmetry, support."""
EXPLANATION = '''
Every filter class is summarised at an arbitrary position with arbitrary extents and parameters and compared with its published kernel
as an exact normal form; the array form (a symbolic position in every slot) must agree with the scalar form slot by slot.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import EPS
from pytracer.filter import *

def f_box(xw: float, yw: float, x: float, y: float):
    assert xw > 0. and yw > 0.
    f = BoxFilter(xw, yw)
    return {'constant': f(x, y) == 1., 'extent': f.xw == xw and f.yw == yw and f.xwInv * xw == 1. and f.ywInv * yw == 1.}

def f_triangle(xw: float, yw: float, x: float, y: float):
    assert xw > 0. and yw > 0.
    f = TriangleFilter(xw, yw)
    inside = np.fabs(x) < xw and np.fabs(y) < yw
    return {'value': f(x, y) == ((xw - np.fabs(x)) * (yw - np.fabs(y)) if inside else 0.), 'extent': f.xw == xw and f.yw == yw}

def f_triangle_peak(xw: float, yw: float, x: float, y: float):
    assert xw > 0. and yw > 0.
    f = TriangleFilter(xw, yw)
    return {'peak': f(0., 0.) == xw * yw, 'even': f(x, y) == f(-x, y) and f(x, y) == f(x, -y), 'edge': f(xw, y) == 0. and f(x, -yw) == 0.,
            'nonnegative': f(x, y) >= 0.}

def f_gaussian(xw: float, yw: float, a: float, x: float, y: float):
    assert xw > 0. and yw > 0. and a > 0.
    f = GaussianFilter(xw, yw, a)
    gx = max(0., np.exp(-a * x * x) - np.exp(-a * xw * xw))
    gy = max(0., np.exp(-a * y * y) - np.exp(-a * yw * yw))
    return {'value': f(x, y) == gx * gy, 'extent': f.xw == xw and f.yw == yw, 'even': f(x, y) == f(-x, -y), 'edge': f(xw, y) == 0. and f(x, yw) == 0.,
            'nonnegative': f(x, y) >= 0.}

def _mitchell(B, C, t):
    t = np.fabs(2. * t)
    if t <= 1.:
        return ((12. - 9. * B - 6. * C) * t ** 3 + (-18. + 12. * B + 6. * C) * t ** 2 + 6. - 2. * B) / 6.
    return ((-B - 6. * C) * t ** 3 + (6. * B + 30. * C) * t ** 2 + (-12. * B - 48. * C) * t + 8. * B + 24. * C) / 6.

def f_mitchell(B: float, C: float, xw: float, yw: float, u: float, v: float):
    assert xw > 0. and yw > 0. and u <= 1. and u >= -1. and v <= 1. and v >= -1.
    f = MitchellFilter(B, C, xw, yw)
    return {'value': f(u * xw, v * yw) == _mitchell(B, C, u) * _mitchell(B, C, v), 'extent': f.xw == xw and f.yw == yw}

def f_mitchell_1d(B: float, C: float, xw: float, yw: float, t: float):
    assert xw > 0. and yw > 0. and t < 1. and t > 0.
    f = MitchellFilter(B, C, xw, yw)
    return {'kernel': f.mitchell(t) == _mitchell(B, C, t), 'even': f.mitchell(t) == f.mitchell(-t), 'edge': f.mitchell(1.) == 0.,
            'continuous': f.mitchell(.5) == B / 6. and f.mitchell(-.5) == B / 6., 'unity': f.mitchell(t / 2.) + f.mitchell((1. - t) / 2.) + f.mitchell((1. + t) / 2.) + f.mitchell((2. - t) / 2.) == 1.}

def f_mitchell_arr(B: float, C: float, xw: float, yw: float, a: float, b: float, c: float, d: float):
    assert xw > 0. and yw > 0.
    f = MitchellFilter(B, C, xw, yw)
    r = f(np.array([a, b]), np.array([c, d]))
    return {'slots': r[0] == f(a, c) and r[1] == f(b, d)}

def _sinc(t):
    return np.sinc(t)

def f_lanczos(tau: float, xw: float, yw: float, u: float, v: float):
    assert xw > 0. and yw > 0. and tau > 0. and u > EPS and v > EPS and u < 1. and v < 1.
    f = LanczosSincFilter(xw, yw, tau)
    return {'value': f(u * xw, -v * yw) == _sinc(u) * _sinc(u * tau) * _sinc(v) * _sinc(v * tau), 'extent': f.xw == xw and f.yw == yw and f.tau == tau}

def f_lanczos_1d(tau: float, xw: float, yw: float, t: float):
    assert xw > 0. and yw > 0. and tau > 0. and t >= EPS
    f = LanczosSincFilter(xw, yw, tau)
    s = f.sinc(t)
    return {'kernel': s == (0. if t > 1. else _sinc(t) * _sinc(t * tau)), 'even': s == f.sinc(-t), 'centre': f.sinc(0.) == 1., 'origin': f(0., 0.) == 1.}

def f_lanczos_arr(tau: float, xw: float, yw: float, a: float, b: float):
    assert xw > 0. and yw > 0. and tau > 0.
    f = LanczosSincFilter(xw, yw, tau)
    r = f.sinc(np.array([a, b]))
    return {'first': r[0] == f.sinc(a), 'second': r[1] == f.sinc(b)}

def f_lanczos_arr_call(tau: float, a: float, c: float):
    assert tau > 0.
    f = LanczosSincFilter(1., 1., tau)
    r = f(np.array([a, .5]), np.array([.25, c]))
    return {'first': r[0] == f(a, .25), 'second': r[1] == f(.5, c)}

def f_array(xw: float, yw: float, al: float, a: float, b: float, c: float, d: float):
    assert xw > 0. and yw > 0. and al > 0.
    f, g = TriangleFilter(xw, yw), GaussianFilter(xw, yw, al)
    x, y = np.array([a, b]), np.array([c, d])
    r, s = f(x, y), g(x, y)
    return {'triangle': r[0] == f(a, c) and r[1] == f(b, d), 'gaussian': s[0] == g(a, c) and s[1] == g(b, d), 'argument': x[0] == a and y[1] == d}

def f_repr(xw: float, yw: float):
    assert xw > 0. and yw > 0.
    return {'repr': isinstance(repr(BoxFilter(xw, yw)), str)}
'''
KW = {}


def check(ctx):
    ctx.rule('filter', 'kernel clause holds for every extent, parameter and position (exact normal forms)')
    mod = ctx.spec(SPEC, 'p18')
    ctx.prove_spec('filter', mod, 'pytracer/filter/filter.py', KW)
