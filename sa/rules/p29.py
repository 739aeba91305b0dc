"""Numeric helpers and spherical coordinates."""
EXPLANATION = '''
Every helper is summarised for an arbitrary argument and compared with its definition as an exact normal form (tolerance EPS kept
symbolic); rounding helpers by their defining inequalities, spherical coordinates by inversion against the direction they encode.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.utility as util
from pytracer.utility.utility import is_zero, not_zero
import pytracer.geometry as geo
from pytracer import EPS, Spectrum

def f_lerp(t: float, a: float, b: float):
    return {'value': util.lerp(t, a, b) == a + t * (b - a), 'start': util.lerp(0., a, b) == a, 'end': util.lerp(1., a, b) == b}

def f_lerp_points(t: float, a: geo.Point, b: geo.Point):
    p = util.lerp(t, a, b)
    return {'value': p.x == a.x + t * (b.x - a.x) and p.y == a.y + t * (b.y - a.y) and p.z == a.z + t * (b.z - a.z)}

def f_lerp_array(t: float, u: float, a: float, b: float, c: float, d: float):
    x = util.ufunc_lerp(t, np.array([a, b]), np.array([c, d]))
    y = util.ufunc_lerp(np.array([t, u]), a, b)
    return {'slots': x[0] == util.lerp(t, a, c) and x[1] == util.lerp(t, b, d), 'spread': y[0] == util.lerp(t, a, b) and y[1] == util.lerp(u, a, b)}

def f_floor(x: float):
    n = util.ftoi(x)
    return {'below': n <= x, 'tight': x < n + 1, 'whole': n == np.floor(x)}

def f_ceil(x: float):
    n = util.ctoi(x)
    return {'above': n >= x, 'tight': n < x + 1., 'whole': n == np.ceil(x)}

def f_round(x: float):
    n = util.rtoi(x)
    return {'near': n <= x + .5 and x - .5 <= n, 'whole': n == np.round(x)}

def f_clip(x: float, lo: float, hi: float):
    assert lo <= hi
    return {'inside': util.clip(x, lo, hi) >= lo and util.clip(x, lo, hi) <= hi, 'value': util.clip(x, lo, hi) == (lo if x < lo else hi if x > hi else x),
            'default': util.clip(x) == (0. if x < 0. else x)}

def f_clip_spectrum(s: Spectrum):
    c, d = util.clip(s), util.clip(s, .25, .75)
    return {'default': c.c[0] == max(0., s.c[0]) and c.c[1] == max(0., s.c[1]) and c.c[2] == max(0., s.c[2]),
            'range': d.c[0] == min(.75, max(.25, s.c[0])) and d.c[1] == min(.75, max(.25, s.c[1])) and d.c[2] == min(.75, max(.25, s.c[2]))}

def f_unity(x: float):
    d = np.fabs(x - 1.)
    z = np.fabs(x)
    return {'eq': util.eq_unity(x) == (d < EPS), 'ne': util.ne_unity(x) == (d > EPS), 'zero': is_zero(x) == (z < EPS), 'not_zero': not_zero(x) == (z > EPS)}

def f_black(x: float):
    return {'number': util.is_black(x) == (np.fabs(x) < EPS)}

def f_black_array(a: float, b: float, c: float):
    return {'array': util.is_black(np.array([a, b, c])) == (np.fabs(a) < EPS and np.fabs(b) < EPS and np.fabs(c) < EPS)}

def f_pow2(x: float):
    assert x >= 1.
    return {'next': util.next_pow_2(x) == int(2 ** np.ceil(np.log2(x))), 'round': util.round_pow_2(x) == int(2 ** np.round(np.log2(x)))}

def f_pow2_values():
    n, r, p = True, True, True
    w = [1, 1, 2, 4, 4, 8, 8, 8, 8, 16]
    v = [1, 1, 2, 4, 4, 4, 8, 8, 8, 8]
    for k in range(1, 10):
        n = n and util.next_pow_2(k) == w[k]
        r = r and util.round_pow_2(k) == v[k]
        p = p and util.is_pow_2(k) == (k in (1, 2, 4, 8))
    return {'next': n, 'round': r, 'test': p, 'large': util.next_pow_2(1025) == 2048 and util.next_pow_2(1024) == 1024 and util.is_pow_2(4096) and not util.is_pow_2(4095)}

def f_normalize(v: geo.Vector):
    w = geo.normalize(v)
    k = np.sqrt(v.x * v.x + v.y * v.y + v.z * v.z)
    return {'value': k == 0. or w.x * k == v.x and w.y * k == v.y and w.z * k == v.z, 'unit': k == 0. or w.x * w.x + w.y * w.y + w.z * w.z == 1.,
            'null': k != 0. or w.x == 0. and w.y == 0. and w.z == 0.}

def f_spherical(th: float, ph: float):
    assert th >= 0. and th <= np.pi and ph > 0. and ph < 2. * np.pi
    d = geo.spherical_direction(np.sin(th), np.cos(th), ph)
    return {'unit': d.x * d.x + d.y * d.y + d.z * d.z == 1., 'theta': np.cos(geo.spherical_theta(d)) == np.cos(th),
            'value': d.x == np.sin(th) * np.cos(ph) and d.y == np.sin(th) * np.sin(ph) and d.z == np.cos(th)}

def f_spherical_basis(a: float, b: float, ph: float, x: geo.Vector, y: geo.Vector, z: geo.Vector):
    d = geo.spherical_direction(a, b, ph, x, y, z)
    return {'x': d.x == a * np.cos(ph) * x.x + a * np.sin(ph) * y.x + b * z.x, 'y': d.y == a * np.cos(ph) * x.y + a * np.sin(ph) * y.y + b * z.y,
            'z': d.z == a * np.cos(ph) * x.z + a * np.sin(ph) * y.z + b * z.z}

def f_spherical_phi(v: geo.Vector):
    p = geo.spherical_phi(v)
    r = np.sqrt(v.x * v.x + v.y * v.y)
    return {'range': p > 0. and p <= 2. * np.pi, 'value': p == np.arctan2(v.y, v.x) or p == np.arctan2(v.y, v.x) + 2. * np.pi}
'''
KW = {}


def check(ctx):
    ctx.rule('numeric', 'helper clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p29')
    ctx.prove_spec('numeric', mod, 'pytracer/utility/utility.py', KW)
