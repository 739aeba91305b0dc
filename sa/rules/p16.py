"""Sampling routines: domains, densities, distributions."""
EXPLANATION = '''
Every warping function is summarised for symbolic random numbers; the Jacobian of the summarised map is formed by symbolic
differentiation of its normal form and multiplied by the advertised density, which must give exactly one. Range and unit-length
clauses are compared as normal forms. Tabulated distributions are checked with symbolic bin values for small bin counts.
'''
LEVEL = 'other'

SPEC = '''
import pytracer.montecarlo as mc
from pytracer.geometry import Vector

def _jac2(w, u1, u2):
    ax, ay, az = _D(w.x, u1), _D(w.y, u1), _D(w.z, u1)
    bx, by, bz = _D(w.x, u2), _D(w.y, u2), _D(w.z, u2)
    cx, cy, cz = ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx
    return cx * cx + cy * cy + cz * cz

def _len2(w):
    return w.x * w.x + w.y * w.y + w.z * w.z

def f_uniform_sphere(u1: float, u2: float):
    assert 0. < u1 and u1 < 1.
    w = mc.uniform_sample_sphere(u1, u2)
    p = mc.uniform_sphere_pdf()
    return {'unit': _len2(w) == 1., 'density': _jac2(w, u1, u2) * p * p == 1., 'positive': p > 0.}

def f_uniform_sphere_ends(u2: float):
    a, b = mc.uniform_sample_sphere(0., u2), mc.uniform_sample_sphere(1., u2)
    return {'poles': a.z * b.z == -1.}

def f_uniform_hemisphere(u1: float, u2: float):
    assert 0. < u1 and u1 < 1.
    w = mc.uniform_sample_hemisphere(u1, u2)
    p = mc.uniform_hemisphere_pdf()
    return {'unit': _len2(w) == 1., 'density': _jac2(w, u1, u2) * p * p == 1., 'upper': w.z >= 0., 'positive': p > 0.}

def f_uniform_disk(u1: float, u2: float):
    assert 0. < u1 and u1 < 1.
    x, y = mc.uniform_sample_disk(u1, u2)
    j = _D(x, u1) * _D(y, u2) - _D(x, u2) * _D(y, u1)
    return {'inside': x * x + y * y <= 1., 'density': j * j == np.pi * np.pi}

def _concentric(u1, u2):
    x, y = mc.concentric_sample_disk(u1, u2)
    j = _D(x, u1) * _D(y, u2) - _D(x, u2) * _D(y, u1)
    return x, y, j

def f_concentric_right(u1: float, u2: float):
    assert 0. <= u1 and u1 <= 1. and 0. <= u2 and u2 <= 1.
    assert u1 + u2 > 1. and u1 > u2
    x, y, j = _concentric(u1, u2)
    t = (2. * u2 - 1.) / (2. * u1 - 1.) * np.pi / 4.
    return {'density': j * j == np.pi * np.pi, 'x': x == (2. * u1 - 1.) * np.cos(t), 'y': y == (2. * u1 - 1.) * np.sin(t)}

def f_concentric_top(u1: float, u2: float):
    assert 0. <= u1 and u1 <= 1. and 0. <= u2 and u2 <= 1.
    assert u1 + u2 > 1. and u1 < u2
    x, y, j = _concentric(u1, u2)
    t = (2. * u1 - 1.) / (2. * u2 - 1.) * np.pi / 4.
    return {'density': j * j == np.pi * np.pi, 'x': x == (2. * u2 - 1.) * np.sin(t), 'y': y == (2. * u2 - 1.) * np.cos(t)}

def f_concentric_left(u1: float, u2: float):
    assert 0. <= u1 and u1 <= 1. and 0. <= u2 and u2 <= 1.
    assert u1 + u2 < 1. and u1 < u2
    x, y, j = _concentric(u1, u2)
    t = (2. * u2 - 1.) / (2. * u1 - 1.) * np.pi / 4.
    return {'density': j * j == np.pi * np.pi, 'x': x == (2. * u1 - 1.) * np.cos(t), 'y': y == (2. * u1 - 1.) * np.sin(t)}

def f_concentric_bottom(u1: float, u2: float):
    assert 0. <= u1 and u1 <= 1. and 0. <= u2 and u2 <= 1.
    assert u1 + u2 < 1. and u1 > u2
    x, y, j = _concentric(u1, u2)
    t = (2. * u1 - 1.) / (2. * u2 - 1.) * np.pi / 4.
    return {'density': j * j == np.pi * np.pi, 'x': x == (2. * u2 - 1.) * np.sin(t), 'y': y == (2. * u2 - 1.) * np.cos(t)}

def f_concentric_centre():
    x, y = mc.concentric_sample_disk(.5, .5)
    return x == 0. and y == 0.

def _cosine(u1, u2):
    w = mc.cosine_sample_hemisphere(u1, u2)
    p = mc.cosine_hemisphere_pdf(w.z, 0.)
    return {'unit': _len2(w) == 1., 'upper': w.z >= 0., 'density': _jac2(w, u1, u2) * p * p == 1.}

def f_cosine_right(u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 > 1. and u1 > u2
    return _cosine(u1, u2)

def f_cosine_top(u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 > 1. and u1 < u2
    return _cosine(u1, u2)

def f_cosine_left(u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 < 1. and u1 < u2
    return _cosine(u1, u2)

def f_cosine_bottom(u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 < 1. and u1 > u2
    return _cosine(u1, u2)

def f_cosine_pdf(c: float, p: float):
    return {'value': mc.cosine_hemisphere_pdf(c, p) * np.pi == c}

def f_triangle(u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    a, b = mc.uniform_sample_triangle(u1, u2)
    j = _D(a, u1) * _D(b, u2) - _D(a, u2) * _D(b, u1)
    return {'inside_a': a >= 0., 'inside_b': b >= 0., 'inside_c': a + b <= 1., 'density': 4. * j * j == 1.}

def f_cone(u1: float, u2: float, c: float):
    assert 0. < u1 and u1 < 1. and -1. < c and c < 1.
    w = mc.uniform_sample_cone(u1, u2, c)
    p = mc.uniform_cone_pdf(c)
    return {'unit': _len2(w) == 1., 'density': _jac2(w, u1, u2) * p * p == 1., 'positive': p > 0., 'inside': w.z >= c}

def f_cone_frame(u1: float, u2: float, c: float):
    assert 0. < u1 and u1 < 1. and -1. < c and c < 1.
    w = mc.uniform_sample_cone(u1, u2, c, Vector(0., 0., 1.), Vector(1., 0., 0.), Vector(0., 1., 0.))
    p = mc.uniform_cone_pdf(c)
    return {'unit': _len2(w) == 1., 'density': _jac2(w, u1, u2) * p * p == 1., 'inside': w.y >= c, 'kind': isinstance(w, Vector)}

def f_hg(u1: float, u2: float, g: float):
    assert 0. < u1 and u1 < 1. and 0.1 < g * g and -1. < g and g < 1.
    w = Vector(0., 0., 1.)
    q = (1. - g * g) / (1. - g + 2. * g * u1)
    c = (1. + g * g - q * q) / (2. * g)
    assert 1. - c * c > 0.
    s = mc.sample_hg(w, g, u1, u2)
    p = mc.hg_pdf(w, s, g)
    assert s.z < 1. and s.z > -1.
    j = _D(s.z, u1)
    return {'unit': _len2(s) == 1., 'density': 4. * np.pi * np.pi * j * j * p * p == 1.}

def f_hg_weak(u1: float, u2: float):
    # a weak preference of direction is still a preference
    assert 0. < u1 and u1 < 1. and EPS < .0001
    g = .005
    w = Vector(0., 0., 1.)
    s = mc.sample_hg(w, g, u1, u2)
    p = mc.hg_pdf(w, s, g)
    j = _D(s.z, u1)
    return {'density': 4. * np.pi * np.pi * j * j * p * p == 1.}

def f_hg_isotropic(u1: float, u2: float):
    assert 0. < u1 and u1 < 1.
    w = Vector(0., 0., 1.)
    s = mc.sample_hg(w, 0., u1, u2)
    p = mc.hg_pdf(w, s, 0.)
    return {'unit': _len2(s) == 1., 'density': _jac2(s, u1, u2) * p * p == 1.}

def f_balance(nf: int, f: float, ng: int, g: float):
    assert nf > 0 and ng > 0 and f > 0. and g > 0.
    a, b = mc.balance_heuristic(nf, f, ng, g), mc.balance_heuristic(ng, g, nf, f)
    return {'partition_of_unity': a + b == 1., 'ratio': a * ng * g == b * nf * f, 'range': a >= 0. and a <= 1.}

def f_power(nf: int, f: float, ng: int, g: float):
    assert nf > 0 and ng > 0 and f > 0. and g > 0.
    a, b = mc.power_heuristic(nf, f, ng, g), mc.power_heuristic(ng, g, nf, f)
    return {'partition_of_unity': a + b == 1., 'ratio': a * ng * ng * g * g == b * nf * nf * f * f, 'range': a >= 0. and a <= 1.}

def f_heuristic_only(nf: int, f: float, ng: int):
    assert nf > 0 and ng > 0 and f > 0.
    return {'balance': mc.balance_heuristic(nf, f, ng, 0.) == 1., 'power': mc.power_heuristic(nf, f, ng, 0.) == 1.}

def f_rejection(rng):
    x, y = mc.rejection_sample_disk(rng)
    return x * x + y * y <= 1.

class Tape:
    def __init__(self, xs):
        self.xs, self.i = xs, 0

    def __call__(self):
        self.i += 1
        return self.xs[self.i - 1]

def f_rejection_first(a: float, b: float):
    assert 0. < a and a < 1. and 0. < b and b < 1. and (2. * a - 1.) * (2. * a - 1.) + (2. * b - 1.) * (2. * b - 1.) < 1.
    s, t = Tape([a, b, .5, .5, .5, .5]), Tape([1. - a, 1. - b, .5, .5, .5, .5])
    x, y = mc.rejection_sample_disk(s)
    p, q = mc.rejection_sample_disk(t)
    j = _D(x, a) * _D(y, b) - _D(x, b) * _D(y, a)
    return {'square': j * j == 16., 'centred': x + p == 0. and y + q == 0., 'two numbers': s.i == 2}

def f_rejection_again(a: float, b: float, c: float):
    assert 0. < a and a < 1. and 0. < b and b < 1. and (2. * a - 1.) * (2. * a - 1.) + (2. * b - 1.) * (2. * b - 1.) < 1.
    s, t = Tape([.01, .02, a, b, .5, .5, .5, .5]), Tape([.99, .01, 1. - a, 1. - b, .5, .5, .5, .5])
    x, y = mc.rejection_sample_disk(s)
    p, q = mc.rejection_sample_disk(t)
    j = _D(x, a) * _D(y, b) - _D(x, b) * _D(y, a)
    return {'square': j * j == 16., 'centred': x + p == 0. and y + q == 0., 'fresh numbers': s.i == 4}

def f_distribution_1d(a: float, b: float, c: float, u: float):
    assert a > 0. and b > 0. and c > 0. and 0. < u and u < 1.
    d = mc.Distribution1D([a, b, c])
    x, p = d.sample_cont(u)
    n = a + b + c
    z = 3. * x
    cdf = (a * z / n) if z <= 1. else ((a + b * (z - 1.)) / n if z <= 2. else (a + b + c * (z - 2.)) / n)
    f = a if z <= 1. else (b if z <= 2. else c)
    return {'inverts_cdf': cdf == u, 'in_range': x >= 0. and x <= 1., 'density': p * n == 3. * f, 'jacobian': p * _D(x, u) == 1.,
            'integral': d.cdf_raw * 3. == n}

def f_distribution_1d_discrete(a: float, b: float, c: float, u: float):
    assert a > 0. and b > 0. and c > 0. and 0. < u and u < 1.
    d = mc.Distribution1D([a, b, c])
    i, p = d.sample_dis(u)
    n = a + b + c
    return {'index': i == (0 if u * n <= a else (1 if u * n <= a + b else 2)),
            'probability': p * n == (a if u * n <= a else (b if u * n <= a + b else c))}

def f_distribution_1d_ends(a: float, b: float):
    assert a > 0. and b > 0.
    d = mc.Distribution1D([a, b])
    x0, p0 = d.sample_cont(0.)
    i0, q0 = d.sample_dis(0.)
    return {'start': x0 == 0. and i0 == 0, 'start_density': p0 * (a + b) == 2. * a}

def f_distribution_1d_owns(a: float, b: float, c: float):
    arr = np.array([a, b])
    d = mc.Distribution1D(arr)
    arr[0] = c
    return {'owns_storage': d.func[0] == a}

def f_distribution_2d(a: float, b: float, c: float, e: float, u: float, v: float):
    assert a > 0. and b > 0. and c > 0. and e > 0. and 0. < u and u < 1. and 0. < v and v < 1.
    d = mc.Distribution2D(np.array([[a, b], [c, e]]))
    (x, y), p = d.sample_cont(u, v)
    n = a + b + c + e
    row = v * n <= a + b
    f, g = (a, b) if row else (c, e)
    s = f + g
    ey = v * n / (a + b) / 2. if row else .5 + (v * n - a - b) / (c + e) / 2.
    ex = u * s / f / 2. if u * s <= f else .5 + (u * s - f) / g / 2.
    val = f if u * s <= f else g
    return {'v': y == ey, 'u': x == ex, 'density': p * n == 4. * val}

def f_distribution_2d_shapes():
    # more columns than rows, and more rows than columns
    d = mc.Distribution2D(np.array([[1., 2., 3.], [4., 5., 6.]]))
    t = mc.Distribution2D(np.array([[1., 4.], [2., 5.], [3., 6.]]))
    (x, y), p = d.sample_cont(.5, .5)
    (a, b), q = t.sample_cont(.9, .25)
    # wide: rows weigh 6 and 15 of 21; tall: rows weigh 5, 7 and 9 of 21
    return {'wide_pdf': d.pdf(.5, .25) * 21. == 12. and d.pdf(.9, .75) * 21. == 36. and d.pdf(.1, .9) * 21. == 24. and d.pdf(.7, .1) * 21. == 18.,
            'tall_pdf': t.pdf(.25, .5) * 21. == 12. and t.pdf(.75, .9) * 21. == 36. and t.pdf(.75, .1) * 21. == 24. and t.pdf(.1, .9) * 21. == 18.,
            'wide': 15. * (2. * y - 1.) == 4.5 and 5. * (3. * x - 1.) == 3.5 and p * 21. == 30.,
            'tall': 7. * (3. * b - 1.) == .25 and 5. * (2. * a - 1.) == 4.3 and q * 21. == 30.}

def f_distribution_2d_dark():
    # a row without any weight is never chosen and has no density; the others keep theirs
    d = mc.Distribution2D(np.array([[0., 0.], [0., 0.], [1., 3.]]))
    return {'dark': d.pdf(.25, .1) == 0. and d.pdf(.75, .5) == 0., 'lit': d.pdf(.25, .9) * 4. == 6. and d.pdf(.75, .9) * 4. == 18.}

def f_distribution_2d_pdf(a: float, b: float, c: float, e: float):
    assert a > 0. and b > 0. and c > 0. and e > 0.
    d = mc.Distribution2D(np.array([[a, b], [c, e]]))
    n = a + b + c + e
    return {'00': d.pdf(.25, .25) * n == 4. * a, '10': d.pdf(.75, .25) * n == 4. * b,
            '01': d.pdf(.25, .75) * n == 4. * c, '11': d.pdf(.75, .75) * n == 4. * e, 'corner': d.pdf(1., 1.) * n == 4. * e}
'''
KW = {}


def check(ctx):
    ctx.rule('sampling', 'sampling clause holds for every argument (exact normal forms, symbolic Jacobians)')
    mod = ctx.spec(SPEC, 'p16')
    ctx.prove_spec('sampling', mod, 'pytracer/montecarlo', KW)
