"""Sample generation: stratification, traversal, tiling."""
EXPLANATION = '''
The stratified and latin-hypercube generators are summarised with every random draw an arbitrary number in [0, 1) and every shuffle an
arbitrary permutation; each stratum of each dimension must hold exactly one sample. One call of the sampler from an arbitrary position
is summarised and its step compared with the row-major successor, which gives complete traversal by induction; sub-windows are
compared with a partition of the window.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.utility as util
from pytracer.sampler import *
from pytracer.sampler.sampler import Sampler

def _count(vals, n, k):
    # number of values in stratum k of n
    c = 0
    for v in vals:
        c = c + (1 if k <= v * n and v * n < k + 1 else 0)
    return c

def _each(vals, n):
    ok = True
    for k in range(n):
        ok = ok and _count(vals, n, k) == 1
    return ok

def _cells(vals, nx, ny):
    ok = True
    for i in range(nx):
        for j in range(ny):
            c = 0
            for v in vals:
                c = c + (1 if i <= v[0] * nx and v[0] * nx < i + 1 and j <= v[1] * ny and v[1] * ny < j + 1 else 0)
            ok = ok and c == 1
    return ok

def f_stratified_1d():
    a, b = stratified_sample_1d(3), stratified_sample_1d(3, False)
    return {'size': len(a) == 3 and len(b) == 3, 'strata': _each(a, 3), 'centred': b[0] == 1. / 6. and b[1] == .5 and b[2] == 5. / 6.}

def f_stratified_2d():
    a, b = stratified_sample_2d(3, 2), stratified_sample_2d(3, 2, False)
    return {'size': len(a) == 6 and len(b) == 6, 'strata': _cells(a, 3, 2), 'centred': _cells(b, 3, 2) and b[0][1] == .25 and b[5][1] == .75}

def f_stratified_rng():
    def half(n):
        return np.ones(n) * .5
    a, b = stratified_sample_1d(2, True, half), stratified_sample_2d(1, 2, True, half)
    return {'one': a[0] == .25 and a[1] == .75, 'two': b[0][0] == .5 and b[0][1] == .25 and b[1][1] == .75}

def f_latin_1d():
    a = latin_hypercube_1d(3)
    return {'size': len(a) == 3, 'strata': _each(a, 3)}

def f_latin_2d():
    a = latin_hypercube_2d(3)
    return {'size': len(a) == 3, 'first': _each(a[:, 0], 3), 'second': _each(a[:, 1], 3)}

def f_latin_2d_four():
    a = latin_hypercube_2d(4)
    return {'size': len(a) == 4, 'first': _each(a[:, 0], 4), 'second': _each(a[:, 1], 4)}

def _sampler(xs, xe, ys, ye, x, y, nx, ny, jitter, t0, t1):
    s = StratifiedSampler(xs, xe, ys, ye, nx, ny, jitter, t0, t1)
    s.xPos, s.yPos = x, y
    return s

def f_start(xs: float, xe: float, ys: float, ye: float, t0: float, t1: float):
    s = StratifiedSampler(xs, xe, ys, ye, 2, 3, True, t0, t1)
    o = StratifiedSampler(xs, xe, ys, ye, 0, -1, True, t0, t1)
    return {'position': s.xPos == xs and s.yPos == ys, 'count': s.maximum_sample_cnt() == 6 and s.spp == 6, 'at_least_one': o.maximum_sample_cnt() == 1,
            'window': s.xPixel_start == xs and s.xPixel_end == xe and s.yPixel_start == ys and s.yPixel_end == ye, 'round': s.round_size(17) == 17}

def f_step(xs: float, xe: float, ys: float, ye: float, x: float, y: float):
    assert xs <= x and x <= xe - 1. and ys <= y and y <= ye - 1.
    s = _sampler(xs, xe, ys, ye, x, y, 1, 1, False, 0., 1.)
    q = [Sample()]
    more = s.generate(q)
    nx, ny = (x + 1., y) if x + 1. < xe else (xs, y + 1.)
    return {'more': more, 'next': s.xPos == nx and s.yPos == ny, 'pixel': q[0].imageX == x + .5 and q[0].imageY == y + .5}

def f_done(xs: float, xe: float, ys: float, ye: float, a: float, b: float):
    s = _sampler(xs, xe, ys, ye, xs, ye, 1, 1, False, 0., 1.)
    q = [Sample()]
    q[0].imageX, q[0].imageY = a, b
    more = s.generate(q)
    return {'none': not more, 'untouched': q[0].imageX == a and q[0].imageY == b, 'stays': s.xPos == xs and s.yPos == ye}

def f_generate(x: float, y: float, t0: float, t1: float):
    assert t0 < t1
    s = _sampler(x - 2., x + 5., y - 3., y + 4., x, y, 2, 2, True, t0, t1)
    q = [Sample(), Sample(), Sample(), Sample()]
    more = s.generate(q)
    return {'pixel': _cells([(a.imageX - x, a.imageY - y) for a in q], 2, 2)}

def f_generate_lens(t0: float, t1: float):
    s = _sampler(0., 5., 0., 4., 1., 1., 2, 2, True, t0, t1)
    q = [Sample(), Sample(), Sample(), Sample()]
    more = s.generate(q)
    return {'lens': _cells([(a.lens_u, a.lens_v) for a in q], 2, 2)}

def f_generate_time(t0: float, d: float):
    assert d > 0.
    s = _sampler(0., 5., 0., 4., 1., 1., 3, 1, True, t0, t0 + d)
    q = [Sample(), Sample(), Sample()]
    more = s.generate(q)
    return {'time': _each([(a.time - t0) / d for a in q], 3)}

def _swap_rows(a):
    if a.ndim == 1:
        a[0], a[1] = a[1], a[0]
    else:
        for k in range(2):
            a[0, k], a[1, k] = a[1, k], a[0, k]

def f_shuffled(x: float, y: float):
    # the shuffle is one that exchanges two samples: lens and time positions follow it, image positions do not
    assert y < 4.
    s = _sampler(0., 5., 0., 4., x, y, 2, 1, False, 0., 1.)
    q = [Sample(), Sample()]
    more = s.generate(q)
    return {'image': q[0].imageX == x + .25 and q[1].imageX == x + .75, 'lens': q[0].lens_u == .75 and q[1].lens_u == .25, 'time': q[0].time == .75 and q[1].time == .25}

class Request:
    def request_samples(self, sampler, sample, scene):
        self.a = sample.add_1d(3)
        self.b = sample.add_2d(2)
        self.c = sample.add_1d(1)

class Request2:
    def request_samples(self, sampler, sample, scene):
        self.a = sample.add_2d(3)

def f_requests():
    r, v = Request(), Request2()
    o = Sample(None, r, v, None)
    s = _sampler(0., 5., 0., 4., 1., 1., 2, 1, True, 0., 1.)
    q = o.duplicate(2)
    more = s.generate(q)
    ok1, ok2, ok3, n = True, True, True, True
    for a in q:
        n = n and len(a.oneD) == 2 and len(a.twoD) == 2 and len(a.oneD[r.a]) == 3 and len(a.oneD[r.c]) == 1 and len(a.twoD[r.b]) == 2 and len(a.twoD[v.a]) == 3
        ok1 = ok1 and _each(a.oneD[r.a], 3) and _each(a.oneD[r.c], 1)
        ok2 = ok2 and _each(a.twoD[r.b][:, 0], 2) and _each(a.twoD[r.b][:, 1], 2)
        ok3 = ok3 and _each(a.twoD[v.a][:, 0], 3) and _each(a.twoD[v.a][:, 1], 3)
    return {'index': r.a == 0 and r.c == 1 and r.b == 0 and v.a == 1, 'sizes': n, 'one_dim': ok1, 'two_dim': ok2, 'second_request': ok3,
            'own_storage': q[0].oneD is not q[1].oneD and q[0].twoD is not q[1].twoD, 'template': o.oneD[0] is None}

def f_window_whole(xs: float, xe: float, ys: float, ye: float):
    w = StratifiedSampler(xs, xe, ys, ye, 1, 1, True, 0., 1.).compute_subwindow(0, 1)
    return {'whole': w[0] == np.floor(xs) and w[1] == np.floor(xe) and w[2] == np.floor(ys) and w[3] == np.floor(ye)}

def _tiles(xs, xe, ys, ye, nx, ny):
    s = StratifiedSampler(xs, xe, ys, ye, 1, 1, True, 0., 1.)
    ok = True
    for j in range(ny):
        for i in range(nx):
            w = s.compute_subwindow(j * nx + i, nx * ny)
            ok = ok and w[0] == np.floor(xs + (xe - xs) * i / nx) and w[1] == np.floor(xs + (xe - xs) * (i + 1) / nx) \\
                and w[2] == np.floor(ys + (ye - ys) * j / ny) and w[3] == np.floor(ys + (ye - ys) * (j + 1) / ny)
    return ok

def f_window_wide(xs: float, ys: float, h: float):
    assert h > 0.
    return {'four': _tiles(xs, xs + 4. * h, ys, ys + h, 4, 1), 'two': _tiles(xs, xs + 2. * h, ys, ys + h, 2, 1)}

def f_window_tall(xs: float, ys: float, h: float):
    assert h > 0.
    return {'four': _tiles(xs, xs + h, ys, ys + 5. * h, 1, 4)}

def f_window_square(xs: float, ys: float, h: float):
    assert h > 0.
    return {'four': _tiles(xs, xs + h, ys, ys + h, 2, 2), 'three': _tiles(xs, xs + h, ys, ys + h, 3, 1)}

def f_subsampler(xs: float, ys: float, h: float, t0: float, t1: float):
    assert h > 0.
    s = StratifiedSampler(xs, xs + h, ys, ys + h, 2, 3, False, t0, t1)
    p = s.get_subsampler(1, 2)
    w = s.compute_subwindow(1, 2)
    if w[0] == w[1] or w[2] == w[3]:
        return {'empty': p is None}
    if p is None:
        return {'nonempty': False}
    return {'window': p.xPixel_start == w[0] and p.xPixel_end == w[1] and p.yPixel_start == w[2] and p.yPixel_end == w[3], 'grid': p.xSamples == 2 and p.ySamples == 3,
            'rest': p.jitter == False and p.s_open == t0 and p.s_close == t1, 'start': p.xPos == w[0] and p.yPos == w[2]}

def f_subsampler_empty(xs: float, ys: float):
    s = StratifiedSampler(xs, xs, ys, ys + 4., 1, 1, False, 0., 1.)
    return {'none': s.get_subsampler(0, 1) is None}

def f_record(a: float, b: float, c: float, d: float, e: float):
    s = CameraSample(a, b, c, d, e)
    p = Sample(None, None, None, None, a, b, c, d, e)
    return {'camera': s.imageX == a and s.imageY == b and s.lens_u == c and s.lens_v == d and s.time == e,
            'sample': p.imageX == a and p.imageY == b and p.lens_u == c and p.lens_v == d and p.time == e, 'repr': isinstance(repr(s), str)}
'''
KW = {'f_shuffled': {'replace': {'ext:numpy.random.shuffle': '_swap_rows'}}}


def check(ctx):
    ctx.rule('sampler', 'sampler clause holds for every argument, random draw and permutation (exact normal forms)')
    mod = ctx.spec(SPEC, 'p10')
    ctx.prove_spec('sampler', mod, 'pytracer/sampler', KW)
