"""Film: filtered accumulation, splatting, extents, output image."""
EXPLANATION = '''
A film with a fixed small crop window (origin off zero, different along both axes) receives a sample at an arbitrary raster position,
with arbitrary filter widths, filter table and radiance; the loops over the covered pixels have symbolic ends between the clamps and are
unrolled with a presence guard per pixel. The state of every pixel afterwards is compared with the weight the filter table assigns to
it, and the image assembled from arbitrary pixel states with the normalised, splat-scaled reconstruction, axis by axis.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.utility as util
from pytracer import Spectrum, FILTER_TABLE_SIZE
from pytracer.spectral import rgb2xyz, xyz2rgb
from pytracer.filter import *
from pytracer.film import *
from pytracer.sampler import CameraSample
import pytracer.utility.imageio as iio

class Probe(Filter):
    # filter with an arbitrary profile
    def __init__(self, xw, yw, inner):
        super().__init__(xw, yw)
        self.inner = inner

    def __call__(self, x, y):
        return self.inner(x, y)

class Row:
    def __init__(self, j, inner):
        self.j, self.inner = j, inner

    def __getitem__(self, i):
        return self.inner(i, self.j)

class Table:
    def __init__(self, inner):
        self.inner = inner

    def __getitem__(self, j):
        return Row(j, self.inner)

class PixelView:
    def __init__(self):
        self.log = []

def f_extent(xr: float, yr: float, a: float, b: float, c: float, d: float, xw: float, yw: float, inner: 'Filter'):
    assert xr > 0. and yr > 0. and xw > 0. and yw > 0.
    f = ImageFilm(xr, yr, Probe(xw, yw, inner), [a, b, c, d])
    x0, y0 = np.ceil(xr * a), np.ceil(yr * c)
    nx, ny = np.maximum(1, np.ceil(xr * b) - x0), np.maximum(1, np.ceil(yr * d) - y0)
    p, s = f.get_pixel_extent(), f.get_sample_extent()
    return {'resolution': f.xResolution == xr and f.yResolution == yr, 'start': f.xPixel_start == x0 and f.yPixel_start == y0,
            'count': f.xPixel_cnt == nx and f.yPixel_cnt == ny, 'pixel_extent': p[0] == x0 and p[1] == x0 + nx and p[2] == y0 and p[3] == y0 + ny,
            'sample_extent': s[0] == np.floor(x0 + .5 - xw) and s[1] == np.floor(x0 + .5 + nx + xw) and s[2] == np.floor(y0 + .5 - yw)
            and s[3] == np.floor(y0 + .5 + ny + yw)}

def _film(xw, yw, inner):
    # 8 x 6 image, pixels 2..4 horizontally and 3..4 vertically
    return ImageFilm(8, 6, Probe(xw, yw, inner), [.25, .625, .5, 5. / 6.])

def f_window(inner: 'Filter'):
    f = _film(1., 1., inner)
    ok = True
    for i in range(3):
        for j in range(2):
            p = f.pixels[i][j]
            ok = ok and p.weight_sum == 0. and p.Lxyz[0] == 0. and p.Lxyz[1] == 0. and p.Lxyz[2] == 0. and p.splatXYZ[0] == 0. and p.splatXYZ[2] == 0.
    return {'window': f.xPixel_start == 2 and f.xPixel_cnt == 3 and f.yPixel_start == 3 and f.yPixel_cnt == 2, 'clear': ok,
            'own': f.pixels[0][0] is not f.pixels[1][0] and f.pixels[0][0] is not f.pixels[0][1]}

def f_table(xw: float, yw: float, inner: 'Filter'):
    f = _film(xw, yw, inner)
    ok = True
    for j in [0, 1, 7, 15]:
        for i in [0, 3, 8, 15]:
            ok = ok and f.filter_table[j, i] == inner((i + .5) * xw / 16, (j + .5) * yw / 16)
    return {'table': ok, 'size': FILTER_TABLE_SIZE == 16}

def _weight(inner, x, y, ix, iy, xw, yw):
    dx, dy = x + .5 - ix, y + .5 - iy
    if -xw <= dx and dx <= xw and -yw <= dy and dy <= yw:
        return inner(np.minimum(15, np.floor(np.fabs(dx * 16 / xw))), np.minimum(15, np.floor(np.fabs(dy * 16 / yw))))
    return 0.

def _add(xw, yw, ix, iy, L, inner, pi, pj):
    f = _film(xw, yw, inner)
    f.filter_table = Table(inner)
    f.add_sample(CameraSample(ix, iy), L)
    w = _weight(inner, 2 + pi, 3 + pj, ix, iy, xw, yw)
    p, xyz = f.pixels[pi][pj], rgb2xyz(L)
    return {'weight': p.weight_sum == w, 'radiance': p.Lxyz[0] == w * xyz[0] and p.Lxyz[1] == w * xyz[1] and p.Lxyz[2] == w * xyz[2],
            'splat': p.splatXYZ[0] == 0. and p.splatXYZ[1] == 0. and p.splatXYZ[2] == 0.}

def f_add_first(xw: float, yw: float, ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    assert xw > 0. and yw > 0.
    return _add(xw, yw, ix, iy, L, inner, 0, 0)

def f_add_last(xw: float, yw: float, ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    assert xw > 0. and yw > 0.
    return _add(xw, yw, ix, iy, L, inner, 2, 1)

def f_add_mid(xw: float, yw: float, ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    assert xw > 0. and yw > 0.
    return _add(xw, yw, ix, iy, L, inner, 1, 0)

def f_add_narrow(ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    # the branch that takes no lock
    return _add(.5, .5, ix, iy, L, inner, 1, 1)

def f_add_twice(ix: float, iy: float, L: Spectrum, M: Spectrum, inner: 'Filter'):
    f = _film(.5, .75, inner)
    f.filter_table = Table(inner)
    f.add_sample(CameraSample(ix, iy), L)
    f.add_sample(CameraSample(3.5, 4.5), M)
    p = f.pixels[1][1]
    w, v = _weight(inner, 3, 4, ix, iy, .5, .75), inner(0, 0)
    a, b = rgb2xyz(L), rgb2xyz(M)
    return {'weight': p.weight_sum == w + v, 'radiance': p.Lxyz[0] == w * a[0] + v * b[0] and p.Lxyz[2] == w * a[2] + v * b[2]}

def f_splat(ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    f = _film(1., 1., inner)
    f.splat(CameraSample(ix, iy), L)
    xyz = L.to_xyz()
    ok, off = True, True
    for i in range(3):
        for j in range(2):
            p = f.pixels[i][j]
            k = 1. if 2 + i <= ix and ix < 3 + i and 3 + j <= iy and iy < 4 + j else 0.
            ok = ok and p.splatXYZ[0] == k * xyz[0] and p.splatXYZ[1] == k * xyz[1] and p.splatXYZ[2] == k * xyz[2]
            off = off and p.weight_sum == 0. and p.Lxyz[0] == 0.
    return {'pixel': ok, 'rest': off}

def _fill(p, a, s, w):
    p.Lxyz = np.array(a)
    p.splatXYZ = np.array(s)
    p.weight_sum = w

def capture(filename, rgb, alpha, xRes, yRes, xFullRes, yFullRes, xOffset, yOffset):
    return [filename, rgb, alpha, xRes, yRes, xFullRes, yFullRes, xOffset, yOffset]

def f_image(a: float, b: float, c: float, p: float, q: float, r: float, w: float, k: float, inner: 'Filter'):
    f = _film(1., 1., inner)
    _fill(f.pixels[2][1], [a, b, c], [p, q, r], w)
    g = f.write_image(k)
    u, v = xyz2rgb([a, b, c]), xyz2rgb([p, q, r])
    ok = True
    for i in range(3):
        e = np.maximum(0., u[i] / w) if w != 0. else u[i]
        ok = ok and g[1][1, 2, i] == e + k * v[i]
    return {'file': g[0] == '.tmp.png', 'value': ok, 'geometry': g[3] == 3 and g[4] == 2 and g[5] == 8 and g[6] == 6 and g[7] == 2 and g[8] == 3,
            'alpha': g[2] is None, 'others': g[1][0, 0, 0] == 0. and g[1][0, 2, 1] == 0. and g[1][1, 0, 2] == 0.}

'''
KW = {'f_image': {'replace': {'pytracer.utility.imageio.write_image': 'capture'}}}


def _crop_write(ctx):
    # rgb is [row, column, channel]; the stored window must be rows [yOffset, yOffset + yRes), columns [xOffset, xOffset + xRes)
    from ..terms import Tup, Const, sym, add, NONE
    fi = ctx.func('pytracer.utility.imageio.write_image')
    with ctx.guard('crop_write', 'imageio.write_image'):
        e = ctx.engine()
        e.run(fi, given={'alpha': NONE})
        n = 0
        for ev in e.events:
            if ev.kind != 'setitem':
                continue
            idx = ev.data[1]
            if not (isinstance(idx, Tup) and len(idx.items) >= 2 and all(
                    isinstance(x, Tup) and x.items and x.items[0] is Const('slice') and len(x.items) == 4 for x in idx.items[:2])):
                continue
            if all(x is NONE for y in idx.items[:2] for x in y.items[1:]):
                continue        # whole channels
            n += 1
            want = [(sym('yOffset'), add(sym('yOffset'), sym('yRes'))), (sym('xOffset'), add(sym('xOffset'), sym('xRes')))]
            got = [x.items[1:3] for x in idx.items[:2]]
            ok = all(tuple(g) == w for g, w in zip(got, want))
            ctx.ob('crop_write', 'imageio.write_image', ok, '' if ok else 'the window is stored at %r' % (got,), ev.fi.loc(ev.node))
        if not n:
            ctx.ob('crop_write', 'imageio.write_image', None, 'no window store found')


def check(ctx):
    ctx.rule('crop_write', 'a cropped image is stored at rows offset by y and columns offset by x')
    _crop_write(ctx)
    ctx.rule('film', 'film clause holds for every position, filter profile, radiance and pixel state (exact normal forms)')
    mod = ctx.spec(SPEC, 'p09')
    ctx.prove_spec('film', mod, 'pytracer/film', KW)
