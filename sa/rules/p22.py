"""Textures: mappings, procedural textures, noise, image pyramids."""
EXPLANATION = '''
Every texture mapping, procedural texture, the noise functions and the image pyramid are interpreted for arbitrary shading points, filter widths
and texel values and compared with their definitions: exact forms for the closed formulas, the Perlin gradient table and fade polynomials for
noise, the integral of the check pattern for the filtered checkerboard, box averages and normalised tent weights for image look-ups.
'''
LEVEL = 'other'
LATTICE = [((32, 246, 247), (150, 218, 212)),
           ((121, 66, 189), (132, 223, 154)),
           ((202, 227, 68), (14, 143, 83)),
           ((149, 134, 79), (184, 70, 193)),
           ((256, 256, 256), (242, 198, 218)),
           ((256, 113, 137), (138, 115, 61)),
           ((121, 154, 223), (23, 63, 25)),
           ((16, 101, 208), (17, 97, 161)),
           ((10, 192, 68), (215, 149, 138)),
           ((187, 49, 18), (208, 118, 172)),
           ((215, 197, 179), (180, 180, 142)),
           ((69, 253, 111), (136, 145, 63)),
           ((240, 132, 119), (203, 77, 118)),
           ((242, 33, 6), (192, 235, 197)),
           ((98, 240, 243), (21, 173, 160)),
           ((77, 199, 7), (32, 81, 21))]

SPEC = '''
import math
import numpy as np
import pytracer.geometry as geo
from pytracer import EPS, INV_PI, INV_2PI, PI, Spectrum
import pytracer.transform as trans
from pytracer.spectral.spectrum import RGBSpectrum
from pytracer.texture.texturemap import (UVMapping2D, SphericalMapping2D, CylindricalMapping2D, PlannarMapping2D, IdentityMapping3D)
from pytracer.texture.texture import (ConstantTexture, ScaleTexture, MixTexture, BilerpTexture, UVTexture, Chekcerboard2DTexture, Checkboard3DTexture,
    DotsTexture, FBmTexture, WrinkledTexture, WindyTexture, MarbleTexture, ImageTexture)
import pytracer.texture.utility as tu
from pytracer.texture.utility import (Lanczos, smooth_step, FBm, turbulence, noise, MIPMap, ImageWrap)

class Dg:
    # what a texture reads of a shading point
    def __init__(self, p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', u: float, v: float, dudx: float, dvdx: float, dudy: float, dvdy: float):
        self.p, self.dpdx, self.dpdy = p, dpdx, dpdy
        self.u, self.v, self.dudx, self.dvdx, self.dudy, self.dvdy = u, v, dudx, dvdx, dudy, dvdy

class Map2:
    def __init__(self, r):
        self.r = r
    def __call__(self, dg):
        return self.r

class Tex:
    def __init__(self, dg, v):
        self.dg, self.v = dg, v
    def __call__(self, dg):
        if dg is not self.dg:
            raise ValueError
        return self.v

def _dg(p, dx, dy):
    return Dg(p, dx, dy, 0., 0., 0., 0., 0., 0.)

def _eq(r, *v):
    if len(r) != len(v):
        return False
    ok = True
    for i in range(len(v)):
        ok = ok and r[i] == v[i]
    return ok

def f_uv(su: float, sv: float, du: float, dv: float, u: float, v: float, a: float, b: float, c: float, d: float):
    dg = Dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.), u, v, a, b, c, d)
    r = UVMapping2D(su, sv, du, dv)(dg)
    return {'uv': _eq(r, su * u + du, sv * v + dv, su * a, sv * b, su * c, sv * d)}

def f_planar(vs: 'geo.Vector', vt: 'geo.Vector', ds: float, dt: float, p: 'geo.Point', x: 'geo.Vector', y: 'geo.Vector'):
    r = PlannarMapping2D(vs, vt, ds, dt)(_dg(p, x, y))
    def dot(a, b):
        return a.x * b.x + a.y * b.y + a.z * b.z
    return {'st': _eq(r, ds + dot(p, vs), dt + dot(p, vt), dot(x, vs), dot(x, vt), dot(y, vs), dot(y, vt)), 'kept': _eq(vs, vs.x, vs.y, vs.z)}

def f_identity3d(w: 'trans.Transform', p: 'geo.Point', x: 'geo.Vector', y: 'geo.Vector'):
    q, a, b = IdentityMapping3D(w)(_dg(p, x, y))
    q0, a0, b0 = w(p), w(x), w(y)
    return {'point': _eq(q, q0.x, q0.y, q0.z), 'dx': _eq(a, a0.x, a0.y, a0.z), 'dy': _eq(b, b0.x, b0.y, b0.z)}

class World:
    # some world to texture transformation
    def __call__(self, p):
        return geo.Point(2. * p.z, 1. - p.x, 3. * p.y)

def _sphere(q):
    n = geo.normalize(q - geo.Point(0., 0., 0.))
    return geo.spherical_theta(n) * INV_PI, geo.spherical_phi(n) * INV_2PI

def _cylinder(q):
    n = geo.normalize(q - geo.Point(0., 0., 0.))
    return (PI + np.arctan2(n.y, n.x)) * INV_2PI, n.z

def _forward(m, f, w, p, x, y):
    s, t, sx, tx, sy, ty = m(_dg(p, x, y))
    s0, t0 = f(w(p))
    a, b = f(w(p + .1 * x))
    c, d = f(w(p + .1 * y))
    qx, qy = (b - t0) / .1, (d - t0) / .1
    return {'s': s == s0, 't': t == t0, 'dsdx': sx == (a - s0) / .1, 'dsdy': sy == (c - s0) / .1,
            'dtdx': tx == qx or qx > .5 or qx < -.5, 'dtdy': ty == qy or qy > .5 or qy < -.5,
            # across the seam: one period less, whichever its sign
            'seam x': not qx > .5 or tx == 1. - qx or tx == qx - 1., 'back over the seam x': not qx < -.5 or tx == 1. + qx or tx == -1. - qx,
            'seam y': not qy > .5 or ty == 1. - qy or ty == qy - 1., 'back over the seam y': not qy < -.5 or ty == 1. + qy or ty == -1. - qy}

def f_spherical(p: 'geo.Point', x: 'geo.Vector', y: 'geo.Vector'):
    w = World()
    return _forward(SphericalMapping2D(w), _sphere, w, p, x, y)

def f_cylindrical(p: 'geo.Point', x: 'geo.Vector', y: 'geo.Vector'):
    w = World()
    return _forward(CylindricalMapping2D(w), _cylinder, w, p, x, y)

def f_simple(a: float, b: float, t: float, s: float, c: float, d: float, q: float):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    x, y, w = Tex(dg, a), Tex(dg, b), Tex(dg, t)
    m = Map2([s, q, 1., 2., 3., 4.])
    return {'constant': ConstantTexture(a)(dg) == a, 'scale': ScaleTexture(x, y)(dg) == a * b, 'mix': MixTexture(x, y, w)(dg) == (1. - t) * a + t * b,
            'bilerp': BilerpTexture(m, a, b, c, d)(dg) == (1. - s) * ((1. - q) * a + q * b) + s * ((1. - q) * c + q * d)}

def f_uvtexture(s: float, t: float):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    r = UVTexture(Map2([s, t, 1., 2., 3., 4.]))(dg)
    return {'rgb': _eq(r, s - math.floor(s), t - math.floor(t), 0.)}

def f_checks(s: float, t: float, sx: float, tx: float, sy: float, ty: float):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    c = Chekcerboard2DTexture(Map2([s, t, sx, tx, sy, ty]), Tex(dg, 0), Tex(dg, 1), 'none')
    return {'parity': c(dg) == (0 if (math.floor(s) + math.floor(t)) % 2 == 0 else 1)}

def f_checks3d(p: 'geo.Point'):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    c = Checkboard3DTexture(Map2([p, None, None]), Tex(dg, 0), Tex(dg, 1))
    return {'parity': c(dg) == (0 if (math.floor(p.x) + math.floor(p.y) + math.floor(p.z)) % 2 == 0 else 1)}

def _odd(x):
    # length of [0, x] covered by odd unit intervals
    k = math.floor(x / 2.)
    r = x - 2. * k
    return k + (r - 1. if r > 1. else 0.)

def _filtered(s, t, sx, tx, sy, ty, a, b, ds, dt):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    r = Chekcerboard2DTexture(Map2([s, t, sx, tx, sy, ty]), Tex(dg, a), Tex(dg, b))(dg)
    fs, ft = (_odd(s + ds) - _odd(s - ds)) / (2. * ds), (_odd(t + dt) - _odd(t - dt)) / (2. * dt)
    odd = fs * (1. - ft) + (1. - fs) * ft
    return {'covered': r == (1. - odd) * a + odd * b}

def f_checks_filtered_a(s: float, t: float, sx: float, tx: float, sy: float, ty: float, a: float, b: float):
    assert sx > 0. and abs(sy) < sx and sx < 1. and ty < 0. and abs(tx) < -ty and ty > -1.
    assert math.floor(s - sx) != math.floor(s + sx)
    return _filtered(s, t, sx, tx, sy, ty, a, b, sx, -ty)

def f_checks_filtered_b(s: float, t: float, sx: float, tx: float, sy: float, ty: float, a: float, b: float):
    assert sy > 0. and abs(sx) < sy and sy < 1. and tx < 0. and abs(ty) < -tx and tx > -1.
    assert math.floor(t + tx) != math.floor(t - tx)
    return _filtered(s, t, sx, tx, sy, ty, a, b, sy, -tx)

def f_checks_inside(s: float, t: float, sx: float, tx: float, sy: float, ty: float):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    ds, dt = max(abs(sx), abs(sy)), max(abs(tx), abs(ty))
    assert math.floor(s - ds) == math.floor(s + ds) and math.floor(t - dt) == math.floor(t + dt)
    r = Chekcerboard2DTexture(Map2([s, t, sx, tx, sy, ty]), Tex(dg, 0), Tex(dg, 1))(dg)
    return {'parity': r == (0 if (math.floor(s) + math.floor(t)) % 2 == 0 else 1)}

def f_checks_wide(s: float, t: float, sx: float, tx: float, sy: float, ty: float, a: float, b: float, turn: bool):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    assert sx > 1. and abs(sy) < sx and math.floor(s - sx) != math.floor(s + sx)
    m = Map2([t, s, tx, sx, ty, sy]) if turn else Map2([s, t, sy, ty, sx, tx])
    r = Chekcerboard2DTexture(m, Tex(dg, a), Tex(dg, b))(dg)
    return {'half': r == .5 * a + .5 * b}

def f_checks_degenerate(s: float, t: float, tx: float, ty: float, a: float, b: float, turn: bool):
    # no filter width across one coordinate
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    dt = tx
    assert tx > 0. and tx <= 1. and abs(ty) < tx and math.floor(t - dt) != math.floor(t + dt)
    m = Map2([t, s, tx, 0., ty, 0.]) if turn else Map2([s, t, 0., tx, 0., ty])
    r = Chekcerboard2DTexture(m, Tex(dg, a), Tex(dg, b))(dg)
    fs, ft = math.floor(s) % 2, (_odd(t + dt) - _odd(t - dt)) / (2. * dt)
    odd = fs * (1. - ft) + (1. - fs) * ft
    return {'covered': r == (1. - odd) * a + odd * b}

def f_lanczos(x: float, tau: float):
    y = abs(x)
    r = Lanczos(x, tau)
    return {'value': r == (1. if y < EPS else 0. if y > 1. else np.sinc(y * tau) * np.sinc(y)), 'even': Lanczos(-x, tau) == r}

def f_lanczos_list(a: float, b: float, c: float):
    v = np.array([a, b, c])
    r = Lanczos(v)
    return {'value': _eq(r, Lanczos(a), Lanczos(b), Lanczos(c)), 'kept': _eq(v, a, b, c)}

def f_smooth(lo: float, w: float, u: float):
    assert w > 0. and u > 0. and u < 1.
    return {'between': smooth_step(lo, lo + w, lo + u * w) == 3. * u * u - 2. * u * u * u, 'below': smooth_step(lo, lo + w, lo - u * w) == 0.,
            'above': smooth_step(lo, lo + w, lo + w + u * w) == 1., 'ends': smooth_step(lo, lo + w, lo) == 0. and smooth_step(lo, lo + w, lo + w) == 1.}

# stands in for the noise function
def _noise(p):
    return np.arctan2(p[0] + 2. * p[1], p[2] + 3.)

def _octaves(p, om, n, last):
    # amplitudes om^i at frequencies 1.99^i
    r, a, f = 0., 1., 1.
    for i in range(n):
        r = r + a * _noise([f * p.x, f * p.y, f * p.z])
        a, f = a * om, f * 1.99
    return r + a * last * _noise([f * p.x, f * p.y, f * p.z])

def _abs_octaves(p, om, n, last):
    r, a, f = 0., 1., 1.
    for i in range(n):
        r = r + a * abs(_noise([f * p.x, f * p.y, f * p.z]))
        a, f = a * om, f * 1.99
    return r + a * last * abs(_noise([f * p.x, f * p.y, f * p.z]))

def f_fbm(p: 'geo.Point', om: float, swap: bool):
    # footprint 1/8 by 1/8: squared length 1/64 is four octaves, limited to three
    w, q = geo.Vector(.125, 0., 0.), geo.Vector(0., 0.0625, 0.)
    a, b = (q, w) if swap else (w, q)
    return {'limited': FBm(p, a, b, om, 3) == _octaves(p, om, 3, 0.), 'footprint': FBm(p, a, b, om, 8) == _octaves(p, om, 4, 0.),
            'turbulence': turbulence(p, a, b, om, 3) == _abs_octaves(p, om, 3, 0.), 'turbulence_footprint': turbulence(p, a, b, om, 8) == _abs_octaves(p, om, 4, 0.),
            'kept': w.x == .125 and q.y == .0625}

def f_fbm_partial(p: 'geo.Point', om: float):
    # squared length 1/2: one octave and a half
    w, q = geo.Vector(.5, .5, 0.), geo.Vector(.25, 0., 0.)
    return {'fbm': FBm(p, w, q, om, 8) == _octaves(p, om, 1, smooth_step(.3, .7, .5)), 'turbulence': turbulence(p, q, w, om, 8) == _abs_octaves(p, om, 1, smooth_step(.3, .7, .5)),
            'coarse': FBm(p, geo.Vector(2., 0., 0.), q, om, 8) == _octaves(p, om, 0, 0.)}

def _grad(x, y, z, dx, dy, dz):
    # any gradient per lattice point, periodic as the table is
    i, j, k = x % 256, y % 256, z % 256
    return np.arctan2(i + 300. * j, k + 1.) * (dx + 2. * dy + 5. * dz)

def _fade(t):
    return 6. * t ** 5 - 15. * t ** 4 + 10. * t ** 3

def _perlin(i, j, k, x, y, z):
    t = 0.
    for a in range(2):
        for b in range(2):
            for c in range(2):
                w = (_fade(x) if a == 1 else 1. - _fade(x)) * (_fade(y) if b == 1 else 1. - _fade(y)) * (_fade(z) if c == 1 else 1. - _fade(z))
                t = t + w * _grad(i + a, j + b, k + c, x - a, y - b, z - c)
    return t

def f_noise_x(ri: float, rj: float, rk: float, r: float):
    i, j, k, x = math.floor(ri), math.floor(rj), math.floor(rk), r - math.floor(r)
    return {'value': noise([i + x, j + .25, k + .625]) == _perlin(i, j, k, x, .25, .625)}

def f_noise_y(ri: float, rj: float, rk: float, r: float):
    i, j, k, y = math.floor(ri), math.floor(rj), math.floor(rk), r - math.floor(r)
    return {'value': noise([i + .75, j + y, k + .375]) == _perlin(i, j, k, .75, y, .375)}

def f_noise_z(ri: float, rj: float, rk: float, r: float):
    i, j, k, z = math.floor(ri), math.floor(rj), math.floor(rk), r - math.floor(r)
    return {'value': noise([i + .75, j + .125, k + z]) == _perlin(i, j, k, .75, .125, z)}

def f_noise_lattice(ri: float, rj: float, rk: float):
    i, j, k = math.floor(ri), math.floor(rj), math.floor(rk)
    return {'zero': noise([i, j, k]) == 0.}

GRADS = [(1, 1, 0), (-1, 1, 0), (1, -1, 0), (-1, -1, 0), (1, 0, 1), (-1, 0, 1), (1, 0, -1), (-1, 0, -1), (0, 1, 1), (0, -1, 1), (0, 1, -1), (0, -1, -1),
         (1, 1, 0), (-1, 1, 0), (0, 1, -1), (0, -1, -1)]


# the gradient of lattice point (x, y, z) is the one of the sixteen selected by the hash of the point
def _gradient(x, y, z, dx, dy, dz):
    from pytracer.data.noise import NOISE_PERM
    g = GRADS[int(NOISE_PERM[int(NOISE_PERM[int(NOISE_PERM[x]) + y]) + z]) % 16]
    return tu._grad(x, y, z, dx, dy, dz) == g[0] * dx + g[1] * dy + g[2] * dz

def f_dots(s: float, t: float):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    r = DotsTexture(Map2([s, t, 1., 2., 3., 4.]), Tex(dg, 1), Tex(dg, 0))(dg)
    i, j = math.floor(s + .5), math.floor(t + .5)
    x, y = s - i - .15 * _noise([i + 1.5, j + 2.8, .5]), t - j - .15 * _noise([i + 4.5, j + 9.8, .5])
    return {'dot': r == (1 if _noise([i + .5, j + .5, .5]) > 0. and x * x + y * y < .35 * .35 else 0)}

def _fbm(p, a, b, om, n):
    return np.arctan2(p.x + 2. * p.y + 3. * p.z + 5. * n, 7. * a.x + a.y + b.x - b.z + om)

def f_bumps(p: 'geo.Point', a: 'geo.Vector', b: 'geo.Vector', om: float, n: int):
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    m = Map2([p, a, b])
    r = WindyTexture(m)(dg)
    k = FBmTexture(n, om, m)(dg)
    w = WrinkledTexture(n, om, m)(dg)
    return {'fbm': k == _fbm(p, a, b, om, n), 'wrinkled': w == 3. * _fbm(p, a, b, om, n), 'windy': r == abs(_fbm(.1 * p, .1 * a, .1 * b, .5, 3)) * _fbm(p, a, b, .5, 6)}

def _turb(p, a, b, om, n):
    return 3. * np.arctan2(p.x + 2. * p.y + 3. * p.z + 5. * n, 7. * a.x + a.y + b.x - b.z + om)

def _flat(p, a, b, om, n):
    # stand-in for the noise that does not depend on the height
    return p.x + 3. * p.z + 7. * a.x + a.y + b.x - b.z + om + n

def f_marble_noise(q: float, x: float, z: float, a: 'geo.Vector', b: 'geo.Vector', sc: float, v: float):
    # the height is shifted by the noise of the scaled point under the scaled footprint
    assert sc > 0.
    f = q - math.floor(q)
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    k = sc * (x + 3. * z + 7. * a.x + a.y + b.x - b.z) + .5 + 4
    p = geo.Point(x, (_height((2. + f) / 6.) - v * k) / sc, z)
    return {'colour': _eq(MarbleTexture(4, .5, sc, v, Map2([p, a, b]))(dg), *_marble(2, f))}

def f_marble_crest():
    # at the crest of the wave the last segment of the spline ends
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    p = geo.Point(0., np.arcsin(1.), 0.)
    return {'colour': _eq(MarbleTexture(4, .5, 1., 0., Map2([p, geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.)]))(dg), *_marble(5, 1.))}

MARBLE = [(.58, .58, .6), (.58, .58, .6), (.58, .58, .6), (.5, .5, .5), (.6, .59, .58), (.58, .58, .6), (.58, .58, .6), (.2, .2, .33), (.58, .58, .6)]

def _height(u):
    # the height whose marble parameter .5 + .5 sin(height) is u
    return np.arcsin(2. * u - 1.)

def _marble(k, f):
    # cubic Bernstein polynomial over four neighbouring control colours
    r = []
    for c in range(3):
        v = [MARBLE[k + i][c] for i in range(4)]
        r.append(1.5 * ((1. - f) ** 3 * v[0] + 3. * (1. - f) ** 2 * f * v[1] + 3. * (1. - f) * f ** 2 * v[2] + f ** 3 * v[3]))
    return r

def _img(a, b, c, d, e, f, g, h):
    return np.array([[a, b, c, d], [e, f, g, h]])

def f_texel(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    rows = [[a, b, c, d], [e, f, g, h]]
    r = {'repeat': True, 'clamp': True, 'black': True}
    m, n, k = MIPMap(float, _img(a, b, c, d, e, f, g, h)), MIPMap(float, _img(a, b, c, d, e, f, g, h), wrap=ImageWrap.CLAMP), MIPMap(float, _img(a, b, c, d, e, f, g, h), wrap=ImageWrap.BLACK)
    p, q, z = True, True, True
    for s in range(-5, 9):
        for t in range(-3, 5):
            p = p and m.texel(0, s, t) == rows[t % 2][s % 4]
            q = q and n.texel(0, s, t) == rows[max(0, min(1, t))][max(0, min(3, s))]
            z = z and k.texel(0, s, t) == (rows[t][s] if t >= 0 and t < 2 and s >= 0 and s < 4 else 0.)
    return {'repeat': p, 'clamp': q, 'black': z}

def f_levels(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    n = MIPMap(float, np.array([[a, b], [c, d], [e, f], [g, h]]), wrap=ImageWrap.CLAMP)
    return {'count': m.levels == 3 and n.levels == 3, 'size': m.width == 4 and m.height == 2 and n.width == 2 and n.height == 4,
            'wide': m.texel(1, 0, 0) == .25 * (a + b + e + f) and m.texel(1, 1, 0) == .25 * (c + d + g + h),
            'tall': n.texel(1, 0, 0) == .25 * (a + b + c + d) and n.texel(1, 0, 1) == .25 * (e + f + g + h),
            'top': m.texel(2, 0, 0) == .125 * (a + b + c + d + e + f + g + h) and n.texel(2, 0, 0) == .125 * (a + b + c + d + e + f + g + h)}

def f_levels_square(v: float, w: float):
    rows = [[v + 3. * i + w * j * j for i in range(4)] for j in range(4)]
    m = MIPMap(float, np.array(rows), wrap=ImageWrap.BLACK)
    ok, whole = True, 0.
    for t in range(2):
        for s in range(2):
            q = .25 * (rows[2 * t][2 * s] + rows[2 * t][2 * s + 1] + rows[2 * t + 1][2 * s] + rows[2 * t + 1][2 * s + 1])
            ok = ok and m.texel(1, s, t) == q
            whole = whole + .25 * q
    return {'count': m.levels == 3, 'boxes': ok, 'top': m.texel(2, 0, 0) == whole}

def f_levels_rgb(a: float, b: float, c: float):
    m = MIPMap(RGBSpectrum, np.array([[[a, b, c], [b, c, a]], [[c, a, b], [0., 0., 1.]]]))
    x = m.texel(1, 0, 0)
    return {'texel': _eq(m.texel(0, 1, 0), b, c, a) and _eq(m.texel(0, 0, 1), c, a, b), 'average': _eq(x, .25 * (a + b + c), .25 * (a + b + c), .25 * (a + b + c + 1.)),
            'class': isinstance(x, RGBSpectrum)}

def _tent(rows, x, y, i, j):
    u, v = len(rows[0]), len(rows)
    return ((1. - x) * (1. - y) * rows[j % v][i % u] + x * (1. - y) * rows[j % v][(i + 1) % u] + (1. - x) * y * rows[(j + 1) % v][i % u]
            + x * y * rows[(j + 1) % v][(i + 1) % u])

def f_nearest_level(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float, p: float, q: float):
    # look-ups of no width interpolate the four nearest texels of the full image
    assert np.log2(EPS) < -3.
    x, y = p - math.floor(p), q - math.floor(q)
    rows = [[a, b, c, d], [e, f, g, h]]
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    return {'inside': m.look_up([(1.5 + x) / 4., (.5 + y) / 2.]) == _tent(rows, x, y, 1, 0), 'border': m.look_up([(3.5 + x) / 4., (1.5 + y) / 2.]) == _tent(rows, x, y, 3, 1),
            'narrow': m.look_up([(2.5 + x) / 4., (.5 + y) / 2., .125]) == _tent(rows, x, y, 2, 0), 'negative': m.look_up([(x - .5) / 4., (y - .5) / 2., .25]) == _tent(rows, x, y, -1, -1)}

def f_coarse_level(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float, p: float, q: float, w: float):
    # a filter half as wide as the image reads the level of two texels across
    assert w >= 1. and w > EPS and np.log2(w) >= 0.
    x, y = p - math.floor(p), q - math.floor(q)
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    rows = [[.25 * (a + b + e + f), .25 * (c + d + g + h)]]
    whole = .125 * (a + b + c + d + e + f + g + h)
    k = MIPMap(float, np.array([[a, b], [c, d]]), wrap=ImageWrap.BLACK)
    return {'half': m.look_up([(.5 + x) / 2., y, .5]) == _tent(rows, x, y, 0, 0), 'wrapped': m.look_up([(1.5 + x) / 2., y, .5]) == _tent(rows, x, y, 1, 0),
            'whole': m.look_up([x, y, w]) == whole, 'border': k.look_up([x, y, w]) == .25 * (a + b + c + d), 'image': m.look_up([x, y, 1.]) == whole}

def f_between_levels(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float, w: float):
    assert w > .5 and w < 1. and w > EPS
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    assert np.log2(w) > -1. and np.log2(w) < 0.
    whole = .125 * (a + b + c + d + e + f + g + h)
    return {'blend': m.look_up([.25, .5, w]) == (1. - (1. + np.log2(w))) * .25 * (a + b + e + f) + (1. + np.log2(w)) * whole}

def f_single(a: float, s: float, t: float, w: float):
    m = MIPMap(float, np.array([[a]]))
    return {'point': m.look_up([s, t]) == a, 'count': m.levels == 1 and m.width == 1 and m.height == 1}

def f_trilinear(a: float, b: float, c: float, d: float):
    assert np.log2(EPS) < -3.
    m = MIPMap(float, np.array([[a, b], [c, d]]), True)
    k = MIPMap(float, np.array([[a, b], [c, d]]), False)
    return {'widest': m.look_up([.25, .75, .1, -.25, .2, .125]) == k.look_up([.25, .75, .5]), 'derivative_y': m.look_up([.25, .75, .1, -.125, .2, -.25]) == k.look_up([.25, .75, .5]),
            'aligned': k.look_up([.125, .75, .125, .5, 0., 0.]) == k.look_up([.125, .75]), 'flat': k.look_up([.125, .75, 0., 0., .25, .125]) == k.look_up([.125, .75])}

def f_trilinear_signs(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h), True)
    k = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    w = k.look_up([.375, .25, .375])
    return {'sx': m.look_up([.375, .25, -.1875, .0625, .03125, -.0625]) == w, 'tx': m.look_up([.375, .25, .125, -.1875, .0625, .03125]) == w,
            'sy': m.look_up([.375, .25, .125, .03125, -.1875, .0625]) == w, 'ty': m.look_up([.375, .25, .125, .03125, .0625, -.1875]) == w}

def f_ewa_tall(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    l = _levels(a, b, c, d, e, f, g, h)
    return {'tall': m.look_up([.625, .75, 0., 1., .125, 0.]) == _ellipse(l[0], .625, .75, 0., 1., .125, 0.),
            'tall_down': m.look_up([.625, .25, 0., -1., .125, 0.]) == _ellipse(l[0], .625, .25, 0., -1., .125, 0.)}

def f_ewa_above(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    # an ellipse wider than the image returns the mean of the image, whatever lies outside
    r = {'black': MIPMap(float, np.array([[a, b], [c, d]]), wrap=ImageWrap.BLACK).look_up([.375, .25, 2., 0., 0., 2.]) == .25 * (a + b + c + d)}
    for name, w in [('repeat', ImageWrap.REPEAT), ('clamp', ImageWrap.CLAMP)]:
        m = MIPMap(float, _img(a, b, c, d, e, f, g, h), wrap=w)
        r[name] = m.look_up([.375, .25, 2., 0., 0., 2.]) == .125 * (a + b + c + d + e + f + g + h)
    return r

def _gauss(r2):
    # Gaussian of the squared radius that falls to nothing on the ellipse, tabulated in 128 steps
    k = min(int(math.floor(128. * r2)), 127)
    return np.exp(-2. * k / 127.) - np.exp(-2.)

def _ellipse(rows, s, t, du0, dv0, du1, dv1):
    # weighted average of the texels inside the ellipse of the two axes, widened to cover a texel
    v, u = len(rows), len(rows[0])
    x, y = s * u - .5, t * v - .5
    a0, b0, a1, b1 = du0 * u, dv0 * v, du1 * u, dv1 * v
    A, B, C = b0 * b0 + b1 * b1 + 1., -2. * (a0 * b0 + a1 * b1), a0 * a0 + a1 * a1 + 1.
    F = A * C - .25 * B * B
    total, weight = 0., 0.
    for j in range(-6, 9):
        for i in range(-6, 9):
            r2 = (A * (i - x) * (i - x) + B * (i - x) * (j - y) + C * (j - y) * (j - y)) / F
            if r2 < 1.:
                total = total + _gauss(r2) * rows[j % v][i % u]
                weight = weight + _gauss(r2)
    return total / weight

def _levels(a, b, c, d, e, f, g, h):
    return [[[a, b, c, d], [e, f, g, h]], [[.25 * (a + b + e + f), .25 * (c + d + g + h)]], [[.125 * (a + b + c + d + e + f + g + h)]]]

def f_ewa_circle(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    l = _levels(a, b, c, d, e, f, g, h)
    return {'full': m.look_up([.375, .25, .25, 0., 0., .25]) == _ellipse(l[0], .375, .25, .25, 0., 0., .25),
            'between': m.look_up([.5, .5, .25, 0., 0., .25]) == _ellipse(l[0], .5, .5, .25, 0., 0., .25),
            'coarse': m.look_up([.25, .5, .5, 0., 0., .5]) == _ellipse(l[1], .25, .5, .5, 0., 0., .5),
            'whole': m.look_up([.25, .5, 1., 0., 0., 1.]) == l[2][0][0] and m.look_up([.25, .5, 4., 0., 0., 4.]) == l[2][0][0]}

def f_ewa_ellipse(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    l = _levels(a, b, c, d, e, f, g, h)
    return {'wide': m.look_up([.375, .25, .5, 0., 0., .125]) == _ellipse(l[0], .375, .25, .5, 0., 0., .125),
            'tall': m.look_up([.625, .75, 0., .5, .25, 0.]) == _ellipse(l[0], .625, .75, 0., .5, .25, 0.),
            'sheared': m.look_up([.5, .25, .25, .375, .15, -.2]) == _ellipse(l[0], .5, .25, .25, .375, .15, -.2),
            'other_way': m.look_up([.5, .25, .25, -.375, .15, .2]) == _ellipse(l[0], .5, .25, .25, -.375, .15, .2)}

def f_ewa_order(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    return {'swapped': m.look_up([.375, .25, 0., .125, .5, 0.]) == m.look_up([.375, .25, .5, 0., 0., .125]),
            'reversed': m.look_up([.375, .25, -.5, 0., 0., -.125]) == m.look_up([.375, .25, .5, 0., 0., .125]),
            'thin': m.look_up([.375, .25, .5, 0., 0., .001]) == m.look_up([.375, .25, .5, 0., 0., .0625]),
            'thin_other': m.look_up([.375, .25, .002, 0., 0., .5]) == m.look_up([.375, .25, .0625, 0., 0., .5]),
            'thin_level': MIPMap(float, _img(a, b, c, d, e, f, g, h), max_aniso=2.).look_up([.375, .25, 1., 0., 0., .1]) == m.look_up([.375, .25, 1., 0., 0., .5]),
            'limit': MIPMap(float, _img(a, b, c, d, e, f, g, h), max_aniso=2.).look_up([.375, .25, .5, 0., 0., .125]) == m.look_up([.375, .25, .5, 0., 0., .25])}

def f_ewa_constant(a: float):
    assert a > 0.
    m = MIPMap(float, _img(a, a, a, a, a, a, a, a))
    return {'level': m.look_up([.3, .7, .25, 0., 0., .25]) == a, 'between': m.look_up([.3, .7, .25, .125, .125, -.375]) == a,
            'tent': m.look_up([.3, .7, .125]) == a, 'wide': m.look_up([.3, .7, .75, 0., 0., .5]) == a}

def f_ewa_blend(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    m = MIPMap(float, _img(a, b, c, d, e, f, g, h))
    l = _levels(a, b, c, d, e, f, g, h)
    k = 2. + np.log2(.375)
    return {'blend': m.look_up([.375, .25, .375, 0., 0., .375]) == (1. - k) * _ellipse(l[0], .375, .25, .375, 0., 0., .375) + k * _ellipse(l[1], .375, .25, .375, 0., 0., .375)}

def f_resample_weights():
    w = MIPMap.resample(3, 4)
    k = MIPMap.resample(5, 8)
    r = True
    for i in range(4):
        r = r and w[i][1] + w[i][2] + w[i][3] + w[i][4] == 1.
    return {'sum': r, 'sum_other': k[6][1] + k[6][2] + k[6][3] + k[6][4] == 1., 'first': w[0][0] == -2. and w[1][0] == -1. and w[2][0] == 0. and w[3][0] == 1.,
            'first_other': k[0][0] == -2. and k[4][0] == 1. and k[7][0] == 3.}

def f_resample_constant(a: float):
    assert a > 0.
    m = MIPMap(float, np.array([[a, a, a]]), wrap=ImageWrap.CLAMP)
    n = MIPMap(float, np.array([[a], [a], [a]]))
    return {'wide': m.width == 4 and m.height == 1 and m.levels == 3 and n.width == 1 and n.height == 4,
            'value': m.texel(0, 0, 0) == a and m.texel(0, 3, 0) == a and n.texel(0, 0, 0) == a and n.texel(0, 0, 2) == a, 'top': m.texel(2, 0, 0) == a and n.texel(2, 0, 0) == a}

def _tap(row, wrap, first, w):
    v = 0.
    for j in range(4):
        k = first + j
        if wrap == 0:
            v = v + w[j] * row[k % 3]
        elif wrap == 2:
            v = v + w[j] * row[max(0, min(2, k))]
        elif k >= 0 and k < 3:
            v = v + w[j] * row[k]
    return v

def f_resample_values(a: float, b: float, c: float):
    row = [a, b, c]
    k = MIPMap.resample(3, 4)
    one = MIPMap.resample(1, 1)
    m = MIPMap(float, np.array([[a, b, c]]))
    q = MIPMap(float, np.array([[a], [b], [c]]), wrap=ImageWrap.CLAMP)
    r = {'repeat': True, 'clamp': True}
    x, y = True, True
    for s in range(4):
        w = [k[s][1], k[s][2], k[s][3], k[s][4]]
        x = x and m.texel(0, s, 0) == max(0., _tap(row, 0, int(k[s][0]), w))
        y = y and q.texel(0, 0, s) == max(0., _tap(row, 2, int(k[s][0]), w))
    return {'repeat': x, 'clamp': y}

def f_resample_other(a: float, b: float, c: float):
    # the other side and the other treatments of what lies outside
    row = [a, b, c]
    k = MIPMap.resample(3, 4)
    m = MIPMap(float, np.array([[a, b, c]]), wrap=ImageWrap.CLAMP)
    q = MIPMap(float, np.array([[a], [b], [c]]))
    x, y = True, True
    for s in range(4):
        w = [k[s][1], k[s][2], k[s][3], k[s][4]]
        x = x and m.texel(0, s, 0) == max(0., _tap(row, 2, int(k[s][0]), w))
        y = y and q.texel(0, 0, s) == max(0., _tap(row, 0, int(k[s][0]), w))
    return {'clamp': x, 'repeat': y}

def f_resample_black(a: float, b: float, c: float):
    row = [a, b, c]
    k = MIPMap.resample(3, 4)
    m = MIPMap(float, np.array([[a, b, c]]), wrap=ImageWrap.BLACK)
    q = MIPMap(float, np.array([[a], [b], [c]]), wrap=ImageWrap.BLACK)
    x, y = True, True
    for s in range(4):
        w = [k[s][1], k[s][2], k[s][3], k[s][4]]
        x = x and m.texel(0, s, 0) == max(0., _tap(row, 1, int(k[s][0]), w))
        y = y and q.texel(0, 0, s) == max(0., _tap(row, 1, int(k[s][0]), w))
    return {'row': x, 'column': y}

def _read(name):
    if name == 'row':
        return np.array([[[.25, .25, .25], [.5, .5, .5], [.75, .75, .75], [1., 1., 1.]]])
    if name == 'column':
        return np.array([[[.25, .25, .25]], [[.5, .5, .5]]])
    if name == 'missing':
        raise IOError
    if name == 'grey':
        return np.array([[[.25, .25, .25], [.5, .5, .5]], [[.75, .75, .75], [1., 1., 1.]]])
    return np.array([[[.25, .5, .75], [.5, 0., 1.]], [[0., .125, .5], [1., .75, .25]]])
def f_image(k: float):
    assert k > 0.
    t = ImageTexture(FLOAT, FLOAT, Map2([.75, .25, 0., 0., 0., 0.]), 'colour', scale=k)
    r = t(None)
    return {'w': t.mipmap.width == 2, 'v': r == k * RGBSpectrum([.5, 0., 1.]).y()}
def f_image_gamma(k: float):
    assert k > 0.
    t = ImageTexture(FLOAT, FLOAT, Map2([.75, .25, 0., 0., 0., 0.]), 'grey', scale=k, gamma=2.2)
    r = t(None)
    return {'w': t.mipmap.height == 2, 'v': r == (k * RGBSpectrum([.5, .5, .5]).y()) ** 2.2}
def f_image_rgb(k: float):
    assert k > 0.
    t = ImageTexture(Spectrum, RGBSpectrum, Map2([.25, .75, 0., 0., 0., 0.]), 'colour', scale=k)
    r = t.mipmap.texel(0, 0, 1)
    return {'w': t.mipmap.width == 2, 'v': _eq(r, 0., .125 * k, .5 * k), 'c': isinstance(t(None), Spectrum)}
def f_missing(k: float, s: float, t: float, g: float):
    assert k > 0.
    m = ImageTexture(FLOAT, FLOAT, Map2([s, t, 0., 0., 0., 0.]), 'missing', scale=k, gamma=g)
    return {'value': m(None) == k ** g}

def _get(file, trilinear=False, aniso=8., wrap=ImageWrap.REPEAT, scale=1., gamma=1.):
    return ImageTexture(FLOAT, FLOAT, Map2([.75, .25, 0., 0., 0., 0.]), file, trilinear, aniso, wrap, scale, gamma)

def f_image_sides():
    m = ImageTexture(Spectrum, RGBSpectrum, Map2([.5, .5, 0., 0., 0., 0.]), 'row').mipmap
    n = ImageTexture(FLOAT, FLOAT, Map2([.5, .5, 0., 0., 0., 0.]), 'column').mipmap
    r = True
    for i in range(4):
        r = r and m.texel(0, i, 0) == RGBSpectrum([.25 * (i + 1), .25 * (i + 1), .25 * (i + 1)])
    return {'row': m.width == 4 and m.height == 1 and r, 'column': n.width == 1 and n.height == 2 and n.texel(0, 0, 0) == RGBSpectrum([.25, .25, .25]).y() and n.texel(0, 0, 1) == RGBSpectrum([.5, .5, .5]).y()}

def f_image_cache():
    # one pyramid for every distinct file, type and parameters
    a = _get('grey')
    b = ImageTexture(Spectrum, RGBSpectrum, Map2([.75, .25, 0., 0., 0., 0.]), 'grey')
    c, d, e, f, g = _get('colour'), _get('grey', True), _get('grey', False, 4.), _get('grey', wrap=ImageWrap.CLAMP), _get('grey', scale=2.)
    h = _get('grey', gamma=2.)
    all = [a, b, c, d, e, f, g, h]
    r = True
    for i in range(8):
        for j in range(i):
            r = r and all[i].mipmap is not all[j].mipmap
    return {'distinct': r, 'shared': _get('grey').mipmap is a.mipmap and _get('grey', scale=2.).mipmap is g.mipmap, 'scaled': g(None) == 2. * a(None),
            'gamma': h(None) == a(None) * a(None), 'wrapped': f.mipmap.texel(0, 2, 0) == a(None) and a.mipmap.texel(0, 2, 0) == RGBSpectrum([.25, .25, .25]).y(),
            'settings': d.mipmap.trilinear and not a.mipmap.trilinear and e.mipmap.max_aniso == 4. and a.mipmap.max_aniso == 8.}
'''

# lattice points that select every one of the sixteen gradients
for h in range(16):
    SPEC += """
def f_grad_%d(dx: float, dy: float, dz: float):
    return {'a': _gradient(%d, %d, %d, dx, dy, dz), 'b': _gradient(%d, %d, %d, dx, dy, dz)}
""" % ((h,) + LATTICE[h][0] + LATTICE[h][1])
for k in range(6):
    SPEC += """
def f_marble_%d(q: float, x: float, sc: float):
    assert sc > 0.
    f = q - math.floor(q)
    dg = _dg(geo.Point(0., 0., 0.), geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.))
    p = geo.Point(x, _height((%d + f) / 6.) / sc, 0.)
    r = MarbleTexture(4, .5, sc, 0., Map2([p, geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.)]))(dg)
    return {'colour': _eq(r, *_marble(%d, f)), 'kept': p.x == x}
""" % (k, k, k)

RG = {'replace': {'pytracer.texture.utility._grad': '_grad'}}
RF = {'replace': {'pytracer.texture.utility.FBm': '_fbm', 'pytracer.texture.utility.turbulence': '_turb'}, 'spec_native': False}
RI = {'replace': {'pytracer.utility.imageio.read_image': '_read'}, 'spec_native': False, 'try_total': True}
KW = {'f_marble_noise': {'replace': {'pytracer.texture.utility.FBm': '_flat'}, 'spec_native': False}, 'f_marble_crest': {**RF, 'try_total': True}, 'f_image_sides': RI, 'f_image': RI, 'f_image_gamma': RI, 'f_image_rgb': RI, 'f_missing': RI, 'f_image_cache': RI, **{'f_marble_%d' % k: RF for k in range(6)}, 'f_bumps': RF, **{'f_grad_%d' % k: {} for k in range(16)}, 'f_dots': {'replace': {'pytracer.texture.utility.noise': '_noise'}},
      'f_fbm': {'replace': {'pytracer.texture.utility.noise': '_noise'}}, 'f_fbm_partial': {'replace': {'pytracer.texture.utility.noise': '_noise'}},
      'f_noise_x': RG, 'f_noise_y': RG, 'f_noise_z': RG, 'f_noise_lattice': RG,
      'f_uvtexture': {'spec_native': False}, 'f_levels_rgb': {'spec_native': False}}


def _permutation(ctx):
    """the noise table is a permutation of 0..255 written twice, so that every lattice hash is a value of the table"""
    import ast
    mod = ctx.p.modules.get('pytracer.data.noise')
    table = size = None
    for n in ast.walk(mod.tree) if mod else ():
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == 'NOISE_PERM':
                ls = [x for x in ast.walk(n.value) if isinstance(x, (ast.List, ast.Tuple)) and len(x.elts) > 16]
                if len(ls) == 1 and all(isinstance(e, ast.Constant) and isinstance(e.value, int) for e in ls[0].elts):
                    table = [e.value for e in ls[0].elts]
            if n.targets[0].id == 'NOISE_PERM_SIZE':
                ks = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant)]
                size = ks[0] if len(ks) == 1 else None
    if table is None or size is None:
        ctx.ob('permutation', 'pytracer.data.noise', None, 'the table is not a literal')
        return
    ctx.ob('permutation', 'size', size == 256, 'NOISE_PERM_SIZE is %r' % (size,), 'pytracer/data/noise.py')
    ctx.ob('permutation', 'permutation', sorted(table[:256]) == list(range(256)), 'the first 256 entries are not a permutation', 'pytracer/data/noise.py')
    ctx.ob('permutation', 'repeated', len(table) >= 511 and all(table[k] == table[k % 256] for k in range(256, len(table))),
           'the entries from 256 on do not repeat the first 256', 'pytracer/data/noise.py')


def check(ctx):
    ctx.rule('permutation', 'the hash table of the noise is a permutation written twice')
    with ctx.guard('permutation', 'pytracer.data.noise'):
        _permutation(ctx)
    ctx.rule('texture', 'texture clause holds for every shading point, filter width and texel value')
    mod = ctx.spec(SPEC, 'p22')
    ctx.prove_spec('texture', mod, 'pytracer/texture', KW)
