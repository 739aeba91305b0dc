"""Integrators and the render loop: light transport recursion over contract stand-ins."""
EXPLANATION = '''
The integrators, the renderer and the render loop are summarised over scenes, lights, surfaces, media and cameras of which only the
contract is known (symbolic radiance, densities, directions, visibility, transmittance and random numbers). The radiance returned is
compared with the reference sums of light transport: emission, direct light with both halves of the multiple-importance estimate,
specular recursion with the first-order differentials of reflection and refraction, path throughput with Russian roulette, and the
composition with participating media; the loop is checked to add every sample exactly once with sanitised radiance.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import Spectrum, EPS
import pytracer.utility as util
from pytracer.geometry import Vector, Point, Normal, Ray, RayDifferential
from pytracer.light import LightSample, LightSampleOffset
from pytracer.reflection import BDFType, BSDFSample, BSDFSampleOffset
from pytracer.aggregate import Intersection
from pytracer.integrator import (Integrator, SurfaceIntegrator, DirectLightingIntegrator, LightStrategy, WhittedIntegrator, PathIntegrator)
from pytracer.integrator.utility import (compute_light_sampling_cdf, uniform_sample_all_lights, uniform_sample_one_light, specular_reflect,
    specular_transmit, estimate_direct)
from pytracer.renderer import Renderer, SamplerRenderer, SamplerRendererTask

R, T, D, G, S, ALL = 1, 2, 4, 8, 16, 31

class Tint:
    """a stored spectrum: arithmetic gives new spectra, in-place arithmetic changes it"""
    def __init__(self, v):
        self.v = v
    def __mul__(self, o):
        return self.v * o
    def __rmul__(self, o):
        return o * self.v
    def __imul__(self, o):
        self.v = self.v * o
        return self
    def __sub__(self, o):
        return self.v - o
    def is_black(self):
        return self.v.is_black()

class Sight:
    """visibility of a light"""
    def __init__(self, free, t):
        self.free, self.t, self.scene, self.args = free, t, None, None
    def unoccluded(self, scene):
        self.scene = scene
        return self.free
    def transmittance(self, scene, renderer, sample, rng=None):
        self.args = [scene, renderer, sample, rng]
        return self.t

class Lamp:
    def __init__(self, li, wi, p, sight, delta=False, q=1., e=None, ns=1):
        self.li, self.wi, self.p, self.sight, self.delta, self.q, self.e, self.ns = li, wi, p, sight, delta, q, e, ns
        self.args, self.asked, self.ray = None, None, None
    def sample_l(self, p, e, ls, time):
        self.args = [p, e, ls, time]
        return [self.li, self.wi, self.p, self.sight]
    def is_delta_light(self):
        return self.delta
    def pdf(self, p, w):
        self.asked = [p, w]
        return self.q
    def le(self, ray):
        self.ray = ray
        return self.e
    def power(self, scene):
        return self.li

class Geo:
    def __init__(self, p, nn):
        self.p, self.nn = p, nn

class Fun:
    """scattering at a point: value depends on the directions, one sampled direction"""
    def __init__(self, p, nn, v, pdf, out):
        self.dgs, self.v, self.q, self.out, self.asked, self.flags, self.eta = Geo(p, nn), v, pdf, out, None, [], 1.
    def f(self, wo, wi, flags=None):
        self.flags.append(flags)
        return self.v * (wo.x + 2. * wi.y)
    def pdf(self, wo, wi, flags=None):
        self.flags.append(flags)
        return self.q
    def sample_f(self, wo, smp, flags):
        self.asked = [wo, smp, flags]
        return [self.out[0], self.out[1], self.out[2], self.out[3]]

class Wall:
    def __init__(self, lamp):
        self.lamp = lamp
    def get_area_light(self):
        return self.lamp

class Glow:
    """area light of a surface"""
    def __init__(self, e):
        self.e, self.args = e, None
    def l(self, p, n, w):
        self.args = [p, n, w]
        return self.e

class Room:
    def __init__(self, lights, hit=False, wall=None, t=7., dg=None):
        self.lights, self.hit, self.wall, self.t, self.ray, self.dg, self.isects = lights, hit, wall, t, None, dg, []
    def intersect(self, ray, isect):
        self.ray = ray
        self.isects.append(isect)
        self.start = [ray.o.copy(), ray.d.copy(), ray.mint, ray.maxt, ray.depth, ray.time]
        if self.hit:
            ray.maxt = self.t
            isect.primitive = self.wall
            isect.dg = self.dg
        return self.hit
    def intersect_p(self, ray):
        return self.hit

class Eye:
    """renderer of which only the contract is known"""
    def __init__(self, l, t):
        self.l, self.t, self.args, self.seen = l, t, None, None
    def li(self, scene, ray, sample, isect, rng=None):
        self.args = [scene, ray, sample, isect, rng]
        isect.rEps = -1.
        isect.dg = None
        return [self.l, self.t * 13. + 5.]
    def transmittance(self, scene, ray, sample, rng=None):
        self.seen = [scene, ray, ray.maxt]
        return self.t

class Dice:
    """random numbers: one value per call, all the same"""
    def __init__(self, u):
        self.u, self.n = u, 0
    def __call__(self, *a):
        self.n = self.n + 1
        return self.u

def _v(a, b):
    return a.x == b.x and a.y == b.y and a.z == b.z

def _lit(s):
    return not s.is_black() and not util.is_black(s)

def _pw(a, b):
    return a * a / (a * a + b * b)

# ------------------------------------------------------------- direct light
def f_direct_light(p: Point, n: Normal, wo: Vector, wi: Vector, li: 'Spectrum', fv: 'Spectrum', tv: 'Spectrum', e: float, tm: float, lp: float, bp: float, free: bool, delta: bool, dark: bool):
    # the half that samples the light; the half that samples the surface finds nothing
    assert _lit(li) and lp > 0. and bp > 0.
    v = fv * (wo.x + 2. * wi.y)
    assert _lit(v)
    s = Tint(li)
    x = Lamp(s, wi, lp, Sight(free, tv), delta)
    b = Fun(p, n, Spectrum(0.) if dark else fv, bp, [0., None, None, Spectrum(0.)])
    sc, ey, ls, bs, rng, fl = Room([x]), Eye(1., 1.), LightSample(.1, .2, .3), BSDFSample(.1, .2, .3), Dice(.5), BDFType(ALL & ~S)
    got = estimate_direct(sc, ey, x, p, n, wo, e, tm, b, ls, bs, fl, rng)
    w = 1. if delta else _pw(lp, bp)
    want = v * li * tv * (wi.abs_dot(n) * w / lp)
    out = {'value': got == (Spectrum(0.) if dark or not free else want), 'asked': x.args[0] is p and x.args[1] == e and x.args[2] is ls and x.args[3] == tm, 'kept': s.v == li}
    ok = True
    for q in b.flags:
        ok = ok and q is fl
    out['flags'] = ok and (delta or (b.asked[0] is wo and b.asked[1] is bs and b.asked[2] is fl))
    out['medium'] = dark or not free or (x.sight.scene is sc and x.sight.args[0] is sc and x.sight.args[1] is ey)
    out['delta'] = (not delta) or b.asked is None
    return out

def f_direct_no_light(p: Point, n: Normal, wo: Vector, wi: Vector, li: 'Spectrum', fv: 'Spectrum', e: float, tm: float, dark: bool, delta: bool):
    # a sample of no density, or of no radiance
    assert _lit(li)
    x = Lamp(Spectrum(0.) if dark else li, wi, 1. if dark else 0., Sight(True, Spectrum(1.)), delta)
    b = Fun(p, n, fv, 1., [0., None, None, Spectrum(0.)])
    got = estimate_direct(Room([x]), Eye(1., 1.), x, p, n, wo, e, tm, b, LightSample(), BSDFSample(), BDFType(ALL & ~S), Dice(.5))
    return {'value': got == Spectrum(0.)}

def f_direct_surface(p: Point, n: Normal, wo: Vector, wi: Vector, fv: 'Spectrum', le: 'Spectrum', other: 'Spectrum', tr: 'Spectrum', e: float, tm: float, bp: float, lp: float, th: float, hit: bool, mine: bool, spec: bool):
    # the half that samples the surface
    assert _lit(fv) and _lit(le) and bp > 0. and lp > 0.
    x = Lamp(Spectrum(0.), None, 0., Sight(True, Spectrum(1.)), False, lp, Tint(le))
    b = Fun(p, n, fv, 1., [bp, wi, BDFType(R | S) if spec else BDFType(R | D), fv])
    glow = Tint(other)
    y = Glow(glow)
    x.l = y.l
    g = Geo(Point(1., 2., 3.), Normal(4., 5., 6.))
    sc, ey, rng, fl = Room([x], hit, Wall(x if mine else y), th, g), Eye(1., tr), Dice(.5), BDFType(ALL)
    assert _lit(other)
    got = estimate_direct(sc, ey, x, p, n, wo, e, tm, b, LightSample(), BSDFSample(), fl, rng)
    w = 1. if spec else _pw(bp, lp)
    l = (other if mine else Spectrum(0.)) if hit else le
    r = sc.ray
    return {'value': got == fv * l * tr * (wi.abs_dot(n) * w / bp), 'ray': _v(sc.start[0], p) and _v(sc.start[1], wi) and sc.start[2] == e and sc.start[3] == np.inf and sc.start[5] == tm,
            'emission': (not hit or not mine) or (y.args[0] is g.p and y.args[1] is g.nn and _v(y.args[2], -wi)), 'background': hit or x.ray is r,
            'medium': (hit and not mine) or (ey.seen[0] is sc and ey.seen[1] is r and ey.seen[2] == (th if hit else np.inf)), 'pdf': spec or (x.asked[0] is p and _v(x.asked[1], wi)),
            'kept': glow.v == other and x.e.v == le}

def f_direct_surface_none(p: Point, n: Normal, wo: Vector, wi: Vector, fv: 'Spectrum', le: 'Spectrum', bp: float, delta: bool, k: float):
    # no density on either side, no value, or a light that cannot be hit: nothing to add
    assert _lit(fv) and _lit(le) and bp > 0.
    i = np.floor(k)
    assert i >= 0. and i <= 3.
    x = Lamp(Spectrum(0.), None, 0., Sight(True, Spectrum(1.)), i == 3., 0. if i == 0. else 1., le)
    b = Fun(p, n, fv, 1., [0. if i == 1. else bp, wi, BDFType(R | D), Spectrum(0.) if i == 2. else fv])
    got = estimate_direct(Room([x]), Eye(1., Spectrum(1.)), x, p, n, wo, 0., 0., b, LightSample(), BSDFSample(), BDFType(ALL & ~S), Dice(.5))
    return {'value': got == Spectrum(0.)}

def f_direct_both(p: Point, n: Normal, wo: Vector, wi: Vector, w2: Vector, li: 'Spectrum', fv: 'Spectrum', f2: 'Spectrum', le: 'Spectrum', lp: float, bp: float, lp2: float, bp2: float):
    # both halves together
    v = fv * (wo.x + 2. * wi.y)
    assert _lit(li) and _lit(v) and _lit(f2) and _lit(le) and lp > 0. and bp > 0. and lp2 > 0. and bp2 > 0.
    x = Lamp(li, wi, lp, Sight(True, Spectrum(1.)), False, lp2, le)
    b = Fun(p, n, fv, bp, [bp2, w2, BDFType(R | G), f2])
    got = estimate_direct(Room([x]), Eye(1., Spectrum(1.)), x, p, n, wo, 0., 0., b, LightSample(), BSDFSample(), BDFType(ALL & ~S), Dice(.5))
    return {'value': got == v * li * (wi.abs_dot(n) * _pw(lp, bp) / lp) + f2 * le * (w2.abs_dot(n) * _pw(bp2, lp2) / bp2)}

def f_direct_grazing(p: Point, n: Normal, wo: Vector, wi: Vector, w2: Vector, li: 'Spectrum', fv: 'Spectrum', f2: 'Spectrum', lp: float, bp: float, bp2: float):
    # the surface sample cannot come from the light: the light sample alone remains
    v = fv * (wo.x + 2. * wi.y)
    assert _lit(li) and _lit(v) and _lit(f2) and lp > 0. and bp > 0. and bp2 > 0.
    x = Lamp(li, wi, lp, Sight(True, Spectrum(1.)), False, 0., Spectrum(1.))
    b = Fun(p, n, fv, bp, [bp2, w2, BDFType(R | G), f2])
    got = estimate_direct(Room([x]), Eye(1., Spectrum(1.)), x, p, n, wo, 0., 0., b, LightSample(), BSDFSample(), BDFType(ALL & ~S), Dice(.5))
    return {'value': got == v * li * (wi.abs_dot(n) * _pw(lp, bp) / lp)}

# ------------------------------------------------------------- choosing lights
class Num:
    """a light, a surface, a scene, ... that is only passed on"""
    def __init__(self, v, ns=1):
        self.v, self.ns = v, ns

def _direct(scene, renderer, light, p, n, wo, r_eps, time, bsdf, light_smp, bsdf_smp, flags, rng=None):
    # the estimate for one light, as a function of everything it is given
    bsdf.calls.append([scene, renderer, p, n, wo, r_eps, time, flags, rng])
    return Spectrum(light.v * (light_smp.u_pos[0] + 2. * light_smp.u_pos[1] + 3. * light_smp.u_com) + 5. * bsdf_smp.u_dir[0] + 7. * bsdf_smp.u_dir[1] + 11. * bsdf_smp.u_com)

class Log:
    def __init__(self):
        self.calls = []

class Draw:
    """a sample whose requests have been filled"""
    def __init__(self, base):
        self.n1D, self.n2D, self.base, self.time = [], [], base, 0.
    def add_1d(self, n):
        self.n1D.append(n)
        return len(self.n1D) - 1
    def add_2d(self, n):
        self.n2D.append(n)
        return len(self.n2D) - 1
    def fill(self):
        self.oneD = [[self.base + 10. * i + j for j in range(self.n1D[i])] for i in range(len(self.n1D))]
        self.twoD = [[[2. * self.base + 100. * i + 10. * j, 3. * self.base + 100. * i + 10. * j + 1.] for j in range(self.n2D[i])] for i in range(len(self.n2D))]

def _one(light, smp, lo, bo, j):
    a, b = smp.twoD[lo.offset_pos][j], smp.twoD[bo.offset_dir][j]
    return light.v * (a[0] + 2. * a[1] + 3. * smp.oneD[lo.offset_com][j]) + 5. * b[0] + 7. * b[1] + 11. * smp.oneD[bo.offset_com][j]

def _calls(c, want, k):
    ok = len(c) == k
    for q in c:
        ok = ok and q[0] is want[0] and q[1] is want[1] and q[2] is want[2] and q[3] is want[3] and q[4] is want[4] and q[5] == want[5] and q[6] == want[6] and q[7].v == (ALL & ~S)
    return ok

def f_all_lights(p: Point, n: Normal, wo: Vector, a: float, b: float, base: float, e: float, tm: float):
    x, y, s, log, ey = Num(a), Num(b), Draw(base), Log(), Eye(1., 1.)
    lo, bo = [LightSampleOffset(1, s), LightSampleOffset(3, s)], [BSDFSampleOffset(1, s), BSDFSampleOffset(3, s)]
    s.fill()
    sc = Room([x, y])
    got = uniform_sample_all_lights(sc, ey, p, n, wo, e, tm, log, s, lo, bo, Dice(.5))
    want = _one(x, s, lo[0], bo[0], 0)
    for j in range(3):
        want = want + _one(y, s, lo[1], bo[1], j) / 3.
    return {'value': got == Spectrum(want), 'arguments': _calls(log.calls, [sc, ey, p, n, wo, e, tm], 4), 'none': uniform_sample_all_lights(Room([]), ey, p, n, wo, e, tm, log, s, [], [], Dice(.5)) == Spectrum(0.)}

def f_all_lights_random(p: Point, n: Normal, wo: Vector, a: float, b: float, u: float, e: float, tm: float):
    x, y, log, ey = Num(a, 4), Num(b), Log(), Eye(1., 1.)
    sc, rng = Room([x, y]), Dice(u)
    got = uniform_sample_all_lights(sc, ey, p, n, wo, e, tm, log, None, None, None, rng)
    return {'value': got == Spectrum((a + b) * 6. * u + 46. * u), 'arguments': _calls(log.calls, [sc, ey, p, n, wo, e, tm], 2), 'draws': rng.n == 12, 'passed': log.calls[0][8] is rng}

def f_one_light(p: Point, n: Normal, wo: Vector, a: float, b: float, c: float, u: float, base: float, e: float, tm: float):
    # the requested number picks the light, the result stands for all of them
    assert u >= 0. and u <= 1.
    x, s, log, ey = [Num(a), Num(b), Num(c)], Draw(base), Log(), Eye(1., 1.)
    s.add_1d(2)
    k = s.add_1d(1)
    lo, bo = LightSampleOffset(1, s), BSDFSampleOffset(1, s)
    s.fill()
    s.oneD[k][0] = u
    sc = Room(x)
    got = uniform_sample_one_light(sc, ey, p, n, wo, e, tm, log, s, k, lo, bo, Dice(.9))
    pick = x[0] if 3. * u < 1. else (x[1] if 3. * u < 2. else x[2])
    return {'value': got == Spectrum(3. * _one(pick, s, lo, bo, 0)), 'arguments': _calls(log.calls, [sc, ey, p, n, wo, e, tm], 1)}

def f_one_light_random(p: Point, n: Normal, wo: Vector, a: float, b: float, u: float, e: float, tm: float):
    assert u >= 0. and u < 1.
    log, ey, rng = Log(), Eye(1., 1.), Dice(u)
    sc = Room([Num(a), Num(b)])
    got = uniform_sample_one_light(sc, ey, p, n, wo, e, tm, log, None, rng=rng)
    none = uniform_sample_one_light(Room([]), ey, p, n, wo, e, tm, log, None, rng=Dice(u))
    return {'value': got == Spectrum(2. * ((a if 2. * u < 1. else b) * 6. * u + 23. * u)), 'arguments': _calls(log.calls, [sc, ey, p, n, wo, e, tm], 1), 'draws': rng.n == 7, 'no_lights': none == Spectrum(0.), 'passed': log.calls[0][8] is rng}

class Bulb:
    def __init__(self, s):
        self.s, self.scene = s, None
    def power(self, scene):
        self.scene = scene
        return self.s

def f_light_power(a: 'Spectrum', b: 'Spectrum'):
    x, y = Bulb(a), Bulb(b)
    sc = Room([x, y])
    assert a.y() > 0. and b.y() > 0.
    d = compute_light_sampling_cdf(sc)
    return {'count': d.cnt == 2, 'power': d.func[0] == a.y() and d.func[1] == b.y(), 'scene': x.scene is sc and y.scene is sc}

# ------------------------------------------------------------- specular recursion
class Slope:
    """shading geometry with its derivatives"""
    def __init__(self, p, n, dndu, dndv, dx, dy):
        self.p, self.nn, self.dndu, self.dndv = p, n, dndu, dndv
        self.dudx, self.dvdx, self.dudy, self.dvdy = dx[0], dx[1], dy[0], dy[1]

class Spot:
    """where a ray met a surface"""
    def __init__(self, e, dpdx, dpdy):
        self.rEps, self.dg = e, Slope(None, None, None, None, [0., 0.], [0., 0.])
        self.dg.dpdx, self.dg.dpdy = dpdx, dpdy
        self.dg.nn = Normal(.6, 0., -.8)        # the geometric normal is another one

def _mirror_plain(which, kind, p, n, d, wi, f, l, pdf, e, depth, tm, t0):
    ray = RayDifferential(p.copy(), d.copy(), 0., t0, depth, tm)
    b = Fun(p, n, 1., 1., [pdf, wi, BDFType(kind), f])
    ey, sc, smp, rng = Eye(l, 3.), Room([]), Num(1.), Dice(.25)
    i = Spot(e, Vector(1., 0., 0.), Vector(0., 1., 0.))
    g = i.dg
    got = which(ray, b, i, ey, sc, smp, rng)
    return {'value': got == f * l * wi.abs_dot(n) / pdf, 'flags': b.asked[2].v == kind and _v(b.asked[0], -d) and b.asked[1].u_com == .25,
            'ray': _v(ey.args[1].o, p) and _v(ey.args[1].d, wi) and ey.args[1].mint == e and ey.args[1].maxt == np.inf and ey.args[1].time == tm, 'depth': ey.args[1].depth == depth + 1,
            'passed': ey.args[0] is sc and ey.args[2] is smp and ey.args[4] is rng, 'hit_kept': i.rEps == e and i.dg is g and ey.args[3] is not i, 'plain': not ey.args[1].has_differentials,
            'ray_kept': _v(ray.o, p) and _v(ray.d, d) and ray.maxt == t0 and ray.depth == depth}

def f_reflect(p: Point, n: Normal, d: Vector, wi: Vector, f: 'Spectrum', l: 'Spectrum', pdf: float, e: float, depth: int, tm: float, t0: float):
    assert pdf > 0. and _lit(f) and wi.x * n.x + wi.y * n.y + wi.z * n.z != 0.
    return _mirror_plain(specular_reflect, R | S, p, n, d, wi, f, l, pdf, e, depth, tm, t0)

def f_transmit(p: Point, n: Normal, d: Vector, wi: Vector, f: 'Spectrum', l: 'Spectrum', pdf: float, e: float, depth: int, tm: float, t0: float):
    assert pdf > 0. and _lit(f) and wi.x * n.x + wi.y * n.y + wi.z * n.z != 0.
    return _mirror_plain(specular_transmit, T | S, p, n, d, wi, f, l, pdf, e, depth, tm, t0)

def f_specular_none(p: Point, n: Normal, d: Vector, f: 'Spectrum', dark: bool):
    # nothing to scatter: no ray is traced
    b = Fun(p, n, 1., 1., [1. if dark else 0., Vector(0., 0., 1.) if dark else None, BDFType(R | S), Spectrum(0.) if dark else f])
    ray = RayDifferential(p, d)
    ey, i = Eye(1., 1.), Spot(0., None, None)
    x, y = specular_reflect(ray, b, i, ey, Room([]), None, Dice(.5)), specular_transmit(ray, b, i, ey, Room([]), None, Dice(.5))
    return {'value': x == Spectrum(0.) and y == Spectrum(0.), 'no_ray': ey.args is None}

def f_reflect_differential(p: Point, px: Vector, py: Vector, a: float, b: float, ax: Vector, ay: Vector, na: float, nb: float, nc: float, nd: float, u: float, v: float, w: float, z: float, e: float):
    # mirror about +z of a ray in a general direction: offset directions are the first-order mirror images of the offset rays
    n = Normal(0., 0., 1.)
    d = Vector(a, b, -1.)
    wi = Vector(a, b, 1.)
    ray = RayDifferential(p.copy(), d)
    ray.has_differentials = True
    ray.rxDirection, ray.ryDirection = d + ax, d + ay
    f = Fun(p, n, 1., 1., [1., wi, BDFType(R | S), Spectrum(1.)])
    f.dgs = Slope(p, n, Normal(na, nb, 0.), Normal(nc, nd, 0.), [u, v], [w, z])
    i, ey = Spot(e, px, py), Eye(1., 1.)
    L = specular_reflect(ray, f, i, ey, Room([]), None, Dice(.5))
    r = ey.args[1]
    # derivative of d - 2 (d.n) n along x and y
    mx, my = Vector(na * u + nc * v, nb * u + nd * v, 0.), Vector(na * w + nc * z, nb * w + nd * z, 0.)
    kx, ky = ax.z + a * mx.x + b * mx.y, ay.z + a * my.x + b * my.y
    ex = wi + ax - Vector(2. * kx * 0. - 2. * mx.x, -2. * mx.y, 2. * kx)
    ey_ = wi + ay - Vector(-2. * my.x, -2. * my.y, 2. * ky)
    return {'has': r.has_differentials == True, 'origin': _v(r.rxOrigin, p + px) and _v(r.ryOrigin, p + py), 'x': _v(r.rxDirection, ex), 'y': _v(r.ryDirection, ey_)}

def f_transmit_differential(p: Point, px: Vector, py: Vector, a: float, b: float, k: float, ior: float, ax: Vector, ay: Vector, na: float, nb: float, nc: float, nd: float, u: float, v: float, w: float, z: float, inside: bool):
    # refraction at a surface facing +z: offset directions are the first-order refractions of the offset rays
    assert ior > 0. and k > 0. and k != 1.
    q = ior if inside else 1. / ior
    n, side = Normal(0., 0., 1.), (1. if inside else -1.)
    d = Vector(a, b, side)
    # wi . n = -k |d . n| on the far side; the tangential part is scaled by the index ratio
    wi = Vector(q * a, q * b, side * k)
    ray = RayDifferential(p.copy(), d)
    ray.has_differentials = True
    ray.rxDirection, ray.ryDirection = d + ax, d + ay
    f = Fun(p, n, 1., 1., [1., wi, BDFType(T | S), Spectrum(1.)])
    f.eta = ior
    f.dgs = Slope(p, n, Normal(na, nb, 0.), Normal(nc, nd, 0.), [u, v], [w, z])
    i, ey = Spot(0., px, py), Eye(1., 1.)
    L = specular_transmit(ray, f, i, ey, Room([]), None, Dice(.5))
    r = ey.args[1]
    # wi = q d - m n, m = q d.n - wi.n, (wi.n)^2 = 1 - q^2 (1 - (d.n)^2)
    m = q * side - side * k
    mx, my = Vector(na * u + nc * v, nb * u + nd * v, 0.), Vector(na * w + nc * z, nb * w + nd * z, 0.)
    kx, ky = ax.z + a * mx.x + b * mx.y, ay.z + a * my.x + b * my.y
    g = q - q * q * side / (side * k)
    ex = wi + q * ax - Vector(m * mx.x, m * mx.y, g * kx)
    ey_ = wi + q * ay - Vector(m * my.x, m * my.y, g * ky)
    return {'has': r.has_differentials == True, 'origin': _v(r.rxOrigin, p + px) and _v(r.ryOrigin, p + py), 'x': _v(r.rxDirection, ex), 'y': _v(r.ryDirection, ey_), 'eta_kept': f.eta == ior}

# ------------------------------------------------------------- integrators
class Site:
    """an intersection of which only the contract is known"""
    def __init__(self, b, e, eps):
        self.b, self.e, self.rEps, self.w, self.ray = b, e, eps, None, None
    def get_bsdf(self, ray):
        self.ray = ray
        return self.b
    def le(self, w):
        self.w = w
        return self.e

def _rf(ray, bsdf, isect, renderer, scene, sample, rng):
    scene.log.append(['r', ray, bsdf, isect, renderer, sample, rng])
    return scene.refl

def _tr(ray, bsdf, isect, renderer, scene, sample, rng):
    scene.log.append(['t', ray, bsdf, isect, renderer, sample, rng])
    return scene.trans

def _all(scene, renderer, p, n, wo, r_eps, time, bsdf, sample, light_offsets, bsdf_offsets, rng=None):
    scene.log.append(['a', renderer, p, n, wo, r_eps, time, bsdf, sample, light_offsets, bsdf_offsets, rng])
    return scene.direct

def _single(scene, renderer, p, n, wo, r_eps, time, bsdf, sample, light_num_offset=-1, light_offset=None, bsdf_offset=None, rng=None):
    scene.log.append(['o', renderer, p, n, wo, r_eps, time, bsdf, sample, light_offset, bsdf_offset, rng, light_num_offset])
    return scene.direct

class Place:
    def __init__(self, lights, direct, refl, trans):
        self.lights, self.direct, self.refl, self.trans, self.log = lights, direct, refl, trans, []

def _count(log, k):
    c = 0
    for q in log:
        if q[0] == k:
            c = c + 1
    return c

def _chain(log, ray, b, i, ey, smp, rng):
    ok = True
    for q in log:
        if q[0] == 'r' or q[0] == 't':
            ok = ok and q[1] is ray and q[2] is b and q[3] is i and q[4] is ey and q[5] is smp and q[6] is rng
    return ok

def f_whitted(p: Point, n: Normal, d: Vector, w1: Vector, w2: Vector, e: 'Spectrum', l1: 'Spectrum', l2: 'Spectrum', fv: 'Spectrum', t1: 'Spectrum', t2: 'Spectrum', rl: 'Spectrum', tl: 'Spectrum',
              p1: float, p2: float, free: bool, dark: bool, eps: float, tm: float, depth: int, md: int):
    wo = -d
    v1, v2 = fv * (wo.x + 2. * w1.y), fv * (wo.x + 2. * w2.y)
    assert p1 > 0. and p2 > 0. and _lit(l1) and _lit(l2) and _lit(v1) and _lit(v2)
    s1, s2 = Tint(l1), Tint(l2)
    x, y = Lamp(s1, w1, p1, Sight(free, t1)), Lamp(Spectrum(0.) if dark else s2, w2, p2, Sight(True, t2))
    z = Lamp(l1, w1, 0., Sight(True, t1))
    sc, ey, smp, rng = Place([x, y, z], None, rl, tl), Eye(1., 1.), Num(1.), Dice(.5)
    b = Fun(p, n, fv, 1., None)
    i = Site(b, e, eps)
    ray = RayDifferential(p.copy(), d.copy(), 0., 9., depth, tm)
    got = WhittedIntegrator(md).li(sc, ey, ray, i, smp, rng)
    want = e
    if free:
        want = want + v1 * l1 * w1.abs_dot(n) * t1 / p1
    if not dark:
        want = want + v2 * l2 * w2.abs_dot(n) * t2 / p2
    more = depth + 1 < md
    if more:
        want = want + rl + tl
    return {'value': got == want, 'asked': x.args[0] is p and x.args[1] == eps and x.args[3] == tm and y.args[0] is p, 'emission': _v(i.w, wo) and i.ray is ray, 'sources_kept': s1.v == l1 and s2.v == l2,
            'recursion': _count(sc.log, 'r') == (1 if more else 0) and _count(sc.log, 't') == (1 if more else 0) and _chain(sc.log, ray, b, i, ey, smp, rng), 'visibility': x.sight.scene is sc}

def f_direct_integrator(p: Point, n: Normal, d: Vector, e: 'Spectrum', dl: 'Spectrum', rl: 'Spectrum', tl: 'Spectrum', single: bool, lit: bool, eps: float, tm: float, depth: int, md: int):
    lights = [Num(1., 2), Num(2., 3)] if lit else []
    g = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM if single else LightStrategy.SAMPLE_ALL_UNIFORM, md)
    sc, ey, smp, rng = Place(lights, dl, rl, tl), Eye(1., 1.), Draw(1.), Dice(.5)
    g.request_samples(None, smp, sc)
    b = Fun(p, n, 1., 1., None)
    i = Site(b, e, eps)
    ray = RayDifferential(p.copy(), d.copy(), 0., 9., depth, tm)
    got = g.li(sc, ey, ray, i, smp, rng)
    more = depth + 1 < md
    want = e
    if lit:
        want = want + dl
    if more:
        want = want + rl + tl
    out = {'value': got == want, 'emission': _v(i.w, -d) and i.ray is ray, 'recursion': _count(sc.log, 'r') == (1 if more else 0) and _count(sc.log, 't') == (1 if more else 0) and _chain(sc.log, ray, b, i, ey, smp, rng)}
    out['strategy'] = _count(sc.log, 'a') == (1 if lit and not single else 0) and _count(sc.log, 'o') == (1 if lit and single else 0)
    q = sc.log[0] if lit else None
    out['arguments'] = (not lit) or (q[1] is ey and q[2] is p and q[3] is n and _v(q[4], -d) and q[5] == eps and q[6] == tm and q[7] is b and q[8] is smp and q[11] is rng)
    return out

class Round:
    """a sampler that rounds requests up to even numbers"""
    def round_size(self, n):
        return n + n % 2

def f_direct_requests_all(rounded: bool):
    lights = [Num(1., 2), Num(2., 3)]
    g, s, sc = DirectLightingIntegrator(), Draw(1.), Place([], None, None, None)
    sc.lights = lights
    g.request_samples(Round() if rounded else None, s, sc)
    m = 4 if rounded else 3
    lo, bo = g.light_sample_offsets, g.bsdf_sample_offsets
    one = [lo[0].offset_com, lo[1].offset_com, bo[0].offset_com, bo[1].offset_com]
    two = [lo[0].offset_pos, lo[1].offset_pos, bo[0].offset_dir, bo[1].offset_dir]
    ok = True
    for a in range(4):
        k = m if a == 1 or a == 3 else 2
        ok = ok and s.n1D[one[a]] == k and s.n2D[two[a]] == k
        for c in range(a):
            ok = ok and one[a] != one[c] and two[a] != two[c]
    return {'counts': ok and len(s.n1D) == 4 and len(s.n2D) == 4, 'offsets': lo[0].nSamples == 2 and lo[1].nSamples == m and bo[1].nSamples == m, 'lists': len(lo) == 2 and len(bo) == 2}

def f_direct_one_strategy(p: Point, n: Normal, d: Vector, a: float, b: float, base: float, u: float, e: float, tm: float):
    # requests and use of the one-light strategy together: independent sample values, the estimate of the light picked
    assert u >= 0. and u < 1.
    x, y, s = Num(a, 2), Num(b, 3), Draw(base)
    sc, ey, log = Place([x, y], None, Spectrum(0.), Spectrum(0.)), Eye(1., 1.), Log()
    g = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 1)
    g.request_samples(None, s, sc)
    ok = len(s.n1D) == 3 and len(s.n2D) == 2
    for k in s.n1D:
        ok = ok and k == 1
    s.fill()
    lo, bo, k = g.light_sample_offsets[0], g.bsdf_sample_offsets[0], g.light_num_offset
    ok = ok and k != lo.offset_com and k != bo.offset_com and lo.offset_com != bo.offset_com and lo.offset_pos != bo.offset_dir
    s.oneD[k][0] = u
    log.dgs = Geo(p, n)
    got = g.li(sc, ey, RayDifferential(p.copy(), d.copy(), 0., 9., 0, tm), Site(log, Spectrum(0.), e), s, Dice(.9))
    return {'value': got == Spectrum(2. * _one(x if 2. * u < 1. else y, s, lo, bo, 0)), 'requests': ok}

class Way:
    """the scattering at one vertex of a path"""
    def __init__(self, p, n, out):
        self.dgs, self.out, self.asked = Geo(p, n), out, None
    def sample_f(self, wo, smp, flags):
        self.asked = [wo, smp, flags]
        return [self.out[0], self.out[1], self.out[2], self.out[3]]

class Step:
    """the surface met by a ray of the path"""
    def __init__(self, way, lamp):
        self.way, self.lamp = way, lamp
    def get_bsdf(self, dg, o2w):
        return self.way
    def get_area_light(self):
        return self.lamp

class Spread:
    def __init__(self, p, n):
        self.p, self.nn = p, n
    def compute_differential(self, ray):
        self.ray = ray

class Shine:
    def __init__(self, e):
        self.e, self.w = e, None
    def l(self, p, n, w):
        self.w = w
        return self.e

class Maze:
    """a scene that shows the path one prepared surface after the other"""
    def __init__(self, lights, steps, dgs, eps, direct):
        self.lights, self.steps, self.dgs, self.eps, self.direct, self.log, self.rays, self.k = lights, steps, dgs, eps, direct, [], [], 0
    def intersect(self, ray, isect):
        self.rays.append(ray)
        self.k = self.k + 1
        if self.k > len(self.steps):
            return False
        isect.primitive, isect.dg, isect.rEps = self.steps[self.k - 1], self.dgs[self.k - 1], self.eps
        return True

class Air:
    def __init__(self, t):
        self.t, self.seen = t, []
    def transmittance(self, scene, ray, sample, rng=None):
        self.seen.append(ray)
        return self.t[len(self.seen) - 1]

def _draw():
    s = Draw(1.)
    return s

def f_path_first(p: Point, n: Normal, d: Vector, e: 'Spectrum', dl: 'Spectrum', bg: 'Spectrum', wi: Vector, f: 'Spectrum', pdf: float, md: int, eps: float, tm: float, k: float):
    # one vertex: emission and direct light, then the path leaves the scene (0: black, 1: no density, 2: diffuse, 3: specular)
    assert pdf > 0. and _lit(f) and md >= 1
    i = np.floor(k)
    assert i >= 0. and i <= 3.
    spec = i == 3.
    b = Way(p, n, [0. if i == 1. else pdf, wi, BDFType(T | S) if spec else BDFType(R | D), Spectrum(0.) if i == 0. else f])
    x = Lamp(None, None, 0., None, False, 1., bg)
    sc, ey, s, rng = Maze([x], [], [], 0., dl), Air([]), _draw(), Dice(.5)
    g = PathIntegrator(md)
    g.request_samples(None, s, sc)
    s.fill()
    it = Site(b, e, eps)
    ray = RayDifferential(p.copy(), d.copy(), 0., 9., 0, tm)
    got = g.li(sc, ey, ray, it, s, rng)
    want = e + dl
    if spec:
        want = want + f * wi.abs_dot(n) / pdf * bg
    out = {'value': got == want, 'emission': _v(it.w, -d), 'sampled': _v(b.asked[0], -d) and b.asked[2] == ALL}
    r = sc.rays[0] if i >= 2. else None
    out['ray'] = i < 2. or (len(sc.rays) == 1 and _v(r.o, p) and _v(r.d, wi) and r.mint == eps and r.maxt == np.inf and r.depth == 1 and r.time == tm)
    out['stopped'] = i >= 2. or len(sc.rays) == 0
    q = sc.log[0]
    out['direct'] = len(sc.log) == 1 and q[1] is ey and q[2] is p and q[3] is n and _v(q[4], -d) and q[5] == eps and q[6] == tm and q[7] is b and q[8] is s and q[11] is rng
    return out

def _sum(p, n, d, e, dl, bg, ws, fs, ps, ts, es, flags, md, rng):
    # a path through the prepared surfaces, every one with its own scattering
    q = [Point(1., 2., 3.), Point(4., 5., 6.), Point(7., 8., 9.), Point(3., 1., 4.), Point(1., 5., 9.), Point(2., 6., 5.)]
    nn = Normal(0., 0., 1.)
    ways = [Way(q[a], nn, [ps[a], ws[a], BDFType(flags[a]), fs[a]]) for a in range(len(ws))]
    shine = [Shine(a) for a in es]
    steps = [Step(ways[a + 1], shine[a]) for a in range(len(ws) - 1)]
    dgs = [Spread(q[a + 1], nn) for a in range(len(ws) - 1)]
    sc, ey, s = Maze([Lamp(None, None, 0., None, False, 1., bg)], steps, dgs, .125, dl), Air(ts), _draw()
    g = PathIntegrator(md)
    g.request_samples(None, s, sc)
    s.fill()
    ray = RayDifferential(p.copy(), d.copy(), 0., 9., 0, .5)
    got = g.li(sc, ey, ray, Site(ways[0], e, .25), s, rng)
    return got, sc, ey, ways, shine

def f_path_two(p: Point, n: Normal, d: Vector, e: 'Spectrum', e2: 'Spectrum', dl: 'Spectrum', bg: 'Spectrum', w1: Vector, w2: Vector, f1: 'Spectrum', f2: 'Spectrum', p1: float, p2: float, t1: 'Spectrum', a: bool, b: bool):
    # two vertices: emission of the second counts after a specular bounce only
    assert p1 > 0. and p2 > 0. and _lit(f1) and _lit(f2)
    got, sc, ey, ways, shine = _sum(p, n, d, e, dl, bg, [w1, w2], [f1, f2], [p1, p2], [t1], [e2], [(T | S) if a else (R | G), (R | S) if b else (R | D)], 5, Dice(.5))
    h1 = f1 * abs(w1.z) / p1
    want = e + dl + h1 * t1 * dl
    if a:
        want = want + h1 * t1 * e2
    if b:
        want = want + h1 * t1 * f2 * abs(w2.z) / p2 * bg
    r = sc.rays
    return {'value': got == want, 'rays': len(r) == 2 and _v(r[0].d, w1) and _v(r[1].d, w2) and _v(r[1].o, Point(4., 5., 6.)) and r[0].mint == .25 and r[1].mint == .125 and r[1].depth == 2 and r[1].time == .5,
            'directions': _v(ways[1].asked[0], -w1) and ((not a) or _v(shine[0].w, -w1)), 'medium': len(ey.seen) == 1 and ey.seen[0] is r[0]}

def f_path_depth(p: Point, n: Normal, d: Vector, dl: 'Spectrum', f1: 'Spectrum', f2: 'Spectrum', f3: 'Spectrum', t1: 'Spectrum', t2: 'Spectrum'):
    # the maximum depth ends a path after so many scattered rays
    assert _lit(f1) and _lit(f2) and _lit(f3)
    w, z = Vector(0., 0., 1.), Spectrum(0.)
    out = {}
    for k in range(3):
        got, sc, ey, ways, shine = _sum(p, n, d, z, dl, z, [w, w, w], [f1, f2, f3], [1., 1., 1.], [t1, t2], [z, z], [R | D, R | D, R | D], k, Dice(.5))
        want = dl
        if k >= 1:
            want = want + f1 * t1 * dl
        if k >= 2:
            want = want + f1 * t1 * f2 * t2 * dl
        out[('value0', 'value1', 'value2')[k]] = got == want
        out[('rays0', 'rays1', 'rays2')[k]] = len(sc.rays) == k
    return out

def f_path_roulette(p: Point, n: Normal, d: Vector, dl: float, f: float, u: float):
    # from the fifth vertex on, dim paths end at random and the survivors make up for them
    assert _lit(Spectrum(f)) and u > 0. and u < 1.
    w = Vector(0., 0., 1.)
    one, z = Spectrum(1.), Spectrum(0.)
    got, sc, ey, ways, shine = _sum(p, n, d, z, Spectrum(dl), z, [w, w, w, w, w, w], [one, one, one, one, Spectrum(f), one], [1., 1., 1., 1., 1., 1.], [one, one, one, one, one], [z, z, z, z, z],
        [R | D, R | D, R | D, R | D, R | D, R | D], 9, Dice(u))
    c = min(.5, Spectrum(f).y())
    want = 5. * dl
    if u <= c:
        want = want + f / c * dl
    return {'value': got == Spectrum(want)}

def f_path_requests(base: float):
    s = Draw(base)
    g = PathIntegrator(4)
    g.request_samples(None, s, Place([], None, None, None))
    ok = len(s.n1D) == 12 and len(s.n2D) == 9
    for k in s.n1D:
        ok = ok and k == 1
    for k in s.n2D:
        ok = ok and k == 1
    return {'requests': ok}

def f_path_samples(p: Point, n: Normal, d: Vector, dl: 'Spectrum', u: float, base: float):
    # the first vertices use the requested samples, each its own; later ones fresh random numbers
    w, one, z = Vector(0., 0., 1.), Spectrum(1.), Spectrum(0.)
    s = Draw(base)
    q, nn = Point(1., 2., 3.), Normal(0., 0., 1.)
    ways = [Way(q, nn, [1., w, BDFType(R | D), one]) for a in range(4)]
    sc, ey = Maze([], [Step(ways[a + 1], None) for a in range(3)], [Spread(q, nn) for a in range(3)], .125, dl), Air([one, one, one, one])
    g = PathIntegrator(3)
    g.request_samples(None, s, sc)
    s.fill()
    got = g.li(sc, ey, RayDifferential(p.copy(), d.copy()), Site(ways[0], z, .25), s, Dice(u))
    seen, ones, twos = [], [], []
    for a in range(3):
        c, b = sc.log[a], ways[a].asked[1]
        seen.append(b.u_com)
        ones = ones + [c[12], c[9].offset_com, c[10].offset_com]
        twos = twos + [c[9].offset_pos, c[10].offset_dir]
    ok = True
    for a in range(9):
        for c in range(a):
            ok = ok and ones[a] != ones[c]
    for a in range(6):
        for c in range(a):
            ok = ok and twos[a] != twos[c]
    for a in range(3):
        for c in range(9):
            ok = ok and seen[a] != s.oneD[ones[c]][0]
        for c in range(a):
            ok = ok and seen[a] != seen[c]
    last, b = sc.log[3], ways[3].asked[1]
    return {'distinct': ok, 'fresh': last[12] == -1 and last[9] is None and last[10] is None and b.u_com == u and b.u_dir[0] == u and b.u_dir[1] == u, 'vertices': len(sc.log) == 4}

# ------------------------------------------------------------- renderer and render loop
class Surf:
    """a surface integrator of which only the contract is known"""
    def __init__(self, l):
        self.l, self.args, self.pre, self.req = l, None, None, None
    def li(self, scene, renderer, ray, isect, sample, rng=None):
        self.args = [scene, renderer, ray, isect, sample, rng]
        return self.l
    def preprocess(self, scene, camera, renderer):
        self.pre = [scene, camera, renderer]
    def request_samples(self, sampler, sample, scene):
        self.req = [sampler, sample, scene]

class Fog(Surf):
    def __init__(self, l, t):
        super().__init__(l)
        self.t = t
    def li(self, scene, renderer, ray, sample, rng=None):
        self.args = [scene, renderer, ray, sample, rng]
        return self.l, self.t
    def transmittance(self, scene, renderer, ray, sample, rng=None):
        self.args = [scene, renderer, ray, sample, rng]
        return self.t

def f_renderer_li(l: 'Spectrum', a: 'Spectrum', b: 'Spectrum', lv: 'Spectrum', t: 'Spectrum', hit: bool, fog: bool, ray: RayDifferential, tm: float):
    x, y = Lamp(None, None, 0., None, False, 1., Tint2(a)), Lamp(None, None, 0., None, False, 1., b)
    sc, si, vi, smp, i, rng = Room([x, y], hit, None, 3.), Surf(l), Fog(lv, t), Num(1.), Intersection(), Dice(.5)
    r = RayDifferential(Point(1., 2., 3.), Vector(4., 5., 6.), 0., 9., 0, tm)
    smp.time = tm
    e = SamplerRenderer(None, None, si, vi if fog else None)
    got, tr = e.li(sc, r, smp, i, rng)
    base = l if hit else a + b
    return {'value': got == (t * base + lv if fog else base), 'transmittance': tr == (t if fog else Spectrum(1.)), 'surface': (not hit) or (si.args[0] is sc and si.args[1] is e and si.args[2] is r and si.args[3] is i and si.args[4] is smp and si.args[5] is rng),
            'background': hit or (x.ray is r and y.ray is r), 'medium': (not fog) or (vi.args[0] is sc and vi.args[1] is e and vi.args[2] is r and vi.args[3] is smp), 'kept': x.e.v == a}

class Tint2(Tint):
    def __radd__(self, o):
        return o + self.v
    def __iadd__(self, o):
        self.v = self.v + o
        return self
    def __add__(self, o):
        return self.v + o

def f_renderer_transmittance(t: 'Spectrum', fog: bool, ray: RayDifferential):
    vi, sc, smp, rng = Fog(Spectrum(0.), t), Room([]), Num(1.), Dice(.5)
    e = SamplerRenderer(None, None, None, vi if fog else None)
    got = e.transmittance(sc, ray, smp, rng)
    return {'value': got == (t if fog else Spectrum(1.)), 'passed': (not fog) or (vi.args[0] is sc and vi.args[1] is e and vi.args[2] is ray and vi.args[3] is smp and vi.args[4] is rng)}

class Paper:
    """a film that records what it is given"""
    def __init__(self):
        self.samples, self.values, self.written = [], [], 0
    def add_sample(self, sample, l):
        self.samples.append(sample)
        self.values.append(l)
    def write_image(self, *a):
        self.written = self.written + 1

class Cam:
    """a camera: the ray carries the image position of the sample"""
    def __init__(self, film, wt):
        self.film, self.wt = film, wt
    def generate_ray_differential(self, sample):
        r = RayDifferential(Point(sample.imageX, sample.imageY, 0.), Vector(0., 0., 1.), 0., np.inf, 0, sample.time)
        r.rxOrigin, r.ryOrigin = Point(sample.imageX + 1., sample.imageY, 0.), Point(sample.imageX, sample.imageY + 1., 0.)
        r.rxDirection = r.ryDirection = r.d
        r.has_differentials = True
        return [self.wt, r]

class Feed:
    """a sampler giving so many batches of two samples"""
    def __init__(self, n, ok=True):
        self.n, self.k, self.ok, self.seen, self.spp = n, 0, ok, [], 4
        self.xPixel_start, self.xPixel_end, self.yPixel_start, self.yPixel_end = 0, 1, 0, 1
    def maximum_sample_cnt(self):
        return 2
    def generate(self, samples, rng=None):
        if self.k == self.n:
            return False
        self.k = self.k + 1
        for i in range(len(samples)):
            samples[i].imageX, samples[i].imageY, samples[i].time = 10. * self.k + i, 5., 0.
        self.seen.append(len(samples))
        return True
    def report_results(self, samples, rays, Ls, isects):
        self.seen.append([len(samples), rays, Ls])
        return self.ok

class Proto:
    """the sample to duplicate"""
    def duplicate(self, n):
        return [Num(1.) for i in range(n)]

class Look:
    def __init__(self, l):
        self.l, self.n, self.rays, self.isects = l, 0, [], []
    def li(self, scene, ray, sample, isect, rng=None):
        self.n = self.n + 1
        self.rays.append(ray)
        self.isects.append(isect)
        return self.l * ray.o.x, Spectrum(1.)

def f_loop(l: 'Spectrum', wt: float, ok: bool):
    # every sample of every batch reaches the film once, weighted, whether or not its ray hits anything
    assert wt > 0. and l.y() > 0. and l.y() < 1000. and wt < 1000.
    film, eye, feed = Paper(), Look(l), Feed(2, ok)
    SamplerRendererTask(Room([], False), eye, Cam(film, wt), feed, Proto(), False, 1, 1)()
    out = {'count': len(film.values) == (4 if ok else 0), 'rays': eye.n == 4 and feed.k == 2}
    if ok:
        out['value'] = film.values[0] == l * 10. * wt and film.values[1] == l * 11. * wt and film.values[2] == l * 20. * wt and film.values[3] == l * 21. * wt
    else:
        out['value'] = True
    r = eye.rays[3]
    out['differentials'] = r.rxOrigin.x == 21.5 and r.rxOrigin.y == 5. and r.ryOrigin.x == 21. and r.ryOrigin.y == 5.5
    out['isects'] = eye.isects[0] is not eye.isects[1]
    return out

def f_loop_weightless(l: 'Spectrum', wt: float):
    assert wt <= 0.
    film, eye = Paper(), Look(l)
    SamplerRendererTask(Room([], True), eye, Cam(film, wt), Feed(1), Proto(), False, 1, 1)()
    return {'black': len(film.values) == 2 and film.values[0] == Spectrum(0.) and film.values[1] == Spectrum(0.), 'no_ray': eye.n == 0}

class Odd:
    """radiance that cannot be shown"""
    def __init__(self, nan, y):
        self.nan, self.lum = nan, y
    def has_nans(self):
        return self.nan
    def y(self):
        return self.lum
    def __mul__(self, o):
        return self
    def __imul__(self, o):
        return self
    def __rmul__(self, o):
        return self

class Stare:
    def __init__(self, l):
        self.l = l
    def li(self, scene, ray, sample, isect, rng=None):
        return self.l, Spectrum(1.)

def f_loop_odd(y: float, k: float):
    # not a number, negative or infinite luminance becomes black, anything else is kept
    i = np.floor(k)
    assert i >= 0. and i <= 3.
    assert y >= 0. or y < -EPS
    x = Odd(i == 0., np.inf if i == 1. else (-np.inf if i == 2. else y))
    film = Paper()
    SamplerRendererTask(Room([], True), Stare(x), Cam(film, 1.), Feed(1), Proto(), False, 1, 1)()
    bad = i <= 2. or y < 0.
    return {'black': (not bad) or film.values[0] == Spectrum(0.), 'kept': bad or film.values[0] is x}

def f_loop_mask(hit: bool, wt: float):
    # showing visibility instead of radiance
    assert Spectrum(1.).y() > 0. and Spectrum(1.).y() < 1000.
    film = Paper()
    SamplerRendererTask(Room([], hit), None, Cam(film, wt), Feed(1), Proto(), True, 1, 1)()
    return {'mask': film.values[0] == (Spectrum(1.) if hit and wt > 0. else Spectrum(0.)), 'both': len(film.values) == 2}

def f_loop_idle():
    film = Paper()
    SamplerRendererTask(Room([], True), Stare(None), Cam(film, 1.), None, Proto(), False, 1, 1)()
    SamplerRendererTask(Room([], True), Stare(None), Cam(film, 1.), Feed(0), Proto(), False, 1, 1)()
    return {'nothing': len(film.values) == 0, 'repr': isinstance(repr(SamplerRendererTask(None, None, None, None, None, False, 1, 1)), str)}

def f_render(l: 'Spectrum', fog: bool):
    # integrators are prepared, ask for their samples, every batch is rendered, then the image is written
    assert l.y() > 0. and l.y() < 1000.
    film, feed, si, vi = Paper(), Feed(2), Surf(l), Fog(Spectrum(0.), Spectrum(1.))
    cam, sc = Cam(film, 1.), Room([], True, None, 3.)
    e = SamplerRenderer(feed, cam, si, vi if fog else None)
    e.render(sc)
    return {'samples': len(film.values) == 4, 'value': film.values[0] == l and film.values[3] == l, 'written': film.written == 1, 'prepared': si.pre[0] is sc and si.pre[1] is cam and si.pre[2] is e,
            'requested': si.req[0] is feed and si.req[2] is sc, 'medium': (not fog) or (vi.pre[0] is sc and vi.req[0] is feed and vi.req[1] is si.req[1])}

def f_defaults():
    g = PathIntegrator(2)
    ok = True
    try:
        WhittedIntegrator(2).preprocess(None, None, None)
        WhittedIntegrator(2).request_samples(None, None, None)
        g.preprocess(None, None, None)
    except Exception:
        ok = False
    return {'optional': ok, 'repr': isinstance(repr(g), str) and isinstance(repr(WhittedIntegrator(1)), str) and isinstance(repr(DirectLightingIntegrator()), str)}
'''

KW = {f: {'replace': {'pytracer.integrator.utility.estimate_direct': '_direct'}} for f in ('f_all_lights', 'f_all_lights_random', 'f_one_light', 'f_one_light_random')}
MIX = {'replace': {'pytracer.integrator.utility.specular_reflect': '_rf', 'pytracer.integrator.utility.specular_transmit': '_tr',
                   'pytracer.integrator.utility.uniform_sample_all_lights': '_all', 'pytracer.integrator.utility.uniform_sample_one_light': '_single'}}
for f in ('f_whitted', 'f_direct_integrator', 'f_path_first', 'f_path_two', 'f_path_depth', 'f_path_roulette', 'f_path_samples'):
    KW[f] = MIX
KW['f_direct_one_strategy'] = {'replace': dict(KW['f_one_light']['replace'], **{k: v for k, v in MIX['replace'].items() if 'specular' in k})}
KW['f_defaults'] = {'try_total': True}


def check(ctx):
    ctx.rule('transport', 'clause holds for every light, surface, medium, direction and random number (exact normal forms)')
    mod = ctx.spec(SPEC, 'p11')
    ctx.prove_spec('transport', mod, 'pytracer/integrator', lambda f: KW.get(f, {}))
