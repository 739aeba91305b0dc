"""Participating media: regions, aggregates, phase functions, subsurface data."""
EXPLANATION = '''
Every medium is summarised for an arbitrary box, transform, ray, point, coefficients and (for the grid) symbolic densities; coefficients,
optical thickness, parameter ranges, bounds and phase values are compared with their closed forms, aggregates with the sums over stand-in
regions of which only the contract is known, and phase functions with the published formulas.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import Spectrum
from pytracer.geometry import Vector, Point, Ray, RayDifferential, BBox
from pytracer.transform import Transform
from pytracer.volume.volume import (VolumeRegion, DensityRegion, HomogeneousVolumeDensity, VolumeGridDensity, ExponentialDensity, AggregateVolume)
from pytracer.volume.bssrdf import BSSRDF
import pytracer.volume.utility as vu

class Zone:
    """a box of which only the contract is known"""
    def __init__(self, within, hit, t0, t1, off=None):
        self.within, self.hit, self.t0, self.t1, self.off = within, hit, t0, t1, off
        self.ray, self.pnt = None, None
        self.pMin = Point(1., 2., 3.)
    def inside(self, p):
        self.pnt = p
        return self.within
    def intersect_p(self, ray):
        self.ray = ray
        return [self.hit, self.t0, self.t1]
    def offset(self, p):
        self.pnt = p
        return self.off

def _same(a, b):
    return a.x == b.x and a.y == b.y and a.z == b.z

def _box(p, q):
    b = BBox()
    b.pMin, b.pMax = p.copy(), q.copy()
    return b

def _ray(o, d, a, b, tm):
    return Ray(o.copy(), d.copy(), a, b, 0, tm)

def _rays(a, b):
    return _same(a.o, b.o) and _same(a.d, b.d) and a.mint == b.mint and a.maxt == b.maxt and a.time == b.time

def f_uniform(a: 'Spectrum', s: 'Spectrum', e: 'Spectrum', g: float, within: bool, t: Transform, p: Point, w: Vector, v: Vector, tm: float):
    z = Zone(within, False, 0., 0.)
    m = HomogeneousVolumeDensity(a, s, g, e, z, t)
    q = t.inverse()(p)
    o = Spectrum(0.)
    r = {'absorption': m.sigma_a(p, w, tm) == (a if within else o), 'scattering': m.sigma_s(p, w, tm) == (s if within else o),
         'attenuation': m.sigma_t(p, w, tm) == (a + s if within else o), 'emission': m.lve(p, w, tm) == (e if within else o),
         'phase': m.p(p, w, v, tm) == (vu.phase_hg(w, v, g) if within else 0.), 'point': _same(z.pnt, q)}
    return r

def f_uniform_each(a: 'Spectrum', s: 'Spectrum', e: 'Spectrum', g: float, t: Transform, p: Point, w: Vector, v: Vector, tm: float, k: int):
    # every query tests the point in the space of the medium
    assert k >= 0 and k <= 4
    z = Zone(True, False, 0., 0.)
    m = HomogeneousVolumeDensity(a, s, g, e, z, t)
    if k == 0:
        m.sigma_a(p, w, tm)
    elif k == 1:
        m.sigma_s(p, w, tm)
    elif k == 2:
        m.sigma_t(p, w, tm)
    elif k == 3:
        m.lve(p, w, tm)
    else:
        m.p(p, w, v, tm)
    return {'point': z.pnt is not None and _same(z.pnt, t.inverse()(p))}

def f_uniform_tau(a: float, s: float, hit: bool, t0: float, t1: float, t: Transform, o: Point, d: Vector, m0: float, m1: float, tm: float):
    assert t0 < t1 and a >= 0. and s >= 0.
    z = Zone(True, hit, t0, t1)
    m = HomogeneousVolumeDensity(Spectrum(a), Spectrum(s), 0., Spectrum(0.), z, t)
    r = _ray(o, d, m0, m1, tm)
    x = m.tau(r, 1., .5)
    n2 = (t1 - t0) * (t1 - t0) * (d.x * d.x + d.y * d.y + d.z * d.z)
    q = m.intersect_p(r)
    return {'tau': x * x == (n2 * (a + s) * (a + s) if hit else 0.) * Spectrum(1.), 'ray': _rays(z.ray, t.inverse()(r)), 'hit': q[0] == hit,
            'range': not hit or (q[1] == t0 and q[2] == t1), 'kept': _rays(r, _ray(o, d, m0, m1, tm))}

def f_uniform_tau_color(a: 'Spectrum', s: 'Spectrum', t1: float, o: Point):
    assert 0. < t1
    m = HomogeneousVolumeDensity(a, s, 0., Spectrum(0.), Zone(True, True, 0., t1), Transform())
    x = m.tau(_ray(o, Vector(0., 2., 0.), 0., 9., 0.), 1., .5)
    return {'tau': x * x == 4. * t1 * t1 * (a + s) * (a + s), 'kept': m.sig_a is a and m.sig_s is s}

def f_bounds(p: Point, q: Point, x: float, y: float, z: float):
    assert p.x <= q.x and p.y <= q.y and p.z <= q.z
    b = _box(p, q)
    s = Spectrum(1.)
    t = Transform.translate(Vector(x, y, z))
    u = HomogeneousVolumeDensity(s, s, 0., s, b, t).world_bound()
    e = ExponentialDensity(s, s, 0., s, b, t, 1., 1., Vector(0., 1., 0.)).world_bound()
    g = VolumeGridDensity(s, s, 0., s, b, t, np.array([[[1., 2.], [3., 4.]], [[5., 6.], [7., 8.]]])).world_bound()
    v = Vector(x, y, z)
    return {'uniform': _same(u.pMin, p + v) and _same(u.pMax, q + v), 'exponential': _same(e.pMin, p + v) and _same(e.pMax, q + v),
            'grid': _same(g.pMin, p + v) and _same(g.pMax, q + v)}

class Fog(DensityRegion):
    """density given, extent given"""
    def __init__(self, a, s, g, e, t, dens, zone):
        super().__init__(a, s, g, e, t)
        self.dens, self.zone, self.at = dens, zone, []
    def __call__(self, p):
        self.at.append(p)
        return self.dens[len(self.at) - 1] if len(self.at) <= len(self.dens) else 0.
    def world_bound(self):
        return None
    def intersect_p(self, ray):
        return self.zone.intersect_p(ray)

def f_density(a: 'Spectrum', s: 'Spectrum', e: 'Spectrum', g: float, x: float, t: Transform, p: Point, w: Vector, v: Vector, tm: float):
    m = Fog(a, s, g, e, t, [x, x, x, x], None)
    r = {'absorption': m.sigma_a(p, w, tm) == x * a, 'scattering': m.sigma_s(p, w, tm) == x * s, 'attenuation': m.sigma_t(p, w, tm) == x * (a + s),
         'emission': m.lve(p, w, tm) == x * e, 'phase': m.p(p, w, v, tm) == vu.phase_hg(w, v, g)}
    q = t.inverse()(p)
    r['points'] = len(m.at) == 4 and _same(m.at[0], q) and _same(m.at[1], q) and _same(m.at[2], q) and _same(m.at[3], q)
    return r

def _march(a, s, x, y, z, t0, t1, u, step, o, d, m0, m1, tm):
    # the sum over the segment inside the medium, in units of length
    zone = Zone(True, True, t0, t1)
    m = Fog(a, s, 0., Spectrum(0.), Transform(), [x, y, z], zone)
    r = _ray(o, d, m0, m1, tm)
    v = m.tau(r, step, u)
    n = (1. if t0 + u * step < t1 else 0.) * x + (1. if t0 + (u + 1.) * step < t1 else 0.) * y + (1. if t0 + (u + 2.) * step < t1 else 0.) * z
    l = np.sqrt(d.x * d.x + d.y * d.y + d.z * d.z)
    q = zone.ray
    c = {'tau': v == n * step * (a + s), 'unit': _same(q.d, d / l), 'origin': _same(q.o, o), 'range': q.mint == m0 * l and q.maxt == m1 * l, 'time': q.time == tm,
         'kept': _rays(r, _ray(o, d, m0, m1, tm))}
    c['place'] = len(m.at) == 0 or _same(m.at[0], o + d * ((t0 + u * step) / l))
    c['second'] = len(m.at) < 2 or _same(m.at[1], o + d * ((t0 + (u + 1.) * step) / l))
    return c

def f_march(a: 'Spectrum', s: 'Spectrum', x: float, y: float, z: float, t0: float, t1: float, u: float, o: Point, d: Vector, m0: float, m1: float, tm: float):
    assert u >= 0. and u < 1. and t0 < t1 and t1 - t0 <= 3.
    assert d.x * d.x + d.y * d.y + d.z * d.z > 0.
    return _march(a, s, x, y, z, t0, t1, u, 1., o, d, m0, m1, tm)

def f_march_step(a: 'Spectrum', s: 'Spectrum', x: float, y: float, z: float, t0: float, t1: float, step: float, o: Point, d: Vector, m0: float, m1: float, tm: float):
    assert step > 0. and t0 < t1 and t1 - t0 <= 3. * step
    assert d.x * d.x + d.y * d.y + d.z * d.z > 0.
    return _march(a, s, x, y, z, t0, t1, .25, step, o, d, m0, m1, tm)

def f_march_none(a: 'Spectrum', t0: float, t1: float, u: float, step: float, o: Point, d: Vector, still: bool):
    if still:
        m = Fog(a, a, 0., a, Transform(), [1.], Zone(True, True, t0, t1))
        v = m.tau(_ray(o, Vector(0., 0., 0.), 0., 1., 0.), step, u)
    else:
        m = Fog(a, a, 0., a, Transform(), [1.], Zone(True, False, t0, t1))
        v = m.tau(_ray(o, d, 0., 1., 0.), step, u)
    return {'tau': v == Spectrum(0.), 'asked': len(m.at) == 0}

def f_exponential(a: float, b: float, up: Vector, p: Point, within: bool, t: Transform, o: Point, d: Vector, hit: bool, t0: float, t1: float):
    assert up.x * up.x + up.y * up.y + up.z * up.z > 0.
    z = Zone(within, hit, t0, t1)
    s = Spectrum(1.)
    m = ExponentialDensity(s, s, 0., s, z, t, a, b, up)
    x = m(p)
    h = ((p.x - 1.) * up.x + (p.y - 2.) * up.y + (p.z - 3.) * up.z) / np.sqrt(up.x * up.x + up.y * up.y + up.z * up.z)
    r = _ray(o, d, 0., 5., 1.)
    q = m.intersect_p(r)
    return {'density': x == (a * np.exp(-b * h) if within else 0.), 'point': _same(z.pnt, p), 'ray': _rays(z.ray, t.inverse()(r)),
            'hit': q[0] == hit and (not hit or (q[1] == t0 and q[2] == t1))}

def _grid(zone, t, d):
    s = Spectrum(1.)
    return VolumeGridDensity(s, s, .5, s, zone, t, d)

def _cells(a, b):
    # 2 layers (z), 3 rows (y), 4 columns (x)
    return np.array([[[1., 2., a, 3.], [5., b, 7., 2.], [4., 9., 1., 6.]], [[8., a, 3., 1.], [b, 2., 6., 5.], [7., 1., 4., 2.]]])

def _at(d, x, y, z):
    x, y, z = min(max(x, 0), 3), min(max(y, 0), 2), min(max(z, 0), 1)
    return d[z][y][x]

def _tri(d, i, j, k, x, y, z):
    s = 0.
    for c in range(2):
        for b in range(2):
            for a in range(2):
                s = s + _at(d, i + a, j + b, k + c) * (x if a else 1. - x) * (y if b else 1. - y) * (z if c else 1. - z)
    return s

def _voxel(a, b, x, y, z, i, j, k):
    d = _cells(a, b)
    zone = Zone(True, True, 0., 1., Vector((i + .5 + x) / 4., (j + .5 + y) / 3., (k + .5 + z) / 2.))
    return _grid(zone, Transform(), d)(Point(0., 0., 0.)) == _tri(d, i, j, k, x, y, z)

def f_grid_inner(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, 1, 1, 0)}

def f_grid_deep(a: float, b: float, x: float, y: float, z: float):
    # as many layers as columns
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    d = np.array([[[1., a], [2., 7.]], [[b, 4.], [9., 3.]], [[6., 2.], [a, 8.]], [[5., b], [1., 3.]]])
    zone = Zone(True, True, 0., 1., Vector((.5 + x) / 2., (.5 + y) / 2., (2.5 + z) / 4.))
    v = _grid(zone, Transform(), d)(Point(0., 0., 0.))
    s = 0.
    for k in range(2):
        for j in range(2):
            for i in range(2):
                s = s + d[2 + k][j][i] * (x if i else 1. - x) * (y if j else 1. - y) * (z if k else 1. - z)
    return {'value': v == s}

def f_grid_columns(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, 2, 0, 0)}

def f_grid_low(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, -1, -1, -1)}

def f_grid_high(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, 3, 2, 1)}

def f_grid_edge(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, 3, 0, 0)}

def f_grid_row(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, 0, 2, 0)}

def f_grid_layer(a: float, b: float, x: float, y: float, z: float):
    assert 0. <= x and x < 1. and 0. <= y and y < 1. and 0. <= z and z < 1.
    return {'value': _voxel(a, b, x, y, z, 0, 0, 1)}

def f_grid_state(a: float, b: float, p: Point, t: Transform, o: Point, d: Vector, hit: bool, t0: float, t1: float, g: float, w: Vector, v: Vector):
    c = _cells(a, b)
    zone = Zone(False, hit, t0, t1)
    m = VolumeGridDensity(Spectrum(2.), Spectrum(3.), g, Spectrum(5.), zone, t, c)
    c[0][0][0] = 77.
    r = _ray(o, d, 0., 5., 1.)
    q = m.intersect_p(r)
    return {'outside': m(p) == 0., 'point': _same(zone.pnt, p), 'size': m.nx == 4 and m.ny == 3 and m.nz == 2, 'owned': m.density[0][0][0] == 1.,
            'ray': _rays(zone.ray, t.inverse()(r)), 'hit': q[0] == hit and (not hit or (q[1] == t0 and q[2] == t1)), 'phase': m.p(p, w, v, 0.) == vu.phase_hg(w, v, g)}

class Part(VolumeRegion):
    """region of which only the contract is known"""
    def __init__(self, a, s, e, ph, tau, hit, t0, t1, b):
        self.a, self.s, self.e, self.ph, self.tv, self.hit, self.t0, self.t1, self.b = a, s, e, ph, tau, hit, t0, t1, b
        self.args = []
    def world_bound(self):
        return self.b
    def intersect_p(self, ray):
        self.args.append(ray)
        return [self.hit, self.t0, self.t1]
    def sigma_a(self, pnt, vec, tm):
        self.args.append([pnt, vec, tm])
        return self.a
    def sigma_s(self, pnt, vec, tm):
        self.args.append([pnt, vec, tm])
        return self.s
    def lve(self, pnt, vec, tm):
        self.args.append([pnt, vec, tm])
        return self.e
    def p(self, pnt, wi, wo, tm):
        self.args.append([pnt, wi, wo, tm])
        return self.ph
    def tau(self, ray, step=1., offset=.5):
        self.args.append([ray, step, offset])
        return self.tv

def _part(a, s, e, ph, tau=None, hit=False, t0=0., t1=0.):
    return Part(a, s, e, ph, tau, hit, t0, t1, _box(Point(0., 0., 0.), Point(1., 1., 1.)))

def f_aggregate(a: 'Spectrum', b: 'Spectrum', s: 'Spectrum', t: 'Spectrum', e: 'Spectrum', f: 'Spectrum', x: 'Spectrum', y: 'Spectrum', p: Point, w: Vector, tm: float, ray: Ray, st: float, of: float):
    m = AggregateVolume([_part(a, s, e, 1., x), _part(b, t, f, 1., y)])
    r = {'absorption': m.sigma_a(p, w, tm) == a + b, 'scattering': m.sigma_s(p, w, tm) == s + t, 'attenuation': m.sigma_t(p, w, tm) == a + b + s + t,
         'emission': m.lve(p, w, tm) == e + f, 'tau': m.tau(ray, st, of) == x + y}
    u = m.regions[1].args
    r['arguments'] = len(u) == 6 and u[0][0] is p and u[0][1] is w and u[0][2] == tm and u[4][0] is p and u[5][0] is ray and u[5][1] == st and u[5][2] == of
    return r

def f_aggregate_kept(a: 'Spectrum', s: 'Spectrum', e: 'Spectrum', x: 'Spectrum', p: Point, w: Vector, tm: float, ray: Ray):
    # the coefficients of the parts are not changed by adding them up
    n = _part(a, s, e, 1., x)
    m = AggregateVolume([n, n])
    m.sigma_a(p, w, tm)
    m.sigma_s(p, w, tm)
    m.lve(p, w, tm)
    m.tau(ray, 1., .5)
    return {'kept': n.a is a and n.s is s and n.e is e and n.tv is x and m.sigma_a(p, w, tm) == a + a and m.sigma_s(p, w, tm) == s + s}

def f_aggregate_phase(a: float, b: float, s: float, t: float, p: Point, w: Vector, v: Vector, tm: float):
    # mixture of the phase functions in proportion to scattering: it stays normalised
    assert s > 0. and t > 0. and Spectrum(1.).y() > 0.
    o = Spectrum(0.)
    g = AggregateVolume([_part(o, Spectrum(s), o, a), _part(o, Spectrum(t), o, b)])
    m = g.p(p, w, v, tm)
    there = True
    for n in g.regions:
        for x in n.args:
            there = there and _same(x[0], p) and x[len(x) - 1] == tm and (len(x) == 3 or (_same(x[1], w) and _same(x[2], v)))
    return {'value': m * (s + t) == a * s + b * t, 'arguments': there}

def f_aggregate_phase_single(a: float, s: float, p: Point, w: Vector, v: Vector, tm: float):
    assert s > 0. and Spectrum(1.).y() > 0.
    o = Spectrum(0.)
    return {'value': AggregateVolume([_part(o, Spectrum(s), o, a)]).p(p, w, v, tm) == a,
            'void': AggregateVolume([_part(o, Spectrum(0.), o, a)]).p(p, w, v, tm) == 0., 'empty': AggregateVolume([]).p(p, w, v, tm) == 0.}

def f_aggregate_range(h: bool, k: bool, a0: float, a1: float, b0: float, b1: float, ray: Ray):
    assert a0 < a1 and b0 < b1
    o = Spectrum(0.)
    m = AggregateVolume([_part(o, o, o, 1., None, h, a0, a1), _part(o, o, o, 1., None, k, b0, b1)])
    q = m.intersect_p(ray)
    return {'hit': q[0] == (h or k), 'first': not (h and not k) or (q[1] == a0 and q[2] == a1), 'second': not (k and not h) or (q[1] == b0 and q[2] == b1),
            'both': not (h and k) or (q[1] == min(a0, b0) and q[2] == max(a1, b1)), 'ray': m.regions[0].args[0] is ray and m.regions[1].args[0] is ray}

def f_aggregate_bound(p: Point, q: Point, s: Point, t: Point):
    assert p.x <= q.x and p.y <= q.y and p.z <= q.z and s.x <= t.x and s.y <= t.y and s.z <= t.z
    o = Spectrum(0.)
    b, c = _box(p, q), _box(s, t)
    m = AggregateVolume([Part(o, o, o, 1., o, False, 0., 0., b), Part(o, o, o, 1., o, False, 0., 0., c)]).world_bound()
    return {'bound': m == BBox.Union(b, c), 'kept': b == _box(p, q) and c == _box(s, t)}

def f_total(a: 'Spectrum', s: 'Spectrum', p: Point, w: Vector, tm: float):
    # default attenuation of a region
    n = _part(a, s, Spectrum(0.), 1.)
    return {'sum': n.sigma_t(p, w, tm) == a + s, 'kept': n.a is a and n.s is s}

def f_phase(w: Vector, v: Vector, g: float):
    c = w.x * v.x + w.y * v.y + w.z * v.z
    assert g > -1. and g < 1. and c >= -1. and c <= 1.
    k = 1.55 * g - .55 * g * g * g
    o = 4. * np.pi
    q = 1. + g * g - 2. * g * c
    return {'isotropic': vu.phase_isotrophic(w, v) * o == 1., 'rayleigh': vu.phase_rayleigh(w, v) * 16. * np.pi == 3. * (1. + c * c),
            'hg': vu.phase_hg(w, v, g) * o * q * np.sqrt(q) == 1. - g * g,
            'schlick': vu.phase_schlick(w, v, g) * o * (1. - k * c) * (1. - k * c) == 1. - k * k}

def f_phase_mie(c: float):
    assert c >= -1. and c <= 1.
    w, v = Vector(0., 1., 0.), Vector(0., c, 0.)
    h = .5 * (1. + c)
    h8 = h * h * h * h * h * h * h * h
    o = 4. * np.pi
    return {'hazy': vu.phase_mie_hazy(w, v) * o == .5 + 4.5 * h8, 'murky': vu.phase_mie_murky(w, v) * o == .5 + 16.5 * np.power(h, 32.)}

def f_phase_symmetric(w: Vector, v: Vector, g: float):
    return {'isotropic': vu.phase_isotrophic(w, v) == vu.phase_isotrophic(v, w), 'rayleigh': vu.phase_rayleigh(w, v) == vu.phase_rayleigh(v, w),
            'hazy': vu.phase_mie_hazy(w, v) == vu.phase_mie_hazy(v, w), 'murky': vu.phase_mie_murky(w, v) == vu.phase_mie_murky(v, w),
            'hg': vu.phase_hg(w, v, g) == vu.phase_hg(v, w, g), 'schlick': vu.phase_schlick(w, v, g) == vu.phase_schlick(v, w, g)}

def f_subsurface(a: 'Spectrum', s: 'Spectrum', e: float):
    b = BSSRDF(a, s, e)
    return {'absorption': b.sigma_a is a, 'scattering': b.sigma_prime_s is s, 'eta': b.eta == e, 'text': b.__repr__() is not None}

def rgb(cls, c):
    # stands for the conversion of an RGB triple
    return [c[0], c[1], c[2]]

def _med(name, s, a):
    x, y = vu.get_volume_scattering(name)
    return x[0] == a[0] and x[1] == a[1] and x[2] == a[2] and y[0] == s[0] and y[1] == s[1] and y[2] == s[2]

def f_media():
    # reduced scattering and absorption per millimetre, Jensen et al. 2001
    x, y = vu.get_volume_scattering('no such medium')
    return {'apple': _med('Apple', [2.29, 2.39, 1.97], [.0030, .0034, .046]), 'chicken': _med('Chicken1', [.15, .21, .38], [.015, .077, .19]),
            'chicken_2': _med('Chicken2', [.19, .25, .32], [.018, .088, .20]), 'cream': _med('Cream', [7.38, 5.47, 3.15], [.0002, .0028, .0163]),
            'ketchup': _med('Ketchup', [.18, .07, .03], [.061, .97, 1.45]), 'marble': _med('Marble', [2.19, 2.62, 3.00], [.0021, .0041, .0071]),
            'potato': _med('Potato', [.68, .70, .55], [.0024, .0090, .12]), 'skimmilk': _med('Skimmilk', [.70, 1.22, 1.90], [.0014, .0025, .0142]),
            'skin': _med('Skin1', [.74, .88, 1.01], [.032, .17, .48]), 'skin_2': _med('Skin2', [1.09, 1.59, 1.79], [.013, .070, .145]),
            'wholemilk': _med('Wholemilk', [2.55, 3.21, 3.77], [.0011, .0024, .014]), 'unknown': x is None and y is None}
'''
KW = {'f_media': {'replace': {'pytracer.spectral.spectrum.RGBSpectrum.from_rgb': 'rgb'}}}


def check(ctx):
    ctx.rule('medium', 'clause holds for every box, transform, ray, point, coefficient and density (exact normal forms)')
    mod = ctx.spec(SPEC, 'p21')
    ctx.prove_spec('medium', mod, 'pytracer/volume', KW)
