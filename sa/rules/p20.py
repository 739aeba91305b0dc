"""Lights: incident radiance, visibility, emitted rays, power."""
EXPLANATION = '''
Every light is summarised for an arbitrary light-to-world transform, intensity, point of interest and pair of random numbers.
Incident radiance, direction, density and the visibility ray are compared with the inverse-square / directional / area formulas; emitted
rays with the position, direction and density they stand for; densities reported for a direction with those of the sampler.
Textures, shapes and scenes are stand-ins of which only the contract is known.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import Spectrum, EPS
from pytracer.geometry import Vector, Point, Normal, Ray, RayDifferential
from pytracer.transform import Transform
from pytracer.light.light import (Light, PointLight, SpotLight, ProjectionLight, GonioPhotometricLight, DistantLight, AreaLight, DiffuseAreaLight,
    InfiniteAreaLight)
from pytracer.light.utility import ShapeSet, VisibilityTester, LightSample, LightSampleOffset
import pytracer.montecarlo as mc

class Ball:
    def __init__(self, c, r):
        self.c, self.r = c, r

    def bounding_sphere(self):
        return [self.c, self.r]

class Room:
    """a scene of which only the bounding sphere is known"""
    def __init__(self, c, r, hit=False):
        self.b, self.hit, self.seen = Ball(c, r), hit, None

    def world_bound(self):
        return self.b

    def intersect_p(self, ray):
        self.seen = ray
        return self.hit

class Map:
    """a texture: bilinear stand-in"""
    def look_up(self, p):
        if len(p) == 3:
            return 7. + p[0] + 10. * p[1] + 100. * p[2]
        return 3. + p[0] + 2. * p[1]

class Dist:
    """a two-dimensional distribution of which only the contract is known"""
    def __init__(self, u, v, p):
        self.u, self.v, self.p = u, v, p

    def sample_cont(self, a, b):
        return [[self.u + a, self.v + b], self.p]

    def pdf(self, u, v):
        return 5. * u + 3. * v + 1.

class Patch:
    """a shape of which only the contract is known"""
    def __init__(self, a, p, n, d):
        self.a, self.p, self.n, self.d = a, p, n, d

    def can_intersect(self):
        return True

    def area(self):
        return self.a

    def sample(self, u1, u2):
        return [Point(self.p.x + u1, self.p.y + 2. * u2, self.p.z), self.n]

    def sample_p(self, p, u1, u2):
        return [Point(self.p.x + 3. * u1 + p.x, self.p.y + u2, self.p.z), self.n]

    def pdf(self, p):
        return 1. / self.a

    def pdf_p(self, p, w):
        return self.d * (w.x + 2. * w.y + p.z)

class Group:
    def __init__(self, parts):
        self.parts = parts

    def can_intersect(self):
        return False

    def refine(self):
        return self.parts

def sphere_dir(u1, u2):
    # stands for a unit direction made of two random numbers
    return Vector(u1, 2. * u2, 3. * u1 + u2)

def cone_dir(u1, u2, ct):
    return Vector(u1 * ct, u2, u1 - u2)

def disk(u1, u2):
    return [u1 + 2. * u2, u1 - u2]

def _v(a, b):
    return a.x == b.x and a.y == b.y and a.z == b.z

def _seg(r, p, q, eps, end, tm):
    # the visibility ray: from p towards q, unit, up to the light
    dx, dy, dz = q.x - p.x, q.y - p.y, q.z - p.z
    l = np.sqrt(dx * dx + dy * dy + dz * dz)
    return {'vis_origin': _v(r.o, p), 'vis_direction': r.d.x * l == dx and r.d.y * l == dy and r.d.z * l == dz,
            'vis_range': r.mint == eps and r.maxt == l * (1. - end), 'vis_time': r.time == tm, 'vis_depth': r.depth == 0}

def _towards(w, p, q):
    dx, dy, dz = q.x - p.x, q.y - p.y, q.z - p.z
    l = np.sqrt(dx * dx + dy * dy + dz * dz)
    return w.x * l == dx and w.y * l == dy and w.z * l == dz

def _sq(p, q):
    return (q.x - p.x) * (q.x - p.x) + (q.y - p.y) * (q.y - p.y) + (q.z - p.z) * (q.z - p.z)

def _leaving(r, n, o, d, tm):
    return {'ray_origin': _v(r.o, o), 'ray_direction': _v(r.d, d), 'ray_range': r.mint == 0. and r.maxt == np.inf, 'ray_time': r.time == tm,
            'ray_depth': r.depth == 0, 'normal': _v(n, d) and isinstance(n, Normal)}

def f_visibility_segment(p: Point, q: Point, e1: float, e2: float, tm: float):
    assert _sq(p, q) > 0.
    v = VisibilityTester()
    v.set_segment(p, e1, q, e2, tm)
    return _seg(v.ray, p, q, e1, e2, tm)

def f_visibility_ray(p: Point, w: Vector, e: float, tm: float, hit: bool):
    v = VisibilityTester()
    v.set_ray(p, e, w, tm)
    s = Room(p, 1., hit)
    free = v.unoccluded(s)
    return {'origin': _v(v.ray.o, p), 'direction': _v(v.ray.d, w), 'range': v.ray.mint == e and v.ray.maxt == np.inf, 'time': v.ray.time == tm,
            'unoccluded': free == (not hit), 'asked_with_ray': s.seen is v.ray}

def f_visibility_given(p: Point, w: Vector):
    r = Ray(p, w)
    return {'kept': VisibilityTester(r).ray is r, 'empty': VisibilityTester().ray is None}

class Fog:
    def transmittance(self, scene, ray, sample, rng):
        self.scene, self.ray, self.sample, self.rng = scene, ray, sample, rng
        return .25

def f_visibility_transmittance(p: Point, w: Vector, e: float, tm: float):
    v = VisibilityTester()
    v.set_ray(p, e, w, tm)
    f = Fog()
    t = v.transmittance('scene', f, 'sample', 'rng')
    return {'value': t == .25, 'scene': f.scene == 'scene' and f.sample == 'sample' and f.rng == 'rng',
            'ray': isinstance(f.ray, RayDifferential) and _v(f.ray.o, p) and _v(f.ray.d, w) and f.ray.mint == e and f.ray.time == tm}

def f_light_sample(a: float, b: float, c: float):
    s = LightSample(a, b, c)
    d = LightSample()
    return {'pos': s.u_pos[0] == a and s.u_pos[1] == b, 'com': s.u_com == c, 'default': d.u_pos[0] == 0. and d.u_pos[1] == 0. and d.u_com == 0.,
            'own': not (d.u_pos is s.u_pos)}

class Store:
    def __init__(self):
        self.oneD, self.twoD, self.n1, self.n2 = [], [], [], []

    def add_1d(self, n):
        self.n1.append(n)
        return len(self.n1) - 1

    def add_2d(self, n):
        self.n2.append(n)
        return len(self.n2) - 1

def f_light_sample_offset(a: float, b: float, c: float, d: float, e: float, f: float):
    s = Store()
    s.add_1d(9)
    o = LightSampleOffset(2, s)
    s.oneD = [None, [a, b]]
    s.twoD = [[[c, d], [e, f]]]
    x, y = LightSample.from_sample(s, o, 0), LightSample.from_sample(s, o, 1)
    return {'requests': s.n1 == [9, 2] and s.n2 == [2], 'count': o.nSamples == 2, 'first': x.u_com == a and x.u_pos[0] == c and x.u_pos[1] == d,
            'second': y.u_com == b and y.u_pos[0] == e and y.u_pos[1] == f}

def f_sample_count(n: int, t: Transform):
    a = Plain(t, n)
    b = Plain(t)
    m = t.inverse()
    r = a.w2l(Vector(1., 2., 3.))
    e = m(Vector(1., 2., 3.))
    return {'samples': a.ns == (n if n > 1 else 1), 'default': b.ns == 1, 'world_to_light': _v(r, e), 'no_emission': a.le(None) == Spectrum(0.)}

class Plain(Light):
    def sample_l(self, p, e, s, t):
        return None

    def sample_r(self, scene, s, a, b, t):
        return None

    def pdf(self, p, w):
        return 0.

    def power(self, scene):
        return 0.

    def is_delta_light(self):
        return False

# --- point light
def _affine(t):
    # no perspective part
    t.m[3][0] = t.m[3][1] = t.m[3][2] = 0.
    t.m[3][3] = 1.
    return t

def f_point(t: Transform, i: Spectrum, p: Point, e: float, tm: float, a: float, b: float):
    t = _affine(t)
    o = t(Point(0., 0., 0.))
    assert _sq(p, o) > 0.
    l = PointLight(t, i)
    s, w, d, v = l.sample_l(p, e, LightSample(a, b, 0.), tm)
    out = _seg(v.ray, p, o, e, 0., tm)
    out['radiance'] = s * _sq(p, o) == i
    out['direction'] = _towards(w, p, o)
    out['density'] = d == 1. and l.pdf(p, w) == 0.
    out['delta'] = l.is_delta_light() is True
    out['power'] = l.power(None) == 4. * np.pi * i
    return out

def f_point_ray(t: Transform, i: Spectrum, tm: float, a: float, b: float, c: float, d: float):
    r, n, p, s = PointLight(t, i).sample_r(None, LightSample(a, b, .5), c, d, tm)
    out = _leaving(r, n, t(Point(0., 0., 0.)), sphere_dir(a, b), tm)
    out['density'] = p * 4. * np.pi == 1.
    out['radiance'] = s == i
    return out

# --- spot light
def _rigid():
    return Transform()

def _fall(ct, cw, cf):
    if ct < cw:
        return 0.
    if ct > cf:
        return 1.
    d = (ct - cw) / (cf - cw)
    return d * d * d * d

class Spot(SpotLight):
    """spot light given by the cosines of its angles"""
    def __init__(self, t, i, cw, cf):
        Light.__init__(self, t)
        self.pos, self.intensity, self.cos_width, self.cos_falloff = t(Point(0., 0., 0.)), i, cw, cf

def f_spot_angles(t: Transform, i: Spectrum, w: float, f: float):
    l = SpotLight(t, i, w, f)
    return {'width': l.cos_width == np.cos(w * np.pi / 180.), 'falloff': l.cos_falloff == np.cos(f * np.pi / 180.),
            'position': _v(l.pos, t(Point(0., 0., 0.))), 'intensity': l.intensity == i}

def f_spot(i: Spectrum, p: Point, e: float, tm: float, cw: float, cf: float, g: float, m: Vector):
    assert -1. < cw and cw < cf and cf < 1.
    t = Transform.translate(m) * Transform.rotate_x(g)
    o = t(Point(0., 0., 0.))
    q = t.inverse()(Vector(p.x - o.x, p.y - o.y, p.z - o.z))
    n = _sq(p, o)
    assert n > 0.
    l = Spot(t, i, cw, cf)
    s, w, d, v = l.sample_l(p, e, LightSample(), tm)
    out = _seg(v.ray, p, o, e, 0., tm)
    out['direction'] = _towards(w, p, o)
    out['radiance'] = s * _sq(p, o) == i * _fall(q.z / np.sqrt(n), cw, cf)
    out['density'] = d == 1. and l.pdf(p, w) == 0.
    out['delta'] = l.is_delta_light() is True
    out['power'] = l.power(None) == i * np.pi * (2. - cf - cw)
    return out

def f_spot_ray(i: Spectrum, tm: float, a: float, b: float, c: float, d: float, cw: float, cf: float, t: Transform):
    assert -1. < cw and cw < cf and cf < 1.
    t = _affine(t)
    x = t(cone_dir(a, b, cw))
    y = t.inverse()(x)
    n = y.x * y.x + y.y * y.y + y.z * y.z
    assert n > 0.
    l = Spot(t, i, cw, cf)
    r, n1, p, s = l.sample_r(None, LightSample(a, b, .5), c, d, tm)
    out = _leaving(r, n1, t(Point(0., 0., 0.)), x, tm)
    out['density'] = p * 2. * np.pi * (1. - cw) == 1.
    out['radiance'] = s == i * _fall(y.z / np.sqrt(n), cw, cf)
    return out

# --- goniophotometric light
class Gonio(GonioPhotometricLight):
    def __init__(self, t, i, m):
        Light.__init__(self, t)
        self.pos, self.intensity, self.MIPMap = t(Point(0., 0., 0.)), i, m

def f_gonio_plain(t: Transform, i: Spectrum, p: Point, e: float, tm: float):
    t = _affine(t)
    o = t(Point(0., 0., 0.))
    assert _sq(p, o) > 0.
    l = Gonio(t, i, None)
    s, w, d, v = l.sample_l(p, e, LightSample(), tm)
    out = _seg(v.ray, p, o, e, 0., tm)
    out['direction'] = _towards(w, p, o)
    out['radiance'] = s * _sq(p, o) == i
    out['density'] = d == 1. and l.pdf(p, w) == 0.
    out['delta'] = l.is_delta_light() is True
    out['power'] = l.power(None) == 4. * np.pi * i
    return out

def _angles(w):
    return [geo.spherical_phi(w) / (2. * np.pi), geo.spherical_theta(w) / np.pi]

def f_gonio_map(i: Spectrum, p: Point):
    # the map is indexed by the polar angle about +y and the azimuth about it
    n = _sq(p, Point(0., 0., 0.))
    assert n > 0.
    s, w, d, v = Gonio(Transform(), i, Map()).sample_l(p, 0., LightSample(), 0.)
    k = np.sqrt(n)
    m = Map().look_up(_angles(Vector(p.x / k, p.z / k, p.y / k)))
    return {'radiance': s * n == i * m, 'power': Gonio(Transform(), i, Map()).power(None) == 4. * np.pi * i * Map().look_up([.5, .5, .5])}

def f_gonio_ray(t: Transform, i: Spectrum, tm: float, a: float, b: float, c: float, d: float):
    r, n, p, s = Gonio(t, i, None).sample_r(None, LightSample(a, b, .5), c, d, tm)
    out = _leaving(r, n, t(Point(0., 0., 0.)), sphere_dir(a, b), tm)
    out['density'] = p * 4. * np.pi == 1.
    out['radiance'] = s == i
    return out

def f_gonio_ray_map(i: Spectrum, a: float, b: float):
    # the emitted radiance is the one a point in that direction receives
    l = Gonio(Transform(), i, Map())
    r, n, p, s = l.sample_r(None, LightSample(a, b, .5), 0., 0., 0.)
    q = sphere_dir(a, b)
    g = _sq(Point(0., 0., 0.), q)
    assert g > 0.
    e, w, d, v = l.sample_l(Point(q.x, q.y, q.z), 0., LightSample(), 0.)
    return {'consistent': e * g == s}

# --- projection light
def nothing(name):
    raise IOError('no image')

def picture(name):
    return np.zeros([2, 4, 3])

def tall_picture(name):
    return np.zeros([4, 2, 3])

def mip_init(self, t, img, trilinear=False, max_aniso=8., wrap=None):
    self.img = img

def mip_look(self, p):
    return Map().look_up(p)

def _frustum(w, k, sx, sy):
    # position on the screen of half-extents sx, sy for field of view with half-angle tangent k
    return w.x / (w.z * k), w.y / (w.z * k)

def _projected(i, p, k, sx, sy, m):
    w = p
    if w.z / np.sqrt(w.x * w.x + w.y * w.y + w.z * w.z) <= 0.:
        return 0. * i
    x, y = w.x / (w.z * k), w.y / (w.z * k)
    if x < -sx or x > sx or y < -sy or y > sy:
        return 0. * i
    return i * m.look_up([.5 + x / (2. * sx), .5 + y / (2. * sy)])

def _projection(l, p, i, k, sx, sy, e, tm, ones):
    o = Point(0., 0., 0.)
    s, w, d, v = l.sample_l(p, e, LightSample(), tm)
    n = _sq(p, o)
    # leave out the slivers of directions within 1e-5 of the plane and of the axis of the light
    c = p.z / np.sqrt(n)
    far = c >= EPS and c < 1. - EPS or c <= 0.
    out = _seg(v.ray, p, o, e, 0., tm)
    out['direction'] = _towards(w, p, o)
    out['radiance'] = (not far) or s * n == _projected(i, p, k, sx, sy, ones)
    out['density'] = d == 1. and l.pdf(p, w) == 0.
    out['delta'] = l.is_delta_light() is True
    return out

class One:
    def look_up(self, p):
        return 1.

def _fov(k):
    return 2. * np.rad2deg(np.arctan(k))

def f_projection_plain(i: Spectrum, p: Point, e: float, tm: float, k: float):
    assert k > 0. and _sq(p, Point(0., 0., 0.)) > 0.
    l = ProjectionLight(Transform(), i, None, _fov(k))
    return _projection(l, p, i, k, 1., 1., e, tm, One())

def f_projection_cone(i: Spectrum, k: float):
    # the emission cone reaches exactly to the corner of the image
    assert k > 0.
    l = ProjectionLight(Transform(), i, None, _fov(k))
    c = 1. / np.sqrt(1. + 2. * k * k)
    return {'cone': l.cos_width == c, 'power': l.power(None) == i * 2. * np.pi * (1. - c)}

def f_projection_wide(i: Spectrum, p: Point, e: float, tm: float, k: float):
    # an image four wide and two high
    assert k > 0. and _sq(p, Point(0., 0., 0.)) > 0.
    l = ProjectionLight(Transform(), i, 'file', _fov(k))
    out = _projection(l, p, i, k, 2., 1., e, tm, Map())
    c = 1. / np.sqrt(1. + 5. * k * k)
    out['cone'] = l.cos_width == c
    out['power'] = l.power(None) == i * 2. * np.pi * (1. - c) * Map().look_up([.5, .5, .5])
    return out

def f_projection_tall(i: Spectrum, p: Point, e: float, tm: float, k: float):
    assert k > 0. and _sq(p, Point(0., 0., 0.)) > 0.
    l = ProjectionLight(Transform(), i, 'file', _fov(k))
    out = _projection(l, p, i, k, 1., 2., e, tm, Map())
    c = 1. / np.sqrt(1. + 5. * k * k)
    out['cone'] = l.cos_width == c
    return out

def f_projection_ray(t: Transform, i: Spectrum, tm: float, a: float, b: float, c: float, d: float, k: float):
    assert k > 0.
    l = ProjectionLight(t, i, None, _fov(k))
    r, n, p, s = l.sample_r(None, LightSample(a, b, .5), c, d, tm)
    cw = 1. / np.sqrt(1. + 2. * k * k)
    out = _leaving(r, n, t(Point(0., 0., 0.)), t(cone_dir(a, b, cw)), tm)
    out['density'] = p * 2. * np.pi * (1. - cw) == 1.
    return out

def _turned():
    # x becomes y, y becomes z, z becomes x
    return Transform(np.array([[0., 0., 1., 0.], [1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 0., 1.]]), np.array([[0., 1., 0., 0.], [0., 0., 1., 0.], [1., 0., 0., 0.], [0., 0., 0., 1.]]))

def cone_inside(u1, u2, c):
    return Vector(.48, .36, .8)

def f_projection_ray_pattern(i: Spectrum):
    # the pattern is the one of the direction in the frame of the light
    assert EPS < .01
    r, n, p, s = ProjectionLight(_turned(), i, None, _fov(1.)).sample_r(None, LightSample(.5, .5, .5), .5, .5, 0.)
    return {'direction': r.d.x == .8 and r.d.y == .48 and r.d.z == .36, 'inside': s == i}

def f_projection_world(i: Spectrum, p: Point, k: float, g: float, m: Vector):
    # in the world the pattern is the one of the local direction of the point
    assert k > 0.
    t = Transform.translate(m) * Transform.rotate_x(g)
    o = t(Point(0., 0., 0.))
    q = t.inverse()(p)
    n = _sq(p, o)
    assert n > 0. and _sq(q, Point(0., 0., 0.)) > 0.
    s, w, d, v = ProjectionLight(t, i, None, _fov(k)).sample_l(p, 0., LightSample(), 0.)
    s1, w1, d1, v1 = ProjectionLight(Transform(), i, None, _fov(k)).sample_l(q, 0., LightSample(), 0.)
    return {'same_pattern': s == s1, 'direction': _towards(w, p, o)}

# --- distant light
def f_distant(t: Transform, r: Spectrum, d: Vector, p: Point, e: float, tm: float):
    z = t(d)
    n = z.x * z.x + z.y * z.y + z.z * z.z
    assert n > 0.
    l = DistantLight(t, r, d)
    s, w, q, v = l.sample_l(p, e, LightSample(), tm)
    k = np.sqrt(n)
    return {'direction': w.x * k == z.x and w.y * k == z.y and w.z * k == z.z, 'radiance': s == r, 'density': q == 1. and l.pdf(p, w) == 0.,
            'vis_origin': _v(v.ray.o, p), 'vis_direction': _v(v.ray.d, w), 'vis_range': v.ray.mint == e and v.ray.maxt == np.inf,
            'vis_time': v.ray.time == tm, 'delta': l.is_delta_light() is True}

def f_distant_alias(r: Spectrum, p: Point):
    # callers may scale what they are given
    l = DistantLight(Transform(), r, Vector(0., 0., 1.))
    s, w, q, v = l.sample_l(p, 0., LightSample(), 0.)
    s *= 2.
    w *= 3.
    s2, w2, q2, v2 = l.sample_l(p, 0., LightSample(), 0.)
    return {'radiance': s2 == r, 'direction': w2.z == 1.}

def f_distant_ray(c: Point, rad: float, r: Spectrum, a: float, b: float, u1: float, u2: float, tm: float, x: float, y: float):
    assert rad > 0.
    d = Vector(x, y, 1.)
    l = DistantLight(Transform(), r, d)
    ray, n, p, s = l.sample_r(Room(c, rad), LightSample(a, b, .5), u1, u2, tm)
    k = np.sqrt(x * x + y * y + 1.)
    d1, d2 = disk(a, b)
    ox, oy, oz = ray.o.x - c.x, ray.o.y - c.y, ray.o.z - c.z
    along = (ox * x + oy * y + oz) / k
    return {'direction': ray.d.x * k == -x and ray.d.y * k == -y and ray.d.z * k == -1., 'plane': along == rad,
            'disk': ox * ox + oy * oy + oz * oz == rad * rad * (1. + d1 * d1 + d2 * d2), 'density': p * np.pi * rad * rad == 1.,
            'radiance': s == r, 'range': ray.mint == 0. and ray.maxt == np.inf and ray.depth == 0, 'time': ray.time == tm, 'normal': _v(n, ray.d),
            'power': l.power(Room(c, rad)) == r * np.pi * rad * rad}

# --- area lights
def _patches(a1, a2, n):
    return Patch(a1, Point(0., 1., 2.), n, 3.), Patch(a2, Point(5., 6., 7.), n, 4.)

def f_shapes_one(a: float, p: Point, w: Vector, u: float, v: float, c: float):
    assert a > 0. and 0. < c and c < 1.
    s = ShapeSet(Patch(a, Point(0., 0., 0.), Normal(0., 0., 1.), 3.))
    q, n = s.sample(LightSample(u, v, c))
    qp, m = s.sample_p(p, LightSample(u, v, c))
    return {'area': s.sum_area == a, 'sample': q.x == u and q.y == 2. * v and n.z == 1., 'sample_p': qp.x == 3. * u + p.x and qp.y == v and m.z == 1.,
            'pdf': s.pdf(p, w) == 3. * (w.x + 2. * w.y + p.z), 'pdf_p': s.pdf_p(p) * a == 1.}

def f_shapes_two(a: float, b: float, p: Point, w: Vector, u: float, v: float, c: float):
    assert a > 0. and b > 0. and 0. < c and c < 1.
    x, y = _patches(a, b, Normal(0., 0., 1.))
    s = ShapeSet(Group([x, Group([y])]))
    q, n = s.sample(LightSample(u, v, c))
    first = q.z == 2.
    second = q.z == 7.
    t = a + b
    g = w.x + 2. * w.y + p.z
    # either order of the parts gives each the share of its area
    k = c * t
    return {'area': s.sum_area == t, 'part': (first and q.x == u) or (second and q.x == 5. + u),
            'share': (first == (k <= a)) if s.shapes[0] is x else (second == (k <= b)),
            'pdf': s.pdf(p, w) * t == (3. * a + 4. * b) * g, 'pdf_p': s.pdf_p(p) * t == 1., 'count': len(s.shapes) == 2}

def f_shapes_two_p(a: float, b: float, p: Point, u: float, v: float, c: float):
    assert a > 0. and b > 0. and 0. < c and c < 1.
    x, y = _patches(a, b, Normal(0., 0., 1.))
    s = ShapeSet(Group([x, y]))
    q, n = s.sample_p(p, LightSample(u, v, c))
    first = q.z == 2.
    return {'part': (first and q.x == 3. * u + p.x) or (q.z == 7. and q.x == 5. + 3. * u + p.x),
            'share': (first == (c * (a + b) <= a)) if s.shapes[0] is x else (first == (c * (a + b) > b))}

def f_area(i: Spectrum, a: float, p: Point, u: float, v: float, e: float, tm: float, nx: float, ny: float, nz: float, k: Point):
    assert a > 0.
    n = Normal(nx, ny, nz)
    l = DiffuseAreaLight(Transform(), i, 4, Patch(a, k, n, 3.))
    q = Point(k.x + 3. * u + p.x, k.y + v, k.z)
    assert _sq(p, q) > 0.
    s, w, d, vis = l.sample_l(p, e, LightSample(u, v, .5), tm)
    out = _seg(vis.ray, p, q, e, EPS, tm)
    out['direction'] = _towards(w, p, q)
    side = nx * (p.x - q.x) + ny * (p.y - q.y) + nz * (p.z - q.z)
    out['radiance'] = s == (i if side > 0. else 0. * i)
    out['density'] = d == l.pdf(p, w) and d == 3. * (w.x + 2. * w.y + p.z)
    out['delta'] = l.is_delta_light() is False
    out['samples'] = l.ns == 4
    out['power'] = l.power(None) == i * a * np.pi
    out['kind'] = isinstance(l, AreaLight)
    return out

def f_area_emission(i: Spectrum, n: Normal, w: Vector, p: Point):
    l = DiffuseAreaLight(Transform(), i, 1, Patch(1., p, n, 1.))
    return {'one_sided': l.l(p, n, w) == (i if n.x * w.x + n.y * w.y + n.z * w.z > 0. else 0. * i)}

def f_area_ray(i: Spectrum, a: float, u: float, v: float, u1: float, u2: float, tm: float, n: Normal, k: Point):
    assert a > 0.
    l = DiffuseAreaLight(Transform(), i, 1, Patch(a, k, n, 3.))
    r, m, p, s = l.sample_r(None, LightSample(u, v, .5), u1, u2, tm)
    d = sphere_dir(u1, u2)
    c = d.x * n.x + d.y * n.y + d.z * n.z
    f = -1. if c < 0. else 1.
    return {'origin': r.o.x == k.x + u and r.o.y == k.y + 2. * v and r.o.z == k.z, 'direction': r.d.x == f * d.x and r.d.y == f * d.y and r.d.z == f * d.z,
            'outwards': r.d.x * n.x + r.d.y * n.y + r.d.z * n.z >= 0., 'density': p * 2. * np.pi * a == 1., 'normal': _v(m, n),
            'radiance': s == (i if c < 0. or c > 0. else 0. * i), 'range': r.mint == EPS and r.maxt == np.inf and r.depth == 0, 'time': r.time == tm}

# --- infinite light
class Sky(InfiniteAreaLight):
    def __init__(self, t, m, d):
        Light.__init__(self, t, 2)
        self.pos, self.radMap, self.dist = t(Point(0., 0., 0.)), m, d

def _dir(th, ph):
    return Vector(np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th))

def f_infinite(t: Transform, u: float, v: float, q: float, p: Point, e: float, tm: float, a: float, b: float):
    assert 0. < a + u and a + u < 1. and 0. < b + v and b + v < 1.
    assert np.sin(np.pi * (b + v)) > 0.
    l = Sky(t, Map(), Dist(u, v, q))
    s, w, d, vis = l.sample_l(p, e, LightSample(a, b, .5), tm)
    z = t(_dir(np.pi * (b + v), 2. * np.pi * (a + u)))
    return {'direction': _v(w, z), 'density': d * 2. * np.pi * np.pi * np.sin(np.pi * (b + v)) == q,
            'radiance': s == Spectrum(Map().look_up([a + u, b + v])), 'vis_origin': _v(vis.ray.o, p), 'vis_direction': _v(vis.ray.d, w),
            'vis_range': vis.ray.mint == e and vis.ray.maxt == np.inf, 'vis_time': vis.ray.time == tm, 'delta': l.is_delta_light() is False}

def f_infinite_pole(q: float, p: Point):
    s, w, d, vis = Sky(Transform(), Map(), Dist(.5, 0., q)).sample_l(p, 0., LightSample(), 0.)
    return {'density': d == 0., 'direction': w.z == 1.}

def f_infinite_le(x: float, y: float, z: float):
    n = x * x + y * y + z * z
    assert n > 0.
    l = Sky(Transform(), Map(), Dist(0., 0., 1.))
    r = RayDifferential(Point(1., 2., 3.), Vector(x, y, z))
    k = np.sqrt(n)
    return {'radiance': l.le(r) == Spectrum(Map().look_up(_angles(Vector(x / k, y / k, z / k))))}

def f_infinite_le_world(t: Transform, v: Vector):
    t = _affine(t)
    q = t.inverse()(v)
    assert q.x * q.x + q.y * q.y + q.z * q.z > 0.
    a = Sky(t, Map(), Dist(0., 0., 1.)).le(RayDifferential(Point(1., 2., 3.), v))
    b = Sky(Transform(), Map(), Dist(0., 0., 1.)).le(RayDifferential(Point(1., 2., 3.), q))
    return {'radiance': a == b}

def f_infinite_pdf(t: Transform, v: Vector, p: Point):
    w = _affine(t).inverse()(v)
    th = geo.spherical_theta(w)
    assert np.sin(th) > 0.
    m = Sky(t, Map(), Dist(0., 0., 1.)).pdf(p, v)
    a, b = _angles(w)
    return {'pdf': m * 2. * np.pi * np.pi * np.sin(th) == 5. * a + 3. * b + 1.}

def f_infinite_pdf_pole():
    l = Sky(Transform(), Map(), Dist(0., 0., 1.))
    return {'pole': l.pdf(Point(0., 0., 0.), Vector(0., 0., 1.)) == 0.}

def f_infinite_ray(u: float, v: float, q: float, c: Point, rad: float, a: float, b: float, u1: float, u2: float, tm: float):
    assert 0. < a + u and a + u < 1. and 0. < b + v and b + v < 1. and rad > 0. and q > 0.
    assert np.sin(np.pi * (b + v)) > 0.
    l = Sky(Transform(), Map(), Dist(u, v, q))
    r, n, p, s = l.sample_r(Room(c, rad), LightSample(a, b, .5), u1, u2, tm)
    z = _dir(np.pi * (b + v), 2. * np.pi * (a + u))
    d1, d2 = disk(u1, u2)
    ox, oy, oz = r.o.x - c.x, r.o.y - c.y, r.o.z - c.z
    return {'direction': r.d.x == -z.x and r.d.y == -z.y and r.d.z == -z.z, 'plane': ox * z.x + oy * z.y + oz * z.z == rad,
            'disk': ox * ox + oy * oy + oz * oz == rad * rad * (1. + d1 * d1 + d2 * d2),
            'density': p * 2. * np.pi * np.pi * np.sin(np.pi * (b + v)) * np.pi * rad * rad == q, 'normal': _v(n, r.d),
            'radiance': s == Spectrum(Map().look_up([a + u, b + v])), 'range': r.mint == 0. and r.maxt == np.inf and r.depth == 0, 'time': r.time == tm,
            'power': l.power(Room(c, rad)) == Spectrum(Map().look_up([.5, .5, .5])) * np.pi * rad * rad}

def f_infinite_ray_world(u: float, v: float, q: float, c: Point, rad: float, a: float, b: float, u1: float, u2: float):
    # a turned sky: the disk is perpendicular to the ray in the world
    assert 0. < a + u and a + u < 1. and 0. < b + v and b + v < 1. and rad > 0. and q > 0.
    assert np.sin(np.pi * (b + v)) > 0.
    r, n, p, s = Sky(_turned(), Map(), Dist(u, v, q)).sample_r(Room(c, rad), LightSample(a, b, .5), u1, u2, 0.)
    z = _dir(np.pi * (b + v), 2. * np.pi * (a + u))
    d1, d2 = disk(u1, u2)
    ox, oy, oz = r.o.x - c.x, r.o.y - c.y, r.o.z - c.z
    return {'direction': r.d.x == -z.z and r.d.y == -z.x and r.d.z == -z.y, 'plane': ox * r.d.x + oy * r.d.y + oz * r.d.z == -rad,
            'disk': ox * ox + oy * oy + oz * oz == rad * rad * (1. + d1 * d1 + d2 * d2)}

# --- lights built from image files
class Lit:
    def __init__(self, v):
        self.v = v

    def y(self):
        return self.v

TEXELS = [[1., 2., 3., 4.], [5., 7., 11., 13.]]

def texel_look(self, p):
    # constant on each texel
    h, w = np.shape(self.img)[0:2]
    i, j = int(p[1] * h), int(p[0] * w)
    if h == 1:
        return Lit(2.)
    if h == 4:
        return Lit(TEXELS[j][i])
    return Lit(TEXELS[i][j])

def _env(l, x, y):
    return l.dist.pdf(x, y)

def f_infinite_file(s: Spectrum):
    # chosen in proportion to the radiance and to the size of the texels on the sphere
    l = InfiniteAreaLight(Transform(), s, 1, 'sky')
    a = _env(l, .125, .25)
    k = True
    for i in range(2):
        for j in range(4):
            k = k and _env(l, .125 + .25 * j, .25 + .5 * i) * TEXELS[0][0] == a * TEXELS[i][j]
    return {'rows equal': k, 'total': a * 46. == 8.}

def f_infinite_tall(s: Spectrum):
    l = InfiniteAreaLight(Transform(), s, 1, 'sky')
    w = [np.sin(np.pi * (i + .5) / 4.) for i in range(4)]
    a = _env(l, .25, .125)
    k = True
    for i in range(4):
        for j in range(2):
            x = _env(l, .25 + .5 * j, .125 + .25 * i)
            d = x * TEXELS[0][0] * w[0] - a * TEXELS[j][i] * w[i]
            k = k and d < .01 and d > -.01
    return {'polar rows': k}

def f_infinite_plain(s: Spectrum, a: float, b: float):
    assert 0. < a and a < 1. and 0. < b and b < 1.
    l = InfiniteAreaLight(Transform(), s, 3)
    return {'uniform': _env(l, a, b) == 1., 'samples': l.ns == 3, 'map': np.shape(l.radMap.img)[0] == 1 and np.shape(l.radMap.img)[1] == 1}

def f_infinite_unreadable(s: Spectrum, a: float, b: float):
    # stays lit by its radiance when the file cannot be read
    assert 0. < a and a < 1. and 0. < b and b < 1.
    l = InfiniteAreaLight(Transform(), s, 2, 'sky')
    return {'uniform': _env(l, a, b) == 1., 'samples': l.ns == 2, 'map': np.shape(l.radMap.img)[0] == 1 and np.shape(l.radMap.img)[1] == 1}

def f_gonio_file(t: Transform, i: Spectrum, p: Point, tm: float):
    o = t(Point(0., 0., 0.))
    n = _sq(p, o)
    assert n > 0.
    a, b = GonioPhotometricLight(t, i, 'map'), Gonio(t, i, Map())
    s, w, d, v = a.sample_l(p, 0., LightSample(), tm)
    q, w2, d2, v2 = b.sample_l(p, 0., LightSample(), tm)
    return {'map': s == q, 'power': a.power(None) == b.power(None), 'image': a.MIPMap.img.shape == (2, 4, 3), 'place': _v(a.pos, o)}

def f_gonio_unreadable(t: Transform, i: Spectrum):
    l = GonioPhotometricLight(t, i, 'map')
    o = t(Point(0., 0., 0.))
    return {'power': l.power(None) == 4. * np.pi * i, 'place': _v(l.pos, o)}

def f_infinite_ray_none(c: Point):
    r, n, p, s = Sky(Transform(), Map(), Dist(.5, .5, 0.)).sample_r(Room(c, 1.), LightSample(), 0., 0., 0.)
    return {'density': p == 0., 'radiance': s == Spectrum(0.)}
'''
_SPH = {'replace': {'pytracer.montecarlo.utility.uniform_sample_sphere': 'sphere_dir'}}
_CONE = {'replace': {'pytracer.montecarlo.utility.uniform_sample_cone': 'cone_dir'}}
_DISK = {'replace': {'pytracer.montecarlo.utility.concentric_sample_disk': 'disk'}}
_NOIMG = {'pytracer.utility.imageio.read_image': 'nothing'}
KW = {'f_point_ray': _SPH, 'f_gonio_ray': _SPH, 'f_gonio_ray_map': _SPH, 'f_area_ray': _SPH, 'f_spot_ray': _CONE, 'f_distant_ray': _DISK,
      'f_infinite_ray': _DISK, 'f_projection_plain': {'replace': _NOIMG}, 'f_projection_cone': {'replace': _NOIMG},
      'f_projection_world': {'replace': _NOIMG}, 'f_infinite_ray_world': _DISK,
      'f_projection_ray_pattern': {'replace': dict(_NOIMG, **{'pytracer.montecarlo.utility.uniform_sample_cone': 'cone_inside'})},
      'f_projection_ray': {'replace': dict(_NOIMG, **_CONE['replace'])},
      'f_projection_wide': {'try_total': True, 'replace': {'pytracer.utility.imageio.read_image': 'picture', 'pytracer.texture.utility.MIPMap.__init__': 'mip_init', 'pytracer.texture.utility.MIPMap.look_up': 'mip_look'}},
      'f_projection_tall': {'try_total': True, 'replace': {'pytracer.utility.imageio.read_image': 'tall_picture', 'pytracer.texture.utility.MIPMap.__init__': 'mip_init', 'pytracer.texture.utility.MIPMap.look_up': 'mip_look'}}}

_MIP = {'pytracer.texture.utility.MIPMap.__init__': 'mip_init', 'pytracer.texture.utility.MIPMap.look_up': 'texel_look'}
for _n, _p in (('file', 'picture'), ('tall', 'tall_picture'), ('plain', 'nothing'), ('unreadable', 'nothing')):
    KW['f_infinite_' + _n] = {'try_total': True, 'replace': dict(_MIP, **{'pytracer.utility.imageio.read_image': _p})}
KW['f_gonio_file'] = {'try_total': True, 'replace': dict(_MIP, **{'pytracer.utility.imageio.read_image': 'picture', 'pytracer.texture.utility.MIPMap.look_up': 'mip_look'})}
KW['f_gonio_unreadable'] = {'try_total': True, 'replace': _NOIMG}


def check(ctx):
    ctx.rule('light', 'clause holds for every transform, intensity, point, random number and time (exact normal forms)')
    mod = ctx.spec(SPEC, 'p20')
    ctx.prove_spec('light', mod, 'pytracer/light', KW)
