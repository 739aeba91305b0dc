"""Shapes: intersection, parametrisation, bounds."""
EXPLANATION = '''
Sphere, Cylinder, Disk and Triangle are built under a symbolic translation with symbolic (partial) extents; intersect and
intersect_p are summarised over a symbolic ray and compared, as exact normal forms, with the reference "smallest root of the
surface equation inside the ray range and inside the clip and sweep limits"; hit data are compared with the derivatives of the
parametrisation.
'''
LEVEL = 'other'

SPEC = '''
from pytracer.geometry import Vector, Point, Normal, Ray, BBox
from pytracer.transform import Transform
from pytracer.shape import Sphere, Cylinder, Disk, Triangle, TriangleMesh

def _same(p, q):
    return p.x == q.x and p.y == q.y and p.z == q.z

def _dot(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z

def _cross(a, b):
    return Vector(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)

def _phi(x, y):
    p = np.arctan2(y, x)
    if p < 0.:
        p += 2. * np.pi
    return p

def _sphere(v, ro, rad, z0, z1, pm):
    return Sphere(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, rad, z0, z1, pm)

def _disk(v, ro, h, r, ri, pm):
    return Disk(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, h, r, ri, pm)

def _cylinder(v, ro, rad, z0, z1, pm):
    return Cylinder(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, rad, z0, z1, pm)

def _quad(A, B, C):
    q = np.sqrt(B * B - 4. * A * C)
    return (-B - q) / (2. * A), (-B + q) / (2. * A)

def _at(o, d, t):
    return Point(o.x + t * d.x, o.y + t * d.y, o.z + t * d.z)

def f_sphere_hit(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360.
    s = _sphere(v, ro, rad, z0, z1, pm)
    o = Point(r.o.x - v.x, r.o.y - v.y, r.o.z - v.z)
    d = r.d
    A = _dot(d, d)
    B = 2. * _dot(d, o)
    C = _dot(o, o) - rad * rad
    ta, tb = _quad(A, B, C)
    a, b = _at(o, d, ta), _at(o, d, tb)
    assert A > 0. and B * B - 4. * A * C > EPS * A * rad * rad and ta < tb
    assert a.x != 0. and b.x != 0.
    sweep = np.deg2rad(pm)
    oka = r.mint <= ta and ta <= r.maxt and z0 <= a.z and a.z <= z1 and _phi(a.x, a.y) <= sweep
    okb = r.mint <= tb and tb <= r.maxt and z0 <= b.z and b.z <= z1 and _phi(b.x, b.y) <= sweep
    hit, t, e, dg = s.intersect(r)
    p = s.intersect_p(r)
    return {'hit_iff': hit == (oka or okb), 'any_hit_iff': p == (oka or okb),
            'nearest_parameter': not (oka or okb) or t == (ta if oka else tb)}

def f_sphere_full(v: 'Vector', ro: bool, rad: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert rad > 0.
    s = _sphere(v, ro, rad, -rad, rad, 360.)
    o = Point(r.o.x - v.x, r.o.y - v.y, r.o.z - v.z)
    d = r.d
    A = _dot(d, d)
    B = 2. * _dot(d, o)
    C = _dot(o, o) - rad * rad
    ta, tb = _quad(A, B, C)
    a, b = _at(o, d, ta), _at(o, d, tb)
    assert A > 0. and B * B - 4. * A * C > EPS * A * rad * rad and ta < tb
    assert a.x != 0. and b.x != 0.
    oka = r.mint <= ta and ta <= r.maxt
    okb = r.mint <= tb and tb <= r.maxt
    hit, t, e, dg = s.intersect(r)
    p = s.intersect_p(r)
    return {'hit_iff': hit == (oka or okb), 'any_hit_iff': p == (oka or okb),
            'nearest_parameter': not (oka or okb) or t == (ta if oka else tb)}

def f_sphere_sizes():
    # neither a small radius nor a strong scale loses the sphere: the tangency tolerance is relative
    assert EPS < .0001
    i = Transform()
    s = Sphere(i, i, False, .001, -.001, .001, 360.)
    r = Ray(Point(.0006, 0., -3.), Vector(0., 0., 1.))
    h, t, _, _ = s.intersect(r)
    m, n = Transform.scale(1000., 1000., 1000.), Transform.scale(.001, .001, .001)
    b = Sphere(m, n, False, 1., -1., 1., 360.)
    q = Ray(Point(600., 0., -3000.), Vector(0., 0., 1.))
    g, u, _, _ = b.intersect(q)
    return {'small': h and t == 3. - .0008 and s.intersect_p(r), 'large': g and u == 2200. and b.intersect_p(q)}

def f_sphere_miss(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360.
    s = _sphere(v, ro, rad, z0, z1, pm)
    o = Point(r.o.x - v.x, r.o.y - v.y, r.o.z - v.z)
    A = _dot(r.d, r.d)
    B = 2. * _dot(r.d, o)
    assert A > 0. and B * B - 4. * A * (_dot(o, o) - rad * rad) < 0.
    hit, t, e, dg = s.intersect(r)
    return {'intersect': not hit, 'intersect_p': not s.intersect_p(r)}

def f_cylinder_hit(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert rad > 0. and z0 < z1 and 0. < pm and pm < 360.
    s = _cylinder(v, ro, rad, z0, z1, pm)
    o = Point(r.o.x - v.x, r.o.y - v.y, r.o.z - v.z)
    d = r.d
    A = d.x * d.x + d.y * d.y
    B = 2. * (d.x * o.x + d.y * o.y)
    C = o.x * o.x + o.y * o.y - rad * rad
    ta, tb = _quad(A, B, C)
    a, b = _at(o, d, ta), _at(o, d, tb)
    assert A > 0. and B * B - 4. * A * C > EPS and ta < tb
    assert a.x != 0. and b.x != 0.
    sweep = np.deg2rad(pm)
    oka = r.mint <= ta and ta <= r.maxt and z0 <= a.z and a.z <= z1 and _phi(a.x, a.y) <= sweep
    okb = r.mint <= tb and tb <= r.maxt and z0 <= b.z and b.z <= z1 and _phi(b.x, b.y) <= sweep
    hit, t, e, dg = s.intersect(r)
    p = s.intersect_p(r)
    return {'hit_iff': hit == (oka or okb), 'any_hit_iff': p == (oka or okb),
            'nearest_parameter': not (oka or okb) or t == (ta if oka else tb)}

def f_cylinder_miss(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert rad > 0. and z0 < z1 and 0. < pm and pm < 360.
    s = _cylinder(v, ro, rad, z0, z1, pm)
    x, y = r.o.x - v.x, r.o.y - v.y
    A = r.d.x * r.d.x + r.d.y * r.d.y
    B = 2. * (r.d.x * x + r.d.y * y)
    assert A > 0. and B * B - 4. * A * (x * x + y * y - rad * rad) < 0.
    hit, t, e, dg = s.intersect(r)
    return {'intersect': not hit, 'intersect_p': not s.intersect_p(r)}

def f_disk_hit(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert 0. < ri and ri < rad and 0. < pm and pm < 360.
    assert r.d.z > EPS or r.d.z < -EPS
    s = _disk(v, ro, h, rad, ri, pm)
    o = Point(r.o.x - v.x, r.o.y - v.y, r.o.z - v.z)
    ta = (h - o.z) / r.d.z
    a = _at(o, r.d, ta)
    m = a.x * a.x + a.y * a.y
    ok = r.mint <= ta and ta <= r.maxt and ri * ri <= m and m <= rad * rad and _phi(a.x, a.y) <= np.deg2rad(pm)
    hit, t, e, dg = s.intersect(r)
    p = s.intersect_p(r)
    return {'hit_iff': hit == ok, 'any_hit_iff': p == ok, 'nearest_parameter': not ok or t == ta}

def f_disk_parallel(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    assert r.d.z == 0.
    s = _disk(v, ro, h, rad, ri, pm)
    hit, t, e, dg = s.intersect(r)
    return {'intersect': not hit, 'intersect_p': not s.intersect_p(r)}

def f_sphere_data(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, a: float, b: float):
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360.
    sa, ca = np.sin(a), np.cos(a)
    assert sa > 0. and np.sin(b) > 0. and np.cos(b) > 0.
    x, y, z = rad * sa * np.cos(b), rad * sa * np.sin(b), rad * ca
    assert x != 0. and y != 0.
    sweep = np.deg2rad(pm)
    assert z0 <= z and z <= z1 and _phi(x, y) <= sweep
    s = _sphere(v, ro, rad, z0, z1, pm)
    r = Ray(Point(v.x + 2. * x, v.y + 2. * y, v.z + 2. * z), Vector(-x, -y, -z), 0., 2.5)
    assert EPS < .0001
    hit, t, e, dg = s.intersect(r)
    assert hit
    lo, hi = np.arccos(z0 / rad), np.arccos(z1 / rad)
    return {'parameter': t == 1., 'position': _same(dg.p, Point(v.x + x, v.y + y, v.z + z)),
            'error_bound': e == EPS * t, 'shape': dg.shape is s,
            'u': dg.u * sweep == _phi(x, y), 'v': dg.v * (hi - lo) == np.arccos(ca) - lo,
            'dpdu': _same(dg.dpdu, Vector(-sweep * y, sweep * x, 0.)),
            'dpdv': dg.dpdv.x == (hi - lo) * z * np.cos(b) and dg.dpdv.y == (hi - lo) * z * np.sin(b) and dg.dpdv.z == (lo - hi) * rad * sa}

def f_sphere_normal(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, a: float, b: float):
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360.
    sa, ca = np.sin(a), np.cos(a)
    assert sa > 0. and np.sin(b) > 0. and np.cos(b) > 0.
    x, y, z = rad * sa * np.cos(b), rad * sa * np.sin(b), rad * ca
    assert x != 0. and y != 0.
    assert z0 <= z and z <= z1 and _phi(x, y) <= np.deg2rad(pm)
    s = _sphere(v, ro, rad, z0, z1, pm)
    r = Ray(Point(v.x + 2. * x, v.y + 2. * y, v.z + 2. * z), Vector(-x, -y, -z), 0., 2.5)
    assert EPS < .0001
    assert np.arccos(z0 / rad) > np.arccos(z1 / rad)
    hit, t, e, dg = s.intersect(r)
    assert hit
    return {'radial': dg.nn.x * y == dg.nn.y * x and dg.nn.x * z == dg.nn.z * x}

def f_cylinder_data(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, z: float, b: float):
    assert rad > 0. and z0 < z1 and 0. < pm and pm < 360.
    assert np.sin(b) > 0. and np.cos(b) > 0.
    x, y = rad * np.cos(b), rad * np.sin(b)
    sweep = np.deg2rad(pm)
    assert z0 <= z and z <= z1 and _phi(x, y) <= sweep
    s = _cylinder(v, ro, rad, z0, z1, pm)
    r = Ray(Point(v.x + 2. * x, v.y + 2. * y, v.z + z), Vector(-x, -y, 0.), 0., 2.5)
    hit, t, e, dg = s.intersect(r)
    assert hit
    return {'parameter': t == 1., 'position': _same(dg.p, Point(v.x + x, v.y + y, v.z + z)),
            'error_bound': e == EPS * t, 'shape': dg.shape is s,
            'u': dg.u * sweep == _phi(x, y), 'v': dg.v * (z1 - z0) == z - z0,
            'dpdu': _same(dg.dpdu, Vector(-sweep * y, sweep * x, 0.)), 'dpdv': _same(dg.dpdv, Vector(0., 0., z1 - z0)),
            'normal_radial': dg.nn.x * y == dg.nn.y * x and dg.nn.z == 0.}

def f_disk_data(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, x: float, y: float, dx: float, dy: float):
    assert 0. < ri and ri < rad and 0. < pm and pm < 360.
    m = x * x + y * y
    assert x > 0. and y > 0. and ri * ri <= m and m <= rad * rad
    sweep = np.deg2rad(pm)
    c = np.sqrt(m)
    assert _phi(x, y) <= sweep
    s = _disk(v, ro, h, rad, ri, pm)
    r = Ray(Point(v.x + x - dx, v.y + y - dy, v.z + h - 1.), Vector(dx, dy, 1.), 0., 2.5)
    assert EPS < 1.
    hit, t, e, dg = s.intersect(r)
    assert hit
    return {'parameter': t == 1., 'position': _same(dg.p, Point(v.x + x, v.y + y, v.z + h)),
            'error_bound': e == EPS * t, 'shape': dg.shape is s,
            'u': dg.u * sweep == _phi(x, y), 'v': (1. - dg.v) * (rad - ri) == c - ri,
            'dpdu': _same(dg.dpdu, Vector(-sweep * y, sweep * x, 0.)),
            'dpdv': dg.dpdv.x * c == (ri - rad) * x and dg.dpdv.y * c == (ri - rad) * y and dg.dpdv.z == 0.,
            'normal_axis': dg.nn.x == 0. and dg.nn.y == 0., 'flat': _same(dg.dndu, Normal(0., 0., 0.)) and _same(dg.dndv, Normal(0., 0., 0.))}

def f_area(v: 'Vector', ro: bool, rad: float, ri: float, z0: float, z1: float, pm: float, h: float):
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360.
    sweep = np.deg2rad(pm)
    s = _sphere(v, ro, rad, z0, z1, pm)
    f = _sphere(v, ro, rad, z1, z0, pm)
    c = _cylinder(v, ro, rad, z0, z1, pm)
    d = _disk(v, ro, h, rad, ri, pm)
    w = _sphere(v, ro, rad, -rad, rad, 360.)
    return {'sphere': s.area() == sweep * rad * (z1 - z0), 'z_order': f.area() == s.area(), 'cylinder': c.area() == sweep * rad * (z1 - z0),
            'disk': 2. * d.area() == sweep * (rad * rad - ri * ri), 'full_sphere': w.area() == 4. * np.pi * rad * rad}

def f_bound(v: 'Vector', ro: bool, rad: float, ri: float, z0: float, z1: float, pm: float, h: float, x: float, y: float, z: float):
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360.
    assert -rad <= x and x <= rad and -rad <= y and y <= rad
    s = _sphere(v, ro, rad, z0, z1, pm).object_bound()
    c = _cylinder(v, ro, rad, z0, z1, pm).object_bound()
    d = _disk(v, ro, h, rad, ri, pm).object_bound()
    b = (s.pMin.x <= x and x <= s.pMax.x) and (s.pMin.y <= y and y <= s.pMax.y)
    e = (c.pMin.x <= x and x <= c.pMax.x) and (c.pMin.y <= y and y <= c.pMax.y)
    f = (d.pMin.x <= x and x <= d.pMax.x) and (d.pMin.y <= y and y <= d.pMax.y)
    w = _sphere(v, ro, rad, z0, z1, pm).world_bound()
    return {'sphere': b and s.pMin.z <= z0 and z1 <= s.pMax.z, 'cylinder': e and c.pMin.z <= z0 and z1 <= c.pMax.z,
            'disk': f and d.pMin.z <= h and h <= d.pMax.z,
            'world': _same(w.pMin, Point(s.pMin.x + v.x, s.pMin.y + v.y, s.pMin.z + v.z)) and _same(w.pMax, Point(s.pMax.x + v.x, s.pMax.y + v.y, s.pMax.z + v.z))}

def _mesh(v, ro, e, f, uv, tex):
    # triangle 1 uses the vertices 3, 1, 0 of a four-vertex mesh
    g = TriangleMesh(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, 2, 4, [0, 1, 2, 3, 1, 0],
                     [Point(f.x, f.y, f.z), Point(e.x, e.y, e.z), Point(7., 8., 9.), Point(0., 0., 0.)], None, None, uv, tex)
    return g.refine()[1]

def f_triangle_hit(v: 'Vector', ro: bool, e: 'Vector', f: 'Vector', k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    tri = _mesh(v, ro, e, f, None, None)
    o = Vector(r.o.x - v.x, r.o.y - v.y, r.o.z - v.z)
    div = _dot(_cross(r.d, f), e)
    assert div != 0.
    b1 = _dot(o, _cross(r.d, f)) / div
    b2 = _dot(r.d, _cross(o, e)) / div
    ta = _dot(f, _cross(o, e)) / div
    ok = b1 >= 0. and b2 >= 0. and b1 + b2 <= 1. and r.mint <= ta and ta <= r.maxt
    hit, t, eps, dg = tri.intersect(r)
    p = tri.intersect_p(r)
    return {'hit_iff': hit == ok, 'any_hit_iff': p == ok, 'nearest_parameter': not ok or t == ta}

def f_triangle_parallel(v: 'Vector', ro: bool, e: 'Vector', f: 'Vector', k: 'Ray'):
    r = Ray(k.o, k.d, k.mint, k.maxt, k.time, k.depth)
    tri = _mesh(v, ro, e, f, None, None)
    assert _dot(_cross(r.d, f), e) == 0.
    hit, t, eps, dg = tri.intersect(r)
    return {'intersect': not hit, 'intersect_p': not tri.intersect_p(r)}

def f_triangle_data(v: 'Vector', ro: bool, a: float, b: float, c: float, b1: float, b2: float, u0: float, v0: float, u1: float, v1: float, u3: float, v3: float):
    # object-space triangle (0,0,0) (a,0,0) (b,c,0), head-on ray through the point with barycentrics b1, b2
    assert a > 0. and c > 0. and b1 > 0. and b2 > 0. and b1 + b2 < 1.
    assert (u3 - u0) * (v1 - v0) != (u1 - u0) * (v3 - v0)
    tri = _mesh(v, ro, Vector(a, 0., 0.), Vector(b, c, 0.), [u0, v0, u1, v1, 5., 6., u3, v3], None)
    x, y = b1 * a + b2 * b, b2 * c
    r = Ray(Point(v.x + x, v.y + y, v.z + 1.), Vector(0., 0., -1.), 0., 2.5)
    hit, t, eps, dg = tri.intersect(r)
    assert hit
    b0 = 1. - b1 - b2
    du, dv = dg.dpdu, dg.dpdv
    return {'parameter': t == 1., 'position': _same(dg.p, Point(v.x + x, v.y + y, v.z)), 'shape': dg.shape is tri,
            'u': dg.u == b0 * u3 + b1 * u1 + b2 * u0, 'v': dg.v == b0 * v3 + b1 * v1 + b2 * v0,
            'tangents': du.x * (u1 - u3) + dv.x * (v1 - v3) == a and du.x * (u0 - u3) + dv.x * (v0 - v3) == b and du.y * (u1 - u3) + dv.y * (v1 - v3) == 0. and du.y * (u0 - u3) + dv.y * (v0 - v3) == c and du.z == 0. and dv.z == 0.,
            'normal_axis': dg.nn.x == 0. and dg.nn.y == 0.}

def f_triangle_alpha(v: 'Vector', ro: bool, a: float, b: float, c: float, b1: float, b2: float, tex: 'pytracer.texture.Texture'):
    assert a > 0. and c > 0. and b1 > 0. and b2 > 0. and b1 + b2 < 1.
    m = _mesh(v, ro, Vector(a, 0., 0.), Vector(b, c, 0.), None, tex)
    x, y = b1 * a + b2 * b, b2 * c
    r = Ray(Point(v.x + x, v.y + y, v.z + 1.), Vector(0., 0., -1.), 0., 2.5)
    hit, t, eps, dg = m.intersect(r)
    return {'same_answer': hit == m.intersect_p(r)}

def _turned(s, x, y, z, pm, upto):
    # a level ray towards the axis through (x, y, z): its roots are at 1 and 3
    sweep = np.deg2rad(pm)
    a, b = _phi(x, y), _phi(-x, -y)
    near, back = a <= sweep and upto >= 1., b <= sweep and upto >= 3.
    hit, t, e, dg = s.intersect(Ray(Point(2. * x, 2. * y, z), Vector(-x, -y, 0.), 0., upto))
    p = s.intersect_p(Ray(Point(2. * x, 2. * y, z), Vector(-x, -y, 0.), 0., upto))
    later, t2, e, d2 = s.intersect(Ray(Point(2. * x, 2. * y, z), Vector(-x, -y, 0.), 2., 2. + upto))
    p2 = s.intersect_p(Ray(Point(2. * x, 2. * y, z), Vector(-x, -y, 0.), 2., 2. + upto))
    return {'hit': hit == (near or back), 'any hit': p == (near or back), 'parameter': not hit or t == (1. if near else 3.),
            'second': later == (b <= sweep and upto >= 1.) and p2 == (b <= sweep and upto >= 1.) and (not later or t2 == 3.)}

def f_sphere_turned(q: float, pm: float, upto: float, left: bool):
    assert 0. < pm and pm < 360. and q > 0. and upto > 0. and upto < 4.
    assert np.cos(q) > 0.
    return _turned(_sphere(Vector(0., 0., 0.), False, 5., -3.5, 3.5, pm), -4. * np.cos(q) if left else 4. * np.cos(q), 4. * np.sin(q), 3., pm, upto)

def f_cylinder_turned(q: float, pm: float, upto: float, left: bool):
    assert 0. < pm and pm < 360. and q > 0. and upto > 0. and upto < 4.
    return _turned(_cylinder(Vector(0., 0., 0.), False, 2., -1.5, 1.5, pm), -2. * np.cos(q) if left else 2. * np.cos(q), 2. * np.sin(q), 1., pm, upto)

def f_disk_turned(x: float, y: float, pm: float):
    assert 0. < pm and pm < 360.
    m = x * x + y * y
    s = _disk(Vector(0., 0., 0.), False, 0., 4., 1., pm)
    hit, t, e, dg = s.intersect(Ray(Point(x, y, 1.), Vector(0., 0., -1.), 0., 2.))
    p = s.intersect_p(Ray(Point(x, y, 1.), Vector(0., 0., -1.), 0., 2.))
    ok = m >= 1. and m <= 16. and _phi(x, y) <= np.deg2rad(pm)
    return {'hit': hit == ok, 'any hit': p == ok, 'u': not hit or dg.u * np.deg2rad(pm) == _phi(x, y)}

def f_quarters(q: float):
    # the parameter along the sweep in the other three quarters
    assert q > 0.
    x, y, w, o = np.cos(q), np.sin(q), np.deg2rad(360.), Vector(0., 0., 0.)
    assert x > 0. and y > 0.
    c, b = _cylinder(o, False, 1., -1., 1., 360.), _sphere(o, False, 1., -.5, .5, 360.)
    def u(s, x, y):
        hit, t, e, dg = s.intersect(Ray(Point(2. * x, 2. * y, 0.), Vector(-x, -y, 0.), 0., 2.))
        return dg.u * w == _phi(x, y) and _same(dg.dpdu, Vector(-w * y, w * x, 0.))
    return {'cylinder second': u(c, -x, y), 'cylinder third': u(c, -x, -y), 'cylinder fourth': u(c, x, -y), 'sphere second': u(b, -x, y), 'sphere third': u(b, -x, -y), 'sphere fourth': u(b, x, -y)}

def f_seam(pm: float):
    # the sweep begins with the points at angle zero
    assert 0. < pm and pm < 180.
    o, rad = Vector(0., 0., 0.), 2.
    c, b, d = _cylinder(o, False, rad, -1., 1., pm), _sphere(o, False, rad, -rad, rad, pm), _disk(o, False, 0., rad, 0., pm)
    def both(s, p, v, t):
        h, th, e, dg = s.intersect(Ray(p, v, 0., 3.5))
        return h and th == t and dg.u == 0. and s.intersect_p(Ray(p, v, 0., 3.5))
    return {'cylinder far': both(c, Point(-2. * rad, 0., 0.), Vector(rad, 0., 0.), 3.), 'sphere far': both(b, Point(-2. * rad, 0., 0.), Vector(rad, 0., 0.), 3.),
            'cylinder': both(c, Point(2. * rad, 0., 0.), Vector(-rad, 0., 0.), 1.), 'sphere': both(b, Point(2. * rad, 0., 0.), Vector(-rad, 0., 0.), 1.), 'disk': both(d, Point(rad / 2., 0., 1.), Vector(0., 0., -1.), 1.)}

def f_cylinder_clipped(z: float, w: float, z0: float, z1: float, upto: float):
    # roots at 1 and 3, at heights z + w and z + 3 w
    assert z0 < z1 and upto > 0. and upto < 4.
    s = _cylinder(Vector(0., 0., 0.), False, 1., z0, z1, 300.)
    near, back = z0 <= z + w and z + w <= z1 and upto >= 1., z0 <= z + 3. * w and z + 3. * w <= z1 and upto >= 3.
    hit, t, e, dg = s.intersect(Ray(Point(0., 2., z), Vector(0., -1., w), 0., upto))
    p = s.intersect_p(Ray(Point(0., 2., z), Vector(0., -1., w), 0., upto))
    return {'hit': hit == (near or back), 'any hit': p == (near or back), 'parameter': not hit or t == (1. if near else 3.)}

def f_sphere_clipped(z0: float, z1: float, h: float, upto: float):
    # roots at 1 and 9, at heights -4 and 4
    assert -5. < z0 and z0 < z1 and z1 < 5. and upto > 0. and upto < 12.
    s = _sphere(Vector(0., 0., 0.), False, 5., z0, z1, 300.)
    near, back = z0 <= -4. and -4. <= z1 and upto >= 1., z0 <= 4. and 4. <= z1 and upto >= 9.
    hit, t, e, dg = s.intersect(Ray(Point(0., 3., -5.), Vector(0., 0., 1.), 0., upto))
    p = s.intersect_p(Ray(Point(0., 3., -5.), Vector(0., 0., 1.), 0., upto))
    return {'hit': hit == (near or back), 'any hit': p == (near or back), 'parameter': not hit or t == (1. if near else 9.)}

def f_cylinder_curvature(rad: float, z0: float, z1: float, pm: float, b: float):
    assert rad > 0. and z0 < 0. and z1 > 0. and 0. < pm and pm < 360.
    assert np.sin(b) > 0. and np.cos(b) > 0.
    x, y = rad * np.cos(b), rad * np.sin(b)
    assert _phi(x, y) <= np.deg2rad(pm)
    s = _cylinder(Vector(0., 0., 0.), False, rad, z0, z1, pm)
    hit, t, e, dg = s.intersect(Ray(Point(2. * x, 2. * y, 0.), Vector(-x, -y, 0.), 0., 2.5))
    # the normal dpdu x dpdv points outwards: (x, y, 0) / rad
    return {'around': dg.dndu.x * rad == dg.dpdu.x and dg.dndu.y * rad == dg.dpdu.y and dg.dndu.z == 0., 'along': _same(dg.dndv, Normal(0., 0., 0.))}

def f_sphere_curvature(b: float):
    assert np.sin(b) > 0. and np.cos(b) > 0.
    x, y = 4. * np.cos(b), 4. * np.sin(b)
    s = _sphere(Vector(0., 0., 0.), False, 5., -5., 5., 360.)
    hit, t, e, dg = s.intersect(Ray(Point(2. * x, 2. * y, 3.), Vector(-x, -y, 0.), 0., 2.5))
    # the normal dpdu x dpdv points outwards: p / 5
    k = 5.
    return {'u': dg.dndu.x * k == dg.dpdu.x and dg.dndu.y * k == dg.dpdu.y and dg.dndu.z * k == dg.dpdu.z, 'v': dg.dndv.x * k == dg.dpdv.x and dg.dndv.y * k == dg.dpdv.y and dg.dndv.z * k == dg.dpdv.z}

class Mask:
    def __init__(self, k):
        self.k = k
        self.seen = None

    def __call__(self, dg):
        self.seen = dg
        return self.k

def f_triangle_mask(ro: bool, a: float, b1: float, b2: float, u: float, k: float):
    # both queries show the texture the point that was hit, and are masked exactly where it is zero
    assert a > 0. and b1 > 0. and b2 > 0. and b1 + b2 < 1. and u > 2.
    x, y = Mask(k), Mask(k)
    uv = [0., 1., 1., u, 5., 6., u, -1.]
    e, f, z = Vector(a, 0., 0.), Vector(1., 2., 0.), Vector(0., 0., 0.)
    m, n = _mesh(z, ro, e, f, uv, x), _mesh(z, ro, e, f, uv, y)
    hit, t, eps, dg = m.intersect(Ray(Point(b1 * a + b2, 2. * b2, 1.), Vector(0., 0., -1.), 0., 2.5))
    p = n.intersect_p(Ray(Point(b1 * a + b2, 2. * b2, 1.), Vector(0., 0., -1.), 0., 2.5))
    g, h = x.seen, y.seen
    b0 = 1. - b1 - b2
    return {'hit': hit == (k != 0.), 'any hit': p == (k != 0.),
            'shown u': g.u == b0 * u + b1 and h.u == b0 * u + b1, 'shown v': g.v == b1 * u + b2 - b0 and h.v == b1 * u + b2 - b0,
            'shown point': _same(g.p, Point(b1 * a + b2, 2. * b2, 0.)) and _same(h.p, g.p), 'shown shape': g.shape is m and h.shape is n,
            'shown tangents': _same(g.dpdu, h.dpdu) and _same(g.dpdv, h.dpdv) and g.dpdu.x * (1. - u) + g.dpdv.x * (u + 1.) == a}

def f_triangle_mask_beyond(ro: bool, b1: float, far: float):
    # no texture is asked for a point outside the ray or the triangle
    assert far > 0. and b1 > 0. and b1 < 1.
    x = Mask(1.)
    m = _mesh(Vector(0., 0., 0.), ro, Vector(1., 0., 0.), Vector(0., 1., 0.), None, x)
    p = m.intersect_p(Ray(Point(b1, far, 1.), Vector(0., 0., -1.), 0., 2.))
    q, t, eps, dg = m.intersect(Ray(Point(b1, far, 1.), Vector(0., 0., -1.), 0., 2.))
    return {'any hit': p == (b1 + far <= 1.), 'hit': q == (b1 + far <= 1.), 'asked': (x.seen is not None) == (b1 + far <= 1.)}

def f_triangle_collapsed(ro: bool, a: float, b1: float, b2: float, u: float):
    # the parameters of the corners lie on one line: some frame of the plane
    assert a > 0. and b1 > 0. and b2 > 0. and b1 + b2 < 1.
    uv = [0., 1., 1., 2., 5., 6., u, u + 1.]
    m, x = _mesh(Vector(0., 0., 0.), ro, Vector(a, 0., 0.), Vector(1., 2., 0.), uv, None), Mask(1.)
    n = _mesh(Vector(0., 0., 0.), ro, Vector(a, 0., 0.), Vector(1., 2., 0.), uv, x)
    hit, t, eps, g = m.intersect(Ray(Point(b1 * a + b2, 2. * b2, 1.), Vector(0., 0., -1.), 0., 2.5))
    p = n.intersect_p(Ray(Point(b1 * a + b2, 2. * b2, 1.), Vector(0., 0., -1.), 0., 2.5))
    h = x.seen
    b0 = 1. - b1 - b2
    return {'hit': hit and p, 'u': g.u == b0 * u + b1, 'v': g.v == b0 * (u + 1.) + 2. * b1 + b2, 'tangent': g.dpdu.z == 0. and g.dpdv.z == 0.,
            'frame': g.dpdu.x * g.dpdv.x + g.dpdu.y * g.dpdv.y == 0. and g.dpdu.x * g.dpdu.x + g.dpdu.y * g.dpdu.y == 1. and g.dpdv.x * g.dpdv.x + g.dpdv.y * g.dpdv.y == 1.,
            'shown': h.u == g.u and h.v == g.v and _same(h.dpdu, g.dpdu) and _same(h.dpdv, g.dpdv)}

def f_triangle_misc(v: 'Vector', ro: bool, e: 'Vector', f: 'Vector'):
    m = _mesh(v, ro, e, f, None, None)
    n = _cross(e, f)
    w = m.world_bound()
    o = m.object_bound()
    lx, hx = min(v.x, v.x + e.x, v.x + f.x), max(v.x, v.x + e.x, v.x + f.x)
    ly, hy = min(v.y, v.y + e.y, v.y + f.y), max(v.y, v.y + e.y, v.y + f.y)
    lz, hz = min(v.z, v.z + e.z, v.z + f.z), max(v.z, v.z + e.z, v.z + f.z)
    return {'area': 2. * m.area() == np.sqrt(_dot(n, n)),
            'world_bound': w.pMin.x <= lx and w.pMin.y <= ly and w.pMin.z <= lz and w.pMax.x >= hx and w.pMax.y >= hy and w.pMax.z >= hz,
            'object_bound': o.pMin.x <= min(0., e.x, f.x) and o.pMax.x >= max(0., e.x, f.x) and o.pMin.y <= min(0., e.y, f.y) and o.pMax.y >= max(0., e.y, f.y) and o.pMin.z <= min(0., e.z, f.z) and o.pMax.z >= max(0., e.z, f.z),
            'vertices': _same(m[0], Point(v.x, v.y, v.z)) and _same(m[1], Point(v.x + e.x, v.y + e.y, v.z + e.z)) and _same(m[2], Point(v.x + f.x, v.y + f.y, v.z + f.z))}
'''

_S = {'slices': {c + '.intersect': (0, 1) for c in ('Sphere', 'Cylinder', 'Disk', 'Triangle')}, 'opaque': ('DifferentialGeometry.__init__', 'coordinate_system')}
KW = {f: _S for f in ('f_sphere_hit', 'f_sphere_full', 'f_sphere_miss', 'f_cylinder_hit', 'f_cylinder_miss', 'f_disk_hit', 'f_disk_parallel',
                      'f_triangle_hit', 'f_triangle_parallel')}
KW['f_triangle_alpha'] = {'opaque': ('DifferentialGeometry.__init__', 'coordinate_system')}


def check(ctx):
    ctx.rule('shape', 'shape clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p05')
    ctx.prove_spec('shape', mod, 'pytracer/shape', KW)
    ctx.require('obligations', len(ctx.obs), 2)
