"""Shape sampling: points on the surface, normals, densities."""
EXPLANATION = '''
The sampling methods of every shape are summarised for symbolic random numbers and symbolic (partial) extents. Surface membership
and range clauses are compared as normal forms; uniformity is proved by differentiating the summarised map symbolically: the squared
area element must equal the squared area. Solid-angle densities are compared with the conversion of the area density (or with the
density of the cone that was sampled).
'''
LEVEL = 'other'

SPEC = '''
from pytracer.geometry import Vector, Point, Normal, Ray, BBox
from pytracer.transform import Transform
from pytracer.shape import Sphere, Cylinder, Disk, Triangle, TriangleMesh

def _same(p, q):
    return p.x == q.x and p.y == q.y and p.z == q.z

def _dot(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z

def _cross(a, b):
    return Vector(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)

def _jac2(w, u1, u2):
    ax, ay, az = _D(w.x, u1), _D(w.y, u1), _D(w.z, u1)
    bx, by, bz = _D(w.x, u2), _D(w.y, u2), _D(w.z, u2)
    cx, cy, cz = ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx
    return cx * cx + cy * cy + cz * cz

def _sphere(v, ro, rad, z0, z1, pm):
    return Sphere(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, rad, z0, z1, pm)

def _disk(v, ro, h, r, ri, pm):
    return Disk(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, h, r, ri, pm)

def _cylinder(v, ro, rad, z0, z1, pm):
    return Cylinder(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, rad, z0, z1, pm)

def _mesh(v, ro, e, f):
    g = TriangleMesh(Transform.translate(v), Transform.translate(Vector(-v.x, -v.y, -v.z)), ro, 2, 4, [0, 1, 2, 3, 1, 0],
                     [Point(f.x, f.y, f.z), Point(e.x, e.y, e.z), Point(7., 8., 9.), Point(0., 0., 0.)], None, None, None, None)
    return g.refine()[1]

def _azimuth(x, y, sweep):
    p = np.arctan2(y, x)
    if p < 0.:
        p += 2. * np.pi
    return p <= sweep

def f_sphere(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, u1: float, u2: float):
    assert rad > 0. and -rad < z0 and z0 < z1 and z1 < rad and 0. < pm and pm < 360. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    h = (1. - u1) * z0 + u1 * z1
    assert rad * rad - h * h > 0.       # implied: h is between z0 and z1
    s = _sphere(v, ro, rad, z0, z1, pm)
    p, n = s.sample(u1, u2)
    x, y, z = p.x - v.x, p.y - v.y, p.z - v.z
    k = -1. if ro else 1.
    sweep = np.deg2rad(pm)
    j = _jac2(p, u1, u2)
    return {'on_surface': x * x + y * y + z * z == rad * rad, 'clip': z >= z0 and z <= z1,
            'normal': n.x * rad == k * x and n.y * rad == k * y and n.z * rad == k * z,
            'uniform': j * s.pdf(p) * s.pdf(p) == 1.,
            'azimuth': x == np.sqrt(rad * rad - z * z) * np.cos(u2 * sweep) and y == np.sqrt(rad * rad - z * z) * np.sin(u2 * sweep)}

def f_sphere_inside(v: 'Vector', ro: bool, rad: float, d: 'Vector', u1: float, u2: float):
    assert rad > 0. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert _dot(d, d) - rad * rad < EPS
    s = _sphere(v, ro, rad, -rad, rad, 360.)
    q, m = s.sample_p(Point(v.x + d.x, v.y + d.y, v.z + d.z), u1, u2)
    p, n = s.sample(u1, u2)
    return {'point': _same(p, q), 'normal': _same(m, n)}

def f_sphere_cone(ro: bool, rad: float, d: float):
    # seen from a point on the z axis of the sphere
    assert rad > 0. and d > rad and d * d - rad * rad > EPS and 1. - rad * rad / (d * d) > 0.
    s = _sphere(Vector(0., 0., 0.), ro, rad, -rad, rad, 360.)
    q = Point(0., 0., -d)
    c = np.sqrt(1. - rad * rad / (d * d))
    return {'outside_cone': s.pdf_p(q, Vector(0., np.sqrt(1. - c * c / 4.), c / 2.)) == 0., 'behind': s.pdf_p(q, Vector(0., 0., -1.)) == 0.,
            'density': 2. * np.pi * (1. - c) * s.pdf_p(q, Vector(0., 0., 1.)) == 1.}

def f_sphere_cone_345(ro: bool):
    s = _sphere(Vector(0., 0., 0.), ro, 3., -3., 3., 360.)
    q = Point(0., 0., -5.)
    return {'outside_cone': s.pdf_p(q, Vector(0., .8, .6)) == 0., 'density': 2. * np.pi * s.pdf_p(q, Vector(0., 0., 1.)) == 5.,
            'edge': 2. * np.pi * s.pdf_p(q, Vector(0., .28, .96)) == 5.}

def f_sphere_cone_sample(ro: bool, u1: float):
    assert 0. < u1 and u1 < 1.
    s = _sphere(Vector(0., 0., 0.), ro, 3., -3., 3., 360.)
    p, n = s.sample_p(Point(0., 0., -5.), u1, .25)
    ct = .8 + .2 * u1
    x, y, z = p.x, p.y, p.z + 5.
    return {'direction': z * z == ct * ct * (x * x + y * y + z * z)}

def f_sphere_cone_axis(ro: bool, u2: float):
    p, n = _sphere(Vector(0., 0., 0.), ro, 3., -3., 3., 360.).sample_p(Point(0., 0., -5.), 1., u2)
    return {'point': p.x == 0. and p.y == 0. and p.z == -3., 'normal': n.x == 0. and n.y == 0. and n.z == (1. if ro else -1.)}

def f_sphere_cone_grazing(ro: bool):
    # a sampled direction the intersection test rejects stands for the point nearest the centre along it
    s = _sphere(Vector(0., 0., 0.), ro, 3., -3., 3., 360.)
    p, n = s.sample_p(Point(0., 0., -5.), .2, .25)
    c = .8 + .2 * .2
    k = -1. if ro else 1.
    return {'distance': p.x * p.x + p.y * p.y + (p.z + 5.) * (p.z + 5.) == 25. * c * c, 'depth': p.z + 5. == 5. * c * c,
            'normal': n.x * p.z == n.z * p.x and n.y * p.z == n.z * p.y and n.z * p.z * k > 0.}

def _never(s, r):
    return [False, None, None, None]

def _shear():
    m = np.array([[1., 0., 0., 0.], [0., 1., 1., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]])
    i = np.array([[1., 0., 0., 0.], [0., 1., -1., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]])
    return Transform(m, i), Transform(i, m)

def _along(n, x, y, z, k):
    # n is the unit vector along k (x, y, z)
    return n.x * y == n.y * x and n.x * z == n.z * x and n.y * z == n.z * y and (n.x * x + n.y * y + n.z * z) * k > 0. and _dot(n, n) == 1.

def f_sheared(ro: bool):
    # normals follow the inverse transpose of the placement, not the placement itself
    t, i = _shear()
    k = -1. if ro else 1.
    p, n = Disk(t, i, ro, 1., 2., 0., 360.).sample(.75, .625)
    q, m = Sphere(t, i, ro, 5., -5., 5., 360.).sample(.9, 0.)
    r, l = Cylinder(t, i, ro, 2., 1., 3., 360.).sample(.25, .125)
    x = i(q)
    y = i(r)
    return {'disk': n.x == 0. and n.y == 0. and n.z == k, 'sphere': _along(m, x.x, x.y, x.z - x.y, k), 'cylinder': _along(l, y.x, y.y, -y.y, k),
            'kinds': isinstance(n, Normal) and isinstance(m, Normal) and isinstance(l, Normal)}

def f_mirrored(ro: bool, rad: float, h: float, u1: float, u2: float):
    assert rad > 0. and h > 0. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1. and rad * rad - (2. * u1 - 1.) * (2. * u1 - 1.) * rad * rad > 0.
    o = Transform.scale(-1., 1., 1.)
    p, n = Sphere(o, o, ro, rad, -rad, rad, 360.).sample(u1, u2)
    q, m = Cylinder(o, o, ro, rad, 0., h, 360.).sample(u1, u2)
    k = -1. if ro else 1.
    return {'sphere': n.x * rad == k * p.x and n.y * rad == k * p.y and n.z * rad == k * p.z,
            'cylinder': m.x * rad == k * q.x and m.y * rad == k * q.y and m.z == 0.}

def f_cylinder(v: 'Vector', ro: bool, rad: float, z0: float, z1: float, pm: float, u1: float, u2: float):
    assert rad > 0. and z0 < z1 and 0. < pm and pm < 360. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    s = _cylinder(v, ro, rad, z0, z1, pm)
    p, n = s.sample(u1, u2)
    x, y, z = p.x - v.x, p.y - v.y, p.z - v.z
    k = -1. if ro else 1.
    sweep = np.deg2rad(pm)
    return {'on_surface': x * x + y * y == rad * rad, 'clip': z >= z0 and z <= z1,
            'normal': n.x * rad == k * x and n.y * rad == k * y and n.z == 0.,
            'uniform': _jac2(p, u1, u2) * s.pdf(p) * s.pdf(p) == 1.,
            'azimuth': x == rad * np.cos(u2 * sweep) and y == rad * np.sin(u2 * sweep)}

def _d(v, ro, h, rad, ri, pm, u1, u2, t):
    assert rad * rad - ri * ri > 0. and t * t < 1.        # implied
    s = _disk(v, ro, h, rad, ri, pm)
    p, n = s.sample(u1, u2)
    x, y, z = p.x - v.x, p.y - v.y, p.z - v.z
    m = x * x + y * y
    return {'on_surface': z == h, 'outer_radius': m <= rad * rad, 'inner_radius': m >= ri * ri, 'normal': n.x == 0. and n.y == 0. and n.z == (-1. if ro else 1.),
            'uniform': _jac2(p, u1, u2) * s.pdf(p) * s.pdf(p) == 1.}

def f_disk_right(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, u1: float, u2: float):
    assert 0. <= ri and ri < rad and 0. < pm and pm < 360. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 > 1. and u1 > u2
    return _d(v, ro, h, rad, ri, pm, u1, u2, 2. * u1 - 1.)

def f_disk_top(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, u1: float, u2: float):
    assert 0. <= ri and ri < rad and 0. < pm and pm < 360. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 > 1. and u1 < u2
    return _d(v, ro, h, rad, ri, pm, u1, u2, 2. * u2 - 1.)

def f_disk_left(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, u1: float, u2: float):
    assert 0. <= ri and ri < rad and 0. < pm and pm < 360. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 < 1. and u1 < u2
    return _d(v, ro, h, rad, ri, pm, u1, u2, 2. * u1 - 1.)

def f_disk_bottom(v: 'Vector', ro: bool, h: float, rad: float, ri: float, pm: float, u1: float, u2: float):
    assert 0. <= ri and ri < rad and 0. < pm and pm < 360. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    assert u1 + u2 < 1. and u1 > u2
    return _d(v, ro, h, rad, ri, pm, u1, u2, 2. * u2 - 1.)


def f_triangle(v: 'Vector', ro: bool, e: 'Vector', f: 'Vector', u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    t = _mesh(v, ro, e, f)
    p, n = t.sample(u1, u2)
    c = _cross(e, f)
    assert _dot(c, c) > 0.
    x = Vector(p.x - v.x, p.y - v.y, p.z - v.z)
    k = -1. if ro else 1.
    l = np.sqrt(_dot(c, c))
    return {'in_plane': _dot(x, c) == 0.,
            'normal': n.x * l == k * c.x and n.y * l == k * c.y and n.z * l == k * c.z,
            'uniform': _jac2(p, u1, u2) * 4. == _dot(c, c), 'area_density': t.pdf(p) * l == 2.}

def f_triangle_inside(v: 'Vector', ro: bool, a: float, b: float, c: float, u1: float, u2: float):
    assert a > 0. and c > 0. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    p, n = _mesh(v, ro, Vector(a, 0., 0.), Vector(b, c, 0.)).sample(u1, u2)
    x, y = p.x - v.x, p.y - v.y
    b2 = y / c
    b1 = (x - b2 * b) / a
    return {'b1': b1 >= 0., 'b2': b2 >= 0., 'b0': b1 + b2 <= 1.}

def _solid(s, q, w):
    hit, t, e, dg = s.intersect(Ray(q, w, EPS))
    f = s.pdf_p(q, w)
    if not hit:
        return f == 0.
    c = dg.nn.x * w.x + dg.nn.y * w.y + dg.nn.z * w.z
    return f * f * c * c * s.area() * s.area() == t * t * t * t

def f_disk_solid_angle(ro: bool, h: float, rad: float, ri: float, pm: float, x: float, y: float):
    assert 0. < ri and ri < rad and 0. < pm and pm < 360. and h > EPS
    return {'value': _solid(_disk(Vector(0., 0., 0.), ro, h, rad, ri, pm), Point(x, y, 0.), Vector(.6, 0., .8))}

def f_triangle_solid_angle(ro: bool, a: float, b: float, c: float, x: float, y: float):
    assert a > 0. and c > 0.
    return {'value': _solid(_mesh(Vector(0., 0., 0.), ro, Vector(a, 0., 0.), Vector(b, c, 0.)), Point(x, y, -1.), Vector(.6, 0., .8))}

def f_cylinder_solid_angle(ro: bool, z0: float, z1: float):
    assert z0 < 0. and 0. < z1
    s = _cylinder(Vector(0., 0., 0.), ro, 1., z0, z1, 180.)
    f = s.pdf_p(Point(2., 0., 0.), Vector(-1., 0., 0.))
    return {'value': f * s.area() == 1., 'miss': s.pdf_p(Point(2., 0., z1 + 1.), Vector(-1., 0., 0.)) == 0.}
'''
_S = {'slices': {'Sphere.intersect': (0, 1)}, 'opaque': ('DifferentialGeometry.__init__',)}
KW = {f: _S for f in ('f_sphere_cone', 'f_sphere_cone_sample', 'f_sphere_cone_axis', 'f_sphere_inside')}
KW['f_sphere_cone_grazing'] = {'replace': {'pytracer.shape.sphere.Sphere.intersect': '_never'}}


def check(ctx):
    ctx.rule('shape_sampling', 'sampling clause holds for every argument (exact normal forms, symbolic area element)')
    mod = ctx.spec(SPEC, 'p07')
    ctx.prove_spec('shape_sampling', mod, 'pytracer/shape', KW)
