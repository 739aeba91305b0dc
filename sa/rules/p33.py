"""Triangle meshes: creation, refinement, bounds and interpolated shading geometry."""
EXPLANATION = '''
create_triangle_mesh is specified for symbolic positions in both forms, with every optional item present, absent and of the wrong size. The triangles a mesh refines to,
its bounds and the fields handed on are compared with the input. The shading geometry of a triangle in a mesh with shared vertices is compared with barycentric
interpolation of its normals and tangents at a symbolic parameter point, with separate instance and mesh transforms.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.geometry as geo
from pytracer.geometry import Point, Vector, Normal, DifferentialGeometry
from pytracer.transform import Transform
from pytracer.shape.triangle import Triangle, TriangleMesh, create_triangle_mesh

class Tex:
    pass

def _refused(f):
    try:
        f()
    except Exception:
        return True
    return False

def _is(p, x, y, z):
    return p.x == x and p.y == y and p.z == z

I = [0, 1, 2, 3, 2, 1]

def f_flat(o: Transform, w: Transform, ro: bool, a: float, b: float, c: float, d: float):
    P = [a, 1., 2., 3., b, 5., c, 7., 8., 9., 10., d]
    m = create_triangle_mesh(o, w, ro, {'indices': I, 'P': P})
    p, q, r, s = o(Point(a, 1., 2.)), o(Point(3., b, 5.)), o(Point(c, 7., 8.)), o(Point(9., 10., d))
    t = m.refine()
    return {'counts': m.ntris == 2 and m.nverts == 4 and len(m.p) == 4, 'context': m.o2w is o and m.w2o is w and m.ro == ro,
            'positions': m.p[0] == p and m.p[1] == q and m.p[2] == r and m.p[3] == s,
            'nothing else': m.uvs is None and m.n is None and m.s is None and m.alphaTexture is None,
            'refined first': not m.can_intersect(), 'triangles': len(t) == 2 and t[0].can_intersect() and t[1].can_intersect(),
            'corners': t[0][0] == p and t[0][1] == q and t[0][2] == r and t[1][0] == s and t[1][1] == r and t[1][2] == q,
            'triangle context': t[0].o2w is o and t[1].w2o is w and t[0].ro == ro and t[1].ro == ro and t[0].mesh is m and t[1].mesh is m}

def f_points(o: Transform, w: Transform, ro: bool, a: Point, b: Point, c: Point, d: Point, l: Normal, k: Vector, u: float):
    N, S, uv = [l, Normal(1., 0., 0.), Normal(0., 1., 0.), Normal(0., 0., 1.)], [k, Vector(1., 0., 0.), Vector(0., 1., 0.), Vector(0., 0., 1.)], [u, 0., 1., 0., 0., 1., 1., 1.]
    m = create_triangle_mesh(o, w, ro, {'indices': I, 'P': [a, b, c, d], 'N': N, 'S': S, 'uv': uv})
    n = create_triangle_mesh(o, w, ro, {'indices': I, 'P': [a, b, c, d], 'st': uv})
    g, h = m.refine(), n.refine()
    x, y = g[0].get_uvs(), g[1].get_uvs()
    z = h[1].get_uvs()
    e = create_triangle_mesh(o, w, ro, {'indices': I, 'P': [a, b, c, d]}).refine()[1].get_uvs()
    return {'positions': m.p[0] == o(a) and m.p[3] == o(d), 'normals': m.n[0] == l and len(m.n) == 4 and m.n[3] == Normal(0., 0., 1.), 'tangents': m.s[0] == k and len(m.s) == 4 and m.s[2] == Vector(0., 1., 0.),
            'uv': x[0][0] == u and x[0][1] == 0. and x[1][0] == 1. and x[1][1] == 0. and x[2][0] == 0. and x[2][1] == 1. and y[0][0] == 1. and y[0][1] == 1. and y[1][0] == 0. and y[1][1] == 1. and y[2][0] == 1. and y[2][1] == 0.,
            'st': z[0][0] == 1. and z[1][0] == 0. and z[2][0] == 1. and z[2][1] == 0.,
            'default uv': e[0][0] == 0. and e[0][1] == 0. and e[1][0] == 1. and e[1][1] == 0. and e[2][0] == 1. and e[2][1] == 1.}

def f_missing(o: Transform, a: Point, b: Point, c: Point):
    return {'no positions': create_triangle_mesh(o, o, False, {'indices': [0, 1, 2]}) is None, 'no indices': create_triangle_mesh(o, o, False, {'P': [a, b, c]}) is None}

def f_refused(o: Transform, a: Point, b: Point, c: Point):
    P = [a, b, c]
    def at(d):
        return _refused(lambda: create_triangle_mesh(o, o, False, d, {}))
    return {'indices': at({'indices': [0, 1], 'P': P}), 'coordinates': at({'indices': [0, 1, 2], 'P': [0., 1., 2., 3., 4.]}), 'few uv': at({'indices': [0, 1, 2], 'P': P, 'uv': [0., 0., 1., 0., 1.]}),
            'normals': at({'indices': [0, 1, 2], 'P': P, 'N': [Normal(1., 0., 0.)]}), 'tangents': at({'indices': [0, 1, 2], 'P': P, 'S': [Vector(1., 0., 0.)]}),
            'out of bounds': at({'indices': [0, 1, 3], 'P': P}), 'unknown alpha': at({'indices': [0, 1, 2], 'P': P, 'alphatex': 'x'})}

def f_alpha(o: Transform, a: Point, b: Point, c: Point):
    t, s = Tex(), Tex()
    m = create_triangle_mesh(o, o, False, {'indices': [0, 1, 2], 'P': [a, b, c], 'alphatex': 'y'}, {'x': s, 'y': t})
    return {'texture': m.alphaTexture is t}

def f_discard(h: float, u: float, v: float):
    assert h > 1. and u > 0. and u < 1. and v > 0. and v < 1.
    P = [Point(0., 0., 0.), Point(1., 0., 0.), Point(0., h, 0.), Point(1., 1., 0.)]
    N = [Normal(0., 0., 1.), Normal(0., 0., 1.), Normal(0., 0., 1.), Normal(0., 0., 1.)]
    o = Transform()
    good = create_triangle_mesh(o, o, False, {'indices': I, 'P': P, 'N': N, 'uv': [0., 0., 1., 0., u, v, 1., 1.], 'discard': True})
    twin = create_triangle_mesh(o, o, False, {'indices': I, 'P': P, 'N': N, 'uv': [0., 0., 1., 0., u, v, u, v], 'discard': True})
    kept = create_triangle_mesh(o, o, False, {'indices': I, 'P': P, 'N': N, 'uv': [0., 0., 1., 0., u, v, u, v]})
    flat = create_triangle_mesh(o, o, False, {'indices': [0, 1, 2, 1, 3, 3], 'P': P, 'N': N, 'uv': [0., 0., 1., 0., u, v, 1., 1.], 'discard': True})
    return {'good': good.uvs is not None, 'degenerate': twin.uvs is None, 'not asked': kept.uvs is not None, 'degenerate face': flat.uvs is not None}

def f_degenerate(u: float, v: float, w: float):
    assert u > 0. and v > 0. and w > 0.
    P = [Point(0., 0., 0.), Point(1., 0., 0.), Point(0., 1., 0.)]
    N = [Normal(0., 0., 1.), Normal(0., 0., 1.), Normal(0., 0., 1.)]
    o = Transform()
    def uvs(uv):
        return create_triangle_mesh(o, o, False, {'indices': [2, 0, 1], 'P': P, 'N': N, 'uv': uv, 'discard': True}).uvs
    return {'first edge': (uvs([u, v, 0., -1., w, v]) is None) == (w == u), 'second edge': (uvs([u, v, u, w, 0., -1.]) is None) == (w == v), 'third edge': (uvs([0., -1., w, v, u, v]) is None) == (w == u),
            'kept': uvs([u, v, u, v + w, u + w, v]) is not None and uvs([u, u, u + w, u, u, u + w]) is not None}

def f_bounds_of(d: float, a: float, b: float, c: float):
    o, w = Transform.translate(Vector(d, -2., 3.)), Transform.translate(Vector(-d, 2., -3.))
    t = create_triangle_mesh(o, w, False, {'indices': [0, 3, 1, 2, 0, 1], 'P': [a, 5., 1., b, 4., 2., c, 6., 0., 100., 100., 100.]}).refine()[1]
    x, y = t.object_bound(), t.world_bound()
    lo, hi = min(a, min(b, c)), max(a, max(b, c))
    return {'object': _is(x.pMin, lo, 4., 0.) and _is(x.pMax, hi, 6., 2.), 'world': _is(y.pMin, d + lo, 2., 3.) and _is(y.pMax, d + hi, 4., 5.)}

def f_bounds(d: float, a: float, b: float, c: float):
    o, w = Transform.translate(Vector(d, -2., 3.)), Transform.translate(Vector(-d, 2., -3.))
    m = create_triangle_mesh(o, w, False, {'indices': [0, 1, 2], 'P': [a, 5., 1., b, 4., 2., c, 6., 0.]})
    x, y = m.object_bound(), m.world_bound()
    lo, hi = min(a, min(b, c)), max(a, max(b, c))
    return {'object': _is(x.pMin, lo, 4., 0.) and _is(x.pMax, hi, 6., 2.), 'world': _is(y.pMin, d + lo, 2., 3.) and _is(y.pMax, d + hi, 4., 5.)}

def f_bounds_y(a: float, b: float, c: float):
    m = create_triangle_mesh(Transform(), Transform(), False, {'indices': [0, 1, 2], 'P': [1., a, 0., 0., b, 1., 2., c, 3.]})
    x, y = m.object_bound(), m.world_bound()
    lo, hi = min(a, min(b, c)), max(a, max(b, c))
    return {'object': _is(x.pMin, 0., lo, 0.) and _is(x.pMax, 2., hi, 3.), 'world': _is(y.pMin, 0., lo, 0.) and _is(y.pMax, 2., hi, 3.)}

def f_bounds_z(a: float, b: float, c: float):
    m = create_triangle_mesh(Transform(), Transform(), False, {'indices': [0, 1, 2], 'P': [1., 0., a, 0., 1., b, 2., 3., c]})
    x, y = m.object_bound(), m.world_bound()
    lo, hi = min(a, min(b, c)), max(a, max(b, c))
    return {'object': _is(x.pMin, 0., 0., lo) and _is(x.pMax, 2., 3., hi), 'world': _is(y.pMin, 0., 0., lo) and _is(y.pMax, 2., 3., hi)}

def _mesh(N, S, uv):
    return TriangleMesh(Transform.scale(2., 4., 8.), Transform.scale(.5, .25, .125), False, 2, 4, [2, 0, 3, 3, 2, 1], [Point(0., 0., 0.), Point(1., 0., 0.), Point(0., 1., 0.), Point(1., 1., 1.)], N, S, uv)

UV = [0., 0., 1., 0., 0., 2., 3., 1.]

def _dg(u, v, t):
    g = DifferentialGeometry(Point(1., 2., 3.), Vector(1., 0., 0.), Vector(0., 1., 0.), Normal(0., 0., 0.), Normal(0., 0., 0.), u, v, t)
    g.dudx, g.dvdx, g.dudy, g.dvdy = 5., 6., 7., 8.
    g.dpdx, g.dpdy = Vector(1., 2., 4.), Vector(2., 3., 5.)
    return g

def _bary(u, v):
    # corners 3, 2, 1: (3, 1), (0, 2), (1, 0)
    d = (0. - 3.) * (0. - 1.) - (1. - 3.) * (2. - 1.)
    b1 = ((u - 3.) * (0. - 1.) - (1. - 3.) * (v - 1.)) / d
    b2 = ((0. - 3.) * (v - 1.) - (u - 3.) * (2. - 1.)) / d
    return 1. - b1 - b2, b1, b2

def _kept(g, d, t):
    return g.p == d.p and g.u == d.u and g.v == d.v and g.shape is t and g.dudx == 5. and g.dvdx == 6. and g.dudy == 7. and g.dvdy == 8. and g.dpdx == d.dpdx and g.dpdy == d.dpdy

def _parallel(a, b):
    return a.y * b.z == a.z * b.y and a.z * b.x == a.x * b.z and a.x * b.y == a.y * b.x

def f_plain(u: float, v: float):
    t = Triangle(Transform(), Transform(), False, _mesh(None, None, UV), 1)
    d = _dg(u, v, t)
    g = t.get_shading_geometry(Transform(), d)
    return {'geometry': g.p == d.p and g.u == u and g.v == v and g.nn == d.nn and g.dpdu == d.dpdu and g.dpdv == d.dpdv and g.dndu == d.dndu and g.dndv == d.dndv and g.shape is t}

def _shaded(u, v, a, b, c):
    N = [Normal(5., 5., 5.), Normal(0., 0., a), Normal(0., b, 1.), Normal(c, 0., 1.)]
    t = Triangle(Transform(), Transform(), False, _mesh(N, None, UV), 1)
    d = _dg(u, v, t)
    x, y, z = _bary(u, v)
    # normals of the instance scale with the inverse of the transform
    return t, d, t.get_shading_geometry(Transform.scale(.5, 1., 2.), d), Vector(2. * x * c, y * b, .5 * (x + y + z * a))

def _agrees(t, d, g, n):
    w = g.dpdu.cross(g.dpdv)
    return {'kept': _kept(g, d, t), 'direction': _parallel(w, n), 'side': w.z * np.sqrt(n.dot(n)) == n.z, 'dpdu across': g.dpdu.dot(n) == 0., 'dpdv across': g.dpdv.dot(n) == 0., 'perpendicular': g.dpdu.dot(g.dpdv) == 0., 'bitangent': g.dpdv.x == 0.}

def f_normals_at(u: float, v: float):
    assert u > .5 and u < 1. and v > .75 and v < 1.25
    t, d, g, n = _shaded(u, v, 1., 3., 2.)
    return _agrees(t, d, g, n)

def f_normals_of(a: float):
    assert a > 1. and a < 8.
    t, d, g, n = _shaded(.5, .75, a, 3., 2.)
    return _agrees(t, d, g, n)

def f_normals_on(b: float):
    assert b > 1. and b < 8.
    t, d, g, n = _shaded(.5, .75, 1., b, 2.)
    return _agrees(t, d, g, n)

def f_normals_to(c: float):
    assert c > 1. and c < 8.
    t, d, g, n = _shaded(.5, .75, 1., 3., c)
    return _agrees(t, d, g, n)

def f_change(u: float, v: float, a: float, b: float, c: float):
    assert u > .5 and u < 1. and v > .75 and v < 1.25 and a > 1. and a < 2. and b > 1. and b < 2. and c > 1. and c < 2.
    N = [Normal(5., 5., 5.), Normal(0., 0., a), Normal(0., b, 1.), Normal(c, 0., 1.)]
    t = Triangle(Transform(), Transform(), False, _mesh(N, None, UV), 1)
    g = t.get_shading_geometry(Transform(), _dg(u, v, t))
    # n = x N3 + y N2 + z N1 is linear in (u, v); its derivatives as finite differences, in the space of the mesh
    x, y, z = _bary(u, v)
    p, q, r = _bary(u + 1., v)
    k, l, m = _bary(u, v + 1.)
    return {'dndu': _is(g.dndu, (p - x) * c / 2., (q - y) * b / 4., ((p - x) + (q - y) + (r - z) * a) / 8.),
            'dndv': _is(g.dndv, (k - x) * c / 2., (l - y) * b / 4., ((k - x) + (l - y) + (m - z) * a) / 8.)}

def _tangents(u, v, a, b):
    S = [Vector(5., 5., 5.), Vector(1., 1., 0.), Vector(0., b, 0.), Vector(a, 0., 0.)]
    t = Triangle(Transform(), Transform(), False, _mesh(None, S, UV), 1)
    d = _dg(u, v, t)
    g = t.get_shading_geometry(Transform.scale(.5, 1., 2.), d)
    x, y, z = _bary(u, v)
    s = Vector(.5 * (x * a + z), y * b + z, 0.)
    w = g.dpdu.cross(g.dpdv)
    return {'kept': _kept(g, d, t), 'normal': w.x == 0. and w.y == 0. and w.z > 0., 'along': _parallel(g.dpdu, s), 'flat': _is(g.dndu, 0., 0., 0.) and _is(g.dndv, 0., 0., 0.)}

def f_tangents_at(u: float, v: float):
    assert u > .5 and u < 1. and v > .75 and v < 1.25
    return _tangents(u, v, 2., 3.)

def f_tangents_of(a: float):
    assert a > 1. and a < 8.
    return _tangents(.5, .75, a, 3.)

def f_tangents_on(b: float):
    assert b > 1. and b < 8.
    return _tangents(.5, .75, 2., b)

def f_collapsed(u: float, v: float, a: float):
    assert a > 1. and a < 2.
    # uvs on one line: the centre of the triangle
    N = [Normal(5., 5., 5.), Normal(0., 0., a), Normal(0., 2., 1.), Normal(3., 0., 1.)]
    t = Triangle(Transform(), Transform(), False, _mesh(N, None, [0., 0., 1., 1., 2., 2., 3., 3.]), 1)
    d = _dg(u, v, t)
    g = t.get_shading_geometry(Transform(), d)
    n = Vector(3., 2., 2. + a)
    w = g.dpdu.cross(g.dpdv)
    return {'kept': _kept(g, d, t), 'direction': _parallel(w, n), 'side': w.z * np.sqrt(n.dot(n)) == n.z, 'change': _is(g.dndu, 0., 0., 0.) and _is(g.dndv, 0., 0., 0.)}

def f_parallel_tangent(u: float, v: float, a: float):
    assert a > 1. and a < 2.
    # the normal lies along dpdu
    N = [Normal(5., 5., 5.), Normal(a, 0., 0.), Normal(a, 0., 0.), Normal(a, 0., 0.)]
    t = Triangle(Transform(), Transform(), False, _mesh(N, None, UV), 1)
    d = _dg(u, v, t)
    g = t.get_shading_geometry(Transform(), d)
    w = g.dpdu.cross(g.dpdv)
    return {'kept': _kept(g, d, t), 'normal': w.x > 0. and w.y == 0. and w.z == 0., 'perpendicular': g.dpdu.dot(g.dpdv) == 0.}

def f_opposite_tangent(u: float, v: float, a: float):
    assert a > 1. and a < 2.
    # the normal lies against dpdu
    N = [Normal(5., 5., 5.), Normal(-a, 0., 0.), Normal(-a, 0., 0.), Normal(-a, 0., 0.)]
    t = Triangle(Transform(), Transform(), False, _mesh(N, None, UV), 1)
    d = _dg(u, v, t)
    g = t.get_shading_geometry(Transform(), d)
    w = g.dpdu.cross(g.dpdv)
    return {'kept': _kept(g, d, t), 'normal': w.x < 0. and w.y == 0. and w.z == 0., 'perpendicular': g.dpdu.dot(g.dpdv) == 0.}
'''


def KW(n):
    return {'try_total': True}


def check(ctx):
    ctx.rule('mesh', 'triangle meshes hold and shade what they are given')
    ctx.prove_spec('mesh', ctx.spec(SPEC, 'p33'), 'pytracer', KW)
