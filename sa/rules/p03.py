"""Rays and differential geometry keep their parametrisation."""
EXPLANATION = '''
Ray construction, copying, evaluation and transformation and the surface differentials are summarised for symbolic origins,
directions, ranges and (affine) matrices; each clause compares the summary with a reference over the same exact normal
forms, including that arguments are unmodified and results own their storage.
'''
LEVEL = 'other'

SPEC = '''
from pytracer.transform import Transform, AnimatedTransform
from pytracer.geometry import Vector, Point, Normal, Ray, RayDifferential, BBox, DifferentialGeometry

def _same(p, q):
    return p.x == q.x and p.y == q.y and p.z == q.z

def _aff(t):
    m = t.m.copy()
    m[3, 0], m[3, 1], m[3, 2], m[3, 3] = 0., 0., 0., 1.
    return Transform(m, t.m_inv)

def _meta(a, b):
    return a.mint == b.mint and a.maxt == b.maxt and a.time == b.time and a.depth == b.depth

def f_ray(o: 'Point', d: 'Vector', mint: float, maxt: float, depth: int, time: float, t: float):
    r = Ray(o, d, mint, maxt, depth, time)
    p = r(t)
    res = {'fields': _same(r.o, o) and _same(r.d, d) and r.mint == mint and r.maxt == maxt and r.depth == depth and r.time == time,
           'point': _same(p, Point(o.x + t * d.x, o.y + t * d.y, o.z + t * d.z)), 'point_type': isinstance(p, Point)}
    ox, dx = o.x, d.x
    r.o.x = 7.
    r.d.x = 7.
    res['own_storage'] = o.x == ox and d.x == dx
    return res

def f_ray_default(o: 'Point', d: 'Vector'):
    r = Ray(o, d)
    return r.mint == 0. and r.maxt == np.inf and r.depth == 0 and r.time == 0.

def f_ray_default_fresh():
    r = Ray()
    r.o.x = 5.
    s = Ray()
    return s.o.x == 0.

def f_from_parent(o: 'Point', d: 'Vector', r: 'Ray', mint: float, maxt: float):
    s = Ray.from_parent(o, d, r, mint, maxt)
    return {'depth': s.depth == r.depth + 1, 'time': s.time == r.time, 'range': s.mint == mint and s.maxt == maxt,
            'line': _same(s.o, o) and _same(s.d, d)}

def f_rd_from_parent(o: 'Point', d: 'Vector', r: 'RayDifferential', mint: float, maxt: float):
    s = RayDifferential.from_parent(o, d, r, mint, maxt)
    return {'depth': s.depth == r.depth + 1, 'time': s.time == r.time, 'range': s.mint == mint and s.maxt == maxt,
            'line': _same(s.o, o) and _same(s.d, d), 'no_differentials': not s.has_differentials}

def f_from_ray(r: 'Ray'):
    s = Ray.from_ray(r)
    res = {'meta': _meta(s, r), 'line': _same(s.o, r.o) and _same(s.d, r.d)}
    ox, m = r.o.x, r.maxt
    s.o.x = 9.
    s.d.x = 9.
    s.maxt = 1.
    res['independent'] = r.o.x == ox and r.maxt == m
    return res

def f_rd_from_ray(r: 'Ray'):
    s = RayDifferential.from_ray(r)
    return {'meta': _meta(s, r), 'line': _same(s.o, r.o) and _same(s.d, r.d), 'no_differentials': not s.has_differentials}

def f_from_rd(r: 'RayDifferential'):
    s = RayDifferential.from_rd(r)
    res = {'meta': _meta(s, r), 'line': _same(s.o, r.o) and _same(s.d, r.d), 'flag': s.has_differentials == r.has_differentials,
           'rx': _same(s.rxOrigin, r.rxOrigin) and _same(s.rxDirection, r.rxDirection),
           'ry': _same(s.ryOrigin, r.ryOrigin) and _same(s.ryDirection, r.ryDirection)}
    a, b, c, d = r.rxOrigin.x, r.ryOrigin.x, r.rxDirection.x, r.ryDirection.x
    s.rxOrigin.x = 9.
    s.ryOrigin.x = 9.
    s.rxDirection.x = 9.
    s.ryDirection.x = 9.
    res['independent'] = r.rxOrigin.x == a and r.ryOrigin.x == b and r.rxDirection.x == c and r.ryDirection.x == d
    return res

def f_scale_differential(r: 'RayDifferential', s: float):
    o, d = r.o.copy(), r.d.copy()
    a, b, c, e = r.rxOrigin.copy(), r.ryOrigin.copy(), r.rxDirection.copy(), r.ryDirection.copy()
    r.scale_differential(s)
    return {'rxOrigin': _same(r.rxOrigin, Point(o.x + s * (a.x - o.x), o.y + s * (a.y - o.y), o.z + s * (a.z - o.z))),
            'ryOrigin': _same(r.ryOrigin, Point(o.x + s * (b.x - o.x), o.y + s * (b.y - o.y), o.z + s * (b.z - o.z))),
            'rxDirection': _same(r.rxDirection, Vector(d.x + s * (c.x - d.x), d.y + s * (c.y - d.y), d.z + s * (c.z - d.z))),
            'ryDirection': _same(r.ryDirection, Vector(d.x + s * (e.x - d.x), d.y + s * (e.y - d.y), d.z + s * (e.z - d.z))),
            'main_unmodified': _same(r.o, o) and _same(r.d, d)}

def f_transform_ray(t: 'Transform', r: 'Ray', k: float):
    t = _aff(t)
    o, d, mint, maxt = r.o.copy(), r.d.copy(), r.mint, r.maxt
    s = t(r)
    return {'meta': _meta(s, r), 'same_parameter': _same(s(k), t(r(k))), 'argument_unmodified': _same(o, r.o) and _same(d, r.d) and mint == r.mint and maxt == r.maxt}

def f_transform_rd(t: 'Transform', r: 'RayDifferential', k: float):
    t = _aff(t)
    o, d, x = r.o.copy(), r.d.copy(), r.rxOrigin.copy()
    s = t(r)
    return {'meta': _meta(s, r), 'kind': isinstance(s, RayDifferential), 'flag': s.has_differentials == r.has_differentials, 'same_parameter': _same(s(k), t(r(k))),
            'rx': _same(s.rxOrigin, t(r.rxOrigin)) and _same(s.rxDirection, t(r.rxDirection)),
            'ry': _same(s.ryOrigin, t(r.ryOrigin)) and _same(s.ryDirection, t(r.ryDirection)),
            'argument_unmodified': _same(o, r.o) and _same(d, r.d) and _same(x, r.rxOrigin)}

def f_animated_static_ray(a: 'Transform', r: 'Ray', t0: float, t1: float, k: float):
    a = _aff(a)
    at = AnimatedTransform(a, t0, a, t1)
    s = at(r)
    return {'meta': _meta(s, r), 'same_parameter': _same(s(k), a(r(k)))}

def f_animated_ends_ray(va: 'Vector', vb: 'Vector', r: 'Ray', t0: float, t1: float, k: float):
    a, b = Transform.translate(va), Transform.translate(vb)
    assert t0 < t1
    assert r.time < t0 or r.time > t1
    at = AnimatedTransform(a, t0, b, t1)
    s = at(r)
    e = a(r(k)) if r.time < t0 else b(r(k))
    return {'meta': _meta(s, r), 'clamped': _same(s(k), e)}

def _cross(a, b):
    return Vector(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)

def f_dg(p: 'Point', du: 'Vector', dv: 'Vector', nu: 'Normal', nv: 'Normal', u: float, v: float, sh: 'pytracer.shape.Shape'):
    n = _cross(du, dv)
    assert n.x * n.x + n.y * n.y + n.z * n.z != 0.
    dg = DifferentialGeometry(p, du, dv, nu, nv, u, v, sh)
    e = _cross(dg.nn, n)
    k = dg.nn.x * n.x + dg.nn.y * n.y + dg.nn.z * n.z
    flip = sh.ro != sh.transform_swaps_handedness
    res = {'fields': _same(dg.p, p) and _same(dg.dpdu, du) and _same(dg.dpdv, dv) and _same(dg.dndu, nu) and _same(dg.dndv, nv) and dg.u == u and dg.v == v,
           'normal_parallel': e.x == 0. and e.y == 0. and e.z == 0.,
           'normal_unit': dg.nn.x * dg.nn.x + dg.nn.y * dg.nn.y + dg.nn.z * dg.nn.z == 1.,
           'flipped_iff_reversed': (k < 0.) == flip, 'normal_kind': isinstance(dg.nn, Normal)}
    a, b, c = p.x, du.x, nu.x
    dg.p.x = 9.
    dg.dpdu.x = 9.
    dg.dndu.x = 9.
    res['own_storage'] = p.x == a and du.x == b and nu.x == c
    return res

def f_dg_noshape(p: 'Point', du: 'Vector', dv: 'Vector', nu: 'Normal', nv: 'Normal', u: float, v: float):
    dg = DifferentialGeometry(p, du, dv, nu, nv, u, v, None)
    n = _cross(du, dv)
    return dg.nn.x * n.x + dg.nn.y * n.y + dg.nn.z * n.z >= 0.

def f_dg_copy(d: 'DifferentialGeometry'):
    c = d.copy()
    return {'position': _same(c.p, d.p) and c.u == d.u and c.v == d.v, 'derivatives': _same(c.dpdu, d.dpdu) and _same(c.dpdv, d.dpdv) and _same(c.dndu, d.dndu) and _same(c.dndv, d.dndv),
            'normal': _same(c.nn, d.nn), 'shape': c.shape is d.shape,
            'differentials': c.dudx == d.dudx and c.dvdx == d.dvdx and c.dudy == d.dudy and c.dvdy == d.dvdy and _same(c.dpdx, d.dpdx) and _same(c.dpdy, d.dpdy)}

def f_differential_none(d: 'DifferentialGeometry', r: 'RayDifferential'):
    assert not r.has_differentials
    d.compute_differential(r)
    return d.dudx == 0. and d.dvdx == 0. and d.dudy == 0. and d.dvdy == 0. and _same(d.dpdx, Vector(0., 0., 0.)) and _same(d.dpdy, Vector(0., 0., 0.))

def f_differential_plane(d: 'DifferentialGeometry', r: 'RayDifferential'):
    assert r.has_differentials
    n = d.nn.copy()
    assert n.x * r.rxDirection.x + n.y * r.rxDirection.y + n.z * r.rxDirection.z != 0.
    assert n.x * r.ryDirection.x + n.y * r.ryDirection.y + n.z * r.ryDirection.z != 0.
    d.compute_differential(r)
    ex = _cross(d.p + d.dpdx - r.rxOrigin, r.rxDirection)
    ey = _cross(d.p + d.dpdy - r.ryOrigin, r.ryDirection)
    return {'dpdx_in_tangent_plane': n.x * d.dpdx.x + n.y * d.dpdx.y + n.z * d.dpdx.z == 0.,
            'dpdy_in_tangent_plane': n.x * d.dpdy.x + n.y * d.dpdy.y + n.z * d.dpdy.z == 0.,
            'dpdx_on_offset_ray': ex.x == 0. and ex.y == 0. and ex.z == 0., 'dpdy_on_offset_ray': ey.x == 0. and ey.y == 0. and ey.z == 0.}

def _axis(p, r, u, v):
    assert r.has_differentials
    d = DifferentialGeometry(p, u, v, Normal(0., 0., 0.), Normal(0., 0., 0.), 0., 0., None)
    n = d.nn
    assert n.x * r.rxDirection.x + n.y * r.rxDirection.y + n.z * r.rxDirection.z != 0.
    assert n.x * r.ryDirection.x + n.y * r.ryDirection.y + n.z * r.ryDirection.z != 0.
    d.compute_differential(r)
    return {'x_change': _same(d.dpdx, Vector(d.dudx * u.x + d.dvdx * v.x, d.dudx * u.y + d.dvdx * v.y, d.dudx * u.z + d.dvdx * v.z)),
            'y_change': _same(d.dpdy, Vector(d.dudy * u.x + d.dvdy * v.x, d.dudy * u.y + d.dvdy * v.y, d.dudy * u.z + d.dvdy * v.z))}

def f_differential_normal_xp(p: 'Point', r: 'RayDifferential'):
    return _axis(p, r, Vector(0., 2., 0.), Vector(0., 0., 3.))

def f_differential_normal_xn(p: 'Point', r: 'RayDifferential'):
    return _axis(p, r, Vector(0., 0., 2.), Vector(0., 3., 0.))

def f_differential_normal_yp(p: 'Point', r: 'RayDifferential'):
    return _axis(p, r, Vector(0., 0., 2.), Vector(3., 0., 0.))

def f_differential_normal_yn(p: 'Point', r: 'RayDifferential'):
    return _axis(p, r, Vector(2., 0., 0.), Vector(0., 0., 3.))

def f_differential_normal_zp(p: 'Point', r: 'RayDifferential'):
    return _axis(p, r, Vector(2., 0., 0.), Vector(0., 3., 0.))

def f_differential_normal_zn(p: 'Point', r: 'RayDifferential'):
    return _axis(p, r, Vector(0., 2., 0.), Vector(3., 0., 0.))
'''


KW = {'f_animated_ends_ray': {'opaque': ('AnimatedTransform.decompose', 'AnimatedTransform.interpolate')}}


def check(ctx):
    ctx.rule('ray', 'ray / differential clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p03')
    ctx.prove_spec('ray', mod, 'pytracer/geometry', KW)
