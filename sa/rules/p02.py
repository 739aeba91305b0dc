"""Axis-aligned boxes."""
EXPLANATION = '''
Every operation of the axis-aligned box is summarised over symbolic corners and compared, for all corners and all rays at
once, with reference formulas written as specification functions over the same exact normal forms; containment obligations
are decided componentwise as sign atoms.
'''
LEVEL = 'other'

SPEC = '''
from pytracer.transform import Transform, AnimatedTransform
from pytracer.geometry import Vector, Point, Normal, Ray, RayDifferential, BBox

def _same(p, q):
    return p.x == q.x and p.y == q.y and p.z == q.z

def _ordered(b):
    return b.pMin.x <= b.pMax.x and b.pMin.y <= b.pMax.y and b.pMin.z <= b.pMax.z

def _has(b, p):
    return b.pMin.x <= p.x and p.x <= b.pMax.x and b.pMin.y <= p.y and p.y <= b.pMax.y and b.pMin.z <= p.z and p.z <= b.pMax.z

def f_init(p: 'Point', q: 'Point'):
    b = BBox(p, q)
    return {'first': _has(b, p), 'second': _has(b, q), 'ordered': _ordered(b),
            'tight': _same(b.pMin, Point(min(p.x, q.x), min(p.y, q.y), min(p.z, q.z))) and
                     _same(b.pMax, Point(max(p.x, q.x), max(p.y, q.y), max(p.z, q.z)))}

def f_init_fresh(p: 'Point', q: 'Point'):
    b = BBox(p, q)
    px, qx = p.x, q.x
    b.expand(1.)
    return p.x == px and q.x == qx

def f_empty(p: 'Point'):
    b = BBox()
    u = BBox.Union(b, p)
    c = BBox()
    c.union(p)
    return {'neutral': _same(u.pMin, p) and _same(u.pMax, p), 'neutral_inplace': _same(c.pMin, p) and _same(c.pMax, p),
            'contains_nothing': not b.inside(p)}

def f_Union_point(b: 'BBox', p: 'Point'):
    lx, ly, lz, hx, hy, hz = b.pMin.x, b.pMin.y, b.pMin.z, b.pMax.x, b.pMax.y, b.pMax.z
    u = BBox.Union(b, p)
    return {'point': _has(u, p), 'low': u.pMin.x <= lx and u.pMin.y <= ly and u.pMin.z <= lz,
            'high': u.pMax.x >= hx and u.pMax.y >= hy and u.pMax.z >= hz,
            'tight': _same(u.pMin, Point(min(lx, p.x), min(ly, p.y), min(lz, p.z))) and
                     _same(u.pMax, Point(max(hx, p.x), max(hy, p.y), max(hz, p.z))),
            'unmodified': b.pMin.x == lx and b.pMin.y == ly and b.pMin.z == lz and b.pMax.x == hx and b.pMax.y == hy and b.pMax.z == hz}

def f_Union_box(b: 'BBox', c: 'BBox'):
    lx, ly, lz, hx, hy, hz = b.pMin.x, b.pMin.y, b.pMin.z, b.pMax.x, b.pMax.y, b.pMax.z
    u = BBox.Union(b, c)
    return {'first': u.pMin.x <= lx and u.pMin.y <= ly and u.pMin.z <= lz and u.pMax.x >= hx and u.pMax.y >= hy and u.pMax.z >= hz,
            'second': u.pMin.x <= c.pMin.x and u.pMin.y <= c.pMin.y and u.pMin.z <= c.pMin.z and
                      u.pMax.x >= c.pMax.x and u.pMax.y >= c.pMax.y and u.pMax.z >= c.pMax.z,
            'tight': _same(u.pMin, Point(min(lx, c.pMin.x), min(ly, c.pMin.y), min(lz, c.pMin.z))) and
                     _same(u.pMax, Point(max(hx, c.pMax.x), max(hy, c.pMax.y), max(hz, c.pMax.z))),
            'unmodified': b.pMin.x == lx and b.pMin.y == ly and b.pMin.z == lz and b.pMax.x == hx and b.pMax.y == hy and b.pMax.z == hz}

def f_union_point(b: 'BBox', p: 'Point'):
    u = BBox.Union(b, p)
    r = b.union(p)
    return {'same_as_static': _same(u.pMin, b.pMin) and _same(u.pMax, b.pMax), 'returns_self': r is b}

def f_union_box(b: 'BBox', c: 'BBox'):
    u = BBox.Union(b, c)
    cx, cz = c.pMin.x, c.pMax.z
    r = b.union(c)
    return {'same_as_static': _same(u.pMin, b.pMin) and _same(u.pMax, b.pMax), 'returns_self': r is b,
            'other_unmodified': c.pMin.x == cx and c.pMax.z == cz}

def f_overlaps(b: 'BBox', c: 'BBox'):
    return {'def': b.overlaps(c) == (b.pMax.x >= c.pMin.x and b.pMin.x <= c.pMax.x and b.pMax.y >= c.pMin.y and
                                     b.pMin.y <= c.pMax.y and b.pMax.z >= c.pMin.z and b.pMin.z <= c.pMax.z),
            'symmetric': b.overlaps(c) == c.overlaps(b)}

def f_inside(b: 'BBox', p: 'Point'):
    return b.inside(p) == _has(b, p)

def f_expand(b: 'BBox', d: float):
    lo, hi = b.pMin.copy(), b.pMax.copy()
    r = b.expand(d)
    return {'low': _same(b.pMin, Point(lo.x - d, lo.y - d, lo.z - d)), 'high': _same(b.pMax, Point(hi.x + d, hi.y + d, hi.z + d)),
            'returns_self': r is b}

def f_measure(b: 'BBox'):
    dx, dy, dz = b.pMax.x - b.pMin.x, b.pMax.y - b.pMin.y, b.pMax.z - b.pMin.z
    return {'surface_area': b.surface_area() == 2. * (dx * dy + dy * dz + dz * dx), 'volume': b.volume() == dx * dy * dz}

def f_maximum_extent(b: 'BBox'):
    dx, dy, dz = b.pMax.x - b.pMin.x, b.pMax.y - b.pMin.y, b.pMax.z - b.pMin.z
    a = b.maximum_extent()
    e = dx if a == 0 else (dy if a == 1 else dz)
    return {'axis': a == 0 or a == 1 or a == 2, 'largest': e == max(dx, max(dy, dz))}

def f_lerp(b: 'BBox', x: float, y: float, z: float):
    p = b.lerp(x, y, z)
    assert b.pMax.x != b.pMin.x and b.pMax.y != b.pMin.y and b.pMax.z != b.pMin.z
    o = b.offset(p)
    return {'at0': _same(b.lerp(0., 0., 0.), b.pMin), 'at1': _same(b.lerp(1., 1., 1.), b.pMax),
            'linear': _same(p, Point(b.pMin.x + x * (b.pMax.x - b.pMin.x), b.pMin.y + y * (b.pMax.y - b.pMin.y), b.pMin.z + z * (b.pMax.z - b.pMin.z))),
            'offset_inverts': o.x == x and o.y == y and o.z == z}

def f_eq(b: 'BBox', c: 'BBox'):
    e = _same(b.pMin, c.pMin) and _same(b.pMax, c.pMax)
    return {'eq': (b == c) == e, 'ne': (b != c) == (not e), 'copy_eq': b == b}

def f_from_bbox(b: 'BBox'):
    assert _ordered(b)
    c = BBox.from_bbox(b)
    lo, hi = b.pMin.copy(), b.pMax.copy()
    same = _same(c.pMin, lo) and _same(c.pMax, hi)
    c.expand(1.)
    return {'equal': same, 'independent': _same(b.pMin, lo) and _same(b.pMax, hi)}

def f_index(b: 'BBox'):
    return {'low': _same(b[0], b.pMin), 'high': _same(b[1], b.pMax)}

def f_bounding_sphere(b: 'BBox'):
    assert _ordered(b)
    c, r = b.bounding_sphere()
    dx, dy, dz = (b.pMax.x - b.pMin.x) / 2., (b.pMax.y - b.pMin.y) / 2., (b.pMax.z - b.pMin.z) / 2.
    return {'centre': c.x - b.pMin.x == b.pMax.x - c.x and c.y - b.pMin.y == b.pMax.y - c.y and c.z - b.pMin.z == b.pMax.z - c.z,
            'radius_reaches_corner': r * r == dx * dx + dy * dy + dz * dz, 'radius_positive': r >= 0.}

def _slabs(r, s0: float, s1: float, s2: float, a0, b0, a1, b1, a2, b2):
    # corners written through the ray parameters at which the slab planes are crossed; s_i is the octant of the direction
    b = BBox()
    b.pMin = Point(r.o.x + r.d.x * (a0 if s0 > 0. else b0), r.o.y + r.d.y * (a1 if s1 > 0. else b1), r.o.z + r.d.z * (a2 if s2 > 0. else b2))
    b.pMax = Point(r.o.x + r.d.x * (b0 if s0 > 0. else a0), r.o.y + r.d.y * (b1 if s1 > 0. else a1), r.o.z + r.d.z * (b2 if s2 > 0. else a2))
    return b

def f_intersect_p(r: 'Ray', s0: float, s1: float, s2: float, a0: float, b0: float, a1: float, b1: float, a2: float, b2: float):
    assert r.d.x != 0. and r.d.y != 0. and r.d.z != 0. and r.mint <= r.maxt
    assert a0 <= b0 and a1 <= b1 and a2 <= b2
    b = _slabs(r, s0, s1, s2, a0, b0, a1, b1, a2, b2)
    hit, t0, t1 = b.intersect_p(r)
    near, far = max(r.mint, max(a0, max(a1, a2))), min(r.maxt, min(b0, min(b1, b2)))
    return {'no_false_reject': hit or near > far, 'no_false_accept': near <= far or not hit,
            'entry': (t0 <= near and near <= t0) or not hit, 'exit': (t1 <= far and far <= t1) or not hit}

def f_intersect_p_pure(b: 'BBox', r: 'Ray'):
    lo, hi, o, d = b.pMin.copy(), b.pMax.copy(), r.o.copy(), r.d.copy()
    m0, m1 = r.mint, r.maxt
    b.intersect_p(r)
    return {'box_unmodified': _same(b.pMin, lo) and _same(b.pMax, hi), 'ray_unmodified': _same(r.o, o) and _same(r.d, d) and r.mint == m0 and r.maxt == m1}

def f_transform_translate(b: 'BBox', d: 'Vector'):
    assert _ordered(b)
    r = Transform.translate(d)(b)
    return {'low': _same(r.pMin, Point(b.pMin.x + d.x, b.pMin.y + d.y, b.pMin.z + d.z)),
            'high': _same(r.pMax, Point(b.pMax.x + d.x, b.pMax.y + d.y, b.pMax.z + d.z))}

def f_transform_scale(b: 'BBox', p: float, q: float, s: float):
    assert _ordered(b)
    r = Transform.scale(np.exp(p), np.exp(q), np.exp(s))(b)
    return {'low': _same(r.pMin, Point(b.pMin.x * np.exp(p), b.pMin.y * np.exp(q), b.pMin.z * np.exp(s))),
            'high': _same(r.pMax, Point(b.pMax.x * np.exp(p), b.pMax.y * np.exp(q), b.pMax.z * np.exp(s)))}

def f_transform_corner(b: 'BBox', t: 'Transform', i: float, j: float, k: float):
    assert _ordered(b)
    m = t.m
    assert m[3, 0] == 0. and m[3, 1] == 0. and m[3, 2] == 0. and m[3, 3] == 1.
    r = t(b)
    c = Point(b.pMin.x if i > 0. else b.pMax.x, b.pMin.y if j > 0. else b.pMax.y, b.pMin.z if k > 0. else b.pMax.z)
    return _has(r, t(c))

def f_transform_pure(b: 'BBox', t: 'Transform'):
    lo, hi = b.pMin.copy(), b.pMax.copy()
    r = t(b)
    ok = _same(b.pMin, lo) and _same(b.pMax, hi)
    r.expand(1.)
    return {'argument_unmodified': ok, 'result_independent': _same(b.pMin, lo) and _same(b.pMax, hi)}
'''


def check(ctx):
    ctx.rule('box', 'box operation equals its reference for every pair of corners / every ray (exact normal forms)')
    mod = ctx.spec(SPEC, 'p02')
    for fn in mod.functions:
        if fn.startswith('f_'):
            ctx.prove('box', mod, fn, construct='BBox.' + fn[2:], loc='pytracer/geometry/__init__.py')
