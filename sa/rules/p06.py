"""Primitives and aggregates: nearest hit, any hit, bounds."""
EXPLANATION = '''
Primitives and acceleration structures are summarised over stand-in primitives of which only the contract is known (a symbolic hit distance, a
symbolic box). Nearest-hit and any-hit answers are compared with testing every primitive; tree construction with "every primitive is in exactly one
leaf and inside every box above it"; the tree walk and the grid walk with "everything whose boxes / voxels the ray passes is tested".
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import Spectrum, EPS
from pytracer.geometry import Vector, Point, Normal, Ray, RayDifferential, BBox, DifferentialGeometry
from pytracer.transform import Transform, AnimatedTransform
from pytracer.aggregate.primitive import Primitive, GeometricPrimitive, TransformedPrimitive
from pytracer.aggregate.intersection import Intersection
from pytracer.aggregate.aggregate import SimpleAggregate, GridAccel, Voxel
from pytracer.aggregate.accelerator.bvh import BVH
from pytracer.scene.scene import Scene

class Hit:
    """a primitive of which only the contract is known: hit at parameter t if there is a surface"""
    def __init__(self, t, there=True, box=None):
        self.t, self.there, self.box, self.asked = t, there, box, False

    def world_bound(self):
        return self.box

    def can_intersect(self):
        return True

    def full_refine(self, out):
        out.append(self)

    def intersect(self, ray, isect):
        self.asked = True
        if not self.there or not (ray.mint < self.t and self.t < ray.maxt):
            return False
        ray.maxt = self.t
        isect.primitive = self
        isect.rEps = self.t + 1.
        isect.dg, isect.w2o, isect.o2w, isect.shapeId, isect.primitiveId = [self, 0], [self, 1], [self, 2], [self, 3], [self, 4]
        return True

    def intersect_p(self, ray):
        self.asked = True
        return self.there and ray.mint < self.t and self.t < ray.maxt

def _ray(m0, m1):
    return Ray(Point(0., 0., 0.), Vector(0., 0., 1.), m0, m1)

def _in(p, r0, r1):
    return p.there and r0 < p.t and p.t < r1

def _nearest(ps, r0, r1):
    best = r1
    for p in ps:
        if p.there and r0 < p.t and p.t < best:
            best = p.t
    return best

def _fields(isect, ps):
    # all fields belong to the same primitive
    ok = True
    for p in ps:
        if isect.primitive is p:
            ok = ok and isect.dg[0] is p and isect.w2o[0] is p and isect.o2w[0] is p and isect.shapeId[0] is p and isect.primitiveId[0] is p
            ok = ok and isect.rEps == p.t + 1.
            ok = ok and isect.dg[1] == 0 and isect.w2o[1] == 1 and isect.o2w[1] == 2 and isect.shapeId[1] == 3 and isect.primitiveId[1] == 4
    return ok

def _answer(hit, ray, isect, ps, r0, r1):
    best = _nearest(ps, r0, r1)
    any_ = False
    for p in ps:
        any_ = any_ or _in(p, r0, r1)
    at = True
    for p in ps:
        if isect.primitive is p:
            at = p.t == best
    return {'hit': hit == any_, 'maxt': ray.maxt == best, 'nearest': (not any_) or (isect.primitive is not None and at),
            'fields': (not any_) or _fields(isect, ps), 'untouched': any_ or isect.primitive is None}

class Flat(SimpleAggregate):
    def __init__(self, ps):
        self.primitives, self.bounds = ps, Slab()

class Slab:
    """a box known to be hit"""
    def intersect_p(self, ray):
        return [True, ray.mint, ray.maxt]

class Miss:
    def intersect_p(self, ray):
        return [False, 0., 0.]

def f_simple_intersect(t1: float, t2: float, t3: float, a: bool, b: bool, c: bool, m0: float, m1: float):
    assert m0 < m1
    ps = [Hit(t1, a), Hit(t2, b), Hit(t3, c)]
    i, r = Intersection(), _ray(m0, m1)
    return _answer(Flat(ps).intersect(r, i), r, i, ps, m0, m1)

def f_simple_intersect_p(t1: float, t2: float, t3: float, a: bool, b: bool, c: bool, m0: float, m1: float):
    assert m0 < m1
    ps = [Hit(t1, a), Hit(t2, b), Hit(t3, c)]
    r = _ray(m0, m1)
    return {'any': Flat(ps).intersect_p(r) == (_in(ps[0], m0, m1) or _in(ps[1], m0, m1) or _in(ps[2], m0, m1)), 'range': r.mint == m0 and r.maxt == m1}

def f_simple_outside(t1: float, m0: float, m1: float):
    a = Flat([Hit(t1)])
    a.bounds = Miss()
    r, i = _ray(m0, m1), Intersection()
    return {'intersect': a.intersect(r, i) == False and i.primitive is None and r.maxt == m1, 'intersect_p': a.intersect_p(r) == False}

def _box(p, q):
    b = BBox()
    b.pMin, b.pMax = p, q
    return b

def _has(b, c):
    return b.pMin.x <= c.pMin.x and b.pMin.y <= c.pMin.y and b.pMin.z <= c.pMin.z and b.pMax.x >= c.pMax.x and b.pMax.y >= c.pMax.y and b.pMax.z >= c.pMax.z

def f_simple_bounds(p: Point, q: Point, s: Point, t: Point):
    b, c = _box(p, q), _box(s, t)
    g = SimpleAggregate([Hit(1., True, b), Hit(2., True, c)], True)
    u = g.world_bound()
    return {'first': _has(u, b), 'second': _has(u, c), 'tight': u == BBox.Union(_box(p, q), _box(s, t)), 'kept': b == _box(p, q) and c == _box(s, t),
            'can': g.can_intersect() == True}

class Group(Primitive):
    def __init__(self, parts, ok=False):
        self.parts, self.ok = parts, ok

    def can_intersect(self):
        return self.ok

    def refine(self, out):
        for p in self.parts:
            out.append(p)

    def world_bound(self):
        return None

    def intersect(self, r, isect):
        return False

    def intersect_p(self, r):
        return False

    def get_area_light(self):
        return None

    def get_bsdf(self, dg, o2w):
        return None

    def get_bssrdf(self, dg, o2w):
        return None

def f_full_refine(k: bool):
    a, b, c, d = Hit(1.), Hit(2.), Hit(3.), Group([], True)
    e = Group([], k)
    out = []
    Group([a, Group([c, Group([d])]), b, e]).full_refine(out)
    n = 0
    for x in [a, b, c, d]:
        m = 0
        for y in out:
            if y is x:
                m = m + 1
        if m == 1:
            n = n + 1
    return {'count': len(out) == (5 if k else 4), 'each_once': n == 4}

def _slabs(r, a, b):
    # the box the ray crosses between parameters a.x and b.x, a.y and b.y, a.z and b.z along each axis
    p, q = Point(r.o.x + r.d.x * a.x, r.o.y + r.d.y * a.y, r.o.z + r.d.z * a.z), Point(r.o.x + r.d.x * b.x, r.o.y + r.d.y * b.y, r.o.z + r.d.z * b.z)
    u, v = p.copy(), q.copy()
    if r.d.x < 0.:
        u.x, v.x = q.x, p.x
    if r.d.y < 0.:
        u.y, v.y = q.y, p.y
    if r.d.z < 0.:
        u.z, v.z = q.z, p.z
    return _box(u, v)

def f_bvh_slab(r: Ray, a: Vector, b: Vector, t: float):
    assert r.d.x != 0. and r.d.y != 0. and r.d.z != 0.
    assert a.x <= b.x and a.y <= b.y and a.z <= b.z
    t0, t1 = max(a.x, a.y, a.z), min(b.x, b.y, b.z)
    hit = BVH._intersect_p(_slabs(r, a, b), r, 1. / r.d, r.d < 0.)
    inside = r.mint < t and t < r.maxt and a.x <= t and t <= b.x and a.y <= t and t <= b.y and a.z <= t and t <= b.z
    return {'kept': hit or not inside, 'exact': hit == (t0 <= t1 and t0 < r.maxt and t1 > r.mint)}

class Gate:
    """a box the ray passes or not"""
    def __init__(self, open):
        self.open = open

def gate(bounds, ray, inv_dir, dir_neg):
    return bounds.open

class Tree(BVH):
    def __init__(self, ps, nodes):
        self.primitives, self.nodes = ps, nodes

def _tree(g, ps, ax):
    # two levels: a leaf, and a node with two leaves
    L = BVH._LinearNode
    return Tree(ps, [L(Gate(g[0]), 2, 0, ax[0]), L(Gate(g[1]), 0, 1, 0), L(Gate(g[2]), 4, 0, ax[1]), L(Gate(g[3]), 1, 1, 0), L(Gate(g[4]), 2, 2, 0)])

def _reach(g, ps):
    # the primitives whose boxes are all passed
    r = []
    for k, ok in [(0, g[0] and g[1]), (1, g[0] and g[2] and g[3]), (2, g[0] and g[2] and g[4]), (3, g[0] and g[2] and g[4])]:
        r.append(Hit(ps[k].t, ps[k].there and ok))
    return r

def f_bvh_walk(t1: float, t2: float, t3: float, t4: float, g1: bool, g2: bool, g3: bool, g4: bool, dx: float, dy: float, m0: float, m1: float):
    assert m0 < m1
    g = [True, g1, g2, g3, g4]
    ps = [Hit(t1), Hit(t2), Hit(t3), Hit(t4)]
    i, r = Intersection(), Ray(Point(0., 0., 0.), Vector(dx, dy, 1.), m0, m1)
    hit = _tree(g, ps, [0, 1]).intersect(r, i)
    rs = _reach(g, ps)
    best = _nearest(rs, m0, m1)
    any_ = _in(rs[0], m0, m1) or _in(rs[1], m0, m1) or _in(rs[2], m0, m1) or _in(rs[3], m0, m1)
    at = True
    for p in ps:
        if i.primitive is p:
            at = p.t == best
    return {'hit': hit == any_, 'maxt': r.maxt == best, 'nearest': (not any_) or at, 'fields': (not any_) or _fields(i, ps)}

BP = BVH._BVHPrimitive

class Item:
    """what the construction keeps of a primitive"""
    def __init__(self, k, c, bounds):
        self.prim_idx, self.centroid, self.bounds = k, c, bounds

class Sub:
    """the root of a recursively built subtree"""
    def __init__(self, items, bounds, size):
        self.items, self.bounds, self.size, self.n_prim = items, bounds, size, 0

def sub_build(self, data, segment, ordered_prims):
    # induction hypothesis: a non-empty strictly smaller range becomes a subtree whose primitives are appended in any order
    start, end = segment[0], segment[1]
    self.calls.append([start, end])
    if not (start < end and end - start < self.total):
        self.bad = True
    items = [data[i] for i in range(start, end)]
    b = BBox()
    for i in range(start, end):
        b.union(data[i].bounds)
        ordered_prims.append(self.primitives[data[i].prim_idx])
    segment[2] += 2 * (end - start) - 1
    segment[0], segment[1] = -5, -7
    return Sub(items, b, 2 * (end - start) - 1)

class Build(BVH):
    def __init__(self, ps, method, most, total):
        self.primitives, self.split_method, self.max_prim_per_node, self.total, self.calls, self.bad = ps, method, most, total, [], False

def _built(ps, boxes, cs, method, most):
    # a range after another one that has become a leaf already, its items in an order left by the partition of an enclosing range
    n = len(ps)
    past = Hit(-1.)
    g = Build(ps + [past], method, most, n)
    data = [Item(n, Point(-50., -50., -50.), _box(Point(-51., -51., -51.), Point(-49., -49., -49.)))] + [Item(n - 1 - k, cs[n - 1 - k], boxes[n - 1 - k]) for k in range(n)]
    seg, out = [1, n + 1, 0], [past]
    try:
        root = g._recursive_build(data, seg, out)
    except AssertionError:
        return {'builds': False}
    order = True
    once = len(out) == n + 1 and out[0] is past
    for p in ps:
        k = 0
        for q in out:
            if q is p:
                k = k + 1
        once = once and k == 1
    ok = not g.bad
    if root.n_prim > 0:
        shape = root.n_prim == n and root.first_offset == 1 and seg[2] == 1 and len(g.calls) == 0
        order = True
    else:
        a, b = root.children[0], root.children[1]
        shape = len(g.calls) == 2 and seg[2] == 2 * n - 1
        if len(g.calls) == 2:
            shape = shape and g.calls[0][0] == 1 and g.calls[1][1] == n + 1 and g.calls[0][1] == g.calls[1][0]
            # the flattened tree numbers the primitives of the first child before those of the second
            m = g.calls[0][1] - 1
            order = len(a.items) == m and len(b.items) == n - m
            for k in range(n):
                if k < m:
                    order = order and out[1 + k] is ps[a.items[k].prim_idx]
    inside = True
    for x in boxes:
        inside = inside and _has(root.bounds, x)
    return {'once': once, 'smaller': ok, 'shape': shape, 'order': order, 'builds': True, 'inside': inside}

def f_build_middle3(a: float, b: float, c: float):
    ps = [Hit(1.), Hit(2.), Hit(3.)]
    cs = [Point(a, 0., 0.), Point(b, 0., 0.), Point(c, 0., 0.)]
    return _built(ps, [_box(p, p) for p in cs], cs, BVH.SplitMethod.MIDDLE, 1)

def f_build_sah3(a: float, b: float, c: float):
    ps = [Hit(1.), Hit(2.), Hit(3.)]
    cs = [Point(a, 0., 0.), Point(b, 0., 0.), Point(c, 0., 0.)]
    return _built(ps, [_box(p, p) for p in cs], cs, BVH.SplitMethod.SAH, 1)

def f_build_middle2(p: Point, q: Point, s: Point, t: Point, m: int):
    assert m >= 1
    ps = [Hit(1.), Hit(2.)]
    return _built(ps, [_box(p, p), _box(q, q)], [p, q], BVH.SplitMethod.MIDDLE, m)

def f_partition(a: float, b: float, c: float, m: float):
    x = [Item(0, [a], 0), Item(1, [b], 0), Item(2, [c], 0)]
    k = BVH._partition(x, 0, 3, m, 0)
    return {'left': (k < 1 or x[0].centroid[0] < m) and (k < 2 or x[1].centroid[0] < m) and (k < 3 or x[2].centroid[0] < m),
            'right': (k > 0 or x[0].centroid[0] >= m) and (k > 1 or x[1].centroid[0] >= m) and (k > 2 or x[2].centroid[0] >= m),
            'perm': x[0].prim_idx + x[1].prim_idx + x[2].prim_idx == 3 and x[0].prim_idx * x[1].prim_idx * x[2].prim_idx == 0 and x[0].prim_idx != x[1].prim_idx}

def f_build_same(p: Point, m: int, sah: bool):
    ps = [Hit(1.), Hit(2.), Hit(3.)]
    assert m >= 1
    return _built(ps, [_box(p, p), _box(p, p), _box(p, p)], [p, p, p], BVH.SplitMethod.SAH if sah else BVH.SplitMethod.MIDDLE, m)

def f_build_sah2(p: Point, q: Point, m: int):
    assert m >= 1
    ps = [Hit(1.), Hit(2.)]
    return _built(ps, [_box(p, p), _box(q, q)], [p, q], BVH.SplitMethod.SAH, m)

def f_build_one(p: Point, m: int, sah: bool):
    assert m >= 1
    return _built([Hit(1.)], [_box(p, p)], [p], BVH.SplitMethod.SAH if sah else BVH.SplitMethod.MIDDLE, m)

def _five(a, m):
    ps = [Hit(1.), Hit(2.), Hit(3.), Hit(4.), Hit(5.)]
    cs = [Point(a, 0., 0.), Point(0., 0., 0.), Point(12., 1., 2.), Point(11., 1., 1.), Point(.5, 2., 1.)]
    return _built(ps, [_box(p - Vector(1., 1., 1.), p + Vector(1., 1., 1.)) for p in cs], cs, BVH.SplitMethod.SAH, m)

def f_build_sah5(a: float):
    assert a >= 0. and a <= 12.
    return _five(a, 4)

def f_build_sah5c(a: float):
    return _five(6., 4)

def f_build_sah5leaf(a: float):
    return _five(6., 8)

def f_build_sah5tight(a: float):
    ps = [Hit(1.), Hit(2.), Hit(3.), Hit(4.), Hit(5.)]
    cs = [Point(0., 0., 0.), Point(1., 0., 0.), Point(2., 1., 2.), Point(1., 1., 1.), Point(.5, 2., 1.)]
    return _built(ps, [_box(p - Vector(9., 9., 9.), p + Vector(9., 9., 9.)) for p in cs], cs, BVH.SplitMethod.SAH, 8)

def f_build_sah5close(a: float):
    # boxes that nearly agree: not worth a split
    ps = [Hit(1.), Hit(2.), Hit(3.), Hit(4.), Hit(5.)]
    cs = [Point(0., 0., 0.), Point(1., 0., 0.), Point(2., 1., 2.), Point(1., 1., 1.), Point(.5, 2., 1.)]
    return _built(ps, [_box(p - Vector(900., 900., 900.), p + Vector(900., 900., 900.)) for p in cs], cs, BVH.SplitMethod.SAH, 8)

class Cell:
    def __init__(self):
        self.seen = False
    def intersect(self, ray, isect, lock):
        self.seen = True
        return False
    def intersect_p(self, ray, lock):
        self.seen = True
        return False

class Cells(GridAccel):
    def __init__(self, n):
        self.bounds = _box(Point(0., 0., 0.), Point(1. * n[0], 1. * n[1], 1. * n[2]))
        self.n_voxels = np.array([1. * n[0], 1. * n[1], 1. * n[2]])
        self.width, self.invWidth = Vector(1., 1., 1.), Vector(1., 1., 1.)
        self.voxels = [Cell() for k in range(n[0] * n[1] * n[2])]
        self.lock = None

def _walk(n, d, q, v, m0, m1, t, shadow):
    # the ray is at q, inside voxel v, for parameter t of its range
    g = Cells(n)
    r = Ray(q - d * t, d, m0, m1)
    if shadow:
        g.intersect_p(r)
    else:
        g.intersect(r, Intersection())
    return {'visits': g.voxels[(v[2] * n[1] + v[1]) * n[0] + v[0]].seen}

def cell(self, p, axis):
    n = self.n_voxels[axis]
    if n == 1:
        return 0
    if n == 2:
        return 0 if p[axis] < 1. else 1
    return 0 if p[axis] < 1. else (1 if p[axis] < 2. else 2)

def enter(self, ray):
    # what the box promises: the part of the ray's range inside it
    t0, t1 = ray.mint, ray.maxt
    for k in range(3):
        if ray.d[k] != 0.:
            a, b = (self.pMin[k] - ray.o[k]) / ray.d[k], (self.pMax[k] - ray.o[k]) / ray.d[k]
            t0, t1 = max(t0, min(a, b)), min(t1, max(a, b))
    return [True, t0, t1]



def _at(v, u):
    # a point strictly inside voxel v
    assert u.x > 0. and u.x < 1. and u.y > 0. and u.y < 1. and u.z > 0. and u.z < 1.
    return Point(u.x + v[0], u.y + v[1], u.z + v[2])

class Cube(GridAccel):
    def __init__(self, p, w, n):
        self.bounds, self.n_voxels, self.width = _box(p, p + Vector(w * n, w * n, w * n)), np.array([1. * n, 1. * n, 1. * n]), Vector(w, w, w)
        self.invWidth = Vector(1. / w, 1. / w, 1. / w)

def f_grid_cells(p: Point, q: Point):
    assert q.x >= p.x and q.y >= p.y and q.z >= p.z and q.x < p.x + 2. and q.y < p.y + 2. and q.z < p.z + 2.
    g = Cube(p, .5, 4)
    out = []
    for a in range(3):
        ok = False
        for k in range(4):
            ok = ok or (g.pos2voxel(q, a) == k and g.voxel2pos(k, a) <= q[a] and q[a] < g.voxel2pos(k + 1, a))
        out.append(ok)
    return {'x': out[0], 'y': out[1], 'z': out[2]}

def f_grid_clamp(p: Point, q: Point):
    g = Cube(p, .5, 4)
    lo = hi = ok = True
    for a in range(3):
        i = g.pos2voxel(q, a)
        ok = ok and (i == 0 or i == 1 or i == 2 or i == 3)
        lo, hi = lo and (q[a] > p[a] or i == 0), hi and (q[a] < p[a] + 2. or i == 3)
    return {'range': ok, 'below': lo, 'above': hi}

def f_grid_offset(p: Point, a: float, b: float, c: float, d: float, e: float, f: float):
    nx, ny, nz, x, y, z = np.floor(a), np.floor(b), np.floor(c), np.floor(d), np.floor(e), np.floor(f)
    assert nx >= 1 and ny >= 1 and nz >= 1 and x >= 0 and y >= 0 and z >= 0
    g = Cube(p, 1., 2)
    g.n_voxels = np.array([nx, ny, nz])
    return {'linear': g.offset(x, y, z) == x + nx * (y + ny * z)}

def _listed(v, p):
    if v is None:
        return False
    ok = False
    for q in v.primitives:
        ok = ok or q is p
    return ok

def _grid(boxes):
    ps = [Hit(1., True, b) for b in boxes]
    g = GridAccel(ps, True)
    n = [int(g.n_voxels[0]), int(g.n_voxels[1]), int(g.n_voxels[2])]
    ok = len(g.voxels) == n[0] * n[1] * n[2]
    b = g.world_bound()
    for p in ps:
        ok = ok and _has(b, p.box)
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    c = _box(Point(g.voxel2pos(i, 0), g.voxel2pos(j, 1), g.voxel2pos(k, 2)), Point(g.voxel2pos(i + 1, 0), g.voxel2pos(j + 1, 1), g.voxel2pos(k + 1, 2)))
                    apart = c.pMin.x >= p.box.pMax.x or c.pMax.x <= p.box.pMin.x or c.pMin.y >= p.box.pMax.y or c.pMax.y <= p.box.pMin.y or c.pMin.z >= p.box.pMax.z or c.pMax.z <= p.box.pMin.z
                    ok = ok and (apart or _listed(g.voxels[g.offset(i, j, k)], p))
    return {'covers': ok, 'spans': g.voxel2pos(n[0], 0) >= b.pMax.x - 1e-9 and g.voxel2pos(n[1], 1) >= b.pMax.y - 1e-9 and g.voxel2pos(n[2], 2) >= b.pMax.z - 1e-9, 'can': g.can_intersect()}

def f_grid_build():
    return _grid([_box(Point(0., 0., 0.), Point(1., 2., 1.)), _box(Point(2., 1., 0.), Point(3., 1.5, 1.))])

def f_grid_build_flat():
    return _grid([_box(Point(-1., 0., 2.), Point(1., 2., 2.)), _box(Point(0., 1., 2.), Point(3., 1.5, 2.)), _box(Point(-4., 1., 2.), Point(-2., 3.5, 2.))])

class Knot:
    """a node of a finished tree"""
    def __init__(self, name, first, n, axis, a, b):
        self.bounds, self.first_offset, self.n_prim, self.split_axis, self.children = name, first, n, axis, [a, b]

class Flat2(BVH):
    def __init__(self, n):
        self.nodes = [BVH._LinearNode() for k in range(n)]

def f_flatten():
    leaf = [Knot('a', 0, 1, 0, None, None), Knot('b', 1, 2, 0, None, None), Knot('c', 3, 1, 0, None, None), Knot('d', 4, 3, 0, None, None)]
    g = Flat2(7)
    g._flatten_tree(Knot('r', 0, 0, 1, Knot('u', 0, 0, 2, leaf[0], Knot('v', 0, 0, 0, leaf[1], leaf[2])), leaf[3]), [0])
    s = ''
    for x in g.nodes:
        s = s + x.bounds
    n = g.nodes
    return {'preorder': s == 'ruavbcd', 'second': n[0].offset == 6 and n[1].offset == 3 and n[3].offset == 5, 'axis': n[0].axis == 1 and n[1].axis == 2 and n[3].axis == 0,
            'inner': n[0].n_prim == 0 and n[1].n_prim == 0 and n[3].n_prim == 0, 'leaves': n[2].offset == 0 and n[2].n_prim == 1 and n[4].offset == 1 and n[4].n_prim == 2 and n[5].offset == 3 and n[5].n_prim == 1 and n[6].offset == 4 and n[6].n_prim == 3}

def f_bvh_nodes(p: Point, q: Point, s: Point, t: Point):
    a, b, c = BVH._BVHNode(), BVH._BVHNode(), BVH._BVHNode()
    a.init_leaf(4, 2, _box(p, q))
    b.init_leaf(6, 1, _box(s, t))
    c.init_inter(2, a, b)
    d = BVH._BVHPrimitive(5, _box(p, q))
    return {'leaf': a.first_offset == 4 and a.n_prim == 2 and a.children[0] is None and a.children[1] is None, 'children': c.children[0] is a and c.children[1] is b,
            'inner': c.n_prim == 0 and c.split_axis == 2, 'bounds': _has(c.bounds, a.bounds) and _has(c.bounds, b.bounds), 'kept': a.bounds == _box(p, q) and b.bounds == _box(s, t),
            'primitive': d.prim_idx == 5 and d.bounds == _box(p, q) and d.centroid == p * .5 + q * .5}

def f_bvh_two(a: float, b: float, t1: float, t2: float):
    ps = [Hit(t1, True, _box(Point(a, 0., 0.), Point(a, 1., 1.))), Hit(t2, True, _box(Point(b, 0., 0.), Point(b, 1., 1.)))]
    g = BVH(ps, 1, 'middle')
    ok = len(g.primitives) == 2 and len(g.nodes) == 3
    w = g.world_bound()
    return {'size': ok, 'bounds': _has(w, ps[0].box) and _has(w, ps[1].box), 'leaves': g.nodes[1].n_prim == 1 and g.nodes[2].n_prim == 1 and g.nodes[1].offset == 0 and g.nodes[2].offset == 1,
            'boxes': _has(g.nodes[1].bounds, g.primitives[0].box) and _has(g.nodes[2].bounds, g.primitives[1].box), 'all': g.primitives[0] is not g.primitives[1], 'can': g.can_intersect() == True}

def f_bvh_empty(o: Point, d: Vector, x: str):
    g = BVH([], 4, x)
    r, i = Ray(o, d, 0., 9.), Intersection()
    return {'miss': g.intersect(r, i) == False and g.intersect_p(r) == False and r.maxt == 9.}

def f_bvh_walk_p(t1: float, t2: float, t3: float, t4: float, g0: bool, g1: bool, g2: bool, g3: bool, g4: bool, d: Vector, m0: float, m1: float):
    assert m0 < m1
    ps = [Hit(t1), Hit(t2), Hit(t3), Hit(t4)]
    r = Ray(Point(0., 0., 0.), d, m0, m1)
    hit = _tree([g0, g1, g2, g3, g4], ps, [0, 1]).intersect_p(r)
    rs = _reach([g0, g1, g2, g3, g4], ps)
    return {'any': hit == (_in(rs[0], m0, m1) or _in(rs[1], m0, m1) or _in(rs[2], m0, m1) or _in(rs[3], m0, m1)), 'range': r.maxt == m1}

class Pose:
    """what an animated transform promises: a pose per time"""
    def __init__(self, t):
        self.t, self.times = t, []
    def interpolate(self, time):
        self.times.append(time)
        return self.t
    def __call__(self, r):
        return self.interpolate(r.time)(r)
    def motion_bounds(self, b, inv):
        return [b, inv]

class Surface:
    """a primitive that is hit and reports fixed geometry"""
    def __init__(self, there, t, dg, w2o):
        self.there, self.t, self.dg, self.w2o, self.ray = there, t, dg, w2o, None
    def intersect(self, r, isect):
        self.ray = [r.o.copy(), r.d.copy(), r.mint, r.maxt, r.time]
        if not self.there:
            return False
        r.maxt = self.t
        isect.dg, isect.w2o, isect.o2w = self.dg, self.w2o, self.w2o.inverse()
        isect.primitive, isect.shapeId, isect.primitiveId, isect.rEps = self, 7, 8, 9.
        return True
    def intersect_p(self, r):
        self.ray = [r.o.copy(), r.d.copy(), r.mint, r.maxt, r.time]
        return self.there
    def world_bound(self):
        return 'box'
    def can_intersect(self):
        return self.there
    def refine(self, out):
        out.append(Surface(True, 1., None, None))
        out.append(Surface(True, 2., None, None))

def _dg(p, u, v, a, b, n):
    g = DifferentialGeometry(p, u, v, a, b, 0., 0., None)
    g.nn = n
    return g

def _turn(c, s, v):
    # rotation about z (inverse also known) then a translation
    m = np.array([[c, -s, 0., v.x], [s, c, 0., v.y], [0., 0., 1., v.z], [0., 0., 0., 1.]])
    i = np.array([[c, s, 0., -(c * v.x + s * v.y)], [-s, c, 0., s * v.x - c * v.y], [0., 0., 1., -v.z], [0., 0., 0., 1.]])
    return Transform(m, i)

def f_instance(h: float, v: Vector, p: Point, du: Vector, dv: Vector, nu: Normal, nv: Normal, a: float, b: float, o: Point, d: Vector, m0: float, m1: float, tm: float, t: float):
    assert v.z != 0.
    n = Normal(np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b))
    r = Ray(o.copy(), d.copy(), m0, m1, 0, tm)
    T = _turn(np.cos(h), np.sin(h), v)
    W = Transform(np.array([[2., 0., 0., 1.], [0., 1., 0., 3.], [0., 0., 1., 0.], [0., 0., 0., 1.]]), np.array([[.5, 0., 0., -.5], [0., 1., 0., -3.], [0., 0., 1., 0.], [0., 0., 0., 1.]]))
    s = Surface(True, t, _dg(p, du, dv, nu, nv, n), W)
    pose, i = Pose(T), Intersection()
    x = TransformedPrimitive(s, pose)
    hit = x.intersect(r, i)
    ask, g = s.ray, i.dg
    return {'answer': hit == True, 'time': len(pose.times) == 1 and pose.times[0] == tm,
            'local_ray': ask[0] == T(o) and ask[1] == T(d) and ask[2] == m0 and ask[3] == m1 and ask[4] == tm,
            'ray_kept': r.o == o and r.d == d and r.mint == m0, 'range': r.maxt == t,
            'id': i.primitiveId == x.primitiveId and i.shapeId == 7 and i.rEps == 9.,
            'point': T(g.p) == p, 'tangents': T(g.dpdu) == du and T(g.dpdv) == dv, 'normal': T(g.nn) == n,
            'normal_derivatives': T(g.dndu) == nu and T(g.dndv) == nv, 'to_object': i.w2o(g.p) == W(p), 'to_world': i.o2w(W(p)) == g.p, 'material': i.primitive is s}

def f_instance_still(p: Point, du: Vector, n: Normal, o: Point, d: Vector, t: float):
    T = _turn(1., 0., Vector(0., 0., 0.))
    r, W = Ray(o.copy(), d.copy(), 0., 9., 0, 1.), _turn(0., 1., Vector(1., 2., 3.))
    s, i = Surface(True, t, _dg(p, du, du, n, n, n), W), Intersection()
    x = TransformedPrimitive(s, Pose(T))
    hit, g = x.intersect(r, i), i.dg
    return {'hit': hit == True and r.maxt == t and i.primitiveId == x.primitiveId, 'geometry': g.p == p and g.dpdu == du and g.dndu == n, 'to_object': i.w2o(p) == W(p)}

def f_instance_miss(h: float, v: Vector, o: Point, d: Vector, m0: float, m1: float, tm: float, t: float):
    r = Ray(o.copy(), d.copy(), m0, m1, 0, tm)
    s, i = Surface(False, t, None, None), Intersection()
    x = TransformedPrimitive(s, Pose(_turn(np.cos(h), np.sin(h), v)))
    hit = x.intersect(r, i)
    return {'answer': hit == False, 'ray_kept': r.o == o and r.d == d and r.mint == m0 and r.maxt == m1, 'untouched': i.primitive is None and i.dg is None}

def f_instance_p(h: float, v: Vector, o: Point, d: Vector, m0: float, m1: float, tm: float, there: bool):
    r = Ray(o.copy(), d.copy(), m0, m1, 0, tm)
    T = _turn(np.cos(h), np.sin(h), v)
    s, pose = Surface(there, 1., None, None), Pose(T)
    hit = TransformedPrimitive(s, pose).intersect_p(r)
    ask = s.ray
    return {'answer': hit == there, 'time': pose.times[0] == tm, 'local_ray': ask[0] == T(o) and ask[1] == T(d) and ask[2] == m0 and ask[3] == m1, 'kept': r.o == o and r.d == d and r.mint == m0 and r.maxt == m1}

def f_instance_parts(h: float, v: Vector, there: bool):
    s, pose = Surface(there, 1., None, None), Pose(_turn(np.cos(h), np.sin(h), v))
    x = TransformedPrimitive(s, pose)
    b = x.world_bound()
    out = []
    x.refine(out)
    ok = len(out) == 2
    for k in range(2):
        ok = ok and out[k].w2p is pose and out[k].primitive.t == 1. + k and out[k].can_intersect() == True
    return {'bounds': b[0] == 'box' and b[1] == True, 'can': x.can_intersect() == there, 'refine': ok, 'light': x.get_area_light() is None}

class Shell:
    """a shape of which only the contract is known"""
    def __init__(self, there, t, e, dg):
        self.there, self.t, self.e, self.dg = there, t, e, dg
        self.w2o, self.o2w, self.shapeId = [1], [2], 31
    def intersect(self, r):
        return [self.there, self.t, self.e, self.dg]
    def intersect_p(self, r):
        return self.there
    def world_bound(self):
        return 'box'
    def can_intersect(self):
        return self.there
    def refine(self):
        return [Shell(True, 1., 0., None), Shell(False, 2., 0., None)]
    def get_shading_geometry(self, o2w, dg):
        return [o2w, dg]

class Stuff:
    def get_bsdf(self, dg, dgs):
        return ['bsdf', dg, dgs]
    def get_bssrdf(self, dg, dgs):
        return ['bssrdf', dg, dgs]

class Lamp:
    def l(self, p, n, w):
        return [p, n, w]

def f_geometric(there: bool, t: float, e: float, r: Ray):
    g = ['dg']
    sh, lamp = Shell(there, t, e, g), Lamp()
    x, y = GeometricPrimitive(sh, Stuff(), lamp), GeometricPrimitive(sh, Stuff())
    m1, i = r.maxt, Intersection()
    hit = x.intersect(r, i)
    out = {'hit': hit == there, 'range': r.maxt == (t if there else m1), 'intersect_p': x.intersect_p(r) == there, 'bounds': x.world_bound() == 'box',
           'light': x.get_area_light() is lamp and y.get_area_light() is None, 'ids': x.primitiveId != y.primitiveId, 'can': x.can_intersect() == there}
    out['fields'] = (not there) or (i.dg is g and i.primitive is x and i.w2o is sh.w2o and i.o2w is sh.o2w and i.shapeId == 31 and i.primitiveId == x.primitiveId and i.rEps == e)
    out['untouched'] = there or (i.primitive is None and i.dg is None)
    return out

def f_geometric_parts(there: bool):
    g, o = ['dg'], ['o2w']
    lamp, st = Lamp(), Stuff()
    x = GeometricPrimitive(Shell(there, 1., 0., g), st, lamp)
    b, c = x.get_bsdf(g, o), x.get_bssrdf(g, o)
    out = []
    x.refine(out)
    ok = len(out) == 2
    for k in range(2):
        ok = ok and out[k].shape.t == 1. + k and out[k].material is st and out[k].areaLight is lamp
    return {'bsdf': b[0] == 'bsdf' and b[1] is g and b[2][0] is o and b[2][1] is g, 'bssrdf': c[0] == 'bssrdf' and c[1] is g and c[2][0] is o and c[2][1] is g, 'refine': ok}

class Geo:
    def __init__(self, p, n):
        self.p, self.nn, self.rays = p, n, []
    def compute_differential(self, ray):
        self.rays.append(ray)

class Thing:
    def __init__(self, lamp):
        self.lamp = lamp
    def get_area_light(self):
        return self.lamp
    def get_bsdf(self, dg, o2w):
        return ['bsdf', dg, o2w, len(dg.rays)]
    def get_bssrdf(self, dg, o2w):
        return ['bssrdf', dg, o2w, len(dg.rays)]

def f_intersection(p: Point, n: Normal, w: Vector, ray: RayDifferential):
    g, o = Geo(p, n), ['o2w']
    i, j = Intersection(g, Thing(Lamp()), ['w2o'], o), Intersection(g, Thing(None), ['w2o'], o)
    l = i.le(w)
    b, c = i.get_bsdf(ray), i.get_bssrdf(ray)
    return {'le': l[0] is p and l[1] is n and l[2] is w, 'dark': j.le(w) == Spectrum(0.), 'bsdf': b[0] == 'bsdf' and b[1] is g and b[2] is o and b[3] == 1, 'bssrdf': c[0] == 'bssrdf' and c[1] is g and c[2] is o and c[3] == 2,
            'differentials': g.rays[0] is ray and g.rays[1] is ray}

class World:
    def __init__(self, box, hit):
        self.box, self.hit, self.ray, self.isect = box, hit, None, None
    def world_bound(self):
        return self.box
    def intersect(self, ray, isect):
        self.ray, self.isect = ray, isect
        return self.hit
    def intersect_p(self, ray):
        self.ray = ray
        return self.hit

def f_scene(p: Point, q: Point, s: Point, t: Point, hit: bool, r: Ray):
    b, c = _box(p, q), _box(s, t)
    w, v, i = World(b, hit), World(c, hit), Intersection()
    sc, plain = Scene(w, [], v), Scene(w, [], None)
    u = sc.world_bound()
    h = sc.intersect(r, i)
    ok = w.ray is r and w.isect is i
    w.ray = None
    return {'intersect': h == hit and ok, 'intersect_p': sc.intersect_p(r) == hit and w.ray is r, 'bounds': _has(u, b) and _has(u, c), 'plain': plain.world_bound() == b, 'kept': b == _box(p, q) and c == _box(s, t)}

class Mutex:
    def __init__(self):
        self.held, self.bad = False, False
    def acquire(self):
        self.bad = self.bad or self.held
        self.held = True
    def release(self):
        self.bad = self.bad or not self.held
        self.held = False
    def __enter__(self):
        self.acquire()
    def __exit__(self, a, b, c):
        self.release()

class Shape1(Hit):
    """refines to one hit"""
    def can_intersect(self):
        return False
    def full_refine(self, out):
        out.append(Hit(self.t, self.there))

def f_voxel(t1: float, t2: float, a: bool, b: bool, m0: float, m1: float):
    assert m0 < m1
    ps = [Hit(t1, a), Shape1(t2, b)]
    v, lock = Voxel([ps[0]]), Mutex()
    v.add_primitive(ps[1])
    r, i = _ray(m0, m1), Intersection()
    p = v.intersect_p(r, lock)
    hit = v.intersect(r, i, lock)
    best = _nearest(ps, m0, m1)
    any_ = _in(ps[0], m0, m1) or _in(ps[1], m0, m1)
    return {'hit': hit == any_, 'any': p == any_, 'maxt': r.maxt == best, 'count': len(v.primitives) == 2, 'lock': not lock.held and not lock.bad, 'owner': (not any_) or i.primitive.t == best}
'''

SPEC += '''
class ShapeN(Hit):
    """refines to several hits, or to none"""
    def __init__(self, ts):
        self.ts = ts
    def can_intersect(self):
        return False
    def full_refine(self, out):
        for t in self.ts:
            out.append(Hit(t))

def part_init(self, p, refine_imm):
    self.parts = p

def part_intersect(self, ray, isect):
    hit = False
    for p in self.parts:
        if p.intersect(ray, isect):
            hit = True
    return hit

def part_intersect_p(self, ray):
    hit = False
    for p in self.parts:
        hit = hit or p.intersect_p(ray)
    return hit

def f_voxel_many(t1: float, t2: float, t3: float, m0: float, m1: float):
    assert m0 < m1
    v, lock = Voxel([ShapeN([t1, t2]), Hit(t3)]), Mutex()
    w = Voxel([ShapeN([t1, t2]), Hit(t3)])
    ps = [Hit(t1), Hit(t2), Hit(t3)]
    r, i, j = _ray(m0, m1), Intersection(), Intersection()
    p = v.intersect_p(r, lock)
    again = v.intersect_p(r, lock)
    hit = w.intersect(r, i, lock)
    best = _nearest(ps, m0, m1)
    any_ = _in(ps[0], m0, m1) or _in(ps[1], m0, m1) or _in(ps[2], m0, m1)
    return {'any': p == any_ and again == p, 'hit': hit == any_, 'maxt': r.maxt == best, 'lock': not lock.held and not lock.bad, 'owner': (not any_) or i.primitive.t == best}
'''

# grid walks: resolution, direction, voxel the ray is in at some parameter of its range
_WALK = []


def _inside(n, d, v):
    # the walk starts in the voxel of a corner
    c = [0 if x > 0. else m - 1 for x, m in zip(d, n)]
    return ''.join(' and u.%s + %d - (t - m0) * %r > %d. and u.%s + %d - (t - m0) * %r < %d.' % (a, j, x, k, a, j, x, k + 1)
                   for a, x, j, k in zip('xyz', d, v, c))


for _n, _d, _vs in (
        ((3, 1, 1), (1., 0., 0.), ((0, 0, 0), (2, 0, 0))), ((1, 3, 1), (0., -2., 0.), ((0, 0, 0), (0, 2, 0))), ((1, 1, 3), (0., 0., .5), ((0, 0, 2), (0, 0, 1))),
        ((2, 2, 1), (1., -.5, 0.), ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0))), ((1, 2, 2), (0., 1., 3.), ((0, 1, 1), (0, 0, 1), (0, 1, 0))),
        ((2, 1, 2), (-1., 0., -2.), ((0, 0, 0), (1, 0, 1), (0, 0, 1))), ((3, 2, 1), (2., 1., 1.), ((2, 1, 0), (1, 0, 0), (2, 0, 0))),
        ((2, 2, 2), (1., 2., 3.), ((1, 1, 1), (0, 1, 1)))):
    for _v in _vs:
        _WALK.append('''
def f_grid_walk_%d(u: Vector, m0: float, m1: float, t: float, shadow: bool):
    assert m0 <= t and t <= m1%s
    return _walk(%r, Vector(%r, %r, %r), _at(%r, u), %r, m0, m1, t, shadow)
''' % ((len(_WALK), _inside(_n, _d, _v) if 0. not in _d else '', list(_n)) + _d + (list(_v), list(_v))))
SPEC += ''.join(_WALK)

_GATE = {'replace': {'pytracer.aggregate.accelerator.bvh.BVH._intersect_p': 'gate'}}
_REC = {'inner': {'pytracer.aggregate.accelerator.bvh.BVH._recursive_build': 'sub_build'}, 'try_total': True}
_CELL = {'replace': {'pytracer.aggregate.aggregate.GridAccel.pos2voxel': 'cell', 'pytracer.geometry.BBox.intersect_p': 'enter'}}
_PART = {'replace': {'pytracer.aggregate.aggregate.GridAccel.' + m: n for m, n in (('__init__', 'part_init'), ('intersect', 'part_intersect'), ('intersect_p', 'part_intersect_p'))}}
KW = {'f_voxel_many': _PART, 'f_bvh_walk': _GATE, 'f_bvh_walk_p': _GATE, 'f_bvh_two': {'try_total': True, 'recurse': 4}, 'f_flatten': {'recurse': 5}}


def check(ctx):
    ctx.rule('agg', 'clause holds for every ray, hit distance and box (exact normal forms)')
    mod = ctx.spec(SPEC, 'p06')

    def kw(fn):
        return _REC if fn.startswith('f_build_') else _CELL if fn.startswith('f_grid_walk') else KW.get(fn, {})
    ctx.prove_spec('agg', mod, 'pytracer/aggregate', kw)
