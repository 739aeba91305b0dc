"""Loop subdivision: the published masks on every refined mesh."""
EXPLANATION = '''
Control meshes of all vertex configurations - open and closed, boundary valences 2 to 6, interior valences 3 to 7, both as first and as later vertices - are refined
symbolically (their topology is fixed, the positions are arbitrary) and compared with an independent reference that works on face lists: vertex, edge, boundary and
limit masks, the four children of each face with their orientation, and normals from the limit tangents. The masks themselves, the mesh topology
queries and the parameters of the public constructor are proved separately.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.geometry as geo
from pytracer.geometry import Point, Vector, Normal
from pytracer.transform import Transform
from pytracer.shape.loopsubdiv import LoopSubdiv, create_loop_subdiv

class Made:
    def __init__(self, o2w, w2o, ro, idx, P, N):
        self.o2w, self.w2o, self.ro, self.idx, self.P, self.N = o2w, w2o, ro, idx, P, N

def _made(o2w, w2o, ro, params, txt=None):
    return Made(o2w, w2o, ro, params['indices'], params['P'], params['N'])

def _refined(faces, pts, nl):
    flat = []
    for f in faces:
        flat = flat + [f[0], f[1], f[2]]
    return LoopSubdiv(Transform(), Transform(), False, len(faces), len(pts), flat, [Point(p[0], p[1], p[2]) for p in pts], nl).refine()[0]

# the reference: a mesh is a list of faces (a, b, c) and a list of positions

def _edges(faces):
    out = []
    for f in faces:
        for k in range(3):
            a, b = f[k], f[(k + 1) % 3]
            out.append([a, b, f[(k + 2) % 3]])
    return out

def _opposite(es, a, b):
    return [e[2] for e in es if (e[0] == a and e[1] == b) or (e[0] == b and e[1] == a)]

def _around(es, v):
    """the neighbours of a vertex: all, and those along the boundary"""
    every, rim = [], []
    for e in es:
        if e[0] == v or e[1] == v:
            w = e[1] if e[0] == v else e[0]
            if not (w in every):
                every.append(w)
                if len(_opposite(es, v, w)) == 1:
                    rim.append(w)
    return every, rim

def _mix(ws, ps):
    return [sum([ws[i] * ps[i][j] for i in range(len(ws))]) for j in range(3)]

def _beta(n):
    return 3. / 16. if n == 3 else 3. / (8. * n)

def _even(es, P, v, limit):
    every, rim = _around(es, v)
    if len(rim) > 0:
        b = .2 if limit else .125
        return _mix([1. - 2. * b, b, b], [P[v], P[rim[0]], P[rim[1]]])
    n = len(every)
    b = 1. / (n + 3. / (8. * _beta(n))) if limit else _beta(n)
    return _mix([1. - n * b] + [b for k in every], [P[v]] + [P[k] for k in every])

def _level(faces, P):
    es = _edges(faces)
    new = [_even(es, P, v, False) for v in range(len(P))]
    names, out = [], []
    def at(a, b):
        for m in names:
            if (m[0] == a and m[1] == b) or (m[0] == b and m[1] == a):
                return m[2]
        o = _opposite(es, a, b)
        if len(o) == 1:
            new.append(_mix([.5, .5], [P[a], P[b]]))
        else:
            new.append(_mix([.375, .375, .125, .125], [P[a], P[b], P[o[0]], P[o[1]]]))
        names.append([a, b, len(new) - 1])
        return len(new) - 1
    for f in faces:
        a, b, c = f[0], f[1], f[2]
        ab, bc, ca = at(a, b), at(b, c), at(c, a)
        out = out + [[a, ab, ca], [b, bc, ab], [c, ca, bc], [ab, bc, ca]]
    return out, new

def _turn(faces, v):
    """the neighbours of a vertex in order, clockwise; along the boundary from end to end"""
    step, firsts, lasts = [], [], []
    for f in faces:
        for k in range(3):
            if f[k] == v:
                step.append([f[(k + 2) % 3], f[(k + 1) % 3]])
    for s in step:
        if not (s[0] in [q[1] for q in step]):
            firsts.append(s[0])
    if len(firsts) == 0:
        # successor of n across the edge v-n is the next vertex of the face in which n comes last
        ring = [step[0][1]]
        for k in range(len(step) - 1):
            n = [q[1] for q in step if q[0] == ring[-1]]
            ring.append(n[0])
        return ring, True
    ring = [firsts[0]]
    for k in range(len(step)):
        n = [q[1] for q in step if q[0] == ring[-1]]
        ring.append(n[0])
    back = []
    for r in ring:
        back = [r] + back
    return back, False

def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

def _normal(faces, P, v):
    ring, closed = _turn(faces, v)
    n = len(ring)
    R = [P[k] for k in ring]
    if closed:
        s = _mix([np.cos(2. * np.pi * k / n) for k in range(n)], R)
        t = _mix([np.sin(2. * np.pi * k / n) for k in range(n)], R)
    else:
        s = _mix([1., -1.], [R[n - 1], R[0]])
        if n == 2:
            t = _mix([1., 1., -2.], [R[0], R[1], P[v]])
        elif n == 3:
            t = _mix([1., -1.], [R[1], P[v]])
        elif n == 4:
            t = _mix([-1., 2., 2., -1., -2.], [R[0], R[1], R[2], R[3], P[v]])
        else:
            h = np.pi / (n - 1)
            t = _mix([-np.sin(h), -np.sin(h)] + [(2. - 2. * np.cos(h)) * np.sin(k * h) for k in range(1, n - 1)], [R[0], R[n - 1]] + [R[k] for k in range(1, n - 1)])
    return _cross(s, t)

def _limit(faces, P):
    es = _edges(faces)
    return [_even(es, P, v, True) for v in range(len(P))]

def _at(p, q):
    return p[0] == q[0] and p[1] == q[1] and p[2] == q[2]

def _same(m, faces, L):
    """the mesh has these faces at these positions, each vertex used"""
    ok = len(m.P) == len(L) and len(m.idx) == 3 * len(faces)
    where = []
    for q in L:
        hit = [i for i in range(len(m.P)) if _at(m.P[i], q)]
        ok = ok and len(hit) == 1
        where.append(hit[0] if len(hit) > 0 else -1)
    for f in faces:
        want, found = [where[f[0]], where[f[1]], where[f[2]]], False
        for t in range(len(faces)):
            g = [m.idx[3 * t], m.idx[3 * t + 1], m.idx[3 * t + 2]]
            found = found or g == want or [g[1], g[2], g[0]] == want or [g[2], g[0], g[1]] == want
        ok = ok and found
    return ok

def _along(n, m):
    """the same direction, to a tolerance"""
    c = _cross(n, m)
    d = n[0] * m[0] + n[1] * m[1] + n[2] * m[2]
    return d > 0. and max(c[0], -c[0]) <= 1e-4 * d and max(c[1], -c[1]) <= 1e-4 * d and max(c[2], -c[2]) <= 1e-4 * d

def _facing(m, faces, L):
    """each vertex of the mesh carries the normal of the limit surface there"""
    ok = len(m.N) == len(L)
    for v in range(len(L)):
        w = _normal(faces, L, v)
        for i in range(len(m.P)):
            if _at(m.P[i], L[v]):
                ok = ok and _along([m.N[i].x, m.N[i].y, m.N[i].z], w)
    return ok

def _sites(n):
    # positions in general situation
    return [[(7. * i * i + 3. * i) % 11. + .5 * i, (5. * i * i * i + i) % 13. - .25 * i, (3. * i * i + 2. * i) % 7. + .125 * i] for i in range(n)]

def _far(n):
    # the first coordinates are so far apart that they tell the weight of each vertex
    return [[1000000. ** i, (5. * i * i * i + i) % 13. - .25 * i, (3. * i * i + 2. * i) % 7. + .125 * i] for i in range(n)]

def _case(faces, n, nl):
    P, Q = _far(n), _sites(n)
    m, k = _refined(faces, P, nl), _refined(faces, Q, nl)
    for i in range(nl):
        (f, P), (g, Q) = _level(faces, P), _level(faces, Q)
        faces = f
    L = _limit(faces, Q)
    return [_same(m, faces, _limit(faces, P)), _same(k, faces, L) and _facing(k, faces, L)]

TETRA = [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]
OCTA = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]]

def _fan(n, closed):
    """n triangles around vertex 0"""
    if closed:
        return [[0, k + 1, (k + 1) % n + 1] for k in range(n)]
    return [[0, k + 1, k + 2] for k in range(n)]

def f_triangle(a: Point, b: Point, c: Point):
    f, P = [[0, 1, 2]], [[a.x, a.y, a.z], [b.x, b.y, b.z], [c.x, c.y, c.z]]
    m = _refined(f, P, 0)
    return {'limit': _at(m.P[0], _mix([.6, .2, .2], [P[0], P[1], P[2]])) and _at(m.P[1], _mix([.6, .2, .2], [P[1], P[0], P[2]])), 'count': len(m.P) == 3 and len(m.idx) == 3, 'face': m.idx[1] == (m.idx[0] + 1) % 3 and m.idx[2] == (m.idx[0] + 2) % 3}

def f_triangle_level():
    a, b = _case([[0, 1, 2]], 3, 0), _case([[0, 1, 2]], 3, 1)
    return {'limit': a[0], 'limit normal': a[1], 'mesh': b[0], 'normal': b[1]}

def f_pair():
    a, b = _case([[0, 1, 2], [2, 1, 3]], 4, 0), _case([[0, 1, 2], [2, 1, 3]], 4, 1)
    return {'limit': a[0], 'limit normal': a[1], 'mesh': b[0], 'normal': b[1]}

def f_tetra_limit():
    a = _case(TETRA, 4, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_tetra():
    b = _case(TETRA, 4, 1)
    return {'mesh': b[0], 'normal': b[1]}

def f_octa_limit():
    a = _case(OCTA, 6, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_octa():
    b = _case(OCTA, 6, 1)
    return {'mesh': b[0], 'normal': b[1]}

def f_fan3():
    a, b = _case(_fan(3, True), 4, 0), _case(_fan(3, True), 4, 1)
    return {'limit': a[0], 'limit normal': a[1], 'mesh': b[0], 'normal': b[1]}

def f_fan5_limit():
    a = _case(_fan(5, True), 6, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_fan5():
    b = _case(_fan(5, True), 6, 1)
    return {'mesh': b[0], 'normal': b[1]}

def f_fan6_limit():
    a = _case(_fan(6, True), 7, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_fan6():
    b = _case(_fan(6, True), 7, 1)
    return {'mesh': b[0], 'normal': b[1]}

def f_fan7_limit():
    a = _case(_fan(7, True), 8, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_fan7():
    faces, P = _fan(7, True), _far(8)
    m = _refined(faces, P, 1)
    f, Q = _level(faces, P)
    return {'mesh': _same(m, f, _limit(f, Q))}

def f_half3():
    a, b = _case(_fan(3, False), 5, 0), _case(_fan(3, False), 5, 1)
    return {'limit': a[0], 'limit normal': a[1], 'mesh': b[0], 'normal': b[1]}

def f_half4():
    a = _case(_fan(4, False), 6, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_half5():
    a, b = _case(_fan(5, False), 7, 0), _case(_fan(5, False), 7, 1)
    return {'limit': a[0], 'limit normal': a[1], 'mesh': b[0], 'normal': b[1]}

def f_two_levels():
    b = _case([[0, 1, 2]], 3, 2)
    return {'mesh': b[0], 'normal': b[1]}

def f_two_levels_pair():
    faces, P = [[0, 1, 2], [2, 1, 3]], _far(4)
    m = _refined(faces, P, 2)
    for i in range(2):
        faces, P = _level(faces, P)
    return {'mesh': _same(m, faces, _limit(faces, P))}

def f_two_levels_fan():
    faces, P = _fan(3, True), _far(4)
    m = _refined(faces, P, 2)
    for i in range(2):
        faces, P = _level(faces, P)
    return {'mesh': _same(m, faces, _limit(faces, P))}

def f_renumbered():
    # a strip in which faces name their vertices from different corners, and a separate triangle
    a = _case([[3, 4, 1], [1, 0, 3], [5, 2, 1], [4, 5, 1], [8, 6, 7]], 9, 1)
    return {'mesh': a[0], 'normal': a[1]}

def f_mixed_limit():
    # an interior vertex of valence 4 besides boundary vertices of valence 3 and 4
    a = _case([[4, 1, 0], [3, 4, 0], [4, 2, 1], [3, 5, 4], [5, 2, 4]], 6, 0)
    return {'limit': a[0], 'limit normal': a[1]}

def f_weights(n: int):
    assert n >= 3
    b, g = LoopSubdiv.beta(n), LoopSubdiv.gamma(n)
    return {'beta': b == (3. / 16. if n == 3 else 3. / (8. * n)), 'gamma': g * (n + 3. / (8. * (3. / 16. if n == 3 else 3. / (8. * n)))) == 1.}

def f_context(w: Transform, k: Transform, ro: bool, lv: int):
    assert lv >= 0
    s = LoopSubdiv(w, k, ro, 1, 3, [0, 1, 2], [Point(0., 0., 0.), Point(1., 0., 0.), Point(0., 1., 0.)], 1)
    m = s.refine()
    t = LoopSubdiv(w, k, ro, 1, 3, [0, 1, 2], [Point(0., 0., 0.), Point(1., 0., 0.), Point(0., 1., 0.)], lv)
    return {'one mesh': len(m) == 1, 'transforms': m[0].o2w is w and m[0].w2o is k and m[0].ro == ro, 'levels': t.nLevels == lv, 'refined first': not s.can_intersect()}

def f_bounds(w: Transform, a: Point, b: Point, c: Point):
    s = LoopSubdiv(w, w, False, 1, 3, [0, 1, 2], [a, b, c], 1)
    o, p, q, r, z = s.object_bound(), w(a), w(b), w(c), s.world_bound()
    return {'object min': o.pMin.x == min(a.x, min(b.x, c.x)) and o.pMin.y == min(a.y, min(b.y, c.y)) and o.pMin.z == min(a.z, min(b.z, c.z)),
            'object max': o.pMax.x == max(a.x, max(b.x, c.x)) and o.pMax.y == max(a.y, max(b.y, c.y)) and o.pMax.z == max(a.z, max(b.z, c.z)),
            'world min': z.pMin.x == min(p.x, min(q.x, r.x)) and z.pMin.y == min(p.y, min(q.y, r.y)) and z.pMin.z == min(p.z, min(q.z, r.z)),
            'world max': z.pMax.x == max(p.x, max(q.x, r.x)) and z.pMax.y == max(p.y, max(q.y, r.y)) and z.pMax.z == max(p.z, max(q.z, r.z))}

def f_created(w: Transform, k: Transform, ro: bool, lv: int, c: float, d: float):
    assert lv >= 0
    I, P = [0, 1, 2, 2, 1, 3], [0., c, 1., 2., d, 3., 4., 5., 6., 7., 8., 9.]
    s = create_loop_subdiv(w, k, ro, {'indices': I, 'P': P, 'nlevels': lv})
    t = create_loop_subdiv(w, k, ro, {'indices': I, 'P': P})
    return {'levels': s.nLevels == lv and t.nLevels == 3, 'transforms': s.o2w is w and s.w2o is k and s.ro == ro,
            'sizes': len(s.vertices) == 4 and len(s.faces) == 2,
            'positions': s.vertices[0].P == Point(0., c, 1.) and s.vertices[1].P == Point(2., d, 3.) and s.vertices[2].P == Point(4., 5., 6.) and s.vertices[3].P == Point(7., 8., 9.),
            'faces': s.faces[0].v[0] is s.vertices[0] and s.faces[0].v[1] is s.vertices[1] and s.faces[0].v[2] is s.vertices[2] and s.faces[1].v[0] is s.vertices[2] and s.faces[1].v[1] is s.vertices[1] and s.faces[1].v[2] is s.vertices[3],
            'no points': create_loop_subdiv(w, k, ro, {'indices': I}) is None, 'no faces': create_loop_subdiv(w, k, ro, {'P': P}) is None,
            'odd points': create_loop_subdiv(w, k, ro, {'indices': I, 'P': P + [1.]}) is None, 'odd faces': create_loop_subdiv(w, k, ro, {'indices': I + [0], 'P': P}) is None}

def f_flags(n: int):
    assert n >= 0
    s = LoopSubdiv(Transform(), Transform(), False, 3, 4, [0, 1, 2, 0, 2, 3, 0, 3, 1], [Point(0., 0., 1.), Point(1., 0., 0.), Point(0., 1., 0.), Point(0., 0., 0.)], 1)
    v = s.vertices
    return {'boundary': not v[0].boundary and v[1].boundary and v[2].boundary and v[3].boundary,
            'valence': v[0].valence() == 3 and v[1].valence() == 3 and v[2].valence() == 3, 'ring': len(v[0].one_ring()) == 3 and len(v[1].one_ring()) == 3}
'''


def KW(n):
    return {'replace': {'pytracer.shape.triangle.create_triangle_mesh': '_made'}, 'unroll': 400}


def check(ctx):
    ctx.rule('loop', 'refined meshes carry the published masks')
    ctx.prove_spec('loop', ctx.spec(SPEC, 'p28'), 'pytracer', KW)
