"""Transform algebra."""
EXPLANATION = '''
Each transform factory, inversion, composition and application is summarised by gated value numbering over
exact rational-function normal forms (sin^2+cos^2=1, sqrt(q)^2=q built in); every matrix identity is one
obligation per clause, decided by normal-form equality for all symbolic arguments at once.
'''
LEVEL = 'other'

SPEC = '''
from pytracer.transform import Transform
from pytracer.geometry import Vector, Point, Normal, Ray, RayDifferential, BBox

def _mm(t: 'Transform'):
    return np.array_equal(np.dot(t.m, t.m_inv), np.eye(4, 4))

def _affine(t: 'Transform'):
    return np.array_equal(t.m[3], np.array([0., 0., 0., 1.]))

def _same(p, q):
    return p.x == q.x and p.y == q.y and p.z == q.z

def _unit(a: float, b: float):
    return Vector(np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a))

def f_identity():
    t = Transform()
    return {'m': np.array_equal(t.m, np.eye(4, 4)), 'inv': np.array_equal(t.m_inv, np.eye(4, 4)),
            'is_identity': t.is_identity(), 'no_scale': not t.has_scale(), 'hand': not t.swaps_handedness()}

def f_translate(d: 'Vector', p: 'Point', v: 'Vector'):
    t = Transform.translate(d)
    return {'inverse': _mm(t), 'affine': _affine(t),
            'point': _same(t(p), Point(p.x + d.x, p.y + d.y, p.z + d.z)), 'vector': _same(t(v), v)}

def f_scale(x: float, y: float, z: float, p: 'Point', v: 'Vector'):
    t = Transform.scale(x, y, z)
    return {'inverse': _mm(t), 'affine': _affine(t), 'point': _same(t(p), Point(p.x * x, p.y * y, p.z * z)),
            'vector': _same(t(v), Vector(v.x * x, v.y * y, v.z * z))}

def f_rotate_x(a: float, p: 'Point'):
    t = Transform.rotate_x(a)
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    return {'inverse': _mm(t), 'affine': _affine(t), 'point': _same(t(p), Point(p.x, c * p.y - s * p.z, s * p.y + c * p.z))}

def f_rotate_y(a: float, p: 'Point'):
    t = Transform.rotate_y(a)
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    return {'inverse': _mm(t), 'affine': _affine(t), 'point': _same(t(p), Point(c * p.x + s * p.z, p.y, c * p.z - s * p.x))}

def f_rotate_z(a: float, p: 'Point'):
    t = Transform.rotate_z(a)
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    return {'inverse': _mm(t), 'affine': _affine(t), 'point': _same(t(p), Point(c * p.x - s * p.y, s * p.x + c * p.y, p.z))}

def f_rotate(a: float, th: float, ph: float, q: float, v: 'Vector'):
    r = np.exp(q)
    k = _unit(th, ph)
    t = Transform.rotate(a, Vector(k.x * r, k.y * r, k.z * r))
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    # Rodrigues
    kv = Vector(k.y * v.z - k.z * v.y, k.z * v.x - k.x * v.z, k.x * v.y - k.y * v.x)
    kd = (k.x * v.x + k.y * v.y + k.z * v.z) * (1. - c)
    return {'inverse': _mm(t), 'affine': _affine(t),
            'vector': _same(t(v), Vector(v.x * c + kv.x * s + k.x * kd, v.y * c + kv.y * s + k.y * kd, v.z * c + kv.z * s + k.z * kd))}

def f_look_at(pos: 'Point', a: float, b: float, up: 'Vector'):
    z = _unit(a, b)
    t = Transform.look_at(pos, Point(pos.x + z.x, pos.y + z.y, pos.z + z.z), up)
    o = t(Point(0., 0., 0.))
    d = t(Vector(0., 0., 1.))
    x = t(Vector(1., 0., 0.))
    y = t(Vector(0., 1., 0.))
    assert up.x * up.x + up.y * up.y + up.z * up.z != 0.
    n = Vector(up.y * z.z - up.z * z.y, up.z * z.x - up.x * z.z, up.x * z.y - up.y * z.x)
    assert n.x * n.x + n.y * n.y + n.z * n.z != 0.
    return {'affine': _affine(t), 'eye': _same(o, pos), 'forward': _same(d, z),
            'right_up': x.x * up.x + x.y * up.y + x.z * up.z == 0., 'right_forward': x.x * z.x + x.y * z.y + x.z * z.z == 0.,
            'up_forward': y.x * z.x + y.y * z.y + y.z * z.z == 0., 'up_is_cross': _same(y, Vector(z.y * x.z - z.z * x.y, z.z * x.x - z.x * x.z, z.x * x.y - z.y * x.x))}

def f_look_at_inverse(pos: 'Point', a: float, b: float):
    z = _unit(a, b)
    assert z.z * z.z != 1. and np.sin(a) > 0.
    t = Transform.look_at(pos, Point(pos.x + z.x, pos.y + z.y, pos.z + z.z), Vector(0., 0., 1.))
    return {'inverse': _mm(t)}

def f_orthographic(n: float, f: float, x: float, y: float):
    t = Transform.orthographic(n, f)
    return {'inverse': _mm(t), 'affine': _affine(t), 'near': _same(t(Point(x, y, n)), Point(x, y, 0.)),
            'far': _same(t(Point(x, y, f)), Point(x, y, 1.))}

def f_perspective(fov: float, n: float, f: float, x: float, y: float, z: float):
    t = Transform.perspective(fov, n, f)
    m = t.m
    k = 1. / np.tan(np.deg2rad(fov) / 2.)
    w = m[3, 0] * x + m[3, 1] * y + m[3, 2] * z + m[3, 3]
    zz = m[2, 0] * x + m[2, 1] * y + m[2, 2] * z + m[2, 3]
    return {'w_is_depth': w == z, 'x': m[0, 0] * x + m[0, 1] * y + m[0, 2] * z + m[0, 3] == k * x,
            'y': m[1, 0] * x + m[1, 1] * y + m[1, 2] * z + m[1, 3] == k * y,
            'near_plane': m[2, 2] * n + m[2, 3] == 0., 'far_plane': m[2, 2] * f + m[2, 3] == f,
            'depth_only': m[2, 0] == 0. and m[2, 1] == 0.}

def f_projective(x: float, y: float):
    # a point in front of and behind the plane of unit depth is divided by its own depth
    t = Transform.perspective(90., 1., 5.)
    u = Transform(np.array([[2., 0., 0., 0.], [0., 2., 0., 0.], [0., 0., 2., 0.], [0., 0., 0., 4.]]))
    k = 1. / np.tan(np.deg2rad(90.) / 2.)
    a, b, c, d = t(Point(x, y, 4.)), t(Point(x, y, .5)), t(Point(x, y, -2.)), t(Point(x, y, 1.))
    e = u(Point(x, y, 3.))
    return {'far': a.x * 4. == k * x and a.y * 4. == k * y and a.z == 15. / 16., 'near': b.x == k * 2. * x and b.y == k * 2. * y and b.z == -1.25,
            'behind': c.x * -2. == k * x and c.y * -2. == k * y and c.z == 1.875, 'unit': d.x == k * x and d.y == k * y and d.z == 0.,
            'homogeneous': e.x * 2. == x and e.y * 2. == y and e.z * 2. == 3.}

def f_inverse(t: 'Transform'):
    u = t.inverse()
    return {'m': np.array_equal(u.m, t.m_inv), 'm_inv': np.array_equal(u.m_inv, t.m)}

def f_copy(t: 'Transform'):
    u = t.copy()
    return {'m': np.array_equal(u.m, t.m), 'm_inv': np.array_equal(u.m_inv, t.m_inv)}

def f_compose(t: 'Transform', u: 'Transform'):
    c = t * u
    return {'m': np.array_equal(c.m, np.dot(t.m, u.m)), 'm_inv': np.array_equal(c.m_inv, np.dot(u.m_inv, t.m_inv))}

def f_ctor_pair(t: 'Transform', u: 'Transform'):
    c = Transform(t.m, u.m)
    d = Transform(t.m)
    return {'m': np.array_equal(c.m, t.m), 'm_inv': np.array_equal(c.m_inv, u.m), 'single_m': np.array_equal(d.m, t.m),
            'single_inv': np.array_equal(d.m_inv, np.linalg.inv(t.m))}

def f_eq(t: 'Transform', u: 'Transform'):
    return {'eq_self': t == t.copy(), 'ne_is_not_eq': (t != u) == (not (t == u)), 'eq_is_matrix': (t == u) == np.array_equal(t.m, u.m)}

def f_predicates(t: 'Transform'):
    m = t.m
    det = (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
           + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
    def off(v):
        return v < 1. - EPS or v > 1. + EPS
    sx = m[0, 0] * m[0, 0] + m[0, 1] * m[0, 1] + m[0, 2] * m[0, 2]
    sy = m[1, 0] * m[1, 0] + m[1, 1] * m[1, 1] + m[1, 2] * m[1, 2]
    sz = m[2, 0] * m[2, 0] + m[2, 1] * m[2, 1] + m[2, 2] * m[2, 2]
    return {'handedness': t.swaps_handedness() == (det < 0.), 'has_scale': t.has_scale() == (off(sx) or off(sy) or off(sz)),
            'is_identity': t.is_identity() == np.array_equal(m, np.eye(4, 4))}
'''


def check(ctx):
    ctx.rule('identity', 'matrix identity holds for every argument (exact normal forms)')
    ctx.rule('immutable', 'both stored matrices are private copies frozen with flags.writeable=False on every path of '
                          'the constructor, and no other code writes them')
    mod = ctx.spec(SPEC, 'p01')
    for fn in mod.functions:
        if fn.startswith('f_'):
            ctx.prove('identity', mod, fn, construct='Transform.' + fn[2:], loc='pytracer/transform/__init__.py')
    immutable(ctx)


def immutable(ctx):
    import ast
    from .. import terms as T
    c = ctx.cls('pytracer.transform.Transform')
    init = ctx.func('pytracer.transform.Transform.__init__')
    TR = 'pytracer.transform.Transform'
    for variant, given in (('pair', dict(m=('mat', 4, 4), m_inv=('mat', 4, 4))), ('single', dict(m=('mat', 4, 4), m_inv=T.NONE)),
                           ('none', dict(m=T.NONE, m_inv=T.NONE))):
        e = ctx.engine()
        s = e.run(init, given=given, selfcls=c)
        h = s.st.heap['self']
        frozen = {}
        for ev in e.events:
            if ev.kind == 'write' and isinstance(ev.data[0], T.Fn) and ev.data[0].kind == 'arrflags' and ev.data[1] == 'writeable':
                sid = ev.data[0].a.sid
                frozen[sid] = (ev.data[2] is T.FALSE) and T.band(s.ok, T.bnot(ev.pc)) is T.FALSE
        for f in ('_Transform__m', '_Transform__m_inv'):
            v = h.f.get(f)
            for lf, g in (T.guarded_leaves(v) if v is not None else []):
                if T.unsat(T.band(g, s.ok)):
                    continue
                own = isinstance(lf, T.ARef) and lf.sid not in ('m', 'm_inv')
                ctx.ob('immutable', 'Transform.__init__[%s].%s.private' % (variant, f.strip('_').split('__')[-1]),
                       own if isinstance(lf, T.ARef) else None, 'stored matrix aliases the argument', init.loc())
                fz = isinstance(lf, T.ARef) and frozen.get(lf.sid, False)
                ctx.ob('immutable', 'Transform.__init__[%s].%s.frozen' % (variant, f.strip('_').split('__')[-1]),
                       fz if isinstance(lf, T.ARef) else None, 'stored matrix stays writeable', init.loc())
    # no other method rebinds or unfreezes
    for f in ctx.p.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'writeable':
                if f.cls is c and f.name != '__init__':
                    ctx.ob('immutable', '%s.writeable' % f.qual, False, 'matrix protection changed outside the constructor', f.loc(n))
    for f in c.all_defs:
        if f.name == '__init__':
            continue
        w = [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
             and n.attr in ('__m', '__m_inv', 'm', 'm_inv')]
        ctx.ob('immutable', 'Transform.%s.no_rebind' % f.name, not w, 'stored matrix rebound after construction', f.loc())
