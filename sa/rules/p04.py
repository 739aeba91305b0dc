"""Vector algebra and local frames."""
EXPLANATION = '''
The vector, point and normal classes and the frame / spherical helpers are summarised over symbolic components; algebraic
laws (orthonormality, orthogonality, inverse pairs, type of mixed point/vector arithmetic, unmodified arguments) are one
obligation per clause over exact normal forms.
'''
LEVEL = 'other'

SPEC = '''
from pytracer.geometry import Vector, Point, Normal
from pytracer.geometry import coordinate_system, normalize, face_forward, spherical_direction, spherical_theta, spherical_phi

def _same(p, q):
    return p.x == q.x and p.y == q.y and p.z == q.z

def _d(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z

def _unit(a, b):
    return Vector(np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a))

def f_vector(x: float, y: float, z: float):
    v = Vector(x, y, z)
    w = Vector.from_arr(v)
    return {'components': v.x == x and v.y == y and v.z == z and v[0] == x and v[1] == y and v[2] == z,
            'from_arr': isinstance(w, Vector) and _same(v, w), 'default': _same(Vector(), Vector(0., 0., 0.))}

def f_point(x: float, y: float, z: float):
    v = Point(x, y, z)
    w = Point.from_arr(v)
    return {'components': v.x == x and v.y == y and v.z == z and v[0] == x and v[1] == y and v[2] == z,
            'from_arr': isinstance(w, Point) and _same(v, w), 'default': _same(Point(), Point(0., 0., 0.))}

def f_normal(x: float, y: float, z: float):
    v = Normal(x, y, z)
    w = Normal.from_arr(v)
    return {'components': v.x == x and v.y == y and v.z == z and v[0] == x and v[1] == y and v[2] == z,
            'from_arr': isinstance(w, Normal) and _same(v, w), 'default': _same(Normal(), Normal(0., 0., 0.))}

def f_from_arr_copies(v: 'Vector', p: 'Point', n: 'Normal'):
    a, b, c = Vector.from_arr(v), Point.from_arr(p), Normal.from_arr(n)
    x, y, z = v.x, p.x, n.x
    a.x = 9.
    b.x = 9.
    c.x = 9.
    return v.x == x and p.x == y and n.x == z

def f_setters(v: 'Vector', p: 'Point', n: 'Normal', x: float, y: float, z: float):
    v.x = x
    v.y = y
    v.z = z
    p.x = x
    p.y = y
    p.z = z
    n.x = x
    n.y = y
    n.z = z
    return {'vector': _same(v, Vector(x, y, z)), 'point': _same(p, Point(x, y, z)), 'normal': _same(n, Normal(x, y, z))}

def f_eq(v: 'Vector', w: 'Vector', p: 'Point', q: 'Point', n: 'Normal', m: 'Normal'):
    return {'vector': (v == w) == _same(v, w) and (v != w) == (not _same(v, w)),
            'point': (p == q) == _same(p, q) and (p != q) == (not _same(p, q)),
            'normal': (n == m) == _same(n, m) and (n != m) == (not _same(n, m))}

def f_length(v: 'Vector', p: 'Point', n: 'Normal'):
    return {'vector': v.sq_length() == _d(v, v) and v.length() == np.sqrt(_d(v, v)),
            'point': p.sq_length() == _d(p, p) and p.length() == np.sqrt(_d(p, p)),
            'normal': n.sq_length() == _d(n, n) and n.length() == np.sqrt(_d(n, n))}

def f_distance(p: 'Point', q: 'Point'):
    e = (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) + (p.z - q.z) * (p.z - q.z)
    return {'squared': p.sq_dist(q) == e, 'dist': p.dist(q) == np.sqrt(e), 'symmetric': p.dist(q) == q.dist(p), 'self': p.dist(p) == 0.}

def f_abs_dot(v: 'Vector', w: 'Vector', n: 'Normal'):
    return {'vector': v.abs_dot(w) == np.fabs(_d(v, w)), 'normal': n.abs_dot(w) == np.fabs(_d(n, w)), 'symmetric': v.abs_dot(w) == w.abs_dot(v)}

def f_cross(v: 'Vector', w: 'Vector', n: 'Normal'):
    c = v.cross(w)
    e = w.cross(v)
    k = n.cross(w)
    return {'orthogonal': _d(c, v) == 0. and _d(c, w) == 0., 'antisymmetric': c.x == -e.x and c.y == -e.y and c.z == -e.z,
            'length': _d(c, c) == _d(v, v) * _d(w, w) - _d(v, w) * _d(v, w), 'kind': isinstance(c, Vector),
            'orientation': Vector(1., 0., 0.).cross(Vector(0., 1., 0.)).z == 1.,
            'normal_orthogonal': _d(k, n) == 0. and _d(k, w) == 0., 'normal_orientation': Normal(1., 0., 0.).cross(Vector(0., 1., 0.)).z == 1.}

def f_normalize_method(v: 'Vector', n: 'Normal'):
    assert _d(v, v) != 0. and _d(n, n) != 0.
    v0, n0 = v.copy(), n.copy()
    r = v.normalize()
    n.normalize()
    a, b = np.sqrt(_d(v0, v0)), np.sqrt(_d(n0, n0))
    return {'vector': _same(v, Vector(v0.x / a, v0.y / a, v0.z / a)), 'normal': _same(n, Normal(n0.x / b, n0.y / b, n0.z / b)), 'in_place': r is v}

def f_normalize_zero():
    return {'vector': _same(Vector(0., 0., 0.).normalize(), Vector(0., 0., 0.)), 'normal': _same(Normal(0., 0., 0.).normalize(), Vector(0., 0., 0.)),
            'function': _same(normalize(Vector(0., 0., 0.)), Vector(0., 0., 0.))}

def f_normalize(v: 'Vector', n: 'Normal'):
    assert _d(v, v) != 0. and _d(n, n) != 0.
    v0, n0 = v.copy(), n.copy()
    r, s = normalize(v), normalize(n)
    a, b = np.sqrt(_d(v0, v0)), np.sqrt(_d(n0, n0))
    return {'vector': _same(r, Vector(v0.x / a, v0.y / a, v0.z / a)), 'normal': _same(s, Normal(n0.x / b, n0.y / b, n0.z / b)),
            'argument_unmodified': _same(v, v0) and _same(n, n0), 'kinds': isinstance(r, Vector) and isinstance(s, Normal)}

def f_point_arithmetic(p: 'Point', q: 'Point', v: 'Vector'):
    a, b, c = p - q, p - v, p + v
    return {'difference': isinstance(a, Vector) and a.x == p.x - q.x and a.y == p.y - q.y and a.z == p.z - q.z,
            'offset_back': isinstance(b, Point) and b.x == p.x - v.x and b.y == p.y - v.y and b.z == p.z - v.z,
            'offset': isinstance(c, Point) and c.x == p.x + v.x and c.y == p.y + v.y and c.z == p.z + v.z}

def f_point_isub(p: 'Point', q: 'Point'):
    try:
        p -= q
    except TypeError:
        return True
    return False

def f_coordinate_system(a: float, b: float):
    v = _unit(a, b)
    x, y, z = coordinate_system(v)
    c = Vector(x.y * y.z - x.z * y.y, x.z * y.x - x.x * y.z, x.x * y.y - x.y * y.x)
    return {'first_is_input': _same(x, v), 'orthogonal': _d(x, y) == 0. and _d(x, z) == 0. and _d(y, z) == 0.,
            'unit': _d(y, y) == 1. and _d(z, z) == 1., 'orientation': _same(z, c)}

def f_coordinate_system_axes():
    out = {}
    for nm, v in (('+x', Vector(1., 0., 0.)), ('-x', Vector(-1., 0., 0.)), ('+y', Vector(0., 1., 0.)), ('-y', Vector(0., -1., 0.)),
                  ('+z', Vector(0., 0., 1.)), ('-z', Vector(0., 0., -1.))):
        x, y, z = coordinate_system(v)
        out[nm] = _d(y, y) == 1. and _d(z, z) == 1. and _d(x, y) == 0. and _d(x, z) == 0. and _d(y, z) == 0.
    return out

def f_face_forward(n: 'Normal', v: 'Vector'):
    n0 = n.copy()
    r = face_forward(n, v)
    return {'same_side': _d(r, v) >= 0., 'plus_or_minus': _same(r, n0) or (r.x == -n0.x and r.y == -n0.y and r.z == -n0.z),
            'argument_unmodified': _same(n, n0), 'kind': isinstance(r, Normal)}

def f_spherical_direction(t: float, p: float, x: 'Vector', y: 'Vector', z: 'Vector'):
    v = spherical_direction(np.sin(t), np.cos(t), p)
    w = spherical_direction(np.sin(t), np.cos(t), p, x, y, z)
    return {'unit': _d(v, v) == 1., 'value': _same(v, _unit(t, p)),
            'basis': _same(w, Vector(v.x * x.x + v.y * y.x + v.z * z.x, v.x * x.y + v.y * y.y + v.z * z.y, v.x * x.z + v.y * y.z + v.z * z.z))}

def f_spherical_angles(c: float, p: float, k: float):
    assert -1. <= c and c <= 1.
    v = spherical_direction(np.sqrt(1. - c * c), c, p)
    w = Vector(np.exp(k) * np.cos(p), np.exp(k) * np.sin(p), c)
    ph = spherical_phi(w)
    at = np.arctan2(w.y, w.x)
    return {'theta': np.cos(spherical_theta(v)) == c, 'phi_positive_branch': ph == at or at <= 0., 'phi_negative_branch': ph == at + 2. * np.pi or at > 0.}
'''
KW = {}


def check(ctx):
    ctx.rule('vector', 'vector / frame law holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p04')
    ctx.prove_spec('vector', mod, 'pytracer/geometry', KW)
