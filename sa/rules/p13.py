"""Reflectance values of the scattering lobes."""
EXPLANATION = '''
Every lobe is summarised for symbolic unit directions and symbolic parameters; its value is compared as a normal form with the
published formula (Lambert, Oren-Nayar, Torrance-Sparrow with Blinn and Ashikhmin-Shirley distributions, Fresnel blend, irregular and
half-angle tables) and with its own value under exchange of the two directions (reciprocity).
'''
LEVEL = 'other'

SPEC = '''
import pytracer.reflection as refl
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.geometry import Vector, normalize
from pytracer.reflection.utility import sin_theta
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect
from pytracer.reflection.bdf.bdf import Lambertian, BRDF2BTDF, ScaledBDF
from pytracer.reflection.bdf.orennayar import OrenNayar
from pytracer.reflection.bdf.torrance import Blinn, Anisotropic, Microfacet
from pytracer.reflection.bdf.fresnelblend import FresnelBlend
from pytracer.geometry import Point
from pytracer.reflection.bdf.measured import ReHalfangleBRDF, IrIsotropicBRDF, IrIsotropicBRDFSample

def _dot(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z

def _half(a, b):
    hx, hy, hz = a.x + b.x, a.y + b.y, a.z + b.z
    l = np.sqrt(hx * hx + hy * hy + hz * hz)
    return Vector(hx / l, hy / l, hz / l)

def f_angles(w: 'Vector'):
    assert 1. - w.z * w.z > 0.
    s = np.sqrt(1. - w.z * w.z)
    return {'cos': refl.cos_theta(w) == w.z, 'abs': refl.abs_cos_theta(w) == abs(w.z), 'sin': sin_theta(w) == s, 'sin_sq': refl.sin_theta_sq(w) == s * s}

def f_azimuth(x: float, y: float):
    assert x * x + y * y < 1. and x * x + y * y > 0.
    w = Vector(x, y, np.sqrt(1. - x * x - y * y))
    s = np.sqrt(x * x + y * y)
    return {'cos': refl.cos_phi(w) * s == x, 'sin': refl.sin_phi(w) * s == y}

def f_azimuth_pole(s: bool):
    w = Vector(0., 0., 1. if s else -1.)
    return refl.cos_phi(w) == 1. and refl.sin_phi(w) == 0.

def f_lambertian(wo: 'Vector', wi: 'Vector', r: 'Spectrum'):
    b = Lambertian(r)
    v = _ch(b.f(wo, wi))
    return {'value': v * np.pi == _ch(r), 'hd': _ch(b.rho_hd(wo, [])) == _ch(r), 'hh': _ch(b.rho_hh(1, [], [])) == _ch(r), 'type': b.type.v == 5}

def f_oren_nayar(wo: 'Vector', wi: 'Vector', r: 'Spectrum', sig: float):
    assert wo.z != 0. and wi.z != 0. and sig > 0. and wo.z * wo.z < 1. and wi.z * wi.z < 1.
    assert _dot(wo, wo) == 1. and _dot(wi, wi) == 1.
    s = np.deg2rad(sig) * np.deg2rad(sig)
    a, b = 1. - s / (2. * (s + .33)), .45 * s / (s + .09)
    si, so = np.sqrt(1. - wi.z * wi.z), np.sqrt(1. - wo.z * wo.z)
    c = max(0., refl.cos_phi(wi) * refl.cos_phi(wo) + refl.sin_phi(wi) * refl.sin_phi(wo)) if si > EPS and so > EPS else 0.
    # alpha = max(theta_i, theta_o), beta = min(...): the smaller cosine has the larger angle
    if abs(wi.z) > abs(wo.z):
        t = so * si / abs(wi.z)
    else:
        t = si * so / abs(wo.z)
    v = _ch(OrenNayar(r, sig).f(wo, wi))
    return {'value': v * np.pi == _ch(r) * (a + b * c * t)}

def f_oren_nayar_cases(r: float):
    # concrete directions: the azimuths agree, differ by a quarter, and are opposite
    b = OrenNayar(Spectrum(r), 30.)
    s = (np.pi / 6.) * (np.pi / 6.)
    c, d = 1. - s / (2. * (s + .33)), .45 * s / (s + .09)
    o = Vector(.6, 0., .8)
    near, far = Vector(.48, .36, .8), Vector(-.6, 0., .8)
    low = Vector(.8, 0., .6)
    v = lambda w, x: _ch(b.f(w, x)) * np.pi
    return {'same': v(o, o) == r * (c + d * .45), 'turned': v(o, near) == r * (c + d * .8 * .45), 'opposite': v(o, far) == r * c,
            'lower_in': v(o, low) == r * (c + d * .6), 'lower_out': v(low, o) == r * (c + d * .6), 'lower_away': v(Vector(-.8, 0., .6), o) == r * c,
            'below': v(Vector(.6, 0., -.8), Vector(.8, 0., -.6)) == r * (c + d * .6)}

def f_oren_nayar_reciprocal(wo: 'Vector', wi: 'Vector', r: 'Spectrum', sig: float):
    assert wo.z != 0. and sig > 0. and abs(wo.z) < abs(wi.z) and 1. - wo.z * wo.z > 0. and 1. - wi.z * wi.z > 0.
    b = OrenNayar(r, sig)
    return _ch(b.f(wo, wi)) == _ch(b.f(wi, wo))

def f_oren_nayar_smooth(wo: 'Vector', wi: 'Vector', r: 'Spectrum'):
    return _ch(OrenNayar(r, 0.).f(wo, wi)) * np.pi == _ch(r)

def f_blinn(w: 'Vector', e: float):
    assert 0. < e and e < 10000.
    return {'value': Blinn(e).D(w) * 2. * np.pi == (e + 2.) * np.power(abs(w.z), e)}

def f_blinn_cap(w: 'Vector'):
    return Blinn(20000.).D(w) == Blinn(10000.).D(w)

def f_blinn_range():
    # exponents up to the cap are kept
    return {'large': Blinn(9000.).D(Vector(.6, 0., .8)) * 2. * np.pi == 9002. * np.power(.8, 9000.), 'capped': Blinn(11000.).D(Vector(.6, 0., .8)) * 2. * np.pi == 10002. * np.power(.8, 10000.),
            'large_x': Anisotropic(9000., 3.).D(Vector(.6, 0., .8)) * 2. * np.pi == np.sqrt(9002. * 5.) * np.power(.8, 9000.),
            'large_y': Anisotropic(3., 9000.).D(Vector(.6, 0., .8)) * 2. * np.pi == np.sqrt(9002. * 5.) * np.power(.8, 3.)}

def f_anisotropic(w: 'Vector', a: float, b: float):
    assert 0. < a and a < 10000. and 0. < b and b < 10000. and 1. - w.z * w.z > 0.
    e = (a * w.x * w.x + b * w.y * w.y) / (1. - w.z * w.z)
    return {'value': Anisotropic(a, b).D(w) * 2. * np.pi == np.sqrt((a + 2.) * (b + 2.)) * np.power(abs(w.z), e)}

def f_anisotropic_axes(a: float, b: float):
    # along x the distribution is the one of exponent a, along y the one of exponent b
    assert 0. < a and a < 10000. and 0. < b and b < 10000.
    d = Anisotropic(a, b)
    n = np.sqrt((a + 2.) * (b + 2.))
    return {'x': d.D(Vector(.6, 0., .8)) * 2. * np.pi == n * np.power(.8, a), 'y': d.D(Vector(0., -.6, .8)) * 2. * np.pi == n * np.power(.8, b)}

def f_microfacet(wo: 'Vector', wi: 'Vector', r: 'Spectrum', e: float):
    assert _dot(wo, wo) == 1. and _dot(wi, wi) == 1. and 0. < e and e < 10000. and wo.z != 0. and wi.z != 0.
    h = _half(wi, wo)
    assert (wi.x + wo.x) * (wi.x + wo.x) + (wi.y + wo.y) * (wi.y + wo.y) + (wi.z + wo.z) * (wi.z + wo.z) > 0.
    fr = FresnelFullReflect()
    d = Blinn(e)
    g = min(1., min(2. * abs(h.z) * abs(wo.z) / abs(_dot(wo, h)), 2. * abs(h.z) * abs(wi.z) / abs(_dot(wo, h))))
    v = _ch(Microfacet(r, fr, d).f(wo, wi))
    return {'value': v * 4. * abs(wi.z) * abs(wo.z) == _ch(r) * d.D(h) * g}

def f_microfacet_fresnel(z: float, r: 'Spectrum', a: float, b: float):
    # mirror pair: the half vector is the normal, the Fresnel term is taken at the angle with it
    assert 0. < z and z < 1. and a > 0. and b > 0. and 1. - z * z > 0.
    s = np.sqrt(1. - z * z)
    fr = FresnelConductor(a, b)
    v = _ch(Microfacet(r, fr, Blinn(3.)).f(Vector(s, 0., z), Vector(-s, 0., z)))
    return {'value': v * 8. * np.pi * z * z == _ch(r) * 5. * fr(z) * min(1., 2.)}

def f_microfacet_reciprocal(h: 'Vector', t: 'Vector', r: 'Spectrum', e: float, c: float, k: float):
    # two directions of equal length are h + q and h - q with q perpendicular to h
    assert 0. < e and e < 10000. and _dot(h, h) > 0. and c > 0. and k > 0.
    q = Vector(h.y * t.z - h.z * t.y, h.z * t.x - h.x * t.z, h.x * t.y - h.y * t.x)
    a, b = Vector(h.x + q.x, h.y + q.y, h.z + q.z), Vector(h.x - q.x, h.y - q.y, h.z - q.z)
    m = Microfacet(r, FresnelConductor(c, k), Blinn(e))
    n = FresnelBlend(r, r, Anisotropic(e, k))
    return {'microfacet': _ch(m.f(a, b)) == _ch(m.f(b, a)), 'blend': _ch(n.f(a, b)) == _ch(n.f(b, a))}

def f_microfacet_degenerate(w: 'Vector', r: 'Spectrum', u: float):
    b = Microfacet(r, FresnelFullReflect(), Blinn(2.))
    return {'opposite': _ch(b.f(w, Vector(-w.x, -w.y, -w.z))) == 0., 'grazing_in': _ch(b.f(w, Vector(1., 0., 0.))) == 0.,
            'grazing_out': _ch(b.f(Vector(0., 1., 0.), w)) == 0.}

def f_microfacet_sides(x: float, y: float, z: float):
    # never negative, whatever the hemispheres
    assert z != 0.
    v = _ch(Microfacet(Spectrum(1.), FresnelFullReflect(), Blinn(2.)).f(Vector(x, y, z), Vector(.6, 0., .8)))
    w = _ch(Microfacet(Spectrum(1.), FresnelFullReflect(), Blinn(2.)).f(Vector(-.6, 0., -.8), Vector(x, y, z)))
    return {'front': v >= 0., 'back': w >= 0.}

def f_fresnel_blend(wo: 'Vector', wi: 'Vector', d: float, s: float, e: float):
    assert _dot(wo, wo) == 1. and _dot(wi, wi) == 1. and 0. < e and e < 10000. and wo.z != 0. and wi.z != 0.
    assert (wi.x + wo.x) * (wi.x + wo.x) + (wi.y + wo.y) * (wi.y + wo.y) + (wi.z + wo.z) * (wi.z + wo.z) > 0.
    h = _half(wi, wo)
    m = Blinn(e)
    c = _dot(wi, h)
    fr = s + np.power(1. - c, 5.) * (1. - s)
    diff = 28. / (23. * np.pi) * d * (1. - s) * (1. - (1. - abs(wi.z) / 2.) ** 5) * (1. - (1. - abs(wo.z) / 2.) ** 5)
    spec = m.D(h) / (4. * abs(c) * max(abs(wi.z), abs(wo.z))) * fr
    return {'value': _ch(FresnelBlend(Spectrum(d), Spectrum(s), m).f(wo, wi)) == diff + spec}

def f_fresnel_blend_case(d: float, s: float):
    wo, wi, e = Vector(.6, 0., .8), Vector(0., .8, .6), 2.
    h = _half(wi, wo)
    b = FresnelBlend(Spectrum(d), Spectrum(s), Blinn(e))
    c = _dot(wi, h)
    diff = 28. / (23. * np.pi) * d * (1. - s) * (1. - .7 ** 5) * (1. - .6 ** 5)
    g = (e + 2.) / (2. * np.pi) * h.z * h.z * (s + (1. - c) ** 5 * (1. - s))
    return {'value': _ch(b.f(wo, wi)) == diff + g / (4. * c * .8), 'swapped': _ch(b.f(wi, wo)) == diff + g / (4. * c * .8)}

def f_fresnel_blend_opposite(w: 'Vector', d: 'Spectrum', s: 'Spectrum'):
    return _ch(FresnelBlend(d, s, Blinn(3.)).f(w, Vector(-w.x, -w.y, -w.z))) == 0.

def f_schlick(c: float, d: float, s: float):
    b = FresnelBlend(Spectrum(d), Spectrum(s), Blinn(3.))
    return {'normal': _ch(b.schlick(1.)) == s, 'grazing': _ch(b.schlick(0.)) == 1.}

def f_adapters(wo: 'Vector', wi: 'Vector', r: 'Spectrum', s: 'Spectrum', sig: float):
    assert wo.z != 0. and wi.z != 0. and sig > 0.
    b = OrenNayar(r, sig)
    t = BRDF2BTDF(b)
    c = ScaledBDF(b, s)
    m = Vector(wi.x, wi.y, -wi.z)
    return {'transmit': _ch(t.f(wo, wi)) == _ch(b.f(wo, m)), 'transmit_type': t.type.v == 6, 'scale': _ch(c.f(wo, wi)) == _ch(s) * _ch(b.f(wo, wi)),
            'scale_type': c.type.v == 5, 'kept': m.z == -wi.z, 'brdf_type': b.type.v == 5}

def f_remap(a: float, b: float, z: float, w: float):
    assert 0. < z and z < 1. and 0. < w and w < 1. and 1. - z * z > 0. and 1. - w * w > 0. and 0. < a and a < 2. * np.pi and 0. < b and b < 2. * np.pi
    s, t = np.sqrt(1. - z * z), np.sqrt(1. - w * w)
    p = refl.brdf_remap(Vector(s * np.cos(a), s * np.sin(a), z), Vector(t * np.cos(b), t * np.sin(b), w))
    return {'sin': p.x == s * t, 'cos': p.z == z * w}

def f_remap_phi(sa: float):
    q = lambda x, y: Vector(x * .6, y * .6, .8)
    a = refl.brdf_remap(q(1., 0.), q(0., 1.))
    b = refl.brdf_remap(q(0., 1.), q(1., 0.))
    c = refl.brdf_remap(q(0., -1.), q(1., 0.))
    d = refl.brdf_remap(q(1., 0.), q(-1., 0.))
    return {'quarter': a.y == .5, 'reciprocal': b.y == .5, 'wrap': c.y == .5, 'half': d.y == 1., 'same': refl.brdf_remap(q(0., 1.), q(0., 1.)).y == 0.}

def f_remap_reciprocal(wo: 'Vector', wi: 'Vector'):
    p, q = refl.brdf_remap(wo, wi), refl.brdf_remap(wi, wo)
    return {'sin': p.x == q.x, 'phi': p.y == q.y, 'cos': p.z == q.z}

def f_half_angle_table(a: float, b: float, c: float, d: float, e: float, f: float, g: float, h: float):
    t = ReHalfangleBRDF([[[a, b], [c, d]], [[e, f], [g, h]]], 2, 2, 2)
    return {'normal': _ch(t.f(Vector(-.224, -.168, .96), Vector(.224, .168, .96))) == a,
            'wide': _ch(t.f(Vector(-.768, -.576, .28), Vector(.768, .576, .28))) == c,
            'side': _ch(t.f(Vector(0., -.28, .96), Vector(0., .28, .96))) == b,
            'back': _ch(t.f(Vector(.768, -.576, .28), Vector(-.768, .576, .28))) == d,
            'normal_swapped': _ch(t.f(Vector(.224, .168, .96), Vector(-.224, -.168, .96))) == a,
            'side_swapped': _ch(t.f(Vector(0., .28, .96), Vector(0., -.28, .96))) == b,
            'tilted': _ch(t.f(Vector(.4416, -.224, .8688), Vector(.7104, .224, .6672))) == e,
            'slanted': _ch(t.f(Vector(.85888, -.168, .48384), Vector(.98432, .168, .05376))) == e}

class Near:
    """stands for the search tree: the indices found within each distance are prescribed"""
    def __init__(self, far):
        self.far, self.at = far, None

    def query_ball_point(self, m, d):
        self.at = m
        return [2, 0, 1] if d > self.far else [0, 1]

class Pick:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, idx):
        return [self.s[i] for i in idx]

def f_irregular(a: Point, b: Point, c: Point, x: float, y: float, z: float):
    assert x > 0. and y > 0. and z > 0.
    wo, wi = Vector(.6, 0., .8), Vector(0., -.6, .8)
    u, v, w = Spectrum.from_rgb([x, 2. * x, 1.]), Spectrum.from_rgb([y, 1., y]), Spectrum.from_rgb([0., z, z])
    m = refl.brdf_remap(wo, wi)
    k = lambda p: np.exp(-100. * ((p.x - m.x) * (p.x - m.x) + (p.y - m.y) * (p.y - m.y) + (p.z - m.z) * (p.z - m.z)))
    t = Near(.015)
    r = IrIsotropicBRDF(t, Pick([IrIsotropicBRDFSample(a, u), IrIsotropicBRDFSample(b, v), IrIsotropicBRDFSample(c, w)])).f(wo, wi)
    e = lambda i: u.c[i] * k(a) + v.c[i] * k(b) + w.c[i] * k(c)
    n = k(a) + k(b) + k(c)
    return {'place': t.at.x == m.x and t.at.y == m.y and t.at.z == m.z, 'value': r.c[0] * n == e(0) and r.c[1] * n == e(1) and r.c[2] * n == e(2)}

def f_irregular_sparse(wo: 'Vector', wi: 'Vector', a: Point, u: float):
    # fewer than three samples in reach: the search widens to the whole parameter cube before settling for them
    assert u >= 0.
    class One:
        def query_ball_point(self, m, d):
            self.d = d
            return [0]
    t = One()
    r = IrIsotropicBRDF(t, Pick([IrIsotropicBRDFSample(a, Spectrum(u))])).f(wo, wi)
    return {'everything': t.d * t.d >= 3., 'value': r.c[0] == u and r.c[1] == u and r.c[2] == u}
'''
KW = {'f_irregular': {'spec_native': False}, 'f_irregular_sparse': {'spec_native': False}}


def check(ctx):
    ctx.rule('reflectance', 'reflectance clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p13')
    ctx.prove_spec('reflectance', mod, 'pytracer/reflection', KW)
