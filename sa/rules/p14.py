"""Densities of sampled scattering directions."""
EXPLANATION = '''
The sampling method of every lobe is summarised for symbolic random numbers: the returned density must be the one pdf() reports for
that pair of directions, the returned value must be f(), and the symbolic Jacobian of the sampled direction times the density must be
one. The half-vector samplings are checked as mirror reflections about the sampled half vector.
'''
LEVEL = 'other'

SPEC = '''
import pytracer.reflection as refl
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.geometry import Vector, normalize
from pytracer.reflection.fresnel import FresnelFullReflect
from pytracer.reflection.bdf.bdf import Lambertian, BRDF2BTDF, ScaledBDF, SpecularReflection, SpecularTransmission, BDF, BDFType
from pytracer.reflection.bdf.orennayar import OrenNayar
from pytracer.reflection.bdf.torrance import Blinn, Anisotropic, Microfacet
from pytracer.reflection.bdf.fresnelblend import FresnelBlend

class Probe(BDF):
    """a lobe of which only the contract is known"""
    def __init__(self, p, w, v):
        super().__init__(BDFType(BDFType.REFLECTION | BDFType.GLOSSY))
        self.p, self.w, self.v = p, w, v

    def f(self, wo, wi):
        return self.v * wi.z * (wo.x + 2.)

    def pdf(self, wo, wi):
        return self.p * wi.z * (wo.y + 3.)

    def sample_f(self, wo, u1, u2):
        return [self.pdf(wo, self.w), self.w, self.f(wo, self.w)]

def _jac2(w, u1, u2):
    ax, ay, az = _D(w.x, u1), _D(w.y, u1), _D(w.z, u1)
    bx, by, bz = _D(w.x, u2), _D(w.y, u2), _D(w.z, u2)
    cx, cy, cz = ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx
    return cx * cx + cy * cy + cz * cz

def _dot(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z

def f_cosine(wo: 'Vector', r: 'Spectrum', u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1. and u1 + u2 > 1. and u1 > u2 and wo.z != 0.
    b = Lambertian(r)
    p, w, f = b.sample_f(wo, u1, u2)
    assert w.z != 0.
    return {'density': p == b.pdf(wo, w), 'value': _ch(f) == _ch(b.f(wo, w)), 'side': w.z * wo.z >= 0., 'unit': _dot(w, w) == 1.,
            'uniform': _jac2(w, u1, u2) * p * p == 1., 'kind': isinstance(w, Vector)}

def f_cosine_pdf(wo: 'Vector', wi: 'Vector', r: 'Spectrum', sig: float):
    b, c = Lambertian(r), OrenNayar(r, sig)
    v = abs(wi.z) / np.pi if wo.z * wi.z > 0. else 0.
    return {'lambert': b.pdf(wo, wi) == v, 'oren_nayar': c.pdf(wo, wi) == v}

def f_oren_nayar_sample(wo: 'Vector', r: 'Spectrum', u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1. and u1 + u2 > 1. and u1 > u2 and wo.z != 0.
    b = OrenNayar(r, 20.)
    p, w, f = b.sample_f(wo, u1, u2)
    return {'density': p == b.pdf(wo, w), 'value': _ch(f) == _ch(b.f(wo, w))}

def f_blinn_pdf(wo: 'Vector', wi: 'Vector', e: float):
    assert 0. < e and e < 10000.
    hx, hy, hz = wo.x + wi.x, wo.y + wi.y, wo.z + wi.z
    assert hx * hx + hy * hy + hz * hz > 0.
    l = np.sqrt(hx * hx + hy * hy + hz * hz)
    c = (wo.x * hx + wo.y * hy + wo.z * hz) / l
    p = Blinn(e).pdf(wo, wi)
    if c <= 0.:
        return {'behind': p == 0.}
    return {'value': p * 8. * np.pi * c == (e + 1.) * np.power(abs(hz) / l, e)}

def f_blinn_sample(e: float, u1: float, u2: float):
    # viewed along the normal
    assert 0. < e and e < 10000. and 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    wo = Vector(0., 0., 1.)
    c = np.power(u1, 1. / (e + 1.))
    assert 0. < c and c < 1. and 1. - c * c > 0.     # implied
    p, w = Blinn(e).sample_f(wo, u1, u2)
    s = np.sqrt(1. - c * c)
    return {'direction': w.z == 2. * c * c - 1. and w.x == 2. * c * s * np.cos(2. * np.pi * u2) and w.y == 2. * c * s * np.sin(2. * np.pi * u2),
            'density': p * 8. * np.pi * c == (e + 1.) * np.power(c, e)}

def f_blinn_mirror(wo: 'Vector', u1: float, u2: float):
    # exponent 1: the half vector is (s cos, s sin, sqrt(u1))
    assert 0. < u1 and u1 < 1. and _dot(wo, wo) == 1. and wo.z > 0.
    h = Vector(np.sqrt(1. - u1) * np.cos(2. * np.pi * u2), np.sqrt(1. - u1) * np.sin(2. * np.pi * u2), np.sqrt(u1))
    p, w = Blinn(1.).sample_f(wo, u1, u2)
    k = _dot(wo, h)
    return {'direction': w.x == 2. * k * h.x - wo.x and w.y == 2. * k * h.y - wo.y and w.z == 2. * k * h.z - wo.z,
            'density': (p == 0.) if k <= 0. else (p * 4. * np.pi * k == np.sqrt(u1)), 'wo_kept': _dot(wo, wo) == 1.}

def f_blinn_flip(wo: 'Vector', u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and _dot(wo, wo) == 1. and wo.z < 0.
    h = Vector(-np.sqrt(1. - u1) * np.cos(2. * np.pi * u2), -np.sqrt(1. - u1) * np.sin(2. * np.pi * u2), -np.sqrt(u1))
    p, w = Blinn(1.).sample_f(wo, u1, u2)
    k = _dot(wo, h)
    return {'direction': w.x == 2. * k * h.x - wo.x and w.y == 2. * k * h.y - wo.y and w.z == 2. * k * h.z - wo.z,
            'density': (p == 0.) if k <= 0. else (p * 4. * np.pi * k == np.sqrt(u1))}

def f_blinn_behind():
    # the mirrored half vector lies behind a grazing viewer: no density
    p, w = Blinn(1.).sample_f(Vector(.96, 0., .28), .0784, .5)
    return {'none': p == 0.}

def f_blinn_jacobian(u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    p, w = Blinn(1.).sample_f(Vector(0., 0., 1.), u1, u2)
    return {'jacobian': _jac2(w, u1, u2) * p * p == 1.}

def _aniso(wo, x, y, a, b):
    # half vector (x, y, z), seen from wo
    z = np.sqrt(1. - x * x - y * y)
    k = wo.x * x + wo.y * y + wo.z * z
    assert k != 0.
    p = Anisotropic(a, b).pdf(wo, Vector(2. * k * x - wo.x, 2. * k * y - wo.y, 2. * k * z - wo.z))
    return p * 8. * np.pi * abs(k) == np.sqrt((a + 1.) * (b + 1.)) * np.power(z, (a * x * x + b * y * y) / (x * x + y * y))

def f_anisotropic_pdf(x: float, y: float, a: float, b: float):
    assert 0. < a and a < 10000. and 0. < b and b < 10000. and x * x + y * y > 0. and 1. - x * x - y * y > 0.
    return {'value': _aniso(Vector(0., 0., 1.), x, y, a, b)}

def f_anisotropic_pdf_tilted(x: float, y: float, a: float, b: float):
    assert 0. < a and a < 10000. and 0. < b and b < 10000. and x * x + y * y > 0. and 1. - x * x - y * y > 0.
    return {'value': _aniso(Vector(.6, 0., .8), x, y, a, b)}



def _iso(u1, u2, phi):
    # equal exponents 1: cos(theta) is sqrt(u2)
    p, w = Anisotropic(1., 1.).sample_f(Vector(0., 0., 1.), u1, u2)
    c, s = np.sqrt(u2), np.sqrt(1. - u2)
    return {'direction': w.x == 2. * c * s * np.cos(phi) and w.y == 2. * c * s * np.sin(phi) and w.z == 2. * c * c - 1.,
            'density': p * 4. * np.pi == 1.}

def f_anisotropic_q1(u1: float, u2: float):
    assert 0. < u1 and u1 < .25 and 0. < u2 and u2 < 1.
    return _iso(u1, u2, 2. * np.pi * u1)

def f_anisotropic_q2(u1: float, u2: float):
    assert .25 < u1 and u1 < .5 and 0. < u2 and u2 < 1.
    return _iso(u1, u2, 2. * np.pi * u1)

def f_anisotropic_q3(u1: float, u2: float):
    assert .5 < u1 and u1 < .75 and 0. < u2 and u2 < 1.
    return _iso(u1, u2, 2. * np.pi * u1)

def f_anisotropic_q4(u1: float, u2: float):
    assert .75 < u1 and u1 < 1. and 0. < u2 and u2 < 1.
    return _iso(u1, u2, 2. * np.pi * u1)

def f_anisotropic_warp(a: float, b: float, u1: float, u2: float):
    # the azimuth follows the exponents: tan(phi) = sqrt((a+1)/(b+1)) tan(2 pi u1)
    assert 0. < a and a < b and b < 10000. and 0. < u1 and u1 < .25 and 0. < u2 and u2 < 1.
    t = np.sqrt((a + 1.) / (b + 1.)) * np.tan(2. * np.pi * u1)
    p, w = Anisotropic(a, b).sample_f(Vector(0., 0., 1.), u1, u2)
    return {'azimuth': w.y == t * w.x}

def f_anisotropic_mirror(wo: 'Vector', u1: float, u2: float):
    assert 0. < u1 and u1 < .25 and 0. < u2 and u2 < 1. and _dot(wo, wo) == 1. and wo.z < 0.
    h = Vector(-np.sqrt(1. - u2) * np.cos(2. * np.pi * u1), -np.sqrt(1. - u2) * np.sin(2. * np.pi * u1), -np.sqrt(u2))
    p, w = Anisotropic(1., 1.).sample_f(wo, u1, u2)
    k = _dot(wo, h)
    return {'direction': w.x == 2. * k * h.x - wo.x and w.y == 2. * k * h.y - wo.y and w.z == 2. * k * h.z - wo.z,
            'density': (p == 0.) if k <= 0. else (p * 4. * np.pi * k == np.sqrt(u2))}

def f_microfacet(wo: 'Vector', r: 'Spectrum', u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and _dot(wo, wo) == 1. and wo.z > 0.
    b = Microfacet(r, FresnelFullReflect(), Blinn(1.))
    p, w, f = b.sample_f(wo, u1, u2)
    q, v = b.distribution.sample_f(wo, u1, u2)
    if w.z * wo.z <= 0.:
        return {'below_value': _ch(f) == 0., 'below_pdf': b.pdf(wo, w) == 0.}
    return {'density': p == q, 'direction': w.x == v.x and w.y == v.y and w.z == v.z, 'value': _ch(f) == _ch(b.f(wo, w))}

def f_microfacet_pdf(wo: 'Vector', wi: 'Vector', r: 'Spectrum', e: float):
    d = Blinn(e)
    b = Microfacet(r, FresnelFullReflect(), d)
    return {'value': b.pdf(wo, wi) == (d.pdf(wo, wi) if wo.z * wi.z > 0. else 0.)}

def f_blend_pdf(wo: 'Vector', wi: 'Vector', r: 'Spectrum', e: float):
    d = Blinn(e)
    b = FresnelBlend(r, r, d)
    return {'value': b.pdf(wo, wi) == ((abs(wi.z) / np.pi + d.pdf(wo, wi)) / 2. if wo.z * wi.z > 0. else 0.)}

def f_blend_diffuse(wo: 'Vector', d: 'Spectrum', s: 'Spectrum', u1: float, u2: float):
    assert 0. < u1 and u1 < .5 and 0. < u2 and u2 < 1. and 2. * u1 + u2 > 1. and 2. * u1 > u2 and wo.z != 0.
    b = FresnelBlend(d, s, Blinn(1.))
    p, w, f = b.sample_f(wo, u1, u2)
    _, v, _ = Lambertian(d).sample_f(wo, 2. * u1, u2)
    return {'direction': w.x == v.x and w.y == v.y and w.z == v.z, 'density': p == b.pdf(wo, w), 'value': _ch(f) == _ch(b.f(wo, w))}

def f_blend_glossy(wo: 'Vector', d: 'Spectrum', s: 'Spectrum', u1: float, u2: float):
    assert .5 < u1 and u1 < 1. and 0. < u2 and u2 < 1. and _dot(wo, wo) == 1. and wo.z > 0.
    b = FresnelBlend(d, s, Blinn(1.))
    p, w, f = b.sample_f(wo, u1, u2)
    _, v = Blinn(1.).sample_f(wo, 2. * u1 - 1., u2)
    same = w.x == v.x and w.y == v.y and w.z == v.z
    if w.z * wo.z <= 0.:
        return {'below': _ch(f) == 0., 'below_direction': same}
    return {'direction': same, 'density': p == b.pdf(wo, w), 'value': _ch(f) == _ch(b.f(wo, w))}

def f_transmitted(wo: 'Vector', w: 'Vector', p: float, v: 'Spectrum', u1: float, u2: float):
    assert wo.z != 0. and w.z != 0.
    t = BRDF2BTDF(Probe(p, w, v))
    q, wi, f = t.sample_f(wo, u1, u2)
    return {'direction': wi.x == w.x and wi.y == w.y and wi.z == -w.z, 'density': q == t.pdf(wo, wi), 'value': _ch(f) == _ch(t.f(wo, wi)),
            'forwarded': q == p * w.z * (wo.y + 3.)}

def f_scaled(wo: 'Vector', wi: 'Vector', w: 'Vector', p: float, v: 'Spectrum', s: 'Spectrum', u1: float, u2: float):
    b = Probe(p, w, v)
    c = ScaledBDF(b, s)
    q, x, f = c.sample_f(wo, u1, u2)
    assert q != 0.
    return {'direction': x.x == w.x and x.y == w.y and x.z == w.z, 'density': q == c.pdf(wo, x), 'pdf': c.pdf(wo, wi) == b.pdf(wo, wi),
            'value': _ch(f) == _ch(s) * _ch(b.f(wo, x))}

def f_rho(w: 'Vector', p: float, v: 'Spectrum', a: 'Vector'):
    # one-sample estimates of the reflectance
    assert p * w.z * (a.y + 3.) > 0. and w.z > 0. and p > 0.
    b = Probe(p, w, v)
    q, x, f = b.sample_f(a, .25, .75)
    return {'hd': _ch(b.rho_hd(a, [[.25, .75], [.5, .5]])) * q == _ch(f) * w.z}

def f_rho_adapted(w: 'Vector', p: float, v: 'Spectrum', a: 'Vector', s: 'Spectrum'):
    # turning to the other side keeps the reflectance, scaling scales it
    assert p * w.z * (a.y + 3.) > 0. and w.z > 0. and p > 0.
    b = Probe(p, w, v)
    xs = [[.25, .75], [.5, .5]]
    r, q = _ch(b.rho_hd(a, xs)), _ch(b.rho_hh(1, xs, xs))
    t, c = BRDF2BTDF(b), ScaledBDF(b, s)
    return {'turned': _ch(t.rho_hd(a, xs)) == r, 'turned both': _ch(t.rho_hh(1, xs, xs)) == q, 'scaled': _ch(c.rho_hd(a, xs)) == _ch(s) * r, 'scaled both': _ch(c.rho_hh(1, xs, xs)) == _ch(s) * q,
            'sides': t.type.v == 10 and c.type.v == b.type.v}

def f_rho_hh(w: 'Vector', p: float, v: 'Spectrum', u1: float, u2: float):
    assert 0. < u1 and u1 < 1. and w.z > 0. and p > 0.
    b = Probe(p, w, v)
    o = Vector(np.sqrt(1. - u1 * u1) * np.cos(2. * np.pi * u2), np.sqrt(1. - u1 * u1) * np.sin(2. * np.pi * u2), u1)
    assert o.y + 3. > 0.     # implied: o is a unit vector
    q, x, f = b.sample_f(o, .25, .75)
    return {'value': _ch(b.rho_hh(1, [[u1, u2]], [[.25, .75]])) * q == _ch(f) * w.z * u1 * 2.}
'''
KW = {}


def check(ctx):
    ctx.rule('lobe_sampling', 'lobe-sampling clause holds for every argument (exact normal forms, symbolic Jacobians)')
    mod = ctx.spec(SPEC, 'p14')
    ctx.prove_spec('lobe_sampling', mod, 'pytracer/reflection', KW)
