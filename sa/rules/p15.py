"""Fresnel terms and perfectly specular lobes."""
EXPLANATION = '''
fr_diel, fr_cond, the Fresnel classes and the two specular lobes are summarised for symbolic cosines, indices and directions and
compared as normal forms with the Fresnel equations, Snell's law and the mirror direction. Range and symmetry clauses are closed by
field arithmetic.
'''
LEVEL = 'other'

SPEC = '''
import pytracer.reflection as refl
from pytracer import Spectrum
from pytracer.geometry import Vector
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect
from pytracer.reflection.bdf.bdf import SpecularReflection, SpecularTransmission, BDFType

def _diel(ci, ct, ei, et):
    a = (et * ci - ei * ct) / (et * ci + ei * ct)
    b = (ei * ci - et * ct) / (ei * ci + et * ct)
    return (a * a + b * b) / 2.

def f_dielectric_equations(ci: float, ct: float, ei: float, et: float):
    assert ci > 0. and ct > 0. and ei > 0. and et > 0.
    r = refl.fr_diel(ci, ct, ei, et)
    return {'value': r == _diel(ci, ct, ei, et), 'symmetric': r == refl.fr_diel(ct, ci, et, ei)}

def f_dielectric_range(ci: float, ct: float, ei: float, et: float):
    assert ci > 0. and ct > 0. and ei > 0. and et > 0.
    r = refl.fr_diel(ci, ct, ei, et)
    return {'low': r >= 0., 'high': r <= 1.}

def f_dielectric_normal(ei: float, et: float):
    assert ei > 0. and et > 0.
    return {'value': refl.fr_diel(1., 1., ei, et) == (ei - et) * (ei - et) / ((ei + et) * (ei + et)), 'matched': refl.fr_diel(1., 1., ei, ei) == 0.}

def f_dielectric_grazing(ct: float, ei: float, et: float):
    assert ct > 0. and ei > 0. and et > 0.
    return refl.fr_diel(0., ct, ei, et) == 1.

def f_conductor_equations(ci: float, e: float, k: float):
    assert 0. < ci and ci <= 1. and e > 0. and k > 0.
    s = e * e + k * k
    a = (s * ci * ci - 2. * e * ci + 1.) / (s * ci * ci + 2. * e * ci + 1.)
    b = (s - 2. * e * ci + ci * ci) / (s + 2. * e * ci + ci * ci)
    r = refl.fr_cond(ci, e, k)
    return {'value': r == (a + b) / 2., 'high': r <= 1., 'class': FresnelConductor(e, k)(-ci) == r and FresnelConductor(e, k)(ci) == r}

def f_class_total(c: float, k: float, ei: float):
    # k: sine of the refraction angle by Snell's law, at or beyond one
    assert 0. < c and c < 1. and ei > 0. and k >= 1.
    et = ei * np.sqrt(1. - c * c) / k
    return {'outside': FresnelDielectric(ei, et)(c) == 1., 'inside': FresnelDielectric(et, ei)(-c) == 1.}

def f_class_outside(c: float, t: float, ei: float):
    # indices in the ratio that refracts the cosine c into the cosine t
    assert 0. < c and c < 1. and ei > 0. and 0. < t and t < 1.
    et = ei * np.sqrt(1. - c * c) / np.sqrt(1. - t * t)
    return {'value': FresnelDielectric(ei, et)(c) == _diel(c, t, ei, et)}

def f_class_inside(c: float, t: float, ei: float):
    assert 0. < c and c < 1. and ei > 0. and 0. < t and t < 1.
    et = ei * np.sqrt(1. - c * c) / np.sqrt(1. - t * t)
    return {'value': FresnelDielectric(et, ei)(-c) == _diel(c, t, ei, et)}

def f_class_ends(ei: float, et: float):
    assert ei > 0. and et > 0.
    n = (ei - et) * (ei - et) / ((ei + et) * (ei + et))
    f = FresnelDielectric(ei, et)
    return {'outside': f(1.) == n, 'inside': f(-1.) == n, 'beyond': f(1.5) == n}

def f_full():
    return _ch(FresnelFullReflect()(.5)) == 1.

def f_mirror(x: float, y: float, z: float, r: float, ei: float, et: float, u1: float, u2: float):
    assert z != 0. and ei > 0. and et > 0. and x * x + y * y + z * z == 1.
    wo = Vector(x, y, z)
    fr = FresnelDielectric(ei, et)
    b = SpecularReflection(Spectrum(r), fr)
    p, w, f = b.sample_f(wo, u1, u2)
    return {'density': p == 1., 'direction': w.x == -x and w.y == -y and w.z == z, 'kind': isinstance(w, Vector),
            'value': _ch(f) * abs(z) == fr(z) * r, 'wo_kept': wo.x == x and wo.y == y and wo.z == z}

def f_mirror_cases(r: float):
    # from outside, from inside, and beyond the critical angle
    fr = FresnelDielectric(1., 1.5)
    b = SpecularReflection(Spectrum(r), fr)
    v = lambda w: _ch(b.sample_f(w, .5, .5)[2])
    i = 1. - .4 * .4
    t = np.sqrt(1. - .81)
    return {'outside': v(Vector(.6, 0., .8)) * .8 == r * _diel(.8, np.sqrt(.84), 1., 1.5), 'inside': v(Vector(.6, 0., -.8)) * .8 == r * _diel(.8, t, 1.5, 1.),
            'total': v(Vector(.8, 0., -.6)) * .6 == r}

def f_glass_grazing():
    # just below the surface: the optically denser side decides
    assert .00001 < EPS and EPS < .0001
    w = Vector(np.sqrt(1. - .000001 * .000001), 0., -.000001)
    p, wi, f = SpecularTransmission(Spectrum(1.), 1., 1.5).sample_f(w, .5, .5)
    return {'total': p == 0.}

def f_glass_cases(t: float):
    b = SpecularTransmission(Spectrum(t), 1., 1.5)
    p, w, f = b.sample_f(Vector(.6, 0., .8), .5, .5)
    q, v, g = b.sample_f(Vector(.4, 0., -np.sqrt(.84)), .5, .5)
    return {'into_x': w.x == -.4 and w.y == 0., 'into_z': w.z == -np.sqrt(.84), 'into': _ch(f) * np.sqrt(.84) * 2.25 == (1. - _diel(.8, np.sqrt(.84), 1., 1.5)) * t,
            'out_x': v.x == -.6 and v.y == 0., 'out_z': v.z == .8, 'out': _ch(g) * .8 == 2.25 * (1. - _diel(np.sqrt(.84), .8, 1.5, 1.)) * t}

def f_delta(a: 'Vector', b: 'Vector', r: float):
    m, t = SpecularReflection(Spectrum(r), FresnelFullReflect()), SpecularTransmission(Spectrum(r), 1., 1.5)
    return {'mirror': _ch(m.f(a, b)) == 0. and m.pdf(a, b) == 0.,
            'glass': _ch(t.f(a, b)) == 0. and t.pdf(a, b) == 0.,
            'types': m.type.v == 17 and t.type.v == 18}

def _trans(x, y, z, t, ei, et, a, b):
    s2 = x * x + y * y
    k = a / b
    p, w, f = SpecularTransmission(Spectrum(t), ei, et).sample_f(Vector(x, y, z), .5, .5)
    if a * a / (b * b) * s2 >= 1.:
        return {'total': p == 0.}
    assert 1. - a * a / (b * b) * s2 > 0.   # implied
    fr = FresnelDielectric(ei, et)(z)
    return {'density': p == 1., 'snell_x': w.x * b == -a * x, 'snell_y': w.y * b == -a * y,
            'unit': w.x * w.x + w.y * w.y + w.z * w.z == 1., 'side': w.z * z < 0.,
            'value': _ch(f) * abs(w.z) * b * b == a * a * (1. - fr) * t, 'kind': isinstance(w, Vector)}

def f_glass_outside(x: float, y: float, t: float, ei: float, et: float):
    assert x * x + y * y < 1. and ei > 0. and et > 0. and 1. - x * x - y * y > 0.
    return _trans(x, y, np.sqrt(1. - x * x - y * y), t, ei, et, ei, et)

def f_glass_inside(x: float, y: float, t: float, ei: float, et: float):
    assert x * x + y * y < 1. and ei > 0. and et > 0. and 1. - x * x - y * y > 0.
    return _trans(x, y, -np.sqrt(1. - x * x - y * y), t, ei, et, et, ei)
'''
KW = {}


def check(ctx):
    ctx.rule('fresnel', 'Fresnel / specular-lobe clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p15')
    ctx.prove_spec('fresnel', mod, 'pytracer/reflection', KW)
