"""The lobes each material builds from its parameters."""
EXPLANATION = '''
Every material is summarised with textures that return symbolic values at a symbolic surface point; the list of lobes it returns is compared,
lobe by lobe, with the documented one: kind, reflectance after clipping, indices, distribution, and the frame it is expressed in. Bump mapping
is compared with the derivative of the displaced surface for a displacement that is affine in position and surface parameters.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.geometry as geo
import pytracer.utility as util
from pytracer import EPS, Spectrum
from pytracer.geometry import Vector, Point, Normal, DifferentialGeometry
from pytracer.texture import Texture
from pytracer.material.material import *
from pytracer.reflection import BSDF, brdf_remap
from pytracer.reflection.bdf.bdf import Lambertian, SpecularReflection, SpecularTransmission, ScaledBDF
from pytracer.reflection.bdf.orennayar import OrenNayar
from pytracer.reflection.bdf.torrance import Blinn, Microfacet
from pytracer.reflection.bdf.measured import IrIsotropicBRDF
from pytracer.reflection.fresnel import FresnelFullReflect, FresnelConductor, FresnelDielectric

class Const(Texture):
    """a texture of which only the value is known, but for a shift with the surface parameters"""
    def __init__(self, v):
        self.v = v

    def __call__(self, dg):
        return self.v

class Ramp(Texture):
    """a displacement that is affine in the surface parameters and the position"""
    def __init__(self, e, a, b, c, d=0.):
        self.e, self.a, self.b, self.c, self.d = e, a, b, c, d

    def __call__(self, dg):
        return self.e + self.a * dg.u + self.b * dg.v + self.c * dg.p.x + self.d * dg.p.y

class Probe(Texture):
    """a displacement that is nowhere but at one place"""
    def __init__(self, u, v):
        self.u, self.v = u, v

    def __call__(self, dg):
        return 1. if dg.u == self.u and dg.v == self.v else 0.

class Sh:
    def __init__(self, ro, sw):
        self.ro, self.transform_swaps_handedness = ro, sw

def _geom(u, v, ro=False, sw=False):
    d = DifferentialGeometry(Point(0., 0., 0.), Vector(1., 0., 0.), Vector(0., 1., 0.), Normal(0., 0., 0.), Normal(0., 0., 0.), u, v, Sh(ro, sw))
    return d

def _neg(s):
    return [s.c[0], s.c[1], s.c[2]]

def _black(s):
    return s.is_black()

def _same(a, b):
    return a.c[0] == b.c[0] and a.c[1] == b.c[1] and a.c[2] == b.c[2]

def _cl(s):
    return Spectrum.from_rgb([max(0., s.c[0]), max(0., s.c[1]), max(0., s.c[2])])

def _frame(b, g):
    return b.dgs is not g and b.dgs.u == g.u and b.dgs.v == g.v and b.dgs.p == g.p and b.ng is g.nn

def _pos(*ss):
    ok = True
    for s in ss:
        ok = ok and s.c[0] >= 0. and s.c[1] >= 0. and s.c[2] >= 0.
    return ok

def f_bump(e: float, a: float, b: float, c: float, d: float, u: float, v: float, dudx: float, dvdy: float):
    g, s = _geom(u, v), _geom(u, v)
    s.dudx, s.dvdy = dudx, dvdy
    s.dndu, s.dndv = Normal(0., 0., .5), Normal(0., 0., .25)
    t = Ramp(e, a, b, c, d)
    D = t(s)
    r = Material.bump(t, g, s)
    pu, pv = Vector(1., 0., (a + c) + .5 * D), Vector(0., 1., (b + d) + .25 * D)
    n = pu.cross(pv)
    return {'dpdu': r.dpdu.x == 1. and r.dpdu.y == 0. and r.dpdu.z == pu.z, 'dpdv': r.dpdv.x == 0. and r.dpdv.y == 1. and r.dpdv.z == pv.z,
            'normal': r.nn.x * n.z == n.x * r.nn.z and r.nn.y * n.z == n.y * r.nn.z and r.nn.z > 0.,
            'unit': r.nn.x * r.nn.x + r.nn.y * r.nn.y + r.nn.z * r.nn.z == 1.,
            'point': r.p == s.p and r.u == u and r.v == v, 'untouched': s.dpdu.z == 0. and s.dpdv.z == 0. and s.nn.z == 1. and s.u == u and s.v == v and s.p.x == 0.,
            'kinds': isinstance(r.dpdu, Vector) and isinstance(r.nn, Normal)}

def f_bump_still(a: float, b: float, c: float, d: float, u: float, v: float):
    # no footprint: the derivative is still taken over a shift that is not zero
    g, s = _geom(u, v), _geom(u, v)
    r = Material.bump(Ramp(0., a, b, c, d), g, s)
    return {'dpdu': r.dpdu.z == a + c, 'dpdv': r.dpdv.z == b + d}

def f_bump_footprint(u: float, v: float, a: float, b: float, c: float, d: float):
    # the displacement is sampled half a footprint away in u, then in v
    assert abs(a) + abs(b) > 0. and abs(c) + abs(d) > 0.
    g, s = _geom(u, v), _geom(u, v)
    s.dudx, s.dudy, s.dvdx, s.dvdy = a, b, c, d
    m, n = .5 * (abs(a) + abs(b)), .5 * (abs(c) + abs(d))
    q, r = Material.bump(Probe(u + m, v), g, s), Material.bump(Probe(u, v + n), g, s)
    return {'u': q.dpdu.z * m == 1. and q.dpdv.z == 0., 'v': r.dpdv.z * n == 1. and r.dpdu.z == 0.}

def f_bump_oriented(a: float, u: float, v: float):
    # a reversed surface: the bumped normal stays on the side of the geometric normal
    g, s = _geom(u, v, True), _geom(u, v, True)
    r = Material.bump(Ramp(0., a, 0., 0.), g, s)
    h, q = _geom(u, v, True, True), _geom(u, v, True, True)
    w = Material.bump(Ramp(0., a, 0., 0.), h, q)
    return {'reversed': g.nn.z == -1. and r.nn.z < 0. and r.nn.x == a * r.nn.z and r.nn.y == 0., 'twice': h.nn.z == 1. and w.nn.z > 0. and w.nn.x == -a * w.nn.z}

def f_bump_flat(e: float, u: float, v: float):
    g, s = _geom(u, v), _geom(u, v)
    s.dndu = Normal(.5, 0., 0.)
    r = Material.bump(Const(e), g, s)
    return {'tangent': r.dpdu.x == 1. + .5 * e and r.dpdu.y == 0. and r.dpdu.z == 0., 'other': r.dpdv.y == 1.}

def f_matte_smooth(r: Spectrum, sig: float, u: float, v: float):
    assert sig <= 0.
    g = _geom(u, v)
    b = MatteMaterial(Const(r), Const(sig)).get_bsdf(g, g)
    f = b.bdfs[0]
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'smooth': isinstance(f, Lambertian) and _same(f.R, _cl(r))}

def f_matte_rough(r: Spectrum, sig: float, u: float, v: float):
    assert 0. < sig and sig <= 90.
    g = _geom(u, v)
    b = MatteMaterial(Const(r), Const(sig)).get_bsdf(g, g)
    f, o = b.bdfs[0], OrenNayar(r, sig)
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'rough': isinstance(f, OrenNayar) and _same(f.R, _cl(r)) and f.A == o.A and f.B == o.B}

def f_matte_roughest(r: Spectrum, sig: float, u: float, v: float):
    assert sig > 90.
    g = _geom(u, v)
    f, o = MatteMaterial(Const(r), Const(sig)).get_bsdf(g, g).bdfs[0], OrenNayar(r, 90.)
    return {'clipped': isinstance(f, OrenNayar) and f.A == o.A and f.B == o.B}

def f_plastic(d: Spectrum, s: Spectrum, h: float, u: float, v: float):
    assert h > 0.
    g = _geom(u, v)
    b = PlasticMaterial(Const(d), Const(s), Const(h)).get_bsdf(g, g)
    l, m = b.bdfs
    return {'frame': len(b.bdfs) == 2 and _frame(b, g), 'diffuse': isinstance(l, Lambertian) and _same(l.R, _cl(d)),
            'glossy': isinstance(m, Microfacet) and _same(m.R, _cl(s)) and isinstance(m.distribution, Blinn) and m.distribution.e == Blinn(1. / h).e,
            'fresnel': isinstance(m.fresnel, FresnelDielectric) and m.fresnel.eta_i == 1.5 and m.fresnel.eta_t == 1.}

def f_mirror(r: Spectrum, u: float, v: float):
    g = _geom(u, v)
    b = MirrorMaterial(Const(r)).get_bsdf(g, g)
    if _cl(r).is_black():
        return {'black': len(b.bdfs) == 0 and _frame(b, g)}
    f = b.bdfs[0]
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'mirror': isinstance(f, SpecularReflection) and _same(f.R, _cl(r)) and isinstance(f.fresnel, FresnelFullReflect)}

def f_metal(eta: Spectrum, k: Spectrum, h: float, u: float, v: float):
    assert h > 0.
    g = _geom(u, v)
    b = MetalMaterial(Const(eta), Const(k), Const(h)).get_bsdf(g, g)
    f = b.bdfs[0]
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'metal': isinstance(f, Microfacet) and _same(f.R, Spectrum(1.)) and f.distribution.e == Blinn(1. / h).e,
            'fresnel': isinstance(f.fresnel, FresnelConductor) and _same(f.fresnel.eta, eta) and _same(f.fresnel.k, k)}

def f_glass(r: Spectrum, t: Spectrum, i: float, u: float, v: float):
    assert i > 0.
    g = _geom(u, v)
    b = GlassMaterial(Const(r), Const(t), Const(i)).get_bsdf(g, g)
    n, k, ok = 0, True, _frame(b, g) and b.eta == i
    if not _cl(r).is_black():
        f = b.bdfs[0]
        k = k and isinstance(f, SpecularReflection) and _same(f.R, _cl(r)) and isinstance(f.fresnel, FresnelDielectric) and f.fresnel.eta_i == 1. and f.fresnel.eta_t == i
        n = 1
    if not _cl(t).is_black():
        f = b.bdfs[n]
        k = k and isinstance(f, SpecularTransmission) and _same(f.T, _cl(t)) and f.ei == 1. and f.et == i
        n += 1
    return {'frame': ok, 'lobes': k, 'count': len(b.bdfs) == n}

def f_uber(d: Spectrum, s: Spectrum, r: Spectrum, t: Spectrum, h: float, e: float, u: float, v: float):
    # fully opaque, positive coefficients
    assert h > 0. and e > 0. and d.c[0] > EPS and s.c[0] > EPS and r.c[0] > EPS and t.c[0] > EPS and _pos(d, s, r, t)
    g = _geom(u, v)
    b = UberMaterial(Const(d), Const(s), Const(r), Const(t), Const(h), Const(Spectrum(1.)), Const(e)).get_bsdf(g, g)
    l, m, q, w = b.bdfs
    return {'frame': _frame(b, g), 'diffuse': isinstance(l, Lambertian) and _same(l.R, d),
            'glossy': isinstance(m, Microfacet) and _same(m.R, s) and m.distribution.e == Blinn(1. / h).e and m.fresnel.eta_i == e and m.fresnel.eta_t == 1.,
            'mirror': isinstance(q, SpecularReflection) and _same(q.R, r) and q.fresnel.eta_i == e and q.fresnel.eta_t == 1.,
            'transmitted': isinstance(w, SpecularTransmission) and _same(w.T, t) and w.ei == e and w.et == 1.}

def _see(d, o, e, g):
    z = Const(Spectrum(0.))
    return UberMaterial(Const(d), z, z, z, Const(.5), Const(Spectrum.from_rgb(o)), Const(e)).get_bsdf(g, g).bdfs

def f_uber_see_through(d: Spectrum, e: float, u: float, v: float):
    assert e > 0. and d.c[2] > EPS and _pos(d)
    g = _geom(u, v)
    w, l = _see(d, [.25, .5, 1.], e, g)
    x, = _see(d, [0., 0., 0.], e, g)
    return {'through': isinstance(w, SpecularTransmission) and w.ei == 1. and w.et == 1. and _same(w.T, Spectrum.from_rgb([.75, .5, 0.])),
            'diffuse': isinstance(l, Lambertian) and _same(l.R, Spectrum.from_rgb([d.c[0] * .25, d.c[1] * .5, d.c[2]])),
            'clear': isinstance(x, SpecularTransmission) and x.ei == 1. and x.et == 1. and _same(x.T, Spectrum(1.))}

def f_uber_scaled(d: Spectrum, s: Spectrum, r: Spectrum, t: Spectrum, e: float, u: float, v: float):
    # every lobe fades with the opacity
    assert e > 0. and d.c[2] > EPS and s.c[2] > EPS and r.c[2] > EPS and t.c[2] > EPS and _pos(d, s, r, t)
    g = _geom(u, v)
    o = lambda q: Spectrum.from_rgb([q.c[0] * .25, q.c[1] * .5, q.c[2]])
    w, l, m, q, k = UberMaterial(Const(d), Const(s), Const(r), Const(t), Const(.5), Const(Spectrum.from_rgb([.25, .5, 1.])), Const(e)).get_bsdf(g, g).bdfs
    return {'through': isinstance(w, SpecularTransmission) and _same(w.T, Spectrum.from_rgb([.75, .5, 0.])), 'diffuse': isinstance(l, Lambertian) and _same(l.R, o(d)),
            'glossy': isinstance(m, Microfacet) and _same(m.R, o(s)), 'mirror': isinstance(q, SpecularReflection) and _same(q.R, o(r)), 'transmitted': isinstance(k, SpecularTransmission) and _same(k.T, o(t))}

def f_mix(a: Spectrum, b: Spectrum, k: Spectrum, u: float, v: float):
    assert a.c[0] > EPS and _pos(a, b, k) and k.c[0] <= 1. and k.c[1] <= 1. and k.c[2] <= 1.
    g = _geom(u, v)
    m = MixMaterial(GlassMaterial(Const(a), Const(a), Const(1.5)), MatteMaterial(Const(b), Const(0.)), Const(k)).get_bsdf(g, g)
    x, y, z = m.bdfs
    return {'count': len(m.bdfs) == 3, 'first': isinstance(x, ScaledBDF) and isinstance(x.bdf, SpecularReflection) and _same(x.s, k) and isinstance(y.bdf, SpecularTransmission) and _same(y.s, k),
            'second': isinstance(z, ScaledBDF) and isinstance(z.bdf, Lambertian) and _same(z.bdf.R, b) and _same(z.s, Spectrum.from_rgb([1. - k.c[0], 1. - k.c[1], 1. - k.c[2]])),
            'components': m.n_BDF == 3}

def f_subsurface(r: Spectrum, a: Spectrum, p: Spectrum, k: float, e: float, u: float, v: float):
    assert e > 0.
    g = _geom(u, v)
    m = SubsurfaceMaterial(k, Const(r), Const(a), Const(p), Const(e))
    b, s = m.get_bsdf(g, g), m.get_bssrdf(g, g)
    q = s.eta == e and _same(s.sigma_a, a * k) and _same(s.sigma_prime_s, p * k)
    if _cl(r).is_black():
        return {'black': len(b.bdfs) == 0 and _frame(b, g), 'volume': q}
    f = b.bdfs[0]
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'volume': q,
            'mirror': isinstance(f, SpecularReflection) and _same(f.R, _cl(r)) and isinstance(f.fresnel, FresnelDielectric) and f.fresnel.eta_i == 1. and f.fresnel.eta_t == e}

def f_kd_subsurface(r: Spectrum, d: Spectrum, e: float, u: float, v: float):
    assert e > 0. and r.c[0] > EPS and _pos(r)
    g = _geom(u, v)
    b = KdSubsurfaceMaterial(Const(d), Const(r), Const(1.), Const(e)).get_bsdf(g, g)
    f = b.bdfs[0]
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'mirror': isinstance(f, SpecularReflection) and _same(f.R, r) and f.fresnel.eta_i == 1. and f.fresnel.eta_t == e}

class Tabulated(MeasuredMaterial):
    def __init__(self, tree, samples, bump_map):
        self.theta_phi_tree, self.theta_phi_samples, self.regular_data, self.bump_map = tree, samples, None, bump_map

def f_measured(a: float, u: float, v: float):
    t, s = Sh(False, False), [1., 2.]
    g = _geom(u, v)
    b = Tabulated(t, s, None).get_bsdf(g, g)
    f = b.bdfs[0]
    return {'frame': len(b.bdfs) == 1 and _frame(b, g), 'table': isinstance(f, IrIsotropicBRDF) and f.tree is t and f.data is s, 'bumped': _bumped(Tabulated(t, s, Ramp(0., a, 0., 0.)), u, v, a)}

def _diffuse(kd, mfp, e):
    return Spectrum.from_rgb([kd.c[0], mfp, e]), Spectrum.from_rgb([kd.c[1], kd.c[2], 0.])

def f_kd_volume(d: Spectrum, m: float, e: float, u: float, v: float):
    # the volume is the one whose diffuse reflectance is the given one at the given mean free path
    g = _geom(u, v)
    s = KdSubsurfaceMaterial(Const(d), Const(0.), Const(m), Const(e)).get_bssrdf(g, g)
    c = _cl(d)
    return {'volume': s.eta == e and _same(s.sigma_a, Spectrum.from_rgb([c.c[0], m, e])) and _same(s.sigma_prime_s, Spectrum.from_rgb([c.c[1], c.c[2], 0.]))}

def f_kd_volume_records():
    # the volume follows the shading record, not the geometric one
    g, s = _records()
    v = KdSubsurfaceMaterial(Read(1.), Const(0.), Read(2., False), Read(4., False)).get_bssrdf(g, s)
    return {'volume': v.eta == 1. and _same(v.sigma_a, Spectrum.from_rgb([.25, .5, 1.])) and _same(v.sigma_prime_s, Spectrum.from_rgb([.25, .25, 0.]))}

def _bumped(m, u, v, a):
    g, s = _geom(u, v), _geom(u, v)
    b = m.get_bsdf(g, s)
    return b.dgs is not s and b.dgs.dpdu.z == a and b.nn.x == -a * b.nn.z and b.nn.z > 0. and b.ng is g.nn and s.dpdu.z == 0. and s.nn.z == 1.

def f_uses_bump(a: float, u: float, v: float):
    t, s, h, e = Ramp(0., a, 0., 0.), Const(Spectrum(.5)), Const(.5), Const(1.5)
    return {'matte': _bumped(MatteMaterial(s, Const(0.), t), u, v, a), 'plastic': _bumped(PlasticMaterial(s, s, h, t), u, v, a), 'mirror': _bumped(MirrorMaterial(s, t), u, v, a),
            'metal': _bumped(MetalMaterial(s, s, h, t), u, v, a), 'glass': _bumped(GlassMaterial(s, s, e, t), u, v, a),
            'uber': _bumped(UberMaterial(s, s, s, s, h, s, e, t), u, v, a), 'subsurface': _bumped(SubsurfaceMaterial(1., s, s, s, e, t), u, v, a),
            'kd': _bumped(KdSubsurfaceMaterial(s, s, h, e, t), u, v, a)}

class Read(Texture):
    """a texture that tells the surface records apart: the parameter and the slope of the bumped surface"""
    def __init__(self, k, colour=True):
        self.k, self.colour = k, colour

    def __call__(self, dg):
        x = self.k * (dg.u + dg.dpdu.z)
        return Spectrum.from_rgb([x, x, x]) if self.colour else x

def _records():
    g, s = _geom(.125, .75), _geom(.25, .5)
    return g, s

def _is_all(s, x):
    return s.c[0] == x and s.c[1] == x and s.c[2] == x

def f_records():
    # parameters are evaluated on the shading record as the bump map has displaced it
    assert EPS < .0001
    a = .0625
    g, s = _records()
    t, k = Ramp(0., a, 0., 0.), .25 + a
    m = MatteMaterial(Read(1.), Read(8., False), t).get_bsdf(g, s).bdfs[0]
    o = OrenNayar(Spectrum(1.), 8. * k)
    l, q = PlasticMaterial(Read(1.), Read(.5), Read(.25, False), t).get_bsdf(g, s).bdfs
    r, = MirrorMaterial(Read(1.), t).get_bsdf(g, s).bdfs
    e, = MetalMaterial(Read(1.), Read(2.), Read(.25, False), t).get_bsdf(g, s).bdfs
    x, y = GlassMaterial(Read(1.), Read(.5), Read(4., False), t).get_bsdf(g, s).bdfs
    return {'matte': _is_all(m.R, k) and m.A == o.A and m.B == o.B, 'plastic': _is_all(l.R, k) and _is_all(q.R, .5 * k) and q.distribution.e == Blinn(4. / k).e, 'mirror': _is_all(r.R, k),
            'metal': _is_all(e.fresnel.eta, k) and _is_all(e.fresnel.k, 2. * k) and e.distribution.e == Blinn(4. / k).e,
            'glass': _is_all(x.R, k) and x.fresnel.eta_t == 4. * k and _is_all(y.T, .5 * k) and y.et == 4. * k}

def f_records_uber():
    assert EPS < .0001
    a = .0625
    g, s = _records()
    t, k = Ramp(0., a, 0., 0.), .25 + a
    w, l, m, q, z = UberMaterial(Read(1.), Read(.5), Read(.25), Read(.125), Read(.0625, False), Read(1.), Read(4., False), t).get_bsdf(g, s).bdfs
    return {'through': _is_all(w.T, 1. - k), 'diffuse': _is_all(l.R, k * k), 'glossy': _is_all(m.R, .5 * k * k) and m.distribution.e == Blinn(16. / k).e and m.fresnel.eta_i == 4. * k,
            'mirror': _is_all(q.R, .25 * k * k) and q.fresnel.eta_i == 4. * k, 'transmitted': _is_all(z.T, .125 * k * k) and z.ei == 4. * k}

def f_records_other():
    assert EPS < .0001
    a = .0625
    g, s = _records()
    t, k = Ramp(0., a, 0., 0.), .25 + a
    m = SubsurfaceMaterial(2., Read(1.), Read(.5), Read(.25), Read(4., False), t)
    b, = m.get_bsdf(g, s).bdfs
    v = m.get_bssrdf(g, s)
    c, = KdSubsurfaceMaterial(Read(1.), Read(.5), Read(.25, False), Read(4., False), t).get_bsdf(g, s).bdfs
    x = MixMaterial(MatteMaterial(Read(1.), Read(0., False), t), MirrorMaterial(Read(.5)), Read(1.)).get_bsdf(g, s)
    p, q = x.bdfs
    return {'subsurface': _is_all(b.R, k) and b.fresnel.eta_t == 4. * k, 'volume': _is_all(v.sigma_a, .25) and _is_all(v.sigma_prime_s, .125) and v.eta == 1.,
            'kd': _is_all(c.R, .5 * k) and c.fresnel.eta_t == 4. * k, 'mixed': _is_all(p.bdf.R, k) and _is_all(q.bdf.R, .125) and _is_all(p.s, .25) and _is_all(q.s, .75),
            'frame': x.dgs.u == .25 and x.dgs.dpdu.z == a and x.ng is g.nn}

def f_mix_limits(k: float):
    # a scale out of range is clipped before its complement is taken
    assert k < 0.
    g, s = _records()
    p, q = MixMaterial(MatteMaterial(Const(Spectrum(.5)), Const(0.)), MirrorMaterial(Const(Spectrum(.5))), Const(Spectrum(k))).get_bsdf(g, s).bdfs
    return {'first': _is_all(p.s, 0.), 'second': _is_all(q.s, 1.)}

class Tilt(Texture):
    """a displacement that follows the normal"""
    def __call__(self, dg):
        return dg.nn.x / dg.nn.z

def f_bump_records(e: float, a: float, b: float, k: float, m: float):
    # the displacement belongs to the shading record; the shifted records carry the shifted normal; the result faces the geometric side
    g, s = _geom(.125, .75, True), _geom(.25, .5)
    s.dndu, s.dndv = Normal(0., 0., .5), Normal(0., 0., .25)
    r = Material.bump(Ramp(e, a, b, 0.), g, s)
    D = e + .25 * a + .5 * b
    f, h = _geom(.125, .75), _geom(.25, .5)
    h.dndu, h.dndv = Normal(k, 0., 0.), Normal(m, 0., 0.)
    h.dudx, h.dvdy = .5, .25
    q = Material.bump(Tilt(), f, h)
    return {'place': r.dpdu.z == a + .5 * D and r.dpdv.z == b + .25 * D, 'side': r.nn.z < 0., 'normals': q.dpdu.z == k and q.dpdv.z == m}

class Line:
    """a line of a text file; only its words matter"""
    def __init__(self, *words):
        self.words = list(words)

    def split(self):
        return self.words

class File:
    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self.lines

    def __exit__(self, a, b, c):
        return False

class Tree:
    def __init__(self, data):
        self.rows = data

def _lines(f):
    if f == 'a/b.brdf':
        return [Line('#', 'x'), Line(), Line(2.), Line(400., 700.), Line(.5, 0., .25, 1.), Line(3., 4.), Line(.5, .75, .125, 2.), Line(5., 6.)]
    if f == 'c/b.brdf':
        return [Line(1., 400., .5, 0., .25, 1.), Line(7.)]
    if f == 'short.brdf':
        return [Line(2.), Line(400., 700.), Line(.5, 0., .25, 1.), Line(3.)]
    return None

def _open(f, mode='r'):
    return File(_lines(f))

def _exists(f):
    return _lines(f) is not None

def _tree(data):
    return Tree(data)

def _from(cls, lam, v):
    return Spectrum.from_rgb([v[0], v[len(v) - 1], lam[0] + lam[len(v) - 1] + 1e6 * (len(lam) - len(v))])

def _dir(t, p):
    return Vector(np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t))

def f_measured_file():
    m = MeasuredMaterial('a/b.brdf')
    a, b = m.theta_phi_samples
    p, q = brdf_remap(_dir(.25, 1.), _dir(.5, 0.)), brdf_remap(_dir(.125, 2.), _dir(.5, .75))
    r = m.theta_phi_tree.rows
    return {'count': len(m.theta_phi_samples) == 2, 'first': a.v.c[0] == 3. and a.v.c[1] == 4. and a.v.c[2] == 1100., 'second': b.v.c[0] == 5. and b.v.c[1] == 6.,
            'place': a.p.x == p.x and a.p.y == p.y and a.p.z == p.z and b.p.x == q.x and b.p.y == q.y and b.p.z == q.z,
            'rows': r[0, 0] == p.x and r[0, 1] == p.y and r[0, 2] == p.z and r[1, 0] == q.x and r[1, 1] == q.y and r[1, 2] == q.z}

def f_measured_cache():
    # the table of a file is read once, and files are told apart by their whole path
    a, b, c = MeasuredMaterial('a/b.brdf'), MeasuredMaterial('a/b.brdf'), MeasuredMaterial('c/b.brdf')
    return {'shared': b.theta_phi_samples is a.theta_phi_samples and b.theta_phi_tree is a.theta_phi_tree, 'apart': len(c.theta_phi_samples) == 1 and c.theta_phi_samples[0].v.c[0] == 7.}

def _refused(name):
    try:
        MeasuredMaterial(name)
    except Exception:
        return True
    return False

def f_measured_refused():
    return {'missing': _refused('d/none.brdf'), 'short': _refused('short.brdf'), 'kind': _refused('a/b.png'), 'accepted': not _refused('c/b.brdf')}
'''
KW = {'spec_native': False}
FILES = {'spec_native': False, 'try_total': True, 'replace': {
    'builtin:open': '_open', 'ext:os.path.exists': '_exists', 'ext:scipy.spatial.cKDTree': '_tree', 'pytracer.spectral.spectrum.RGBSpectrum.from_sampled': '_from'}}
VOLUME = {'spec_native': False, 'replace': {'pytracer.volume.utility.subsurface_from_diffuse': '_diffuse'}}


def check(ctx):
    ctx.rule('material', 'material clause holds for every parameter value (exact normal forms)')
    mod = ctx.spec(SPEC, 'p30')
    ctx.prove_spec('material', mod, 'pytracer/material', lambda fn: VOLUME if fn.startswith('f_kd_volume') else FILES if fn.startswith('f_measured_') else KW)
