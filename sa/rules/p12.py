"""The BSDF container: local frame, lobe selection, sums and averages."""
EXPLANATION = '''
The BSDF methods are summarised over lobes of which only the contract is known (symbolic densities, values and sampled directions, every
combination of reflection / transmission / diffuse / glossy / specular flags used by the materials). Frame changes, the sum over the
lobes that match flags and geometric side, the averaged density and the sampling protocol are compared as normal forms.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import Spectrum
from pytracer.geometry import Vector, Normal, Point
from pytracer.reflection.bsdf import BSDF, BSDFSample, BSDFSampleOffset
from pytracer.reflection.bdf.bdf import BDF, BDFType, Lambertian

class Geo:
    def __init__(self, nn, dpdu):
        self.nn, self.dpdu, self.p = nn, dpdu, Point(0., 0., 0.)

class Probe(BDF):
    """a lobe of which only the contract is known"""
    def __init__(self, t, p, w, v):
        super().__init__(BDFType(t))
        self.p, self.w, self.v = p, w, v

    def f(self, wo, wi):
        return self.v * (wi.z + 2. * wi.x) * (wo.x + 3. * wo.y)

    def pdf(self, wo, wi):
        return self.p * (wi.z + 2. * wi.x) * (wo.x + 3. * wo.y)

    def sample_f(self, wo, u1, u2):
        return [self.pdf(wo, self.w), self.w, self.v * u1 * (u2 + 2.)]

R, T, D, G, S, ALL = 1, 2, 4, 8, 16, 31

def _frame(c, s, l):
    # shading frame rotated about x
    return Geo(Vector(0., -s, c), Vector(l, 0., 0.))

def _local(w, c, s):
    return Vector(w.x, c * w.y + s * w.z, c * w.z - s * w.y)

def _same(a, b):
    return a.x == b.x and a.y == b.y and a.z == b.z

def f_frame(a: float, l: float, w: 'Vector'):
    assert l > 0.
    c, s = np.cos(a), np.sin(a)
    b = BSDF(_frame(c, s, l), Vector(0., -s, c))
    m = b.w2l(w)
    return {'to_local': _same(m, _local(w, c, s)), 'round_trip': _same(b.l2w(m), w), 'round_trip_local': _same(b.w2l(b.l2w(w)), w),
            'unit': b.sn.x == 1. and b.sn.y == 0., 'kind': isinstance(m, Vector) and isinstance(b.l2w(m), Vector)}

def f_frame_handed():
    b = BSDF(Geo(Vector(0., 1., 0.), Vector(0., 0., 2.)), Vector(0., 1., 0.))
    return {'tn': b.tn.x == 1. and b.tn.y == 0. and b.tn.z == 0., 'sn': b.sn.z == 1., 'l2w': _same(b.l2w(Vector(3., 5., 7.)), Vector(5., 7., 3.)),
            'w2l': _same(b.w2l(Vector(5., 7., 3.)), Vector(3., 5., 7.))}

def _two(a, b, p, q, v, u, w, x, ng):
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), ng)
    f, g = Probe(a, p, w, v), Probe(b, q, x, u)
    m.push_back(f)
    m.push_back(g)
    return m, f, g

def f_count():
    m, f, g = _two(R | D, T | S, 1., 1., 1., 1., Vector(0., 0., 1.), Vector(0., 0., -1.), Vector(0., 0., 1.))
    return {'size': m.n_BDF == 2, 'all': m.n_components(ALL) == 2, 'reflection': m.n_components(R | D | G | S) == 1,
            'transmission': m.n_components(T | D | G | S) == 1, 'diffuse_only': m.n_components(R | D) == 1, 'none': m.n_components(R | G) == 0,
            'needs_side': m.n_components(D | S) == 0, 'typed': m.n_components(BDFType(T | S)) == 1, 'empty': BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.)).n_BDF == 0}

def f_flags():
    a, b = BDFType(R | G), BDFType(T)
    return {'or': (a | b).v == (R | G | T), 'and': (a & BDFType.ALL_REFLECTION).v == (R | G), 'empty': not (a & BDFType.SPECULAR), 'set': bool(a & BDFType.GLOSSY),
            'xor': (a ^ (R | T)).v == (T | G), 'copy': BDFType(a).v == a.v, 'all': BDFType.ALL == ALL and BDFType.ALL_TYPES == (D | G | S),
            'all_reflection': BDFType.ALL_REFLECTION == (R | D | G | S), 'all_transmission': BDFType.ALL_TRANSMISSION == (T | D | G | S), 'kept': a.v == (R | G)}

def f_value(c: float, s: float, ng: 'Vector', wo: 'Vector', wi: 'Vector', v: 'Spectrum', u: 'Spectrum'):
    assert c * c + s * s == 1.
    m = BSDF(_frame(c, s, 1.), ng)
    f, g = Probe(R | D, 1., wo, v), Probe(T | G, 1., wo, u)
    m.push_back(f)
    m.push_back(g)
    side = (wi.x * ng.x + wi.y * ng.y + wi.z * ng.z) * (wo.x * ng.x + wo.y * ng.y + wo.z * ng.z)
    a, b = _local(wo, c, s), _local(wi, c, s)
    return {'value': _ch(m.f(wo, wi)) == (_ch(f.f(a, b)) if side > 0. else _ch(g.f(a, b)))}

def f_value_sum(wo: 'Vector', wi: 'Vector', v: 'Spectrum', u: 'Spectrum'):
    m, f, g = _two(R | D, R | G, 1., 1., v, u, wo, wi, Vector(0., 0., 1.))
    n = m.f(wo, wi)
    ok = wo.z * wi.z > 0.
    return {'both': _ch(n) == (_ch(f.f(wo, wi)) + _ch(g.f(wo, wi)) if ok else 0.),
            'diffuse': _ch(m.f(wo, wi, R | D)) == (_ch(f.f(wo, wi)) if ok else 0.), 'typed': _ch(m.f(wo, wi, BDFType(R | G))) == (_ch(g.f(wo, wi)) if ok else 0.),
            'no_match': _ch(m.f(wo, wi, T | D)) == 0.}

def f_density(c: float, s: float, wo: 'Vector', wi: 'Vector', p: float, q: float):
    assert c * c + s * s == 1.
    m = BSDF(_frame(c, s, 1.), Vector(0., -s, c))
    f, g = Probe(R | D, p, wo, 1.), Probe(R | G, q, wo, 1.)
    m.push_back(f)
    m.push_back(g)
    a, b = _local(wo, c, s), _local(wi, c, s)
    return {'average': 2. * m.pdf(wo, wi) == f.pdf(a, b) + g.pdf(a, b), 'one': m.pdf(wo, wi, R | G) == g.pdf(a, b), 'none': m.pdf(wo, wi, T | G) == 0.,
            'empty': BSDF(_frame(c, s, 1.), Vector(0., -s, c)).pdf(wo, wi) == 0.}

def f_sample_one(wo: 'Vector', w: 'Vector', p: float, v: 'Spectrum', u1: float, u2: float, uc: float):
    assert 0. <= uc and uc <= 1. and wo.x + 3. * wo.y > 0. and w.z + 2. * w.x > 0. and p > 0.
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.))
    b = Probe(R | G, p, w, v)
    m.push_back(b)
    q, wi, t, f = m.sample_f(wo, BSDFSample(u1, u2, uc), ALL)
    return {'density': q == b.pdf(wo, w), 'direction': _same(wi, w), 'type': t.v == (R | G), 'value': _ch(f) == (_ch(b.f(wo, w)) if w.z * wo.z > 0. else 0.)}

def _pick(uc, wo, w, x, p, q, v, u, u1, u2):
    m, f, g = _two(R | D, R | G, p, q, v, u, w, x, Vector(0., 0., 1.))
    d, wi, t, r = m.sample_f(wo, BSDFSample(u1, u2, uc), ALL)
    return m, f, g, d, wi, t, r

def f_sample_first(wo: 'Vector', w: 'Vector', x: 'Vector', p: float, q: float, v: 'Spectrum', u: 'Spectrum', u1: float, u2: float, uc: float):
    assert 0. <= uc and uc < .5 and wo.x + 3. * wo.y > 0. and w.z + 2. * w.x > 0. and p > 0. and q > 0.
    m, f, g, d, wi, t, r = _pick(uc, wo, w, x, p, q, v, u, u1, u2)
    return {'direction': _same(wi, w), 'type': t.v == (R | D), 'density': 2. * d == f.pdf(wo, w) + g.pdf(wo, w), 'matches_pdf': d == m.pdf(wo, wi),
            'value': _ch(r) == (_ch(f.f(wo, w)) + _ch(g.f(wo, w)) if wo.z * w.z > 0. else 0.)}

def f_sample_second(wo: 'Vector', w: 'Vector', x: 'Vector', p: float, q: float, v: 'Spectrum', u: 'Spectrum', u1: float, u2: float, uc: float):
    assert .5 <= uc and uc <= 1. and wo.x + 3. * wo.y > 0. and x.z + 2. * x.x > 0. and p > 0. and q > 0.
    m, f, g, d, wi, t, r = _pick(uc, wo, w, x, p, q, v, u, u1, u2)
    return {'direction': _same(wi, x), 'type': t.v == (R | G), 'density': 2. * d == f.pdf(wo, x) + g.pdf(wo, x), 'matches_pdf': d == m.pdf(wo, wi),
            'value': _ch(r) == (_ch(f.f(wo, x)) + _ch(g.f(wo, x)) if wo.z * x.z > 0. else 0.)}

def f_sample_specular(wo: 'Vector', w: 'Vector', x: 'Vector', p: float, q: float, v: 'Spectrum', u: 'Spectrum', u1: float, u2: float, uc: float):
    # the specular lobe is chosen: neither the density nor the value involves the other lobe
    assert 0. <= uc and uc < .5 and wo.x + 3. * wo.y > 0. and w.z + 2. * w.x > 0. and p > 0. and q > 0.
    m, f, g = _two(R | S, R | D, p, q, v, u, w, x, Vector(0., 0., 1.))
    d, wi, t, r = m.sample_f(wo, BSDFSample(u1, u2, uc), ALL)
    return {'direction': _same(wi, w), 'type': t.v == (R | S), 'density': 2. * d == f.pdf(wo, w), 'value': _ch(r) == _ch(v) * u1 * (u2 + 2.)}

def f_sample_flags(wo: 'Vector', w: 'Vector', x: 'Vector', p: float, q: float, v: 'Spectrum', u: 'Spectrum', u1: float, u2: float, uc: float):
    # only matching lobes take part
    assert 0. <= uc and uc <= 1. and wo.x + 3. * wo.y > 0. and x.z + 2. * x.x > 0. and p > 0. and q > 0.
    m, f, g = _two(R | D, R | G, p, q, v, u, w, x, Vector(0., 0., 1.))
    d, wi, t, r = m.sample_f(wo, BSDFSample(u1, u2, uc), R | G)
    n = m.sample_f(wo, BSDFSample(u1, u2, uc), T | G)
    return {'direction': _same(wi, x), 'density': d == g.pdf(wo, x), 'value': _ch(r) == (_ch(g.f(wo, x)) if wo.z * x.z > 0. else 0.), 'none': n[0] == 0. and _ch(n[3]) == 0.}

def f_sample_mixed(c: float, s: float, ng: 'Vector', wo: 'Vector', w: 'Vector', p: float, q: float, v: 'Spectrum', u: 'Spectrum', uc: float):
    # reflection and transmission lobes: the geometric side decides which contribute
    assert c * c + s * s == 1. and 0. <= uc and uc < .5 and p > 0. and q > 0.
    m = BSDF(_frame(c, s, 1.), ng)
    f, g = Probe(R | D, p, w, v), Probe(T | D, q, w, u)
    m.push_back(f)
    m.push_back(g)
    a = _local(wo, c, s)
    assert f.pdf(a, w) > 0.
    d, wi, t, r = m.sample_f(wo, BSDFSample(.5, .5, uc), ALL)
    x = Vector(w.x, c * w.y - s * w.z, s * w.y + c * w.z)
    side = (x.x * ng.x + x.y * ng.y + x.z * ng.z) * (wo.x * ng.x + wo.y * ng.y + wo.z * ng.z)
    return {'direction': _same(wi, x), 'density': 2. * d == f.pdf(a, w) + g.pdf(a, w), 'value': _ch(r) == (_ch(f.f(a, w)) if side > 0. else _ch(g.f(a, w)))}

def f_sample_black(wo: 'Vector', w: 'Vector', u1: float, u2: float, uc: float):
    assert 0. <= uc and uc <= 1.
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.))
    m.push_back(Probe(R | G, 0., w, 1.))
    q, wi, t, f = m.sample_f(wo, BSDFSample(u1, u2, uc), ALL)
    return {'density': q == 0., 'value': _ch(f) == 0.}

def f_sample_record(a: float, b: float, c: float):
    s = BSDFSample(a, b, c)
    return {'dir': s.u_dir[0] == a and s.u_dir[1] == b, 'component': s.u_com == c}

def f_record_from_sample():
    # the record reads the reserved dimensions of the given sample, number by number
    class Smp:
        def __init__(self):
            self.n1, self.n2 = [], []
            self.oneD, self.twoD = [[.1, .2], [.3, .4]], [[[.5, .51], [.6, .61]], [[.7, .71], [.8, .81]]]

        def add_1d(self, n):
            self.n1.append(n)
            return 1

        def add_2d(self, n):
            self.n2.append(n)
            return 0
    s = Smp()
    o = BSDFSampleOffset(2, s)
    a, b = BSDFSample.from_sample(s, o, 0), BSDFSample.from_sample(s, o, 1)
    k = [0]
    def rng():
        k[0] += 1
        return k[0] * .1
    r = BSDFSample.from_rand(rng)
    return {'reserved': s.n1 == [2] and s.n2 == [2] and o.nSamples == 2, 'first': a.u_dir[0] == .5 and a.u_dir[1] == .51 and a.u_com == .3,
            'second': b.u_dir[0] == .6 and b.u_dir[1] == .61 and b.u_com == .4,
            'drawn': k[0] == 3 and r.u_dir[0] == .1 and r.u_dir[1] == .2 and r.u_com == 3 * .1}

def f_sample_subset(wo: 'Vector', w: 'Vector', x: 'Vector', p: float, q: float, v: 'Spectrum', u: 'Spectrum'):
    # three lobes, two of which match: the component number counts the matching ones, and the third adds nothing
    assert p > 0. and q > 0. and wo.x + 3. * wo.y > 0. and w.z + 2. * w.x > 0. and x.z + 2. * x.x > 0. and wo.z * w.z > 0. and wo.z * x.z > 0.
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.))
    f, o, g = Probe(R | D, p, w, v), Probe(R | S, 7., w, 5.), Probe(R | G, q, x, u)
    m.push_back(f)
    m.push_back(o)
    m.push_back(g)
    d, wi, t, r = m.sample_f(wo, BSDFSample(.3, .7, .4), R | D | G)
    e, wj, s, k = m.sample_f(wo, BSDFSample(.3, .7, .6), R | D | G)
    return {'first': _same(wi, w) and t.v == (R | D), 'first_density': 2. * d == f.pdf(wo, w) + g.pdf(wo, w), 'first_value': _ch(r) == _ch(f.f(wo, w)) + _ch(g.f(wo, w)),
            'second': _same(wj, x) and s.v == (R | G), 'second_density': 2. * e == f.pdf(wo, x) + g.pdf(wo, x), 'second_value': _ch(k) == _ch(f.f(wo, x)) + _ch(g.f(wo, x)),
            'reported': d == m.pdf(wo, w, R | D | G)}

class Rho(BDF):
    """a lobe whose reflectances report the samples they were given"""
    def __init__(self, t):
        super().__init__(BDFType(t))
        self.seen, self.count, self.wo = [], 0, None

    def f(self, wo, wi):
        return Spectrum(0.)

    def rho_hd(self, wo, samples):
        self.seen.append(samples)
        self.wo = wo
        return Spectrum(1.)

    def rho_hh(self, n, s1, s2):
        self.seen.append(s1)
        self.seen.append(s2)
        self.count = n
        return Spectrum(2.)

def f_rho_samples(wo: 'Vector'):
    # independent samples for the two directions, and as many as announced
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.))
    b, c = Rho(R | D), Rho(R | G)
    m.push_back(b)
    m.push_back(c)
    k = [0]
    def draw(n):
        k[0] += 1
        return np.array([k[0] * .1, k[0] * .11, k[0] * .12, k[0] * .13])
    a = m.rho_hh(R | D, 2, draw)
    n = len(b.seen)
    s, t = b.seen[0], b.seen[1]
    h = m.rho_hd(wo, R | G, 2, draw)
    return {'independent': s[0][0] == .05 and t[0][0] == .15 and s[3][1] != t[3][1] and k[0] == 6, 'count': b.count == 4,
            'value': _ch(a) == 2. and _ch(h) == 1., 'selected': n == 2 and len(b.seen) == 2 and len(c.seen) == 1}

def f_rho(v: 'Spectrum', u: 'Spectrum', wo: 'Vector', rng):
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.))
    m.push_back(Lambertian(v))
    m.push_back(Lambertian(u))
    return {'hd': _ch(m.rho_hd(wo)) == _ch(v) + _ch(u), 'hh': _ch(m.rho_hh()) == _ch(v) + _ch(u), 'hd_flags': _ch(m.rho_hd(wo, T | D)) == 0.}

def f_repr():
    m = BSDF(Geo(Vector(0., 0., 1.), Vector(1., 0., 0.)), Vector(0., 0., 1.))
    m.push_back(Lambertian(Spectrum(.5)))
    return isinstance(repr(m), str)
'''
KW = {}


def check(ctx):
    ctx.rule('bsdf', 'BSDF clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p12')
    ctx.prove_spec('bsdf', mod, 'pytracer/reflection/bsdf.py', KW)
