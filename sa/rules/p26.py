"""Random numbers come from the generator supplied, and none is used twice."""
EXPLANATION = '''
Sweep: a function that is given a generator (a parameter that defaults to numpy's uniform generator, that is called rng, or that callers fill with
their generator) hands it to every callee that takes one; numbers are drawn from nothing else - no call of numpy.random apart from the samplers'
shuffles, no other source of randomness, time or entropy. Specifications then interpret the estimators with a tape of distinct numbers and compare
what every decision received: no number may serve two decisions.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer import Spectrum
from pytracer.geometry import Point, Vector, Normal, RayDifferential
from pytracer.light import LightSample
from pytracer.reflection import BSDFSample, BDFType, BSDF
from pytracer.integrator.utility import uniform_sample_all_lights, uniform_sample_one_light
from pytracer.integrator.surface import PathIntegrator, WhittedIntegrator
from pytracer.montecarlo import *
from pytracer.montecarlo.utility import rejection_sample_disk
from pytracer.sampler import *
from pytracer.sampler.utility import stratified_sample_1d, stratified_sample_2d, latin_hypercube_1d, latin_hypercube_2d
from pytracer.sampler.sampler.stratified import StratifiedSampler

ALL, S, R, D = BDFType.ALL, BDFType.SPECULAR, BDFType.REFLECTION, BDFType.DIFFUSE

class Tape:
    """a generator: every number once, in [0, 1)"""
    def __init__(self, m=512.):
        self.n, self.m = 0, m
    def __call__(self, *shape):
        if len(shape) == 0:
            self.n = self.n + 1
            return (self.n + .5) / self.m
        out = []
        for i in range(shape[0]):
            self.n = self.n + 1
            out.append((self.n + .5) / self.m)
        return np.array(out)

def _distinct(us):
    ok = True
    for i in range(len(us)):
        for j in range(i):
            ok = ok and us[i] != us[j]
    return ok

def _light(s):
    return [s.u_pos[0], s.u_pos[1], s.u_com]

def _bsdf(s):
    return [s.u_dir[0], s.u_dir[1], s.u_com]

def f_light_sample():
    g = Tape()
    s, t = LightSample.from_rand(g), LightSample.from_rand(g)
    return {'distinct': _distinct(_light(s) + _light(t)), 'drawn': g.n == 6}

def f_bsdf_sample():
    g = Tape()
    s, t = BSDFSample.from_rand(g), BSDFSample.from_rand(g)
    return {'distinct': _distinct(_bsdf(s) + _bsdf(t)), 'drawn': g.n == 6}

class Num:
    def __init__(self, k, ns=1):
        self.k, self.ns = k, ns

class Log:
    def __init__(self):
        self.us, self.lights, self.gen = [], [], []

class Room:
    def __init__(self, lights):
        self.lights = lights

def _direct(scene, renderer, light, p, n, wo, r_eps, time, bsdf, light_smp, bsdf_smp, flags, rng=None):
    scene.log.us = scene.log.us + _light(light_smp) + _bsdf(bsdf_smp)
    scene.log.lights.append(light.k)
    scene.log.gen.append(rng)
    return Spectrum(1.)

def f_all_lights(p: Point, n: Normal, wo: Vector):
    g, sc = Tape(), Room([Num(0), Num(1)])
    sc.log = Log()
    uniform_sample_all_lights(sc, None, p, n, wo, .5, 0., None, None, None, None, g)
    return {'distinct': _distinct(sc.log.us) and len(sc.log.us) == 12, 'generator': sc.log.gen[0] is g and sc.log.gen[1] is g}

def f_one_light(p: Point, n: Normal, wo: Vector):
    # of 64 lights the k-th number of the tape picks the k-th
    g, sc = Tape(64.), Room([Num(k) for k in range(64)])
    sc.log = Log()
    for k in range(2):
        uniform_sample_one_light(sc, None, p, n, wo, .5, 0., None, None, rng=g)
    used = sc.log.us + [(k + .5) / 64. for k in sc.log.lights]
    return {'distinct': _distinct(used) and len(used) == 14, 'generator': sc.log.gen[0] is g and sc.log.gen[1] is g}

class Sight:
    def unoccluded(self, scene):
        return True
    def transmittance(self, scene, renderer, sample, rng=None):
        return Spectrum(1.)

class Lamp:
    def __init__(self):
        self.us, self.ns = [], 1
    def sample_l(self, p, e, smp, time):
        self.us = self.us + _light(smp)
        return [Spectrum(1.), Vector(0., 0., 1.), 1., Sight()]
    def le(self, ray):
        return Spectrum(0.)

class Geo:
    def __init__(self, p, n):
        self.p, self.nn = p, n

class Spread(Geo):
    def compute_differential(self, ray):
        self.ray = ray

class Way:
    """the scattering at a vertex"""
    def __init__(self, p, n):
        self.dgs, self.us = Geo(p, n), []
    def f(self, wo, wi, flags=None):
        return Spectrum(1.)
    def sample_f(self, wo, smp, flags):
        self.us = self.us + _bsdf(smp)
        return [1., Vector(0., 0., 1.), BDFType(R | D), Spectrum(1.)]

class Step:
    def __init__(self, way):
        self.way, self.rEps, self.w = way, .25, None
    def get_bsdf(self, *a):
        return self.way
    def get_area_light(self):
        return None
    def le(self, w):
        return Spectrum(0.)

def _reflected(ray, bsdf, isect, renderer, scene, sample, rng):
    return Spectrum(0.)

def f_whitted(p: Point, n: Normal, d: Vector):
    g, x, y = Tape(), Lamp(), Lamp()
    sc, b = Room([x, y]), Way(p, n)
    WhittedIntegrator(1).li(sc, None, RayDifferential(p.copy(), d.copy()), Step(b), None, g)
    us = x.us + y.us
    return {'distinct': _distinct(us) and len(us) == 6}

class Maze(Room):
    """every ray meets the next surface"""
    def __init__(self, lights, steps, geos):
        self.lights, self.steps, self.geos, self.n, self.log = lights, steps, geos, 0, Log()
    def intersect(self, ray, isect):
        if self.n == len(self.steps):
            return False
        isect.primitive, isect.dg, isect.rEps = self.steps[self.n], self.geos[self.n], .125
        self.n = self.n + 1
        return True

class Air:
    def __init__(self):
        self.gen = []
    def transmittance(self, scene, ray, sample, rng=None):
        self.gen.append(rng)
        return Spectrum(1.)

def _one_light(scene, renderer, p, n, wo, r_eps, time, bsdf, sample, light_num_offset=-1, light_offset=None, bsdf_offset=None, rng=None):
    scene.log.gen.append(rng)
    if light_offset is None:
        scene.log.us = scene.log.us + [rng()]
    return Spectrum(0.)

class Filled:
    """a sample whose numbers are not those of the tape"""
    def __init__(self):
        self.n1, self.n2 = 0, 0
    def add_1d(self, n):
        self.n1 = self.n1 + 1
        return self.n1 - 1
    def add_2d(self, n):
        self.n2 = self.n2 + 1
        return self.n2 - 1
    def fill(self):
        self.oneD = [[2. + i] for i in range(self.n1)]
        self.twoD = [[[3.25 + i, 3.5 + i]] for i in range(self.n2)]

def f_path(d: Vector):
    assert Spectrum(1.).y() > .5
    # six vertices: lights, directions and the survival of the path each use numbers of their own
    q, nn = Point(1., 2., 3.), Normal(0., 0., 1.)
    ways = [Way(q, nn) for a in range(6)]
    sc, ey, g, s = Maze([Num(0)], [Step(ways[a + 1]) for a in range(5)], [Spread(q, nn) for a in range(5)]), Air(), Tape(), Filled()
    m = PathIntegrator(9)
    m.request_samples(None, s, sc)
    s.fill()
    m.li(sc, ey, RayDifferential(q.copy(), d.copy()), Step(ways[0]), s, g)
    us = sc.log.us
    for w in ways:
        us = us + w.us
    ok = True
    for r in sc.log.gen + ey.gen:
        ok = ok and r is g
    return {'distinct': _distinct(us) and len(us) == 3 * 6 + 3, 'generator': ok, 'vertices': len(sc.log.gen) == 6}

class Spike(Tape):
    """small numbers apart from the k-th"""
    def __init__(self, k):
        super().__init__()
        self.k = k
    def __call__(self, *shape):
        u = super().__call__(*shape)
        return .9375 if self.n == self.k else u

def _fate(k):
    q, nn = Point(1., 2., 3.), Normal(0., 0., 1.)
    ways = [Way(q, nn) for a in range(6)]
    sc, ey, g, s = Maze([Num(0)], [Step(ways[a + 1]) for a in range(5)], [Spread(q, nn) for a in range(5)]), Air(), Spike(k), Filled()
    m = PathIntegrator(9)
    m.request_samples(None, s, sc)
    s.fill()
    m.li(sc, ey, RayDifferential(q.copy(), Vector(0., 0., 1.)), Step(ways[0]), s, g)
    us = sc.log.us
    for w in ways:
        us = us + w.us
    return len(sc.log.gen), us

def f_survival():
    assert Spectrum(1.).y() > .5
    # a number that ends the path is used for nothing else, and some number does
    ok, ended = True, False
    for k in range(1, 15):
        n, us = _fate(k)
        if n < 6:
            ended = True
            for u in us:
                ok = ok and u != .9375
    return {'own number': ok, 'random': ended}

def f_disk():
    g = Tape(16.)
    x, y = rejection_sample_disk(g)
    return {'distinct': x != y and g.n >= 2}

def _frac(xs, n):
    out = []
    for x in xs:
        out.append(x * n - np.floor(x * n))
    return out

def f_strata_1d():
    g = Tape()
    a = stratified_sample_1d(4, True, g)
    b = stratified_sample_1d(4, True, g)
    us = _frac(a, 4.) + _frac(b, 4.)
    return {'distinct': _distinct(us), 'count': len(us) == 8}

def f_strata_2d():
    g = Tape()
    a = stratified_sample_2d(2, 2, True, g)
    us = _frac([a[i][0] for i in range(4)], 2.) + _frac([a[i][1] for i in range(4)], 2.)
    return {'distinct': _distinct(us), 'count': len(us) == 8}

def f_hypercube_1d():
    g = Tape()
    a = latin_hypercube_1d(4, g)
    us = _frac(a, 4.)
    return {'distinct': _distinct(us), 'count': len(us) == 4}

def f_hypercube_2d():
    g = Tape()
    a = latin_hypercube_2d(3, g)
    us = _frac([a[i][0] for i in range(3)], 3.) + _frac([a[i][1] for i in range(3)], 3.)
    return {'distinct': _distinct(us), 'count': len(us) == 6}

class Slot:
    def __init__(self):
        self.n1D, self.n2D, self.oneD, self.twoD = [1, 1], [1, 1], [None, None], [None, None]
    def used(self):
        return [self.oneD[0][0], self.oneD[1][0], self.twoD[0][0][0], self.twoD[0][0][1], self.twoD[1][0][0], self.twoD[1][0][1], self.imageX - np.floor(self.imageX), self.imageY - np.floor(self.imageY),
                self.lens_u, self.lens_v, self.time]

def f_sampler_pixels():
    # two pixels of a picture
    g = Tape()
    s = StratifiedSampler(0, 2, 0, 1, 1, 1, True, 0., 1.)
    a, b = Slot(), Slot()
    s.generate([a], g)
    s.generate([b], g)
    us = a.used() + b.used()
    return {'distinct': _distinct(us), 'count': len(us) == 22}

def f_sampler_samples():
    # two samples of a pixel, the strata of which are 1/2 wide and permuted
    g = Tape()
    s = StratifiedSampler(0, 2, 0, 1, 2, 1, True, 0., 1.)
    a, b = Slot(), Slot()
    s.generate([a, b], g)
    one, two, us = a.used()[:6], b.used()[:6], []
    us = us + _frac([a.imageX, b.imageX], 2.) + [a.imageY, b.imageY] + _frac([a.lens_u, b.lens_u], 2.) + [a.lens_v, b.lens_v] + _frac([a.time, b.time], 2.)
    return {'patterns': _distinct(one + two), 'distinct': _distinct(us), 'count': len(us) == 10}

class Lobe:
    def __init__(self):
        self.us = []
    def match_flag(self, flags):
        return True
    def rho_hd(self, w, smp):
        self.us = [smp[0][0], smp[0][1]]
        return Spectrum(0.)
    def rho_hh(self, n, s1, s2):
        self.us = [s1[0][0], s1[0][1], s2[0][0], s2[0][1]]
        return Spectrum(0.)

def f_albedo(p: Point, n: Normal, wo: Vector):
    g, l = Tape(), Lobe()
    b = Bare(l)
    b.rho_hh(ALL, 1, g)
    two = l.us
    b.rho_hd(wo, ALL, 1, g)
    return {'distinct': _distinct(two + l.us), 'count': len(two) == 4 and len(l.us) == 2}

class Bare(BSDF):
    def __init__(self, l):
        self.bdfs, self.nBDF = [l], 1
'''


def KW(n):
    kw = {}
    if n in ('f_all_lights', 'f_one_light'):
        kw['replace'] = {'pytracer.integrator.utility.estimate_direct': '_direct'}
    elif n in ('f_path', 'f_survival'):
        kw['replace'] = {'pytracer.integrator.utility.uniform_sample_one_light': '_one_light'}
    return kw


SOURCES = ('numpy.random.', 'random.', 'time.', 'datetime.', 'secrets.', 'uuid.', 'os.urandom', 'os.getpid', 'threading.get_ident')
SHUFFLES = ('numpy.random.shuffle', 'numpy.random.permutation')     # of the samplers: numpy's own generator, seeded with it


def _sweep(ctx):
    import ast
    from ..resolve import Certain, params, walk_own
    from ..effects import Effects
    from ..loader import FuncInfo
    c = Certain(ctx.p)
    c.run()
    e = Effects(c)
    e.functions()
    ctx.analysed(*{fi.qual for fi, _ in e.fns.values()})

    def defaults(n):
        a = n.args
        ps = a.posonlyargs + a.args
        ds = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults)) if a.defaults else {}
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return ds

    def ext(x, fr):
        k = c.kind(x, fr)
        return k[1] if k is not None and k[0] == 'ext' else None

    gens = {}       # function -> its generator parameters
    for n, (f, fr) in e.fns.items():
        ds = defaults(n)
        g = {x for x in params(n) if x == 'rng' or x in ds and (ext(ds[x], fr) or '').startswith('numpy.random.')}
        if g:
            gens[n] = g

    def aliases(n):
        """the generator parameters of a function (and of the ones around it) and the names assigned from them"""
        have = set()
        f, fr = e.fns[n]
        o = n
        while o is not None:
            have |= gens.get(o, set())
            of = e.fns[o][1].outer if o in e.fns else None
            o = getattr(of, 'node', None) if of is not None else None
        if not have:
            return have
        more = True
        while more:
            more = False
            for x in walk_own(n):
                if isinstance(x, ast.Assign) and same(x.value, have):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and t.id not in have:
                            have.add(t.id)
                            more = True
        return have

    def same(x, have):
        if isinstance(x, ast.Name):
            return x.id in have
        if isinstance(x, ast.IfExp):
            return same(x.body, have) or same(x.orelse, have)
        if isinstance(x, ast.BoolOp):
            return any(same(y, have) for y in x.values)
        return False

    def mentions(x, have):
        """the generator itself occurs in the expression, not only a number drawn from it"""
        if isinstance(x, ast.Name):
            return x.id in have
        if isinstance(x, ast.Call):
            return any(mentions(y, have) for y in list(x.args) + [k.value for k in x.keywords])
        return any(mentions(y, have) for y in ast.iter_child_nodes(x))

    def takes(h):
        return gens.get(e.node(h)) if e.node(h) in e.fns else None

    # callers that hand their generator to a parameter of another name make it one
    more = True
    while more:
        more = False
        for n, (f, fr) in e.fns.items():
            have = aliases(n)
            if not have:
                continue
            for x in walk_own(n):
                if not isinstance(x, ast.Call):
                    continue
                for k in [y for y in e.callees(x, fr, None) or () if isinstance(y[0], FuncInfo) and not e.named]:
                    h = e.node(k[0])
                    if h not in e.fns:
                        continue
                    ps = params(h)
                    off = 1 if k[1] in (1, -1, 2) else 0
                    got = {ps[i + off] for i, y in enumerate(x.args) if isinstance(y, ast.Name) and y.id in have and i + off < len(ps)}
                    got |= {y.arg for y in x.keywords if isinstance(y.value, ast.Name) and y.value.id in have and y.arg in ps}
                    if got - gens.get(h, set()):
                        gens.setdefault(h, set()).update(got)
                        more = True
    passed = 0
    for n, (f, fr) in e.fns.items():
        have = aliases(n)
        own = bool(have)
        for x in walk_own(n):
            if own and isinstance(x, ast.Call):
                ks = callees(e, x, fr, c)
                if ks and all(takes(k[0]) for k in ks):
                    passed += 1
                    star = any(isinstance(y, ast.Starred) for y in x.args) or any(y.arg is None for y in x.keywords)
                    ok = star or any(mentions(y, have) for y in list(x.args) + [y.value for y in x.keywords])
                    ctx.ob('handed', '%s:%s' % (f.qual, ast.unparse(x.func)), ok, 'the call of %s does not pass the generator %s' % (ast.unparse(x.func), '/'.join(sorted(have))), f.loc(x))
    ctx.require('calls that pass a generator on', passed, 10)
    # every reference to a source of randomness
    refs = 0
    for n, (f, fr) in e.fns.items():
        have = aliases(n)
        called = {id(x.func): x for x in walk_own(n) if isinstance(x, ast.Call)}
        guarded = set()
        for x in walk_own(n):
            if isinstance(x, (ast.If, ast.IfExp)) and mentions(x.test, have):
                guarded |= {id(y) for y in ast.walk(x)}
            if isinstance(x, ast.BoolOp) and mentions(x, have):
                guarded |= {id(y) for y in ast.walk(x)}
        inner = set()
        for x in walk_own(n):
            if isinstance(x, ast.Attribute) and id(x) not in inner:
                inner |= {id(y) for y in ast.walk(x.value)}
            elif not isinstance(x, ast.Name) or id(x) in inner:
                continue
            d = ext(x, fr)
            if d is None or not d.startswith(SOURCES) and d + '.' not in SOURCES:
                continue
            if isinstance(x, ast.Name) and d in ('numpy.random', 'random', 'time', 'datetime'):
                continue
            refs += 1
            why = None
            if id(x) in called:
                if d not in SHUFFLES or not f.module.name.startswith('pytracer.sampler'):
                    why = 'draws from %s instead of the generator it is given' % d
            elif d != 'numpy.random.rand':
                why = 'takes %s for a generator' % d
            elif have and id(x) not in guarded:
                why = 'replaces the generator it is given by %s' % d
            ctx.ob('only', '%s:%s' % (f.qual, d), why is None, why or '', f.loc(x))
        for p, dv in defaults(n).items():
            d = ext(dv, fr)
            if d is not None and d.startswith(SOURCES):
                refs += 1
                ctx.ob('only', '%s:%s=' % (f.qual, p), d == 'numpy.random.rand', 'the default generator is %s' % d, f.loc(dv))
            elif dv is not None and any(ext(y, fr) and ext(y, fr).startswith(SOURCES) for y in ast.walk(dv) if isinstance(y, (ast.Attribute, ast.Name))):
                ctx.ob('only', '%s:%s=' % (f.qual, p), False, 'the default of %s is drawn once for all calls' % p, f.loc(dv))
    ctx.require('references to a source of randomness', refs, 5)
    # module level
    for m in ctx.p.modules.values():
        for s in m.tree.body:
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Call) and ast.unparse(x.func).startswith(('np.random.', 'numpy.random.', 'random.')):
                    ctx.ob('only', '%s:%s' % (m.name, ast.unparse(x.func)), False, 'a module draws from or seeds %s when it is loaded' % ast.unparse(x.func), '%s:%d' % (m.rel, x.lineno))
    ctx.notes.append('%d calls pass the generator on, %d references to sources of randomness' % (passed, refs))


def callees(e, x, fr, c):
    from ..loader import FuncInfo
    ks = e.callees(x, fr, None)
    if ks:
        return [k for k in ks if isinstance(k[0], FuncInfo)]
    import ast
    if isinstance(x.func, ast.Attribute) and c.kind(x.func.value, fr) is None:
        return [(f, 1) for f in c.by_name(x.func.attr) if isinstance(f, FuncInfo)]
    return []


def check(ctx):
    ctx.rule('handed', 'the generator a function is given is passed on to every callee that takes one')
    ctx.rule('only', 'numbers are drawn from no other source')
    ctx.rule('fresh', 'no number drawn serves two decisions')
    with ctx.guard('handed', 'package', seconds=300):
        _sweep(ctx)
    ctx.prove_spec('fresh', ctx.spec(SPEC, 'p26'), 'pytracer', KW)
