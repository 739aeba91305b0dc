"""Shared state is updated under its lock, and every lock is given back."""
EXPLANATION = '''
Pixels and voxels are shared between rendering tasks. The rules interpret the film and the grid with locks of which only the protocol is known:
a lock that records whether it is held, and one whose acquisition first lets another task complete the same operation. The accumulations,
lazy refinement and its published flag must happen while the lock is held, no update may be lost or repeated, and after every call - also one that
fails half way - all locks are free. A sweep over every function demands that an explicit acquisition is followed by a release on all exits.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.spectral import rgb2xyz
from pytracer.filter import *
from pytracer.film import *
from pytracer.sampler import CameraSample
from pytracer.aggregate.primitive import Primitive
from pytracer.aggregate.intersection import Intersection
from pytracer.aggregate.aggregate import GridAccel, Voxel

class Mutex:
    def __init__(self):
        self.held, self.bad, self.other = False, False, None
    def acquire(self, *args):
        if self.other is not None:
            o = self.other
            self.other = None
            o()
        self.bad = self.bad or self.held
        self.held = True
        return True
    def release(self):
        self.bad = self.bad or not self.held
        self.held = False
    def locked(self):
        return self.held
    def __enter__(self):
        self.acquire()
    def __exit__(self, a, b, c):
        self.release()

def mutex():
    return Mutex()

class Log:
    def __init__(self):
        self.bare, self.updates = False, 0

class Cell:
    """an accumulator that only knows whether its lock is held when it is touched"""
    def __init__(self, lock, log):
        self.lock, self.log = lock, log
    def __add__(self, x):
        self.log.bare = self.log.bare or not self.lock.held
        self.log.updates = self.log.updates + 1
        return self
    def __radd__(self, x):
        return self + x
    def __iadd__(self, x):
        return self + x

class Faulty:
    """an accumulation that fails"""
    def __add__(self, x):
        raise ValueError('overflow')
    def __radd__(self, x):
        raise ValueError('overflow')
    def __iadd__(self, x):
        raise ValueError('overflow')

def _refused(f):
    try:
        f()
    except Exception:
        return True
    return False

class Probe(Filter):
    def __init__(self, xw, yw, inner):
        super().__init__(xw, yw)
        self.inner = inner
    def __call__(self, x, y):
        return self.inner(x, y)

def _film(xw, yw, inner):
    # two pixels: (2, 3) and (3, 3)
    return ImageFilm(8, 6, Probe(xw, yw, inner), [.25, .5, .5, 4. / 6.])

def f_pixels(inner: 'Filter'):
    f = _film(1., 1., inner)
    a, b = f.pixels[0][0], f.pixels[1][0]
    return {'locks': a.lock is not None and b.lock is not None, 'free': not a.lock.held and not b.lock.held}

def _watch(f):
    logs = []
    for i in range(2):
        p = f.pixels[i][0]
        log = Log()
        p.Lxyz, p.weight_sum, p.splatXYZ = Cell(p.lock, log), Cell(p.lock, log), Cell(p.lock, log)
        logs.append(log)
    return logs

def _free(f):
    a, b = f.pixels[0][0].lock, f.pixels[1][0].lock
    return not a.held and not b.held and not a.bad and not b.bad

def f_add_sample(xw: float, yw: float, ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    # a filter that may cover several pixels: tasks meet at its pixels
    assert xw > 0. and yw > 0. and (xw > .5 or yw > .5)
    f = _film(xw, yw, inner)
    logs = _watch(f)
    f.add_sample(CameraSample(ix, iy), L)
    return {'under lock': not logs[0].bare and not logs[1].bare, 'free': _free(f)}

def f_add_sample_covered(ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    assert ix >= 2.5 and ix <= 3.5 and iy >= 3. and iy <= 4.
    f = _film(1., 1., inner)
    logs = _watch(f)
    f.add_sample(CameraSample(ix, iy), L)
    return {'updated': logs[0].updates == 2 and logs[1].updates == 2, 'free': _free(f)}

def f_add_sample_fails(L: Spectrum, inner: 'Filter'):
    f = _film(1., 1., inner)
    f.pixels[0][0].Lxyz = Faulty()
    bad = _refused(lambda: f.add_sample(CameraSample(2.75, 3.5), L))
    return {'fails': bad, 'free': _free(f)}

def f_splat(ix: float, iy: float, L: Spectrum, inner: 'Filter'):
    f = _film(1., 1., inner)
    logs = _watch(f)
    f.splat(CameraSample(ix, iy), L)
    return {'under lock': not logs[0].bare and not logs[1].bare, 'free': _free(f)}

def f_splat_fails(L: Spectrum, inner: 'Filter'):
    f = _film(1., 1., inner)
    f.pixels[0][0].splatXYZ = Faulty()
    bad = _refused(lambda: f.splat(CameraSample(2.75, 3.5), L))
    return {'fails': bad, 'free': _free(f)}

def _same(p, q):
    return p[0] == q[0] and p[1] == q[1] and p[2] == q[2]

def f_add_sample_race(w: float, a: float, b: float, c: float, L: Spectrum, inner: 'Filter'):
    # between the decision to update and the update another task adds its own sample
    f, g = _film(1., 1., inner), _film(1., 1., inner)
    p, q = f.pixels[0][0], g.pixels[0][0]
    def other():
        p.Lxyz += np.array([a, b, c])
        p.weight_sum += w
    p.lock.other = other
    f.add_sample(CameraSample(2.75, 3.5), L)
    g.add_sample(CameraSample(2.75, 3.5), L)
    return {'weight': p.weight_sum == q.weight_sum + w, 'radiance': _same(p.Lxyz, [q.Lxyz[0] + a, q.Lxyz[1] + b, q.Lxyz[2] + c])}

def f_add_sample_both(L: Spectrum, M: Spectrum, inner: 'Filter'):
    # two tasks add a sample each, on the two pixels both cover
    f, g = _film(1., 1., inner), _film(1., 1., inner)
    one, two = CameraSample(2.75, 3.5), CameraSample(3.25, 3.25)
    f.pixels[0][0].lock.other = lambda: f.add_sample(two, M)
    g.add_sample(two, M)
    g.add_sample(one, L)
    f.add_sample(one, L)
    out = True
    for i in range(2):
        p, q = f.pixels[i][0], g.pixels[i][0]
        out = out and _same(p.Lxyz, q.Lxyz) and p.weight_sum == q.weight_sum
    return {'same': out, 'free': _free(f)}

def f_splat_race(a: float, b: float, c: float, L: Spectrum, inner: 'Filter'):
    f, g = _film(1., 1., inner), _film(1., 1., inner)
    p, q = f.pixels[1][0], g.pixels[1][0]
    def other():
        p.splatXYZ += np.array([a, b, c])
    p.lock.other = other
    f.splat(CameraSample(3.25, 3.5), L)
    g.splat(CameraSample(3.25, 3.5), L)
    return {'splat': _same(p.splatXYZ, [q.splatXYZ[0] + a, q.splatXYZ[1] + b, q.splatXYZ[2] + c])}

def f_splat_both(L: Spectrum, M: Spectrum, inner: 'Filter'):
    f, g = _film(1., 1., inner), _film(1., 1., inner)
    one, two = CameraSample(3.25, 3.5), CameraSample(3.75, 3.5)
    p, q = f.pixels[1][0], g.pixels[1][0]
    p.lock.other = lambda: f.splat(two, M)
    f.splat(one, L)
    g.splat(two, M)
    g.splat(one, L)
    return {'same': _same(p.splatXYZ, q.splatXYZ), 'free': _free(f)}

class Hit:
    def __init__(self, t):
        self.t = t
    def can_intersect(self):
        return True
    def full_refine(self, out):
        out.append(self)
    def intersect(self, ray, isect):
        if ray.mint < self.t and self.t < ray.maxt:
            ray.maxt = self.t
            isect.primitive = self
            return True
        return False
    def intersect_p(self, ray):
        return ray.mint < self.t and self.t < ray.maxt

class Lazy(Hit):
    """refined on first use; notes how it was refined"""
    def __init__(self, t, lock):
        self.t, self.lock, self.log, self.voxel, self.early = t, lock, Log(), None, False
    def can_intersect(self):
        return False
    def full_refine(self, out):
        self.log.bare = self.log.bare or not self.lock.held
        self.log.updates = self.log.updates + 1
        self.early = self.early or self.voxel.all_can_intersect
        out.append(Hit(self.t))
    def intersect(self, ray, isect):
        raise RuntimeError('not refined')
    def intersect_p(self, ray):
        raise RuntimeError('not refined')

class Broken(Lazy):
    def full_refine(self, out):
        raise NotImplementedError('refine')

def _voxel(s, t):
    lock = Mutex()
    a, b = Lazy(s, lock), Lazy(t, lock)
    v = Voxel([a, b])
    a.voxel, b.voxel = v, v
    return v, a, b, lock

def _ray(m0, m1):
    return geo.Ray(geo.Point(0., 0., 0.), geo.Vector(0., 0., 1.), m0, m1)

def _done(v, a, b, lock):
    return {'under lock': not a.log.bare and not b.log.bare, 'published last': not a.early and not b.early, 'once': a.log.updates == 1 and b.log.updates == 1,
            'refined': v.all_can_intersect and v.primitives[0].can_intersect() and v.primitives[1].can_intersect(), 'free': not lock.held and not lock.bad}

def f_voxel(s: float, t: float, m0: float, m1: float):
    v, a, b, lock = _voxel(s, t)
    v.intersect(_ray(m0, m1), Intersection(), lock)
    v.intersect(_ray(m0, m1), Intersection(), lock)
    v.intersect_p(_ray(m0, m1), lock)
    return _done(v, a, b, lock)

def f_voxel_any(s: float, t: float, m0: float, m1: float):
    v, a, b, lock = _voxel(s, t)
    v.intersect_p(_ray(m0, m1), lock)
    v.intersect_p(_ray(m0, m1), lock)
    v.intersect(_ray(m0, m1), Intersection(), lock)
    return _done(v, a, b, lock)

def f_voxel_race(s: float, t: float, m0: float, m1: float):
    # another task refines the voxel between the look at the flag and the lock
    v, a, b, lock = _voxel(s, t)
    def other():
        v.intersect_p(_ray(m0, m1), lock)
    lock.other = other
    v.intersect(_ray(m0, m1), Intersection(), lock)
    return _done(v, a, b, lock)

def f_voxel_any_race(s: float, t: float, m0: float, m1: float):
    v, a, b, lock = _voxel(s, t)
    def other():
        v.intersect(_ray(m0, m1), Intersection(), lock)
    lock.other = other
    v.intersect_p(_ray(m0, m1), lock)
    return _done(v, a, b, lock)

def f_voxel_fails(t: float, m0: float, m1: float):
    lock, again = Mutex(), Mutex()
    v, w = Voxel([Hit(t), Broken(t, lock)]), Voxel([Broken(t, again), Hit(t)])
    p = _refused(lambda: v.intersect(_ray(m0, m1), Intersection(), lock))
    q = _refused(lambda: w.intersect_p(_ray(m0, m1), again))
    return {'fails': p and q, 'free': not lock.held and not lock.bad and not again.held and not again.bad,
            'not published': not v.all_can_intersect and not w.all_can_intersect}

class Seen:
    def __init__(self):
        self.locks = []
    def intersect(self, ray, isect, lock):
        self.locks.append(lock)
        return False
    def intersect_p(self, ray, lock):
        self.locks.append(lock)
        return False

class Boxed(Hit):
    def __init__(self, t, box):
        self.t, self.box = t, box
    def world_bound(self):
        return self.box

class One(GridAccel):
    def __init__(self, voxel):
        self.bounds = geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))
        self.n_voxels, self.width, self.invWidth = np.array([1., 1., 1.]), geo.Vector(1., 1., 1.), geo.Vector(1., 1., 1.)
        self.voxels, self.lock = [voxel], Mutex()

def f_grid():
    s = Seen()
    g = One(s)
    r = geo.Ray(geo.Point(.25, .5, .25), geo.Vector(0., 0., 1.), 0., 10.)
    g.intersect(r, Intersection())
    n = len(s.locks)
    g.intersect_p(r)
    ok = True
    for l in s.locks:
        ok = ok and l is g.lock
    return {'asked': n > 0 and len(s.locks) > n, 'its lock': ok, 'free': not g.lock.held and not g.lock.bad}

def _grid():
    return GridAccel([Boxed(1., geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 2., 1.))), Boxed(2., geo.BBox(geo.Point(2., 1., 0.), geo.Point(3., 1.5, 1.)))], True)

def f_grid_lock():
    g, h = _grid(), _grid()
    return {'lock': g.lock is not None and h.lock is not None, 'free': not g.lock.held}
'''
REPLACE = {'ext:threading.Lock': 'mutex', 'ext:threading.RLock': 'mutex'}


def KW(n):
    kw = {'replace': REPLACE}
    if n.endswith('_fails'):
        kw['try_total'] = True
    return kw


def _calls(n):
    import ast
    return any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.AugAssign, ast.For, ast.While, ast.With, ast.Raise, ast.Await)) for x in ast.walk(n))


def _sweep(ctx):
    """explicit acquisitions: a try whose finally releases must follow at once"""
    import ast

    def is_call(n, name):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name

    def gives(body, lock):
        return any(is_call(x, 'release') and ast.unparse(x.func.value) == lock for b in body for x in ast.walk(b))

    n = 0
    for fi in ctx.p.functions():
        acq = [x for x in ast.walk(fi.node) if isinstance(x, ast.Expr) and is_call(x.value, 'acquire') and not x.value.args and not x.value.keywords]
        if not acq or fi.name in ('acquire', '__enter__'):
            continue
        up = {}
        for x in ast.walk(fi.node):
            for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                b = getattr(x, fld, None)
                if isinstance(b, list):
                    for i, y in enumerate(b):
                        up[y] = (x, fld, b, i)
        for a in acq:
            n += 1
            lock = ast.unparse(a.value.func.value)
            why = None
            x = a
            while True:
                if x not in up:
                    why = 'the function may return with %s held' % lock
                    break
                par, fld, b, i = up[x]
                if isinstance(par, ast.Try) and fld == 'body' and gives(par.finalbody, lock):
                    break
                bad = None
                for y in b[i + 1:]:
                    if isinstance(y, ast.Try) and gives(y.finalbody, lock):
                        bad = ''
                        break
                    if _calls(y) or isinstance(y, (ast.Return, ast.Break, ast.Continue)):
                        if isinstance(y, ast.Expr) and is_call(y.value, 'release') and ast.unparse(y.value.func.value) == lock:
                            bad = ''
                            break
                        bad = '%s stays held if the statement at line %d fails or leaves' % (lock, y.lineno)
                        break
                if bad is not None:
                    why = bad or None
                    break
                x = par
            ctx.ob('balanced', '%s:%s' % (fi.qual, lock), why is None, why or '', fi.loc(a))
    ctx.notes.append('%d explicit acquisitions' % n)


def check(ctx):
    ctx.rule('balanced', 'an explicitly acquired lock is released on every way out')
    with ctx.guard('balanced', 'package', seconds=300):
        _sweep(ctx)
    ctx.rule('locked', 'shared accumulation and lazy refinement happen once, under the lock of the data, which is free afterwards')
    ctx.prove_spec('locked', ctx.spec(SPEC, 'p08'), 'pytracer', KW)
