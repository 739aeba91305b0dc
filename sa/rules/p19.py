"""Cameras: raster to ray mapping, lens, time, offset rays."""
EXPLANATION = '''
Every camera is summarised for an arbitrary sample, resolution, screen window, field of view, lens, shutter and camera-to-world
transform; the ray is compared with the closed-form projection of the raster position, applied once to the camera-to-world transform,
and the offset rays of a differential with the rays generated at the neighbouring raster positions.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer.camera import PinholeCamera, OrthoCamera, PerspectiveCamera, EnvironmentCamera
from pytracer.sampler import CameraSample, Sample
from pytracer.montecarlo import concentric_sample_disk
from pytracer.transform import Transform, AnimatedTransform
from pytracer.geometry import Vector, Point, Ray, RayDifferential
import pytracer.geometry as geo

class Frame:
    def __init__(self, xr, yr):
        self.xResolution, self.yResolution = xr, yr

class KeyA:
    pass

def _v(a, b):
    return a.x == b.x and a.y == b.y and a.z == b.z

def _still(t):
    return AnimatedTransform(t, 0., t, 1.)

def _shift(s, t):
    # transform that depends on the time it is asked for
    k = AnimatedTransform(Transform(), s, Transform(), t)
    k.animated = True
    return k

def _pixel(xr, yr, x0, w, y0, h, ix, iy):
    # position on the screen: x runs right from the left edge, y runs down from the upper edge
    return x0 + w * ix / xr, y0 + h - h * iy / yr

def disk(u, v):
    # stands for the mapping of a lens sample to the unit disk
    return [u + 2. * v, 3. * u - v]

def _persp(t, xr, yr, x0, w, y0, h, so, sc, lens, fd, fov):
    return PerspectiveCamera(_still(t), [x0, x0 + w, y0, y0 + h], so, sc, lens, fd, fov, Frame(xr, yr))

def f_perspective(xr: float, yr: float, x0: float, w: float, y0: float, h: float, ix: float, iy: float, lu: float, lv: float, tm: float,
                  so: float, sc: float, fd: float, k: float):
    assert xr > 0. and yr > 0. and w > 0. and h > 0. and k > 0.
    # field of view with half-angle tangent k
    fov = 2. * np.rad2deg(np.arctan(k))
    c = _persp(Transform(), xr, yr, x0, w, y0, h, so, sc, 0., fd, fov)
    wt, r = c.generate_ray(CameraSample(ix, iy, lu, lv, tm))
    x, y = _pixel(xr, yr, x0, w, y0, h, ix, iy)
    d = r.d
    return {'weight': wt == 1., 'origin': r.o.x == 0. and r.o.y == 0. and r.o.z == 0., 'x': d.x == x * k * d.z, 'y': d.y == y * k * d.z,
            'forward': d.z > 0., 'unit': d.x * d.x + d.y * d.y + d.z * d.z == 1., 'range': r.mint == 0. and r.maxt == np.inf, 'depth': r.depth == 0,
            'time': r.time == tm}

def f_perspective_world(xr: float, yr: float, ix: float, iy: float, tm: float, t: Transform, fov: float):
    # the camera-to-world transform is applied exactly once
    assert xr > 0. and yr > 0. and fov > 0. and fov < 180.
    s = CameraSample(ix, iy, 0., 0., tm)
    wt, r = _persp(t, xr, yr, -1., 2., -1., 2., 0., 1., 0., 1., fov).generate_ray(s)
    wc, q = _persp(Transform(), xr, yr, -1., 2., -1., 2., 0., 1., 0., 1., fov).generate_ray(s)
    e = t(q)
    return {'origin': _v(r.o, e.o), 'direction': _v(r.d, e.d), 'time': r.time == tm}

def f_perspective_lens(lu: float, lv: float, ix: float, iy: float, tm: float, lens: float, fd: float, k: float):
    assert lens > 0. and fd > 0. and k > 0.
    fov = 2. * np.rad2deg(np.arctan(k))
    c = _persp(Transform(), 2., 2., -1., 2., -1., 2., 0., 1., lens, fd, fov)
    wt, r = c.generate_ray(CameraSample(ix, iy, lu, lv, tm))
    u, v = disk(lu, lv)
    x, y = _pixel(2., 2., -1., 2., -1., 2., ix, iy)
    # through the lens point and the point in focus
    gx, gy = fd * x * k - lens * u, fd * y * k - lens * v
    d = r.d
    return {'origin': r.o.x == lens * u and r.o.y == lens * v and r.o.z == 0., 'x': d.x * fd == gx * d.z, 'y': d.y * fd == gy * d.z,
            'forward': d.z > 0., 'unit': d.x * d.x + d.y * d.y + d.z * d.z == 1., 'range': r.mint == 0. and r.maxt == np.inf, 'time': r.time == tm}

def _neighbour(c, s, lu, lv, ix, iy, tm):
    wt, rd = c.generate_ray_differential(s)
    w0, r = c.generate_ray(CameraSample(ix, iy, lu, lv, tm))
    wx, rx = c.generate_ray(CameraSample(ix + 1., iy, lu, lv, tm))
    wy, ry = c.generate_ray(CameraSample(ix, iy + 1., lu, lv, tm))
    return {'weight': wt == 1., 'flag': rd.has_differentials, 'origin': _v(rd.o, r.o), 'direction': _v(rd.d, r.d),
            'range': rd.mint == r.mint and rd.maxt == r.maxt and rd.depth == r.depth, 'time': rd.time == r.time,
            'x_origin': _v(rd.rxOrigin, rx.o), 'x_direction': _v(rd.rxDirection, rx.d),
            'y_origin': _v(rd.ryOrigin, ry.o), 'y_direction': _v(rd.ryDirection, ry.d)}

def f_perspective_differential(lu: float, lv: float, ix: float, iy: float, tm: float, so: float, sc: float, fov: float, xr: float, yr: float):
    assert fov > 0. and fov < 180. and xr > 0. and yr > 0.
    c = _persp(Transform(), xr, yr, -1., 2., -1., 2., so, sc, 0., 1., fov)
    return _neighbour(c, CameraSample(ix, iy, lu, lv, tm), lu, lv, ix, iy, tm)

def f_perspective_differential_world(ix: float, iy: float, tm: float, fov: float, xr: float, yr: float, t: Transform):
    assert fov > 0. and fov < 180. and xr > 0. and yr > 0.
    c = _persp(t, xr, yr, -1., 2., -1., 2., 0., 1., 0., 1., fov)
    return _neighbour(c, CameraSample(ix, iy, 0., 0., tm), 0., 0., ix, iy, tm)

def f_perspective_differential_lens(lu: float, lv: float, ix: float, iy: float, tm: float, lens: float, fd: float, fov: float):
    assert lens > 0. and fd > 0. and fov > 0. and fov < 180.
    c = _persp(Transform(), 4., 3., -1., 2., -1., 2., 0., 1., lens, fd, fov)
    return _neighbour(c, CameraSample(ix, iy, lu, lv, tm), lu, lv, ix, iy, tm)

def _ortho(t, xr, yr, x0, w, y0, h, so, sc, lens, fd):
    return OrthoCamera(_still(t), [x0, x0 + w, y0, y0 + h], so, sc, lens, fd, Frame(xr, yr))

def f_ortho(xr: float, yr: float, x0: float, w: float, y0: float, h: float, ix: float, iy: float, lu: float, lv: float, tm: float,
            so: float, sc: float, fd: float):
    assert xr > 0. and yr > 0. and w > 0. and h > 0.
    wt, r = _ortho(Transform(), xr, yr, x0, w, y0, h, so, sc, 0., fd).generate_ray(CameraSample(ix, iy, lu, lv, tm))
    x, y = _pixel(xr, yr, x0, w, y0, h, ix, iy)
    return {'weight': wt == 1., 'origin': r.o.x == x and r.o.y == y and r.o.z == 0., 'direction': r.d.x == 0. and r.d.y == 0. and r.d.z == 1.,
            'range': r.mint == 0. and r.maxt == np.inf, 'depth': r.depth == 0, 'time': r.time == tm}

def f_ortho_world(xr: float, yr: float, ix: float, iy: float, tm: float, t: Transform):
    assert xr > 0. and yr > 0.
    s = CameraSample(ix, iy, 0., 0., tm)
    wt, r = _ortho(t, xr, yr, -1., 2., -1., 2., 0., 1., 0., 1.).generate_ray(s)
    wc, q = _ortho(Transform(), xr, yr, -1., 2., -1., 2., 0., 1., 0., 1.).generate_ray(s)
    e = t(q)
    return {'origin': _v(r.o, e.o), 'direction': _v(r.d, e.d), 'time': r.time == tm}

def f_ortho_lens(lu: float, lv: float, ix: float, iy: float, tm: float, lens: float, fd: float, xr: float, yr: float):
    assert lens > 0. and fd > 0. and xr > 0. and yr > 0.
    wt, r = _ortho(Transform(), xr, yr, -1., 2., -1., 2., 0., 1., lens, fd).generate_ray(CameraSample(ix, iy, lu, lv, tm))
    x, y = _pixel(xr, yr, -1., 2., -1., 2., ix, iy)
    # aimed at the point in focus behind the pixel
    gx, gy, gz = x - r.o.x, y - r.o.y, fd - r.o.z
    d = r.d
    return {'x': d.x * gz == gx * d.z, 'y': d.y * gz == gy * d.z, 'forward': d.z > 0., 'unit': d.x * d.x + d.y * d.y + d.z * d.z == 1.,
            'plane': r.o.z == 0., 'time': r.time == tm}

def f_ortho_differential(lu: float, lv: float, ix: float, iy: float, tm: float, so: float, sc: float, xr: float, yr: float):
    assert xr > 0. and yr > 0.
    c = _ortho(Transform(), xr, yr, -1., 2., -1., 2., so, sc, 0., 1.)
    return _neighbour(c, CameraSample(ix, iy, lu, lv, tm), lu, lv, ix, iy, tm)

def _affine(t):
    # no perspective part
    t.m[3][0] = t.m[3][1] = t.m[3][2] = 0.
    t.m[3][3] = 1.
    return t

def f_ortho_differential_world(ix: float, iy: float, tm: float, xr: float, yr: float, t: Transform):
    assert xr > 0. and yr > 0.
    c = _ortho(_affine(t), xr, yr, -1., 2., -1., 2., 0., 1., 0., 1.)
    return _neighbour(c, CameraSample(ix, iy, 0., 0., tm), 0., 0., ix, iy, tm)

def f_pinhole(focal: float, ix: float, iy: float, tm: float):
    assert focal > 0.
    wt, r = PinholeCamera(_still(Transform()), focal, Frame(8., 8.)).generate_ray(CameraSample(ix, iy, 0., 0., tm))
    n = np.sqrt(ix * ix + iy * iy + focal * focal)
    return {'weight': wt == 1., 'origin': r.o.x == ix and r.o.y == iy and r.o.z == 0.,
            'direction': r.d.x == -ix / n and r.d.y == -iy / n and r.d.z == focal / n, 'range': r.mint == 0. and r.maxt == np.inf, 'depth': r.depth == 0, 'time': r.time == tm}

def f_pinhole_world(focal: float, ix: float, iy: float, tm: float, t: Transform):
    assert focal > 0.
    wt, r = PinholeCamera(_still(t), focal, Frame(8., 8.)).generate_ray(CameraSample(ix, iy, 0., 0., tm))
    wc, q = PinholeCamera(_still(Transform()), focal, Frame(8., 8.)).generate_ray(CameraSample(ix, iy, 0., 0., tm))
    e = t(q)
    return {'origin': _v(r.o, e.o), 'direction': _v(r.d, e.d)}

def f_pinhole_differential(focal: float, ix: float, iy: float, lu: float, lv: float, tm: float):
    assert focal > 0.
    c = PinholeCamera(_still(Transform()), focal, Frame(8., 8.))
    return _neighbour(c, CameraSample(ix, iy, lu, lv, tm), lu, lv, ix, iy, tm)

def f_environment(xr: float, yr: float, ix: float, iy: float, tm: float, so: float, sc: float):
    assert xr > 0. and yr > 0.
    wt, r = EnvironmentCamera(_still(Transform()), so, sc, Frame(xr, yr)).generate_ray(CameraSample(ix, iy, 0., 0., tm))
    th, ph = np.pi * iy / yr, 2. * np.pi * ix / xr
    return {'weight': wt == 1., 'origin': r.o.x == 0. and r.o.y == 0. and r.o.z == 0.,
            'direction': r.d.x == np.sin(th) * np.cos(ph) and r.d.y == np.cos(th) and r.d.z == np.sin(th) * np.sin(ph),
            'range': r.mint == 0. and r.maxt == np.inf, 'depth': r.depth == 0, 'time': r.time == tm}

def f_environment_world(ix: float, iy: float, tm: float, t: Transform):
    s = CameraSample(ix, iy, 0., 0., tm)
    wt, r = EnvironmentCamera(_still(t), 0., 1., Frame(8., 4.)).generate_ray(s)
    wc, q = EnvironmentCamera(_still(Transform()), 0., 1., Frame(8., 4.)).generate_ray(s)
    e = t(q)
    return {'origin': _v(r.o, e.o), 'direction': _v(r.d, e.d), 'time': r.time == tm}

def f_environment_differential(lu: float, lv: float, ix: float, iy: float, tm: float, so: float, sc: float):
    c = EnvironmentCamera(_still(Transform()), so, sc, Frame(8., 4.))
    return _neighbour(c, CameraSample(ix, iy, lu, lv, tm), lu, lv, ix, iy, tm)

def f_environment_differential_sample(ix: float, iy: float, lu: float, lv: float, tm: float):
    # integrator samples are accepted as well and are left as they were
    s = Sample(None, None, None, None, ix, iy, lu, lv, tm)
    c = EnvironmentCamera(_still(Transform()), 0., 1., Frame(8., 4.))
    d = _neighbour(c, s, lu, lv, ix, iy, tm)
    d['argument'] = s.imageX == ix and s.imageY == iy and s.lens_u == lu and s.lens_v == lv and s.time == tm
    return d

def f_moving(a: float, b: float, tm: float, t0: Transform, t1: Transform, ix: float, iy: float, so: float, sc: float):
    # the camera moves: the ray is transformed by the pose of its own time
    time = tm
    assert a < b and (time < a or time >= b)
    k = _shift(a, b)
    k.startTransform, k.endTransform = t0, t1
    s = CameraSample(ix, iy, 0., 0., tm)
    wt, r = EnvironmentCamera(k, so, sc, Frame(8., 4.)).generate_ray(s)
    wc, q = EnvironmentCamera(_still(Transform()), so, sc, Frame(8., 4.)).generate_ray(s)
    e = t0(q) if time < a else t1(q)
    return {'direction': _v(r.d, e.d), 'origin': _v(r.o, e.o)}

def f_moving_pinhole(a: float, b: float, tm: float, t0: Transform, t1: Transform, ix: float, iy: float):
    time = tm
    assert a < b and (time < a or time >= b)
    k = _shift(a, b)
    k.startTransform, k.endTransform = t0, t1
    wt, r = PinholeCamera(k, 2., Frame(8., 4.)).generate_ray(CameraSample(ix, iy, 0., 0., tm))
    wc, q = PinholeCamera(_still(Transform()), 2., Frame(8., 4.)).generate_ray(CameraSample(ix, iy, 0., 0., tm))
    e = t0(q) if time < a else t1(q)
    return {'direction': _v(r.d, e.d), 'origin': _v(r.o, e.o)}

def _both(k, make, ix, iy, tm, t0, t1, early):
    # offset rays are those of the pose of the time of the sample
    k.startTransform, k.endTransform = t0, t1
    wt, r = make(k).generate_ray_differential(CameraSample(ix, iy, .5, .5, tm))
    wc, q = make(_still(t0 if early else t1)).generate_ray_differential(CameraSample(ix, iy, .5, .5, tm))
    return {'x': _v(r.rxOrigin, q.rxOrigin) and _v(r.rxDirection, q.rxDirection), 'y': _v(r.ryOrigin, q.ryOrigin) and _v(r.ryDirection, q.ryDirection),
            'ray': _v(r.o, q.o) and _v(r.d, q.d), 'has': r.has_differentials == True}

def _turn(x):
    return Transform.translate(Vector(x, 0., 0.))

def _tilt(x):
    return Transform.scale(x, 2., 1.)

def f_moving_ortho(tm: float, ix: float, iy: float, x: float):
    assert x > 1. and (tm < 0. or tm >= 1.)
    return _both(_shift(0., 1.), lambda k: OrthoCamera(k, [-1., 1., -1., 1.], 0., 1., 0., 1., Frame(8., 4.)), ix, iy, tm, _turn(x), _tilt(x), tm < 0.)

def f_moving_perspective(tm: float, ix: float, iy: float, x: float):
    assert x > 1. and (tm < 0. or tm >= 1.)
    return _both(_shift(0., 1.), lambda k: PerspectiveCamera(k, [-1., 1., -1., 1.], 0., 1., 0., 1., 90., Frame(8., 4.)), ix, iy, tm, _turn(x), _tilt(x), tm < 0.)

class Partial(PinholeCamera):
    """no light passes beyond an edge of the raster"""
    def generate_ray(self, sample):
        wt, ray = PinholeCamera.generate_ray(self, sample)
        return [1. if sample.imageX < 4. and sample.imageY < 4. else 0., ray]

def f_edge(ix: float, iy: float):
    assert ix > 0. and ix < 5. and iy > 0. and iy < 5.
    wt, r = Partial(_still(Transform()), 2., Frame(8., 8.)).generate_ray_differential(CameraSample(ix, iy, 0., 0., 0.))
    whole = ix < 3. and iy < 3.
    return {'offsets': r.has_differentials == whole, 'weight': (not whole) or wt == 1.}
'''
_DISK = {'replace': {'pytracer.montecarlo.utility.concentric_sample_disk': 'disk'}}
KW = {'f_perspective_lens': _DISK, 'f_ortho_lens': _DISK}


def check(ctx):
    ctx.rule('camera', 'clause holds for every sample, film, window, lens, shutter and transform (exact normal forms)')
    mod = ctx.spec(SPEC, 'p19')
    ctx.prove_spec('camera', mod, 'pytracer/camera', KW)
