"""Spectra: colour conversion, arithmetic of coefficient spectra, sampled spectra and their tables."""
EXPLANATION = '''
The spectrum classes are interpreted element by element for arbitrary coefficients; conversions are compared with the published matrices,
averages of a sampled distribution with the exact integral of its piecewise linear interpolation, and the conversion tables with the averages
of the measured tables over every cell.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
from pytracer.spectral.spectrum import (xyz2rgb, rgb2xyz, SpectrumType, CoefficientSpectrum, SampledSpectrum, RGBSpectrum)
import pytracer.spectral.spectrum as ps
import pytracer.data.spectral as data

def _is(s, *v):
    if len(s) != len(v):
        return False
    ok = True
    for i in range(len(v)):
        ok = ok and s[i] == v[i]
    return ok

def f_matrices(a: float, b: float, c: float, lst: bool):
    v = [a, b, c] if lst else np.array([a, b, c])
    x, y = xyz2rgb(v), rgb2xyz(v)
    return {'rgb': _is(x, 3.240479 * a - 1.537150 * b - 0.498535 * c, -0.969256 * a + 1.875991 * b + 0.041556 * c, 0.055648 * a - 0.204043 * b + 1.057311 * c),
            'xyz': _is(y, 0.412453 * a + 0.357580 * b + 0.180423 * c, 0.212671 * a + 0.715160 * b + 0.072169 * c, 0.019334 * a + 0.119193 * b + 0.950227 * c),
            'kept': _is(v, a, b, c)}

def f_rgb(a: float, b: float, c: float, s: float):
    l = [a, b, c]
    x, y, z = RGBSpectrum(l), RGBSpectrum(s), RGBSpectrum()
    return {'list': _is(x, a, b, c), 'gray': _is(y, s, s, s), 'zero': _is(z, 0., 0., 0.), 'size': x.n_samples == 3 and y.n_samples == 3,
            'luminance': x.y() == 0.212671 * a + 0.715160 * b + 0.072169 * c, 'kept': _is(x, a, b, c) and _is(l, a, b, c), 'c': _is(x.c, a, b, c)}

def f_rgb_owned(a: float, b: float, c: float):
    # a spectrum made from another sequence does not change with it
    v, l = np.array([a, b, c]), [a, b, c]
    x, y, z, w, u = RGBSpectrum(v), RGBSpectrum(l), RGBSpectrum.create(v), RGBSpectrum.create_from_array(v), RGBSpectrum.create_from_list(l)
    s = RGBSpectrum(l)
    t, q, f = RGBSpectrum.create(s), s.to_rgb(), RGBSpectrum.from_rgb(s)
    v[0] = 77.
    l[1] = 77.
    s[2] = 77.
    return {'array': _is(x, a, b, c), 'list': _is(y, a, b, c), 'create': _is(z, a, b, c), 'from_array': _is(w, a, b, c), 'from_list': _is(u, a, b, c),
            'spectrum': _is(t, a, b, c), 'to_rgb': _is(q, a, b, c), 'from_rgb': _is(f, a, b, c),
            'class': isinstance(z, RGBSpectrum) and isinstance(w, RGBSpectrum) and isinstance(u, RGBSpectrum) and isinstance(t, RGBSpectrum) and isinstance(q, RGBSpectrum)
            and isinstance(f, RGBSpectrum)}

def f_rgb_create(a: float, b: float, c: float):
    l = [a, b, c]
    x, y = RGBSpectrum.create(l), RGBSpectrum.create((a, b, c))
    l[0] = 77.
    return {'list': _is(x, a, b, c), 'tuple': _is(y, a, b, c), 'class': isinstance(x, RGBSpectrum) and isinstance(y, RGBSpectrum)}

def f_rgb_convert(a: float, b: float, c: float, light: bool):
    tp = SpectrumType.ILLUMINANT if light else SpectrumType.REFLECTANCE
    x, y, s = RGBSpectrum.from_rgb([a, b, c], tp), RGBSpectrum.from_xyz([a, b, c], tp), RGBSpectrum([a, b, c])
    r, q = xyz2rgb([a, b, c]), rgb2xyz([a, b, c])
    return {'rgb': _is(x, a, b, c), 'xyz': _is(y, r[0], r[1], r[2]), 'to_xyz': _is(s.to_xyz(), q[0], q[1], q[2]), 'to_rgb': _is(s.to_rgb(), a, b, c),
            'kept': _is(s, a, b, c), 'class': isinstance(x, RGBSpectrum) and isinstance(y, RGBSpectrum)}

def f_rgb_from_sampled(a: float, b: float, c: float, d: float, e: float, f: float):
    _set([a] * 30, [b] * 30, [c] * 30)
    s = RGBSpectrum.from_sampled([a, b, c], [d, e, f])
    t = SampledSpectrum.from_sampled([a, b, c], [d, e, f]).to_rgb()
    return {'same': _is(s, t[0], t[1], t[2])}

def f_coefficient(a: float, b: float, c: float, d: float, e: float, f: float, t: float):
    x, y = RGBSpectrum([a, b, c]), RGBSpectrum([d, e, f])
    z, q, p, k, h = x.lerp(t, y), x.sqrt(), x.pow(2.), x.clip(), x.exp()
    u = x.pow(3.)
    return {'lerp': _is(z, (1. - t) * a + t * d, (1. - t) * b + t * e, (1. - t) * c + t * f), 'sqrt': _is(q, np.sqrt(a), np.sqrt(b), np.sqrt(c)),
            'pow': _is(p, a * a, b * b, c * c), 'cube': _is(u, a * a * a, b * b * b, c * c * c), 'clip': _is(k, max(a, 0.), max(b, 0.), max(c, 0.)),
            'exp': _is(h, np.exp(a), np.exp(b), np.exp(c)),
            'black': x.is_black() == (a < EPS and b < EPS and c < EPS), 'eq': (x == y) == (a == d and b == e and c == f),
            'ne': (x != y) == (not (a == d and b == e and c == f)), 'nan': not x.has_nans(),
            'class': isinstance(z, RGBSpectrum) and isinstance(q, RGBSpectrum) and isinstance(p, RGBSpectrum) and isinstance(k, RGBSpectrum) and isinstance(h, RGBSpectrum),
            'kept': _is(x, a, b, c) and _is(y, d, e, f)}

def f_clip_range(a: float, b: float, c: float, lo: float, hi: float):
    assert lo <= hi
    k = RGBSpectrum([a, b, c]).clip(lo, hi)
    return {'clip': _is(k, min(max(a, lo), hi), min(max(b, lo), hi), min(max(c, lo), hi)), 'class': isinstance(k, RGBSpectrum)}

def f_arithmetic(a: float, b: float, c: float, d: float, e: float, f: float, s: float):
    assert d != 0. and e != 0. and f != 0. and s != 0.
    x, y = RGBSpectrum([a, b, c]), RGBSpectrum([d, e, f])
    p, m, q, v, w, g = x + y, x - y, x * y, x / y, s * x, -x
    z = x.copy()
    z += y
    z *= s
    z -= x
    z /= y
    return {'add': _is(p, a + d, b + e, c + f), 'sub': _is(m, a - d, b - e, c - f), 'mul': _is(q, a * d, b * e, c * f), 'div': _is(v, a / d, b / e, c / f),
            'scale': _is(w, s * a, s * b, s * c), 'right': _is(x * s, s * a, s * b, s * c), 'quotient': _is(x / s, a / s, b / s, c / s), 'neg': _is(g, -a, -b, -c),
            'inplace': _is(z, ((a + d) * s - a) / d, ((b + e) * s - b) / e, ((c + f) * s - c) / f), 'kept': _is(x, a, b, c) and _is(y, d, e, f),
            'class': isinstance(p, RGBSpectrum) and isinstance(q, RGBSpectrum) and isinstance(w, RGBSpectrum) and isinstance(z, RGBSpectrum)}

def f_sampled(s: float, t: float):
    v = [s] * 30
    v[7] = t
    x, y = SampledSpectrum(), SampledSpectrum(v)
    n = 0.
    for i in range(30):
        n = n + x[i] * x[i]
    v[3] = 99.
    return {'zero': x.n_samples == 30 and n == 0., 'list': y.n_samples == 30 and y[6] == s and y[7] == t and y[29] == s and y[3] == s, 'class': isinstance(y, SampledSpectrum)}

def f_sampled_create(a: float, b: float, c: float, d: float):
    v, l = np.array([a, b, c, d]), [a, b, c, d]
    x, y, u, w = SampledSpectrum.create(v), SampledSpectrum.create(l), SampledSpectrum.create_from_array(v), SampledSpectrum.create_from_list(l)
    z = SampledSpectrum.create(x)
    v[0] = 77.
    x[1] = 77.
    l[2] = 77.
    return {'array': _is(x, a, 77., c, d), 'list': _is(y, a, b, c, d), 'spectrum': _is(z, a, b, c, d), 'from_array': _is(u, a, b, c, d), 'from_list': _is(w, a, b, c, d),
            'class': isinstance(x, SampledSpectrum) and isinstance(y, SampledSpectrum) and isinstance(z, SampledSpectrum)}

def _set(x, y, z):
    SampledSpectrum.X, SampledSpectrum.Y, SampledSpectrum.Z = SampledSpectrum(x), SampledSpectrum(y), SampledSpectrum(z)

def f_sampled_xyz(x: float, y: float, z: float, s: float, t: float, u: float):
    a, b, c, v = [x] * 30, [y] * 30, [z] * 30, [s] * 30
    a[3], b[4], c[5], v[3], v[4] = u, u, u, t, u
    _set(a, b, c)
    q = SampledSpectrum(v)
    k = 10. / data.CIE_Y_INTEGRAL
    r = q.to_xyz()
    X, Y, Z = 28. * x * s + u * t + x * u, 28. * y * s + y * t + u * u, 27. * z * s + u * s + z * t + z * u
    g = q.to_rgb()
    m = xyz2rgb([X * k, Y * k, Z * k])
    return {'luminance': q.y() == Y * k, 'xyz': _is(r, X * k, Y * k, Z * k), 'rgb': _is(g, m[0], m[1], m[2]), 'class': isinstance(g, RGBSpectrum)}

def _lin(p, q, a, b, x):
    return a + (b - a) * (x - p) / (q - p)

def _seg(p, q, a, b, lo, hi):
    # integral over [lo, hi] of the line from (p, a) to (q, b)
    return .5 * (_lin(p, q, a, b, lo) + _lin(p, q, a, b, hi)) * (hi - lo)

def _mean3(p, q, r, a, b, c, ls, le, n, lst):
    lam, v = ([p, q, r], [a, b, c]) if lst else (np.array([p, q, r]), np.array([a, b, c]))
    x = SampledSpectrum.average_spectrum_samples(lam, v, ls, le)
    return {'mean': x * (le - ls) == n, 'wavelengths': _is(lam, p, q, r), 'values': _is(v, a, b, c)}

def f_average_single(p: float, a: float, ls: float, le: float):
    assert ls < le
    return {'mean': SampledSpectrum.average_spectrum_samples([p], [a], ls, le) == a}

def f_average_pair(p: float, q: float, a: float, b: float, ls: float, le: float):
    assert p < q and ls < le and p < ls and le < q
    lam, v = [p, q], [a, b]
    x = SampledSpectrum.average_spectrum_samples(lam, v, ls, le)
    y = SampledSpectrum.average_spectrum_samples(lam, v, p, q)
    return {'mean': x * (le - ls) == _seg(p, q, a, b, ls, le), 'all': 2. * y == a + b, 'kept': _is(lam, p, q) and _is(v, a, b)}

def f_average_four(p: float, q: float, r: float, s: float, a: float, b: float, c: float, d: float, ls: float, le: float):
    # from the first cell to the last
    assert p < q and q < r and r < s and p < ls and ls < q and r < le and le < s
    lam, v = np.array([p, q, r, s]), np.array([a, b, c, d])
    x = SampledSpectrum.average_spectrum_samples(lam, v, ls, le)
    n = _seg(p, q, a, b, ls, q) + _seg(q, r, b, c, q, r) + _seg(r, s, c, d, r, le)
    return {'mean': x * (le - ls) == n, 'wavelengths': _is(lam, p, q, r, s), 'values': _is(v, a, b, c, d)}

def f_average_ends(p: float, q: float, r: float, a: float, b: float, c: float):
    # between wavelengths of the table
    assert p < q and q < r
    x = SampledSpectrum.average_spectrum_samples([p, q, r], [a, b, c], p, q)
    y = SampledSpectrum.average_spectrum_samples([p, q, r], [a, b, c], q, r)
    z = SampledSpectrum.average_spectrum_samples([p, q, r], [a, b, c], p, r)
    return {'first': 2. * x == a + b, 'second': 2. * y == b + c, 'all': 2. * z * (r - p) == (a + b) * (q - p) + (b + c) * (r - q)}

class Record:
    calls = []

def average_stub(lam, v, ls, le):
    return ls + 1000. * le + 7. * lam[0] + 13. * lam[1] + 17. * v[0] + 19. * v[1]

def f_from_sampled(p: float, q: float, a: float, b: float, tp: bool):
    lam, v = [p, q], [a, b]
    s = SampledSpectrum.from_sampled(lam, v)
    lo, hi, x, y = (p, q, a, b) if p <= q else (q, p, b, a)
    r = {'kept': _is(lam, p, q) and _is(v, a, b), 'class': isinstance(s, SampledSpectrum), 'size': s.n_samples == 30}
    ok = True
    for i in range(30):
        ok = ok and s[i] == (400. + 10. * i) + 1000. * (410. + 10. * i) + 7. * lo + 13. * hi + 17. * x + 19. * y
    r['cells'] = ok
    return r

def average_two(lam, v, ls, le):
    return 2. * lam[0] + 3. * lam[1] + 5. * lam[2] + 7. * v[0] + 11. * v[1] + 13. * v[2]

def f_sorted(p: float, q: float, r: float, a: float, b: float, c: float):
    # samples come in any order
    assert p < q and q < r
    e = 2. * p + 3. * q + 5. * r + 7. * a + 11. * b + 13. * c
    x, y, z = SampledSpectrum.from_sampled([r, q, p], [c, b, a]), SampledSpectrum.from_sampled([q, r, p], [b, c, a]), SampledSpectrum.from_sampled([p, q, r], [a, b, c])
    return {'reversed': x[0] == e, 'rotated': y[4] == e, 'sorted': z[29] == e}

def _basis(light, n):
    r = []
    for i in range(7):
        r.append(SampledSpectrum(n[i]))
    if light:
        (SampledSpectrum.rgbIllum2SpectWhite, SampledSpectrum.rgbIllum2SpectCyan, SampledSpectrum.rgbIllum2SpectMagenta, SampledSpectrum.rgbIllum2SpectYellow,
         SampledSpectrum.rgbIllum2SpectRed, SampledSpectrum.rgbIllum2SpectGreen, SampledSpectrum.rgbIllum2SpectBlue) = r
    else:
        (SampledSpectrum.rgbRefl2SpectWhite, SampledSpectrum.rgbRefl2SpectCyan, SampledSpectrum.rgbRefl2SpectMagenta, SampledSpectrum.rgbRefl2SpectYellow,
         SampledSpectrum.rgbRefl2SpectRed, SampledSpectrum.rgbRefl2SpectGreen, SampledSpectrum.rgbRefl2SpectBlue) = r
    return r

def _mix(r, g, b, w, c, m, y, R, G, B):
    # the smallest channel is white, the middle one the secondary colour of the upper two, the rest the primary of the largest
    if r <= g and r <= b:
        return r * w + ((g - r) * c + (b - g) * B if g <= b else (b - r) * c + (g - b) * G)
    if g <= r and g <= b:
        return g * w + ((r - g) * m + (b - r) * B if r <= b else (b - g) * m + (r - b) * R)
    return b * w + ((r - b) * y + (g - r) * G if r <= g else (g - b) * y + (r - g) * R)

def _mixed(light, scale, r, g, b, w, c, m, y, R, G, B):
    bs = _basis(light, [[w] * 30, [c] * 30, [m] * 30, [y] * 30, [R] * 30, [G] * 30, [B] * 30])
    rgb = [r, g, b]
    s = SampledSpectrum.from_rgb(rgb, SpectrumType.ILLUMINANT if light else SpectrumType.REFLECTANCE)
    e = max(scale * _mix(r, g, b, w, c, m, y, R, G, B), 0.)
    return {'first': s[0] == e, 'last': s[29] == e, 'kept': _is(rgb, r, g, b), 'class': isinstance(s, SampledSpectrum), 'basis': bs[0][0] == w and bs[1][0] == c and bs[6][3] == B}

def _orders(light, scale, l, d, e, w, c, m, y, R, G, B):
    # every order of the channels
    r = _mixed(light, scale, l, l + d, l + d + e, w, c, m, y, R, G, B)
    r['rbg'] = _mixed(light, scale, l, l + d + e, l + d, w, c, m, y, R, G, B)['first']
    r['grb'] = _mixed(light, scale, l + d, l, l + d + e, w, c, m, y, R, G, B)['first']
    r['gbr'] = _mixed(light, scale, l + d + e, l, l + d, w, c, m, y, R, G, B)['first']
    r['brg'] = _mixed(light, scale, l + d, l + d + e, l, w, c, m, y, R, G, B)['first']
    r['bgr'] = _mixed(light, scale, l + d + e, l + d, l, w, c, m, y, R, G, B)['first']
    return r

def f_reflectance(l: float, d: float, e: float, w: float, c: float, m: float, y: float, R: float, G: float, B: float):
    assert d > 0. and e > 0.
    return _orders(False, .94, l, d, e, w, c, m, y, R, G, B)

def f_illuminant(l: float, d: float, e: float, w: float, c: float, m: float, y: float, R: float, G: float, B: float):
    assert d > 0. and e > 0.
    return _orders(True, .86445, l, d, e, w, c, m, y, R, G, B)

def f_reflectance_ties(r: float, g: float, w: float, c: float, m: float, y: float, R: float, G: float, B: float):
    assert r != g
    p = {'gray': _mixed(False, .94, r, r, r, w, c, m, y, R, G, B)['first']}
    p['rrg'] = _mixed(False, .94, r, r, g, w, c, m, y, R, G, B)['first']
    p['rgr'] = _mixed(False, .94, r, g, r, w, c, m, y, R, G, B)['first']
    p['grr'] = _mixed(False, .94, g, r, r, w, c, m, y, R, G, B)['first']
    return p

def f_illuminant_ties(r: float, g: float, w: float, c: float, m: float, y: float, R: float, G: float, B: float):
    assert r != g
    p = {'gray': _mixed(True, .86445, r, r, r, w, c, m, y, R, G, B)['first']}
    p['rrg'] = _mixed(True, .86445, r, r, g, w, c, m, y, R, G, B)['first']
    p['rgr'] = _mixed(True, .86445, r, g, r, w, c, m, y, R, G, B)['first']
    p['grr'] = _mixed(True, .86445, g, r, r, w, c, m, y, R, G, B)['first']
    return p

def f_default_type(r: float, g: float, b: float, w: float):
    _basis(False, [[w] * 30] * 7)
    s, t = SampledSpectrum.from_rgb([r, g, b]), SampledSpectrum.from_rgb([r, g, b], SpectrumType.REFLECTANCE)
    return {'reflectance': s[3] == t[3]}

def f_sampled_from_xyz(x: float, y: float, z: float, light: bool, w: float, c: float, m: float, v: float, R: float, G: float, B: float):
    k = [[w] * 30, [c] * 30, [m] * 30, [v] * 30, [R] * 30, [G] * 30, [B] * 30]
    _basis(False, k)
    _basis(True, k)
    tp = SpectrumType.ILLUMINANT if light else SpectrumType.REFLECTANCE
    s, t = SampledSpectrum.from_xyz([x, y, z], tp), SampledSpectrum.from_rgb(xyz2rgb([x, y, z]), tp)
    return {'same': s[0] == t[0]}

def average_key(lam, v, ls, le):
    return lam[0] + 1e3 * lam[1] + ls + 1e6 * le + 1e8 * v[3] + 1e9 * v[5] + 1e10 * v[20]

def _table(s, lam, v):
    ok = s.n_samples == 30
    for i in range(30):
        ok = ok and s[i] == average_key(lam, v, 400. + 10. * i, 410. + 10. * i)
    return ok

def f_tables(light: bool):
    RGBSpectrum.init()
    c = SampledSpectrum
    l = data.RGB2SpectLambda
    return {'x': _table(c.X, data.CIE_LAMBDA, data.CIE_X), 'y': _table(c.Y, data.CIE_LAMBDA, data.CIE_Y), 'z': _table(c.Z, data.CIE_LAMBDA, data.CIE_Z),
            'white': _table(c.rgbRefl2SpectWhite, l, data.RGBRefl2SpectWhite), 'cyan': _table(c.rgbRefl2SpectCyan, l, data.RGBRefl2SpectCyan),
            'magenta': _table(c.rgbRefl2SpectMagenta, l, data.RGBRefl2SpectMagenta), 'yellow': _table(c.rgbRefl2SpectYellow, l, data.RGBRefl2SpectYellow),
            'red': _table(c.rgbRefl2SpectRed, l, data.RGBRefl2SpectRed), 'green': _table(c.rgbRefl2SpectGreen, l, data.RGBRefl2SpectGreen),
            'blue': _table(c.rgbRefl2SpectBlue, l, data.RGBRefl2SpectBlue),
            'light_white': _table(c.rgbIllum2SpectWhite, l, data.RGBIllum2SpectWhite), 'light_cyan': _table(c.rgbIllum2SpectCyan, l, data.RGBIllum2SpectCyan),
            'light_magenta': _table(c.rgbIllum2SpectMagenta, l, data.RGBIllum2SpectMagenta), 'light_yellow': _table(c.rgbIllum2SpectYellow, l, data.RGBIllum2SpectYellow),
            'light_red': _table(c.rgbIllum2SpectRed, l, data.RGBIllum2SpectRed), 'light_green': _table(c.rgbIllum2SpectGreen, l, data.RGBIllum2SpectGreen),
            'light_blue': _table(c.rgbIllum2SpectBlue, l, data.RGBIllum2SpectBlue)}
'''



def _averages():
    """one function for every pair of places at which the averaged range may start and end: before, on, between and after the
    three wavelengths of a table (places 0, 2, 4, 6 are open cells, 1, 3, 5 the wavelengths themselves)"""
    out = []
    inside = [['%s < p'], [], ['p < %s', '%s < q'], [], ['q < %s', '%s < r'], [], ['r < %s']]
    for i in range(7):
        for j in range(i, 7):
            if i == j and i % 2:
                continue
            ls, le = 'ls' if i % 2 == 0 else 'pqr'[i // 2], 'le' if j % 2 == 0 else 'pqr'[j // 2]
            pre = ['p < q', 'q < r'] + (['ls < le'] if i == j else []) + [x % ls for x in inside[i]] + [x % le for x in inside[j]]
            n = []
            for k in range(0, 7, 2):
                if k < i - 1 or k > j + 1 or k == i - 1 and i % 2 or k == j + 1 and j % 2:
                    continue
                lo, hi = ls if k <= i + 1 else 'pqr'[k // 2 - 1], le if k >= j - 1 else 'pqr'[k // 2]
                n.append('a * (%s - %s)' % (hi, lo) if k == 0 else 'c * (%s - %s)' % (hi, lo) if k == 6 else
                         '_seg(%s, %s, %s, %s, %s, %s)' % ('pqr'[k // 2 - 1], 'pqr'[k // 2], 'abc'[k // 2 - 1], 'abc'[k // 2], lo, hi))
            out.append('def f_average_%d_%d(p: float, q: float, r: float, a: float, b: float, c: float%s%s, lst: bool):\n'
                       '    assert %s\n'
                       '    return _mean3(p, q, r, a, b, c, %s, %s, %s, lst)\n' % (
                           i, j, ', ls: float' if ls == 'ls' else '', ', le: float' if le == 'le' else '', ' and '.join(pre), ls, le, ' + '.join(n)))
    return '\n'.join(out)


SPEC += _averages()
AVG = 'pytracer.spectral.spectrum.SampledSpectrum.average_spectrum_samples'
KW = {'f_from_sampled': {'replace': {AVG: 'average_stub'}}, 'f_sorted': {'replace': {AVG: 'average_two'}},
      'f_rgb_from_sampled': {'replace': {AVG: 'average_two'}}, 'f_tables': {'replace': {AVG: 'average_key'}}}


def check(ctx):
    ctx.rule('spectrum', 'spectra are converted, combined, averaged and tabulated as defined')
    mod = ctx.spec(SPEC, 'p17')
    ctx.prove_spec('spectrum', mod, 'pytracer/spectral', lambda fn: dict(KW.get(fn, {}), spec_native=False))
