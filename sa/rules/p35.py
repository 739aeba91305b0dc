"""Image files: reading texels, writing pictures and windows of them."""
EXPLANATION = '''
read_image is interpreted over pictures of every mode and of sides that are and are not powers of two, write_image for symbolic pixel values, with a picture library of
which only the contract is known: opening, converting, resizing (width first), arrays of rows, saving. What is handed out and what is saved under which name is
compared, pixel by pixel, with the definition.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.utility.imageio as iio

class Shelf:
    """the files written so far, and the one being read"""
    def __init__(self):
        self.files, self.opened, self.closed = {}, 0, 0

class Pic:
    """a picture: its bands, and for each pixel a mark that names the place"""
    def __init__(self, mode, rows, shelf=None):
        self.mode, self.rows, self.shelf = mode, rows, shelf

    @property
    def size(self):
        return len(self.rows[0]), len(self.rows)

    @property
    def width(self):
        return len(self.rows[0])

    @property
    def height(self):
        return len(self.rows)

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()
        return False

    def close(self):
        if self.shelf is not None:
            self.shelf.closed += 1

    def copy(self):
        return Pic(self.mode, self.rows)

    def load(self):
        return None

    def getbands(self):
        return tuple(self.mode)

    def convert(self, mode):
        assert mode == 'RGB'
        if len(self.mode) >= 3:
            return Pic('RGB', [[p[0:3] for p in r] for r in self.rows])
        return Pic('RGB', [[[p[0], p[0], p[0]] for p in r] for r in self.rows])

    def resize(self, size, resample=0):
        w, h = self.size
        return Pic(self.mode, [[self.rows[i * h // size[1]][j * w // size[0]] for j in range(size[0])] for i in range(size[1])])

    def __array__(self):
        if len(self.mode) == 1:
            return np.array([[p[0] for p in r] for r in self.rows])
        return np.array(self.rows)

class Kept:
    """a picture written before"""
    def __init__(self, arr):
        self.arr, self.mode, self.size = arr, 'RGB', (arr.shape[1], arr.shape[0])

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return False

    def close(self):
        SHELF.closed += 1

    def convert(self, mode):
        return self

    def __array__(self):
        return self.arr.copy()

class Made:
    def __init__(self, arr, mode):
        self.arr, self.mode = arr.copy(), mode

    def save(self, name, fmt=None):
        SHELF.files[name] = self.arr
        SHELF.last, SHELF.mode, SHELF.fmt = name, self.mode, fmt

SHELF = Shelf()

def _rows(w, h, n):
    return [[[100. * i + 10. * j + k for k in range(n)] for j in range(w)] for i in range(h)]

def _open(name, mode='r'):
    SHELF.opened += 1
    if name in SHELF.files:
        return Kept(SHELF.files[name])
    if name == 'rgb':
        return Pic('RGB', _rows(4, 2, 3), SHELF)
    if name == 'rgba':
        return Pic('RGBA', _rows(2, 4, 4), SHELF)
    if name == 'odd':
        return Pic('RGBA', _rows(3, 2, 4), SHELF)
    if name == 'tall':
        return Pic('RGB', _rows(2, 3, 3), SHELF)
    if name == 'grey':
        return Pic('L', _rows(2, 2, 1), SHELF)
    if name == 'dot':
        return Pic('RGB', _rows(1, 1, 3), SHELF)
    raise IOError(name)

def _exists(name):
    return name in SHELF.files

def _fromarray(arr, mode=None):
    return Made(arr, mode)

def _refused(f):
    try:
        f()
    except Exception:
        return True
    return False

def _mark(p, i, j):
    return p[0] == 100. * i + 10. * j and p[1] == 100. * i + 10. * j + 1. and p[2] == 100. * i + 10. * j + 2.

def _full(t, w, h):
    r = t.shape == (h, w, 3)
    for i in range(h):
        for j in range(w):
            r = r and _mark(t[i, j], i, j)
    return r

def f_read():
    a, b, c = iio.read_image('rgb'), iio.read_image('rgba'), iio.read_image('dot')
    return {'rows and columns': _full(a, 4, 2), 'alpha': _full(b, 2, 4), 'one texel': _full(c, 1, 1)}

def f_read_closed():
    a = iio.read_image('rgb')
    return {'closed': SHELF.opened == 1 and SHELF.closed == 1}

def f_read_resized():
    a, b = iio.read_image('odd'), iio.read_image('tall')
    return {'wide': a.shape == (2, 4, 3) and _mark(a[0, 0], 0, 0) and _mark(a[1, 3], 1, 2) and _mark(a[0, 2], 0, 1), 'tall': b.shape == (4, 2, 3) and _mark(b[3, 1], 2, 1) and _mark(b[0, 1], 0, 1)}

def f_read_grey():
    g = iio.read_image('grey')
    return {'bands': g.shape == (2, 2, 3) and g[1, 0][0] == 100. and g[1, 0][1] == 100. and g[1, 0][2] == 100. and g[0, 1][2] == 10.}

def f_read_refused():
    return {'no name': _refused(lambda: iio.read_image(None)), 'no file': _refused(lambda: iio.read_image('none'))}

def _rgb(a, b, c, d):
    # 2 wide, 3 high; green is black, the other channels have their maxima at different places
    return np.array([[[a, 0., 9.], [b, 0., 1.]], [[2., 0., 3.], [4., 0., c]], [[5., 0., 6.], [7., 0., d]]])

def _whole(v, m):
    # values are stored as whole numbers of 255ths of the maximum
    return int(255. * v / m)

def f_written(a: float, b: float):
    assert a > 0. and b > a
    x, y = _rgb(a, b, 2., 8.), _rgb(a, b, 2., 8.)
    m = max(b, 7.)
    r = iio.write_image('new', x, None, 2, 3, 2, 3, 0, 0)
    s = SHELF.files['new']
    same = True
    for i in range(3):
        for j in range(2):
            for k in range(3):
                same = same and x[i, j, k] == y[i, j, k]
    return {'name': SHELF.last == 'new' and SHELF.mode == 'RGB' and len(SHELF.files) == 1, 'shape': s.shape == (3, 2, 3) and r.shape == (3, 2, 3), 'argument': same,
            'red': s[0, 0, 0] == _whole(a, m) and s[0, 1, 0] == _whole(b, m) and s[2, 1, 0] == _whole(7., m) and s[1, 0, 0] == _whole(2., m),
            'green': s[0, 0, 1] == 0. and s[2, 1, 1] == 0. and s[1, 0, 1] == 0., 'blue': s[0, 0, 2] == 255. and s[0, 1, 2] == 28. and s[2, 1, 2] == 226. and s[1, 1, 2] == 56.,
            'returned': r[0, 0, 0] == s[0, 0, 0] and r[2, 1, 2] == s[2, 1, 2] and r[1, 0, 2] == s[1, 0, 2]}

def f_written_window(a: float):
    assert a > 7.
    old = np.full((4, 5, 3), 17.)
    old[3, 4, 0] = 18.
    SHELF.files['old'] = old
    r = iio.write_image('old', _rgb(a, 1., 2., 8.), None, 2, 3, 5, 4, 2, 1)
    s = SHELF.files['old']
    out = s[3, 4, 0] == 18.
    for i in range(4):
        for j in range(5):
            if i < 1 or j < 2 or j > 3:
                out = out and s[i, j, 1] == 17. and s[i, j, 2] == 17.
    return {'outside': out and s.shape == (4, 5, 3), 'inside': s[1, 2, 0] == 255. and s[1, 2, 1] == 0. and s[1, 3, 2] == 28. and s[3, 2, 2] == 170. and s[3, 3, 2] == 226.,
            'name': len(SHELF.files) == 1 and SHELF.last == 'old' and SHELF.mode == 'RGB', 'returned': r[1, 2, 0] == 255. and r[0, 0, 0] == 17. and r[3, 3, 2] == 226.}

def f_write_refused(a: float):
    x = _rgb(1., 2., 3., 4.)
    return {'no name': _refused(lambda: iio.write_image(None, x, None, 2, 3, 2, 3, 0, 0)), 'no pixels': _refused(lambda: iio.write_image('f', None, None, 2, 3, 2, 3, 0, 0)),
            'window of nothing': _refused(lambda: iio.write_image('f', x, None, 2, 3, 4, 5, 0, 0)), 'narrow window of nothing': _refused(lambda: iio.write_image('f', x, None, 2, 3, 4, 3, 0, 0)),
            'nothing written': len(SHELF.files) == 0}
'''


def KW(n):
    return {'spec_native': False, 'try_total': 'refused' in n, 'replace': {'ext:PIL.Image.open': '_open', 'ext:os.path.exists': '_exists', 'ext:PIL.Image.fromarray': '_fromarray',
                                                                          'ext:os.path.isfile': '_exists'}}


def check(ctx):
    ctx.rule('image', 'image files hold the pixels handed over, in rows from the top')
    ctx.prove_spec('image', ctx.spec(SPEC, 'p35'), 'pytracer/utility/imageio.py', KW)
