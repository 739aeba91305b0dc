"""Scene description: transformation state, blocks, named systems, options, parameter lists."""
EXPLANATION = '''
Sequences of scene-description calls are interpreted from the initial module state, with symbolic transformations, coordinates and parameters;
module variables, decorators and exceptions are part of the abstract state. After each sequence the current transformations are compared, as
normal forms at a symbolic point, with the composition the calls denote; every state-changing call is placed between each begin and end.
'''
LEVEL = 'other'

SPEC = '''
import numpy as np
import pytracer.geometry as geo
import pytracer.interface as inter
import pytracer.transform as trans
from pytracer.geometry import Point, Vector
from pytracer.interface import *
from pytracer.interface.api import *

def _quiet():
    pass

def _same(a, b):
    return a.x == b.x and a.y == b.y and a.z == b.z

def _is(t, p):
    """every current transformation agrees with the given one at a point"""
    ok = len(inter.TRANSFORM_SET) == inter.MAX_TRANSFORM
    for s in inter.TRANSFORM_SET:
        ok = ok and _same(s(p), t(p))
    return ok

def _refused(f):
    try:
        f()
    except RuntimeError:
        return True
    return False

def _start(t):
    system_init(Option())
    trans_identity()
    trans_set(t)

def f_status():
    o, q = Option(), Option()
    r = {}
    early = _refused(lambda: trans_identity())
    system_init(o)
    kept = inter.GLOBAL_OPTION is o
    again = _refused(lambda: system_init(q))
    kept = kept and inter.GLOBAL_OPTION is o
    system_clean()
    late = _refused(lambda: trans_identity()) and inter.GLOBAL_OPTION is None
    system_clean()
    system_init(q)
    return {'early': early, 'option': kept, 'twice': again, 'late': late, 'restart': inter.GLOBAL_OPTION is q and not _refused(lambda: trans_identity())}

def f_guarded(t: trans.Transform):
    # every entry point refuses to work outside of an initialised system
    p = Param()
    return {'identity': _refused(lambda: trans_identity()), 'translate': _refused(lambda: trans_translate([1., 0., 0.])), 'rotate': _refused(lambda: trans_rotate(1., [1., 0., 0.])),
            'scale': _refused(lambda: trans_scale([1., 1., 1.])), 'look_at': _refused(lambda: trans_look_at([0., 0., 0.], [0., 0., 1.], [0., 1., 0.])),
            'concat': _refused(lambda: trans_concat(t)), 'set': _refused(lambda: trans_set(t)), 'add': _refused(lambda: add_coordinate_system('a')),
            'get': _refused(lambda: set_coordinate_system('a')), 'time': _refused(lambda: set_transformation_time(0., 1.)), 'filter': _refused(lambda: set_pixel_filter('box', p)),
            'film': _refused(lambda: set_film('image', p)), 'camera': _refused(lambda: set_camera('perspective', p)), 'sampler': _refused(lambda: set_sampler('random', p)),
            'aggregator': _refused(lambda: set_aggregator('grid', p)), 'renderer': _refused(lambda: set_renderer('sampler', p)), 'surface': _refused(lambda: set_surface('path', p)),
            'volume': _refused(lambda: set_volume('single', p)), 'world': _refused(lambda: world_begin()), 'attribute_begin': _refused(lambda: attribute_begin()),
            'attribute_end': _refused(lambda: attribute_end()), 'transform_begin': _refused(lambda: transform_begin()), 'transform_end': _refused(lambda: transform_end())}

def f_initial(p: Point):
    system_init(Option())
    return {'identity': _is(trans.Transform(), p)}

def f_identity(t: trans.Transform, p: Point):
    _start(t)
    a = _is(t, p)
    trans_identity()
    return {'set': a, 'identity': _is(trans.Transform(), p)}

def f_compose(t: trans.Transform, s: trans.Transform, p: Point, x: float, y: float, z: float, a: float):
    _start(t)
    trans_concat(s)
    c = _is(t * s, p)
    trans_set(t)
    trans_translate([x, y, z])
    d = _is(t * trans.Transform.translate(Vector(x, y, z)), p)
    trans_set(t)
    trans_scale([x, y, z])
    e = _is(t * trans.Transform.scale(x, y, z), p)
    trans_set(t)
    trans_rotate(a, [0., 0., 1.])
    f = _is(t * trans.Transform.rotate(a, Vector(0., 0., 1.)), p)
    trans_set(t)
    trans_look_at([x, y, z], [x, y, z + 2.], [0., 1., 0.])
    g = _is(t * trans.Transform.look_at(Point(x, y, z), Point(x, y, z + 2.), Vector(0., 1., 0.)), p)
    return {'concat': c, 'translate': d, 'scale': e, 'rotate': f, 'look_at': g}

def _touch(k, s):
    if k == 0:
        trans_identity()
    elif k == 1:
        trans_translate([1., 2., 3.])
    elif k == 2:
        trans_rotate(90., [0., 0., 1.])
    elif k == 3:
        trans_scale([2., 3., 4.])
    elif k == 4:
        trans_look_at([0., 0., 0.], [1., 0., 0.], [0., 1., 0.])
    elif k == 5:
        trans_concat(s)
    elif k == 6:
        trans_set(s)
    elif k == 7:
        add_coordinate_system('touched')
    elif k == 8:
        set_coordinate_system('given')
    elif k == 9:
        set_camera('ortho', None)
    else:
        attribute_begin()
        trans_concat(s)
        attribute_end()

def f_blocks(t: trans.Transform, s: trans.Transform, p: Point):
    # a block restores the transformation, whatever call is made inside
    _start(t)
    add_coordinate_system('given')
    ok, no = True, True
    for k in range(11):
        transform_begin()
        no = no and _is(t, p)
        _touch(k, s)
        transform_end()
        ok = ok and _is(t, p)
        attribute_begin()
        no = no and _is(t, p)
        _touch(k, s)
        attribute_end()
        ok = ok and _is(t, p)
    return {'begin_keeps': no, 'end_restores': ok}

def f_blocks_two(t: trans.Transform, s: trans.Transform, p: Point):
    # and whatever two calls are made: the first may leave the state shared with what was saved
    _start(t)
    add_coordinate_system('given')
    ok = True
    for k in range(11):
        for j in range(11):
            transform_begin()
            _touch(k, s)
            _touch(j, s)
            transform_end()
            ok = ok and _is(t, p)
            attribute_begin()
            _touch(k, s)
            _touch(j, s)
            attribute_end()
            ok = ok and _is(t, p)
    set_coordinate_system('given')
    return {'end_restores': ok, 'named': _is(t, p)}

def f_nested(t: trans.Transform, s: trans.Transform, u: trans.Transform, p: Point):
    _start(t)
    g = inter.GRAPHICS_STATE
    attribute_begin()
    trans_concat(s)
    transform_begin()
    trans_concat(u)
    attribute_begin()
    trans_scale([2., 2., 2.])
    attribute_end()
    a = _is(t * s * u, p)
    transform_end()
    b = _is(t * s, p)
    attribute_end()
    return {'inner': a, 'middle': b, 'outer': _is(t, p), 'graphics': inter.GRAPHICS_STATE is g}

def f_states(t: trans.Transform, p: Point):
    # each block returns the graphics state it was opened with
    _start(t)
    a, b, c = GraphicsState(), GraphicsState(), GraphicsState()
    inter.GRAPHICS_STATE = a
    attribute_begin()
    inter.GRAPHICS_STATE = b
    attribute_begin()
    inter.GRAPHICS_STATE = c
    attribute_end()
    r = inter.GRAPHICS_STATE is b
    attribute_end()
    return {'inner': r, 'outer': inter.GRAPHICS_STATE is a}

def f_keywords(x: float, y: float, z: float, p: Point):
    # arguments may be given by name
    system_init(Option())
    set_transformation_time(end=y, start=x)
    o, q = inter.RENDER_OPTION, Param()
    set_film(param=q, name='Image')
    set_camera('Ortho', param=q)
    trans_translate(dx=[x, y, z])
    add_coordinate_system(name='here')
    trans_identity()
    set_coordinate_system(name='here')
    return {'time': o.trans_start_time == x and o.trans_end_time == y, 'film': o.film_name == 'image' and o.film_param is q, 'camera': o.camera_name == 'ortho' and o.camera_param is q,
            'moved': _is(trans.Transform.translate(Vector(x, y, z)), p)}

def _slots(t, s):
    """the current transformations of the start and of the end of the motion differ"""
    trans_set(t)
    inter.TRANSFORM_SET[1] = s

def _are(t, s, p):
    return _same(inter.TRANSFORM_SET[0](p), t(p)) and _same(inter.TRANSFORM_SET[1](p), s(p))

def f_slots(t: trans.Transform, s: trans.Transform, u: trans.Transform, p: Point, x: float, y: float, z: float):
    # calls act on every current transformation by itself
    _start(t)
    _slots(t, s)
    r = {'kept': len(inter.TRANSFORM_SET) == 2 and _are(t, s, p)}
    trans_concat(u)
    r['concat'] = _are(t * u, s * u, p)
    _slots(t, s)
    trans_translate([x, y, z])
    m = trans.Transform.translate(Vector(x, y, z))
    r['translate'] = _are(t * m, s * m, p)
    _slots(t, s)
    trans_scale([x, y, z])
    m = trans.Transform.scale(x, y, z)
    r['scale'] = _are(t * m, s * m, p)
    _slots(t, s)
    trans_set(u)
    r['set'] = _are(u, u, p)
    _slots(t, s)
    trans_identity()
    r['identity'] = _are(trans.Transform(), trans.Transform(), p)
    return r

def f_slots_kept(t: trans.Transform, s: trans.Transform, u: trans.Transform, p: Point):
    # blocks, named systems and the camera keep all of them
    _start(t)
    _slots(t, s)
    r = {}
    add_coordinate_system('a')
    attribute_begin()
    trans_set(u)
    attribute_end()
    r['attribute'] = _are(t, s, p)
    transform_begin()
    trans_concat(u)
    transform_end()
    r['transform'] = _are(t, s, p)
    trans_set(u)
    set_coordinate_system('a')
    r['named'] = _are(t, s, p)
    set_camera('Pinhole', None)
    c = inter.RENDER_OPTION.cam2wld
    r['camera'] = len(c) == 2 and _same(c[0](p), t.inverse()(p)) and _same(c[1](p), s.inverse()(p)) and _are(t, s, p)
    set_coordinate_system('camera')
    r['camera_system'] = _are(t.inverse(), s.inverse(), p)
    return r

def f_surplus(t: trans.Transform, p: Point):
    # an end without a begin changes nothing
    _start(t)
    g = inter.GRAPHICS_STATE
    attribute_end()
    transform_end()
    a = _is(t, p)
    attribute_begin()
    attribute_end()
    attribute_end()
    transform_end()
    b = _is(t, p) and inter.GRAPHICS_STATE is g
    transform_begin()
    attribute_end()
    transform_end()
    c = _is(t, p) and inter.GRAPHICS_STATE is g
    transform_begin()
    transform_end()
    transform_end()
    attribute_end()
    return {'fresh': a, 'after': b, 'within': c, 'balanced': _is(t, p) and inter.GRAPHICS_STATE is g}

def f_named(t: trans.Transform, s: trans.Transform, p: Point):
    # a named system is a copy: neither later changes nor its own use alter it
    _start(t)
    add_coordinate_system('a')
    ok = True
    for k in range(7):
        _touch(k, s)
        set_coordinate_system('a')
        ok = ok and _is(t, p)
    trans_concat(s)
    add_coordinate_system('b')
    set_coordinate_system('a')
    a = _is(t, p)
    set_coordinate_system('b')
    b = _is(t * s, p)
    add_coordinate_system('a')
    trans_identity()
    set_coordinate_system('a')
    return {'kept': ok, 'apart': a and b, 'replaced': _is(t * s, p), 'unknown': _refused(lambda: set_coordinate_system('c'))}

def f_world(t: trans.Transform, s: trans.Transform, p: Point):
    _start(t)
    world_begin()
    a = _is(trans.Transform(), p)
    trans_concat(s)
    set_coordinate_system('world')
    return {'identity': a, 'named': _is(trans.Transform(), p), 'status': inter.API_STATUS == inter.API_WORLD}

def f_camera(t: trans.Transform, s: trans.Transform, p: Point):
    _start(t)
    q = Param()
    set_camera('PerspectiVe', q)
    c = inter.RENDER_OPTION.cam2wld
    ok = True
    for k in range(7):
        _touch(k, s)
        set_coordinate_system('camera')
        ok = ok and _is(t.inverse(), p)
    _touch(1, s)
    o = inter.RENDER_OPTION
    for m in o.cam2wld:
        ok = ok and _same(m(p), t.inverse()(p))
    return {'named': ok, 'count': len(o.cam2wld) == inter.MAX_TRANSFORM, 'name': o.camera_name == 'perspective', 'param': o.camera_param is q}

def _others(o, but):
    d = RenderOption()
    ok = True
    if but != 'filter':
        ok = ok and o.filter_name == d.filter_name and o.filter_param is None
    if but != 'film':
        ok = ok and o.film_name == d.film_name and o.film_param is None
    if but != 'sampler':
        ok = ok and o.sampler_name == d.sampler_name and o.sampler_param is None
    if but != 'aggregator':
        ok = ok and o.aggregator_name == d.aggregator_name and o.aggregator_param is None
    if but != 'renderer':
        ok = ok and o.renderer_name == d.renderer_name and o.renderer_param is None
    if but != 'surface':
        ok = ok and o.surface_name == d.surface_name and o.surface_param is None
    if but != 'volume':
        ok = ok and o.volume_name == d.volume_name and o.volume_param is None
    if but != 'camera':
        ok = ok and o.camera_name == d.camera_name and o.camera_param is None
    if but != 'time':
        ok = ok and o.trans_start_time == 0. and o.trans_end_time == 1.
    return ok

def f_defaults(p: Point):
    system_init(Option())
    o = inter.RENDER_OPTION
    ok = len(o.cam2wld) == inter.MAX_TRANSFORM
    for m in o.cam2wld:
        ok = ok and _same(m(p), p)
    return {'names': o.filter_name == 'box' and o.film_name == 'image' and o.sampler_name == 'stratified' and o.aggregator_name == 'simple' and o.renderer_name == 'sampler'
                     and o.surface_name == 'directlighting' and o.volume_name == '' and o.camera_name == 'perspective', 'params': _others(o, ''), 'camera': ok}

def f_options(a: float, b: float):
    system_init(Option())
    o, q = inter.RENDER_OPTION, Param()
    set_pixel_filter('Mitchell', q)
    r = o.filter_name == 'mitchell' and o.filter_param is q and _others(o, 'filter')
    set_pixel_filter('box', None)
    set_film('IMAGE2', q)
    s = o.film_name == 'image2' and o.film_param is q and _others(o, 'film')
    set_film('image', None)
    set_sampler('Random', q)
    t = o.sampler_name == 'random' and o.sampler_param is q and _others(o, 'sampler')
    set_sampler('Stratified', None)
    set_aggregator('Grid', q)
    u = o.aggregator_name == 'grid' and o.aggregator_param is q and _others(o, 'aggregator')
    set_aggregator('simple', None)
    set_renderer('Metropolis', q)
    v = o.renderer_name == 'metropolis' and o.renderer_param is q and _others(o, 'renderer')
    set_renderer('sampler', None)
    set_surface('Path', q)
    w = o.surface_name == 'path' and o.surface_param is q and _others(o, 'surface')
    set_surface('DirectLighting', None)
    set_volume('Single', q)
    x = o.volume_name == 'single' and o.volume_param is q and _others(o, 'volume')
    set_volume('', None)
    set_transformation_time(a, b)
    y = o.trans_start_time == a and o.trans_end_time == b and _others(o, 'time')
    set_transformation_time()
    return {'filter': r, 'film': s, 'sampler': t, 'aggregator': u, 'renderer': v, 'surface': w, 'volume': x, 'time': y, 'back': _others(o, '')}

def f_fresh(t: trans.Transform, s: trans.Transform, p: Point):
    # nothing of one scene reaches the next
    _start(t)
    set_film('other', Param())
    add_coordinate_system('mine')
    attribute_begin()
    transform_begin()
    system_clean()
    system_init(Option())
    a = inter.RENDER_OPTION.film_name == 'image' and _others(inter.RENDER_OPTION, '') and _is(trans.Transform(), p)
    trans_identity()
    trans_set(s)
    transform_end()
    attribute_end()
    return {'options': a, 'stacks': _is(s, p), 'systems': _refused(lambda: set_coordinate_system('mine'))}

def f_param(x: float, y: float, z: float):
    q, r = Param(), Param()
    ok, sep = True, True
    for k in ['float', 'int', 'bool', 'vector', 'normal', 'spectrum', 'point', 'string']:
        ok = ok and not q.has_more(k) and q.enum(k) is None and len(q.fetch(k)) == 0
        q.push_back(k, x)
        q.push_back(k, [y, z])
        sep = sep and not r.has_more(k)
    for k in ['float', 'int', 'bool', 'vector', 'normal', 'spectrum', 'point', 'string']:
        f = q.fetch(k)
        ok = ok and q.has_more(k) and len(f) == 2 and f[0] == x and f[1][0] == y
        ok = ok and q.enum(k) == x and q.has_more(k)
        g = q.enum(k)
        ok = ok and g[0] == y and g[1] == z and not q.has_more(k) and q.enum(k) is None
    return {'fifo': ok, 'separate': sep}

def _key(f):
    try:
        f()
    except KeyError:
        return True
    return False

def f_param_type(x: float):
    q = Param()
    return {'push': _key(lambda: q.push_back('matrix', x)), 'enum': _key(lambda: q.enum('matrix')), 'fetch': _key(lambda: q.fetch('matrix')), 'more': _key(lambda: q.has_more('matrix'))}

def f_option():
    o, d = Option('a.png', True, 3), Option()
    return {'given': o.image_file == 'a.png' and o.quick_render and o.n_cores == 3, 'default': d.image_file == '' and not d.quick_render and d.n_cores == 1}
'''
KW = {'try_total': True, 'replace': {'pytracer.spectral.spectrum.SampledSpectrum.init': '_quiet'}}


def check(ctx):
    ctx.rule('scene', 'scene description clause holds for every argument (exact normal forms)')
    mod = ctx.spec(SPEC, 'p23')
    ctx.prove_spec('scene', mod, 'pytracer/interface', lambda fn: KW)
