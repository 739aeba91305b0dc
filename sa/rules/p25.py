"""Queries change neither the scene nor their arguments."""
EXPLANATION = '''
For every function of the package the analysis computes which objects that existed before the call it may modify: attribute and item stores,
in-place operators on objects that certainly are arrays or spectra, mutating container and array methods, `out=` arguments, rebound module
and class variables. Objects are followed flow-sensitively through variables, fields, displays, views, constructors, results and calls (resolved
through the class hierarchy, to a fixpoint over the call graph). Each public operation has a contract that lists what it may modify; any other
effect is an alarm at the statement that causes it. Calls on receivers of unknown class contribute nothing.
'''
LEVEL = 'other'

# public operations: class (every override in a subclass included) or module, and names; * marks all public methods the class itself defines today
QUERIES = '''
aggregate.primitive.Primitive: world_bound can_intersect intersect intersect_p refine get_area_light get_bsdf get_bssrdf full_refine
aggregate.aggregate.Voxel: intersect intersect_p
aggregate.aggregate.GridAccel: pos2voxel voxel2pos offset
aggregate.intersection.Intersection: get_bsdf get_bssrdf le
camera.camera.Camera: generate_ray generate_ray_differential
film.film.Film: add_sample splat get_sample_extent get_pixel_extent update_display write_image
filter.filter.Filter: __call__
filter.filter.GaussianFilter: gaussian
filter.filter.LanczosSincFilter: sinc
filter.filter.MitchellFilter: mitchell
geometry.BBox: from_bbox __eq__ __ne__ __getitem__ Union union overlaps inside expand surface_area volume maximum_extent lerp offset bounding_sphere intersect_p
geometry.Normal: from_arr __eq__ __ne__ abs_dot cross sq_length length normalize
geometry.Point: from_arr __eq__ __ne__ __sub__ sq_length length sq_dist dist
geometry.Vector: from_arr __eq__ __ne__ abs_dot cross sq_length length normalize
geometry.Ray: from_parent from_ray __call__
geometry.RayDifferential: from_parent from_ray from_rd scale_differential
geometry.diffgeom.DifferentialGeometry: copy compute_differential
geometry.utility: coordinate_system normalize face_forward spherical_direction spherical_theta spherical_phi
integrator.integrator.Integrator: preprocess request_samples
integrator.surface.surface.SurfaceIntegrator: li
integrator.utility: compute_light_sampling_cdf uniform_sample_all_lights uniform_sample_one_light specular_reflect specular_transmit estimate_direct
light.light.Light: l sample_l sample_r pdf power is_delta_light le
light.light.AreaLight: l
light.utility.LightSample: from_rand from_sample
light.utility.ShapeSet: sample_p sample pdf pdf_p
light.utility.VisibilityTester: set_segment set_ray unoccluded transmittance
material.material.Material: get_bsdf get_bssrdf bump
montecarlo.distribution.Distribution1D: sample_cont sample_dis
montecarlo.distribution.Distribution2D: sample_cont pdf
montecarlo.utility: balance_heuristic power_heuristic rejection_sample_disk uniform_sample_hemisphere uniform_hemisphere_pdf uniform_sample_sphere uniform_sphere_pdf uniform_sample_disk concentric_sample_disk cosine_sample_hemisphere cosine_hemisphere_pdf uniform_sample_triangle uniform_sample_cone uniform_cone_pdf sample_hg hg_pdf
reflection.bdf.bdf.BDF: f pdf sample_f rho_hd rho_hh match_flag
reflection.bdf.bdf.BDFType: __bool__ __invert__ __or__ __and__ __xor__ __lshift__ __rshift__
reflection.bdf.bdf.BRDF2BTDF: switch
reflection.bdf.fresnelblend.FresnelBlend: schlick
reflection.bdf.torrance.MicrofacetDistribution: D sample_f pdf
reflection.bdf.torrance.Microfacet: G
reflection.bsdf.BSDF: sample_f pdf push_back n_BDF n_components w2l l2w f rho_hd rho_hh
reflection.bsdf.BSDFSample: from_rand from_sample
reflection.fresnel.Fresnel: __call__
reflection.utility: cos_theta abs_cos_theta sin_theta_sq sin_theta cos_phi sin_phi fr_diel fr_cond brdf_remap
renderer.renderer.Renderer: li transmittance
sampler.sample.Sample: duplicate add_1d add_2d
sampler.sampler.Sampler: generate maximum_sample_cnt get_subsampler report_results round_size compute_subwindow
sampler.utility: stratified_sample_1d stratified_sample_2d latin_hypercube_1d latin_hypercube_2d
scene.scene.Scene: intersect intersect_p world_bound
shape.Shape: object_bound world_bound can_intersect refine intersect intersect_p get_shading_geometry area sample sample_p pdf pdf_p
shape: NEXT PREV
shape.loopsubdiv: create_loop_subdiv
shape.loopsubdiv.LoopSubdiv: beta gamma weight_one_ring weight_boundary
shape.loopsubdiv.LoopSubdiv.SDEdge: __lt__ __eq__ __hash__
shape.loopsubdiv.LoopSubdiv.SDFace: vnum next_face prev_face next_vert prev_vert other_vert
shape.loopsubdiv.LoopSubdiv.SDVertex: __lt__ __eq__ __hash__ valence one_ring
shape.triangle: create_triangle_mesh
shape.triangle.Triangle: get_uvs __getitem__
spectral.spectrum: xyz2rgb rgb2xyz
spectral.spectrum.CoefficientSpectrum: __eq__ __ne__ n_samples c create_from_array create_from_list create is_black sqrt exp pow lerp has_nans clip y from_sampled from_rgb from_xyz to_xyz to_rgb
texture.texture.Texture: __call__
texture.texture.image.ImageTexture: get_texture
texture.texturemap.TextureMapping2D: __call__
texture.texturemap.TextureMapping3D: __call__
texture.utility: Lanczos smooth_step FBm turbulence noise
texture.utility.MIPMap: resample texel width height levels look_up
transform.AnimatedTransform: __call__ motion_bounds decompose interpolate
transform.Transform: m m_inv __eq__ __ne__ copy __call__ __mul__ translate scale rotate_x rotate_y rotate_z rotate look_at orthographic perspective inverse is_identity has_scale swaps_handedness
transform.quat: dot to_transform from_transform from_arr slerp
utility.imageio: read_image write_image
utility.utility: feq eq_unity ne_unity is_zero not_zero ftoi ctoi rtoi lerp round_pow_2 next_pow_2 is_pow_2 clip is_black ufunc_lerp
volume.bssrdf.BSSRDF: eta sigma_a sigma_prime_s
volume.utility: phase_isotrophic phase_rayleigh phase_mie_hazy phase_mie_murky phase_hg phase_schlick subsurface_from_diffuse get_volume_scattering
volume.volume.VolumeRegion: world_bound intersect_p sigma_a sigma_s lve p tau sigma_t
volume.volume.DensityRegion: __call__
volume.volume.VolumeGridDensity: nx ny nz
'''

# what an operation may modify: %k is the k-th parameter (%0 the receiver), followed by the path; @ a class or module variable
MAY = {
    'aggregate.primitive.Primitive.intersect': '%1.maxt %2',                         # the ray is shortened, the intersection record is filled in
    'aggregate.primitive.Primitive.refine': '%1',
    'aggregate.primitive.Primitive.full_refine': '%1',
    'aggregate.aggregate.Voxel.intersect': '~%0 ~@ %1.maxt %2',                          # primitives are refined on first use
    'aggregate.aggregate.Voxel.intersect_p': '~%0 ~@',
    'aggregate.intersection.Intersection.get_bsdf': '%0.dg',                         # its differentials are computed
    'aggregate.intersection.Intersection.get_bssrdf': '%0.dg',
    'film.film.Film.add_sample': '%0',
    'film.film.Film.splat': '%0',
    'film.film.Film.update_display': '%0',
    'film.film.Film.write_image': '%0',
    'geometry.BBox.union': '%0',
    'geometry.BBox.expand': '%0',
    'geometry.Vector.normalize': '%0',
    'geometry.Normal.normalize': '%0',
    'geometry.RayDifferential.scale_differential': '%0',
    'geometry.diffgeom.DifferentialGeometry.compute_differential': '%0',
    'integrator.integrator.Integrator.preprocess': '%0',
    'integrator.integrator.Integrator.request_samples': '%0 %2',
    'integrator.surface.surface.SurfaceIntegrator.li': '%4 ~%6',
    'light.utility.VisibilityTester.set_segment': '%0',
    'light.utility.VisibilityTester.set_ray': '%0',
    'reflection.bsdf.BSDF.push_back': '%0',
    'light.utility.LightSampleOffset.__init__': '%2',                                 # asks for the samples it will read
    'reflection.bsdf.BSDFSampleOffset.__init__': '%2',
    'sampler.sample.Sample.__init__': '%2 %3',                                        # the integrators note where their samples are
    'renderer.renderer.Renderer.li': '%2.maxt %4 ~%5',
    'sampler.sample.Sample.add_1d': '%0',
    'sampler.sample.Sample.add_2d': '%0',
    'sampler.sampler.Sampler.generate': '%0 %1',
    'sampler.sampler.Sampler.report_results': '%0',
    'scene.scene.Scene.intersect': '%1.maxt %2',
    'shape.loopsubdiv.LoopSubdiv.refine': '~%0',                                       # next level scratch links, written anew by every call
    'texture.texture.image.ImageTexture.get_texture': '~@',                            # cache
}

# constructors: these fields are copies of what the constructor was given
OWN = '''
aggregate.aggregate.Voxel: primitives
aggregate.accelerator.bvh.BVH: primitives
geometry.Ray: o d
geometry.RayDifferential: o d rxOrigin ryOrigin rxDirection ryDirection
geometry.BBox: pMin pMax
geometry.diffgeom.DifferentialGeometry: p nn dpdu dpdv dndu dndv dpdx dpdy
film.film.ImageFilm: crop pixels filter_table
film.film.ImageFilm.Pixel: Lxyz splatXYZ
light.light.DistantLight: di
light.utility.LightSample: u_pos
light.utility.ShapeSet: shapes areas
montecarlo.distribution.Distribution1D: func cdf
reflection.bsdf.BSDFSample: u_dir
reflection.bsdf.BSDF: sn bdfs
reflection.bdf.measured.IrIsotropicBRDFSample: p v
sampler.sample.Sample: n1D n2D oneD twoD
shape.loopsubdiv.LoopSubdiv: vertices faces
shape.loopsubdiv.LoopSubdiv.SDVertex: P
shape.triangle.TriangleMesh: vertexIndex p uvs n s
texture.utility.MIPMap: _MIPMap__pyramid
transform.Transform: _Transform__m _Transform__m_inv
volume.volume.VolumeGridDensity: density
'''

# operations whose result is, and holds, storage of its own
RESULT = '''
aggregate.aggregate.GridAccel: pos2voxel
camera.camera.Camera: generate_ray generate_ray_differential
geometry.BBox: from_bbox Union lerp offset bounding_sphere
geometry.Normal: from_arr cross
geometry.Point: from_arr __sub__
geometry.Vector: from_arr cross
geometry.Ray: from_parent from_ray __call__
geometry.RayDifferential: from_parent from_ray from_rd
geometry.diffgeom.DifferentialGeometry: copy
geometry.utility: normalize face_forward spherical_direction
light.light.DistantLight: sample_l
material.material.Material: bump
sampler.sample.Sample: duplicate
shape.Shape: object_bound world_bound sample sample_p get_shading_geometry
spectral.spectrum.CoefficientSpectrum: create_from_array create_from_list create sqrt exp pow lerp clip from_sampled from_rgb from_xyz to_xyz to_rgb
transform.AnimatedTransform: __call__ motion_bounds decompose
transform.Transform: copy __call__ __mul__ translate scale rotate_x rotate_y rotate_z rotate look_at orthographic perspective inverse
volume.volume.VolumeRegion: world_bound
utility.imageio: read_image
'''
SHARED = {'shape.triangle.Triangle.get_shading_geometry': ('%2', 'dpdx', 'dpdy'), 'volume.volume.AggregateVolume.world_bound': ('bound',)}
STORAGE = {f for line in OWN.strip().splitlines() for f in line.split(':')[1].split()} | {'mesh', 'extent', 'bound', 'bounds', 'l', 'intensity', 'emit', '[]'}


def held(v, path=(), seen=0):
    """(what of the result, place it aliases)"""
    if v is None or seen > 3:
        return
    for r in v.r:
        if len(r) == 1 or r[-1] in STORAGE:
            yield path, r
    for k, x in enumerate(v.parts or ()):
        yield from held(x, path + ('[%d]' % k,), seen + 1)
    for k, x in (v.fields or {}).items():
        if k in STORAGE:
            yield from held(x, path + (k,), seen + 1)


def allowed(place, may):
    if any(x[:1] == '_' and x[:2] != '__' for x in place[1:]):      # a private memo: no field the package has today is named like this
        return True
    for m in may:
        if m == '@':
            if place[0].startswith('@'):
                return True
            continue
        q = tuple(m.split('.'))
        if place[:len(q)] == q:
            return True
    return False


def show(p, names):
    s = p[0]
    if s.startswith('%'):
        k = int(s[1:])
        s = names[k] if k < len(names) else s
    else:
        s = s.lstrip('@*')
    for x in p[1:]:
        s += x if x == '[]' else '.' + x
    return s


def check(ctx):
    from ..resolve import Certain, params
    from ..effects import Effects
    from ..loader import ClassInfo, FuncInfo
    ctx.rule('query', 'an operation modifies nothing that existed before the call but what its contract names')
    ctx.rule('construct', 'a constructor modifies none of its arguments')
    ctx.rule('own', 'geometry, matrices, tables and lists given to a constructor are stored as copies')
    ctx.rule('result', 'copies, transforms and combinations share no storage with their arguments')
    with ctx.guard('query', 'package', seconds=300):
        c = Certain(ctx.p)
        c.run()
        e = Effects(c)
        e.functions()
        ctx.analysed(*{fi.qual for fi, _ in e.fns.values()})
        root = 'pytracer.'
        want = {}           # node -> (FuncInfo, allowed)
        missing = []

        def find(where):
            m = ctx.p.modules.get(root + where)
            if m is not None:
                return m, None
            mod, k = where.rsplit('.', 1)
            if root + mod not in ctx.p.modules:
                mod = mod.rsplit('.', 1)[0]
            mm = ctx.p.modules.get(root + mod)
            cls = next((x for x in c.all_classes if mm is not None and x.module is mm and x.name == k), None)
            if cls is None:
                r = mm.resolve(k) if mm is not None else None
                cls = r if isinstance(r, ClassInfo) else None
            if cls is None:
                missing.append(where)
            return None, cls

        def functions(table):
            for line in table.strip().splitlines():
                where, names = line.split(':')
                m, cls = find(where)
                if m is None and cls is None:
                    continue
                for n in names.split():
                    key = where + '.' + n
                    if cls is None:
                        f = m.resolve(n)
                        fs = [f] if isinstance(f, FuncInfo) else []
                    else:
                        fs = [f for k in [cls] + c.subs.get(cls, []) for f in k.all_defs if f.name == n] + [f for f in [c.lookup(cls, n)] if f is not None for f in [f[1]] if isinstance(f, FuncInfo)]
                    if not fs:
                        missing.append(key)
                    for f in fs:
                        if not [d for d in f.decos if d.endswith('.setter')]:
                            yield key, f

        for key, f in functions(QUERIES):
            own = f.qual[len(root):]
            may = set(MAY.get(key, '').split()) | set(MAY.get(own, '').split())
            nd = e.node(f)
            old = want.get(nd)
            want[nd] = (f, may | (old[1] if old else set()))
        for n, (f, may) in want.items():
            e.contracts[n] = {tuple(m.split('.')): ('call of %s, which may modify its %s' % (f.qual[len(root):], show(tuple(m.split('.')), params(f.node))), None) for m in may if m[0] == '%'}
        e.run()
        for n, (f, may) in want.items():
            may = {m.lstrip('~') for m in may}
            s = e.sum.get(n)
            if s is None:
                continue
            names = params(f.node)
            bad = [(p, w) for p, w in sorted(s.effects.items()) if not allowed(p, may)]
            ctx.ob('query', f.qual, not bad, '; '.join('may modify %s: %s at %s' % (show(p, names), w[0], w[1]) for p, w in bad[:4]), bad[0][1][1] if bad else '%s:%d' % (f.module.rel, f.node.lineno))
        made = 0
        for n, (f, fr) in e.fns.items():
            if f.name != '__init__' or fr.cls is None or fr.outer is not None:
                continue
            made += 1
            names = params(f.node)
            may = MAY.get(f.qual[len(root):], '').split()
            bad = [(p, w) for p, w in sorted(e.sum[n].effects.items()) if not p[0].startswith('@') and not allowed(p, may)]
            ctx.ob('construct', f.qual, not bad, '; '.join('may modify %s: %s at %s' % (show(p, names), w[0], w[1]) for p, w in bad[:4]), bad[0][1][1] if bad else '%s:%d' % (f.module.rel, f.node.lineno))
        stored = 0
        for line in OWN.strip().splitlines():
            where, names = line.split(':')
            _, cls = find(where)
            if cls is None:
                continue
            f = cls.methods.get('__init__')
            sm = e.sum.get(e.node(f)) if f is not None else None
            if sm is None:
                missing.append(where + '.__init__')
                continue
            ps = params(f.node)
            for n in names.split():
                v = sm.made.get(n)
                if v is None:
                    missing.append(where + '.' + n)
                    continue
                stored += 1
                bad = sorted({(p, r) for p, r in held(v) if r[0] != '%0'})
                ctx.ob('own', '%s.%s' % (cls.qual, n.split('__')[-1]), not bad, '; '.join('may share the storage of %s' % show(r, ps) for _, r in bad[:4]), '%s:%d' % (f.module.rel, f.node.lineno))
        results = {}
        for key, f in functions(RESULT):
            results[e.node(f)] = f
        for n, f in results.items():
            s = e.sum.get(n)
            if s is None:
                continue
            ps = params(f.node)
            bad = sorted({(p, r) for p, r in held(s.ret) if r[-1] not in SHARED.get(f.qual[len(root):], ())})
            ctx.ob('result', f.qual, not bad, '; '.join('its result%s may share the storage of %s' % (''.join(x if x[0] == '[' else '.' + x for x in p), show(r, ps)) for p, r in bad[:4]), '%s:%d' % (f.module.rel, f.node.lineno))
        if missing:
            ctx.notes.append('not found (nothing to check): ' + ', '.join(missing))
    ctx.notes.append('%d functions, %d resolved calls, %d contracts, %d constructors' % (len(e.fns), e.sites, len(want), made))
    ctx.require('contracts', len(want), 300)
    ctx.require('resolved calls', e.sites, 500)
