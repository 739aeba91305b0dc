"""Property list: the source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
GVN = 'gated value numbering over the AST with exact rational-function normal forms, compared with reference formulas'
TRUST = ('Decides each clause for all symbolic arguments at once over real arithmetic (no rounding, no NaN). Trusts CPython ast, '
         'the abstract semantics of Python/numpy in sa/, and the declared field types in sa/model.py; values summarised by loops '
         'or opaque calls make an obligation undecided (reported in evidence, never an alarm).')


def P(id, title, statement, over, q, why, files, mech, tech=GVN, note=TRUST, reason=None):
    return dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech,
                tech=tech, note=note, reason=reason)


PROPS = [
    P('P01', 'Transforms are exact, mutually inverse affine or projective maps',
      'Every translation, scale, axis or arbitrary-axis rotation, look-at, orthographic and perspective transform realises its '
      'documented mapping and stores a matrix together with its true inverse. Inversion swaps the pair, composition multiplies '
      'both in the right order, and points, vectors and normals are each mapped by the rule for their kind. The matrices of a '
      'transform never change after construction, and its identity, scale, handedness and equality predicates agree with the matrix.',
      'inputs', 'every angle, axis, scale, offset, viewpoint, clip range, matrix and argument',
      'tests compare a few random arguments with tolerance and never check that the stored inverse is the inverse of the stored matrix for all arguments',
      'pytracer/transform/__init__.py',
      [('factories and application', 'Transform.*'), ('frozen storage', 'Transform.__init__')]),
    P('P02', 'Bounding boxes are conservative',
      'A box built from points or unions contains everything it was built from and nothing looser, and its overlap, containment, '
      'expansion, measure, interpolation, comparison and bounding-sphere queries agree with their geometric definition. A ray '
      'misses a box only if its parameter range lies outside the slab intersection, and a reported hit gives exactly the entry and '
      'exit parameters. Transforming a box yields a box containing all eight transformed corners, and no query modifies its arguments.',
      'inputs', 'every pair of corners, point, affine transform and ray with non-zero direction components',
      'tests sample a handful of boxes; a box that is too small only shows as a missed hit for special rays',
      'pytracer/geometry/__init__.py pytracer/transform/__init__.py',
      [('box class', 'BBox'), ('box transform', 'Transform.__call__')]),
    P('P03', 'Rays and surface differentials keep their parametrisation',
      'Building, copying, spawning or transforming a ray preserves its parameter range, time and depth (one more for a spawned '
      'ray), and the transformed ray at a parameter is the transform of the original ray at that parameter, including the offset '
      'rays of a differential. Surface differential records hold unit normals orthogonal to their tangents, flipped exactly when '
      'the surface orientation is reversed, and their screen-space differentials lie in the tangent plane on the offset rays. '
      'Copies and transforms leave their arguments untouched and own their storage.',
      'inputs', 'every origin, direction, range, time, depth, offset ray and affine transform',
      'tests do not cover offset rays, spawned rays or aliasing between copies',
      'pytracer/geometry/__init__.py pytracer/geometry/diffgeom.py pytracer/transform/__init__.py',
      [('rays', 'Ray, RayDifferential'), ('differentials', 'DifferentialGeometry'), ('application', 'Transform.__call__, AnimatedTransform.__call__')]),
    P('P04', 'Vector algebra and local frames obey their laws',
      'Lengths, distances, cross and absolute dot products, normalisation and equality of vectors, points and normals follow '
      'their algebraic definition, and mixed point/vector arithmetic yields the documented kind. A frame built from a unit vector '
      'is orthonormal with consistent orientation, facing a normal forward never leaves it in the opposite hemisphere, and '
      'spherical directions and angles are inverse to each other. Helpers documented as non-modifying leave their argument unchanged.',
      'inputs', 'every component value, angle and basis', 'tests sample random vectors and miss degenerate branches and argument modification',
      'pytracer/geometry/__init__.py pytracer/geometry/utility.py',
      [('classes', 'Vector, Point, Normal'), ('helpers', 'coordinate_system, normalize, face_forward, spherical_*')]),
    P('P05', 'Shapes report the nearest valid intersection with consistent surface data',
      'For spheres, cylinders, disks and triangles a closest-hit query reports a hit exactly when some root of the surface equation '
      'lies inside the ray range and inside the height, angle or radius limits (and is not masked by the alpha texture), with the '
      'smallest such parameter, and the any-hit query agrees with it. The reported point lies on the surface at that parameter, its '
      '(u, v) stay in the unit square and invert the parametrisation, and tangents, normals and their derivatives are those of the parametrisation. '
      'Areas and bounds are those of the (partial) surface.',
      'inputs', 'every ray, radius, clip limit, sweep angle, vertex triple, uv set, orientation flag and object translation',
      'tests shoot a few random rays at full spheres only; partial surfaces, second roots, ray ranges and derivative signs are not sampled',
      'pytracer/shape/__init__.py pytracer/shape/sphere.py pytracer/shape/cylinder.py pytracer/shape/disk.py pytracer/shape/triangle.py',
      [('closest hit', 'Sphere/Cylinder/Disk/Triangle.intersect'), ('any hit', '*.intersect_p'), ('bounds', 'object_bound, world_bound')]),
    P('P06', 'Primitives and acceleration structures find exactly the nearest hit',
      'For every ray, asking an aggregate, voxel grid or BVH for the closest hit gives the nearest hit among all its primitives, with that '
      'primitive, its surface record, transforms and identifiers in the intersection, the ray range shortened to it, and nothing touched on a miss; the '
      'any-hit query answers whether one exists. Construction places every primitive in exactly one leaf (or in every voxel it overlaps) inside all '
      'boxes above it, refinement loses nothing, and bounds contain all parts. Instances test the ray in the pose of its time and return world-space geometry.',
      'inputs', 'every ray, hit distance, split outcome and primitive box; build by induction over the recursion; grids up to three voxels per axis for given directions',
      'no test builds an aggregate; a missed box or voxel only loses special rays',
      'pytracer/aggregate/aggregate.py pytracer/aggregate/accelerator/bvh.py pytracer/aggregate/primitive.py pytracer/aggregate/intersection.py pytracer/scene/scene.py',
      [('lists and grids', 'SimpleAggregate, GridAccel, Voxel'), ('tree', 'BVH._recursive_build, _flatten_tree, intersect'), ('leaves', 'GeometricPrimitive, TransformedPrimitive'), ('scene', 'Scene, Intersection')]),
    P('P07', 'Shapes are sampled uniformly and report the density of their samples',
      'Sampling a sphere, cylinder, disk or triangle returns a point on the (partial, annular, translated) surface with its unit '
      'normal, flipped exactly when the orientation is reversed, distributed uniformly over the area. Sampling as seen from a '
      'point outside a sphere stays inside the subtended cone. The area density is the reciprocal of the area, and the '
      'solid-angle density is its exact conversion (zero for directions that miss), or the cone density where the cone was sampled.',
      'inputs', 'every extent, sweep, orientation, translation, pair of random numbers and reference point',
      'no test samples a shape; a biased sample still lies on the surface and looks plausible',
      'pytracer/shape/__init__.py pytracer/shape/sphere.py pytracer/shape/cylinder.py pytracer/shape/disk.py pytracer/shape/triangle.py',
      [('samples', '*.sample, Sphere.sample_p'), ('densities', 'Shape.pdf, Shape.pdf_p, Sphere.pdf_p')],
      tech='symbolic summary of each sampling method, symbolic area element times the area compared as normal forms'),
    P('P09', 'The film reconstructs pixels by filter-weighted accumulation',
      'A radiance sample adds to every pixel whose centre lies within the filter extent exactly its filter-table weight and its weighted '
      'XYZ value, inside the crop window only, and to no other pixel; a splat adds its value to the pixel it falls in. The written image '
      'is the weight-normalised, non-negative sum plus scaled splats, with rows along y, columns along x, and the window and offsets of '
      'the crop. Sample and pixel extents follow the resolution, crop fractions and filter width.',
      'inputs', 'every sample position, radiance, filter width, filter, crop fraction, resolution and pixel state',
      'no test covers the package; a wrong weight or a transposed crop only shows for uneven windows and non-constant filters',
      'pytracer/film/film.py',
      [('accumulation', 'ImageFilm.add_sample, ImageFilm.splat'), ('extents', 'ImageFilm.get_sample_extent, ImageFilm.get_pixel_extent'),
       ('image', 'ImageFilm.write_image')]),
    P('P10', 'Samplers stratify, tile and traverse the image completely',
      'Stratified and latin-hypercube patterns put exactly one sample in every stratum of every dimension, jittered or centred, in any shuffle. '
      'The sampler visits every pixel of its window once in row-major order, gives each visit exactly the samples requested (image, lens, '
      'time and every integrator request, each with its own storage, lens and time in an order of their own) and then stops. Sub-windows of a tiling are disjoint, cover the window '
      'exactly, and a sub-sampler inherits the settings of its parent.',
      'inputs', 'every random draw, permutation, window, position and shutter interval, for the analysed pattern sizes and tile counts',
      'no test covers the package; a repeated row, a gap between tiles or a shared array needs particular windows and counts',
      'pytracer/sampler/sampler/__init__.py pytracer/sampler/sampler/stratified.py pytracer/sampler/sample.py pytracer/sampler/utility.py',
      [('patterns', 'stratified_sample_*, latin_hypercube_*'), ('traversal', 'StratifiedSampler.generate'),
       ('tiling', 'Sampler.compute_subwindow, StratifiedSampler.get_subsampler'), ('requests', 'Sample')]),
    P('P11', 'Integrators add up light transport without loss or double counting',
      'The radiance along a ray is the emission where it ends (or of the lights at infinity where it hits nothing), attenuated by the medium, plus what '
      'the medium adds. At a surface every light is counted once per estimate, the two halves of the direct-light estimate carry multiple-importance '
      'weights that add up to one, a randomly picked light is weighted by the number of lights, paths carry the product of value, cosine and '
      'reciprocal density with Russian roulette compensated, emission seen directly or through specular bounces is never counted twice, and reflected or '
      'refracted rays get the offset rays of their law. The render loop adds every sample to the film once, with invalid radiance replaced by black.',
      'inputs', 'every radiance, density, direction, visibility, transmittance and random number of stand-in scenes; paths up to five vertices, up to three lights',
      'the single render test is excluded as unstable; a doubly counted or lost term only changes brightness',
      'pytracer/integrator/utility.py pytracer/integrator/surface/direct.py pytracer/integrator/surface/whitted.py pytracer/integrator/surface/path.py pytracer/renderer/renderer.py',
      [('direct light', 'estimate_direct, uniform_sample_all_lights, uniform_sample_one_light'), ('recursion', 'specular_reflect, specular_transmit'),
       ('integrators', 'WhittedIntegrator.li, DirectLightingIntegrator.li, PathIntegrator.li'), ('loop', 'SamplerRenderer, SamplerRendererTask.__call__')]),
    P('P12', 'The BSDF container combines its lobes consistently',
      'Directions are mapped between world and shading frame by exact mutually inverse rotations. The value for a pair of directions '
      'is the sum over the lobes that match the flags and the geometric side (reflection on the same side of the geometric surface, '
      'transmission otherwise), the density is the average over the matching lobes, and sampling picks every matching lobe with equal '
      'probability and returns the direction, density, flags and value that the evaluation methods report for that direction (a '
      'specular choice involves no other lobe). Flag algebra, lobe counts and diagnostics agree with the lobes held.',
      'inputs', 'every pair of directions, orthonormal frame, geometric normal, lobe value and density, flag filter and random triple',
      'no test covers the package; shading and geometric normals only disagree in special scenes and a wrong lobe average only biases the image',
      'pytracer/reflection/bsdf.py pytracer/reflection/bdf/bdf.py',
      [('container', 'BSDF.f, BSDF.pdf, BSDF.sample_f, BSDF.w2l, BSDF.l2w'), ('flags', 'BDFType'), ('lobe contract', 'BDF')]),
    P('P13', 'Reflectance lobes evaluate their published formulas',
      'Lambertian, Oren-Nayar, Torrance-Sparrow microfacet (Blinn and anisotropic distributions), Fresnel-blend, measured and adapter '
      'lobes evaluate the formula they are named after for every pair of directions, are zero rather than undefined in their '
      'degenerate configurations, and scaling or switching the hemisphere of a lobe changes exactly that. Lobes that model '
      'reciprocal surfaces give the same value when the two directions are exchanged.',
      'inputs', 'every pair of unit directions, reflectance, roughness, exponent and table entry',
      'no test covers the package; an error of a cosine or a normalisation constant only changes the look of a material',
      'pytracer/reflection/bdf/bdf.py pytracer/reflection/bdf/orennayar.py pytracer/reflection/bdf/torrance.py '
      'pytracer/reflection/bdf/fresnelblend.py pytracer/reflection/bdf/measured.py pytracer/reflection/utility.py',
      [('lobes', 'Lambertian, OrenNayar, Microfacet, FresnelBlend, IrIsotropicBRDF, ReHalfangleBRDF'), ('distributions', 'Blinn.D, Anisotropic.D'),
       ('adapters', 'BRDF2BTDF, ScaledBDF')]),
    P('P14', 'Scattering directions are drawn with the density the lobe reports',
      'For every lobe the density returned with a sampled direction is the one its pdf method reports for that direction, the value '
      'returned is its evaluation, and the sampled direction stays on the side the lobe scatters to. Mapping random numbers to directions '
      'has exactly that density; half-vector sampling mirrors the outgoing direction about the sampled half vector in all four quadrants, '
      'and the Monte Carlo reflectance estimates weight samples by it.',
      'inputs', 'every outgoing direction, roughness, exponent and pair of random numbers',
      'no test covers the package; a density that does not match its sampler biases the image without any single sample looking wrong',
      'pytracer/reflection/bdf/bdf.py pytracer/reflection/bdf/torrance.py pytracer/reflection/bdf/fresnelblend.py',
      [('sampling', '*.sample_f'), ('densities', '*.pdf'), ('estimates', 'BDF.rho_hd, BDF.rho_hh')],
      tech='symbolic summary of each sampling method; symbolic Jacobian times density and pdf/sample_f agreement compared as normal forms'),
    P('P15', 'Fresnel terms and specular lobes obey Fresnel and Snell',
      'Dielectric and conductor reflectances follow the Fresnel equations, stay within zero and one, are symmetric under reversing the '
      'path, and turn into total reflection exactly beyond the critical angle. The specular reflection lobe returns the mirror direction '
      'and the specular transmission lobe the direction refracted by Snell with the matching radiance scaling, from either side, with '
      'delta-distribution values and densities that vanish everywhere else.',
      'inputs', 'every cosine, pair of indices, absorption and outgoing direction',
      'no test covers the package; total reflection and light leaving the denser medium need special geometry',
      'pytracer/reflection/utility.py pytracer/reflection/fresnel.py pytracer/reflection/bdf/bdf.py',
      [('equations', 'fr_diel, fr_cond'), ('classes', 'FresnelDielectric, FresnelConductor'), ('lobes', 'SpecularReflection, SpecularTransmission')]),
    P('P16', 'Sampling routines realise exactly the density they advertise',
      'Every warp from uniform random numbers to a sphere, hemisphere, cosine hemisphere, disk, triangle, cone or phase-function '
      'direction stays inside its domain, has unit length where a direction is returned, and pushes the uniform measure forward to '
      'exactly the density its pdf function reports. Tabulated one- and two-dimensional distributions invert their cumulative '
      'function, report the probability of what they returned, integrate their table and own their data. The multiple-importance '
      'weights of two strategies add up to one in the documented ratio.',
      'inputs', 'every pair of random numbers, cone angle, anisotropy, table value and sample count',
      'no test touches the package, and a wrong density biases images without any single sample looking wrong',
      'pytracer/montecarlo/utility.py pytracer/montecarlo/distribution.py',
      [('warps', 'uniform_sample_*, cosine_*, concentric_*, sample_hg'), ('tables', 'Distribution1D, Distribution2D'), ('weights', 'balance_heuristic, power_heuristic')],
      tech='symbolic summary of each warp, symbolic Jacobian determinant times the advertised pdf compared as normal forms'),
    P('P17', 'Spectra convert, combine, average and tabulate as defined',
      'RGB spectra hold the given coefficients, own their storage, combine channel by channel under every operator without changing their operands, keep their class, and convert to '
      'XYZ and back by the published matrices; luminance is the weighted sum of the channels. Averaging a sampled distribution over a range gives the exact mean of '
      'its piecewise linear interpolation with the end values extended, for every position of the range relative to the table, and leaves the table as it was; a sampled spectrum holds the averages of its cells for '
      'samples given in any order. Conversion tables hold the cell averages of the measured tables, and RGB colours become the mix of white, secondary and primary basis spectra of their channels.',
      'inputs', 'every coefficient, table of wavelengths, range, colour and spectrum type',
      'tests check shapes and a few values on random data; range ends that are wavelengths of the table and channel orders are never sampled',
      'pytracer/spectral/spectrum.py',
      [('conversion', 'xyz2rgb, rgb2xyz, from_*, to_*'), ('coefficients', 'CoefficientSpectrum, RGBSpectrum'), ('sampled', 'SampledSpectrum'), ('averages', 'average_spectrum_samples')]),
    P('P18', 'Reconstruction filters are their published kernels',
      'Box, triangle, Gaussian, Mitchell and Lanczos-sinc filters evaluate their published kernel at every position, for every extent and '
      'parameter, are even in both coordinates, vanish outside their extent where the kernel does, and never turn negative where it does not. '
      'Evaluating an array of positions gives the same values as evaluating each position alone.',
      'inputs', 'every position, extent and kernel parameter',
      'no test covers the package; a wrong coefficient only softens or rings the image',
      'pytracer/filter/filter.py',
      [('kernels', 'BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter')]),
    P('P19', 'Cameras turn a raster position into the ray it stands for',
      'Perspective, orthographic, pinhole and environment cameras map every raster position, lens sample and time sample to the ray '
      'through the projected pixel (and the point in focus behind it), with unit direction, full range and the time of '
      'its sample, moved by the camera transform exactly once at that time. The offset rays of a differential equal the rays '
      'one raster step to the right and below (claimed only where both exist), and samples are left unchanged.',
      'inputs', 'every raster, lens and time sample, resolution, screen window, field of view, lens and camera transform',
      'no test constructs a camera; offset rays and moving cameras need particular samples to look wrong',
      'pytracer/camera/camera.py pytracer/camera/projective.py pytracer/camera/environment.py',
      [('rays', '*.generate_ray'), ('differentials', '*.generate_ray_differential'), ('projection', 'ProjectiveCamera.__init__')]),
    P('P20', 'Lights agree on radiance, direction, density and visibility',
      'Every light reports for every point the radiance arriving there, the unit direction it arrives from, the density of choosing that direction '
      'and a visibility segment spanning from the point exactly to the light, or unbounded for lights at infinity. Rays emitted from a light start on it (or '
      'on a disk enclosing the scene), cover its whole emission, and carry the time, normal, density and radiance that belong to them. '
      'Area lights emit on one side only, shapes are chosen in proportion to area, pdf agrees with the sampler, and power is the total emitted.',
      'inputs', 'every point, direction, sample, time, transform and light parameter',
      'no test constructs a light; wrong densities and cones only bias the image',
      'pytracer/light/light.py pytracer/light/utility.py',
      [('lights', '*Light.sample_l, sample_r, pdf, power, le'), ('visibility', 'VisibilityTester'), ('shape sets', 'ShapeSet'), ('samples', 'LightSample, LightSampleOffset')]),
    P('P21', 'Participating media report their coefficients, thickness, phase and bounds',
      'A medium absorbs, scatters and emits exactly its coefficients (times its density) at points inside its own box and nothing outside, '
      'attenuation being the sum of absorption and scattering. The optical thickness of a ray is the attenuation accumulated over the part of the ray inside the '
      'medium, measured in world units and independent of the scale of the direction; grid densities interpolate trilinearly between their samples in [z][y][x] order, '
      'exponential ones decay along the up direction. An aggregate adds its parts, mixes their phase functions by scattering, spans their bounds and ranges; '
      'phase functions are the published formulas, measured subsurface data come back as absorption and scattering.',
      'inputs', 'every medium, transform, ray, point, density grid, step and direction pair',
      'no test constructs a medium; wrong thickness or density only changes how dense fog looks',
      'pytracer/volume/volume.py pytracer/volume/utility.py pytracer/volume/bssrdf.py',
      [('media', 'HomogeneousVolumeDensity, DensityRegion, VolumeGridDensity, ExponentialDensity'), ('aggregate', 'AggregateVolume'), ('phase', 'phase_*'), ('subsurface', 'get_volume_scattering, BSSRDF')]),
    P('P22', 'Textures evaluate their definitions at every point, footprint and texel',
      'Texture mappings return the texture coordinates of a point with their screen derivatives; constant, scaled, mixed, bilinear, uv, checkerboard '
      '(point and box filtered), dot, fractal noise, wrinkled, windy and marble textures equal their formulas, and gradient noise is built from a true permutation, '
      'sixteen gradients and quintic fading. An image pyramid returns each texel under every wrap mode, averages each level from the one below, resamples other sizes with '
      'normalised weights, and answers footprints by tent interpolation between the right levels or by the elliptically weighted average of the texels they cover, however the axes '
      'are ordered or how thin they are. Image textures convert texels by scale, gamma and type, fall back to one value without a file, and share a pyramid only between identical settings.',
      'inputs', 'every shading point, footprint, octave count, texel value, image size in the analysed set and texture parameter',
      'no test evaluates a texture; wrong derivatives, wrap modes or weights only change how a pattern looks',
      'pytracer/texture/utility.py pytracer/texture/texture/__init__.py pytracer/texture/texture/image.py pytracer/texture/texturemap/__init__.py pytracer/data/noise.py',
      [('mappings', 'UVMapping2D, SphericalMapping2D, CylindricalMapping2D, PlannarMapping2D, IdentityMapping3D'), ('procedural', '*Texture.__call__, noise, FBm, turbulence'), ('pyramid', 'MIPMap'), ('images', 'ImageTexture')]),
    P('P24', 'Animated transforms and quaternions reproduce rotations and poses',
      'A quaternion and the matrix of its rotation convert into each other exactly for every angle and axis, and slerp moves along the '
      'great arc between two unit quaternions at constant speed, reaching both ends. An animated transform is its first pose before the first '
      'key time, its last pose after the last, and in between translates linearly, rotates by slerp and scales linearly along object axes; '
      'points, vectors and rays all see the pose of their time, and the bounds of a moving box enclose its motion.',
      'inputs', 'every rotation, pair of quaternions, parameter, key times and argument',
      'tests only check the types of the results on random poses; wrong branches need large angles and times inside the interval',
      'pytracer/transform/quat.py pytracer/transform/__init__.py',
      [('quaternions', 'quat.to_transform, quat.from_transform, quat.from_arr, quat.slerp'), ('animation', 'AnimatedTransform')]),
    P('P29', 'Numeric helpers and spherical coordinates obey their definitions',
      'Interpolation, rounding, clamping, power-of-two and tolerance helpers return exactly what they are defined to return for every '
      'argument, including negative values, whole numbers, arrays and spectra. Spherical coordinates of a direction invert the direction '
      'they encode, in the canonical frame and in a given one.',
      'inputs', 'every argument of every helper',
      'tests reach the helpers only indirectly; boundary values such as whole numbers and negative arguments are never sampled',
      'pytracer/utility/utility.py pytracer/geometry/utility.py',
      [('helpers', 'lerp, clip, round_pow_2, next_pow_2, is_pow_2, ctoi, ftoi, rtoi'), ('spherical', 'spherical_direction, spherical_theta, spherical_phi')]),
    P('P27', 'Every construct of the package can succeed',
      'Importing any module of the package first succeeds, whatever the import order. No function body reads a name, attribute or '
      'module member that cannot exist where it is read, calls a function, method or constructor with arguments it cannot take, '
      'instantiates an abstract class, or unpacks a result of another length. Every class implementing an abstract interface is '
      'complete, and its methods take every call that fits the method they implement.',
      'inputs', 'every module as the first import, every function body and every call site, on every path including error paths',
      'tests execute a fraction of the functions; a misspelt name, a wrong keyword or a missing override on a path no test takes only fails when a user reaches it',
      'pytracer',
      [('module bodies', 'import order, __all__, annotations, decorators'), ('function bodies', 'names, attributes, argument lists, results'), ('interfaces', 'abstract classes and their implementations')],
      'import-order replay and certain-failure (must-raise) analysis over the syntax trees with class and signature resolution',
      'Trusts CPython ast and the recorded attribute names of numpy, the standard library and third-party objects; receivers whose class is not certain are only checked against names that exist nowhere, and constructs inside try or hasattr guards are not judged.'),
    P('P30', 'Materials build exactly the lobes their parameters ask for',
      'For every texture value, each material returns a scattering function with exactly the lobes it documents - kind, clipped '
      'reflectance, indices, microfacet distribution, opacity and mixing weights - expressed in the shading frame and tied to the '
      'geometric normal; black reflectances add no specular lobe. Bump mapping turns the shading frame into that of the displaced surface and leaves '
      'its inputs unchanged; measured materials carry the lobe of their table.',
      'inputs', 'all texture values, roughnesses, indices, opacities, mixing weights, surface parameters, and affine displacements',
      'no existing test builds a material at a hit; the lobes depend on parameter values through several case distinctions',
      'pytracer/material',
      [('MatteMaterial .. KdSubsurfaceMaterial', 'get_bsdf, get_bssrdf'), ('Material.bump', 'displaced shading frame')],
      GVN),
    P('P23', 'The scene description keeps and restores its state',
      'No call of the scene description works before the system is initialised or after it is cleaned up, and nothing of one scene '
      'reaches the next. Transformation calls compose, in order, onto every current transformation; attribute and transform blocks restore what was '
      'current at their begin whatever is called inside, and surplus ends change nothing; named coordinate systems (with world and camera) are copies that '
      'later calls do not alter. Each option call sets exactly its own name and parameters, and parameter lists are typed queues.',
      'histories', 'every call between every begin and end (pairs of calls inside blocks), all transformations, points and arguments',
      'the state after a call depends on aliasing between what was saved and what is modified in place; no existing test calls the scene description',
      'pytracer/interface',
      [('api', 'system, transformations, blocks, coordinate systems, options'), ('Param, Option, RenderOption', 'parameter queues and defaults')],
      GVN, note=TRUST + ' Longer sequences inside a block follow by composition of the call effects shown; SampledSpectrum.init is assumed not to touch the scene description.'),
    P('P25', 'Queries leave the scene and their arguments unchanged',
      'Evaluating the renderer - intersecting, sampling, shading, filtering, looking up textures, spectra, lights, media and geometry - leaves '
      'the objects it is called on and every argument as they were, except where the operation is defined to work in place (a closest-hit query '
      'shortens its ray and fills in its record, a union grows the receiving box, the film accumulates, generators fill samples, lazy refinement '
      'and texture caches). Constructors modify none of their arguments, no query rebinds class or module variables, and rays, boxes, surface records, '
      'transforms, tables and lists that are stored or returned as copies share no storage with what they were made from.',
      'histories', 'every public query and constructor of every class and its overrides, over all arguments and all control flow paths',
      'tests look at results, not at what is left of the inputs; a result is right the first time and the corrupted input only shows in a later, unrelated query',
      'pytracer',
      [('every class', 'public queries'), ('every class', 'constructors')],
      'interprocedural side-effect (mod-set) analysis with points-to paths over the AST, checked against a contract per public operation',
      note='An effect is reported only where the analysis is certain that the object modified existed before the call; receivers of unknown class contribute nothing, so aliases created through them are missed.'),
    P('P08', 'Shared pixels and voxels are updated under their lock',
      'Rendering tasks share the pixels of a film and the voxels of a grid. With a filter that may reach beyond its pixel (wider than half a pixel in '
      'either direction) every accumulation on a pixel, and every splat, happens while that pixel is locked; a voxel is refined while the lock of its grid is held, and the flag that '
      'it is refined is published last. No update is lost or made twice when another task completes its own between any decision and the lock, '
      'each lazily refined primitive is refined once, and all locks are free after every call, also one that fails half way.',
      'schedules', 'every sample, spectrum, filter and filter width, all rays; another task completing the same operation before any lock is obtained, failures of the accumulation and of the refinement',
      'the tests are single threaded; the interleavings that lose an update need two tasks on the same pixel',
      'pytracer/film/film.py, pytracer/aggregate/aggregate.py',
      [('ImageFilm', 'add_sample, splat'), ('Voxel, GridAccel', 'lazy refinement in intersect and intersect_p')],
      GVN, note=TRUST + ' Interleavings are whole operations of the other task at the points where a lock is requested; the memory model of the interpreter is not modelled.'),
    P('P26', 'Random numbers come from the generator supplied, each used once',
      'Whoever renders with a generator gets numbers from it and from nothing else: every function that is given one hands it to all it calls that take one, no '
      'function draws from the clock, the system or a generator of its own (the samplers shuffle with the default generator of numpy), and no default is drawn once for all. No number '
      'serves two decisions: components of light and direction samples, the choice of a light, the survival of a path, the strata and patterns of a '
      'pixel, its lens and time, and the directions of an albedo estimate each have numbers of their own.',
      'inputs', 'every call path between the functions that take a generator; all estimators and patterns with a tape of distinct numbers',
      'a number used twice or drawn elsewhere leaves every single result plausible; it only correlates estimates, or shows when a rendering is to be repeated',
      'pytracer/integrator, pytracer/sampler, pytracer/reflection/bsdf.py, pytracer/light/utility.py, pytracer/renderer',
      [('integrators and renderer', 'li, transmittance, estimators'), ('LightSample, BSDFSample', 'from_rand'), ('sampler', 'patterns')],
      'interprocedural generator-flow lint over resolved calls, and ' + GVN, note=TRUST + ' Patterns and paths are checked for fixed small sizes (two lights, six vertices, up to four strata).'),
    P('P28', 'Loop subdivision refines meshes with the published masks',
      'Refining a subdivision surface gives one triangle mesh: each face becomes four with its orientation kept, each vertex and each edge exactly one vertex, and the '
      'positions follow the masks of the scheme - even, odd and boundary weights on every level, limit weights at the end - for every valence. '
      'Each vertex carries the normal of the limit surface there, and transforms, orientation flag, level count and control mesh are those supplied.',
      'inputs', 'control meshes with interior valences 3 to 7, boundary valences 2 to 6, renumbered faces, several components; zero to two levels; masks for every valence',
      'the tests never refine a mesh; a wrong weight or neighbour gives a smooth mesh that is a little off',
      'pytracer/shape/loopsubdiv.py', [('LoopSubdiv', 'mesh construction, masks, refine'), ('create_loop_subdiv', 'parameters')],
      GVN, note=TRUST + ' Topologies are fixed cases; positions are chosen so far apart that equality determines every weight.'),
    P('P33', 'Triangle meshes hold the data given and shade by interpolating it',
      'A triangle mesh has the vertices, indices, normals, tangents, parameters and alpha texture it was created from, in world space where it must be, and refines '
      'to one triangle per index triple with the transforms and orientation of the mesh; missing positions or indices give no mesh, sizes that do not '
      'match are refused, degenerate parameters are dropped when asked. The shading geometry at a parameter point has the barycentric interpolation of the normals and '
      'tangents of its own corners, an orthonormal frame around it, the change of the normal along the parameters, and everything else of the hit unchanged.',
      'inputs', 'symbolic positions, parameter points, normals and tangents (one component symbolic at a time), meshes with shared vertices, different instance and mesh transforms',
      'the tests build few meshes and none with normals, tangents and shared vertices',
      'pytracer/shape/triangle.py', [('create_triangle_mesh, TriangleMesh', 'creation, bounds, refine'), ('Triangle', 'get_uvs, get_shading_geometry')],
      GVN),
    P('P35', 'Image files hold the pixels handed over',
      'Reading an image gives its RGB texels in rows from the top, alpha dropped and grey or palette images expanded, resized to the next powers of two when a side '
      'is none, with the file closed; a missing name is refused. Writing scales each channel by its own maximum to 0..255 (a black channel stays black), saves and returns '
      'that picture and leaves its argument unchanged; a window replaces exactly its rows and columns of the existing file. Missing names, pixels or files are refused.',
      'inputs', 'pictures of each mode and of sides that are and are not powers of two; symbolic pixel values; windows of existing files',
      'the tests read one picture and write none; exchanged sides, channels or window offsets only show for pictures that are not square',
      'pytracer/utility/imageio.py', [('read_image', 'modes, resizing'), ('write_image', 'scaling, windows, refusals')],
      GVN, note=TRUST + ' The picture library is a stand-in with its documented contract; picture sizes are fixed small cases.'),
]

NA = [
    P('P31', 'Estimates converge to the solution of the rendering equation',
      'For every scene the mean of the estimates of a pixel tends to the solution of the light transport equation filtered over the pixel, with the direct, '
      'Whitted and path integrators each for the transport they claim.',
      'inputs', 'all scenes, cameras and seeds', 'a statistical limit; any finite set of renderings only bounds it with some confidence',
      'pytracer/integrator', [('integrators', 'li')],
      reason='a limit of integrals over all light paths of an arbitrary scene: no static argument in reach bounds it. The local conditions of it are decided: estimator formulas and weights (P11), '
             'densities that match their samplers (P07, P13, P16), one use of each number (P26), filtering (P09).'),
    P('P32', 'Results are accurate to a few units of rounding',
      'Intersections, transforms, densities and reflectances are within a small relative error of their exact values for all floating point inputs in range.',
      'inputs', 'all floating point inputs', 'tests compare a few inputs with loose tolerances; cancellation occurs for special inputs only',
      'pytracer', [('geometry, transform, shape, reflection', 'all formulas')],
      reason='error bounds would need ranges for run-time quantities (scene extents, directions, matrices) that the source does not fix; the proofs here are over the reals and say nothing about rounding.'),
    P('P34', 'Rendering time and memory stay within the cost of the accelerators',
      'A ray query visits a number of nodes or voxels that grows with the logarithm (or the cube root) of the number of primitives for well distributed scenes.',
      'inputs', 'all scenes', 'timings on small scenes do not show growth', 'pytracer/aggregate', [('BVHAccel, GridAccel', 'construction and traversal')],
      reason='an amortised bound that depends on the distribution of the primitives, a run-time quantity; the visiting rules that imply correctness are decided in P05 and P06.'),
]
