"""Attribute names of the numpy the project runs on (frozen from numpy 1.13.1)."""
NUMPY_NAMES = set("""
ALLOW_THREADS AxisError BUFSIZE CLIP ComplexWarning DataSource ERR_CALL ERR_DEFAULT ERR_IGNORE ERR_LOG 
ERR_PRINT ERR_RAISE ERR_WARN FLOATING_POINT_SUPPORT FPE_DIVIDEBYZERO FPE_INVALID FPE_OVERFLOW FPE_UNDERFLOW 
False_ Inf Infinity MAXDIMS MAY_SHARE_BOUNDS MAY_SHARE_EXACT MachAr ModuleDeprecationWarning NAN NINF NZERO 
NaN PINF PZERO PackageLoader RAISE RankWarning SHIFT_DIVIDEBYZERO SHIFT_INVALID SHIFT_OVERFLOW SHIFT_UNDERFLOW 
ScalarType Tester TooHardError True_ UFUNC_BUFSIZE_DEFAULT UFUNC_PYVALS_NAME VisibleDeprecationWarning WRAP 
abs absolute absolute_import add add_docstring add_newdoc add_newdoc_ufunc add_newdocs alen all allclose 
alltrue amax amin angle any append apply_along_axis apply_over_axes arange arccos arccosh arcsin arcsinh 
arctan arctan2 arctanh argmax argmin argpartition argsort argwhere around array array2string array_equal 
array_equiv array_repr array_split array_str asanyarray asarray asarray_chkfinite ascontiguousarray asfarray 
asfortranarray asmatrix asscalar atleast_1d atleast_2d atleast_3d average bartlett base_repr bench binary_repr 
bincount bitwise_and bitwise_not bitwise_or bitwise_xor blackman block bmat bool bool8 bool_ broadcast 
broadcast_arrays broadcast_to busday_count busday_offset busdaycalendar byte byte_bounds bytes0 bytes_ c_ 
can_cast cast cbrt cdouble ceil cfloat char character chararray choose clip clongdouble clongfloat 
column_stack common_type compare_chararrays compat complex complex128 complex256 complex64 complex_ 
complexfloating compress concatenate conj conjugate convolve copy copysign copyto core core.ALLOW_THREADS 
core.AxisError core.BUFSIZE core.CLIP core.ComplexWarning core.ERR_CALL core.ERR_DEFAULT core.ERR_IGNORE 
core.ERR_LOG core.ERR_PRINT core.ERR_RAISE core.ERR_WARN core.FLOATING_POINT_SUPPORT core.FPE_DIVIDEBYZERO 
core.FPE_INVALID core.FPE_OVERFLOW core.FPE_UNDERFLOW core.False_ core.Inf core.Infinity core.MAXDIMS 
core.MAY_SHARE_BOUNDS core.MAY_SHARE_EXACT core.MachAr core.NAN core.NINF core.NZERO core.NaN core.PINF 
core.PZERO core.RAISE core.SHIFT_DIVIDEBYZERO core.SHIFT_INVALID core.SHIFT_OVERFLOW core.SHIFT_UNDERFLOW 
core.ScalarType core.TooHardError core.True_ core.UFUNC_BUFSIZE_DEFAULT core.UFUNC_PYVALS_NAME core.WRAP 
core.abs core.absolute core.absolute_import core.add core.alen core.all core.allclose core.alltrue core.amax 
core.amin core.any core.arange core.arccos core.arccosh core.arcsin core.arcsinh core.arctan core.arctan2 
core.arctanh core.argmax core.argmin core.argpartition core.argsort core.argwhere core.around core.array 
core.array2string core.array_equal core.array_equiv core.array_repr core.array_str core.arrayprint 
core.asanyarray core.asarray core.ascontiguousarray core.asfortranarray core.atleast_1d core.atleast_2d 
core.atleast_3d core.base_repr core.bench core.binary_repr core.bitwise_and core.bitwise_not core.bitwise_or 
core.bitwise_xor core.block core.bool8 core.bool_ core.broadcast core.busday_count core.busday_offset 
core.busdaycalendar core.byte core.bytes0 core.bytes_ core.can_cast core.cast core.cbrt core.cdouble core.ceil 
core.cfloat core.char core.character core.chararray core.choose core.clip core.clongdouble core.clongfloat 
core.compare_chararrays core.complex128 core.complex256 core.complex64 core.complex_ core.complexfloating 
core.compress core.concatenate core.conj core.conjugate core.convolve core.copysign core.copyto core.correlate 
core.cos core.cosh core.count_nonzero core.cross core.csingle core.cumprod core.cumproduct core.cumsum 
core.datetime64 core.datetime_as_string core.datetime_data core.defchararray core.deg2rad core.degrees 
core.diagonal core.divide core.division core.divmod core.dot core.double core.dtype core.e core.einsum 
core.einsum_path core.einsumfunc core.empty core.empty_like core.equal core.errstate core.euler_gamma core.exp 
core.exp2 core.expm1 core.fabs core.fastCopyAndTranspose core.find_common_type core.finfo core.flatiter 
core.flatnonzero core.flexible core.float128 core.float16 core.float32 core.float64 core.float_ 
core.float_power core.floating core.floor core.floor_divide core.fmax core.fmin core.fmod core.format_parser 
core.frexp core.frombuffer core.fromfile core.fromfunction core.fromiter core.fromnumeric core.frompyfunc 
core.fromstring core.full core.full_like core.function_base core.generic core.geomspace core.get_printoptions 
core.getbufsize core.geterr core.geterrcall core.geterrobj core.getlimits core.greater core.greater_equal 
core.half core.heaviside core.hstack core.hypot core.identity core.iinfo core.indices core.inexact core.inf 
core.info core.infty core.inner core.int0 core.int16 core.int32 core.int64 core.int8 core.int_ 
core.int_asbuffer core.intc core.integer core.intp core.invert core.is_busday core.isclose core.isfinite 
core.isfortran core.isinf core.isnan core.isnat core.isscalar core.issctype core.issubdtype core.ldexp 
core.left_shift core.less core.less_equal core.lexsort core.linspace core.little_endian core.load core.loads 
core.log core.log10 core.log1p core.log2 core.logaddexp core.logaddexp2 core.logical_and core.logical_not 
core.logical_or core.logical_xor core.logspace core.long core.longcomplex core.longdouble core.longfloat 
core.longlong core.machar core.matmul core.max core.maximum core.maximum_sctype core.may_share_memory 
core.mean core.memmap core.min core.min_scalar_type core.minimum core.mod core.modf core.moveaxis 
core.multiarray core.multiply core.nan core.nbytes core.ndarray core.ndim core.nditer core.negative 
core.nested_iters core.newaxis core.nextafter core.nonzero core.not_equal core.number core.numeric 
core.numerictypes core.obj2sctype core.object0 core.object_ core.ones core.ones_like core.outer core.partition 
core.pi core.positive core.power core.print_function core.prod core.product core.promote_types core.ptp 
core.put core.putmask core.rad2deg core.radians core.rank core.ravel core.rec core.recarray core.reciprocal 
core.record core.records core.remainder core.repeat core.require core.reshape core.resize core.result_type 
core.right_shift core.rint core.roll core.rollaxis core.round core.round_ core.sctype2char core.sctypeDict 
core.sctypeNA core.sctypes core.searchsorted core.set_numeric_ops core.set_printoptions 
core.set_string_function core.setbufsize core.seterr core.seterrcall core.seterrobj core.shape core.shape_base 
core.shares_memory core.short core.sign core.signbit core.signedinteger core.sin core.single 
core.singlecomplex core.sinh core.size core.sometrue core.sort core.spacing core.sqrt core.square core.squeeze 
core.stack core.std core.str0 core.str_ core.string_ core.subtract core.sum core.swapaxes core.take core.tan 
core.tanh core.tensordot core.test core.timedelta64 core.trace core.transpose core.true_divide core.trunc 
core.typeDict core.typeNA core.typecodes core.ubyte core.ufunc core.uint core.uint0 core.uint16 core.uint32 
core.uint64 core.uint8 core.uintc core.uintp core.ulonglong core.umath core.unicode core.unicode_ 
core.unsignedinteger core.ushort core.var core.vdot core.void core.void0 core.vstack core.where core.zeros 
core.zeros_like corrcoef correlate cos cosh count_nonzero cov cross csingle ctypeslib cumprod cumproduct 
cumsum datetime64 datetime_as_string datetime_data deg2rad degrees delete deprecate deprecate_with_doc diag 
diag_indices diag_indices_from diagflat diagonal diff digitize disp divide division divmod dot double dsplit 
dstack dtype e ediff1d einsum einsum_path emath empty empty_like equal errstate euler_gamma exp exp2 
expand_dims expm1 extract eye fabs fastCopyAndTranspose fft fft.absolute_import fft.bench fft.division fft.fft 
fft.fft2 fft.fftfreq fft.fftn fft.fftpack fft.fftpack_lite fft.fftshift fft.helper fft.hfft fft.ifft fft.ifft2 
fft.ifftn fft.ifftshift fft.ihfft fft.info fft.irfft fft.irfft2 fft.irfftn fft.print_function fft.rfft 
fft.rfft2 fft.rfftfreq fft.rfftn fft.test fill_diagonal find_common_type finfo fix flatiter flatnonzero 
flexible flip fliplr flipud float float128 float16 float32 float64 float_ float_power floating floor 
floor_divide fmax fmin fmod format_parser frexp frombuffer fromfile fromfunction fromiter frompyfunc fromregex 
fromstring full full_like fv generic genfromtxt geomspace get_array_wrap get_include get_printoptions 
getbufsize geterr geterrcall geterrobj gradient greater greater_equal half hamming hanning heaviside histogram 
histogram2d histogramdd hsplit hstack hypot i0 identity iinfo imag in1d index_exp indices inexact inf info 
infty inner insert int int0 int16 int32 int64 int8 int_ int_asbuffer intc integer interp intersect1d intp 
invert ipmt irr is_busday isclose iscomplex iscomplexobj isfinite isfortran isin isinf isnan isnat isneginf 
isposinf isreal isrealobj isscalar issctype issubclass_ issubdtype issubsctype iterable ix_ kaiser kron ldexp 
left_shift less less_equal lexsort lib linalg linalg.LinAlgError linalg.absolute_import linalg.bench 
linalg.cholesky linalg.cond linalg.det linalg.division linalg.eig linalg.eigh linalg.eigvals linalg.eigvalsh 
linalg.info linalg.inv linalg.lapack_lite linalg.linalg linalg.lstsq linalg.matrix_power linalg.matrix_rank 
linalg.multi_dot linalg.norm linalg.pinv linalg.print_function linalg.qr linalg.slogdet linalg.solve 
linalg.svd linalg.tensorinv linalg.tensorsolve linalg.test linspace little_endian load loads loadtxt log log10 
log1p log2 logaddexp logaddexp2 logical_and logical_not logical_or logical_xor logspace long longcomplex 
longdouble longfloat longlong lookfor ma ma.MAError ma.MaskError ma.MaskType ma.MaskedArray ma.abs ma.absolute 
ma.absolute_import ma.add ma.all ma.allclose ma.allequal ma.alltrue ma.amax ma.amin ma.angle ma.anom 
ma.anomalies ma.any ma.append ma.apply_along_axis ma.apply_over_axes ma.arange ma.arccos ma.arccosh ma.arcsin 
ma.arcsinh ma.arctan ma.arctan2 ma.arctanh ma.argmax ma.argmin ma.argsort ma.around ma.array ma.asanyarray 
ma.asarray ma.atleast_1d ma.atleast_2d ma.atleast_3d ma.average ma.bench ma.bitwise_and ma.bitwise_or 
ma.bitwise_xor ma.bool_ ma.ceil ma.choose ma.clip ma.clump_masked ma.clump_unmasked ma.column_stack 
ma.common_fill_value ma.compress ma.compress_cols ma.compress_nd ma.compress_rowcols ma.compress_rows 
ma.compressed ma.concatenate ma.conjugate ma.convolve ma.copy ma.core ma.corrcoef ma.correlate ma.cos ma.cosh 
ma.count ma.count_masked ma.cov ma.cumprod ma.cumsum ma.default_fill_value ma.diag ma.diagflat ma.diagonal 
ma.diff ma.divide ma.division ma.dot ma.dstack ma.dump ma.dumps ma.ediff1d ma.empty ma.empty_like ma.equal 
ma.exp ma.expand_dims ma.extras ma.fabs ma.filled ma.fix_invalid ma.flatnotmasked_contiguous 
ma.flatnotmasked_edges ma.flatten_mask ma.flatten_structured_array ma.floor ma.floor_divide ma.fmod 
ma.frombuffer ma.fromflex ma.fromfunction ma.getdata ma.getmask ma.getmaskarray ma.greater ma.greater_equal 
ma.harden_mask ma.hsplit ma.hstack ma.hypot ma.identity ma.ids ma.in1d ma.indices ma.inner ma.innerproduct 
ma.intersect1d ma.isMA ma.isMaskedArray ma.is_mask ma.is_masked ma.isarray ma.isin ma.left_shift ma.less 
ma.less_equal ma.load ma.loads ma.log ma.log10 ma.log2 ma.logical_and ma.logical_not ma.logical_or 
ma.logical_xor ma.make_mask ma.make_mask_descr ma.make_mask_none ma.mask_cols ma.mask_or ma.mask_rowcols 
ma.mask_rows ma.masked ma.masked_all ma.masked_all_like ma.masked_array ma.masked_equal ma.masked_greater 
ma.masked_greater_equal ma.masked_inside ma.masked_invalid ma.masked_less ma.masked_less_equal 
ma.masked_not_equal ma.masked_object ma.masked_outside ma.masked_print_option ma.masked_singleton 
ma.masked_values ma.masked_where ma.max ma.maximum ma.maximum_fill_value ma.mean ma.median ma.min ma.minimum 
ma.minimum_fill_value ma.mod ma.mr_ ma.multiply ma.mvoid ma.ndim ma.negative ma.nomask ma.nonzero ma.not_equal 
ma.notmasked_contiguous ma.notmasked_edges ma.ones ma.outer ma.outerproduct ma.polyfit ma.power 
ma.print_function ma.prod ma.product ma.ptp ma.put ma.putmask ma.rank ma.ravel ma.remainder ma.repeat 
ma.reshape ma.resize ma.right_shift ma.round ma.round_ ma.row_stack ma.set_fill_value ma.setdiff1d ma.setxor1d 
ma.shape ma.sin ma.sinh ma.size ma.soften_mask ma.sometrue ma.sort ma.sqrt ma.squeeze ma.std ma.subtract 
ma.sum ma.swapaxes ma.take ma.tan ma.tanh ma.test ma.trace ma.transpose ma.true_divide ma.union1d ma.unique 
ma.vander ma.var ma.vstack ma.where ma.zeros mafromtxt mask_indices mat math matmul matrix matrixlib max 
maximum maximum_sctype may_share_memory mean median memmap meshgrid mgrid min min_scalar_type minimum 
mintypecode mirr mod modf moveaxis msort multiply nan nan_to_num nanargmax nanargmin nancumprod nancumsum 
nanmax nanmean nanmedian nanmin nanpercentile nanprod nanstd nansum nanvar nbytes ndarray ndenumerate 
ndfromtxt ndim ndindex nditer negative nested_iters newaxis nextafter nonzero not_equal nper npv numarray 
number obj2sctype object object0 object_ ogrid oldnumeric ones ones_like outer packbits pad partition 
percentile pi piecewise pkgload place pmt poly poly1d polyadd polyder polydiv polyfit polyint polymul 
polynomial polysub polyval positive power ppmt print_function prod product promote_types ptp put putmask pv r_ 
rad2deg radians random random.Lock random.RandomState random.absolute_import random.bench random.beta 
random.binomial random.bytes random.chisquare random.choice random.dirichlet random.division 
random.exponential random.f random.gamma random.geometric random.get_state random.gumbel random.hypergeometric 
random.info random.laplace random.logistic random.lognormal random.logseries random.mtrand random.multinomial 
random.multivariate_normal random.negative_binomial random.noncentral_chisquare random.noncentral_f 
random.normal random.np random.operator random.pareto random.permutation random.poisson random.power 
random.print_function random.rand random.randint random.randn random.random random.random_integers 
random.random_sample random.ranf random.rayleigh random.sample random.seed random.set_state random.shuffle 
random.standard_cauchy random.standard_exponential random.standard_gamma random.standard_normal 
random.standard_t random.test random.triangular random.uniform random.vonmises random.wald random.warnings 
random.weibull random.zipf rank rate ravel ravel_multi_index real real_if_close rec recarray recfromcsv 
recfromtxt reciprocal record remainder repeat require reshape resize result_type right_shift rint roll 
rollaxis roots rot90 round round_ row_stack s_ safe_eval save savetxt savez savez_compressed sctype2char 
sctypeDict sctypeNA sctypes searchsorted select set_numeric_ops set_printoptions set_string_function 
setbufsize setdiff1d seterr seterrcall seterrobj setxor1d shape shares_memory short show_config sign signbit 
signedinteger sin sinc single singlecomplex sinh size sometrue sort sort_complex source spacing split sqrt 
square squeeze stack std str str0 str_ string_ subtract sum swapaxes sys take tan tanh tensordot test testing 
testing.HAS_REFCOUNT testing.IS_PYPY testing.IgnoreException testing.KnownFailureException testing.SkipTest 
testing.TestCase testing.Tester testing.absolute_import testing.assert_ testing.assert_allclose 
testing.assert_almost_equal testing.assert_approx_equal testing.assert_array_almost_equal 
testing.assert_array_almost_equal_nulp testing.assert_array_equal testing.assert_array_less 
testing.assert_array_max_ulp testing.assert_equal testing.assert_no_warnings testing.assert_raises 
testing.assert_raises_regex testing.assert_string_equal testing.assert_warns testing.build_err_msg 
testing.clear_and_catch_warnings testing.dec testing.decorate_methods testing.decorators testing.division 
testing.jiffies testing.measure testing.memusage testing.nosetester testing.print_assert_equal 
testing.print_function testing.raises testing.rand testing.run_module_suite testing.rundocs testing.runstring 
testing.suppress_warnings testing.tempdir testing.temppath testing.test testing.utils testing.verbose tile 
timedelta64 trace tracemalloc_domain transpose trapz tri tril tril_indices tril_indices_from trim_zeros triu 
triu_indices triu_indices_from true_divide trunc typeDict typeNA typecodes typename ubyte ufunc uint uint0 
uint16 uint32 uint64 uint8 uintc uintp ulonglong unicode unicode_ union1d unique unpackbits unravel_index 
unsignedinteger unwrap ushort vander var vdot vectorize version void void0 vsplit vstack warnings where who 
zeros zeros_like 
""".split())
NDARRAY_NAMES = set("""
T __abs__ __add__ __and__ __array__ __array_finalize__ __array_interface__ __array_prepare__ 
__array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__ __complex__ 
__contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dict__ __dir__ __divmod__ __doc__ __eq__ 
__float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __gt__ __hash__ __iadd__ __iand__ 
__ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ 
__invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ 
__lt__ __matmul__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ 
__reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ 
__rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ 
__sub__ __subclasshook__ __truediv__ __weakref__ __xor__ all any argmax argmin argpartition argsort astype 
base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump 
dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder 
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape 
size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view 
""".split())
