NA = []
prop('C01', 'Transfer curves invert each other',
     'For every supported colour space and every transfer curve the crate offers, decoding an encoded value and encoding a decoded value give the original back, in both precisions. This holds for every value of the curve\'s domain, including its linear toe, the negative half of symmetric or logarithmic curves and both sides of each break point.',
     'every value of each curve\'s domain, every colour space, f32 and f64',
     'Round trips are tested at a few values of a few curves; a wrong constant or break point shows only on the segment it belongs to.',
     ['src/color_space_rgb.rs'], [('encode/decode closures', 'src/color_space_rgb.rs (mod encode, mod decode)'), ('ColorSpaceRGB::encode/decode', 'src/color_space_rgb.rs')])
prop('C02', 'Transfer curves are the published ones',
     'Each transfer curve (sRGB, Rec.709, Rec.2020, ARRI LogC, linear and the gamma curves of the built-in spaces) equals its published definition on every segment, acts on each channel separately and identically, and is the same curve in single and double precision. Each built-in colour space uses the curve its standard prescribes.',
     'every channel value, every curve, f32 and f64',
     'Tests sample each curve at a few points, if at all; a curve can be wrong on one segment, one channel or one precision.',
     ['src/color_space_rgb.rs'], [('encode/decode closures', 'src/color_space_rgb.rs (mod encode, mod decode)'), ('model_f32/model_f64 tables', 'src/color_space_rgb.rs')])
prop('C03', 'Colour spaces are defined consistently',
     'Every built-in colour space has the published primaries and white point, and its two matrices are inverses of each other, map RGB (1,1,1) to the white point and each RGB primary to its chromaticity. Building a colour space from any primaries and white point yields exactly such matrices, and a space built with given matrices and curves keeps them. Single and double precision models agree.',
     'every built-in space; any primaries and white point for constructed spaces',
     'Tests check a few matrices against printed digits; the law must hold for any primaries passed to the constructor.',
     ['src/color_space_rgb.rs', 'src/math.rs', 'src/illuminant.rs'], [('ColorSpaceRGB constructors', 'src/color_space_rgb.rs'), ('model tables', 'src/color_space_rgb.rs (mod model_f32, model_f64)')])
prop('C04', 'XYZ <-> RGB conversion is exact, in every form',
     'Converting XYZ to a colour space and back is the identity; the reference white of the viewing condition becomes RGB (1,1,1), whatever that white is; the conversion matrices are the space\'s matrix combined with CAT02 adaptation (or the adaptation supplied). The slice and SIMD-plane forms give one result per input, equal to the scalar conversion, for every length. Converting pixels between two RGB spaces decodes, applies the linear conversion between them, encodes, writes exactly as many pixels as the shorter buffer holds and returns that number.',
     'every colour, matrix, white point, built-in space, slice length and target feature set (scalar and AVX builds)',
     'Tests convert the 24 chart patches under one white with one AVX length; tails, other whites and other lengths are never reached.',
     ['src/transform.rs', 'src/color_space_rgb.rs', 'src/chromatic_adaptation.rs'], [('xyz_to_rgb, rgb_to_xyz, xyz_slice_to_rgb, rgb_to_rgb, xyz_slice_to_rgb_avx_planes', 'src/transform.rs')], over=('inputs', 'configurations'),
     note='Slice and plane lengths are enumerated (0..70, 257 in thorough), element values are symbolic.')
prop('C05', 'Chromatic adaptation maps white to white',
     'Each chromatic adaptation transform maps the source white to the destination white, is the identity when the whites are equal, is undone by the transform with the whites exchanged, composes along a chain of whites, does not depend on a common scale of the whites, and is diagonal in its published cone space. It gives the same result for whites passed as chromaticities or tristimulus values, in both precisions.',
     'every pair of white points with positive cone responses; every transform offered',
     'Tests, if any, use one pair of whites; the laws quantify over all pairs.',
     ['src/chromatic_adaptation.rs'], [('bradford, von_kries, cat02', 'src/chromatic_adaptation.rs')])
prop('C06', '3x3 matrix algebra obeys its laws',
     'Matrix construction, indexing, transpose, determinant, products with matrices, scalars and colours, sums and identity obey the usual definitions, in both precisions. Both matrix inverses return the true inverse of every invertible matrix, whatever its pattern of zeros and signs or its scale, agree with each other, and report a singular matrix as documented.',
     'every matrix entry value; every zero pattern',
     'Tests invert one or two matrices; special-cased paths (affine matrices, zero pivots) are chosen by the entries.',
     ['src/math.rs'], [('Matrix33 operators, inverse, gj_inverse', 'src/math.rs')],
     note='The inverse laws are decided for symbolic entries on the generic paths and for all 512 zero/one matrices, permutations, and affine and single-column patterns on the special-cased ones.')
prop('C07', 'XYZ and xyY coordinates convert losslessly',
     'Converting XYZ to xyY and back is the identity for every stimulus with nonzero Y and nonzero sum, and so is the other direction; xyY is (X/(X+Y+Z), Y/(X+Y+Z), Y/100); chromaticity does not change when a stimulus is scaled. Both precisions agree.',
     'every stimulus with nonzero Y and X+Y+Z',
     'Tests convert a handful of stimuli.',
     ['src/chromaticity.rs', 'src/xyz.rs'], [('XYY::from_xyz, From impls', 'src/chromaticity.rs, src/xyz.rs')])
prop('C08', 'CIE L*a*b* conversion is the published one',
     'Conversion to L*a*b* follows the CIE definition on both the cube-root and the linear branch of each channel independently, and the conversion back undoes it; white is (100,0,0), black (0,0,0), greys are neutral. Both precisions agree.',
     'every stimulus and reference white, all combinations of branches',
     'Tests sample bright colours; dark colours use the linear branch per channel.',
     ['src/lab.rs'], [('xyz_to_lab, lab_to_xyz', 'src/lab.rs')])
prop('C09', 'Colour differences follow their definitions',
     'The CIE76 difference is the Euclidean distance; the CIEDE2000 difference equals the published formula for every pair of colours, is zero for equal colours, symmetric, and unaffected by which colour is achromatic. The default difference is CIEDE2000, and both precisions agree.',
     'every pair of L*a*b* colours',
     'The published test pairs do not reach every hue-quadrant branch.',
     ['src/lab.rs'], [('delta_E_1976, delta_E_2000', 'src/lab.rs')])
prop('C10', 'Quantising RGB to 8/16 bits is clamped nearest rounding',
     'Converting floating-point RGB to 8- or 16-bit RGB gives, per channel, the integer nearest to value*255 (or *65535), values below 0 give 0 and above 1 the maximum; every integer code survives conversion to floating point and back; the conversion never panics or wraps.',
     'every finite channel value and every code, both depths and precisions',
     'Tests convert a few colours; off-by-one and wrap-around appear at particular values.',
     ['src/rgb.rs'], [('From<RGBf> for RGBu8/RGBu16 and back', 'src/rgb.rs')])
prop('C11', 'Colour arithmetic is component-wise',
     'Addition, subtraction, multiplication, division, scalar operations, sums, powers, clamping, normalisation, maximum, indexing, comparison, narrowing and conversion of RGB and XYZ colours act on each component separately as their names say, in both precisions. An out-of-range index panics; it never reads anything else.',
     'every component value',
     'Tests exercise few of the many operator impls, which are written out by hand per type and per component.',
     ['src/rgb.rs', 'src/xyz.rs'], [('operator and trait impls of RGBf, RGBAf, XYZ', 'src/rgb.rs, src/xyz.rs')])
prop('C12', 'Fixed-shape spectra convert to XYZ correctly, scalar or SIMD',
     'Converting a 40-sample spectrum to XYZ is the weighted sum over all samples with the built-in weights; it is linear, zero for the zero spectrum, and maps the perfect diffuser to the built-in white. The SIMD implementation gives the same result as the scalar one and the conversion method uses whichever the build enables. Products, construction, iteration and equality of such spectra are element-wise.',
     'every spectrum (40 symbolic samples), scalar and AVX builds',
     'The scalar and SIMD paths are tested on the chart patches only and only one is compiled per build.',
     ['src/spd.rs'], [('spd_to_xyz_scalar, spd_to_xyz_avx, hadd_avx, Mul', 'src/spd.rs')], over=('inputs', 'configurations'))
prop('C13', 'Spectra have the shape their samples say',
     'A spectrum built from samples keeps exactly these samples in order; its start and end are the first and last wavelength and its interval is uniform exactly when all gaps are equal (up to round-off), otherwise varying. Iterating a shape yields start, start+interval, ... up to the end inclusive, never beyond; constructing from a shape with values requires matching lengths and pairs them in order. Scaling, collecting and comparing are element-wise; fewer than two samples are rejected.',
     'every list of samples (values and gaps symbolic, lengths enumerated), every start and interval',
     'Tests build a few uniform spectra; an irregular gap may be at any position.',
     ['src/vspd.rs', 'src/macros.rs'], [('VSPD::new/from_values/constant, calculate_interval, SpdShape::iter', 'src/vspd.rs')])
prop('C14', 'Interpolators are exact at samples and follow their definitions',
     'Sprague interpolation passes through every sample, reproduces constants and straight lines everywhere and polynomials up to degree four away from the ends, is linear in the samples, symmetric under reversal, and is the CIE 167 quintic in every cell including the first and last. Linear interpolation is exact on straight lines between any adjacent samples, regular or not, and holds the boundary values outside. Evenly spaced sequences and Lagrange coefficients reproduce polynomials.',
     'every sample value, grid start, grid step and evaluation point; sizes enumerated',
     'Tests evaluate one point of one straight line.',
     ['src/interpolation.rs', 'src/vspd.rs'], [('InterpolatorSprague, InterpolatorLinear, ExtrapolatorConstant', 'src/interpolation.rs'), ('linspace, lagrange_coefficients_astm_e2022', 'src/vspd.rs')])
prop('C15', 'Resampling keeps the spectrum on the requested grid',
     'Interpolating, extrapolating, trimming and aligning a spectrum yield samples exactly on the grid of the requested shape, one per grid point, with the value of the interpolating curve (linear for irregular samples or fewer than six) inside the measured range and the boundary value outside. Resampling a spectrum on its own grid changes nothing, constants and ramps are preserved, and resampling is linear in the values. The three colour matching functions are aligned like any other spectrum. Requests that make no sense are rejected with a panic.',
     'every sample value; grids, shapes and lengths enumerated (aligned, off-grid, partially overlapping, irregular)',
     'Tests align a few built-in tables; off-by-one samples appear only for particular starts, intervals and lengths.',
     ['src/vspd.rs', 'src/interpolation.rs', 'src/cmf.rs'], [('VSPD::interpolate, extrapolate, trim, align', 'src/vspd.rs'), ('CMF::align', 'src/cmf.rs')],
     note='Shapes and lengths are enumerated; sample values are symbolic.')
prop('C16', 'Spectrum to XYZ is the ASTM E308 integral',
     'The XYZ of a spectrum is 100 times the sum of spectrum x illuminant x colour matching function over 360-780 nm, divided by the sum of illuminant x y-bar, whatever the range, spacing and alignment of the samples: directly at 1 nm and 5 nm, through weighting factors equivalent to Lagrange interpolation at 10 nm, and by resampling to 1 nm for anything else (irregular samples included), with values outside the measured range held at the boundary. It is linear in the spectrum, the perfect diffuser has Y = 100 and the strength of the illuminant does not matter.',
     'every spectrum value; sampling grids enumerated; built-in and arbitrary illuminants and observers',
     'Tests integrate the chart spectra (one grid each) under two illuminants.',
     ['src/vspd.rs', 'src/cmf.rs'], [('VSPD::to_xyz and its per-interval variants, weighting factors', 'src/vspd.rs')],
     note='Sampling grids are enumerated; sample values (and in two obligations the illuminant and observer) are symbolic.')
prop('C17', 'Built-in data tables are the published ones and agree',
     'The built-in data are what their names say, entry by entry: the 24 ColorChecker patches (names in chart order, reflectances, XYZ under D65, linear and encoded values in every listed space), the CIE standard observer, the D-series illuminants, the Mallett-Yuksel and Smits basis spectra, named white points and the weights of the fixed-shape integrator. Tables that describe the same thing in two forms agree: reflectance with XYZ, XYZ with the linear RGB of a space, linear with encoded, named white with illuminant spectrum.',
     'every entry of every table (about 12000 values)',
     'Tests look at a few entries; a wrong digit in one entry of one table is invisible to them.',
     ['src/colorchecker.rs', 'src/cmf.rs', 'src/illuminant.rs', 'src/uplifting.rs', 'src/spd.rs'], [('lazy statics and constants', 'src/colorchecker.rs, src/cmf.rs, src/illuminant.rs, src/uplifting.rs, src/spd.rs')],
     observe=['the public tables of colorchecker, cmf, illuminant, uplifting, spd'],
     note='The reference copy was taken from the pinned tree after cross-checking it against independent relations (see DESIGN.md), so it detects changes; it is not an independent publication of the data.')
prop('C18', 'Unsafe code never reads or writes outside its object',
     'No safe call of the public interface, with any input, reads or writes memory outside the object it was given, uses an uninitialised or misaligned value, or relies on an unspecified memory layout. This covers the slice casts between colours and scalars, unchecked indexing, raw-pointer and SIMD code of the plane and spectrum conversions, in every build configuration and for every length, aligned or not.',
     'every input of every public function; slice and plane lengths; scalar and AVX builds',
     'Out-of-bounds access usually goes unnoticed in a test run and depends on lengths, alignment and target features that tests do not vary.',
     ['src/rgb.rs', 'src/transform.rs', 'src/spd.rs', 'src/vspd.rs', 'src/xyz.rs'], [('cast_slice, cast_slice_mut, unsafe impls', 'src/rgb.rs'), ('xyz_slice_to_rgb_avx_planes', 'src/transform.rs'), ('spd_to_xyz_avx, hadd_avx', 'src/spd.rs'), ('calculate_interval (get_unchecked)', 'src/vspd.rs')], over=('inputs', 'configurations'), tech='abstract interpretation of MIR with a memory model, plus an inventory of unsafe operations',
     note='Every unsafe operation in the source must be reached by an analysed root (reported otherwise); lengths are enumerated, values symbolic. ')
prop('C19', 'Results depend only on the arguments',
     'Calling a public function any number of times, in any order and interleaved with any other calls, gives the same result for the same arguments. No function keeps state between calls, changes its inputs, or reads the environment, clock, random numbers, addresses or thread identity; built-in tables, once initialised, never change, whatever is initialised first.',
     'every history of calls',
     'Tests call each function once in a fresh process; a cache keyed too coarsely or a table initialised in another order shows only in longer histories.',
     ['src/transform.rs', 'src/vspd.rs', 'src/color_space_rgb.rs', 'src/colorchecker.rs', 'src/illuminant.rs', 'src/cmf.rs'], [('all public functions', 'src/*.rs'), ('lazy statics', 'src/colorchecker.rs, src/illuminant.rs, src/cmf.rs, src/uplifting.rs')], over=('inputs', 'histories'), tech='effect analysis over the MIR call graph and abstract interpretation of call histories',
     note='Two parts: every function of the crate is searched for effects (static muts, interior mutability, environment, time, threads); pairs of calls with different arguments are interpreted in both orders. ')
prop('C20', 'No request that makes sense panics',
     'Every public function returns for every finite input of the documented kind: extreme, negative, zero or equal colours, singular matrices, degenerate whites, empty slices and buffers of different lengths, and spectra of any length from two samples on any grid, regular or not, resampled onto any grid, overlapping or not. Only documented misuse panics (fewer than two samples, mismatched lengths, indices out of range), and temperatures outside the locus are errors.',
     'every input value; lengths, grids and patterns of gaps enumerated',
     'Tests use well-behaved inputs; panics come from a particular length, offset, gap or zero.',
     ['src/vspd.rs', 'src/interpolation.rs', 'src/rgb.rs', 'src/math.rs', 'src/transform.rs', 'src/lab.rs', 'src/illuminant.rs'], [('all public functions', 'src/*.rs')],
     note='The panics reachable from the roots of all other properties are included. ')
prop('C21', 'Luminance of a spectrum is 683 lm/W times its weighted mean',
     'spd_to_nit is 683 times the mean, over the samples of the spectrum, of the spectrum times the luminous efficiency of the observer resampled at the spectrum\'s wavelengths (an irregular spectrum is resampled at 1 nm first). It is linear in the spectrum, ignores the other two colour matching functions and works for any range and interval, inside and outside the observer\'s table.',
     'every spectrum value; sampling grids enumerated; built-in and arbitrary observer',
     'The one test computes the luminance of one spectrum on one grid.',
     ['src/photometry.rs', 'src/vspd.rs'], [('spd_to_nit', 'src/photometry.rs'), ('VSPD::align', 'src/vspd.rs')])
prop('C22', 'Colour temperatures give the CIE daylight chromaticity',
     'For every correlated colour temperature from 4000 K to 25000 K, cct returns the chromaticity on the CIE daylight locus with luminance 1; every other value, including infinities and NaN, is reported as an error. The two branches of the locus meet at 7000 K, both precisions agree, and the named daylight white points lie on the locus.',
     'every temperature, f32 and f64',
     'Tests, if any, evaluate a few temperatures; a wrong coefficient or an open interval end shows on one branch or at one value.',
     ['src/illuminant.rs'], [('xy::cct, xy::D50..D65', 'src/illuminant.rs')])
prop('C23', 'Uplifting an RGB colour gives the mixture of the basis spectra',
     'Uplifting an RGB colour gives the Mallett-Yuksel spectrum on 380-780 nm every 5 nm: the colour\'s components times the three basis spectra. It is linear in the colour, a grey gives a flat spectrum, a colour inside the gamut gives a reflectance between 0 and 1, and the spectrum seen under D65 has the colour it was made from.',
     'every RGB colour',
     'Tests uplift a few colours and look at the result under one illuminant.',
     ['src/uplifting.rs'], [('uplift_my, my_basis, MY_*', 'src/uplifting.rs')])

na('C24', 'Results are accurate to floating-point rounding',
   'Every conversion agrees with its exact value to within a few units in the last place in double precision, and the single-precision result agrees with the double-precision one to within single-precision rounding, for every input in the stated domain.',
   'every input of every numeric function, f32 and f64',
   'Tests compare a few results with printed digits under tolerances of 1e-3 to 1e-6.',
   ['src/color_space_rgb.rs', 'src/transform.rs', 'src/lab.rs', 'src/spd.rs'], [('every numeric function', 'src/')],
   'A sound bound on accumulated round-off needs a floating-point error analysis of pipelines with powf, cbrt, exp, sin and atan2 (whose implementation in libm is itself not specified to a bound); interval or affine domains over the wide input ranges give bounds too loose to separate right from wrong, and running the code is outside the family. The claimed properties use real-arithmetic semantics with a tolerance instead.')
na('C25', 'Half-precision pixels keep colour and alpha',
   'With the f16 feature enabled, converting a colour to half-precision pixels and back returns each channel to within half-precision rounding, with alpha one where it is added.',
   'every colour value, builds with the f16 feature',
   'No test is built with the feature.',
   ['src/rgb.rs', 'src/transform.rs'], [('RGBf16, RGBAf16 and their conversions', 'src/rgb.rs')],
   'Cargo.toml declares neither this feature nor the crate that provides f16 (which cannot be fetched offline), so this configuration cannot be compiled and has no type-checked program or MIR to analyse.', over=('inputs', 'configurations'))
prop('C26', 'Printed colours and spectra show every component in order',
     'Printing with {} shows, for a colour of any of the RGB or XYZ types, its three components in order; for a sample its wavelength and value; for a spectral shape its start, end and interval (or that the interval varies); for a spectrum its shape followed by every sample in order, or, for the fixed-shape spectrum, its forty values in order. Every number is printed in full precision, so that it reads back as the same value, and kept apart from its neighbours. The {:?} form of samples and spectra shows the same.',
     'every component value, every sample count and both kinds of interval',
     'Tests print values for the reader of the log and look at none of it.',
     ['src/rgb.rs', 'src/xyz.rs', 'src/vspd.rs', 'src/spd.rs'], [('Display for RGBf, RGBu8, RGBu16, XYZ', 'src/rgb.rs, src/xyz.rs'), ('Display/Debug for Sample, SpdShape, Interval, VSPD, SPD', 'src/vspd.rs, src/spd.rs')],
     note='core::fmt itself is modelled: format templates are decoded, and printing a number without a precision is taken to be exact. Sample counts are enumerated.', observe=['the text produced by format!("{}", value)'])
prop('C27', 'Double-precision results never pass through single precision',
     'A result in double precision (a colour, matrix, spectrum, colour difference, luminance or temperature), and the 8- and 16-bit codes of a double-precision colour, are computed from their double-precision arguments and the built-in double-precision data entirely in double precision: on no path is an argument, an intermediate value, a coefficient or a table entry rounded to single precision. A value loses its double precision only where the caller asks for a single-precision type.',
     'every double-precision argument of every double-precision function',
     'A value that went through single precision is wrong from the eighth digit on; the tests compare with tolerances of 1e-3 to 1e-6 and cannot see it.',
     ['src/color_space_rgb.rs', 'src/transform.rs', 'src/lab.rs', 'src/rgb.rs', 'src/xyz.rs', 'src/math.rs', 'src/vspd.rs', 'src/interpolation.rs', 'src/illuminant.rs', 'src/chromatic_adaptation.rs', 'src/photometry.rs', 'src/uplifting.rs'],
     [('generic f64 instantiations: ColorSpaceRGB, Matrix33, RGBf, XYZ, Lab, XYY', 'src/'), ('VSPD, interpolators and integrators', 'src/vspd.rs, src/interpolation.rs'), ('quantisation of RGBf64', 'src/rgb.rs')],
     tech='precision-flow (taint) analysis over the value graph of the abstractly interpreted MIR',
     note='A narrowing cast, or arithmetic done in f32, that a double-precision result depends on is a violation, reported with its source location. A branch decided in f32 that leads to equal results is undecided. Roots as in the other properties: shapes enumerated, values symbolic.')
