"""What each property's check analyses."""
ASSUME = [
    'floating-point arithmetic is modelled as real arithmetic on the decimal literals as the compiler rounds them; rounding of intermediate results is not modelled (tolerances absorb it)',
    'rustc nightly produces the MIR it would compile; the interpreter of MIR in /verif/engine and its models of libm, alloc, slices and AVX intrinsics are trusted',
    'value-number equality is decided by fingerprints in a 127-bit prime field (randomised; probability of a wrong equality below 2^-100 per comparison)',
]
PROPS = {
 'C01': dict(explain="Each encode/decode pair, and each built-in space's pair, composed both ways on a symbolic value: the composition's value graph is the identity on every segment."),
 'C02': dict(explain="Each curve's value graph against the published formula on every segment; per-channel independence; f32 against f64; which curve each built-in space carries."),
 'C03': dict(explain='Matrices of every built-in space against primaries and white (and their mutual inverse), constructors on symbolic primaries, white, matrices and curves.'),
 'C04': dict(explain='Round trips, white mapping and matrix composition for symbolic colours, whites and spaces; slice, plane (AVX) and pixel-buffer forms against the scalar one for enumerated lengths.', cfgs=['base','avx']),
 'C05': dict(explain='Each adaptation transform on symbolic whites: white to white, identity, inverse, chain, scale, diagonal in its cone space, input forms, both precisions.'),
 'C06': dict(explain='Matrix operators on symbolic entries against the definitions; both inverses times the matrix is the identity on every feasible path, and on all zero patterns.'),
 'C07': dict(explain='XYZ -> xyY -> XYZ and the reverse on symbolic values, definition, scale invariance, both precisions.'),
 'C08': dict(explain='L*a*b* conversion on symbolic stimuli and whites, one obligation per combination of branches, and back.'),
 'C09': dict(explain='CIE76 and CIEDE2000 on symbolic colours against the published formula, per hue branch; symmetry, identity, greys.'),
 'C10': dict(explain='Quantisation on a symbolic channel: nearest integer, clamping, totality; all 256/65536 codes as a symbolic integer round trip.'),
 'C11': dict(explain='Every operator and trait impl of the colour types on symbolic components, component by component; index bounds.'),
 'C12': dict(explain='The 40-sample integrator, scalar and AVX, on 40 symbolic samples against the weighted sum; products, iteration, equality.', cfgs=['base','avx']),
 'C13': dict(explain='Spectrum constructors and shape iteration on symbolic samples and gaps, lengths enumerated; the classification of the interval for a gap at any position.'),
 'C14': dict(explain='Interpolators on symbolic samples and evaluation points in each cell against CIE 167 formulas; linspace and Lagrange coefficients.'),
 'C15': dict(explain='Interpolate, extrapolate, trim and align on symbolic samples for enumerated source grids and requested shapes: number of samples, wavelengths, values; linearity.'),
 'C16': dict(explain='to_xyz on symbolic samples for enumerated grids against the defining sums; symbolic illuminants and observers; diffuser and scale laws.'),
 'C17': dict(explain="Every entry of every built-in table, as initialised by the program's own initialiser, against the reference copy and against the other tables."),
 'C18': dict(explain='Every memory access on every path of every root of every property is inside its object, initialised, aligned and relies on specified layout; every unsafe operation in the sources is reached by an analysed root.', cfgs=['base', 'avx'], mods=['c%02d' % i for i in list(range(1, 18)) + [21, 22, 23]], skip=r'c16::r_(?!varying|1nm$|5nm$|10nm$)|c23::r_round', analyses=['unsafe'], borrow=('ub',), borrow_label='every memory access on every path stays inside its object'),
 'C19': dict(explain='Histories: pairs of calls interpreted in both orders, from fresh and from warmed state, give the same values and leave their arguments unchanged. Effects: no reachable function of the crate touches statics mutably, interior mutability, environment, time, randomness, threads or addresses.', slow=['colour::r_20', 'colour::r_1_', 'colour::r_builtin'], analyses=['effects']),
 'C20': dict(explain='Wide-domain totality roots plus the panics of the roots of all other properties: no panic is reachable except for the listed misuse, which does panic.', mods=['c%02d' % i for i in list(range(1, 18)) + [21, 22, 23]], skip=r'c16::r_(?!varying|1nm$|5nm$|10nm$)|c23::r_round', borrow=('panic',), borrow_label='no panic is reachable', slow=['c20::r_irr','c20::r_nine']),
 'C21': dict(explain='spd_to_nit on symbolic samples for enumerated grids against the weighted mean; symbolic observers; linearity.'),
 'C22': dict(explain='cct on a symbolic temperature: which values are accepted, the chromaticity on each branch, continuity at 7000 K, named whites on the locus.'),
 'C23': dict(explain='uplift_my on a symbolic colour against the mixture of the basis, linearity, greys, bounds, and the colour of the result under D65.'),
 'C27': dict(explain='The double precision interface on symbolic values, with every narrowing to single precision kept visible in the value graph: no result depends on one.', strict=True),
 'C26': dict(explain='The Display (and hand-written Debug) implementations on symbolic values, with a recording formatter: which numbers are printed, in which order, in full precision, and separated.', fmt=True),
 'C99': dict(explain='engine self test'),
}
