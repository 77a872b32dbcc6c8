"""Transfer functions for library code that has no (useful) MIR body: heap
containers, float intrinsics, formatting, lazy statics and SIMD intrinsics."""
import math, re
from fractions import Fraction
import terms as T
from terms import num, ite, bnot, band, bor, bite, B, Node
from interp import *
from interp import native, native_re, intr, NATIVE, NATIVE_RE, INTR

HALF = num(Fraction(1, 2)); THIRD = num(Fraction(1, 3))


def fbits(I, cx, i=0):
    if cx.dty is not None and I.T[cx.dty]['k'] == 'float': return I.T[cx.dty]['bits']
    if 'f32' in cx.inst['def']: return 32
    return 64


def nd(I, x, S):
    x = I.resolve(x, S)
    if type(x) is IteVal: raise NeedSplit(x.c)
    if type(x) is int: return num(x)
    if type(x) is not Node: raise Unsupported('float arg %r' % (x,))
    return x


def fsqrt(a, bits=64):
    if a.f is not None and a.f < 0: return T.nonfin(math.nan)
    c, d = T.monomial(a)
    if a.f is None and d and all(k % 2 == 0 for k in d.values()) and c.f > 0:
        r = T.power(c, HALF, bits)
        for b, k in d.items():
            r = T.mul(r, T.fn('abs', T.powi(b, k // 2)))
        return r
    return T.power(a, HALF, bits)


def fcbrt(a, bits=64):
    if a.f is not None:
        if a.f < 0: return T.neg(T.power(T.neg(a), THIRD, bits))
        return T.power(a, THIRD, bits)
    return ite(T.gt0(a), T.power(a, THIRD, bits), T.neg(T.power(T.neg(a), THIRD, bits)))


def fmin(a, b):
    if T.nanc(a): return b
    if T.nanc(b): return a
    return ite(T.lt(a, b), a, b)


def fmax(a, b):
    if T.nanc(a): return b
    if T.nanc(b): return a
    return ite(T.lt(a, b), b, a)


def ffn(name):
    return lambda v, bits: T.fn(name, *v, bits=bits)


LN2 = T.ln(num(2)); LN10 = T.ln(num(10))
FLOAT = {
    'sqrt': lambda v, b: fsqrt(v[0], b),
    'cbrt': lambda v, b: fcbrt(v[0], b),
    'powf': lambda v, b: T.power(v[0], v[1], b),
    'exp': lambda v, b: T.exp(v[0], b),
    'exp2': lambda v, b: T.power(num(2), v[0], b) if v[0].f is not None else T.exp(T.mul(v[0], LN2), b),
    'exp_m1': lambda v, b: T.sub(T.exp(v[0], b), T.ONE),
    'ln': lambda v, b: T.ln(v[0], b),
    'ln_1p': lambda v, b: T.ln(T.add(T.ONE, v[0]), b),
    'log10': lambda v, b: T.div(T.ln(v[0]), LN10, b),
    'log2': lambda v, b: T.div(T.ln(v[0]), LN2, b),
    'log': lambda v, b: T.div(T.ln(v[0]), T.ln(v[1]), b),
    'hypot': lambda v, b: fsqrt(T.add(T.mul(v[0], v[0]), T.mul(v[1], v[1])), b),
    'mul_add': lambda v, b: T.add(T.mul(v[0], v[1], b), v[2], b),
    'recip': lambda v, b: T.div(T.ONE, v[0], b),
    'abs': ffn('abs'),
    'min': lambda v, b: fmin(v[0], v[1]),
    'max': lambda v, b: fmax(v[0], v[1]),
    'fract': lambda v, b: T.sub(v[0], T.fn('trunc', v[0], bits=b)),
    'tan': lambda v, b: T.div(T.fn('sin', v[0], bits=b), T.fn('cos', v[0], bits=b), b),
}
for _n in ('sin', 'cos', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'round', 'trunc', 'round_ties_even'):
    FLOAT[_n] = ffn(_n)


def lift_fn(f, v, bits):
    return f(v, bits)


@native_re(r'^(std|core)::f(32|64)::<impl f(32|64)>::(\w+)$')
def float_method(I, cx, args, S):
    m = cx.inst['def'].rsplit('::', 1)[1]
    bits = fbits(I, cx)
    if m in FLOAT:
        return FLOAT[m]([nd(I, a, S) for a in args], bits)
    if m == 'powi':
        x = nd(I, args[0], S); n = I.toint(args[1], S)
        return T.powi(x, n, bits)
    if m == 'sin_cos':
        x = nd(I, args[0], S)
        return Agg((T.fn('sin', x), T.fn('cos', x)))
    if m == 'is_nan': return T.nanc(nd(I, args[0], S))
    if m == 'is_finite':
        x = nd(I, args[0], S); return T.isfin(x) if x.f is not None else True
    if m == 'is_infinite':
        x = nd(I, args[0], S); return x.f is not None and x.f in (T.inf, -T.inf)
    if m == 'is_normal':
        x = nd(I, args[0], S); return T.isfin(x) and x.f != 0 if x.f is not None else bnot(T.eq(x, T.ZERO))
    if m == 'is_sign_negative':
        x = nd(I, args[0], S)
        return math.copysign(1, x.f) < 0 if x.f is not None else T.lt(x, T.ZERO)
    if m == 'is_sign_positive':
        x = nd(I, args[0], S)
        return math.copysign(1, x.f) > 0 if x.f is not None else bnot(T.lt(x, T.ZERO))
    if m == 'total_cmp':
        x, y = nd(I, I.deref(args[0], S), S), nd(I, I.deref(args[1], S), S)
        if x.f is not None and y.f is not None: return NotImplemented
        return mergeval2(I, T.lt(x, y), I.ordering(-1), mergeval2(I, T.lt(y, x), I.ordering(1), I.ordering(0)))
    if m == 'signum':
        x = nd(I, args[0], S)
        if x.f is not None: return x if x.f != x.f else num(int(math.copysign(1, x.f)))
        return ite(T.lt(x, T.ZERO), T.MINUS1, T.ONE)
    if m == 'copysign':
        x, y = nd(I, args[0], S), nd(I, args[1], S)
        a = T.fn('abs', x)
        if y.f is not None: return a if math.copysign(1, y.f) > 0 else T.neg(a)
        return ite(T.lt(y, T.ZERO), T.neg(a), a)
    if m == 'to_degrees':
        x = nd(I, args[0], S); return T.mul(x, T.div(num(180), T.lit(repr(math.pi)), 64), bits)
    if m == 'to_radians':
        x = nd(I, args[0], S); return T.mul(x, T.div(T.lit(repr(math.pi)), num(180), 64), bits)
    if m in ('to_int_unchecked',):
        return I.cast('FloatToInt', nd(I, args[0], S), cx.dty, None, S)
    return NotImplemented


@native_re(r'^(std|core)::(intrinsics|num::imp::libm|sys::cmath|sys::pal::cmath)::')
def intrinsic_fn(I, cx, args, S):
    m = cx.inst['def'].rsplit('::', 1)[1]
    return intr_dispatch(I, cx, m, args, S)


LIBM = {'pow': 'powf', 'powf': 'powf', 'cbrtf': 'cbrt', 'atan2f': 'atan2', 'hypotf': 'hypot', 'fabs': 'abs', 'fmaf': 'mul_add', 'fma': 'mul_add',
        'sinhf': 'sinh', 'coshf': 'cosh', 'tanhf': 'tanh', 'asinf': 'asin', 'acosf': 'acos', 'atanf': 'atan', 'tanf': 'tan', 'sinf': 'sin', 'cosf': 'cos',
        'expf': 'exp', 'logf': 'ln', 'log': 'ln', 'log10f': 'log10', 'log2f': 'log2', 'sqrtf': 'sqrt', 'floorf': 'floor', 'ceilf': 'ceil', 'truncf': 'trunc',
        'roundf': 'round', 'fmin': 'min', 'fmax': 'max', 'expm1': 'exp_m1', 'log1p': 'ln_1p', 'maximum_number_nsz': 'max', 'minimum_number_nsz': 'min',
        'maxnum': 'max', 'minnum': 'min', 'exp2f': 'exp2', 'rint': 'round_ties_even', 'round_ties_even': 'round_ties_even'}


def intr_dispatch(I, cx, m, args, S):
    base = m
    for suf in ('f64', 'f32', '_f64', '_f32'):
        if base.endswith(suf) and len(base) > len(suf): base = base[:-len(suf)].rstrip('_'); break
    if m in INTR: return INTR[m](I, cx, args, S)
    if base in INTR: return INTR[base](I, cx, args, S)
    if base in LIBM: base = LIBM[base]
    isf = cx.dty is not None and I.T[cx.dty]['k'] == 'float'
    if base in FLOAT and isf and all(type(I.resolve(a, S)) is Node for a in args):
        return FLOAT[base]([nd(I, a, S) for a in args], I.T[cx.dty]['bits'])
    if base in ('powi', '__powidf2', '__powisf2') and isf:
        return T.powi(nd(I, args[0], S), I.toint(args[1], S), I.T[cx.dty]['bits'])
    if base == 'copysign' and isf:
        x, y = nd(I, args[0], S), nd(I, args[1], S)
        a = T.fn('abs', x)
        if y.f is not None: return a if math.copysign(1, y.f) > 0 else T.neg(a)
        return ite(T.lt(y, T.ZERO), T.neg(a), a)
    return NotImplemented


# ------------------------------------------------------------- intrinsics
def both(I, args, S):
    return I.sharp(args[0], S), I.sharp(args[1], S)


def vwidth(p):
    if p.v and p.v[0] == 'raw': raise Unsupported('bytes of a wider value')
    return p.v[0] if p.v else 1


def _pdiff(p, q):
    if type(p) is Fat: p = p.p
    if type(q) is Fat: q = q.p
    if type(p) is Ptr and type(q) is Ptr and p.a == q.a and p.p[:-1] == q.p[:-1]:
        if p.p == q.p: return 0
        k = vwidth(p)
        return (p.p[-1] - q.p[-1]) // k
    raise Unsupported('pointer difference %r %r' % (p, q))


@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def _(I, cx, a, S): p, q = both(I, a, S); return _pdiff(p, q)


@intr('arith_offset', 'offset')
def _(I, cx, a, S): return I.padd(I.sharp(a[0], S), I.toint(a[1], S), S)


def ibin(op):
    def f(I, cx, a, S):
        return I.binop(op, a[0], a[1], cx.dty if cx.dty is not None else cx.atys[0], S)
    return f


for _n, _o in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul'), ('unchecked_add', 'Add'), ('unchecked_sub', 'Sub'), ('unchecked_mul', 'Mul'),
               ('unchecked_div', 'Div'), ('unchecked_rem', 'Rem'), ('unchecked_shl', 'Shl'), ('unchecked_shr', 'Shr'), ('exact_div', 'Div'),
               ('fadd_fast', 'Add'), ('fmul_fast', 'Mul'), ('fsub_fast', 'Sub'), ('fdiv_fast', 'Div'), ('fadd_algebraic', 'Add'), ('fmul_algebraic', 'Mul')):
    INTR[_n] = ibin(_o)


def ichk(op):
    def f(I, cx, a, S):
        ty = cx.atys[0]
        return I.binop(op, a[0], a[1], ty, S, True)
    return f


for _n, _o in (('add_with_overflow', 'Add'), ('sub_with_overflow', 'Sub'), ('mul_with_overflow', 'Mul')): INTR[_n] = ichk(_o)


@intr('saturating_add')
def _(I, cx, a, S):
    lo, hi = I.bounds(cx.dty); x, y = I.resolve(a[0], S), I.resolve(a[1], S)
    if type(x) is int and type(y) is int: return min(hi, max(lo, x + y))
    raise Unsupported('sat add')


@intr('saturating_sub')
def _(I, cx, a, S):
    lo, hi = I.bounds(cx.dty); x, y = I.resolve(a[0], S), I.resolve(a[1], S)
    if type(x) is int and type(y) is int: return min(hi, max(lo, x - y))
    d = T.sub(num(x), num(y))
    return mergeval(T.lt(d, num(lo)), lo, d)


@intr('bswap')
def _(I, cx, a, S):
    b = I.T[cx.dty]['bits'] // 8
    return I.wrap(int.from_bytes((I.toint(a[0], S) & ((1 << 8 * b) - 1)).to_bytes(b, 'little'), 'big'), cx.dty)


@intr('ctpop')
def _(I, cx, a, S): return bin(I.toint(a[0], S)).count('1')


@intr('ctlz', 'ctlz_nonzero')
def _(I, cx, a, S): b = I.T[cx.atys[0]]['bits']; return b - I.toint(a[0], S).bit_length()


@intr('cttz', 'cttz_nonzero')
def _(I, cx, a, S): x = I.toint(a[0], S); return (x & -x).bit_length() - 1 if x else I.T[cx.atys[0]]['bits']


@intr('float_to_int_unchecked')
def _(I, cx, a, S): return I.cast('FloatToInt', nd(I, a[0], S), cx.dty, None, S)


@intr('black_box')
def _(I, cx, a, S): return a[0]


@intr('assume', 'assert_inhabited', 'assert_zero_valid', 'cold_path', 'assert_mem_uninitialized_valid')
def _(I, cx, a, S): return UNIT


@intr('likely', 'unlikely')
def _(I, cx, a, S): return a[0]


@intr('select_unpredictable')
def _(I, cx, a, S): return mergeval2(I, I.tobool(a[0], S), a[1], a[2])


def mergeval2(I, c, a, b):
    if c is True: return a
    if c is False: return b
    return mergeval(c, a, b)


@intr('copy_nonoverlapping', 'copy')
def _(I, cx, a, S):
    I.memcpy(I.sharp(a[0], S), I.sharp(a[1], S), I.toint(a[2], S), S); return UNIT


@intr('read_via_copy', 'volatile_load', 'unaligned_volatile_load')
def _(I, cx, a, S): return I.deref(a[0], S)


@intr('write_via_move', 'volatile_store')
def _(I, cx, a, S): I.put(a[0], a[1], S); return UNIT


@intr('size_of_val')
def _(I, cx, a, S):
    p = I.sharp(a[0], S); t = I.T[cx.targs[0]]
    if type(p) is Fat and type(p.m) is int: return p.m * I.T[t['e']]['size']
    return t['size']


@intr('size_of')
def _(I, cx, a, S): return I.T[cx.targs[0]]['size']


@intr('needs_drop')
def _(I, cx, a, S): return False


@intr('ub_checks', 'is_val_statically_known', 'overflow_checks', 'contract_checks')
def _(I, cx, a, S): return False


@intr('discriminant_value')
def _(I, cx, a, S):
    d = I.discr(I.deref(a[0], S), cx.targs[0], S)
    return I.wrap(d, cx.dty) if type(d) is int and cx.dty is not None and I.T[cx.dty]['k'] in ('int', 'uint') else d


@intr('three_way_compare')
def _(I, cx, a, S):
    x, y = I.resolve(a[0], S), I.resolve(a[1], S)
    if type(x) is int and type(y) is int: return I.ordering((x > y) - (x < y))
    X, Y = num(x), num(y)
    return mergeval(T.lt(X, Y), I.ordering(-1), mergeval2(I, T.eq(X, Y), I.ordering(0), I.ordering(1)))


@intr('raw_eq')
def _(I, cx, a, S): return I_eq(I, I.deref(a[0], S), I.deref(a[1], S), S)


@intr('compare_bytes')
def _(I, cx, a, S):
    n = I.toint(a[2], S); p = I.sharp(a[0], S)
    if type(p) is Fat: p = p.p
    k = 1
    if type(p) is Ptr and p.p and n:
        # the pointers were cast to bytes: recover the element size from the memory they address
        v = I.load(p.a, p.p[:-1], S); et = None
        if type(v) is Agg and v.ty is not None:
            t = I.T[v.ty]; et = t['args'][0] if I.P.isvec[v.ty] else t.get('e')
        if et is None: raise Unsupported('compare_bytes of untyped memory')
        k = I.T[et]['size']
    if k < 1 or n % k: raise Unsupported('compare_bytes')
    if k > 1 and cx.inst.get('ordered'): raise Unsupported('bytewise order')
    for i in range(n // k):
        x = I.deref(I.padd(I.sharp(a[0], S), i, S), S); y = I.deref(I.padd(I.sharp(a[1], S), i, S), S)
        if type(x) is not int or type(y) is not int: raise Unsupported('compare_bytes')
        if x != y: return -1 if x < y else 1
    return 0


def I_eq(I, a, b, S):
    if type(a) is Agg and type(b) is Agg:
        if len(a.f) != len(b.f): return False
        r = True
        for x, y in zip(a.f, b.f): r = band(r, I_eq(I, x, y, S))
        return r
    if isnum(a) and isnum(b): return T.eq(num(a), num(b))
    if type(a) in (bool, B): return bnot(T.bxor(a, b))
    if type(a) is Enum and type(b) is Enum:
        if a.v != b.v: return False
        return I_eq(I, Agg(a.f), Agg(b.f), S)
    return a == b


@native('std::mem::size_of', 'core::mem::size_of')
def _(I, cx, a, S): return I.T[cx.targs[0]]['size']


@native('std::mem::swap')
def _(I, cx, a, S):
    p, q = I.sharp(a[0], S), I.sharp(a[1], S)
    x = I.deref(p, S); y = I.deref(q, S)
    I.put(p, y, S); I.put(q, x, S); return UNIT


@native('std::ptr::swap_nonoverlapping')
def _(I, cx, a, S):
    p, q = I.sharp(a[0], S), I.sharp(a[1], S)
    for i in range(I.toint(a[2], S)):
        x, y = I.padd(p, i, S), I.padd(q, i, S)
        u = I.deref(x, S); v = I.deref(y, S)
        I.put(x, v, S); I.put(y, u, S)
    return UNIT


@native('std::ptr::swap_nonoverlapping_bytes')
def _(I, cx, a, S):
    p, q = I.sharp(a[0], S), I.sharp(a[1], S)
    n = a[2]
    while type(n) is Agg: n = n.f[0]
    n = I.toint(n, S)
    if not (type(p) is Ptr and type(q) is Ptr and p.v and q.v and p.v[0] == 'raw' and q.v[0] == 'raw' and p.v[1] == q.v[1]): raise Unsupported('byte-wise swap')
    w = I.T[p.v[1]]['size']
    if n % w: raise Unsupported('byte-wise swap')
    p, q = Ptr(p.a, p.p), Ptr(q.a, q.p)
    for i in range(n // w):
        x, y = I.padd(p, i, S), I.padd(q, i, S)
        u = I.deref(x, S); v = I.deref(y, S)
        I.put(x, v, S); I.put(y, u, S)
    return UNIT


@native('std::mem::replace')
def _(I, cx, a, S):
    p = I.sharp(a[0], S); x = I.deref(p, S); I.put(p, a[1], S); return x


@native('std::ptr::read', 'std::ptr::read_unaligned', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read',
        'std::ptr::const_ptr::<impl *const T>::read_unaligned')
def _(I, cx, a, S): return I.deref(a[0], S)


@native('std::ptr::write', 'std::ptr::write_unaligned', 'std::ptr::mut_ptr::<impl *mut T>::write')
def _(I, cx, a, S): I.put(a[0], a[1], S); return UNIT


@native_re(r'(drop_in_place|drop_glue|std::mem::(drop|forget))$|precondition_check$')
def _(I, cx, a, S): return UNIT


# ------------------------------------------------------------- Vec
def vecval(I, p, S):
    p = I.sharp(p, S)
    v = I.sharp(I.load(p.a, p.p, S), S)
    if type(v) is Opaque and v.tag and v.tag[0] == 'static': raise Unsupported('static vec')
    if type(v) is not Agg: raise Unsupported('vec %r' % (v,))
    return p, v


@native('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in', 'std::vec::Vec::<T, A>::with_capacity_in',
        '<std::vec::Vec<T> as std::default::Default>::default')
def _(I, cx, a, S):
    n = a[0] if 'with_capacity' in cx.inst['def'] else 0
    return Agg((), cx.dty, (n, {}) if type(n) is int and n > 0 else None)


def vset(v, f):
    """vector v with its elements replaced; the guaranteed capacity never shrinks"""
    c = v.cap
    return Agg(f, v.ty, (c[0], {}) if c and c[0] > len(f) else (len(v.f), {}) if len(v.f) > len(f) else None)


@native('std::vec::Vec::<T, A>::set_len')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    I.setlen(p.a, p.p, v, I.toint(a[1], S), S)
    return UNIT


@native('std::vec::Vec::<T, A>::spare_capacity_mut')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); cap = max(len(v.f), v.cap[0] if v.cap else 0)
    return Fat(Ptr(p.a, p.p + (len(v.f),)), cap - len(v.f))


@native('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def _(I, cx, a, S):
    p = I.sharp(a[0], S); n = I.toint(a[1], S)
    if type(p) is Fat: p = p.p
    if type(p) is Ptr:
        if p.p and type(p.p[-1]) is int:
            b = I.sharp(I.load(p.a, p.p[:-1], S), S)
            if type(b) is Agg:
                k = vwidth(p); i = p.p[-1]
                m = len(b.f) * p.v[2] if p.v and len(p.v) == 3 else max(len(b.f), b.cap[0] if b.cap else 0)
                if i < 0 or i + n * k > m: I.record_ub(S, 'from_raw_parts of [%d..%d) in an allocation of %d' % (i, i + n * k, m))
        elif not p.p and n == 1:
            # a single value seen as a slice of one
            q = I.new(Agg((I.load(p.a, p.p, S, p.v),)), S) if cx.inst['def'].endswith('parts') else None
            if q is None: raise Unsupported('mutable slice of one')
            return Fat(Ptr(q, (0,)), 1)
    return Fat(p, n)


@native('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    I.store(p.a, p.p, vset(v, v.f + (a[1],)), S)
    return UNIT if cx.inst['def'].endswith('push') else Ptr(p.a, p.p + (len(v.f),))


def opt(I, cx, x=None):
    return Enum(0, (), cx.dty) if x is None else Enum(1, (x,), cx.dty)


@native('std::vec::Vec::<T, A>::pop')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    if not v.f: return opt(I, cx)
    I.store(p.a, p.p, vset(v, v.f[:-1]), S)
    return opt(I, cx, v.f[-1])


@native('std::vec::Vec::<T, A>::insert')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); i = I.toint(a[1], S)
    if i > len(v.f): I.panic(S.pc, 'Vec::insert'); raise Dead()
    I.store(p.a, p.p, vset(v, v.f[:i] + (a[2],) + v.f[i:]), S); return UNIT


@native('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); i = I.toint(a[1], S)
    if i >= len(v.f): I.panic(S.pc, 'Vec::remove'); raise Dead()
    if cx.inst['def'].endswith('swap_remove'):
        f = list(v.f); x = f[i]; f[i] = f[-1]; f.pop()
        I.store(p.a, p.p, vset(v, tuple(f)), S); return x
    I.store(p.a, p.p, vset(v, v.f[:i] + v.f[i + 1:]), S); return v.f[i]


@native('std::vec::Vec::<T, A>::truncate')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); n = I.toint(a[1], S)
    if n < len(v.f): I.store(p.a, p.p, vset(v, v.f[:n]), S)
    return UNIT


@native('std::vec::Vec::<T, A>::resize')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); n = I.toint(a[1], S)
    I.store(p.a, p.p, vset(v, v.f[:n] + (a[2],) * max(0, n - len(v.f))), S)
    return UNIT


@native('std::vec::Vec::<T, A>::clear')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); I.store(p.a, p.p, vset(v, ()), S); return UNIT


@native('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); n = len(v.f) + I.toint(a[1], S)
    if n > (v.cap[0] if v.cap else len(v.f)): I.store(p.a, p.p, Agg(v.f, v.ty, (n, dict(v.cap[1]) if v.cap else {})), S)
    return UNIT


@native('std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::shrink_to')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    I.store(p.a, p.p, Agg(v.f, v.ty), S)
    return UNIT


@native('std::vec::Vec::<T, A>::len')
def _(I, cx, a, S): return len(vecval(I, a[0], S)[1].f)


@native('std::vec::Vec::<T, A>::is_empty')
def _(I, cx, a, S): return not vecval(I, a[0], S)[1].f


@native('std::vec::Vec::<T, A>::capacity')
def _(I, cx, a, S): v = vecval(I, a[0], S)[1]; return max(len(v.f), v.cap[0] if v.cap else 0)


@native('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice',
        'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut',
        '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def vderef(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    return Fat(Ptr(p.a, p.p + (0,)), len(v.f))


@native('std::vec::Vec::<T, A>::as_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    return Ptr(p.a, p.p + (0,))


@native('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def _(I, cx, a, S): p, v = vecval(I, a[0], S); return Agg(v.f, v.ty)


@native('std::vec::from_elem')
def _(I, cx, a, S): return Agg((a[0],) * I.toint(a[1], S), cx.dty)


@native('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec_in', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
        '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', '<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from')
def _(I, cx, a, S): return Agg(slice_elems(I, a[0], S), cx.dty)


@native('<std::vec::Vec<T> as std::convert::From<[T; N]>>::from', '<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from')
def _(I, cx, a, S):
    v = I.sharp(a[0], S)
    return Agg(slice_elems(I, v, S) if type(v) is Fat else v.f, cx.dty)


def slice_elems(I, x, S):
    x = I.sharp(x, S)
    if type(x) is Ptr: # &[T;N] or &Vec
        return I.sharp(I.deref(x, S), S).f
    b = I.sharp(I.load(x.p.a, x.p.p[:-1], S), S)
    i = x.p.p[-1]
    k = vwidth(x.p)
    if type(b) is not Agg: raise Unsupported('slice of %r' % (b,))
    if x.p.v and len(x.p.v) == 3: return tuple(I.load(x.p.a, x.p.p[:-1] + (i + j,), S, x.p.v) for j in range(x.m))
    if i + x.m * k > len(b.f): I.record_ub(S, 'slice [%d..%d) beyond allocation of %d elements' % (i, i + x.m * k, len(b.f)))
    if k > 1: return tuple(Agg(b.f[i + j * k:i + j * k + k], x.p.v[1]) for j in range(x.m))
    return b.f[i:i + x.m]


@native('std::boxed::Box::<T>::new', 'std::boxed::box_new')
def _(I, cx, a, S): return Ptr(I.new(a[0], S))


@native('std::boxed::Box::<T>::new_uninit', 'std::boxed::box_new_uninit')
def _(I, cx, a, S): return Ptr(I.new(UNINIT, S))


@native('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::<impl [T]>::into_vec')
def _(I, cx, a, S):
    p = I.sharp(a[0], S)
    if type(p) is Fat: return Agg(slice_elems(I, p, S), cx.dty)
    return Agg(I.deref(p, S).f, cx.dty)


@native('std::vec::Vec::<T, A>::into_boxed_slice')
def _(I, cx, a, S):
    v = I.sharp(a[0], S)
    return Fat(Ptr(I.new(Agg(v.f), S), (0,)), len(v.f))


@native_re(r'^<std::vec::Vec<T(, A)?> as std::iter::(FromIterator<T>>::from_iter|IntoIterator>::into_iter)$|^<&.*std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|spec_from_iter.*::from_iter$')
def vec_from_iter(I, cx, a, S):
    d = cx.inst['def']
    if d.endswith('into_iter'):
        if d.startswith('<&'):
            return NotImplemented
        v = I.sharp(a[0], S)
        al = I.new(Agg(v.f), S)
        return Agg((Ptr(al, (0,)), UNIT, len(v.f), UNIT, Ptr(al, (0,)), Ptr(al, (len(v.f),))), cx.dty)
    it = a[0]; ity = cx.atys[0]
    if ity is None and cx.targs: ity = cx.targs[-1]
    t = I.T[ity]
    it = I.sharp(it, S)
    vals = as_items(I, it, ity, S)
    if vals is not None: return Agg(tuple(vals), cx.dty)
    p = Ptr(I.new(it, S))
    # the argument of from_iter is an IntoIterator
    return I.collect(p, ity, S, [], lambda l, C: Agg(tuple(l), cx.dty))


def as_items(I, it, ity, S):
    """items of an IntoIterator value that is a container (not an iterator)"""
    t = I.T[ity]
    if t.get('def') == 'std::vec::Vec': return list(it.f)
    if t['k'] == 'array': return list(it.f)
    if t['k'] == 'ref':
        e = I.T[t['e']]
        if e.get('def') == 'std::vec::Vec':
            p = I.sharp(it, S); n = len(I.sharp(I.deref(p, S), S).f)
            return [Ptr(p.a, p.p + (i,)) for i in range(n)]
        if e['k'] == 'array': return [Ptr(it.a, it.p + (i,)) for i in range(e['n'])]
        if e['k'] == 'slice': return [I.padd(it.p, i, S) for i in range(it.m)]
    if t.get('def') == 'std::option::Option':
        if type(it) is IteVal: raise NeedSplit(it.c)
        return list(it.f) if it.v == 1 else []
    return None


@native_re(r'^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$|^std::vec::Vec::<T, A>::extend_from_slice$')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    byref = 'Extend<&' in cx.inst['def']
    if cx.inst['def'].endswith('extend_from_slice'):
        I.store(p.a, p.p, vset(v, v.f + tuple(slice_elems(I, a[1], S))), S); return UNIT
    ity = cx.atys[1]
    it = I.sharp(a[1], S)
    vals = as_items(I, it, ity, S)

    def fin(l, C):
        if byref: l = [I.deref(x, C) for x in l]
        I.store(p.a, p.p, vset(v, v.f + tuple(l)), C); return UNIT
    if vals is not None: return fin(vals, S)
    return I.collect(Ptr(I.new(it, S)), ity, S, [], fin)


@native('std::vec::Vec::<T, A>::append')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); q, w = vecval(I, a[1], S)
    I.store(p.a, p.p, vset(v, v.f + w.f), S); I.store(q.a, q.p, Agg((), w.ty), S); return UNIT


@native('std::vec::Vec::<T, A>::retain')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    out = []
    fp = Ptr(I.new(a[1], S))
    for x in v.f:
        r = simp(S.pc, I.tobool(I.callfn(fp, cx.atys[1], [Ptr(I.new(x, S))], S, byref=True), S))
        if not isinstance(r, bool): raise NeedSplit(r)
        if r: out.append(x)
    I.store(p.a, p.p, vset(v, tuple(out)), S); return UNIT


@native('std::vec::Vec::<T, A>::dedup')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); out = []
    for x in v.f:
        if out:
            r = simp(S.pc, I_eq(I, x, out[-1], S))
            if not isinstance(r, bool): raise NeedSplit(r)
            if r: continue
        out.append(x)
    I.store(p.a, p.p, vset(v, tuple(out)), S); return UNIT


@native('std::vec::Vec::<T, A>::dedup_by_key', 'std::vec::Vec::<T, A>::dedup_by')
def _(I, cx, a, S): raise Unsupported(cx.inst['def'])


def rangeval(I, r, n, S):
    """(start, end) of a range value over a sequence of n elements"""
    r = I.sharp(r, S)
    t = I.T[r.ty]['def'].rsplit('::', 1)[1]
    g = lambda i: I.toint(r.f[i], S)
    if t == 'Range': return g(0), g(1)
    if t == 'RangeFrom': return g(0), n
    if t == 'RangeTo': return 0, g(0)
    if t == 'RangeFull': return 0, n
    if t == 'RangeInclusive': return g(0), g(1) + 1
    if t == 'RangeToInclusive': return 0, g(0) + 1
    raise Unsupported('range ' + t)


@native('std::vec::Vec::<T, A>::drain')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    b, e = rangeval(I, a[1], len(v.f), S)
    if b > e or e > len(v.f): I.panic(S.pc, 'range out of bounds'); raise Dead()
    I.store(p.a, p.p, vset(v, v.f[:b] + v.f[e:]), S)
    al = I.new(Agg(v.f[b:e], v.ty), S)
    it = Agg((Ptr(al, (0,)), Ptr(al, (e - b,)), UNIT))
    t = I.T[cx.dty]['v'][0]
    return Agg(tuple(it if n == 'iter' else Opaque(('drain', n)) for n in t['fn']), cx.dty)


@native('std::vec::Vec::<T, A>::split_off')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); n = I.toint(a[1], S)
    if n > len(v.f): I.panic(S.pc, 'split_off'); raise Dead()
    I.store(p.a, p.p, vset(v, v.f[:n]), S)
    return Agg(v.f[n:], v.ty)


@native('std::vec::Vec::<T, A>::extend_from_within')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S); b, e = rangeval(I, a[1], len(v.f), S)
    if b > e or e > len(v.f): I.panic(S.pc, 'range out of bounds'); raise Dead()
    I.store(p.a, p.p, vset(v, v.f + v.f[b:e]), S); return UNIT


@native_re(r'^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend_one(_unchecked)?$')
def _(I, cx, a, S):
    p, v = vecval(I, a[0], S)
    x = I.deref(a[1], S) if 'Extend<&' in cx.inst['def'] else a[1]
    I.store(p.a, p.p, vset(v, v.f + (x,)), S); return UNIT


@native('std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for [T; N]>::try_from', 'std::vec::<impl std::convert::TryFrom<std::vec::Vec<T>> for [T; N]>::try_from')
def _(I, cx, a, S):
    v = I.sharp(a[0], S)
    at = I.T[cx.dty]['v'][0]['f'][0]
    return Enum(0, (Agg(v.f, at),), cx.dty) if len(v.f) == I.T[at]['n'] else Enum(1, (v,), cx.dty)


@native('std::slice::<impl [T]>::repeat')
def _(I, cx, a, S): return Agg(tuple(slice_elems(I, a[0], S)) * I.toint(a[1], S), cx.dty)


@native_re(r'^(std::slice::<impl \[T\]>::(concat)|<\[V\] as std::slice::Concat<T>>::concat)$')
def _(I, cx, a, S):
    out = ()
    for x in slice_elems(I, a[0], S):
        x = I.sharp(x, S)
        if type(x) in (Ptr, Fat): out += tuple(slice_elems(I, x, S))
        elif type(x) is Agg: out += x.f
        else: raise Unsupported('concat')
    if I.T[cx.dty].get('def') != 'std::vec::Vec': raise Unsupported('concat')
    return Agg(out, cx.dty)


@native('<std::alloc::Global as std::clone::Clone>::clone')
def _(I, cx, a, S): return UNIT


@native_re(r'^(core|std)::str::<impl str>::(len|is_empty)$|^std::string::String::(len|is_empty)$')
def _(I, cx, a, S):
    x = I.sharp(a[0], S)
    if type(x) is Ptr: x = I.sharp(I.deref(x, S), S)
    if type(x) is not Str: raise Unsupported('length of a formatted string')
    n = len(x.s.encode())
    return n if cx.inst['def'].endswith('len') else n == 0


def range_next(I, cx, a, S):
    p = I.sharp(a[0], S)
    v = I.deref(p, S)
    s, e = v.f[0], v.f[1]
    if type(s) is int and type(e) is int:
        if s < e:
            I.put(p, Agg((s + 1, e) + v.f[2:], v.ty), S)
            return opt(I, cx, s)
        return opt(I, cx)
    return NotImplemented


NATIVE['std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next'] = range_next


def slice_iter_next(I, cx, a, S):
    p = I.sharp(a[0], S)
    v = I.sharp(I.deref(p, S), S)
    s, e = v.f[0], v.f[1]
    if type(s) is Ptr and type(e) is Ptr:
        if s.p == e.p: return opt(I, cx)
        I.put(p, Agg((I.padd(s, 1, S),) + v.f[1:], v.ty), S)
        return opt(I, cx, s)
    return NotImplemented


NATIVE["<std::slice::Iter<'a, T> as std::iter::Iterator>::next"] = slice_iter_next


def slice_iter_position(I, cx, a, S):
    """position(pred): the predicate is analysed once on placeholder fields; its comparisons with constants become
    uninterpreted booleans that are then resolved, exactly, for every element in turn"""
    if I.ph is not None: return NotImplemented
    p = I.sharp(a[0], S)
    v = I.sharp(I.deref(p, S), S)
    s, e = v.f[0], v.f[1]
    if type(s) is not Ptr or type(e) is not Ptr or s.v: return NotImplemented
    n = _pdiff(e, s)
    if n < 6: return NotImplemented
    els = [I.deref(I.padd(s, i, S), S) for i in range(n)]
    if all(type(x) is Node for x in els): one = True
    elif all(type(x) is Agg and all(type(y) is Node for y in x.f) for x in els): one = False
    else: return NotImplemented
    w = 1 if one else len(els[0].f)
    phs = [T.var('phe%d' % j) for j in range(w)]
    ev = [I.panics, I.ub, I.obl, I.effects]
    ev0 = [len(x) for x in ev] + [sum(map(len, I.trap))]
    C = S.fork(); na = I.nalloc
    I.ph = ({x.uid: j for j, x in enumerate(phs)}, {})
    try:
        q = Ptr(I.new(phs[0] if one else Agg(tuple(phs), els[0].ty), C))
        fp = Ptr(I.new(a[1], C))
        r = I.tobool(I.callfn(fp, cx.atys[1], [q], C, byref=True), C)
        cmp = I.ph[1]
    except (Unsupported, NeedSplit, Dead):
        r = None
    finally:
        I.ph = None
    if r is None or [len(x) for x in ev] + [sum(map(len, I.trap))] != ev0 or C.pc is not S.pc or any(k <= na for k in C.d):
        for x, k in zip(ev, ev0): del x[k:]
        return NotImplemented
    names = {x[0].args[0]: x for x in cmp.values()}
    if set(T.nvars(r)) - set(names): return NotImplemented
    used = [(nm, x[1], FCMP[x[2]], x[3]) for nm, x in names.items()]
    for i, x in enumerate(els):
        env = {}
        for nm, j, f, c in used:
            y = (x if one else x.f[j]).f
            if y is None: return NotImplemented
            env[nm] = 1.0 if f(y, c) else -1.0
        if T.evalb(r, env, {}):
            I.put(p, Agg((I.padd(s, i + 1, S),) + v.f[1:], v.ty), S)
            return opt(I, cx, i)
    I.put(p, Agg((e,) + v.f[1:], v.ty), S)
    return opt(I, cx)


NATIVE["<std::slice::Iter<'a, T> as std::iter::Iterator>::position"] = slice_iter_position
@native('std::vec::IntoIter::<T, A>::forget_allocation_drop_remaining', 'std::vec::IntoIter::<T, A>::forget_remaining_elements')
def _(I, cx, a, S): return UNIT


NATIVE["<std::slice::IterMut<'a, T> as std::iter::Iterator>::next"] = slice_iter_next


@native_re(r'^(core|std)::slice::<impl \[T\]>::(sort\w*|select_nth\w*|get_unchecked|get_unchecked_mut|swap|swap_with_slice|reverse|concat|contains|copy_from_slice|clone_from_slice|fill|len|is_empty)$')
def slice_m(I, cx, a, S):
    m = cx.inst['def'].rsplit('::', 1)[1]
    if m in ('get_unchecked', 'get_unchecked_mut'):
        ity = cx.atys[1]
        if ity is not None and I.T[ity]['k'] == 'uint':
            p = I.sharp(a[0], S)
            if type(p) is Ptr: p = Fat(Ptr(p.a, p.p + (0,)), len(I.deref(p, S).f))
            i = I.toint(a[1], S)
            if i >= p.m: I.record_ub(S, 'get_unchecked(%d) on a slice of length %d' % (i, p.m))
            return I.padd(p.p, i, S)
        return NotImplemented
    if m == 'len':
        p = I.sharp(a[0], S); return p.m if type(p) is Fat else len(I.deref(p, S).f)
    if m == 'is_empty':
        p = I.sharp(a[0], S); return (p.m if type(p) is Fat else len(I.deref(p, S).f)) == 0
    if m == 'swap':
        p = I.sharp(a[0], S); i = I.toint(a[1], S); j = I.toint(a[2], S)
        if i >= p.m or j >= p.m: I.panic(S.pc, 'index out of bounds'); raise Dead()
        x = I.deref(I.padd(p.p, i, S), S); y = I.deref(I.padd(p.p, j, S), S)
        I.put(I.padd(p.p, i, S), y, S); I.put(I.padd(p.p, j, S), x, S); return UNIT
    if m == 'reverse':
        p = I.sharp(a[0], S); e = slice_elems(I, p, S)
        for i, x in enumerate(reversed(e)): I.put(I.padd(p.p, i, S), x, S)
        return UNIT
    if m == 'fill':
        p = I.sharp(a[0], S)
        for i in range(p.m): I.put(I.padd(p.p, i, S), a[1], S)
        return UNIT
    if m == 'swap_with_slice':
        p, q = I.sharp(a[0], S), I.sharp(a[1], S)
        if p.m != q.m: I.panic(S.pc, 'swap_with_slice length mismatch'); raise Dead()
        x, y = slice_elems(I, p, S), slice_elems(I, q, S)
        for i in range(len(x)): I.put(I.padd(p.p, i, S), y[i], S); I.put(I.padd(q.p, i, S), x[i], S)
        return UNIT
    if m in ('copy_from_slice', 'clone_from_slice'):
        p = I.sharp(a[0], S); e = slice_elems(I, a[1], S)
        if len(e) != p.m: I.panic(S.pc, 'copy_from_slice length mismatch'); raise Dead()
        for i, x in enumerate(e): I.put(I.padd(p.p, i, S), x, S)
        return UNIT
    if m.startswith('select_nth'): raise Unsupported(m)
    if m.startswith('sort'):
        p = I.sharp(a[0], S); e = list(slice_elems(I, p, S))
        out = []
        if m in ('sort_by', 'sort_unstable_by'):
            fp = Ptr(I.new(a[1], S))

            def before(x, y):
                r = I.resolve(I.callfn(fp, cx.atys[1], [Ptr(I.new(x, S)), Ptr(I.new(y, S))], S, byref=True), S)
                if type(r) is IteVal: raise NeedSplit(r.c)
                return r.v == 0
            key = lambda x: x
        elif m in ('sort', 'sort_unstable', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
            if 'key' in m:
                fp = Ptr(I.new(a[1], S))
                key = lambda x: (x, I.sharp(I.callfn(fp, cx.atys[1], [Ptr(I.new(x, S))], S, byref=True), S))
            else: key = lambda x: (x, x)

            def before(x, y):
                if type(x[1]) not in (int, bool) or type(y[1]) not in (int, bool): raise Unsupported('sort of %r' % (x[1],))
                return x[1] < y[1]
        else: raise Unsupported(m)
        for x in map(key, e):
            k = len(out)
            while k > 0 and before(x, out[k - 1]): k -= 1
            out.insert(k, x)
        if 'by' not in m or 'key' in m: out = [x[0] for x in out]
        for i, x in enumerate(out): I.put(I.padd(p.p, i, S), x, S)
        return UNIT
    return NotImplemented


# ------------------------------------------------------------- strings, maps, fmt
@native('<std::string::String as std::convert::From<&str>>::from', 'std::string::String::from_str', '<str as std::string::ToString>::to_string',
        'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'core::str::<impl str>::to_string', '<T as std::string::ToString>::to_string',
        'std::str::<impl str>::to_owned', 'std::str::<impl str>::to_string', '<str as std::string::SpecToString>::spec_to_string')
def _(I, cx, a, S):
    x = I.sharp(a[0], S)
    if type(x) is Ptr: x = I.deref(x, S)
    if type(x) is Str: return x
    return Opaque(('string', 'fmt'))


@native('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<std::string::String as std::clone::Clone>::clone')
def _(I, cx, a, S):
    x = I.sharp(a[0], S); return I.deref(x, S) if type(x) is Ptr else x


# what a recorder (probe::ob::recorder) was told to print: ('text', str) | ('num', node), in order
class FmtArgs:
    __slots__ = ('tmpl', 'args')
    def __init__(s, t, a): s.tmpl = t; s.args = a


def fmt_rec(I, S):
    r = getattr(I, 'rec', None)
    if r is not None and r['pc'] != S.pc: raise Unsupported('printing under a condition')
    return r


def fmt_num(I, x, S, opt):
    prec = opt.get('prec', 0 if opt.get('flags', 0) & (1 << 28) else None)
    if prec is None: return x
    k = num(10.0 ** prec)
    return T.div(T.fn('round', T.mul(x, k)), k)


FMT_OK = lambda cx: Enum(0, (UNIT,), cx.dty)


def fmt_write(I, r, fp, args, S):
    if type(args) is Str: r['p'].append(('text', args.s)); return
    if type(args) is not FmtArgs: raise Unsupported('format arguments %r' % (args,))
    b = args.tmpl; i = 0; nxt = 0
    u16 = lambda: b[i] | b[i + 1] << 8
    while True:
        n = b[i]; i += 1
        if n == 0: return
        if n <= 0x80:
            if n == 0x80: n = u16(); i += 2
            r['p'].append(('text', bytes(b[i:i + n]).decode())); i += n; continue
        if n < 0xc0: raise Unsupported('format template')
        opt = {}
        if n & 1: opt['flags'] = u16() | (b[i + 2] | b[i + 3] << 8) << 16; i += 4
        if n & 2:
            if n & 16: raise Unsupported('computed width')
            opt['width'] = u16(); i += 2
        if n & 4:
            if n & 32: raise Unsupported('computed precision')
            opt['prec'] = u16(); i += 2
        if n & 8: nxt = u16(); i += 2
        a = I.sharp(args.args[nxt], S); nxt += 1
        old = r['opt']; r['opt'] = opt
        f = a
        while type(f) is Agg and len(f.f) == 1: f = f.f[0]
        if type(f) is not Enum: raise Unsupported('format argument %r' % (f,))
        fn = next((I.sharp(x, S) for x in f.f if type(I.sharp(x, S)) is FnV), None)
        v = next((I.sharp(x, S) for x in f.f if type(I.sharp(x, S)) is not FnV), None)
        if fn is None or v is None: raise Unsupported('format argument %r' % (f,))
        while type(v) is Agg and v.f: v = I.sharp(v.f[0], S)
        if type(v) is Ptr: v = Ptr(v.a, v.p)       # the erased type is the one the function expects
        I.invoke(fn.inst, [v, fp], S)
        r['opt'] = old


@native_re(r'fmt::Formatter::<.*>::(write_fmt|write_str|new|pad|width|precision|alternate)$|^<std::fmt::Formatter<.*> as std::fmt::Write>::\w+$')
def _(I, cx, a, S):
    r = fmt_rec(I, S); m = cx.inst['def'].rsplit('::', 1)[1]
    if r is None: return Opaque(('fmt',))
    if m == 'write_fmt': fmt_write(I, r, a[0], I.sharp(a[1], S), S); return FMT_OK(cx)
    if m in ('write_str', 'pad'):
        x = I.sharp(a[1], S)
        if type(x) is Ptr: x = I.deref(x, S)
        if type(x) is not Str: raise Unsupported('printed text %r' % (x,))
        r['p'].append(('text', x.s)); return FMT_OK(cx)
    if m == 'write_char':
        r['p'].append(('text', chr(I.toint(a[1], S)))); return FMT_OK(cx)
    if m == 'alternate': return bool(r['opt'].get('flags', 0) & (1 << 23))
    raise Unsupported('fmt ' + m)


@native_re(r'^<(f32|f64|[ui](8|16|32|64|128)|usize|isize) as std::fmt::\w+>::fmt$|fmt::\w+::<impl std::fmt::\w+ for (f32|f64|[ui](8|16|32|64|128)|usize|isize)>::fmt$|fmt::num::.*<impl std::fmt::\w+ for \w+>::fmt$')
def _(I, cx, a, S):
    r = fmt_rec(I, S)
    if r is None: return Opaque(('fmt',))
    tr = re.search(r'std::fmt::(\w+)( for|>)', cx.inst['def'])
    if tr.group(1) not in ('Display', 'Debug'): raise Unsupported(cx.inst['def'])
    x = I.resolve(I.deref(a[0], S), S)
    if type(x) is IteVal: raise Unsupported('printing a conditional value')
    r['p'].append(('num', fmt_num(I, nd(I, x, S), S, r['opt']))); return FMT_OK(cx)


@native_re(r'^<(str|std::string::String) as std::fmt::\w+>::fmt$|<impl std::fmt::\w+ for str>::fmt$')
def _(I, cx, a, S):
    r = fmt_rec(I, S)
    if r is None: return Opaque(('fmt',))
    x = I.sharp(a[0], S)
    for _ in range(2):
        if type(x) is Ptr: x = I.sharp(I.deref(x, S), S)
    if type(x) is not Str: raise Unsupported('printed text %r' % (x,))
    r['p'].append(('text', x.s)); return FMT_OK(cx)


@native_re(r'fmt::(rt::)?(\w+::)?<impl std::fmt::Arguments<.*>>::(new|from_str|from_str_nonconst|new_const)(::<.*>)?$|^std::fmt::Arguments::<.*>::(new|from_str|from_str_nonconst|new_const)$')
def _(I, cx, a, S):
    if fmt_rec(I, S) is None: return Opaque(('fmt',))
    x = I.sharp(a[0], S)
    if 'from_str' in cx.inst['def']:
        if type(x) is Ptr: x = I.deref(x, S)
        return x if type(x) is Str else Opaque(('fmt',))
    if len(a) < 2: return Opaque(('fmt',))
    b = I.sharp(I.deref(x, S), S); v = I.sharp(I.deref(I.sharp(a[1], S), S), S)
    if type(b) is Str: return Opaque(('fmt',))
    return FmtArgs([I.toint(q, S) for q in b.f], tuple(v.f))


@native_re(r'fmt::rt::Argument')
def _(I, cx, a, S):
    return Opaque(('fmt',)) if getattr(I, 'rec', None) is None else NotImplemented


@native_re(r'fmt::(rt::Argument|Arguments)|std::fmt::|core::fmt::|std::string::String::(new|push|push_str|with_capacity)|^std::fmt::format$|alloc::fmt::format')
def _(I, cx, a, S): return Opaque(('fmt',)) if getattr(I, 'rec', None) is None else NotImplemented


@native('std::io::_print', 'std::io::_eprint')
def _(I, cx, a, S):
    I.effects.append(('print', I.sitestr())); return UNIT


@native_re(r'^(core|std)::panicking::|^std::rt::(panic_fmt|begin_panic)|^std::option::(unwrap_failed|expect_failed)|^std::result::unwrap_failed|(slice_index_fail|len_mismatch_fail|slice_\w*fail)$|^std::panicking::|^core::panicking')
def do_panic(I, cx, a, S):
    d = cx.inst['def']
    if 'panicking::panic_bounds_check' in d: d = 'index out of bounds'
    I.panic(S.pc, d)
    raise Dead()


# ------------------------------------------------------------- lazy statics
@native('lazy_static::lazy::Lazy::<T>::get')
def lazy_get(I, cx, a, S):
    p = I.sharp(a[0], S)
    k = (p.a, p.p)
    if k not in I.lazy:
        I.lazy[k] = None
        fty = cx.targs[1] if cx.targs and len(cx.targs) > 1 else cx.atys[1]
        G = State(); G.d = I.G.d
        v = I.callfn(a[1], fty, [], I.G)
        I.lazy[k] = I.gnew(v)
    if I.lazy[k] is None: raise Unsupported('recursive lazy')
    return Ptr(I.lazy[k])


# ------------------------------------------------------------- SIMD
def lanes(I, x, S, n=8):
    x = I.sharp(x, S)
    if type(x) is not Agg: raise Unsupported('simd value %r' % (x,))
    return x.f


def simd2(f):
    def g(I, cx, a, S):
        x, y = flatten(I.sharp(a[0], S)), flatten(I.sharp(a[1], S))
        return Agg(tuple(f(p, q) for p, q in zip(x, y)), cx.dty)
    return g


INTR['simd_add'] = simd2(lambda p, q: T.add(p, q, 32))
INTR['simd_sub'] = simd2(lambda p, q: T.sub(p, q, 32))
INTR['simd_mul'] = simd2(lambda p, q: T.mul(p, q, 32))
INTR['simd_div'] = simd2(lambda p, q: T.div(p, q, 32))


@intr('simd_fma', 'simd_relaxed_fma')
def _(I, cx, a, S):
    x, y, z = [flatten(I.sharp(v, S)) for v in a]
    return Agg(tuple(T.add(T.mul(p, q, 32), r, 32) for p, q, r in zip(x, y, z)), cx.dty)


@intr('simd_neg')
def _(I, cx, a, S): return Agg(tuple(T.neg(p) for p in flatten(I.sharp(a[0], S))), cx.dty)


@intr('simd_extract', 'simd_extract_dyn')
def _(I, cx, a, S): return flatten(I.sharp(a[0], S))[I.toint(a[1], S)]


@intr('simd_insert')
def _(I, cx, a, S):
    f = flatten(I.sharp(a[0], S)); f[I.toint(a[1], S)] = a[2]; return Agg(tuple(f), cx.dty)


@intr('simd_splat')
def _(I, cx, a, S):
    n = I.T[cx.dty]['size'] * 8 // 32
    return Agg((a[0],) * n, cx.dty)


@intr('simd_shuffle')
def _(I, cx, a, S):
    x = flatten(I.sharp(a[0], S)) + flatten(I.sharp(a[1], S))
    idx = [I.toint(i, S) for i in flatten(I.sharp(a[2], S))]
    return Agg(tuple(x[i] for i in idx), cx.dty)


def aligned(I, p, w, S):
    """rule: an aligned vector access needs an address the types guarantee to be a multiple of the vector size"""
    if not p.p or type(p.p[-1]) is not int: raise Unsupported('aligned vector access')
    if p.p[-1] % w: I.record_ub(S, 'aligned %d-lane access at element %d' % (w, p.p[-1]))
    al = 0
    for n in range(len(p.p)):
        v = I.load(p.a, p.p[:n], S)
        if type(v) is Agg and v.ty is not None and (I.T[v.ty].get('al') or 0) > al and (I.T[v.ty].get('def') != 'std::vec::Vec'):
            if all(x == 0 for x in p.p[n:-1]): al = I.T[v.ty]['al']
    if al == 0:
        b = I.load(p.a, p.p[:-1], S)
        if type(b) is Agg and b.ty is not None and I.T[b.ty].get('def') == 'std::vec::Vec': al = 4
        else: raise Unsupported('alignment of an untyped allocation')
    if al < 4 * w: I.record_ub(S, 'aligned %d-byte vector access to memory only known to be %d-byte aligned' % (4 * w, al))


@native_re(r'::_mm(256)?_(\w+)$')
def mm(I, cx, a, S):
    name = cx.inst['def'].rsplit('::', 1)[1]
    w = 8 if name.startswith('_mm256') else 4
    op = name.split('_', 2)[2] if not name.startswith('_mm256') else name[len('_mm256_'):]
    fl = lambda i: flatten(I.sharp(a[i], S))
    mk = lambda l: Agg(tuple(l), cx.dty)
    if op in ('loadu_ps', 'load_ps'):
        p = I.sharp(a[0], S)
        if type(p) is Fat: p = p.p
        if op == 'load_ps': aligned(I, p, w, S)
        out = []
        for i in range(w):
            out.append(I.deref(I.padd(Ptr(p.a, p.p, p.v if p.v and len(p.v) == 3 else None), i, S), S))
        return mk(out)
    if op in ('storeu_ps', 'store_ps'):
        p = I.sharp(a[0], S); v = fl(1)
        if op == 'store_ps': aligned(I, p, w, S)
        for i in range(w): I.put(I.padd(Ptr(p.a, p.p, p.v if p.v and len(p.v) == 3 else None), i, S), v[i], S)
        return UNIT
    if op in ('set1_ps', 'broadcast_ss'):
        x = a[0]
        if op == 'broadcast_ss': x = I.deref(x, S)
        return mk([x] * w)
    if op == 'setzero_ps': return mk([T.ZERO] * w)
    if op == 'set_ps': return mk(reversed(a))
    if op == 'setr_ps': return mk(a)
    if op == 'add_ps': return mk(T.add(x, y, 32) for x, y in zip(fl(0), fl(1)))
    if op == 'sub_ps': return mk(T.sub(x, y, 32) for x, y in zip(fl(0), fl(1)))
    if op == 'mul_ps': return mk(T.mul(x, y, 32) for x, y in zip(fl(0), fl(1)))
    if op == 'div_ps': return mk(T.div(x, y, 32) for x, y in zip(fl(0), fl(1)))
    if op == 'max_ps': return mk(fmax(x, y) for x, y in zip(fl(0), fl(1)))
    if op == 'min_ps': return mk(fmin(x, y) for x, y in zip(fl(0), fl(1)))
    if op == 'fmadd_ps': return mk(T.add(T.mul(x, y, 32), z, 32) for x, y, z in zip(fl(0), fl(1), fl(2)))
    if op == 'fmsub_ps': return mk(T.sub(T.mul(x, y, 32), z, 32) for x, y, z in zip(fl(0), fl(1), fl(2)))
    if op == 'fnmadd_ps': return mk(T.sub(z, T.mul(x, y, 32), 32) for x, y, z in zip(fl(0), fl(1), fl(2)))
    if op == 'hadd_ps':
        x, y = fl(0), fl(1); o = []
        for b in range(0, w, 4):
            o += [T.add(x[b], x[b + 1], 32), T.add(x[b + 2], x[b + 3], 32), T.add(y[b], y[b + 1], 32), T.add(y[b + 2], y[b + 3], 32)]
        return mk(o)
    if op in ('castps256_ps128',): return mk(fl(0)[:4])
    if op == 'cvtss_f32': return fl(0)[0]
    if op == 'add_ss':
        x, y = fl(0), fl(1); return mk([T.add(x[0], y[0], 32)] + x[1:])
    if op == 'movehl_ps':
        x, y = fl(0), fl(1); return mk([y[2], y[3], x[2], x[3]])
    if op == 'movehdup_ps':
        x = fl(0); return mk([x[i | 1] for i in range(w)])
    if op == 'moveldup_ps':
        x = fl(0); return mk([x[i & ~1] for i in range(w)])
    if op in ('extractf128_ps', 'permute2f128_ps', 'shuffle_ps', 'permute_ps'):
        imm = None
        if cx.targs:
            for t in cx.targs:
                if isinstance(t, dict): imm = t['c']
        if imm is None and len(a) > 1 and type(a[-1]) is int: imm = a[-1]
        if imm is None: return NotImplemented
        imm &= 255
        if op == 'extractf128_ps': return mk(fl(0)[4 * (imm & 1):4 * (imm & 1) + 4])
        if op == 'permute2f128_ps':
            q = [fl(0)[:4], fl(0)[4:], fl(1)[:4], fl(1)[4:]]
            o = []
            for k in (imm & 15, imm >> 4): o += [T.ZERO] * 4 if k & 8 else q[k & 3]
            return mk(o)
        if op == 'permute_ps':
            x = fl(0); o = []
            for b in range(0, w, 4): o += [x[b + ((imm >> (2 * i)) & 3)] for i in range(4)]
            return mk(o)
        x, y = fl(0), fl(1); o = []
        for b in range(0, w, 4):
            o += [x[b + (imm & 3)], x[b + ((imm >> 2) & 3)], y[b + ((imm >> 4) & 3)], y[b + ((imm >> 6) & 3)]]
        return mk(o)
    return NotImplemented


# ------------------------------------------------------------- float_cmp
@native_re(r'^<f(32|64) as float_cmp::(ulps::)?Ulps>::ulps$')
def _(I, cx, a, S):
    x = I.resolve(I.deref(a[0], S), S); y = I.resolve(I.deref(a[1], S), S)
    if type(x) is Node and type(y) is Node and x.f is not None and y.f is not None: return NotImplemented
    x = nd(I, x, S); y = nd(I, y, S)
    d = T.aff_range(T.sub(x, y)); rx = T.node_range(x); ry = T.node_range(y)
    if d and rx and ry:
        mag = max(abs(v) for v in rx + ry); rel = 1e-5 if '<f32' in cx.inst['def'] else 1e-12
        if math.isfinite(mag):
            if d[0] > rel * mag: return num(1 << 20)
            if d[1] < -rel * mag: return num(-(1 << 20))
    return T.fn('ulps' + cx.inst['def'][2:4] if cx.inst['def'].startswith('<f') else 'ulps64', nd(I, x, S), nd(I, y, S))


# ------------------------------------------------------------- probe obligations
def int_cells(I, S):
    """the integers held directly by statics and thread locals"""
    out = {}

    def walk(a, p, v):
        if len(p) > 12: return
        if type(v) is int or type(v) is Node and v.isint: out[(a, p)] = num(v)
        elif type(v) in (Agg, Enum) and len(v.f) < 64:
            for i, x in enumerate(v.f): walk(a, p + (i,), x)
    for a in sorted(set(I.statics.values()) | set(x for x in I.lazy.values() if type(x) is int)): walk(a, (), S.get(a))
    return out


def warmed(I, cx, f, S):
    """state after any number of calls of f.  An integer of a static that three calls in a row moved by the same amount
    c, and that a call provably takes from any n to n + c, may have any value n + k c."""
    def run(st):
        I.trap.append([])
        try: I.callfn(f, cx.atys[0], [], st); return True
        except (Dead, Unsupported): return False
        finally: I.trap.pop()
    s0 = int_cells(I, S)
    if not s0: return
    C = S.fork()
    if not run(C): return
    s1 = int_cells(I, C)
    if s1 == s0: return
    if not run(C): return
    s2 = int_cells(I, C)
    def same(x, y):
        d = T.sub(x, y)
        if d.f is not None: return d.f == 0.0
        import decide
        return decide.decide_zero(dict(r=d, tol=1e-9, pc=S.pc, sc=None, label=''), 1).status == 'ok'
    cand = {}
    for k in s0:
        if k not in s1 or k not in s2: continue
        c = T.sub(s1[k], s0[k])
        if c.f != 0.0 and same(c, T.sub(s2[k], s1[k])): cand[k] = c
    for _ in range(3):
        if not cand: return
        D = S.fork(); inj = {}
        for k, c in cand.items():
            v = T.var('%s.calls so far #%d' % (I.root, len(I.vars)), 0.0, float(2**30), True); I.vars[v.args[0]] = v
            inj[k] = T.add(s0[k], T.mul(c, v))
            I.put(Ptr(k[0], k[1]), inj[k], D)
        E = D.fork()
        if not run(E): return
        ok = {}
        for k, c in cand.items():
            w = I.resolve(I.deref(Ptr(k[0], k[1]), E), E)
            if type(w) is Node and same(T.sub(w, inj[k]), c): ok[k] = c
        if len(ok) == len(cand):
            for k in ok: I.put(Ptr(k[0], k[1]), inj[k], S)
            return
        cand = ok


def label(I, x):
    return x.s if type(x) is Str else repr(x)


@native_re(r'(^|::)ob::(\w+)$')
def ob(I, cx, a, S):
    m = cx.inst['def'].rsplit('::', 1)[1]
    for x in a:
        if type(x) is Opaque and x == UNWRITTEN: I.record_ub(S, 'use of an element that was never written')
    if m in ('any', 'any32'):
        n = label(I, a[0]); lo, hi = a[1].f, a[2].f
        v = T.var(I.root + '.' + n, lo, hi)
        I.vars[v.args[0]] = v
        return v
    if m in ('anyv', 'anyv32'):
        n = label(I, a[0]); k = I.toint(a[1], S); lo, hi = a[2].f, a[3].f
        out = []
        for i in range(k):
            v = T.var('%s.%s[%d]' % (I.root, n, i), lo, hi); I.vars[v.args[0]] = v; out.append(v)
        return Agg(tuple(out), cx.dty)
    if m == 'anyu':
        n = label(I, a[0]); lo, hi = I.toint(a[1], S), I.toint(a[2], S)
        v = T.var(I.root + '.' + n, float(lo), float(hi), True); I.vars[v.args[0]] = v
        return v
    if m == 'assume':
        c = simp(S.pc, I.tobool(a[0], S))
        if c is False: raise Dead()
        S.pc = band(S.pc, c)
        return UNIT
    if m in ('zero', 'zero32', 'same', 'same32'):
        lab = label(I, a[0])
        if m.startswith('zero'): r = nd2(I, a[1], S); tol = a[2].f; sc = None
        else:
            x, y = nd2(I, a[1], S), nd2(I, a[2], S)
            r = T.sub(x, y); sc = (x, y); tol = a[3].f
            if x.f is not None and y.f is not None and (x.f != x.f) and (y.f != y.f): r = T.ZERO
        I.obl.append(dict(kind='zero', label=lab, r=r, tol=tol, pc=S.pc, site=I.sitestr(), sc=sc)); return UNIT
    if m == 'double':
        x = nd2(I, a[1], S)
        I.obl.append(dict(kind='double', label=label(I, a[0]), r=x, pc=S.pc, site=I.sitestr(), where=I.narrow)); return UNIT
    if m == 'holds':
        I.obl.append(dict(kind='holds', label=label(I, a[0]), b=I.tobool(a[1], S), pc=S.pc, site=I.sitestr())); return UNIT
    if m in ('panics', 'returns'):
        lab = label(I, a[0])
        I.trap.append([])
        C = S.fork()
        ret = True
        try:
            I.callfn(a[1], cx.atys[1], [], C)
        except Dead:
            ret = False
        tr = I.trap.pop()
        I.obl.append(dict(kind=m, label=lab, pc=S.pc, ret=C.pc if ret else False, traps=tr, site=I.sitestr()))
        return UNIT
    if m == 'forget':
        # a new process: every static is in its initial state again
        I.statics.clear(); I.lazy.clear(); I.memo.clear(); I.kcache.clear(); I.counters.clear()
        return UNIT
    if m == 'many_calls':
        # any number of calls have been made: a counter that is only ever counted up takes every value
        warmed(I, cx, a[0], S)
        for k, (kind, p, ty) in list(I.counters.items()):
            if kind != 'add': continue
            v = T.var('%s.calls so far #%d' % (I.root, len(I.vars)), 0.0, float(2**31), True); I.vars[v.args[0]] = v
            if type(I.resolve(I.deref(p, S), S)) is int: I.put(p, v, S)
        I.mutacc += 1
        return UNIT
    if m == 'recorder':
        I.rec = dict(p=[], pc=S.pc, opt={})
        return Ptr(I.new(Opaque(('formatter',)), S))
    if m in ('numbers', 'number', 'number32', 'separated', 'mentions'):
        r = fmt_rec(I, S)
        ns = [k for k, x in enumerate(r['p']) if x[0] == 'num']
        if m == 'numbers': return num(len(ns))
        if m == 'separated':
            ok = all(any(x[0] == 'text' and re.search(r'[^0-9.eE+-]', x[1]) for x in r['p'][i + 1:j]) for i, j in zip(ns, ns[1:]))
            for j in range(len(r['p']) - 1):
                u, w = r['p'][j], r['p'][j + 1]
                if u[0] == 'text' and w[0] == 'num' and re.search(r'[0-9.+-]$', u[1]): ok = False
                if u[0] == 'num' and w[0] == 'text' and re.match(r'[0-9.eE]', w[1]): ok = False
            return ok
        i = I.toint(a[0], S)
        if m == 'mentions':
            lo = ns[i - 1] + 1 if i else 0; hi = ns[i] if i < len(ns) else len(r['p'])
            return a[1].s in ''.join(x[1] for x in r['p'][lo:hi] if x[0] == 'text')
        if i >= len(ns): return T.var('nothing printed', 1e30, 2e30)
        return r['p'][ns[i]][1]
    if m == 'isnan':
        x = I.resolve(a[0], S)
        return type(x) is Node and T.nanc(x)
    return NotImplemented


def nd2(I, x, S):
    x = I.resolve(x, S)
    if type(x) is IteVal: return ite(x.c, nd2(I, x.a, S), nd2(I, x.b, S))
    return nd(I, x, S)


@native_re(r'str::traits::<impl (std|core)::cmp::PartialEq for str>::(eq|ne)$|^<(std|alloc)::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|^(std|alloc)::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$')
def str_eq(I, cx, a, S):
    def get(x):
        for _ in range(3):
            x = I.sharp(x, S)
            if type(x) is Str: return x
            x = I.deref(x, S)
        raise Unsupported('string comparison')
    return (get(a[0]) == get(a[1])) == (not cx.inst['def'].endswith('ne'))
