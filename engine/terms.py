"""Value-number domain.

Every numeric value the analysis handles is a Node of a hash-consed value graph.
A node carries its *value number*: the image of the (idealised, real-arithmetic)
expression under a fixed random assignment of the inputs in the prime field
Z_p, p = 2^127-1.  Two expressions that are equal as rational functions of the
inputs (and of uninterpreted function applications) always get the same value
number; two that differ get different ones except with probability < 2^-100.
This is randomised global value numbering; no program input is ever executed.
Constants additionally carry their IEEE value `f` (used for table look-ups and
for deciding comparisons between constants).
"""
import math, struct, hashlib
from fractions import Fraction

P = (1 << 127) - 1
inf = math.inf


def H(*xs):
    h = hashlib.blake2b(digest_size=20)
    h.update(repr(xs).encode())
    return int.from_bytes(h.digest(), 'little') % P


class Node:
    __slots__ = ('op', 'args', 'm', 'f', 'isint', 'uid', 'rng', 'hasite', '_aff')
    cnt = 0

    def __init__(s, op, args, m, f=None, isint=False):
        s.op = op; s.args = args; s.m = m; s.f = f; s.isint = isint
        s.rng = None
        s._aff = None
        Node.cnt += 1
        s.uid = Node.cnt
        s.hasite = op == 'ite' or any(isinstance(a, Node) and a.hasite for a in args)

    def __repr__(s):
        return show(s, 4)


_const = {}
_constm = {}
_nodes = {}
PI_M = H('pi')


def f32r(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(inf, x)


def const_raw(m, f):
    f = float(f)
    k = (m, f, math.copysign(1, f)) if f == f else (m, 'nan')
    n = _const.get(k)
    if n is None:
        n = Node('c', (), m, f)
        _const[k] = n
        if m not in _constm:
            _constm[m] = n
        if m in _nodes: pass
    return n


def frac_m(fr):
    return fr.numerator % P * pow(fr.denominator, -1, P) % P


_PI = {}


def _init_pi():
    import itertools
    tab = {'pi': Fraction(1), '2': Fraction(2), 'h': Fraction(1, 2), '3': Fraction(1, 3), '4': Fraction(1, 4), '6': Fraction(1, 6), '180': Fraction(1, 180)}
    for fr in tab.values():
        v = math.pi * fr.numerator / fr.denominator
        for w in (v, f32r(v)):
            for s in (1, -1):
                _PI[repr(s * w)] = s * frac_m(fr) * PI_M % P
    inv = pow(PI_M, -1, P)
    for fr in (Fraction(180), Fraction(1), Fraction(2)):
        v = float(fr) / math.pi
        for w in (v, f32r(v)):
            _PI[repr(w)] = frac_m(fr) * inv % P


_lit = {}


def lit(s, bits=64):
    """constant from its shortest-decimal literal (as rustc prints it)"""
    k = (s, bits)
    n = _lit.get(k)
    if n is not None:
        return n
    t = s.replace('_', '')
    f = float(t)
    if f != f or f in (inf, -inf):
        n = const_raw(H('nonfinite', t), f)
    else:
        fv = f32r(f) if bits == 32 else f
        m = _PI.get(repr(fv)) if not float(fv).is_integer() else None
        if m is None:
            # f32 pi-family constants print as decimal of the f32
            m = _PI.get(repr(f))
        if m is None:
            m = frac_m(Fraction(t))
        n = const_raw(m, fv)
    _lit[k] = n
    return n


def num(x):
    """constant from python int / Fraction / decimal-exact float"""
    if isinstance(x, Node):
        return x
    if isinstance(x, float):
        return lit(repr(x))
    fr = Fraction(x)
    return const_raw(frac_m(fr), float(fr))


_init_pi()
ZERO = num(0)
ONE = num(1)
MINUS1 = num(-1)


def isfin(n):
    return n.f is not None and n.f == n.f and n.f not in (inf, -inf)


def nonfin(f, *why):
    f = float(f)
    return const_raw(H('nonfinite', repr(f)), f)


def rnd(f, bits):
    return f32r(f) if bits == 32 else f


def mk(op, args, m, isint=False):
    c = _constm.get(m)
    if c is not None:
        return c
    n = _nodes.get(m)
    if n is None:
        n = Node(op, args, m, None, isint)
        _nodes[m] = n
    return n


_vars = {}


def var(name, lo=-inf, hi=inf, isint=False):
    k = (name, lo, hi, isint)
    n = _vars.get(k)
    if n is None:
        n = mk('v', (name,), H('var', name), isint)
        n.rng = (lo, hi)
        n.isint = isint
        _vars[k] = n
    return n


def fdiv(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        if x != x or x == 0:
            return math.nan
        return math.copysign(inf, x) * math.copysign(1, y)


def add(a, b, bits=64):
    if a.f is not None and b.f is not None:
        f = rnd(a.f + b.f, bits)
        if not (isfin(a) and isfin(b)) or f in (inf, -inf):
            return nonfin(f)
        m = a.m + b.m
        if m >= P: m -= P
        if m == 0: f = 0.0
        return const_raw(m, f)
    if (a.f is not None and not isfin(a)) or (b.f is not None and not isfin(b)):
        return a if a.f is not None else b
    m = a.m + b.m
    if m >= P: m -= P
    return mk('+', (a, b), m, a.isint and b.isint)


def neg(a, bits=64):
    if a.f is not None:
        if not isfin(a): return nonfin(-a.f)
        return const_raw((-a.m) % P, -a.f)
    return mk('neg', (a,), (P - a.m) % P, a.isint)


def sub(a, b, bits=64):
    if a.f is not None and b.f is not None:
        f = rnd(a.f - b.f, bits)
        if not (isfin(a) and isfin(b)) or f in (inf, -inf):
            return nonfin(f)
        m = (a.m - b.m) % P
        if m == 0: f = 0.0
        return const_raw(m, f)
    if (a.f is not None and not isfin(a)): return a
    if (b.f is not None and not isfin(b)): return nonfin(-b.f)
    return mk('-', (a, b), (a.m - b.m) % P, a.isint and b.isint)


def mul(a, b, bits=64):
    if a.f is not None and b.f is not None:
        f = rnd(a.f * b.f, bits)
        if not (isfin(a) and isfin(b)) or f in (inf, -inf):
            return nonfin(f)
        return const_raw(a.m * b.m % P, f)
    if (a.f is not None and not isfin(a)) or (b.f is not None and not isfin(b)):
        return a if a.f is not None else b
    if a.f is not None and a.m == 0: return ZERO
    if b.f is not None and b.m == 0: return ZERO
    return mk('*', (a, b), a.m * b.m % P, a.isint and b.isint)


def div(a, b, bits=64):
    if a.f is not None and b.f is not None:
        f = rnd(fdiv(a.f, b.f), bits)
        if not (isfin(a) and isfin(b)) or f != f or f in (inf, -inf):
            if isfin(a) and b.f in (inf, -inf): return ZERO
            return nonfin(f)
        return const_raw(a.m * pow(b.m, -1, P) % P, f)
    if a.f is not None and not isfin(a): return a
    if b.f is not None and not isfin(b): return ZERO if b.f == b.f else b
    if b.m == 0:
        return mk('fn', ('div0', a), H('div0', a.m))
    return mk('/', (a, b), a.m * pow(b.m, -1, P) % P)


def powi(a, n, bits=64):
    """integer power"""
    if n == 0: return ONE
    if a.f is not None:
        if not isfin(a) or (a.m == 0 and n < 0):
            try: return nonfin(a.f ** n)
            except ZeroDivisionError: return nonfin(inf)
        try: f = rnd(a.f ** n, bits)
        except OverflowError: return nonfin(inf)
        if f in (inf, -inf): return nonfin(f)
        return const_raw(pow(a.m, n, P), f)
    if a.op == 'pow':
        return power(a.args[0], mul(a.args[1], num(n)), bits)
    if n < 0:
        return div(ONE, powi(a, -n, bits), bits)
    if a.m == 0: return ZERO
    r = a
    # canonical left-assoc product so monomial analysis can see it
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def power(a, q, bits=64):
    """a ** q, q constant node (real)"""
    if q.f is not None:
        if q.m == 0: return ONE
        if q.m == 1: return a
        if isfin(q) and abs(q.f) <= 64 and q.f == int(q.f) and q.m == int(q.f) % P:
            return powi(a, int(q.f), bits)
        if a.f is not None:
            if not isfin(a) or not isfin(q):
                try: return nonfin(math.pow(a.f, q.f))
                except (ValueError, OverflowError, ZeroDivisionError): return nonfin(math.nan)
            if a.m == 0: return ZERO if q.f > 0 else nonfin(inf)
            if a.m == 1: return ONE
            if a.f < 0: return nonfin(math.nan)
            try: f = math.pow(a.f, q.f)
            except OverflowError: return nonfin(inf)
            # exact roots of perfect powers
            if q.m == frac_m(Fraction(1, 2)):
                r = math.isqrt(int(a.f)) if a.f.is_integer() and a.f < 2**52 else None
                if r is not None and r * r == a.f and a.m == int(a.f) % P:
                    return num(r)
            return const_raw(H('pow', a.m, q.m), rnd(f, bits))
        if a.op == 'pow':
            return power(a.args[0], mul(a.args[1], q), bits)
        if a.op == 'exp':
            return exp(mul(a.args[0], q))
        n = mk('pow', (a, q), H('pow', a.m, q.m))
        return n
    return exp(mul(q, ln(a, bits)), bits)


def ln(a, bits=64):
    if a.f is not None:
        if a.f > 0 and isfin(a):
            if a.m == 1: return ZERO
            return const_raw(H('ln', a.m), rnd(math.log(a.f), bits))
        return nonfin(-inf if a.f == 0 else (inf if a.f == inf else math.nan))
    if a.op == 'exp': return a.args[0]
    if a.op == 'pow': return mul(a.args[1], ln(a.args[0]))
    return mk('ln', (a,), H('ln', a.m))


def exp(a, bits=64):
    if a.f is not None:
        if not isfin(a): return nonfin(math.exp(a.f) if a.f == a.f and a.f < 0 else a.f)
        if a.m == 0: return ONE
        try: f = math.exp(a.f)
        except OverflowError: return nonfin(inf)
        return const_raw(H('exp', a.m), rnd(f, bits))
    if a.op == 'ln': return a.args[0]
    # k * ln(u)  ->  u ** k
    if a.op == '*':
        x, y = a.args
        if x.f is not None and y.op == 'ln': return power(y.args[0], x, bits)
        if y.f is not None and x.op == 'ln': return power(x.args[0], y, bits)
    if a.op == '/' and a.args[1].f is not None and a.args[0].op == 'ln':
        return power(a.args[0].args[0], div(ONE, a.args[1]), bits)
    if a.op == '/' and a.args[0].op == 'ln':
        pass
    return mk('exp', (a,), H('exp', a.m))


_LN = {}


def _fn_eval(name, v):
    try:
        if name == 'sin': return math.sin(v[0])
        if name == 'cos': return math.cos(v[0])
        if name == 'tan': return math.tan(v[0])
        if name == 'asin': return math.asin(v[0])
        if name == 'acos': return math.acos(v[0])
        if name == 'atan': return math.atan(v[0])
        if name == 'atan2': return math.atan2(v[0], v[1])
        if name == 'sinh': return math.sinh(v[0])
        if name == 'cosh': return math.cosh(v[0])
        if name == 'tanh': return math.tanh(v[0])
        if name == 'abs': return abs(v[0])
        if name == 'floor': return float(math.floor(v[0])) if math.isfinite(v[0]) else v[0]
        if name == 'ceil': return float(math.ceil(v[0])) if math.isfinite(v[0]) else v[0]
        if name == 'trunc': return float(math.trunc(v[0])) if math.isfinite(v[0]) else v[0]
        if name == 'round':
            if not math.isfinite(v[0]): return v[0]
            return float(math.copysign(math.floor(abs(v[0]) + 0.5), v[0]))
        if name == 'round_ties_even': return float(round(v[0])) if math.isfinite(v[0]) else v[0]
        if name == 'narrow': return f32r(v[0])
        if name == 'narrow64': return f32r(v[0]) if STRICT[1] else v[0]
        if name == 'widen32': return v[0] if STRICT[1] else v[0] * (1 + 5e-8)
        if name == 'rem': return math.fmod(v[0], v[1])
        if name.startswith('sat'):  # saturating float->int cast
            lo, hi = _satrange(name)
            if v[0] != v[0]: return 0.0
            return float(min(max(math.trunc(v[0]) if math.isfinite(v[0]) else (hi if v[0] > 0 else lo), lo), hi))
        if name in ('ulps32', 'ulps64'):
            fm = ('<f', '<i') if name == 'ulps32' else ('<d', '<q')
            b = [struct.unpack(fm[1], struct.pack(fm[0], x))[0] for x in v]
            return float(b[0] - b[1])
        if name == 'div0': return fdiv(v[0], 0.0)
        if name == 'idiv': return float(int(v[0]) // int(v[1]))
        if name == 'irem': return float(math.fmod(v[0], v[1]))
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan
    return None


def _satrange(name):
    b = int(name[4:])
    return (0, (1 << b) - 1) if name[3] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


INTFN = {'round', 'floor', 'ceil', 'trunc', 'round_ties_even'}


# [0]: keep narrowing to single precision visible in the value graph (narrow64: a double precision value was narrowed;
# widen32: a single precision literal that is not the decimal it was written as, or the result of single precision
# arithmetic, entered a double precision computation);
# [1]: whether evaluation rounds there
STRICT = [False, True]


def fn(name, *args, bits=64):
    if name in ('narrow64', 'widen32'): return mk('fn', (name, args[0]), H(name, args[0].m))
    if all(a.f is not None for a in args):
        v = _fn_eval(name, [a.f for a in args])
        if v is not None:
            if v != v or v in (inf, -inf): return nonfin(v)
            v = rnd(v, bits)
            if name == 'abs': return args[0] if (args[0].f >= 0) else neg(args[0])
            if name == 'narrow': return const_raw(args[0].m, v)
            if name in INTFN or name.startswith('sat') or name in ('idiv', 'irem', 'ulps32', 'ulps64'): return num(int(v))
            if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and args[0].m == 0: return ZERO
            if name in ('cos', 'cosh') and args[0].m == 0: return ONE
            if name == 'atan2' and args[0].m == 0 and args[1].f > 0: return ZERO
            return const_raw(H(name, *[a.m for a in args]), v)
    if name == 'abs':
        a = args[0]
        if a.op in ('+', '-', 'neg'):
            dd, c0 = affine(a)
            if len(dd) == 1 and c0.m == 0:
                (t, c), = dd.items()
                a = t if c.m in (1, P - 1) else mul(c, t)
        if a.op == 'fn' and a.args[0] == 'abs': return a
        if a.op in ('pow', 'exp'): return a
        if a.op == '*' and a.args[0] is a.args[1]: return a
        # |x| = |-x|: canonical sign
        am = a.m
        if H('s', (P - am) % P) < H('s', am):
            am = (P - am) % P
            if a.op != 'v': a = neg(a)
        return mk('fn', ('abs', a), H('abs', am))
    if name == 'sin' or name == 'atan':
        # odd
        a = args[0]
        if a.f is None and H('s', (P - a.m) % P) < H('s', a.m):
            a = neg(a)
            return neg(mk('fn', (name, a), H(name, a.m)))
    if name == 'cos':
        a = args[0]
        if a.f is None and H('s', (P - a.m) % P) < H('s', a.m):
            a = neg(a)
            args = (a,)
    if name in INTFN and args[0].isint: return args[0]
    if name == 'narrow' and args[0].isint and args[0].rng and max(map(abs, args[0].rng)) <= 2**24: return args[0]
    if name.startswith('sat') and args[0].isint:
        lo, hi = _satrange(name)
        r = args[0].rng
        if r and r[0] >= lo and r[1] <= hi: return args[0]
    if (name in INTFN or name.startswith('sat')) and args[0].op in '+-' and len(args[0].args) == 2:
        a, b = args[0].args
        if a.f is not None and args[0].op == '+': a, b = b, a
        if a.isint and b.f is not None:         # an integer plus a constant: round the constant
            c = b.f if args[0].op == '+' else -b.f; fl = math.floor(c); k = None
            rg = node_range(args[0])
            if name == 'floor': k = fl
            elif name == 'ceil': k = math.ceil(c)
            elif name in ('round', 'round_ties_even') and c - fl != 0.5: k = fl + (c - fl > 0.5)
            elif name == 'round' and rg[0] >= 0: k = fl + 1
            elif name == 'trunc' and rg[0] >= 0: k = fl
            elif name.startswith('sat') and rg[0] >= 0 and rg[1] < _satrange(name)[1] + 1: k = fl
            if k is not None:
                if k == 0: return a
                r = add(a, num(k)); r.isint = True
                return r
    r = mk('fn', (name,) + tuple(args), H(name, *[a.m for a in args]))
    if name in INTFN or name.startswith('sat') or name in ('idiv', 'irem', 'ulps32', 'ulps64'):
        r.isint = True
    return r


# ---------------------------------------------------------------- conditions
class Budget(Exception):
    """a join produced a condition that is too large; the caller retries with trace partitioning"""


budget = [10**9]


class B:
    """ROBDD node over comparison atoms"""
    __slots__ = ('a', 'hi', 'lo', 'uid')


_b = {}
_bcnt = [2]
ATOMS = []      # index -> (kind, L node, threshold const)
_atom_ix = {}
_thr = {}       # L.m -> list of thresholds consts


def bkey(x):
    return x if isinstance(x, bool) else x.uid


def bmk(a, hi, lo):
    if hi is lo: return hi
    k = (a, bkey(hi) if not isinstance(hi, bool) else ('T' if hi else 'F'), bkey(lo) if not isinstance(lo, bool) else ('T' if lo else 'F'))
    n = _b.get(k)
    if n is None:
        n = B(); n.a = a; n.hi = hi; n.lo = lo
        _bcnt[0] += 1
        n.uid = _bcnt[0]
        _b[k] = n
    return n


_bite = {}


def bite(c, x, y):
    if c is True: return x
    if c is False: return y
    if x is y: return x
    if x is True and y is False: return c
    k = (c.uid, bkey(x), isinstance(x, bool), bkey(y), isinstance(y, bool))
    r = _bite.get(k)
    if r is not None: return r
    budget[0] -= 1
    if budget[0] < 0: raise Budget()
    t = c.a
    if not isinstance(x, bool) and x.a < t: t = x.a
    if not isinstance(y, bool) and y.a < t: t = y.a

    def co(n, v):
        if isinstance(n, bool) or n.a != t: return n
        return n.hi if v else n.lo
    r = bmk(t, bite(co(c, True), co(x, True), co(y, True)), bite(co(c, False), co(x, False), co(y, False)))
    _bite[k] = r
    return r


def band(x, y): return bite(x, y, False)
def bor(x, y): return bite(x, True, y)
def bnot(x): return bite(x, False, True)
def bxor(x, y): return bite(x, bnot(y), y)


def brestrict(b, a, v):
    """cofactor b by atom index a := v"""
    if isinstance(b, bool): return b
    if b.a > a: return b
    if b.a == a: return b.hi if v else b.lo
    return bmk(b.a, brestrict(b.hi, a, v), brestrict(b.lo, a, v))


def batoms(b, out=None):
    if out is None: out = set()
    st = [b]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, bool) or x.uid in seen: continue
        seen.add(x.uid)
        out.add(x.a)
        st.append(x.hi); st.append(x.lo)
    return out


# ---------------------------------------------------------------- affine view
def affine(n):
    """n = sum coef*term + c0; returns (dict term-> coef const, c0 const)"""
    if n.f is not None: return {}, n
    if n._aff is not None: return n._aff
    op = n.op
    if op in ('+', '-'):
        d1, c1 = affine(n.args[0]); d2, c2 = affine(n.args[1])
        d = dict(d1)
        for t, c in d2.items():
            if op == '-': c = neg(c)
            d[t] = add(d[t], c) if t in d else c
        r = {t: c for t, c in d.items() if c.m != 0}, (add if op == '+' else sub)(c1, c2)
    elif op == 'neg':
        d1, c1 = affine(n.args[0])
        r = {t: neg(c) for t, c in d1.items()}, neg(c1)
    elif op == '*' and n.args[0].f is not None:
        d1, c1 = affine(n.args[1]); k = n.args[0]
        r = {t: mul(c, k) for t, c in d1.items()}, mul(c1, k)
    elif op == '*' and n.args[1].f is not None:
        d1, c1 = affine(n.args[0]); k = n.args[1]
        r = {t: mul(c, k) for t, c in d1.items()}, mul(c1, k)
    elif op == '/' and n.args[1].f is not None:
        d1, c1 = affine(n.args[0]); k = n.args[1]
        r = {t: div(c, k) for t, c in d1.items()}, div(c1, k)
    else:
        r = {n: ONE}, ZERO
    n._aff = r
    return r


def monomial(n):
    """n as coef * prod base^k"""
    if n.f is not None: return n, {}
    if n.op == '*':
        c1, d1 = monomial(n.args[0]); c2, d2 = monomial(n.args[1])
        d = dict(d1)
        for b, k in d2.items(): d[b] = d.get(b, 0) + k
        return mul(c1, c2), {b: k for b, k in d.items() if k}
    if n.op == 'neg':
        c, d = monomial(n.args[0]); return neg(c), d
    if n.op == '/':
        c1, d1 = monomial(n.args[0]); c2, d2 = monomial(n.args[1])
        d = dict(d1)
        for b, k in d2.items(): d[b] = d.get(b, 0) - k
        return div(c1, c2), {b: k for b, k in d.items() if k}
    return ONE, {n: 1}


def thr_intern(L, t, tol=1e-11):
    l = _thr.setdefault(L.m, [])
    for x in l:
        if x.m == t.m or abs(x.f - t.f) <= tol * max(1.0, abs(t.f)):
            return x
    l.append(t)
    return t


def atom(kind, L, t):
    """kind in gt/eq ; boolean for L kind t (L non-constant)"""
    t = thr_intern(L, t)
    k = (kind, L.m, t.m, t.f)
    i = _atom_ix.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append((kind, L, t))
        _atom_ix[k] = i
    return bmk(i, True, False)


_gtmemo = {}
MAXITE = 40


def find_ite(n):
    """some ite node below n, innermost-first (its condition and arms are usable)"""
    if not n.hasite: return None
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.uid in seen or not x.hasite: continue
        seen.add(x.uid)
        if x.op == 'ite': return x
        st.extend(x.args)
    return None


def rebuild(op, n, args):
    if op == '+': return add(*args)
    if op == '-': return sub(*args)
    if op == '*': return mul(*args)
    if op == '/': return div(*args)
    if op == 'neg': return neg(*args)
    if op == 'pow': return power(*args)
    if op == 'exp': return exp(*args)
    if op == 'ln': return ln(*args)
    if op == 'fn': return fn(n.args[0], *args)
    raise ValueError(op)


_subm = {}


def subst_cond(n, c, v):
    """n with every ite on condition c (as a BDD, or on atoms of it) decided: only exact condition matches and
    atom-level cofactors when c is a single atom"""
    if not n.hasite: return n
    k = (n.uid, c.uid, v)
    r = _subm.get(k)
    if r is not None: return r
    if n.op == 'ite':
        cc, a, b = n.args
        if cc is c: r = subst_cond(a if v else b, c, v)
        else:
            c2 = cc
            if c.hi is True and c.lo is False: c2 = brestrict(cc, c.a, v)
            elif band(c, cc) is False and v: c2 = False
            elif band(c, bnot(cc)) is False and v: c2 = True
            a2 = subst_cond(a, c, v) if c2 is not False else None
            b2 = subst_cond(b, c, v) if c2 is not True else None
            r = a2 if c2 is True else b2 if c2 is False else ite(c2, a2, b2)
    else:
        args = [subst_cond(x, c, v) if isinstance(x, Node) else x for x in n.args]
        if n.op == 'fn': args = args[1:]
        r = rebuild(n.op, n, args)
        if n.isint and r.f is None: r.isint = True
    _subm[k] = r
    return r


def lift_ite(n, f, depth=0):
    """apply boolean-valued f to ite-free cases of n"""
    if not n.hasite: return f(n)
    if depth > MAXITE: return None
    budget[0] -= 20
    if budget[0] < 0: raise Budget()
    x = find_ite(n)
    c = x.args[0]
    # decide on the top atom of c
    a = bmk(c.a, True, False)
    hi = lift_ite(subst_cond(n, a, True), f, depth + 1)
    lo = lift_ite(subst_cond(n, a, False), f, depth + 1)
    if hi is None or lo is None: return None
    return bite(a, hi, lo)


def gt0(d):
    """boolean for d > 0 (ties ignored for reals)"""
    if d.f is not None: return d.f > 0
    if d.hasite:
        r = _gtmemo.get(d.uid)
        if r is None:
            r = lift_ite(d, gt0)
            if r is None: r = atom('gt', d, ZERO)
            _gtmemo[d.uid] = r
        return r
    dd, c0 = affine(d)
    if not dd: return c0.f > 0
    if not isfin(c0): return c0.f > 0
    terms = sorted(dd, key=lambda t: t.m)
    lead = dd[terms[0]]
    allint = all(t.isint for t in terms)
    L = None
    for t in terms:
        c = div(dd[t], lead)
        if allint and not float(c.f).is_integer(): allint = False
        x = t if c.m == 1 else mul(c, t)
        L = x if L is None else add(L, x)
    thr = div(neg(c0), lead)
    pos = lead.f > 0
    # d>0  <=>  L > thr (pos) / L < thr
    return cmp_gt(L, thr, allint) if pos else cmp_lt(L, thr, allint)


def cmp_gt(L, thr, allint=False):
    r = node_range(L)
    if r[0] > thr.f: return True
    if r[1] <= thr.f: return False
    if allint:
        fl = num(math.floor(thr.f))
        return atom('gt', L, fl)
    inv = invert(L, thr)
    if inv is not None:
        s, L2, t2 = inv
        if s == 'T': return True
        if s == 'F': return False
        return (cmp_gt if s > 0 else cmp_lt)(L2, t2)
    return atom('gt', L, thr)


def cmp_lt(L, thr, allint=False):
    r = node_range(L)
    if r[1] < thr.f: return True
    if r[0] >= thr.f: return False
    if allint:
        cl = num(math.ceil(thr.f) - 1)
        return bnot(atom('gt', L, cl))
    inv = invert(L, thr)
    if inv is not None:
        s, L2, t2 = inv
        if s == 'T': return False
        if s == 'F': return True
        return (cmp_lt if s > 0 else cmp_gt)(L2, t2)
    return bnot(atom('gt', L, thr))


def affine_solve(u, t):
    """u > t  with u affine over one/many terms -> (sign, L, thr)"""
    dd, c0 = affine(u)
    terms = sorted(dd, key=lambda t: t.m)
    if not terms: return None
    lead = dd[terms[0]]
    L = None
    for x in terms:
        c = div(dd[x], lead)
        y = x if c.m == 1 else mul(c, x)
        L = y if L is None else add(L, y)
    return (1 if lead.f > 0 else -1), L, div(sub(t, c0), lead)


def invert(L, thr):
    """monotone inversion of L > thr; L single-term. Returns (sign, L', thr') / ('T'|'F',..)"""
    if L.op == 'pow':
        u, q = L.args
        if thr.f < 0: return ('T', None, None)
        if thr.m == 0:
            return None if q.f < 0 else affine_solve(u, ZERO)
        t2 = power(thr, div(ONE, q))
        s = affine_solve(u, t2)
        if s is None: return None
        return (s[0] * (1 if q.f > 0 else -1), s[1], s[2])
    if L.op == 'exp':
        if thr.f <= 0: return ('T', None, None)
        return affine_solve(L.args[0], ln(thr))
    if L.op == 'ln':
        return affine_solve(L.args[0], exp(thr))
    if L.op == '*':
        c, d = monomial(L)
        if len(d) == 1:
            (b, k), = d.items()
            if k % 2 == 1 and k > 1:
                t = div(thr, c)
                root = power(t, num(Fraction(1, k))) if t.f > 0 else (ZERO if t.m == 0 else neg(power(neg(t), num(Fraction(1, k)))))
                s = affine_solve(b, root)
                if s is None: return None
                return (s[0] * (1 if c.f > 0 else -1), s[1], s[2])
    if L.op == 'fn' and L.args[0] == 'narrow':
        return None
    return None


def lt(a, b):
    if a.f is not None and b.f is not None: return a.f < b.f
    if nanc(a) or nanc(b): return False
    return gt0(sub(b, a))


def le(a, b):
    if a.f is not None and b.f is not None: return a.f <= b.f
    if nanc(a) or nanc(b): return False
    if a.isint and b.isint or (a.isint and b.f is not None) or (b.isint and a.f is not None):
        return bnot(gt0(sub(a, b)))
    # for reals ties are ignored: a<=b  ~  not (a>b)
    return bnot(gt0(sub(a, b)))


def nanc(a):
    return a.f is not None and a.f != a.f


def eq(a, b):
    if a.f is not None and b.f is not None: return a.f == b.f
    if nanc(a) or nanc(b): return False
    if a.m == b.m: return True
    d = sub(a, b)
    return eq0(d)


def eq0(d):
    if d.f is not None: return d.m == 0 or d.f == 0
    if d.hasite:
        r = lift_ite(d, eq0)
        return atom('eq', d, ZERO) if r is None else r
    dd, c0 = affine(d)
    if not dd: return c0.m == 0
    if not isfin(c0): return False
    terms = sorted(dd, key=lambda t: t.m)
    lead = dd[terms[0]]
    L = None
    allint = all(t.isint for t in terms)
    for t in terms:
        c = div(dd[t], lead)
        if allint and not float(c.f).is_integer(): allint = False
        x = t if c.m == 1 else mul(c, t)
        L = x if L is None else add(L, x)
    thr = div(neg(c0), lead)
    r = node_range(L)
    if thr.f < r[0] or thr.f > r[1]: return False
    if allint and not float(thr.f).is_integer(): return False
    return atom('eq', L, thr)


def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a.m == b.m and a.f is None and b.f is None: return a
    if a.m == b.m and a.f == b.f: return a
    # |x| pattern
    if a.f is None and b.f is None and (a.m + b.m) % P == 0 and not isinstance(c, bool):
        pos = gt0(a)
        if c is pos: return fn('abs', a)
        if c is bnot(pos): return neg(fn('abs', a))
    # canonical polarity: lowest atom's hi branch
    if c.lo is True or (not isinstance(c.hi, bool) and c.hi.uid < 0):
        c, a, b = bnot(c), b, a
    # collapse ite(c, x, ite(c, y, z))
    n = mk('ite', (c, a, b), H('ite', c.uid, a.m, b.m, None if a.f is None else a.f, None if b.f is None else b.f), a.isint and b.isint)
    if a.f is not None and b.f is not None and a.f.is_integer() and b.f.is_integer() or (a.isint or a.f is not None and a.f.is_integer()) and (b.isint or b.f is not None and b.f.is_integer()):
        n.isint = True
    return n


# ---------------------------------------------------------------- ranges
def _imul(a, b):
    v = []
    for x in a:
        for y in b:
            p = x * y if not ((x == 0 and y in (inf, -inf)) or (y == 0 and x in (inf, -inf))) else 0.0
            v.append(p)
    return min(v), max(v)


def node_range(n, ctx=None, memo=None):
    """interval of n from variable ranges (+ ctx: dict uid->(lo,hi))"""
    if n.f is not None:
        return (n.f, n.f) if n.f == n.f else (-inf, inf)
    if memo is None: memo = {}
    r = memo.get(n.uid)
    if r is not None: return r
    op = n.op
    g = lambda x: node_range(x, ctx, memo)
    r = (-inf, inf)
    if op == 'v':
        r = n.rng or r
    elif op == '+':
        a = g(n.args[0]); b = g(n.args[1]); r = (a[0] + b[0], a[1] + b[1])
    elif op == '-':
        a = g(n.args[0]); b = g(n.args[1]); r = (a[0] - b[1], a[1] - b[0])
    elif op == 'neg':
        a = g(n.args[0]); r = (-a[1], -a[0])
    elif op == '*':
        if n.args[0] is n.args[1]:
            a = g(n.args[0])
            lo = 0.0 if a[0] <= 0 <= a[1] else min(a[0] * a[0], a[1] * a[1])
            r = (lo, max(a[0] * a[0], a[1] * a[1]))
        else:
            r = _imul(g(n.args[0]), g(n.args[1]))
    elif op == '/':
        b = g(n.args[1])
        if b[0] > 0 or b[1] < 0:
            r = _imul(g(n.args[0]), (1 / b[1] if b[1] not in (inf, -inf) else 0.0, 1 / b[0] if b[0] not in (inf, -inf) else 0.0))
        elif b[0] >= 0:
            a = g(n.args[0])
            if a[0] >= 0: r = (0.0, inf)
    elif op == 'pow':
        a = g(n.args[0]); q = n.args[1].f
        try:
            lo = max(a[0], 0.0); hi = max(a[1], 0.0)
            if q > 0: r = (lo ** q, hi ** q if hi != inf else inf)
            else: r = (hi ** q if hi != inf else 0.0, lo ** q if lo > 0 else inf)
        except OverflowError: r = (0.0, inf)
    elif op == 'exp':
        a = g(n.args[0])
        try: r = (math.exp(a[0]), math.exp(a[1]) if a[1] < 700 else inf)
        except OverflowError: r = (0.0, inf)
    elif op == 'ln':
        a = g(n.args[0])
        r = (math.log(a[0]) if a[0] > 0 else -inf, math.log(a[1]) if 0 < a[1] < inf else inf)
    elif op == 'ite':
        a = g(n.args[1]); b = g(n.args[2]); r = (min(a[0], b[0]), max(a[1], b[1]))
    elif op == 'fn':
        nm = n.args[0]
        if nm in ('sin', 'cos'): r = (-1.0, 1.0)
        elif nm == 'atan2': r = (-math.pi, math.pi)
        elif nm == 'atan': r = (-math.pi / 2, math.pi / 2)
        elif nm == 'abs':
            a = g(n.args[1]); r = (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1])))
        elif nm in INTFN:
            a = g(n.args[1]); r = (_fn_eval(nm, [a[0]]), _fn_eval(nm, [a[1]]))
        elif nm in ('narrow', 'narrow64', 'widen32'):
            a = g(n.args[1]); r = (f32r(a[0]), f32r(a[1]))
        elif nm.startswith('sat'):
            a = g(n.args[1]); r = (_fn_eval(nm, [a[0]]), _fn_eval(nm, [a[1]]))
    if r[0] != r[0] or r[1] != r[1]: r = (-inf, inf)
    if ctx is not None:
        c = ctx.get(n.uid)
        if c is not None:
            r = (max(r[0], c[0]), min(r[1], c[1]))
    if n.rng is not None:
        r = (max(r[0], n.rng[0]), min(r[1], n.rng[1]))
    memo[n.uid] = r
    return r


def aff_range(n):
    """interval of n after cancelling common terms"""
    dd, c0 = affine(n)
    lo = hi = c0.f
    for t, c in dd.items():
        r = _imul((c.f, c.f), node_range(t))
        lo += r[0]; hi += r[1]
    return lo, hi


# ---------------------------------------------------------------- printing
def show(n, d=6):
    if isinstance(n, B):
        k, L, t = ATOMS[n.a]
        return 'B(%s%s%s ? %s : %s)' % (show(L, d - 1), '>' if k == 'gt' else '==', t.f, show(n.hi, d - 1) if not isinstance(n.hi, bool) else n.hi, show(n.lo, d - 1) if not isinstance(n.lo, bool) else n.lo)
    if isinstance(n, bool): return str(n)
    if n.f is not None: return '%.10g' % n.f
    if d <= 0: return '…'
    if n.op == 'v': return n.args[0]
    if n.op in '+-*/' and len(n.args) == 2: return '(%s %s %s)' % (show(n.args[0], d - 1), n.op, show(n.args[1], d - 1))
    if n.op == 'neg': return '-' + show(n.args[0], d - 1)
    if n.op == 'fn': return '%s(%s)' % (n.args[0], ', '.join(show(a, d - 1) for a in n.args[1:]))
    if n.op == 'ite': return '(%s ? %s : %s)' % (show(n.args[0], d - 1), show(n.args[1], d - 1), show(n.args[2], d - 1))
    return '%s(%s)' % (n.op, ', '.join(show(a, d - 1) for a in n.args))


# ---------------------------------------------------------------- numeric evaluation of value graphs
def evalf(n, env, memo):
    """float value of the term under env: name -> float (memo: dict). Used only to look for a witness of a
    non-zero normal form and to absorb rounding of literals."""
    st = [n]
    while st:
        x = st[-1]
        if x.uid in memo: st.pop(); continue
        if x.f is not None: memo[x.uid] = x.f; st.pop(); continue
        op = x.op
        if op == 'v': memo[x.uid] = env[x.args[0]]; st.pop(); continue
        if op == 'ite':
            c = evalb(x.args[0], env, memo)
            y = x.args[1] if c else x.args[2]
            if y.uid in memo: memo[x.uid] = memo[y.uid]; st.pop()
            else: st.append(y)
            continue
        args = x.args[1:] if op == 'fn' else x.args
        need = [a for a in args if a.uid not in memo]
        if need: st.extend(need); continue
        v = [memo[a.uid] for a in args]
        try:
            if op == '+': r = v[0] + v[1]
            elif op == '-': r = v[0] - v[1]
            elif op == '*': r = v[0] * v[1]
            elif op == '/': r = fdiv(v[0], v[1])
            elif op == 'neg': r = -v[0]
            elif op == 'pow': r = math.pow(v[0], v[1])
            elif op == 'exp': r = math.exp(v[0])
            elif op == 'ln': r = math.log(v[0]) if v[0] > 0 else (-inf if v[0] == 0 else math.nan)
            elif op == 'fn':
                r = _fn_eval(x.args[0], v)
                if r is None: r = math.nan
            else: r = math.nan
        except (ValueError, OverflowError, ZeroDivisionError):
            r = math.nan
        memo[x.uid] = r
        st.pop()
    return memo[n.uid]


def evalb(b, env, memo):
    while not isinstance(b, bool):
        kind, L, t = ATOMS[b.a]
        x = evalf(L, env, memo)
        if kind == 'gt': b = b.hi if x > t.f else b.lo
        else: b = b.hi if x == t.f else b.lo
    return b


def nvars(n, out=None, seen=None):
    if out is None: out = {}
    if seen is None: seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, bool) or x is None: continue
        if isinstance(x, B):
            if ('b', x.uid) in seen: continue
            seen.add(('b', x.uid))
            for a in batoms(x):
                if ('a', a) not in seen:
                    seen.add(('a', a)); st.append(ATOMS[a][1])
            continue
        if isinstance(x, Node):
            if x.uid in seen: continue
            seen.add(x.uid)
            if x.op == 'v': out[x.args[0]] = x
            else: st.extend(a for a in x.args if isinstance(a, (Node, B)))
    return out


def single_data(v):
    """a constant that a compile-time evaluation rounded to single precision: exact in single precision with the low
    bits in use, and not a number anybody writes out"""
    if type(v) is not float or not 1e-9 < abs(v) < 1e12 or v == int(v): return False
    if struct.unpack('f', struct.pack('f', v))[0] != v: return False
    m = int(math.frexp(v)[0] * 2**24)
    while m % 2 == 0: m //= 2
    return abs(m).bit_length() >= 17 and float('%.9g' % v) != v


def narrowed(n):
    """the narrowings the value depends on, through operands and conditions"""
    out = []; seen = set(); st = [n]
    while st:
        x = st.pop()
        if isinstance(x, bool) or x is None: continue
        if isinstance(x, B):
            if ('b', x.uid) in seen: continue
            seen.add(('b', x.uid))
            st.extend(ATOMS[a][1] for a in batoms(x))
        elif isinstance(x, Node):
            if x.uid in seen: continue
            seen.add(x.uid)
            if x.op == 'fn' and x.args[0] in ('narrow64', 'widen32') or x.op == 'c' and single_data(x.f): out.append(x)
            st.extend(a for a in x.args if isinstance(a, (Node, B)))
    return out
