"""Abstract interpreter over monomorphised MIR (as dumped by ../driver).

Domain: each numeric location is a value-graph Node (terms.py); control flow that
depends on an unknown is not enumerated path by path: both sides of the branch are
analysed from the branch to its immediate post-dominator and the states are joined
there with gated (ite) values, exactly as in gated-SSA value numbering.
"""
import sys, json, math, re, time
import terms as T
from terms import Node, B, num, ite, bnot, band, bor, bxor, bite, ATOMS

UNS = 'unsupported'


def isint(n):
    if n.f is not None: return int(n.f)
    n.isint = True
    return n


class Unsupported(Exception):
    pass


class Dead(Exception):
    """every path of the current region diverges"""


class NeedSplit(Exception):
    def __init__(s, c): s.c = c


class Agg:
    """product value; for a Vec, cap = (guaranteed capacity, {index: value} written beyond the length)"""
    __slots__ = ('f', 'ty', 'cap')
    def __init__(s, f, ty=None, cap=None): s.f = f; s.ty = ty; s.cap = cap
    def __repr__(s): return 'Agg%r' % (s.f,)


class Enum:
    __slots__ = ('v', 'f', 'ty')
    def __init__(s, v, f, ty=None): s.v = v; s.f = f; s.ty = ty
    def __repr__(s): return 'Enum%d%r' % (s.v, s.f)


class IteVal:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return 'IteVal(%s,%r,%r)' % (T.show(s.c, 2), s.a, s.b)


FCMP = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b, 'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b}
FLIP = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}


class Ptr:
    __slots__ = ('a', 'p', 'v')
    def __init__(s, a, p=(), v=None): s.a = a; s.p = p; s.v = v
    def __eq__(s, o): return isinstance(o, Ptr) and s.a == o.a and s.p == o.p
    def __hash__(s): return hash((s.a, s.p))
    def __repr__(s): return '&%s%s' % (s.a, list(s.p))


class Fat:
    """slice (meta int) or dyn (meta ('vt',ty)) pointer"""
    __slots__ = ('p', 'm')
    def __init__(s, p, m): s.p = p; s.m = m
    def __eq__(s, o): return isinstance(o, Fat) and s.p == o.p and s.m == o.m
    def __hash__(s): return hash((s.p, s.m))
    def __repr__(s): return 'Fat(%r,%r)' % (s.p, s.m)


class FnV:
    __slots__ = ('inst',)
    def __init__(s, inst): s.inst = inst
    def __eq__(s, o): return isinstance(o, FnV) and s.inst['key'] == o.inst['key']
    def __hash__(s): return hash(s.inst['key'])
    def __repr__(s): return 'Fn(%s)' % s.inst['name']


class Str:
    __slots__ = ('s',)
    def __init__(s, x): s.s = x
    def __eq__(s, o): return isinstance(o, Str) and s.s == o.s
    def __hash__(s): return hash(s.s)
    def __repr__(s): return 'Str(%r)' % s.s


class MapV:
    """HashMap / BTreeMap: tuple of (key, value)"""
    __slots__ = ('kv', 'ty')
    def __init__(s, kv, ty=None): s.kv = kv; s.ty = ty


class Opaque:
    __slots__ = ('tag',)
    def __init__(s, tag): s.tag = tag
    def __eq__(s, o): return isinstance(o, Opaque) and s.tag == o.tag
    def __hash__(s): return hash(s.tag)
    def __repr__(s): return 'Opaque(%s)' % (s.tag,)


UNWRITTEN = Opaque(('unwritten',))     # element of a vector whose length was raised over memory nobody wrote


class Uninit:
    def __repr__(s): return 'UNINIT'


UNINIT = Uninit()
UNIT = Agg(())
EXIT = -1


# --------------------------------------------------------------- memory/state
class State:
    __slots__ = ('d', 'up', 'pc', 'depth')

    def __init__(s, up=None, pc=True):
        s.d = {}; s.up = up; s.pc = pc
        s.depth = 0 if up is None else up.depth + 1

    def get(s, k):
        while s is not None:
            v = s.d.get(k)
            if v is not None: return v
            s = s.up
        return UNINIT

    def set(s, k, v): s.d[k] = v

    def fork(s, cond=True):
        return State(s, band(s.pc, cond))


# -------------------------------------------------- feasibility of conditions
_feas = {}


def feasible(b, limit=4000):
    """is the condition satisfiable w.r.t. interval reasoning per linear form?"""
    if isinstance(b, bool): return b
    r = _feas.get(b.uid)
    if r is None:
        cnt = [0]
        r = _dfs(b, {}, cnt, limit)
        _feas[b.uid] = r
    return r


def _dfs(b, ctx, cnt, limit):
    if b is True: return True
    if b is False: return False
    cnt[0] += 1
    if cnt[0] > limit: return True
    kind, L, t = ATOMS[b.a]
    key = L.m
    cur = ctx.get(key)
    if cur is None:
        cur = T.node_range(L, ctx.get('U'), {}) if L.isint and L.op == 'fn' and 'U' in ctx else T.node_range(L)
    lo, hi = cur
    for v in (True, False):
        br = b.hi if v else b.lo
        if br is False: continue
        if kind == 'gt':
            n = (max(lo, t.f), hi) if v else (lo, min(hi, t.f))
            ok = n[0] <= n[1] if not L.isint else n[0] <= n[1]
            if v and hi <= t.f: ok = False
            if not v and lo > t.f: ok = False
            # open/closed handling: lo==t means L>t already chosen
            if not v and ('gtlo', key) in ctx and ctx[('gtlo', key)] >= t.f: ok = False
            if v and L.isint: n = (max(lo, math.floor(t.f) + 1), hi); ok = ok and n[0] <= n[1]
        elif kind == 'eq':
            if v:
                ok = lo <= t.f <= hi and not (('gtlo', key) in ctx and ctx[('gtlo', key)] >= t.f)
                n = (t.f, t.f)
            else:
                ok = not (lo == hi == t.f); n = (lo, hi)
        else:
            ok = True; n = (lo, hi)
        if not ok: continue
        c2 = dict(ctx); c2[key] = n
        if L.op == 'v' or L.op == 'fn': c2['U'] = {**ctx.get('U', {}), L.uid: n}
        if kind == 'gt' and v:
            c2[('gtlo', key)] = max(t.f, c2.get(('gtlo', key), -T.inf))
        if _dfs(br, c2, cnt, limit): return True
    return False


_imp = {}


def simp(pc, c):
    """simplify condition c under pc"""
    if isinstance(c, bool) or pc is True and not isinstance(c, B): return c
    k = (pc if isinstance(pc, bool) else pc.uid, c.uid)
    r = _imp.get(k)
    if r is None:
        if not feasible(band(pc, c)): r = False
        elif not feasible(band(pc, bnot(c))): r = True
        else: r = c
        _imp[k] = r
    return r


# ---------------------------------------------------------------- merging
def isnum(x): return isinstance(x, (int, Node)) and not isinstance(x, bool)


def mergeval(c, a, b):
    if a is b: return a
    ta = type(a); tb = type(b)
    if a is UNINIT: return b
    if b is UNINIT: return a
    if ta is bool or ta is B:
        if tb is bool or tb is B: return bite(c, a, b)
    if ta is int and tb is int and a == b: return a
    if ta is Node and tb is Node: return ite(c, a, b)
    if isnum(a) and isnum(b):
        n = ite(c, num(a), num(b)); n.isint = True
        return n
    if ta is Agg and tb is Agg and len(a.f) == len(b.f):
        f = tuple(mergeval(c, x, y) for x, y in zip(a.f, b.f))
        return Agg(f, a.ty, a.cap if a.cap == b.cap or b.cap is None else (min(a.cap[0], b.cap[0]), {}) if a.cap else None)
    if ta is Enum and tb is Enum and a.v == b.v and len(a.f) == len(b.f):
        return Enum(a.v, tuple(mergeval(c, x, y) for x, y in zip(a.f, b.f)), a.ty)
    if ta is tb and ta in (Ptr, Fat, FnV, Str, Opaque) and a == b: return a
    if ta is IteVal and a.c is c: a = a.a
    if tb is IteVal and b.c is c: b = b.b
    if a is b: return a
    return IteVal(c, a, b)


# ---------------------------------------------------------------- program
TRANSPARENT = {'std::ptr::NonNull', 'std::ptr::Unique', 'core::ptr::Unique', 'std::mem::ManuallyDrop', 'std::mem::MaybeUninit', 'std::boxed::Box',
               'std::mem::MaybeDangling', 'core::ptr::unique::Unique', 'std::num::NonZero', 'core::num::niche_types::UsizeNoHighBit',
               'std::cell::UnsafeCell', 'std::cell::Cell', 'std::pin::Pin', 'std::mem::maybe_dangling::MaybeDangling'}


class Program:
    def __init__(s, path):
        d = json.load(open(path))
        s.T = d['types']; s.fns = d['fns']; s.roots = d['roots']; s.statics = d['statics']
        s.comp = {}
        s.transp = [t.get('def') in TRANSPARENT for t in s.T]
        s.isvec = [t.get('def') == 'std::vec::Vec' for t in s.T]

    def hasdrop(s, ty, seen=None):
        """does dropping a value of this type run code of the analysed crate?"""
        if seen is None:
            if not hasattr(s, '_hd'): s._hd = {}; s._anyd = any(t.get('drop') for t in s.T)
            if not s._anyd: return False
            if ty not in s._hd: s._hd[ty] = s.hasdrop(ty, set())
            return s._hd[ty]
        if ty in seen: return False
        seen.add(ty); t = s.T[ty]
        if t.get('drop'): return True
        k = t['k']
        if k in ('ref', 'ptr', 'fndef', 'fnptr'): return False
        sub = [x for x in (t.get('args') or []) if type(x) is int]
        if k in ('array', 'slice'): sub = [t['e']]
        elif k == 'tuple': sub = list(t['e'])
        for v in t.get('v') or []: sub += v['f']
        return any(s.hasdrop(x, seen) for x in sub)

    def compile(s, key):
        c = s.comp.get(key)
        if c is None:
            f = s.fns.get(key)
            if f is None: return None
            c = s.comp[key] = Fn(s, f)
        return c


class Fn:
    def __init__(s, P, f):
        s.key = f['key']; s.name = f['name']; s.deff = f['def']; s.span = f['span']; s.crate = f['crate']
        s.nargs = f['nargs']; s.spread = f['spread']; s.locals = f['locals']
        s.nl = len(s.locals)
        s.P = P
        s.raw = f['blocks']
        s.blocks = [None] * len(s.raw)
        s.ipdom = None
        s.memo = None
        s.file = s.span.rsplit(':', 1)[0]

    def block(s, i):
        b = s.blocks[i]
        if b is None:
            r = s.raw[i]
            b = s.blocks[i] = ([s.stmt(x) for x in r['s']], s.term(r['t']))
        return b

    def place(s, p):
        P = s.P; loc = p[0]; steps = []
        ty = s.locals[loc]
        var = None
        for e in p[1:]:
            if e == '*':
                t = P.T[ty]
                if t['k'] in ('ref', 'ptr'): nt = t['e']
                elif t.get('def') == 'std::boxed::Box': nt = t['args'][0]
                else: nt = None
                steps.append(('*',))
                ty = nt
                var = None
            elif e[0] == 'f':
                if ty is not None and P.transp[ty]:
                    t = P.T[ty]
                    if t['def'] == 'std::boxed::Box' and e[1] == 1: steps.append(('unit',))
                    # otherwise transparent: no step
                elif ty is not None and P.isvec[ty]:
                    steps.append(('vec', e[1]))
                elif ty is not None and P.T[ty].get('def') == 'alloc::raw_vec::RawVec':
                    steps.append(('rv',))
                elif ty is not None and P.T[ty].get('def') == 'alloc::raw_vec::RawVecInner':
                    steps.append(('rvi', e[1]))
                else:
                    steps.append(('f', e[1], ty, var, e[2]))
                ty = e[2]; var = None
            elif e[0] == 'i':
                steps.append(('i', e[1])); ty = s.elem(ty)
            elif e[0] == 'ci':
                steps.append(('ci', e[1], e[3])); ty = s.elem(ty)
            elif e[0] == 'ss':
                steps.append(('ss', e[1], e[2], e[3]))
            elif e[0] == 'd':
                steps.append(('d', e[1], ty)); var = e[1]
        return (loc, tuple(steps), ty)

    def elem(s, ty):
        return s.P.T[ty].get('e') if ty is not None else None

    def op(s, o):
        if 'c' in o: return ('p', s.place(o['c']))
        if 'm' in o: return ('p', s.place(o['m']))
        return ('k', o['k'], o.get('t'))

    def opty(s, o):
        """type of operand"""
        if o[0] == 'k': return o[2]
        return o[1][2]

    def stmt(s, x):
        if x[0] == '=':
            r = x[2]; k = r[0]
            pl = s.place(x[1])
            if k == 'use': rv = ('use', s.op(r[1]))
            elif k in ('ref', 'discr', 'len'): rv = (k, s.place(r[1]))
            elif k in ('bin', 'cbin'):
                a = s.op(r[2]); b = s.op(r[3])
                rv = (k, r[1], a, b, s.opty(a))
            elif k == 'un':
                a = s.op(r[2]); rv = ('un', r[1], a, s.opty(a))
            elif k == 'cast':
                a = s.op(r[2]); rv = ('cast', r[1], a, r[3], s.opty(a))
            elif k == 'rep': rv = ('rep', s.op(r[1]), r[2])
            elif k == 'agg': rv = ('agg', r[1], [s.op(y) for y in r[2]])
            elif k == 'tls': rv = tuple(r)
            else: rv = (k,)
            return ('=', pl, rv, x[3])
        if x[0] == 'sd': return ('sd', s.place(x[1]), x[2])
        if x[0] == 'cno': return ('cno', s.op(x[1]), s.op(x[2]), s.op(x[3]))
        return ('nop',)

    def term(s, t):
        k = t[0]
        if k == 'switch':
            o = s.op(t[1]); ty = s.opty(o); tg = t[2]
            tt = s.P.T[ty] if ty is not None else None
            if tt is not None and tt['k'] == 'int':
                b = tt['bits']; tg = [(v - (1 << b) if v < (1 << b) and v >> (b - 1) else v, x) for v, x in tg]
            return ('switch', o, tg, t[3])
        if k == 'drop':
            p = s.place(t[2])
            if p[2] is None or s.P.hasdrop(p[2]): return ('dropuser', t[1])
            return ('goto', t[1])
        if k == 'call': return ('call', s.op(t[1]), [s.op(a) for a in t[2]], s.place(t[3]), t[4], t[5])
        if k == 'assert': return ('assert', s.op(t[1]), t[2], t[3], t[4], t[5])
        return tuple(t)

    def succs(s, i):
        t = s.raw[i]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[1]]
        if k == 'call': return [t[4]] if t[4] >= 0 else []
        if k == 'assert': return [t[3]]
        if k == 'ret': return [EXIT]
        return []

    def pdom(s, bb):
        if s.ipdom is None: s._pdoms()
        return s.ipdom.get(bb, EXIT)

    def _pdoms(s):
        n = len(s.raw)
        succ = {i: s.succs(i) for i in range(n)}
        pred = {i: [] for i in range(n)}; pred[EXIT] = []
        for i in succ:
            for j in succ[i]: pred[j].append(i)
        # nodes that can reach EXIT
        live = {EXIT}; st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live: live.add(p); st.append(p)
        # reverse postorder on the reverse graph
        order = []; seen = set()
        st = [(EXIT, iter([p for p in pred[EXIT] if p in live]))]; seen.add(EXIT)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y, iter([p for p in pred[y] if p in live]))); break
            else:
                order.append(x); st.pop()
        order.reverse()
        num_ = {x: i for i, x in enumerate(order)}
        idom = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for x in order:
                if x == EXIT: continue
                new = None
                for y in succ[x]:
                    if y in idom and y in num_:
                        if new is None: new = y
                        else:
                            a, b = new, y
                            while a != b:
                                while num_[a] > num_[b]: a = idom[a]
                                while num_[b] > num_[a]: b = idom[b]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new; ch = True
        s.ipdom = idom


INTR = {}
NATIVE = {}
NATIVE_RE = []


def native(*names):
    def d(f):
        for n in names: NATIVE[n] = f
        return f
    return d


def native_re(pat):
    def d(f):
        NATIVE_RE.append((re.compile(pat), f))
        return f
    return d


def intr(*names):
    def d(f):
        for n in names: INTR[n] = f
        return f
    return d


class Ctx:
    """call-site context handed to natives"""
    __slots__ = ('inst', 'targs', 'dty', 'atys', 'site')


class Interp:
    def __init__(s, P, fuel=60_000_000, tlimit=240):
        s.ph = None
        s.P = P; s.T = P.T
        s.nalloc = 1 << 20
        s.G = State()            # global memory
        s.kcache = {}
        s.keep = []
        s.lazy = {}
        s.statics = {}
        s.mutacc = 0             # accesses to mutable global state (such calls are never memoised)
        s.panics = []            # (pc, site, msg)
        s.ub = []
        s.obl = []; s.narrow = {}; s.counters = {}               # obligations recorded by the probe
        s.effects = []
        s.visited = {}           # fn key -> count
        s.steps = 0
        s.fuel = fuel
        s.tlimit = tlimit
        s.t0 = time.time()
        s.stack = []
        s.calls = 0
        s.joins = 0
        s.natives_used = {}
        s.trap = []              # stack of panic collectors
        s.vars = {}
        s.natcache = {}
        s.notes = []
        s.partition = False
        s.memo = {}; s.memohits = 0; s.ckc = {}; s.ckin = {}
        s.root = '?'

    # ---------------------------------------------------------- allocs
    def new(s, v, S):
        s.nalloc += 1
        S.d[s.nalloc] = v
        return s.nalloc

    def gnew(s, v):
        s.nalloc += 1
        s.G.d[s.nalloc] = v
        return s.nalloc

    # ---------------------------------------------------------- constants
    def konst(s, k, ty):
        if k is True or k is False: return k
        if type(k) is int:
            return k
        key = (id(k), ty)
        r = s.kcache.get(key)
        if r is None:
            m = s.mutacc
            r = s.decode(k, ty)
            if m == s.mutacc: s.kcache[key] = r
            s.keep.append(k)
        return r

    def static(s, n):
        st = s.P.statics[n]
        if n not in s.statics:
            s.statics[n] = s.gnew(Opaque(('static', n)))
            try:
                s.G.d[s.statics[n]] = s.decode(st['v'], st['t'])
            except Unsupported:
                pass
        if s.interior(st['t']): s.mutacc += 1
        return Ptr(s.statics[n])

    def interior(s, ty, seen=()):
        """does a shared reference to this type allow mutation (other than one-time initialisation by its own code)"""
        t = s.T[ty]
        d = t.get('def', '')
        if d == 'std::cell::UnsafeCell': return True
        if d.startswith('lazy_static::') or d == 'std::sync::LazyLock': return False
        if t['k'] == 'array': return s.interior(t['e'], seen)
        if t['k'] == 'tuple': return any(s.interior(e, seen) for e in t['e'])
        if t['k'] in ('struct', 'enum', 'union') and ty not in seen: return any(s.interior(f, seen + (ty,)) for v in t['v'] for f in v['f'])
        return False

    def decode(s, k, ty):
        if k is True or k is False or type(k) is int: return k
        t = s.T[ty] if ty is not None else None
        if 'f' in k: return T.lit(k['f'], t['bits'])
        if 'zst' in k:
            if t['k'] == 'fndef': return FnV(t['inst']) if t.get('inst') else Opaque('fndef')
            return s.zst(ty)
        if 'e' in k:
            fts = t['v'][k['e']]['f']
            return Enum(k['e'], tuple(s.decode(x, ft) for x, ft in zip(k['a'], fts)), ty)
        if 'a' in k:
            if t['k'] in ('tuple',): return Agg(tuple(s.decode(x, e) for x, e in zip(k['a'], t['e'])), ty)
            if t['k'] == 'array': return Agg(tuple(s.decode(x, t['e']) for x in k['a']), ty)
            if s.P.transp[ty]:
                return s.decode(k['a'][0], t['v'][0]['f'][0])
            if s.P.isvec[ty]:
                return Agg((), ty)
            if t.get('def') == 'std::string::String': return Str('')
            if t['k'] == 'struct':
                return Agg(tuple(s.decode(x, e) for x, e in zip(k['a'], t['v'][0]['f'])), ty)
            raise Unsupported('const agg ' + t['s'])
        if 'str' in k: return Str(k['str'])
        if 'ref' in k: return Ptr(s.gnew(s.decode(k['ref'], s.pointee(ty))))
        if 'slice' in k:
            e = s.T[s.pointee(ty)]['e']
            a = s.gnew(Agg(tuple(s.decode(x, e) for x in k['slice'])))
            return Fat(Ptr(a, (0,)), len(k['slice']))
        if 'static' in k:
            if t is not None and t['k'] == 'ptr': s.mutacc += 1
            return s.static(k['static'])
        if 'fn' in k: return FnV(k['fn'])
        if 'addr' in k: return Opaque(('addr', k['addr']))
        return Opaque(('const', k.get('op')))

    def zst(s, ty):
        t = s.T[ty]
        k = t['k']
        if k == 'tuple': return Agg(tuple(s.zst(e) for e in t['e']), ty)
        if k == 'struct':
            if s.P.transp[ty]: return UNIT
            return Agg(tuple(s.zst(e) for e in t['v'][0]['f']), ty)
        if k == 'array':
            return Agg(tuple(s.zst(t['e']) for _ in range(max(t['n'], 0))), ty)
        if k == 'fndef': return FnV(t['inst']) if t.get('inst') else Opaque(('fndef', t['s']))
        if k == 'closure':
            u = s.T[t['args'][-1]] if t.get('args') and type(t['args'][-1]) is int else None
            return Agg(tuple(s.zst(e) for e in u['e']) if u is not None and u['k'] == 'tuple' else (), ty)
        if k == 'enum':
            return Enum(0, (), ty)
        return UNIT

    def pointee(s, ty):
        t = s.T[ty]
        if t['k'] in ('ref', 'ptr'): return t['e']
        if t.get('def') == 'std::boxed::Box': return t['args'][0]
        return None

    # ---------------------------------------------------------- values
    def resolve(s, v, S):
        while type(v) is IteVal:
            c = simp(S.pc, v.c)
            if c is True: v = v.a
            elif c is False: v = v.b
            else: return v
        return v

    def sharp(s, v, S):
        """resolve or ask for a split"""
        v = s.resolve(v, S)
        if type(v) is IteVal: raise NeedSplit(v.c)
        return v

    def proj(s, v, st, S):
        """project value v by path element st"""
        tv = type(v)
        if tv is IteVal:
            v = s.resolve(v, S); tv = type(v)
        if tv is Agg:
            if type(st) is int:
                if st < len(v.f) and st >= 0: return v.f[st]
                k = s.T[v.ty]['k'] if v.ty is not None else None
                if k in ('tuple', 'closure', 'enum', 'union') or k == 'struct' and not s.P.isvec[v.ty] or k is None and not v.f: raise Unsupported('field %d of %r' % (st, v))
                s.record_ub(S, 'out-of-bounds element %d of %d' % (st, len(v.f)))
            return v
        if tv is Enum:
            if type(st) is int:
                if not 0 <= st < len(v.f): raise Unsupported('field %d of variant %d' % (st, v.v))
                return v.f[st]
            if st[0] == 'd':
                if v.v != st[1]: raise Unsupported('downcast mismatch')
                return v
        if tv is IteVal:
            if type(st) is tuple and st[0] == 'd':
                r = s.arms(v, st[1], S)
                if r is None: raise Unsupported('downcast arms')
                return r
            return mergeval(v.c, s.proj(v.a, st, S), s.proj(v.b, st, S))
        if v is UNINIT: return UNINIT
        if type(st) is int and st == 0 and tv in (Ptr, Fat, int, Node, Str, Opaque, FnV): return v
        if type(st) is tuple: return v
        if tv is Opaque: return Opaque(('proj', v.tag, st))
        if tv is MapV or tv is Str: return Opaque(('proj', st))
        raise Unsupported('proj %r of %r' % (st, v))

    def arms(s, v, vi, S):
        v = s.resolve(v, S)
        if type(v) is Enum: return v if v.v == vi else None
        if type(v) is IteVal:
            a = s.arms(v.a, vi, S); b = s.arms(v.b, vi, S)
            if a is None: return b
            if b is None: return a
            return mergeval(v.c, a, b)
        if v is UNINIT: return None
        return v

    def record_ub(s, S, msg):
        s.ub.append((S.pc, s.sitestr(), msg))
        raise Dead()

    def sitestr(s):
        out = []
        for f, line in reversed(s.stack):
            if f.crate in ('colorspace', 'probe'):
                out.append('%s (%s:%s)' % (f.name, f.file, line[0]))
                if len(out) >= 3: break
        if not out and s.stack:
            f, line = s.stack[-1]
            out.append('%s (%s:%s)' % (f.name, f.file, line[0]))
        return ' <- '.join(out)

    # ---------------------------------------------------------- places
    def lv(s, pl, base, S, fn):
        """place -> (alloc, path, meta)"""
        loc, steps, _ = pl
        a = base + loc; p = (); m = None; view = None
        for st in steps:
            k = st[0]
            if k == 'f':
                if view is not None:
                    p = p[:-1] + (p[-1] + st[1],); view = None
                else:
                    p = p + (st[1],)
                    if m is not None:
                        if not s.unsized(st[4]): m = None
                        elif s.T[st[4]]['k'] == 'slice': p = p + (0,)
            elif k == '*':
                v = s.load(a, p, S)
                v = s.sharp(v, S)
                if type(v) is Ptr: a = v.a; p = v.p; m = None; view = v.v
                elif type(v) is Fat: a = v.p.a; p = v.p.p; m = v.m; view = v.p.v
                elif type(v) is Str:
                    a = s.new(v, S); p = (); m = None
                elif type(v) is Opaque:
                    a = s.new(Opaque(('deref', v.tag)), S); p = (); m = None
                else: raise Unsupported('deref of %r in %s' % (v, fn.name))
            elif k == 'd':
                p = p + (('d', st[1]),)
            elif k == 'i':
                i = S.get(base + st[1])
                i = s.toint(i, S)
                if m is None and view is not None and len(view) == 2:
                    if not 0 <= i < view[0]: s.record_ub(S, 'index %r beyond array of %r' % (i, view[0]))
                    p = p[:-1] + (p[-1] + i,); view = None
                elif m is not None:
                    if i >= m or i < 0: s.record_ub(S, 'index %r beyond slice length %r' % (i, m))
                    p = p[:-1] + (p[-1] + i * (view[0] if view else 1),); m = None
                else: p = p + (i,)
            elif k == 'ci':
                if m is None and view is not None and len(view) == 2:
                    i = view[0] - st[1] if st[2] else st[1]
                    p = p[:-1] + (p[-1] + i,); view = None
                elif m is not None:
                    i = m - st[1] if st[2] else st[1]
                    p = p[:-1] + (p[-1] + i * (view[0] if view else 1),); m = None
                else:
                    i = len(s.load(a, p, S).f) - st[1] if st[2] else st[1]
                    p = p + (i,)
            elif k == 'ss':
                if m is not None:
                    hi = m - st[2] if st[3] else st[2]
                    p = p[:-1] + (p[-1] + st[1] * (view[0] if view else 1),); m = hi - st[1]
                else:
                    n = len(s.load(a, p, S).f)
                    hi = n - st[2] if st[3] else st[2]
                    p = p + (st[1],); m = hi - st[1]
            elif k == 'vec':
                if st[1] == 1:
                    v = s.sharp(s.load(a, p, S), S)
                    a = s.new(len(v.f), S); p = (); m = None
                else:
                    a = s.new(Opaque(('rawvec', a, p)), S); p = ()
            elif k == 'rv':
                pass
            elif k == 'rvi':
                v = s.load(a, p, S)
                if type(v) is Opaque and v.tag[0] == 'rawvec':
                    if st[1] == 0: a = s.new(Ptr(v.tag[1], v.tag[2] + (0,)), S); p = ()
                    else: a = s.new(1 << 40, S); p = ()
                else: raise Unsupported('rawvec access')
            elif k == 'unit':
                a = s.new(UNIT, S); p = ()
        return a, p, m, view

    def tail_len(s, ty):
        t = s.T[ty]
        while t['k'] == 'struct' and t['v'][0]['f']: t = s.T[t['v'][0]['f'][-1]]
        return t['n'] if t['k'] == 'array' else None

    def unsized(s, ty):
        t = s.T[ty]
        if t['k'] in ('slice', 'str', 'dyn', 'dynamic'): return True
        return t['k'] == 'struct' and bool(t['v'][0]['f']) and s.unsized(t['v'][0]['f'][-1])

    def toint(s, i, S):
        if type(i) is int: return i
        if type(i) is Node:
            if i.f is not None: return int(i.f)
            if i.op == 'ite':
                c = simp(S.pc, i.args[0])
                if c is True: return s.toint(i.args[1], S)
                if c is False: return s.toint(i.args[2], S)
                raise NeedSplit(c)
            # some ite inside
            c = first_ite(i)
            if c is not None:
                c2 = simp(S.pc, c)
                if isinstance(c2, bool): return s.toint(T.subst_cond(i, c, c2), S)
                raise NeedSplit(c)
        if type(i) is IteVal:
            return s.toint(s.sharp(i, S), S)
        raise Unsupported('symbolic index %s' % T.show(i, 4) if isinstance(i, Node) else 'index %r' % (i,))

    def load(s, a, p, S, view=None):
        v = S.get(a)
        if view is not None:
            if view[0] == 'raw': raise Unsupported('bytes of a wider value')
            base = s.load(a, p[:-1], S)
            base = s.sharp(base, S)
            i = p[-1]
            if type(base) is not Agg or type(i) is not int: raise Unsupported('view of %r' % (base,))
            if base.cap and i + view[0] > len(base.f) and len(view) == 2:
                base = Agg(base.f + tuple(base.cap[1].get(j, UNWRITTEN) for j in range(len(base.f), base.cap[0])), base.ty)
            if len(view) == 3:
                k = view[2]; n = len(base.f) * k
                if not 0 <= i < n: s.record_ub(S, 'out-of-bounds view read at scalar %d of %d' % (i, n))
                return s.proj(base.f[i // k], i % k, S)
            if i < 0 or i + view[0] > len(base.f): s.record_ub(S, 'out-of-bounds view read [%d..%d) of %d' % (i, i + view[0], len(base.f)))
            return Agg(base.f[i:i + view[0]], view[1])
        for st in p:
            if type(v) is Agg and type(st) is int and 0 <= st < len(v.f): v = v.f[st]
            elif type(v) is Agg and v.cap and type(st) is int and len(v.f) <= st < v.cap[0]: v = v.cap[1].get(st, UNWRITTEN)
            else: v = s.proj(v, st, S)
        return v

    def store(s, a, p, val, S, pl=None, fn=None, view=None):
        if view is not None and view[0] == 'raw': raise Unsupported('bytes of a wider value')
        if view is not None and len(view) == 3:
            k = view[2]
            return s.store(a, p[:-1] + (p[-1] // k, p[-1] % k), val, S)
        if view is not None:
            for j in range(view[0]):
                s.store(a, p[:-1] + (p[-1] + j,), val.f[j], S)
            return
        if not p: S.d[a] = val; return
        v = S.get(a)
        S.d[a] = s.upd(v, p, 0, val, S, pl, fn)

    def upd(s, v, p, i, val, S, pl, fn):
        if i == len(p): return val
        st = p[i]
        v = s.resolve(v, S)
        tv = type(v)
        if tv is Agg and type(st) is int:
            if not (0 <= st < len(v.f)):
                if st < 0 or not v.cap or st >= v.cap[0]: s.record_ub(S, 'out-of-bounds write at %d of %d' % (st, max(len(v.f), v.cap[0] if v.cap else 0)))
                d = dict(v.cap[1]); d[st] = s.upd(d.get(st, UNINIT), p, i + 1, val, S, None, None)
                return Agg(v.f, v.ty, (v.cap[0], d))
            f = v.f
            return Agg(f[:st] + (s.upd(f[st], p, i + 1, val, S, pl, fn),) + f[st + 1:], v.ty, v.cap)
        if tv is Enum:
            if type(st) is tuple:
                if v.v == st[1]: return s.upd(v, p, i + 1, val, S, pl, fn)
                v = UNINIT
            else:
                f = v.f
                return Enum(v.v, f[:st] + (s.upd(f[st], p, i + 1, val, S, pl, fn),) + f[st + 1:], v.ty)
        if tv is IteVal: raise NeedSplit(v.c)
        if v is UNINIT:
            ty = s.tyat(pl, fn, i) if pl else None
            if type(st) is tuple:
                n = len(s.T[ty]['v'][st[1]]['f']) if ty is not None else 1
                e = Enum(st[1], (UNINIT,) * n, ty)
                return s.upd(e, p, i + 1, val, S, pl, fn)
            if ty is not None:
                t = s.T[ty]
                n = len(t['e']) if t['k'] == 'tuple' else (t['n'] if t['k'] == 'array' else (len(t['v'][0]['f']) if t['k'] == 'struct' else None))
                if n is not None:
                    return s.upd(Agg((UNINIT,) * n, ty), p, i, val, S, pl, fn)
        if type(st) is int and st == 0 and i + 1 == len(p): return val
        raise Unsupported('store %r into %r' % (p, v))

    def tyat(s, pl, fn, depth):
        loc, steps, _ = pl
        i = 0
        last = fn.locals[loc]
        for st in steps:
            if st[0] == '*': return None
            if st[0] == 'f':
                if i == depth: return st[2]
                i += 1
            elif st[0] == 'd':
                if i == depth: return st[2]
                i += 1
            else:
                if i == depth: return None
                i += 1
        return None

    def read(s, o, base, S, fn):
        if o[0] == 'k': return s.konst(o[1], o[2])
        loc, steps, _ = o[1]
        if not steps: return S.get(base + loc)
        a, p, m, view = s.lv(o[1], base, S, fn)
        if m is not None: return Fat(Ptr(a, p, view), m)   # unsized place used by value (str/slice)
        return s.load(a, p, S, view)

    # ---------------------------------------------------------- execution
    def run(s, fn, base, bb, stop, S, line):
        while bb != stop:
            if bb == EXIT: return
            stmts, t = fn.block(bb)
            s.steps += len(stmts) + 1
            if s.steps > s.fuel: raise Unsupported('fuel')
            if (s.steps & 255) < 8 and time.time() - s.t0 > s.tlimit: raise Unsupported('time')
            for x in stmts:
                if x[0] == '=': line[0] = x[3]
                try:
                    s.stmt(fn, base, x, S)
                except NeedSplit as e:
                    s.split(e.c, S, lambda C: s.stmt_retry(fn, base, x, C))
            k = t[0]
            if k == 'goto': bb = t[1]
            elif k == 'dropuser': raise Unsupported('drop of a type with its own destructor')
            elif k == 'ret': return
            elif k == 'switch':
                bb = s.switch(fn, base, bb, t, stop, S, line)
            elif k == 'call':
                line[0] = t[5]
                try:
                    s.call(fn, base, t, S)
                except NeedSplit as e:
                    s.split(e.c, S, lambda C: s.call_retry(fn, base, t, C))
                if t[4] < 0: raise Dead()
                bb = t[4]
            elif k == 'assert':
                line[0] = t[5]
                c = s.read(t[1], base, S, fn)
                c = s.tobool(c, S)
                if t[2] is False: c = bnot(c)
                c = simp(S.pc, c)
                if c is not True:
                    s.panic(band(S.pc, bnot(c)), t[4])
                    if c is False: raise Dead()
                    S.pc = band(S.pc, c)
                bb = t[3]
            elif k == 'unreach':
                if feasible(S.pc):
                    if re.search(r'unwrap_unchecked$|unreachable_unchecked$|assert_unchecked$', fn.name): s.record_ub(S, 'reached ' + fn.name.rsplit('::', 1)[1])
                    raise Unsupported('unreachable reached in ' + fn.name)
                raise Dead()
            elif k == 'resume': raise Dead()
            else: raise Unsupported('term ' + str(t[0]))

    def stmt_retry(s, fn, base, x, S):
        try: s.stmt(fn, base, x, S)
        except NeedSplit as e: s.split(e.c, S, lambda C: s.stmt_retry(fn, base, x, C))

    def call_retry(s, fn, base, t, S):
        try: s.call(fn, base, t, S)
        except NeedSplit as e: s.split(e.c, S, lambda C: s.call_retry(fn, base, t, C))

    def split(s, c, S, f):
        """run f on both sides of c, join"""
        cc = simp(S.pc, c)
        alive = []
        for cond in (c, bnot(c)):
            if isinstance(cc, bool):
                if (cond is c) != cc: continue
            C = S.fork(cond)
            if not feasible(C.pc): continue
            try:
                f(C); alive.append((cond, C))
            except Dead: pass
        s.join(S, alive)

    def branch(s, c, S, fa, fb):
        """value-returning two-way branch used by natives"""
        c = simp(S.pc, c)
        if c is True: return fa(S)
        if c is False: return fb(S)
        alive = []; res = []
        for cond, f in ((c, fa), (bnot(c), fb)):
            C = S.fork(cond)
            try:
                res.append(f(C)); alive.append((cond, C))
            except Dead: pass
        s.join(S, alive)
        if len(res) == 1: return res[0]
        return mergeval(c, res[0], res[1])

    def join(s, S, alive):
        if not alive: raise Dead()
        if len(alive) == 1:
            C = alive[0][1]
            S.d.update(C.d); S.pc = C.pc
            return
        s.joins += 1
        keys = {}
        for _, C in alive:
            for k in C.d: keys[k] = 1
        for k in keys:
            vs = [C.get(k) for _, C in alive]
            acc = vs[-1]
            for (cond, _), v in zip(reversed(alive[:-1]), reversed(vs[:-1])):
                acc = mergeval(cond, v, acc)
            S.d[k] = acc
        pc = False
        for _, C in alive: pc = bor(pc, C.pc)
        S.pc = pc

    def tobool(s, c, S):
        if type(c) is bool or type(c) is B: return c
        if type(c) is IteVal: return bite(c.c, s.tobool(c.a, S), s.tobool(c.b, S))
        if type(c) is int: return bool(c)
        if type(c) is Node: return bnot(cond_eq(c, 0))
        if type(c) is Opaque: raise Unsupported('opaque bool %r' % (c,))
        raise Unsupported('bool %r' % (c,))

    def switch(s, fn, base, bb, t, stop, S, line):
        v = s.read(t[1], base, S, fn)
        v = s.resolve(v, S)
        if type(v) is int or type(v) is bool:
            v = int(v)
            for val, tgt in t[2]:
                if val == v: return tgt
            # signed discriminants are printed as unsigned
            for val, tgt in t[2]:
                if v < 0 and (val - v) in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128): return tgt
            return t[3]
        conds = []
        rest = True
        for val, tgt in t[2]:
            c = s.caseq(v, val, S)
            c = simp(S.pc, c)
            if c is False: continue
            conds.append((band(rest, c), tgt))
            rest = band(rest, bnot(c))
            if c is True: break
        if rest is not False:
            conds.append((rest, t[3]))
        feas = [(c, tg) for c, tg in conds if feasible(band(S.pc, c))]
        if len(feas) == 1:
            return feas[0][1]
        if not feas: raise Dead()
        ipd = EXIT if s.partition and fn.crate != 'core' else fn.pdom(bb)
        alive = []
        for c, tg in feas:
            C = S.fork(c)
            try:
                s.run(fn, base, tg, ipd, C, line)
                alive.append((c, C))
            except Dead: pass
        s.join(S, alive)
        return ipd

    def caseq(s, v, val, S):
        if type(v) is bool or type(v) is B:
            return v if val == 1 else bnot(v)
        if type(v) is int: return v == val
        if type(v) is Node:
            if val >= 1 << 127: val -= 1 << 128
            return cond_eq(v, val)
        if type(v) is IteVal: return bite(v.c, s.caseq(v.a, val, S), s.caseq(v.b, val, S))
        raise Unsupported('switch on %r' % (v,))

    def panic(s, pc, msg):
        if not feasible(pc): return
        rec = (pc, s.sitestr(), msg)
        if s.trap: s.trap[-1].append(rec)
        else: s.panics.append(rec)

    # ---------------------------------------------------------- statements
    def assign(s, pl, v, base, S, fn):
        loc, steps, _ = pl
        if not steps: S.d[base + loc] = v; return
        if steps[-1][0] == 'vec':
            if steps[-1][1] != 1: raise Unsupported('write to a vector buffer field')
            a, p, m, view = s.lv((loc, steps[:-1], None), base, S, fn)
            s.setlen(a, p, s.sharp(s.load(a, p, S), S), s.toint(v, S), S)
            return
        a, p, m, view = s.lv(pl, base, S, fn)
        s.store(a, p, v, S, pl, fn, view)

    def setlen(s, a, p, v, n, S):
        cap = max(len(v.f), v.cap[0] if v.cap else 0); sp = dict(v.cap[1]) if v.cap else {}
        if n > cap: s.record_ub(S, 'length raised to %d beyond the guaranteed capacity %d' % (n, cap))
        for i in range(n, len(v.f)): sp[i] = v.f[i]
        f = v.f[:n] + tuple(sp.get(i, UNWRITTEN) for i in range(len(v.f), n))
        s.store(a, p, Agg(f, v.ty, (cap, {i: x for i, x in sp.items() if i >= n}) if cap > n else None), S)

    def stmt(s, fn, base, x, S):
        if x[0] == '=':
            v = s.rvalue(fn, base, x[2], S, x[1][2])
            s.assign(x[1], v, base, S, fn)
        elif x[0] == 'sd':
            a, p, m, view = s.lv(x[1], base, S, fn)
            v = s.load(a, p, S)
            if type(v) is Enum and v.v == x[2]: return
            ty = x[1][2]
            n = len(s.T[ty]['v'][x[2]]['f'])
            s.store(a, p, Enum(x[2], (UNINIT,) * n, ty), S)
        elif x[0] == 'cno':
            src = s.sharp(s.read(x[1], base, S, fn), S); dst = s.sharp(s.read(x[2], base, S, fn), S); n = s.toint(s.read(x[3], base, S, fn), S)
            s.memcpy(src, dst, n, S)

    def memcpy(s, src, dst, n, S):
        vals = [s.deref(s.padd(src, i, S), S) for i in range(n)]
        for i, v in enumerate(vals): s.put(s.padd(dst, i, S), v, S)

    def padd(s, p, n, S):
        if n == 0: return p
        if type(p) is Ptr and p.p and type(p.p[-1]) is int:
            k = p.v[0] if p.v else 1
            if k == 'raw':      # byte pointer into wider elements
                w = s.T[p.v[1]]['size']
                n *= s.T[p.v[2]]['size']
                if n % w: raise Unsupported('byte offset inside an element')
                return Ptr(p.a, p.p[:-1] + (p.p[-1] + n // w,), p.v)
            return Ptr(p.a, p.p[:-1] + (p.p[-1] + n * k,), p.v)
        if type(p) is Ptr and not p.p: raise Unsupported('ptr add on scalar place')
        raise Unsupported('ptr add %r' % (p,))

    def deref(s, p, S):
        p = s.sharp(p, S)
        if type(p) is Ptr: return s.load(p.a, p.p, S, p.v)
        if type(p) is Str: return p
        if type(p) is Fat: return p
        raise Unsupported('deref %r' % (p,))

    def put(s, p, v, S):
        p = s.sharp(p, S)
        if type(p) is not Ptr: raise Unsupported('put %r' % (p,))
        s.store(p.a, p.p, v, S, None, None, p.v)

    def rvalue(s, fn, base, r, S, dty):
        k = r[0]
        if k == 'use': return s.read(r[1], base, S, fn)
        if k == 'ref':
            a, p, m, view = s.lv(r[1], base, S, fn)
            if m is not None: return Fat(Ptr(a, p, view), m)
            v = S.get(a) if not p else None
            if type(v) is Str and r[1][2] is not None and s.T[r[1][2]]['k'] == 'str': return v
            return Ptr(a, p, view)
        if k == 'bin' or k == 'cbin':
            x = s.read(r[2], base, S, fn); y = s.read(r[3], base, S, fn)
            return s.binop(r[1], x, y, r[4], S, k == 'cbin')
        if k == 'un':
            x = s.read(r[2], base, S, fn)
            return s.unop(r[1], x, r[3], S)
        if k == 'cast':
            x = s.read(r[2], base, S, fn)
            return s.cast(r[1], x, r[3], r[4], S)
        if k == 'discr':
            a, p, m, view = s.lv(r[1], base, S, fn)
            d = s.discr(s.load(a, p, S), r[1][2], S)
            return s.wrap(d, dty) if type(d) is int and dty is not None and s.T[dty]['k'] == 'int' else d
        if k == 'len':
            a, p, m, view = s.lv(r[1], base, S, fn)
            if m is not None: return m
            return len(s.sharp(s.load(a, p, S), S).f)
        if k == 'rep':
            x = s.read(r[1], base, S, fn)
            return Agg((x,) * r[2], dty)
        if k == 'agg':
            kk = r[1]; ops = [s.read(o, base, S, fn) for o in r[2]]
            if kk == 'array' or kk == 'tuple': return Agg(tuple(ops), dty)
            if kk[0] == 'adt':
                ty = kk[1]; t = s.T[ty]
                if s.P.transp[ty]: return ops[0] if ops else UNIT
                if t['k'] == 'enum': return Enum(kk[2], tuple(ops), ty)
                if t['k'] == 'union': return ops[0] if ops else UNIT
                return Agg(tuple(ops), ty)
            if kk[0] == 'closure': return Agg(tuple(ops), kk[1])
            if kk[0] == 'rawptr':
                meta = ops[1]
                if type(meta) is Agg: return ops[0]
                if type(meta) in (int, Node): return Fat(s.sharp(ops[0], S), s.toint(meta, S))
                return Fat(ops[0], meta)
            raise Unsupported('aggregate %r' % (kk,))
        if k == 'tls' and len(r) > 1:
            s.mutacc += 1
            return s.static(r[1])
        raise Unsupported('rvalue ' + k)

    def signed(s, t, d):
        """discriminants are dumped as unsigned numbers of the tag's size"""
        b = 8 * t['size']
        if d >= 1 << 127: return d - (1 << 128)
        if t.get('def') == 'std::cmp::Ordering' and d >> 7: return d - 256
        return d

    def discr(s, v, ty, S):
        v = s.resolve(v, S)
        if type(v) is Enum:
            t = s.T[v.ty if v.ty is not None else ty]
            return s.signed(t, t['v'][v.v]['discr'])
        if type(v) is IteVal: return mergeval(v.c, s.discr(v.a, ty, S), s.discr(v.b, ty, S))
        if v is UNINIT:
            if ty is not None and s.T[ty]['size'] == 0 and s.T[ty]['v']: return s.T[ty]['v'][0]['discr']
            return UNINIT
        if type(v) is Opaque: raise Unsupported('discr of %r' % (v,))
        raise Unsupported('discr %r' % (v,))

    def wrap(s, v, ty):
        t = s.T[ty]; b = t['bits'] if 'bits' in t else (32 if t['k'] == 'char' else 64)
        if t['k'] == 'int':
            v &= (1 << b) - 1
            return v - (1 << b) if v >> (b - 1) else v
        return v & ((1 << b) - 1)

    def bounds(s, ty):
        t = s.T[ty]; b = t.get('bits', 64)
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['k'] == 'int' else (0, (1 << b) - 1)

    def phcmp(s, op, x, y):
        """comparison of a placeholder with a constant: an uninterpreted boolean, resolved per element later"""
        for a, b, o in ((x, y, op), (y, x, FLIP[op])):
            if type(a) is Node and a.uid in s.ph[0] and type(b) is Node and b.f is not None:
                k = (o, a.uid, b.f)
                v = s.ph[1].get(k)
                if v is None:
                    v = s.ph[1][k] = (T.var('ph%d' % len(s.ph[1]), -1, 1), s.ph[0][a.uid], o, b.f)
                return T.gt0(v[0])
        return None

    def binop(s, op, x, y, ty, S, checked=False):
        if type(x) is IteVal: x = s.resolve(x, S)
        if type(y) is IteVal: y = s.resolve(y, S)
        if type(x) is IteVal: return mergeval(x.c, s.binop(op, x.a, y, ty, S, checked), s.binop(op, x.b, y, ty, S, checked))
        if type(y) is IteVal: return mergeval(y.c, s.binop(op, x, y.a, ty, S, checked), s.binop(op, x, y.b, ty, S, checked))
        t = s.T[ty] if ty is not None else None
        tx = type(x); tyy = type(y)
        if x is UNINIT or y is UNINIT: return UNINIT
        if (tx is Opaque and x == UNWRITTEN) or (tyy is Opaque and y == UNWRITTEN): s.record_ub(S, 'use of an element that was never written')
        if tx in (Opaque,) or tyy in (Opaque,):
            if op in ('Eq', 'Ne') and tx in (Ptr, Fat) or tyy in (Ptr, Fat):
                o = x if tx is Opaque else y
                if o.tag[0] == 'addr': return op == 'Ne'
            raise Unsupported('binop %s on opaque %r %r' % (op, x, y))
        isf = t is not None and t['k'] == 'float'
        if isf:
            bits = t['bits']
            if s.ph is not None and op in FCMP:
                r = s.phcmp(op, x, y)
                if r is not None: return r
            if op == 'Add': return T.add(x, y, bits)
            if op == 'Sub': return T.sub(x, y, bits)
            if op == 'Mul': return T.mul(x, y, bits)
            if op == 'Div': return T.div(x, y, bits)
            if op == 'Lt': return T.lt(x, y)
            if op == 'Le': return T.le(x, y)
            if op == 'Gt': return T.lt(y, x)
            if op == 'Ge': return T.le(y, x)
            if op == 'Eq': return T.eq(x, y)
            if op == 'Ne': return bnot(T.eq(x, y))
            if op == 'Rem': return T.fn('rem', x, y, bits=bits)
            raise Unsupported('float op ' + op)
        if tx in (bool, B) or tyy in (bool, B):
            if tx is int: x = bool(x)
            if tyy is int: y = bool(y)
            if op == 'BitAnd': return band(x, y)
            if op == 'BitOr': return bor(x, y)
            if op in ('BitXor', 'Ne'): return bxor(x, y)
            if op == 'Eq': return bnot(bxor(x, y))
            if op == 'Lt': return band(bnot(x), y)
            if op == 'Le': return bor(bnot(x), y)
            if op == 'Gt': return band(x, bnot(y))
            if op == 'Ge': return bor(x, bnot(y))
            raise Unsupported('bool op ' + op)
        if tx in (Ptr, Fat) or tyy in (Ptr, Fat):
            if op == 'Offset': return s.padd(s.sharp(x, S), s.toint(y, S), S)
            if op == 'BitAnd' and (tx is int or tyy is int): return 0   # alignment test of a typed pointer
            if op == 'Eq': return x == y
            if op == 'Ne': return not (x == y)
            if tx is Fat: x = x.p
            if tyy is Fat: y = y.p
            if type(x) is Ptr and type(y) is Ptr and x.a == y.a and x.p[:-1] == y.p[:-1]:
                i, j = x.p[-1], y.p[-1]
                if op in ('Lt', 'Le', 'Gt', 'Ge'): return {'Lt': i < j, 'Le': i <= j, 'Gt': i > j, 'Ge': i >= j}[op]
            raise Unsupported('ptr op %s %r %r' % (op, x, y))
        if tx is int and tyy is int:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
            if op == 'Cmp':
                return s.ordering(-1 if x < y else (1 if x > y else 0))
            base = op.replace('Unchecked', '')
            if base == 'Add': r = x + y
            elif base == 'Sub': r = x - y
            elif base == 'Mul': r = x * y
            elif base == 'Div':
                r = abs(x) // abs(y); r = r if (x < 0) == (y < 0) else -r
            elif base == 'Rem':
                r = abs(x) % abs(y); r = -r if x < 0 else r
            elif base == 'BitAnd': r = x & y
            elif base == 'BitOr': r = x | y
            elif base == 'BitXor': r = x ^ y
            elif base == 'Shl': r = x << (y % t['bits'])
            elif base == 'Shr': r = x >> (y % t['bits'])
            else: raise Unsupported('int op ' + op)
            if t['k'] not in ('int', 'uint'):
                return r
            w = s.wrap(r, ty)
            if checked: return Agg((w, w != r))
            if op.endswith('Unchecked') and w != r: s.record_ub(S, 'unchecked %s overflow' % base)
            return w
        if isnum(x) and isnum(y):
            X = num(x); Y = num(y)
            if op in ('Eq', 'Ne'):
                # bit patterns of floats are equal when the floats are
                u, w = unbits(X), unbits(Y)
                if u is not None and w is not None: return T.eq(u, w) if op == 'Eq' else bnot(T.eq(u, w))
            if op == 'Lt': return T.lt(X, Y)
            if op == 'Le': return T.le(X, Y)
            if op == 'Gt': return T.lt(Y, X)
            if op == 'Ge': return T.le(Y, X)
            if op == 'Eq': return T.eq(X, Y)
            if op == 'Ne': return bnot(T.eq(X, Y))
            base = op.replace('Unchecked', '')
            if base in ('Add', 'Sub', 'Mul'):
                r = {'Add': T.add, 'Sub': T.sub, 'Mul': T.mul}[base](X, Y)
                if r.f is None: r.isint = True
                lo, hi = s.bounds(ty)
                rr = T.node_range(r)
                if lo <= rr[0] and rr[1] <= hi: ov = False
                else: ov = bor(T.lt(num(hi), r), T.lt(r, num(lo)))
                if r.f is not None: r = int(r.f)
                if checked: return Agg((r, ov))
                if simp(S.pc, ov) is not False:
                    if base != op: raise Unsupported('possible wrap of symbolic int')
                    return s.symwrap(r, ty)
                return r
            if base in ('Div', 'Rem'):
                if X.op == 'ite' or Y.op == 'ite':
                    n = X if X.op == 'ite' else Y
                    c = n.args[0]
                    def un(z): return int(z.f) if z.f is not None else z
                    if n is X: return mergeval(c, s.binop(op, un(X.args[1]), y, ty, S), s.binop(op, un(X.args[2]), y, ty, S))
                    return mergeval(c, s.binop(op, x, un(Y.args[1]), ty, S), s.binop(op, x, un(Y.args[2]), ty, S))
                r = T.fn('idiv' if base == 'Div' else 'irem', X, Y)
                return r
            x2, y2 = s.deite(x, S), s.deite(y, S)
            if x2 is not x or y2 is not y: return s.binop(op, x2, y2, ty, S, checked)
            if base == 'BitAnd' and type(x) is int: x, y, X, Y = y, x, Y, X
            if type(y) is int and y >= 0:
                if base == 'Shr': return isint(T.fn('floor', T.div(X, num(2 ** (y % t['bits'])))))
                if base == 'Shl':
                    r = isint(T.mul(X, num(2 ** (y % t['bits'])))); lo, hi = s.bounds(ty); rr = T.node_range(r)
                    return r if lo <= rr[0] and rr[1] <= hi else s.symwrap(r, ty)
                if base == 'BitAnd':
                    k = (y & -y).bit_length() - 1
                    if y == 0: return 0
                    m = y >> k
                    if m & (m + 1) == 0:
                        def low(b):
                            rr = T.node_range(X)
                            if 0 <= rr[0] and rr[1] < 2 ** b: return X
                            if simp(S.pc, bor(T.lt(X, T.ZERO), T.lt(num(2 ** b - 1), X))) is False: return X
                            return T.sub(X, T.mul(num(2 ** b), T.fn('floor', T.div(X, num(2 ** b)))))
                        r = low(k + m.bit_length())
                        return isint(T.sub(r, low(k)) if k else r)
            raise Unsupported('symbolic int op ' + op)
        if tx is Str and tyy is Str and op in ('Eq', 'Ne'): return (x == y) == (op == 'Eq')
        if x is UNINIT or y is UNINIT: raise Unsupported('uninit operand')
        raise Unsupported('binop %s %r %r' % (op, x, y))

    def deite(s, x, S):
        """an integer node without alternatives: decided by the path condition, or by a split"""
        while type(x) is Node:
            c = first_ite(x)
            if c is None: break
            c2 = simp(S.pc, c)
            if not isinstance(c2, bool): raise NeedSplit(c)
            x = T.subst_cond(x, c, c2)
            if x.f is not None: return int(x.f)
        return x

    def symwrap(s, x, ty):
        """two's complement wrapping of a symbolic integer"""
        lo, hi = s.bounds(ty); m = hi - lo + 1
        return isint(T.sub(x, T.mul(num(m), T.fn('floor', T.div(T.sub(x, num(lo)), num(m))))))

    def ordering(s, o):
        return Enum({-1: 0, 0: 1, 1: 2}[o], (), s.ord_ty())

    def ord_ty(s):
        if not hasattr(s, '_ordty'):
            s._ordty = next((i for i, t in enumerate(s.T) if t.get('def') == 'std::cmp::Ordering'), None)
        return s._ordty

    def unop(s, op, x, ty, S):
        x = s.resolve(x, S)
        if type(x) is IteVal: return mergeval(x.c, s.unop(op, x.a, ty, S), s.unop(op, x.b, ty, S))
        if op == 'Not':
            if type(x) in (bool, B): return bnot(x)
            if type(x) is int: return s.wrap(~x, ty)
        if op == 'Neg':
            if type(x) is Node and not x.isint or s.T[ty]['k'] == 'float': return T.neg(x)
            if type(x) is int: return s.wrap(-x, ty)
            if type(x) is Node: return T.neg(x)
        if op == 'PtrMetadata':
            if type(x) is Fat: return x.m
            if type(x) is Ptr: return UNIT
            if type(x) is Str: return len(x.s.encode())
        raise Unsupported('unop %s %r' % (op, x))

    def cast(s, kind, x, ty, sty, S):
        x = s.resolve(x, S)
        if type(x) is IteVal and kind not in ('Transmute', 'PtrToPtr'):
            return mergeval(x.c, s.cast(kind, x.a, ty, sty, S), s.cast(kind, x.b, ty, sty, S))
        t = s.T[ty]
        if kind == 'IntToFloat':
            if type(x) is int:
                n = num(x)
                if t['bits'] == 32: n = T.const_raw(n.m, T.f32r(n.f))
                return n
            return x
        if kind == 'FloatToFloat':
            if T.STRICT[0] and s.T[sty]['bits'] != t['bits']:
                if t['bits'] == 32:
                    if x.f is not None and T.f32r(x.f) == x.f: return x
                    if x.isint and x.rng and max(map(abs, x.rng)) <= 2**24: return x
                    n = T.fn('narrow64', x); s.narrow.setdefault(n.uid, s.sitestr()); return n
                if x.f is None: mark = not x.isint and x.op != 'v' and not (x.op == 'fn' and x.args[0] in ('narrow64', 'widen32'))
                else: mark = T.isfin(x) and T.num(x.f).m != x.m
                if mark:
                    n = T.fn('widen32', x); s.narrow.setdefault(n.uid, s.sitestr()); return n
                return x
            if x.f is not None and t['bits'] == 32: return T.fn('narrow', x, bits=32)
            return x
        if kind == 'FloatToInt':
            lo, hi = s.bounds(ty)
            if x.f is not None:
                f = x.f
                if f != f: return 0
                if f in (T.inf, -T.inf): return hi if f > 0 else lo
                return max(lo, min(hi, int(f)))
            n = ('satu' if lo == 0 else 'sati') + str(t['bits'])
            if x.op == 'ite':
                a, b = x.args[1], x.args[2]
                return mergeval(x.args[0], s.cast(kind, a, ty, sty, S), s.cast(kind, b, ty, sty, S))
            r = T.fn(n, x)
            return r
        if kind == 'IntToInt':
            if type(x) in (bool,): return int(x)
            if type(x) is B:
                n = ite(x, T.ONE, T.ZERO); n.isint = True
                return n
            if type(x) is int: return s.wrap(x, ty)
            if type(x) is Enum: return s.wrap(s.signed(s.T[x.ty], s.T[x.ty]['v'][x.v]['discr']), ty)
            lo, hi = s.bounds(ty); r = T.node_range(x)
            if lo <= r[0] and r[1] <= hi: return x
            ov = bor(T.lt(num(hi), x), T.lt(x, num(lo)))
            if simp(S.pc, ov) is False: return x
            x2 = s.deite(x, S)
            if x2 is not x: return s.cast(kind, x2, ty, sty, S)
            return s.symwrap(x, ty)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return s.unsize(x, sty, ty, S)
            if 'ClosureFnPointer' in kind:
                c = s.T[sty]
                return FnV(c.get('fnonce') or c.get('fn') or c.get('fnmut'))
            return x
        if kind == 'PtrToPtr':
            return s.ptrcast(x, sty, ty, S)
        if kind in ('Transmute', 'BoxDerefTransmute'):
            return s.transmute(x, sty, ty, S)
        if kind == 'FnPtrToPtr': return x
        raise Unsupported('cast ' + kind)

    def unsize(s, x, sty, ty, S):
        if type(x) is IteVal: return mergeval(x.c, s.unsize(x.a, sty, ty, S), s.unsize(x.b, sty, ty, S))
        if type(x) is Fat or type(x) is Str: return x
        e = s.pointee(sty)
        while e is None:
            # smart pointer wrapper (NonNull, Pin, ...)
            t = s.T[sty]
            if t['k'] == 'struct' and t['v'][0]['f']: sty = t['v'][0]['f'][0]; e = s.pointee(sty)
            else: break
        et = s.T[e]
        if et['k'] == 'array': return Fat(Ptr(x.a, x.p + (0,)), et['n'])
        if et['k'] == 'struct' and s.unsized(s.pointee(ty)):
            n = s.tail_len(e)
            if n is not None: return Fat(x, n)
        return Fat(x, ('vt', e))

    def ptr_elem(s, ty):
        """pointee type of a pointer-like type (through transparent wrappers)"""
        while ty is not None:
            t = s.T[ty]
            if t['k'] in ('ref', 'ptr'): return t['e']
            if t.get('def') == 'std::boxed::Box': return t['args'][0]
            if t['k'] in ('struct', 'union') and s.P.transp[ty] and t['v'][0]['f']: ty = t['v'][0]['f'][0 if t['k'] == 'struct' else -1]
            elif t['k'] == 'pat': ty = t['e']
            else: return None
        return None

    def ptrcast(s, x, sty, ty, S):
        if type(x) is IteVal: raise NeedSplit(x.c)
        se = s.ptr_elem(sty); de = s.ptr_elem(ty)
        if se is None or de is None or se == de: return x
        st = s.T[se]; dt = s.T[de]
        if type(x) is Fat:
            if dt['k'] in ('slice', 'str', 'dyn'):
                return x
            p = x.p
            if st['k'] == 'slice': return s.ptrcast(p, None, None, S) if de == st['e'] else s.recast(p, st['e'], de, S)
            return p
        if type(x) is Ptr: return s.recast(x, se, de, S)
        if type(x) is Str and dt['k'] not in ('str', 'slice'): return x
        return x

    def recast(s, p, se, de, S):
        if se == de or se is None or de is None: return p
        if p.v is not None and p.v[0] == 'raw':
            se = p.v[1]; p = Ptr(p.a, p.p)
            if se == de: return p
        st = s.T[se]; dt = s.T[de]
        # peel wrappers
        def peel(i):
            while True:
                t = s.T[i]
                if s.P.transp[i] and t['k'] in ('struct', 'union') and t['v'][0]['f']: i = t['v'][0]['f'][0 if t['k'] == 'struct' else -1]
                elif t['k'] == 'pat': i = t['e']
                else: return i
        a, b = peel(se), peel(de)
        if a == b: return p
        st = s.T[a]; dt = s.T[b]
        if st['k'] == 'array' and peel(st['e']) == b:
            if s.inseq(p, S): return Ptr(p.a, p.p[:-1] + (p.p[-1] * st['n'],), (1, b, st['n']))
            return Ptr(p.a, p.p + (0,))
        if dt['k'] == 'array' and peel(dt['e']) == a and p.p and type(p.p[-1]) is int:
            # pointer to first element -> pointer to array
            v = s.load(p.a, p.p[:-1], S)
            if type(v) is Agg and p.p[-1] == 0 and len(v.f) == dt['n']: return Ptr(p.a, p.p[:-1])
            return Ptr(p.a, p.p, (dt['n'], b))
        flat = s.flat(b)
        if flat is not None and p.p and type(p.p[-1]) is int and all(peel(x) == a for x in flat):
            c = s.load(p.a, p.p[:-1], S)
            if type(c) is Agg and c.f and type(c.f[0]) in (Agg, Enum) and p.v is None: return p     # already a sequence of the target type (untyped allocation)
            s.layout(b, S)
            return Ptr(p.a, p.p, (len(flat), b))
        if p.v is not None and peel(p.v[1]) == b: return p
        f2 = s.flat(a)
        if p.v is not None and f2 is not None and all(peel(x) == b for x in f2): s.layout(a, S); return Ptr(p.a, p.p)
        if f2 and all(peel(x) == b for x in f2) and p.v is None and s.inseq(p, S):
            s.layout(a, S)
            return Ptr(p.a, p.p[:-1] + (p.p[-1] * len(f2),), (1, b, len(f2)))
        if f2 is not None and f2 and peel(f2[0]) == b and st['k'] == 'struct':
            s.layout(a, S)
            return Ptr(p.a, p.p + (0,))
        if p.v is None and st['k'] in ('float', 'int', 'uint') and st['size'] > 1 and 0 < dt.get('size', 0) != st['size']: return Ptr(p.a, p.p, ('raw', se, de))
        # unknown reinterpretation: keep provenance (safe when only compared/cast back)
        return Ptr(p.a, p.p, p.v)

    def inseq(s, p, S):
        """does the pointer address an element of a sequence (array, vector, slice allocation)?"""
        if not p.p or type(p.p[-1]) is not int: return False
        v = s.load(p.a, p.p[:-1], S)
        if type(v) is not Agg: return False
        if v.ty is None: return True
        t = s.T[v.ty]
        return t['k'] in ('array', 'slice') or t.get('def') == 'std::vec::Vec'

    def layout(s, ty, S):
        """rule: a struct or tuple of several fields may be viewed as other memory only if its layout is specified"""
        t = s.T[ty]
        if t['k'] == 'tuple': nz = [e for e in t['e'] if s.T[e]['size'] != 0]
        elif t['k'] == 'struct' and re.match(r'colorspace::|probe::', t.get('def') or ''):
            if 'C' in t.get('repr', '').split(',') or 'transparent' in t.get('repr', ''): return
            nz = [e for e in t['v'][0]['f'] if s.T[e]['size'] != 0]
        else: return
        if len(nz) > 1: s.record_ub(S, 'memory view of %s, whose field order is not specified (no #[repr(C)])' % t['s'])

    def flat(s, ty):
        t = s.T[ty]
        if t['k'] == 'struct' and not s.P.isvec[ty]: return list(t['v'][0]['f'])
        if t['k'] == 'array': return [t['e']] * t['n']
        if t['k'] == 'tuple': return list(t['e'])
        return None

    def transmute(s, x, sty, ty, S):
        if sty == ty: return x
        if type(x) in (Ptr, Fat, Str, FnV) or (type(x) is IteVal):
            if type(x) is IteVal and not isinstance(s.resolve(x, S), IteVal): x = s.resolve(x, S)
            if type(x) is IteVal: return x
            t = s.T[ty]
            if t['k'] == 'struct' and not s.P.transp[ty] and len([f for f in t['v'][0]['f'] if s.T[f]['size'] != 0]) == 1 and s.T[ty].get('def') not in ('std::string::String',):
                f = t['v'][0]['f']
                return Agg(tuple(x if s.T[e]['size'] != 0 else s.zst(e) for e in f), ty)
            if type(x) in (Ptr, Fat): return s.ptrcast(x, sty, ty, S)
            return x
        t = s.T[ty]; st = s.T[sty] if sty is not None else None
        if t['k'] in ('ptr', 'ref') and type(x) is Agg:
            # struct wrapping a pointer
            y = x
            while type(y) is Agg and y.f: y = y.f[0]
            return y
        if type(x) is Agg and t['k'] in ('int', 'uint', 'float') and st is not None and st['k'] == 'array' and s.T[st['e']].get('bits') == 8 and all(type(b) is int for b in x.f):
            n = sum((b & 255) << (8 * i) for i, b in enumerate(x.f))
            if t['k'] != 'float': return s.wrap(n, ty)
            return s.transmute(n, next(i for i, q in enumerate(s.T) if q['k'] == 'uint' and q['bits'] == t['bits']), ty, S)
        if type(x) is Agg:
            # same-shape aggregates
            n = s.flat(ty)
            if n is not None:
                nz = [e for e in n if s.T[e]['size'] != 0]
                if len(x.f) == len(n) and len(n) == len(nz):
                    s.layout(ty, S); s.layout(sty, S)
                    return Agg(x.f, ty)
                if len(nz) == 1 and s.T[nz[0]]['size'] == st['size']:
                    inner = s.transmute(x, sty, nz[0], S)
                    return Agg(tuple(inner if s.T[e]['size'] != 0 else s.zst(e) for e in n), ty)
            if s.T[ty]['k'] == 'array' and n is not None:
                # flatten
                fl = flatten(x)
                if len(fl) == len(n): return Agg(tuple(fl), ty)
            if st is not None:
                fs = s.flat(sty)
                if fs is not None:
                    nzi = [i for i, e in enumerate(fs) if s.T[e]['size'] != 0]
                    if len(nzi) == 1: return s.transmute(x.f[nzi[0]], fs[nzi[0]], ty, S)
            if s.P.transp[ty]: return s.transmute(x, sty, t['v'][0]['f'][0 if t['k'] == 'struct' else -1], S)
            if s.T[ty].get('simd') or (st and st.get('simd')):
                return Agg(tuple(flatten(x)), ty)
            raise Unsupported('transmute %s -> %s' % (st and st['s'], t['s']))
        if isinstance(x, (int, Node, bool, B)):
            if s.P.transp[ty]: return x
            if t['k'] == 'struct':
                f = t['v'][0]['f']
                nz = [e for e in f if s.T[e]['size'] != 0]
                if len(nz) == 1: return Agg(tuple(s.transmute(x, sty, e, S) if s.T[e]['size'] != 0 else s.zst(e) for e in f), ty)
            if st is not None and st['k'] == t['k'] and st.get('bits') == t.get('bits'): return x
            if st is not None and st['k'] in ('int', 'uint') and t['k'] in ('int', 'uint') and type(x) is int: return s.wrap(x, ty)
            if st is not None and st['k'] == 'float' and t['k'] in ('uint', 'int'):
                if type(x) is Node and x.f is not None:
                    import struct as _s
                    b = _s.unpack('<I' if t['bits'] == 32 else '<Q', _s.pack('<f' if t['bits'] == 32 else '<d', x.f))[0]
                    return s.wrap(b, ty)
                if type(x) is Node and t['k'] == 'uint': return T.fn('bits%d' % t['bits'], x)
                raise Unsupported('float bits of symbolic')
            if st is not None and st['k'] == 'uint' and t['k'] == 'float' and type(x) is Node and x.op == 'fn' and x.args[0] == 'bits%d' % t['bits']: return x.args[1]
            if st is not None and st['k'] in ('uint', 'int') and t['k'] == 'float' and type(x) is int:
                import struct as _s
                f = _s.unpack('<f' if t['bits'] == 32 else '<d', _s.pack('<I' if t['bits'] == 32 else '<Q', x & ((1 << t['bits']) - 1)))[0]
                return T.num(f) if f == f and f not in (T.inf, -T.inf) else T.nonfin(f)
            if t['k'] in ('ptr', 'ref'): return Opaque(('addr', x))
            if t['k'] == 'pat': return x
            if t['k'] == 'enum' and type(x) is int and t.get('def') == 'std::option::Option' and st is not None and st['size'] == t['size'] and 'NonZero' in t['s']:
                return Enum(1, (x,), ty) if x else Enum(0, (), ty)
            if t['k'] == 'enum' and type(x) is int and all(not v['f'] for v in t['v']):
                for i, v in enumerate(t['v']):
                    if v['discr'] == x: return Enum(i, (), ty)
            if t['k'] == 'char': return x
            if t['k'] == 'array' and s.T[t['e']]['k'] in ('uint', 'int') and type(x) is int and s.T[t['e']]['bits'] == 8:
                return Agg(tuple((x >> (8 * i)) & 255 for i in range(t['n'])), ty)
        if type(x) is Enum:
            if s.P.transp[ty]: return x
            if t['k'] == 'enum' and len(t['v']) == len(st['v']): return Enum(x.v, x.f, ty)
            if t['k'] in ('int', 'uint'): return s.wrap(st['v'][x.v]['discr'], ty)
        if type(x) is Opaque or x is UNINIT: return x
        if s.P.transp[ty] or (st is not None and s.P.transp[sty]): return x
        raise Unsupported('transmute %r %s -> %s' % (x, st and st['s'], t['s']))

    # ---------------------------------------------------------- calls
    def call(s, fn, base, t, S):
        f = s.read(t[1], base, S, fn)
        args = [s.read(a, base, S, fn) for a in t[2]]
        f = s.sharp(f, S)
        if type(f) is not FnV: raise Unsupported('call of %r' % (f,))
        ty = t[1][2] if t[1][0] == 'k' else None
        r = s.invoke(f.inst, args, S, ty, t[3][2], [s.opdty(fn, a) for a in t[2]], from_mir=True)
        s.assign(t[3], r, base, S, fn)

    def opdty(s, fn, a):
        return a[2] if a[0] == 'k' else a[1][2]

    def lookup_native(s, inst):
        k = inst['key']
        r = s.natcache.get(k, 0)
        if r == 0:
            d = inst['def']
            r = NATIVE.get(d) or NATIVE.get(inst['name'])
            if r is None:
                for rx, g in NATIVE_RE:
                    if rx.search(d): r = g; break
            s.natcache[k] = r
        return r

    def invoke(s, inst, args, S, fty=None, dty=None, atys=None, from_mir=False):
        """call an instance with (caller-convention) args"""
        s.calls += 1
        h = s.lookup_native(inst)
        if h is not None:
            cx = Ctx(); cx.inst = inst; cx.dty = dty; cx.atys = atys or [None] * len(args)
            cx.targs = s.T[fty]['args'] if fty is not None and s.T[fty]['k'] == 'fndef' else None
            C = S.fork()
            r = h(s, cx, args, C)
            if r is not NotImplemented:
                S.d.update(C.d); S.pc = C.pc
                s.natives_used[inst['def']] = s.natives_used.get(inst['def'], 0) + 1
                return r
        k = inst['kind']
        if k == 'virtual':
            return s.vcall(inst, args, S, dty)
        body = s.P.compile(inst['key'])
        if body is None or (k == 'intrinsic' and inst.get('intr') in INTR):
            if inst.get('intr') in INTR:
                cx = Ctx(); cx.inst = inst; cx.dty = dty; cx.atys = atys or []
                cx.targs = s.T[fty]['args'] if fty is not None and s.T[fty]['k'] == 'fndef' else None
                return INTR[inst['intr']](s, cx, args, S)
            if k == 'shim': return s.shim(inst, args, S, fty, dty)
            c = s.ctor(inst['def'])
            if c is not None:
                if c[0]: return Enum(c[1], tuple(args), dty if dty is not None and s.T[dty]['k'] == 'enum' else None)
                if dty is not None and s.T[dty].get('def') == inst['def'] and not s.P.transp[dty]: return Agg(tuple(args), dty)
            raise Unsupported('no body: %s [%s]' % (inst['name'], inst['def']))
        # rust-call ABI: closure bodies take untupled arguments
        if body.name.find('{closure') >= 0 and inst['def'].endswith('}') and args:
            args = s.untuple(body, args)
        elif body.spread >= 0:
            pass
        return s.callbody(body, args, S)

    def ctor(s, d):
        """constructor used as a function: (is a variant?, its index)"""
        if not hasattr(s.P, 'ctors'):
            s.P.ctors = {}
            for t in s.T:
                if t['k'] == 'enum':
                    for i, v in enumerate(t['v']): s.P.ctors[t['def'] + '::' + v['name']] = (True, i)
                elif t['k'] == 'struct' and t.get('def'): s.P.ctors[t['def']] = (False, 0)
        return s.P.ctors.get(d)

    def untuple(s, body, args):
        if len(args) == 2 and type(args[1]) is Agg and body.nargs == 1 + len(args[1].f) and body.spread < 0:
            # (closure, (a, b, ..)) -> closure, a, b
            lt = s.T[body.locals[2]] if body.nargs >= 2 else None
            at = s.T[args[1].ty] if args[1].ty is not None else None
            if lt is not None and at is not None and body.locals[2] == args[1].ty: return args
            return [args[0]] + list(args[1].f)
        if len(args) == 2 and type(args[1]) is Agg and not args[1].f and body.nargs == 1: return [args[0]]
        return args

    def callbody(s, body, args, S):
        if len(args) != body.nargs:
            if body.spread >= 0 and len(args) == body.nargs: pass
            elif len(args) == body.nargs + 1 and type(args[-1]) is Agg and not args[-1].f: args = args[:-1]
            elif len(args) == 2 and type(args[1]) is Agg and len(args[1].f) + 1 == body.nargs: args = [args[0]] + list(args[1].f)
            else: raise Unsupported('arity %s: %d vs %d' % (body.name, len(args), body.nargs))
        mkey = None
        if body.memo is not False and body.crate == 'colorspace':
            if body.memo is None:
                body.memo = all(s.memo_ty(t) for t in body.locals[1:1 + body.nargs]) and s.memo_ty(body.locals[0], True)
            if body.memo:
                try:
                    mkey = (body.key, S.pc if isinstance(S.pc, bool) else S.pc.uid, s.partition, tuple(s.ckey(a, S) for a in args))
                except Unsupported: mkey = None
                if mkey is not None:
                    r = s.memo.get(mkey)
                    if r is not None:
                        s.memohits += 1
                        S.pc = r[1]
                        return r[0]
        st0 = s.steps; ev0 = (len(s.panics), len(s.ub), len(s.obl), len(s.effects), s.mutacc, sum(map(len, s.trap)))
        base = s.nalloc + 1
        s.nalloc += body.nl + 1
        d = S.d
        for i, a in enumerate(args): d[base + 1 + i] = a
        s.visited[body.key] = s.visited.get(body.key, 0) + 1
        line = [0]
        s.stack.append((body, line))
        if len(s.stack) > 200: raise Unsupported('recursion')
        n = len(s.stack)
        try:
            s.run(body, base, 0, EXIT, S, line)
        except Unsupported as e:
            if not hasattr(e, 'site'):
                e.site = ' <- '.join('%s:%s' % (f.name[:90], l[0]) for f, l in reversed(s.stack[-6:]))
            raise
        finally:
            del s.stack[n - 1:]
        r = S.get(base)
        if r is UNINIT:
            rt = s.T[body.locals[0]]
            if rt['size'] == 0: r = s.zst(body.locals[0])
        for i in range(base, base + body.nl):
            d.pop(i, None)
        if body.memo:
            if s.steps - st0 < 1500: body.memo = False
            elif mkey is not None and ev0 == (len(s.panics), len(s.ub), len(s.obl), len(s.effects), s.mutacc, sum(map(len, s.trap))):
                s.memo[mkey] = (r, S.pc)
        return r

    def memo_ty(s, ty, ret=False, seen=()):
        """types whose values are plain data (shared references allowed as arguments)"""
        t = s.T[ty]; k = t['k']
        if k in ('bool', 'char', 'int', 'uint', 'float', 'never'): return True
        if k == 'ref':
            if ret or t['mut']: return False
            e = s.T[t['e']]
            if e['k'] == 'str': return True
            return s.memo_ty(e['e'] if e['k'] == 'slice' else t['e'], True)
        if k == 'array': return s.memo_ty(t['e'], ret)
        if k == 'tuple': return all(s.memo_ty(e, ret) for e in t['e'])
        if k in ('struct', 'enum'):
            if s.P.isvec[ty]: return s.memo_ty(t['args'][0], True)
            if t['def'].startswith('std::') and t['def'] not in ('std::option::Option', 'std::result::Result', 'std::ops::Range', 'std::marker::PhantomData'): return False
            if ty in seen: return False
            return all(s.memo_ty(f, True, seen + (ty,)) for v in t['v'] for f in v['f'])
        return False

    def ckey(s, v, S):
        tv = type(v)
        if tv in (int, bool, str): return v
        if tv is Node: return v.uid
        if tv is Agg or tv is Enum:
            c = s.ckc.get(id(v))
            if c is None:
                c = (tv is Enum and v.v, tuple(s.ckey(x, S) for x in v.f))
                c = s.ckin.setdefault(c, len(s.ckin))
                s.ckc[id(v)] = c
                s.keep.append(v)
            return ('a', c)
        if tv is Ptr: return ('p', s.ckey(s.load(v.a, v.p, S, v.v), S))
        if tv is Fat and type(v.m) is int:
            return ('s', v.m, tuple(s.ckey(s.deref(s.padd(v.p, i, S), S), S) for i in range(v.m)))
        if tv is Str: return ('t', v.s)
        if tv is B: return ('b', v.uid)
        if tv is IteVal: return ('i', v.c.uid, s.ckey(v.a, S), s.ckey(v.b, S))
        raise Unsupported('ckey')

    def vcall(s, inst, args, S, dty):
        recv = s.sharp(args[0], S)
        if type(recv) is Fat and type(recv.m) is tuple:
            ty = recv.m[1]
            t = s.T[ty]
            if t['k'] in ('closure', 'fndef', 'fnptr'):
                tup = args[1]
                return s.callfn(recv.p, ty, list(tup.f), S, byref=True)
            nx = t.get('next')
            if nx and inst['def'].endswith('Iterator::next'):
                return s.invoke(nx, [recv.p], S)
        raise Unsupported('virtual call %s' % inst['name'])

    def callfn(s, f, ty, args, S, byref=False):
        """call a callable value; f = value (or Ptr to it when byref), ty its type"""
        if byref:
            p = f
            v = s.deref(p, S)
        else:
            v = s.sharp(f, S); p = None
        t = s.T[ty] if ty is not None else None
        if type(v) is Ptr and t is not None and t['k'] in ('ref',):
            return s.callfn(v, t['e'], args, S, byref=True)
        if type(v) is FnV:
            return s.invoke(v.inst, args, S)
        if type(v) is Fat and type(v.m) is tuple:
            return s.callfn(v.p, v.m[1], args, S, byref=True)
        if type(v) is Ptr and t is not None and t.get('def') == 'std::boxed::Box':
            return s.callfn(v, t['args'][0], args, S, byref=True)
        if type(v) is Agg:
            cty = v.ty if v.ty is not None else ty
            c = s.T[cty]
            if c['k'] != 'closure': raise Unsupported('call of %s' % c['s'])
            for kind in ('fn', 'fnmut', 'fnonce'):
                i = c.get(kind)
                if i: break
            else: raise Unsupported('closure body')
            body = s.P.compile(i['key'])
            if body is None: raise Unsupported('closure body missing')
            selft = s.T[body.locals[1]]
            if selft['k'] in ('ref', 'ptr'):
                if p is None: p = Ptr(s.new(v, S))
                recv = p
            else: recv = v
            return s.callbody(body, [recv] + args, S)
        raise Unsupported('callfn %r' % (v,))

    def shim(s, inst, args, S, fty, dty):
        d = inst['def']
        if d.startswith('std::ops::Fn') or d.startswith('core::ops::Fn'):
            if inst.get('st') is not None and (fty is None or s.T[fty]['k'] != 'fndef'):
                # a capture-less closure as a function pointer
                return s.callfn(Agg((), inst['st']), inst['st'], list(args), S)
            targs = s.T[fty]['args'] if fty is not None else [None]
            tup = args[1]
            if type(tup) is not Agg: raise Unsupported('shim args')
            recv = args[0]
            ty = targs[0]
            if d.endswith('call_once'): return s.callfn(recv, ty, list(tup.f), S)
            return s.callfn(recv, ty, list(tup.f), S, byref=True)
        if d.endswith('drop_in_place') or 'drop' in d: return UNIT
        if d.endswith('Clone::clone'):
            return s.clone(s.deref(args[0], S), S)
        raise Unsupported('shim %s' % inst['name'])

    def clone(s, v, S):
        """structural clone (boxed contents copied)"""
        if type(v) is Agg: return Agg(tuple(s.clone(x, S) for x in v.f), v.ty)
        return v

    # ---------------------------------------------------------- iteration
    def iter_next(s, ptr, ty, S):
        t = s.T[ty]
        while t['k'] == 'ref':
            ptr = s.deref(ptr, S); ty = t['e']; t = s.T[ty]
        if t.get('def') == 'std::boxed::Box':
            b = s.deref(ptr, S)
            return s.iter_next(b, t['args'][0], S)
        if t['k'] == 'dyn':
            f = s.sharp(ptr, S)
            return s.iter_next(f.p, f.m[1], S)
        n = t.get('next')
        if n is None: raise Unsupported('no next for ' + t['s'])
        return s.invoke(n, [ptr], S)

    def drain(s, ptr, ty, S, limit=20000):
        """collect all items of the iterator at ptr -> python list or IteVal-of-lists via callback"""
        out = []
        while True:
            r = s.iter_next(ptr, ty, S)
            r = s.resolve(r, S)
            if type(r) is Enum:
                if r.v == 0: return out
                out.append(r.f[0])
                if len(out) > limit: raise Unsupported('unbounded iterator')
                continue
            raise SymIter(out, r)

    def collect(s, ptr, ty, S, acc, fin, depth=0):
        """drain iterator; fin(list, S) -> value; forks when the length is input dependent"""
        if depth > 220: raise Unsupported('deep symbolic iteration')
        acc = list(acc)
        while True:
            r = s.resolve(s.iter_next(ptr, ty, S), S)
            if type(r) is Enum:
                if r.v == 0: return fin(acc, S)
                acc.append(r.f[0])
                if len(acc) > 20000: raise Unsupported('unbounded iterator')
                continue
            if type(r) is IteVal:
                some = bnot(s.caseq(s.discr(r, None, S), 0, S))
                def fa(C):
                    rr = s.arms(r, 1, C)
                    return s.collect(ptr, ty, C, acc + [rr.f[0]], fin, depth + 1)
                return s.branch(some, S, fa, lambda C: fin(acc, C))
            raise Unsupported('iterator item %r' % (r,))


class SymIter(Exception):
    def __init__(s, out, r): s.out = out; s.r = r


def flatten(x):
    if type(x) is Agg:
        o = []
        for y in x.f: o += flatten(y)
        return o
    return [x]


def unbits(n):
    """the float a bit pattern came from"""
    if n.op == 'fn' and n.args[0] in ('bits64', 'bits32'): return n.args[1]
    return None


def cond_eq(n, val):
    """boolean: Node n == val, pushed through ite"""
    if n.f is not None: return n.f == val
    if n.op == 'ite':
        return bite(n.args[0], cond_eq(n.args[1], val), cond_eq(n.args[2], val))
    return T.eq(n, num(val))


def first_ite(n, seen=None):
    if not n.hasite: return None
    if seen is None: seen = set()
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.uid in seen or not x.hasite: continue
        seen.add(x.uid)
        if x.op == 'ite': return x.args[0]
        st.extend(a for a in x.args if isinstance(a, Node))
    return None
