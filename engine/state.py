"""Models of shared mutable state: cells, locks, atomics, one-time initialisation, hash maps.  A single thread runs at a
time (no obligation of the probe spawns threads), so locks always succeed and a guard is a pointer to the data."""
import terms as T
from terms import num, B, Node, bnot, band
from interp import *
from interp import native, native_re, intr, NATIVE, simp
from natives import opt, NATIVE_RE


def fidx(I, ty, name):
    return I.T[ty]['v'][0]['fn'].index(name)


def fpath(I, ty, name):
    """path step(s) to a field of a struct type"""
    return () if I.P.transp[ty] else (fidx(I, ty, name),)


def mkstruct(I, ty, **kw):
    t = I.T[ty]
    if I.P.transp[ty]: return next(iter(kw.values()))
    out = []
    for n, f in zip(t['v'][0]['fn'], t['v'][0]['f']):
        if n in kw: out.append(kw[n])
        elif I.T[f]['size'] == 0: out.append(I.zst(f))
        else: out.append(Opaque(('guard', n)))
    return Agg(tuple(out), ty)


def selfptr(I, cx, a, S):
    p = I.sharp(a[0], S)
    if type(p) is not Ptr: raise Unsupported('lock %r' % (p,))
    t = I.T[cx.atys[0]]
    return p, t['e']


def ok_type(I, dty):
    t = I.T[dty]
    return t['v'][0]['f'][0]


# ------------------------------------------------------------- locks and cells
@native('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock')
def _(I, cx, a, S):
    I.mutacc += 1
    p, ty = selfptr(I, cx, a, S)
    return Enum(0, (mkstruct(I, ok_type(I, cx.dty), lock=p),), cx.dty)


@native('std::sync::RwLock::<T>::read', 'std::sync::RwLock::<T>::write', 'std::sync::RwLock::<T>::try_read', 'std::sync::RwLock::<T>::try_write')
def _(I, cx, a, S):
    I.mutacc += 1
    p, ty = selfptr(I, cx, a, S)
    g = ok_type(I, cx.dty)
    d = Ptr(p.a, p.p + fpath(I, ty, 'data'))
    fn = I.T[g]['v'][0]['fn']
    v = mkstruct(I, g, lock=p) if 'lock' in fn else mkstruct(I, g, data=d)
    return Enum(0, (v,), cx.dty)


@native_re(r'^std::cell::RefCell::<T>::(borrow|borrow_mut|try_borrow|try_borrow_mut)$')
def _(I, cx, a, S):
    I.mutacc += 1
    p, ty = selfptr(I, cx, a, S)
    t = cx.inst['def'].rsplit('::', 1)[1].startswith('try_')
    g = ok_type(I, cx.dty) if t else cx.dty
    v = mkstruct(I, g, value=Ptr(p.a, p.p + fpath(I, ty, 'value')))
    return Enum(0, (v,), cx.dty) if t else v


# ------------------------------------------------------------- atomics
ATOM = {'fetch_add': lambda x, y: x + y, 'fetch_sub': lambda x, y: x - y, 'fetch_and': lambda x, y: x & y, 'fetch_or': lambda x, y: x | y, 'fetch_xor': lambda x, y: x ^ y,
        'fetch_max': max, 'fetch_min': min}


@native_re(r'^(std|core)::sync::atomic::Atomic.*::(load|store|swap|fetch_add|fetch_sub|fetch_and|fetch_or|fetch_xor|fetch_max|fetch_min|compare_exchange|compare_exchange_weak|compare_and_swap|fetch_update|get_mut|into_inner)$')
def _(I, cx, a, S):
    I.mutacc += 1
    m = cx.inst['def'].rsplit('::', 1)[1]
    if m in ('fetch_update', 'get_mut', 'into_inner'): return NotImplemented
    p, ty = selfptr(I, cx, a, S)
    isb = 'bool' in cx.inst['name']
    old = I.resolve(I.deref(p, S), S)
    while type(old) is Agg and len(old.f) == 1:
        p = Ptr(p.a, p.p + (0,)); old = I.resolve(old.f[0], S)
    if isb and type(old) is int: old = bool(old)
    if type(old) is Opaque: raise Unsupported('atomic %r' % (old,))
    if m != 'load':
        up = m == 'fetch_add' and type(a[1]) is int and a[1] > 0 and I.counters.get((p.a, p.p), ('add',))[0] == 'add'
        I.counters[(p.a, p.p)] = ('add' if up else 'other', p, cx.dty if up else None)
    if m == 'load': return old
    if m == 'store': I.put(p, a[1], S); return UNIT
    if m == 'swap': I.put(p, a[1], S); return old
    if m.startswith('compare'):
        c = (old == a[1]) if not isinstance(old, (Node, B, IteVal)) and not isinstance(a[1], (Node, B, IteVal)) else I.tobool(I.binop('Eq', old, a[1], None, S), S)
        c = simp(S.pc, c)
        if not isinstance(c, bool): raise NeedSplit(c)
        if c: I.put(p, a[2], S)
        return Enum(0 if c else 1, (old,), cx.dty)
    if isb:
        x, y = old, a[1]
        r = {'fetch_and': band(x, y), 'fetch_or': T.bor(x, y), 'fetch_xor': I.binop('BitXor', x, y, None, S)}[m]
        I.put(p, r, S); return old
    elty = cx.dty
    if type(old) is int and type(a[1]) is int: r = I.wrap(ATOM[m](old, a[1]), elty)
    elif m in ('fetch_add', 'fetch_sub'): r = I.binop('Add' if m == 'fetch_add' else 'Sub', old, a[1], elty, S)
    else: raise Unsupported('atomic ' + m)
    I.put(p, r, S)
    return old


# ------------------------------------------------------------- one-time initialisation
MARK = Opaque(('initialised',))


def once_state(I, p, S):
    """the value cell of a OnceLock/OnceCell: (initialised?, pointer to the value)"""
    v = I.sharp(I.deref(p, S), S)
    if type(v) is Agg and len(v.f) == 2 and I.sharp(v.f[0], S) == MARK: return True, Ptr(p.a, p.p + (1,))
    return False, None


def captures(v):
    return type(v) is Agg and bool(v.f)


@native_re(r'^std::sync::OnceLock::<T>::(get_or_init|get|set|get_mut_or_init)$|^std::cell::OnceCell::<T>::(get_or_init|get|set)$')
def once(I, cx, a, S):
    m = cx.inst['def'].rsplit('::', 1)[1]
    p = I.sharp(a[0], S)
    k = (p.a, p.p)
    if m == 'get_or_init' and k in I.lazy: return Ptr(I.lazy[k])
    if m == 'get_or_init' and not captures(a[1]) and p.a in I.statics.values():
        # initialised by its own code: the same value whenever it happens
        v = I.callfn(a[1], cx.atys[1], [], I.G)
        I.lazy[k] = I.gnew(v)
        return Ptr(I.lazy[k])
    I.mutacc += 1
    ini, q = once_state(I, p, S)
    if m == 'get':
        if k in I.lazy: return opt(I, cx, Ptr(I.lazy[k]))
        return opt(I, cx, q) if ini else opt(I, cx)
    if m == 'set':
        if ini: return Enum(1, (a[1],), cx.dty)
        I.put(p, Agg((MARK, a[1])), S)
        return Enum(0, (UNIT,), cx.dty)
    if not ini:
        v = I.callfn(a[1], cx.atys[1], [], S)
        I.put(p, Agg((MARK, v)), S)
        q = Ptr(p.a, p.p + (1,))
    return q


@native_re(r'^std::sync::Once::(call_once|call_once_force|is_completed)$')
def _(I, cx, a, S):
    I.mutacc += 1
    p = I.sharp(a[0], S)
    done = I.sharp(I.deref(p, S), S) == MARK
    if cx.inst['def'].endswith('is_completed'): return done
    if not done:
        if cx.inst['def'].endswith('force'): raise Unsupported('call_once_force')
        I.callfn(a[1], cx.atys[1], [], S)
        I.put(p, MARK, S)
    return UNIT


def lazy_force(I, cx, a, S):
    p = I.sharp(a[0], S); k = (p.a, p.p)
    if k not in I.lazy:
        t = I.T[cx.atys[0]]
        ft = I.T[t['e']]['args'][1]
        v = I.sharp(I.deref(p, S), S)
        fv = findfn(v)
        if fv is None:
            if I.T[ft]['k'] == 'closure': fv = Agg((), ft)
            else: raise Unsupported('LazyLock %r' % (v,))
        I.lazy[k] = None
        I.lazy[k] = I.gnew(I.callfn(fv, ft, [], I.G))
    if I.lazy[k] is None: raise Unsupported('recursive lazy')
    return Ptr(I.lazy[k])


def findfn(v):
    if type(v) is FnV: return v
    if type(v) is Agg:
        for x in v.f:
            r = findfn(x)
            if r is not None: return r
    return None


NATIVE['std::sync::LazyLock::<T, F>::force'] = lazy_force
NATIVE['<std::sync::LazyLock<T, F> as std::ops::Deref>::deref'] = lazy_force
NATIVE['std::cell::LazyCell::<T, F>::force'] = lazy_force


@native_re(r'thread_local::native::(lazy|eager)::Storage|thread::local_impl::\w*Storage|sys::thread_local')
def tls(I, cx, a, S):
    I.mutacc += 1
    d = cx.inst['def']
    p = I.sharp(a[0], S)
    if d.endswith('::get') and 'ager' in d: return Ptr(p.a, p.p)
    if d.endswith('get_or_init'):
        k = (p.a, p.p)
        if k not in I.lazy: I.lazy[k] = I.gnew(I.callfn(a[2], cx.atys[2], [], I.G))
        return Ptr(I.lazy[k])
    return NotImplemented


# ------------------------------------------------------------- maps and sets
# entries live in their own allocations, so that references to them are stable; MapV.kv = ((key, alloc of value), ...)
COLL = r'std::collections::(?:HashMap|BTreeMap|HashSet|BTreeSet)'


def mapkey(I, k, S):
    """key as a plain comparable value: Str, int, or a tuple of those and value-graph nodes"""
    k = I.sharp(k, S)
    while type(k) is Ptr: k = I.sharp(I.deref(k, S), S)
    if type(k) in (Str, int, bool): return k
    if type(k) is Node:
        u = unbits(k)
        return ('bits', u) if u is not None else k
    if type(k) is Agg: return ('agg',) + tuple(mapkey(I, x, S) for x in k.f)
    if type(k) is Enum: return ('enum', k.v) + tuple(mapkey(I, x, S) for x in k.f)
    if type(k) is Fat and type(k.m) is int: return ('agg',) + tuple(mapkey(I, I.deref(I.padd(k.p, i, S), S), S) for i in range(k.m))
    raise Unsupported('map key %r' % (k,))


def keyeq(a, b):
    if type(a) is Node or type(b) is Node:
        if type(a) in (Str, tuple) or type(b) in (Str, tuple): return False
        return T.eq(num(a) if type(a) is int else a, num(b) if type(b) is int else b)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b): return False
        c = True
        for x, y in zip(a, b): c = band(c, keyeq(x, y) if not isinstance(x, str) else x == y)
        return c
    if type(a) is tuple or type(b) is tuple: return False
    return a == b


def find(I, m, k, S):
    for i, (kk, al, orig) in enumerate(m.kv):
        c = simp(S.pc, keyeq(kk, k))
        if c is True: return i
        if c is not False: raise NeedSplit(c)
    return None


def ptr_map(I, p, S):
    p = I.sharp(p, S); m = I.sharp(I.deref(p, S), S)
    while type(m) is Ptr: p = m; m = I.sharp(I.deref(p, S), S)
    while type(m) is Agg and len(m.f) == 1: m = I.sharp(m.f[0], S); p = Ptr(p.a, p.p + (0,))
    if type(m) is Agg and len(m.f) == 4 and type(m.f[0]) is Enum and m.f[0].v == 0 and m.f[1] == 0:
        m = MapV((), m.ty); I.put(p, m, S)          # an empty B-tree built at compile time
    if type(m) is not MapV: raise Unsupported('map %r' % (m,))
    return p, m


def meth(cx): return cx.inst['def'].rsplit('::', 1)[1]


@native_re('^' + COLL + r'::<[KT].*>::(new|with_capacity)$|^<' + COLL + r'<.*> as std::default::Default>::default$')
def _(I, cx, a, S): return MapV((), cx.dty)


def order(I, m, p):
    """entries in iteration order: sorted for B-trees; for hash maps unspecified, hence not the insertion order"""
    kv = list(m.kv)
    if 'BTree' in I.T[m.ty].get('def', '') if m.ty is not None else False:
        if all(type(k) is int for k, _, _ in kv): return sorted(kv, key=lambda e: e[0])
        if all(type(k) is Str for k, _, _ in kv): return sorted(kv, key=lambda e: e[0].s)
        raise Unsupported('order of symbolic keys')
    import random, zlib
    r = random.Random('%s/%s' % (p.a, p.p))      # every map has its own hasher keys
    r.shuffle(kv)
    return kv


@native_re('^' + COLL + r'::<[KT].*>::(insert|get|get_mut|contains_key|contains|remove|len|is_empty|clear|entry|get_or_insert_with|keys|values|values_mut|iter|iter_mut|into_values|into_keys|get_key_value|remove_entry|drain)$|^<' + COLL + r'<.*> as std::ops::Index<&Q>>::index$')
def mapm(I, cx, a, S):
    me = meth(cx)
    p, m = ptr_map(I, a[0], S) if type(I.sharp(a[0], S)) is not MapV else (Ptr(I.new(a[0], S)), I.sharp(a[0], S))
    isset = 'Set::' in cx.inst['def'].split('>::')[0]
    if me in ('len', 'is_empty'): return len(m.kv) if me == 'len' else not m.kv
    if me == 'clear': I.put(p, MapV((), m.ty), S); return UNIT
    if me in ('keys', 'values', 'values_mut', 'iter', 'iter_mut', 'into_values', 'into_keys', 'drain'):
        es = order(I, m, p)
        if me in ('keys',) or isset and me == 'iter': es = [Ptr(I.new(o, S)) for k, al, o in es]
        elif me in ('values', 'values_mut'): es = [Ptr(al) for k, al, o in es]
        elif me == 'into_values': es = [I.load(al, (), S) for k, al, o in es]
        elif me == 'into_keys': es = [o for k, al, o in es]
        elif me == 'drain':
            es = [Agg((o, I.load(al, (), S))) for k, al, o in es]
            I.put(p, MapV((), m.ty), S)
        else: es = [Agg((Ptr(I.new(o, S)), Ptr(al))) for k, al, o in es]
        return MapIter(tuple(es))
    k = mapkey(I, a[1], S)
    i = find(I, m, k, S)
    if me == 'insert':
        if isset:
            if i is None: I.put(p, MapV(m.kv + ((k, I.new(UNIT, S), a[1]),), m.ty), S)
            return i is None
        al = I.new(a[2], S)
        if i is None:
            I.put(p, MapV(m.kv + ((k, al, a[1]),), m.ty), S)
            return opt(I, cx)
        old = I.load(m.kv[i][1], (), S)
        I.put(p, MapV(m.kv[:i] + ((k, al, m.kv[i][2]),) + m.kv[i + 1:], m.ty), S)
        return opt(I, cx, old)
    if me in ('contains_key', 'contains'): return i is not None
    if me == 'index':
        if i is None: I.panic(S.pc, 'no entry found for key %r' % (k,)); raise Dead()
        return Ptr(m.kv[i][1])
    if me == 'entry': return Opaque(('entry', p, k, i, a[1]))
    if i is None: return opt(I, cx)
    if me in ('get', 'get_mut'): return opt(I, cx, Ptr(I.new(m.kv[i][2], S)) if isset else Ptr(m.kv[i][1]))
    if me in ('remove', 'remove_entry'):
        I.put(p, MapV(m.kv[:i] + m.kv[i + 1:], m.ty), S)
        if isset: return True
        v = I.load(m.kv[i][1], (), S)
        return opt(I, cx, v if me == 'remove' else Agg((m.kv[i][2], v)))
    raise Unsupported('map ' + me)


@native_re(r'^std::collections::(hash_map|btree_map)::(\w+::)*Entry::<.*>::(or_insert|or_insert_with|or_default|or_insert_with_key|and_modify)$')
def entry(I, cx, a, S):
    e = I.sharp(a[0], S)
    if type(e) is not Opaque or e.tag[0] != 'entry': raise Unsupported('entry %r' % (e,))
    _, p, k, i, ko = e.tag
    me = meth(cx)
    m = I.sharp(I.deref(p, S), S)
    if me == 'and_modify':
        if i is not None: I.callfn(a[1], cx.atys[1], [Ptr(m.kv[i][1])], S)
        return e
    if i is not None: return Ptr(m.kv[i][1])
    if me == 'or_insert': v = a[1]
    elif me == 'or_insert_with': v = I.callfn(a[1], cx.atys[1], [], S)
    else: raise Unsupported('entry ' + me)
    m = I.sharp(I.deref(p, S), S)
    al = I.new(v, S)
    I.put(p, MapV(m.kv + ((k, al, ko),), m.ty), S)
    return Ptr(al)


class MapIter(Agg):
    """remaining items of a map iteration"""
    __slots__ = ()


@native_re(r'^<std::collections::(hash_map|btree_map|hash_set|btree_set)::(\w+::)*(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain)<.*> as std::iter::(Double\w+)?Iterator>::next(_back)?$')
def mapnext(I, cx, a, S):
    p = I.sharp(a[0], S); v = I.sharp(I.deref(p, S), S)
    if type(v) is not MapIter: raise Unsupported('map iterator %r' % (v,))
    if not v.f: return opt(I, cx)
    if cx.inst['def'].endswith('_back'):
        I.put(p, MapIter(v.f[:-1]), S); return opt(I, cx, v.f[-1])
    I.put(p, MapIter(v.f[1:]), S)
    return opt(I, cx, v.f[0])


@native_re(r'^<std::collections::(hash_map|btree_map|hash_set|btree_set)::(\w+::)*(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain)<.*> as std::iter::(ExactSizeIterator>::len|Iterator>::size_hint|Iterator>::count)$')
def maplen(I, cx, a, S):
    v = I.sharp(a[0], S)
    if type(v) is Ptr: v = I.sharp(I.deref(v, S), S)
    if type(v) is not MapIter: raise Unsupported('map iterator %r' % (v,))
    if meth(cx) != 'size_hint': return len(v.f)
    t = I.T[cx.dty]
    return Agg((len(v.f), Enum(1, (len(v.f),), t['e'][1])), cx.dty)


@native_re(r'^<&.*' + COLL + r'<.*> as std::iter::IntoIterator>::into_iter$|^<' + COLL + r'<.*> as std::iter::IntoIterator>::into_iter$')
def mapinto(I, cx, a, S):
    v = I.sharp(a[0], S)
    isset = 'Set<' in cx.inst['def'].split(' as ')[0]
    if type(v) is Ptr:
        p, m = ptr_map(I, v, S)
        es = order(I, m, p)
        return MapIter(tuple(Ptr(I.new(o, S)) if isset else Agg((Ptr(I.new(o, S)), Ptr(al))) for k, al, o in es))
    if type(v) is MapV:
        es = order(I, v, Ptr(id(v) % 97))
        return MapIter(tuple(o if isset else Agg((o, I.load(al, (), S))) for k, al, o in es))
    raise Unsupported('map into_iter %r' % (v,))


@native_re(r'^<' + COLL + r'<.*> as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)$|^<' + COLL + r'<.*> as std::convert::From<\[.*\]>>::from$')
def mapfrom(I, cx, a, S):
    isset = 'Set<' in cx.inst['def'].split(' as ')[0]
    me = meth(cx)
    if me == 'from': items = list(I.sharp(a[0], S).f); p = None; kv = ()
    else:
        src = a[0] if me == 'from_iter' else a[1]
        sty = cx.atys[0 if me == 'from_iter' else 1]
        v = I.sharp(src, S)
        if type(v) is Agg and I.P.isvec[sty]: items = list(v.f)
        elif type(v) is Agg and I.T[sty]['k'] == 'array': items = list(v.f)
        else: items = I.drain(Ptr(I.new(v, S)), sty, S)
        if me == 'extend': p, m = ptr_map(I, a[0], S); kv = m.kv
        else: p = None; kv = ()
    m = MapV(kv, cx.dty if p is None else m.ty)
    for it in items:
        it = I.sharp(it, S)
        ko, v = (it, UNIT) if isset else it.f
        k = mapkey(I, ko, S)
        i = find(I, m, k, S)
        al = I.new(v, S)
        m = MapV(m.kv + ((k, al, ko),) if i is None else m.kv[:i] + ((k, al, m.kv[i][2]),) + m.kv[i + 1:], m.ty)
    if p is None: return m
    I.put(p, m, S)
    return UNIT
