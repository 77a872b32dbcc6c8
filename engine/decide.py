"""Deciding obligations collected by the abstract interpreter.

zero      the residual's normal form is 0 in every feasible region of the joined state
holds     the condition is implied by the path condition
panics    no path returns        returns   no path panics

An obligation is *refuted* only when its normal form is non-zero AND the value graph has a
concrete point (inside the declared input domain and the region's conditions) where the
residual exceeds the tolerance; it is *discharged* when the normal form is zero ('exact'),
or when it is zero up to rounding of the decimal literals in the source ('literal-rounding');
otherwise it is 'undecided' and never reported as an alarm.
"""
import math, random, time
import terms as T
from terms import num, band, bnot, B, Node, ATOMS, bmk
from interp import feasible, simp

LEAF_LIMIT = 4000


def single_var(L):
    """L = a*x+b or a*|x|+b : (var, a, b, isabs)"""
    dd, c0 = T.affine(L)
    if len(dd) != 1: return None
    (t, c), = dd.items()
    if t.op == 'v': return t, c.f, c0.f, False
    if t.op == 'fn' and t.args[0] == 'abs':
        u, cu = T.affine(t.args[1])
        if len(u) == 1 and cu.f == 0:
            (v, k), = u.items()
            if v.op == 'v' and abs(k.f) == 1: return v, c.f, c0.f, True
    return None


def literals(b, rnd, tries=20):
    """a random satisfying path of the BDD"""
    def go(b):
        path = []
        while not isinstance(b, bool):
            opts = [(v, n) for v, n in ((True, b.hi), (False, b.lo)) if n is not False]
            v, n = rnd.choice(opts)
            path.append((b.a, v)); b = n
        return path
    return go(b)


class Sampler:
    def __init__(s, seed):
        s.rnd = random.Random(seed)

    def draw(s, lo, hi, isint):
        r = s.rnd
        if isint:
            lo = -1000 if lo == -T.inf else lo; hi = 1000 if hi == T.inf else hi
            return float(r.randint(math.ceil(lo), math.floor(hi)))
        if lo == -T.inf and hi == T.inf:
            return r.choice((-1, 1)) * 10 ** r.uniform(-3, 3)
        if hi == T.inf: return lo + 10 ** r.uniform(-4, 3)
        if lo == -T.inf: return hi - 10 ** r.uniform(-4, 3)
        k = r.random()
        w = hi - lo
        if k < 0.6: return lo + w * r.random()
        if k < 0.75: return lo + w * 10 ** r.uniform(-9, 0)
        if k < 0.9: return hi - w * 10 ** r.uniform(-9, 0)
        return r.choice((lo, hi)) if k > 0.95 else lo + w * r.random()

    def point(s, vs, pc):
        """env for variables vs satisfying pc (or None)"""
        rng = {}
        for n, v in vs.items(): rng[n] = [v.rng[0], v.rng[1], v.isint]
        sign = {}
        order = []
        if pc is not True:
            for a, val in literals(pc, s.rnd):
                kind, L, t = ATOMS[a]
                sv = single_var(L)
                if sv is None: continue
                v, k, c, isabs = sv
                if k == 0: continue
                th = (t.f - c) / k
                name = v.args[0]
                if name not in rng: continue
                r = rng[name]
                gt = (kind == 'gt') == True
                if kind == 'eq':
                    if val:
                        if isabs: th = abs(th) * s.rnd.choice((-1, 1))
                        r[0] = r[1] = th
                    continue
                up = val if k > 0 else not val
                if isabs:
                    if not up: r[0] = max(r[0], -abs(th)); r[1] = min(r[1], abs(th))
                    else:
                        if s.rnd.random() < .5 and r[1] > th: r[0] = max(r[0], th)
                        elif r[0] < -th: r[1] = min(r[1], -th)
                        else: r[0] = max(r[0], th)
                elif up: r[0] = max(r[0], th)
                else: r[1] = min(r[1], th)
        env = {}
        for n, (lo, hi, ii) in rng.items():
            if lo > hi: return None
            env[n] = s.draw(lo, hi, ii)
        if pc is not True and not T.evalb(pc, env, {}): return None
        return env

    def repair(s, vs, pc, deadline):
        """a point of a thin region: start anywhere, then move one variable at a time towards the violated conditions"""
        r = s.rnd
        lits = literals(pc, r)
        env = {n: s.draw(v.rng[0], v.rng[1], v.isint) for n, v in vs.items()}
        avars = {a: [n for n in T.nvars(ATOMS[a][1]) if n in vs] for a, _ in lits}

        def margin(a, e, memo):
            # keep clear of the round-off of the evaluation
            kind, L, t = ATOMS[a]
            dd, c0 = T.affine(L)
            return 1e-9 * (abs(t.f) + abs(c0.f or 0) + sum(abs(c.f) * abs(T.evalf(x, e, memo)) for x, c in dd.items() if c.f is not None) + (0 if all(x.op == 'v' for x in dd) else 1e-3))

        def viol(e):
            memo = {}; out = []
            for a, val in lits:
                kind, L, t = ATOMS[a]
                x = T.evalf(L, e, memo)
                if x != x or ((x > t.f) if kind == 'gt' else (x == t.f)) != val or (kind == 'gt' and abs(x - t.f) < margin(a, e, memo)): out.append((a, val))
            return out
        bad = viol(env)
        for _ in range(12 + len(lits)):
            if not bad: return env
            if time.time() > deadline: return None
            a, val = r.choice(bad)
            if not avars[a]: return None
            n = r.choice(avars[a]); v = vs[n]; lo, hi = v.rng
            kind, L, t = ATOMS[a]

            def g(x): return T.evalf(L, dict(env, **{n: x}), {}) - t.f
            cand = [s.draw(lo, hi, v.isint) for _ in range(8)]
            if lo > -T.inf: cand.append(lo)
            if hi < T.inf: cand.append(hi)
            if not v.isint:
                pts = sorted(cand + [env[n]])
                vals = [g(x) for x in pts]
                br = [(pts[i], pts[i + 1]) for i in range(len(pts) - 1) if vals[i] == vals[i] and vals[i + 1] == vals[i + 1] and (vals[i] > 0) != (vals[i + 1] > 0)]
                if br:
                    x0, x1 = r.choice(br); up = g(x1) > 0
                    for _ in range(60):
                        m = (x0 + x1) / 2
                        if m == x0 or m == x1: break
                        if (g(m) > 0) == up: x1 = m
                        else: x0 = m
                    w = max(abs(x0), 1e-9)
                    for x in (x0, x1):
                        cand += [x, x + w * 10 ** r.uniform(-12, -1), x - w * 10 ** r.uniform(-12, -1)]
            best = None
            for x in cand:
                if not (lo <= x <= hi): continue
                e = dict(env, **{n: x})
                b = viol(e)
                if best is None or len(b) < len(best[1]): best = (e, b)
            if best and (len(best[1]) <= len(bad) or r.random() < 0.3): env, bad = best
        return env if not bad else None


class Result:
    def __init__(s, status, how='', wit=None, val=None, leaves=0):
        s.status = status; s.how = how; s.wit = wit; s.val = val; s.leaves = leaves


def _vars(*xs):
    out = {}; seen = set()
    for x in xs:
        if x is None or isinstance(x, bool): continue
        T.nvars(x, out, seen)
    return out


thin = [0.0, 10.0]     # seconds spent, and to be spent at most, on thin regions (per root)


def witness(pc, test, vs, seed, tries):
    S = Sampler(seed)
    hit = 0; v = None; env = None
    for _ in range(tries):
        env = S.point(vs, pc)
        if env is None: continue
        hit += 1
        v = test(env)
        if v is not None: return env, v, hit
    if hit < 10 and pc is not True and pc is not False and thin[0] < thin[1]:
        t0 = time.time()
        for _ in range(24):
            env = S.repair(vs, pc, t0 + 1.5)
            if time.time() - t0 > 1.5: break
            if env is None or not T.evalb(pc, env, {}): continue
            hit += 1
            v = test(env)
            if v is not None: break
        thin[0] += time.time() - t0
        if env is not None and v is not None: return env, v, hit
    return None, None, hit


def decide_zero(o, seed, tries=200):
    r, pc, tol, sc = o['r'], o['pc'], o['tol'], o['sc']
    if pc is False or not feasible(pc): return Result('ok', 'vacuous')
    if r.f is not None:
        s = 1.0
        if sc is not None:
            s = max([1.0] + [abs(x.f) for x in sc if x.f is not None and T.isfin(x)])
        if r.m == 0 or abs(r.f) <= tol * s: return Result('ok', 'exact' if r.m == 0 else 'literal-rounding', leaves=1)
        env, _, hit = witness(pc, lambda e: 1, _vars(pc), seed, 2000)
        if pc is True or env is not None: return Result('bad', 'constant residual', env, r.f)
        return Result('undecided', 'no witness for region')
    # region split
    leaves = []
    stack = [(r, pc)]
    try:
        while stack:
            n, p = stack.pop()
            if not feasible(p): continue
            if n.hasite:
                if len(leaves) + len(stack) > LEAF_LIMIT: raise T.Budget()
                c = T.find_ite(n).args[0]
                a = bmk(c.a, True, False)
                stack.append((T.subst_cond(n, a, True), band(p, a)))
                stack.append((T.subst_cond(n, a, False), band(p, bnot(a))))
            else: leaves.append((n, p))
    except T.Budget:
        leaves = [(r, pc)]
    how = 'exact'; und = 0
    vs_all = _vars(r, pc)
    for i, (n, p) in enumerate(leaves):
        if n.f is not None and n.m == 0: continue
        if n.f is None and n.m == 0: continue
        vs = _vars(n, p, *(sc or ()))
        pv = points_of(p)
        if pv:
            n2 = substitute(n, pv)
            if n2.m == 0: continue

        def test(env):
            memo = {}
            v = T.evalf(n, env, memo)
            s = 1.0
            if sc is not None:
                for x in sc:
                    y = abs(T.evalf(x, env, memo))
                    if y == y and y != T.inf: s = max(s, y)
            if v != v or abs(v) > tol * s: return v if v == v else 'NaN'
            return None
        env, v, hit = witness(p, test, vs, seed + i, tries)
        if env is not None:
            # confirm on the un-split graph
            return Result('bad', 'non-zero normal form', {k: env[k] for k in sorted(env)}, v, len(leaves))
        if hit >= 10: how = 'literal-rounding'
        else: und += 1
    if und:
        # thin regions (measure-zero or empty by non-linear arithmetic): closed by continuity of the neighbouring
        # regions, but not counted as proved
        return Result('ok', how + '+thin:%d' % und, leaves=len(leaves)) if und < len(leaves) else Result('undecided', 'no point found in any region', leaves=len(leaves))
    return Result('ok', how, leaves=len(leaves))


def points_of(p):
    """variables pinned by single-path equality literals of p"""
    out = {}
    b = p
    while not isinstance(b, bool):
        kind, L, t = ATOMS[b.a]
        if b.lo is False and kind == 'eq':
            sv = single_var(L)
            if sv and not sv[3] and sv[1] != 0: out[sv[0].args[0]] = T.div(T.sub(t, num(sv[2])), num(sv[1]))
            elif sv and sv[3] and t.f == 0 and sv[2] == 0: out[sv[0].args[0]] = T.ZERO
            b = b.hi
        elif b.lo is False: b = b.hi
        elif b.hi is False: b = b.lo
        else: break
    return out


def substitute(n, env, memo=None):
    if memo is None: memo = {}
    if n.f is not None: return n
    r = memo.get(n.uid)
    if r is not None: return r
    if n.op == 'v': r = env.get(n.args[0], n)
    elif n.op == 'ite': r = T.ite(n.args[0], substitute(n.args[1], env, memo), substitute(n.args[2], env, memo))
    else:
        args = [substitute(a, env, memo) for a in (n.args[1:] if n.op == 'fn' else n.args)]
        r = T.rebuild(n.op, n, args)
    memo[n.uid] = r
    return r


def decide_holds(o, seed, tries=400):
    bad = band(o['pc'], bnot(o['b']))
    return decide_unreachable(bad, seed, tries)


def decide_unreachable(bad, seed, tries=400):
    if bad is False or not feasible(bad): return Result('ok', 'exact', leaves=1)
    if bad is True: return Result('bad', 'always', {}, None)
    env, v, hit = witness(bad, lambda e: 1, _vars(bad), seed, tries)
    if env is not None: return Result('bad', 'reachable', {k: env[k] for k in sorted(env)})
    return Result('undecided', 'condition not refuted, no witness')


def decide_double(o, seed, tries=600):
    """the value must not depend on a narrowing to single precision: no such node in its value graph.  Refuted only
    with a point at which the narrowing changes the result by more than double precision rounding could."""
    r, pc = o['r'], o['pc']
    if pc is False or not feasible(pc): return Result('ok', 'vacuous')
    ns = T.narrowed(r)
    if not ns: return Result('ok', 'exact', leaves=1)
    for n in ns:
        if n.op == 'c': return Result('bad', 'depends on the constant %r, which was rounded to single precision' % n.f, {}, n.f, len(ns))

    def test(env):
        try:
            T.STRICT[1] = True; a = T.evalf(r, env, {})
            T.STRICT[1] = False; b = T.evalf(r, env, {})
        finally: T.STRICT[1] = True
        return a if abs(a - b) > 1e-10 * max(abs(a), abs(b)) + 1e-14 else None
    env, v, hit = witness(pc, test, _vars(r, pc), seed, tries)
    where = sorted({o['where'].get(n.uid, '?') for n in ns})[:4]
    if env is not None: return Result('bad', 'computed through single precision at ' + '; '.join(where), {k: env[k] for k in sorted(env)}, v, len(ns))
    return Result('undecided', 'narrowed without visible effect at ' + '; '.join(where), leaves=len(ns))


def decide(o, seed):
    k = o['kind']
    if k == 'double': return decide_double(o, seed)
    if k == 'zero': return decide_zero(o, seed)
    if k == 'holds': return decide_holds(o, seed)
    if k == 'panics':     # must panic: returning states must be infeasible
        return decide_unreachable(o['ret'] if o['ret'] is not False else False, seed)
    if k == 'returns':
        b = False
        for pc, site, msg in o['traps']: b = T.bor(b, pc)
        return decide_unreachable(b, seed)
    raise ValueError(k)
