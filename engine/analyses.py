"""Whole-program analyses over the dumped MIR (call graph, types), beside the value analysis of the roots."""
import os, re
REPO = '/repo'


def result(name, cfg, obs, fns=()):
    return dict(root='analysis::%s@%s' % (name, cfg), err=None, obs=obs, wall=0.0, steps=0, joins=0, calls=0, partition=False, memohits=0, fns=sorted(fns), effects=[], nfns=len(fns))


def ob(kind, label, site, status, how='exact', value=None):
    return dict(kind=kind, label=label, site=site, status=status, how=how, witness=None, value=value, leaves=1, expr=None)


def calls(P, f):
    """(callee instance or None, callee name, line, unsafe?) for each call terminator of a dumped function"""
    for b in f['blocks']:
        t = b['t']
        if t[0] != 'call': continue
        c = t[1]
        inst = None
        if 'k' in c and c.get('t') is not None and P.T[c['t']]['k'] == 'fndef': inst = P.T[c['t']].get('inst')
        yield inst, t[5], bool(t[6]) if len(t) > 6 else False


def fname(f): return '%s @ %s' % (f['name'], f['span'].split('/repo/')[-1])


def unsafe_ops(P, f):
    """unsafe operations written in f: calls of unsafe functions and dereferences of raw pointers"""
    out = []
    for inst, line, us in calls(P, f):
        if us: out.append((line, 'call ' + (inst['name'] if inst else 'through a pointer')))
    T = P.T
    def derefs(x):
        if isinstance(x, dict): return any(derefs(y) for y in x.values())
        if isinstance(x, list):
            if len(x) >= 2 and type(x[0]) is int and x[1] == '*' and x[0] < len(f['locals']) and T[f['locals'][x[0]]]['k'] == 'ptr': return True
            return any(derefs(y) for y in x)
        return False
    for b in f['blocks']:
        for s in b['s']:
            if s[0] == '=' and (derefs(s[1]) or derefs(s[2])): out.append((s[3], 'dereference of a raw pointer'))
    return out


def source_unsafe():
    """(file, first line, last line) of every unsafe block, function, impl or trait in the sources"""
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for n in sorted(fs):
            if not n.endswith('.rs') or '/bin' in d: continue
            p = os.path.join(d, n)
            s = open(p, errors='replace').read()
            blank = lambda m: re.sub(r'[^\n]', ' ', m.group(0))
            s = re.sub(r'"(?:\\.|[^"\\])*"', blank, re.sub(r'//[^\n]*|/\*.*?\*/', blank, s, flags=re.S), flags=re.S)
            for m in re.finditer(r'\bunsafe\b', s):
                i = s.find('{', m.end())
                if i < 0: continue
                k = i; dep = 0
                while k < len(s):
                    if s[k] == '{': dep += 1
                    elif s[k] == '}':
                        dep -= 1
                        if dep == 0: break
                    k += 1
                out.append((os.path.relpath(p, REPO), s.count('\n', 0, m.start()) + 1, s.count('\n', 0, k) + 1))
    return out


def unsafe(P, prop, cfg, seed, results, seen_ops):
    obs = []; fns = set()
    visited = set()
    for r in results:
        if r['root'].endswith('@' + cfg): visited |= set(r.get('vis', ()))
    for k, f in P.fns.items():
        if f['crate'] != 'colorspace': continue
        ops = unsafe_ops(P, f)
        if not ops: continue
        fns.add(fname(f))
        file = f['span'].split('/repo/')[-1].rsplit(':', 1)[0]
        for line, what in ops:
            seen_ops.append((file, line))
            obs.append(ob('unsafe', 'unsafe operation analysed: ' + what, '%s:%s in %s' % (file, line, f['name']), 'ok' if k in visited else 'undecided', 'exact' if k in visited else 'the function is not reached from any obligation'))
    return result('unsafe-sites', cfg, obs, fns)


def unsafe_source(seen_ops):
    obs = []
    for file, a, b in source_unsafe():
        hit = any(f == file and a <= l <= b for f, l in seen_ops)
        obs.append(ob('unsafe', 'unsafe code in the sources is covered', '%s:%d-%d' % (file, a, b), 'ok' if hit else 'undecided', 'exact' if hit else 'no analysed operation inside (not compiled in these configurations, or never reached)'))
    return result('unsafe-sources', 'source', obs)


# ---------------------------------------------------------------- effects
FORBIDDEN = [
    (r'^(std|core)::env::(?!Args as)', 'the environment of the process'),
    (r'^(std|core)::time::(Instant|SystemTime)\b|time::.*::now$', 'the clock'),
    (r'^std::fs::|^std::net::|^std::os::(unix|linux)::(fs|net)', 'files or the network'),
    (r'^std::process::', 'other processes'),
    (r'^std::thread::(current|spawn|available_parallelism|sleep|Thread::id)|^std::thread::ThreadId', 'the running thread'),
    (r'^std::io::(stdin|Stdin)', 'standard input'),
    (r'(^|::)rand(_core|_chacha)?::|getrandom|^std::hash::random::|RandomState as .*BuildHasher|std::collections::hash_map::RandomState::new', 'random numbers'),
    (r'^(std|core)::arch::.*(_rdtsc|_rdrand|_rdseed|__cpuid)', 'the processor'),
]
# only building or iterating maps, whose order the value analysis already treats as unspecified
TOLERATED = re.compile(r'hash_map::RandomState::new|RandomState as|^std::hash::random::')


def mut_statics(P, f):
    """static mut items the function takes the address of (their address has raw pointer type in MIR)"""
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if 'k' in x and x.get('t') is not None and P.T[x['t']]['k'] == 'ptr' and isinstance(x['k'], dict):
                out.update(find(x['k']))
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    def find(k):
        r = []
        if isinstance(k, dict):
            for a, b in k.items():
                if a == 'static' and isinstance(b, str): r.append(b)
                else: r += find(b)
        elif isinstance(k, list):
            for b in k: r += find(b)
        return r
    walk(f['blocks'])
    return sorted(out)


def effects(P, prop, cfg, seed, results, acc):
    """rule: no function of the crate reachable from a public one may call anything whose result is not determined by the arguments"""
    rx = [(re.compile(a), b) for a, b in FORBIDDEN]
    obs = []; fns = set(); n = 0
    # functions of the crate and of the libraries reachable from them
    start = [k for k, f in P.fns.items() if f['crate'] == 'colorspace']
    via = {k: None for k in start}
    todo = list(start)
    while todo:
        k = todo.pop()
        f = P.fns[k]
        if f['crate'] == 'probe': continue
        if f['crate'] == 'colorspace': fns.add(fname(f))
        if f['crate'] not in ('std', 'core', 'alloc'):
            for s in mut_statics(P, f): obs.append(ob('effect', 'unsynchronised access to the mutable static ' + s, fname(f), 'bad', 'MIR'))
        for inst, line, us in calls(P, f):
            n += 1
            if inst is None: continue
            name = inst['def'] if 'def' in inst else inst['name']
            for r, what in (rx if f['crate'] not in ('std', 'core', 'alloc') else ()):
                if (r.search(name) or r.search(inst['name'])) and not TOLERATED.search(inst['name']):
                    path = []; j = k
                    while j is not None: path.append(P.fns[j]['name']); j = via[j]
                    obs.append(ob('effect', 'reads ' + what + ': ' + inst['name'], '%s:%s in %s' % (f['span'].split('/repo/')[-1].rsplit(':', 1)[0], line, ' <- '.join(path[:4])), 'bad', 'call graph'))
            kk = inst.get('key')
            if kk in P.fns and kk not in via:
                via[kk] = k; todo.append(kk)
    obs.append(ob('effect', 'no call reaches the environment, clock, files, network, threads or random numbers (%d call sites in %d functions)' % (n, len(via)), 'call graph', 'ok'))
    return result('effects', cfg, obs, fns)
