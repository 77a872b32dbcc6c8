#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: build the probe, dump MIR, analyse, decide, write evidence."""
import sys, os, json, time, subprocess, threading, multiprocessing as mp, hashlib, fcntl, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
REPO = '/repo'


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    if env: e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot'])[1].strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'driver')], {'RUSTC_BOOTSTRAP': '1'}, os.path.join(VERIF, 'driver'))
    if rc: print(out); raise SystemExit('driver build failed')
    return os.path.join(BUILD, 'driver', 'debug', 'mirdump')


FLAGS = {'base': '', 'avx': ' -C target-feature=+avx,+avx2,+fma'}


def build_probe(drv, feature, cfg, out, fmt=False):
    src = os.path.join(VERIF, 'probe')
    # repo path dependency: cargo tracks /repo's sources; force the probe crate itself to be re-dumped
    env = {'LD_LIBRARY_PATH': sysroot() + '/lib', 'MIRDUMP_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_INCREMENTAL': '0',
           'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Zcross-crate-inline-threshold=never' + FLAGS[cfg], 'MIRDUMP_TAG': str(time.time_ns())}
    if fmt: env['MIRDUMP_FMT'] = '1'
    lock = open(os.path.join(BUILD, 'lock-' + cfg), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.utime(os.path.join(src, 'src', 'lib.rs'))
    if os.path.exists(out): os.remove(out)
    args = ['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'probe-' + cfg), '--no-default-features', '--features', feature]
    rc, o = sh(args, env, src)
    if rc == 0 and not os.path.exists(out): rc = 99
    return rc, o


# ------------------------------------------------------------------ one root
def run_root(job):
    dump, root, key, seed, extra = job
    import interp, natives, state, terms as T, decide
    res = {'root': root}
    P = PROG.get(dump)
    if P is None: P = PROG[dump] = interp.Program(dump)
    t0 = time.time()
    for part in (False, True):
        left = min(extra['tlimit'], extra['deadline'] - time.time())
        if left < 1 and part: err = 'time'; break
        I = interp.Interp(P, tlimit=max(left, 0.5))
        I.root = root; I.partition = part
        T.STRICT[0] = bool(extra.get('strict'))
        T.budget[0] = 150000 if not part else 2000000
        err = None
        try:
            I.callbody(P.compile(key), [], I.G)
        except T.Budget: err = 'budget'
        except interp.Unsupported as e: err = 'unsupported: %s @ %s' % (e, getattr(e, 'site', ''))
        except interp.Dead: pass
        except interp.NeedSplit: err = 'unsplit'
        except RecursionError: err = 'recursion'
        if err is None: break
    T.budget[0] = 3000000
    obs = []
    if err is None:
        for o in I.obl:
            if time.time() > extra['deadline'] + 40: obs.append(dict(kind=o['kind'], label=o['label'], site=o['site'], status='undecided', how='time', witness=None, value=None, leaves=0)); continue
            try: r = decide.decide(o, seed)
            except T.Budget: r = decide.Result('undecided', 'budget')
            obs.append(dict(kind=o['kind'], label=o['label'], site=o['site'], status=r.status, how=r.how, witness=fmtw(r.wit), value=r.val if not isinstance(r.val, float) or r.val == r.val else 'NaN', leaves=r.leaves,
                            expr=(T.show(o['r'], 4)[:300] if o['kind'] == 'zero' and r.status == 'bad' else None)))
        for pc, site, msg in I.panics:
            r = decide.decide_unreachable(pc, seed)
            obs.append(dict(kind='panic', label='panic: ' + msg, site=site, status=r.status, how=r.how, witness=fmtw(r.wit), value=None, leaves=1))
        for pc, site, msg in I.ub:
            r = decide.decide_unreachable(pc, seed)
            obs.append(dict(kind='ub', label='undefined behaviour: ' + msg, site=site, status=r.status, how=r.how, witness=fmtw(r.wit), value=None, leaves=1))
        if not I.panics and not I.ub:
            obs.append(dict(kind='total', label='no reachable panic or out-of-bounds access', site=root, status='ok', how='exact', witness=None, value=None, leaves=1))
    res.update(err=err, obs=obs, wall=time.time() - t0, steps=I.steps, joins=I.joins, calls=I.calls, partition=part, memohits=I.memohits,
               fns=sorted({P.fns[k]['name'] + ' @ ' + P.fns[k]['span'].split('/repo/')[-1] for k in I.visited if P.fns[k]['crate'] == 'colorspace'}),
               effects=I.effects, nfns=len(I.visited), vis=[k for k in I.visited if P.fns[k]['crate'] == 'colorspace'])
    return res


PROG = {}


def fmtw(w):
    if w is None: return None
    ks = sorted(w)
    return {k.split('.', 1)[-1]: w[k] for k in ks[:24]}


def worker(jobs, conn):
    def go():
        for j in jobs:
            try: conn.send(run_root(j))
            except Exception as e:
                import traceback
                conn.send({'root': j[1], 'err': 'internal: ' + repr(e) + traceback.format_exc()[-1500:], 'obs': [], 'wall': 0, 'steps': 0, 'joins': 0, 'calls': 0, 'partition': False, 'memohits': 0, 'fns': [], 'effects': [], 'nfns': 0})
        conn.send(None)
    if os.environ.get('VERIF_TRACE'):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['VERIF_TRACE']), exit=True)
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go); t.start(); t.join()


def run_jobs(jobs, nproc=8):
    """dynamic pool: one process per root, at most nproc at a time"""
    res = []
    pend = list(jobs); live = []
    while pend or live:
        while pend and len(live) < nproc:
            j = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=([j], b)); p.start(); b.close()
            live.append((p, a, j))
        for x in list(live):
            p, a, j = x
            if a.poll(0.01):
                try:
                    r = a.recv()
                    res.append(r)
                except EOFError:
                    res.append({'root': j[1], 'err': 'crashed', 'obs': [], 'wall': 0, 'steps': 0, 'joins': 0, 'calls': 0, 'partition': False, 'memohits': 0, 'fns': [], 'effects': [], 'nfns': 0})
                p.join(5); live.remove(x)
            elif not p.is_alive() and not a.poll(0):
                res.append({'root': j[1], 'err': 'crashed', 'obs': [], 'wall': 0, 'steps': 0, 'joins': 0, 'calls': 0, 'partition': False, 'memohits': 0, 'fns': [], 'effects': [], 'nfns': 0})
                live.remove(x)
    return sorted(res, key=lambda r: r['root'])


def whole_program(spec, prop, cfgs, dumps, seed, results):
    import analyses
    out = []
    for an in spec.get('analyses', []):
        acc = []
        for cfg in cfgs: out.append(getattr(analyses, an)(PROG[dumps[cfg]], prop, cfg, seed, results, acc))
        if hasattr(analyses, an + '_source'): out.append(getattr(analyses, an + '_source')(acc))
    return out


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) root=(\S+) label="([^"]*)"\s*(.*)$', l)
            if m: out.append(m.groups())
    return out


def main(argv):
    import props
    prop = argv[0]
    spec = props.PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = argv[1] if len(argv) > 1 else None
    t0 = time.time()
    feat = prop.lower()
    drv = build_driver()
    results = []; cfgs = []; dumps = {}
    scratch = os.path.join(BUILD, 'dump-%s-%d' % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        jobs = []
        for cfg in spec.get('cfgs', ['base']):
            out = os.path.join(scratch, cfg + '.json')
            mods = [m for m in spec.get('mods', []) if cfg == 'base' or 'avx' in props.PROPS[m.upper()].get('cfgs', ['base'])]
            rc, log = build_probe(drv, ','.join([feat] + mods), cfg, out, spec.get('fmt', False))
            if rc:
                print(log[-6000:])
                print('ERROR: the obligations of %s do not compile against /repo (%s): no answer' % (prop, cfg))
                return 2
            roots = json_roots(out)
            for n, k in sorted(roots.items()):
                q = n.split('::')
                if len(q) < 3 or (q[1] != feat and q[1] not in mods) or not q[-1].startswith('r_'): continue
                if cfg != 'base' and q[1] != feat and 'avx' not in q: continue
                if q[-1].startswith('r_th_') and tier != 'thorough': continue
                if only and not re.search(only, n): continue
                if q[1] != feat and tier != 'thorough' and re.search(spec.get('skip', '^$'), n): continue
                jobs.append((out, n + '@' + cfg, k, seed, dict(strict=spec.get('strict'), tlimit=spec.get('tlimit', 300 if tier == 'quick' else 3000), deadline=t0 + (760 if tier == 'quick' else 1e6))))
            cfgs.append(cfg)
            dumps[cfg] = out
        tb = time.time()
        first = spec.get('slow', [])
        jobs.sort(key=lambda j: (not any(x in j[1] for x in first), j[1]))
        import interp, natives, state, decide
        for out in dumps.values(): PROG[out] = interp.Program(out)
        results = run_jobs(jobs, int(os.environ.get('VERIF_JOBS', '8')))
        if not only: results += whole_program(spec, prop, cfgs, dumps, seed, results)
    finally:
        import shutil
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(scratch, ignore_errors=True)
    for r in results:
        # roots borrowed from other properties count only with the obligations this property is about
        if spec.get('mods') and r['root'].split('::')[0] == 'probe' and r['root'].split('::')[1:2] != [feat]:
            keep = [o for o in r['obs'] if o['kind'] in spec['borrow']]
            if not keep and r['err'] is None: keep = [dict(kind='total', label=spec['borrow_label'], site=r['root'], status='ok', how='exact', witness=None, value=None, leaves=1)]
            r['obs'] = keep
    known = [k for k in known_findings() if k[0] == prop]
    bad = []; und = []; ok = 0; nob = 0; kf = []
    hows = {}
    samples = []; fns = set()
    for r in results:
        fns |= set(r['fns'])
        if r['err']: und.append((r['root'], r['err'], ''))
        for o in r['obs']:
            nob += 1
            if o['status'] == 'ok':
                ok += 1; hows[o['how'].split(':')[0]] = hows.get(o['how'].split(':')[0], 0) + 1
                if len(samples) < 12 and (len(samples) < 4 or o['kind'] != 'total'): samples.append({'root': r['root'], 'obligation': o['label'], 'at': o['site'], 'decided': o['how'], 'regions': o['leaves']})
            elif o['status'] == 'bad':
                k = next((k for k in known if k[1] in (r['root'].split('@')[0], r['root'].split('::')[-1].split('@')[0]) and k[2] == o['label']), None)
                if k: kf.append((r['root'], o['label'], k[3]))
                else: bad.append((r, o))
            else: und.append((r['root'], o['label'], o['how']))
    for root, lab, desc in kf: print('KNOWN-FINDING: property=%s %s: %s -- %s' % (prop, root, lab, desc))
    for u in und: print('UNDECIDED %s %s: %s %s' % (prop, u[0], u[1], u[2]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(wall, 2), violations=len(bad),
              coverage=dict(explanation=spec['explain'] + ' Rule: an obligation is discharged when the value graph of its residual, extracted from the MIR of /repo, has normal form zero in every feasible region (or differs from zero by less than the stated tolerance, which only rounding of decimal literals can cause); it is refuted when some region of the value graph has a point inside the declared input domain at which the residual exceeds the tolerance; otherwise it is reported UNDECIDED and does not count as discharged.',
                            obligations=nob, discharged=ok, undecided=len(und), known=len(kf), refuted=len(bad), decided_by=hows, configurations=cfgs,
                            roots=len(results), functions_of_the_crate_analysed=len(fns), functions=sorted(fns)[:400], mir_steps=sum(r['steps'] for r in results), joins=sum(r['joins'] for r in results), calls=sum(r['calls'] for r in results),
                            partitioned_roots=sum(1 for r in results if r['partition']), slowest=[(r['root'], round(r['wall'], 1)) for r in sorted(results, key=lambda r: -r['wall'])[:3]],
                            undecided_list=[list(map(str, u))[:3] for u in und][:60], samples=samples),
              assumptions=props.ASSUME + spec.get('assume', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d roots, %d obligations, %d discharged %s, %d undecided, %d refuted, %.1fs (build %.1fs)' % (prop, len(results), nob, ok, hows, len(und), len(bad), wall, tb - t0))
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(results, key=lambda r: -r['wall']): print('   %6.1fs %s %d steps part=%s' % (r['wall'], r['root'], r['steps'], r['partition']))
    if bad:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.json')
        json.dump([dict(root=r['root'], **o) for r, o in bad], open(rp, 'w'), indent=1, default=str)
        for r, o in bad[:20]:
            print('  %s: "%s" refuted at %s (%s); residual/value %s; witness %s' % (r['root'], o['label'], o['site'], o['how'], o['value'], o['witness']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def json_roots(path):
    """the roots table is the first object of the dump"""
    with open(path) as f: s = f.read(4000000)
    i = s.index('{', 1); j = s.index('}', i)
    return json.loads(s[i:j + 1])


if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        import props
        d = build_driver()
        for c in FLAGS: build_probe(d, 'c01', c, os.path.join(BUILD, 'setup-%s.json' % c)); os.path.exists(os.path.join(BUILD, 'setup-%s.json' % c)) and os.remove(os.path.join(BUILD, 'setup-%s.json' % c))
        sys.exit(0)
    sys.exit(main(sys.argv[1:]))
