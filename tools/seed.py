#!/usr/bin/env python3
"""seed.py SPEC.py ... : build /verif/seeded/<id> from a spec, confirm it in a scratch copy of /repo.
A spec defines: id, prop, edits=[(file, old, new)], main (rust source of the demonstration), needs, breaks, flags ('' or RUSTFLAGS)."""
import sys, os, subprocess, json, shutil
SC = '/tmp/seedwork/repo'
DEMO = '''#!/bin/bash
# builds the program beside this script against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
%sd=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ncolorspace = { path = "%%s" }\\nsimdeez = "1.0.7"\\nfloat-cmp = "0.5.0"\\nnum-traits = "0.2.8"\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/t" %scargo run -q --offline > "$d/out" 2>&1
rc=$?
tail -5 "$d/out"
exit $rc
'''


def sh(c, cwd=None):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def main(specs):
    os.makedirs('/tmp/seedwork', exist_ok=True)
    if not os.path.exists(SC): sh('cp -a /repo ' + SC)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', SC)
    for s in specs:
        g = {}
        exec(open(s).read(), g)
        sh('git checkout -q -- .', SC)
        d = '/verif/seeded/' + g['id']
        os.makedirs(d, exist_ok=True)
        fl = g.get('flags', '')
        open(d + '/main.rs', 'w').write(g['main'])
        avx = "grep -qw avx2 /proc/cpuinfo && grep -qw fma /proc/cpuinfo || { echo 'no avx'; exit 0; }\n" if 'avx' in fl else ''
        open(d + '/demo.sh', 'w').write(DEMO % (avx, ('RUSTFLAGS="%s" ' % fl) if fl else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, SC)
        ok = True
        for f, a, b in g['edits']:
            t = open(SC + '/' + f).read()
            if t.count(a) != 1: print(g['id'], 'EDIT MATCHES', t.count(a), repr(a)); ok = False; break
            open(SC + '/' + f, 'w').write(t.replace(a, b))
        if not ok: continue
        sh('git diff > %s/patch.diff' % d, SC)
        rct, ot = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline 2>&1; a=$?; RUSTFLAGS="-C target-feature=+avx" CARGO_TARGET_DIR=%s/target/avx cargo test --workspace --lib --target x86_64-unknown-linux-gnu --offline 2>&1; exit $((a+$?))' % SC, SC)
        rc1, o1 = sh('bash %s/demo.sh' % d, SC)
        sh('git checkout -q -- .', SC)
        print(g['id'], 'clean demo', rc0, 'tests', rct, 'patched demo', rc1, 'OK' if rc0 == 0 and rct == 0 and rc1 != 0 else 'REJECT')
        if rc0: print(o0[-1500:])
        if rct: print(ot[-1500:])
        if rc1: print('   ', o1[-200:])


main(sys.argv[1:])
