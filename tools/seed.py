#!/usr/bin/env python3
"""development helper: confirm planted bugs. seed.py ID ... [--nocheck]
In a scratch copy of /repo: the demo passes on the unchanged tree, the patch applies, the workspace builds, the stable tests pass, the demo fails; then the check of its property is run."""
import json, os, shutil, subprocess, sys
R = '/tmp/seedrepo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', PYTHON_SYS_EXECUTABLE='/usr/bin/python3')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
    return subprocess.run(cmd, cwd=R, env=dict(ENV, **k.pop('env', {})), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def reset():
    if not os.path.exists(R):
        subprocess.check_call(['cp', '-a', '/repo', R])
    subprocess.check_call('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq', shell=True, cwd=R)
    shutil.copy('/repo/Cargo.lock', R + '/Cargo.lock')


def tests():
    e = {'RAYON_NUM_THREADS': '1'}
    o = sh('cargo nextest run -p granne --features rw_granne --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp', env=e).stdout
    o2 = sh('cargo test -p granne --features rw_granne --offline --no-fail-fast --doc -- --test-threads 8', env=e).stdout
    bad = [l for l in (o + o2).splitlines() if (l.strip().startswith(('FAIL', 'SIGABRT', 'TIMEOUT')) or '... FAILED' in l)]
    import re
    names = set()
    for l in bad:
        names.add(l.strip())
    return sorted(names)


def main(ids, check=True):
    base = None
    for i in ids:
        d = os.path.join('/verif/seeded', i)
        meta = json.load(open(d + '/meta.json'))
        shutil.rmtree('/tmp/seeddemo', ignore_errors=True)
        os.makedirs('/tmp/seeddemo')
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), '/tmp/seeddemo/')
        reset()
        r = sh('bash /tmp/seeddemo/demo.sh', timeout=300)
        if r.returncode:
            print(i, 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-1500:]); continue
        if base is None:
            base = tests()
        r = sh('git apply ' + d + '/patch.diff')
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout[-500:]); continue
        r = sh('cargo test --workspace --features rw_granne --no-run --offline')
        if r.returncode:
            print(i, 'DOES NOT BUILD', r.stdout[-1500:]); continue
        def nm(l):
            import re
            return re.sub(r'^\S+ \[.*?\] *(\(.*?\))? *', '', re.sub(r' \(line.*', '', l))
        t = {nm(x) for x in tests()} - {nm(x) for x in base}
        t = {x for x in t if any(y.split('granne::', 1)[1].split(' #')[0] in x for y in STABLE)}
        if t:
            print(i, 'TESTS FAIL', t); continue
        r = sh('bash /tmp/seeddemo/demo.sh', timeout=300)
        if r.returncode == 0:
            print(i, 'DEMO PASSES WITH THE PATCH', r.stdout[-800:]); continue
        why = [l for l in r.stdout.splitlines() if l.strip()][-3:]
        res = ''
        if check and os.path.exists('/verif/rules/%s.py' % meta['property'].lower()):
            c = subprocess.run([sys.executable, '/verif/check.py', meta['property']], env=dict(os.environ, GRANNE_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOL')]
            res = 'check %s exit %d %s' % (meta['property'], c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED ' + c.stdout[-300:])
        print(i, 'COUNTS;', res, '| demo:', ' / '.join(why)[-250:], flush=True)
    reset()


a = [x for x in sys.argv[1:] if not x.startswith('--')]
main(a or sorted(os.listdir('/verif/seeded')), '--nocheck' not in sys.argv)
