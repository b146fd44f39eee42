"""Builds the driver and dumps the type-checked program of /repo's current tree, cached by content hash."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GRANNE_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

# name -> (package, cargo args)
CONFIGS = {
    'rw':     ('granne', ['-p', 'granne', '--features', 'rw_granne']),
    'base':   ('granne', ['-p', 'granne']),
    'single': ('granne', ['-p', 'granne', '--features', 'rw_granne,singlethreaded']),
    'blas':   ('granne', ['-p', 'granne', '--features', 'rw_granne,blas']),
    'py':     ('granne-py', ['-p', 'granne-py']),
}


class BuildError(Exception):
    pass


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['PYTHON_SYS_EXECUTABLE'] = '/usr/bin/python3'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_INCREMENTAL', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    return e


def source_files():
    out = []
    for top in ('src', 'py', 'examples', 'benches'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.rs', '.toml'))]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.join(VERIF, 'driver', 'main.rs'), 'rb') as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def sysroot():
    r = _sh(['rustc', '+nightly', '--print', 'sysroot'], env=env())
    return r.stdout.strip().splitlines()[-1]


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'driver-' + h)
    if not os.path.exists(out):
        r = _sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out + '.tmp'], env=env())
        if r.returncode != 0:
            raise BuildError('driver does not compile:\n' + r.stdout)
        os.rename(out + '.tmp', out)
    return out


def facts(cfg):
    """path of the facts file of configuration cfg for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        pkg, args = CONFIGS[cfg]
        out = os.path.join(BUILD, 'facts', h, '%s__%s.json' % (pkg, cfg))
        if os.path.exists(out):
            return out
        drv = driver()
        d = os.path.dirname(out)
        # keep only the facts of a few trees
        old = sorted(glob.glob(os.path.join(BUILD, 'facts', '*')), key=os.path.getmtime)
        for o in old[:-3]:
            if o != d:
                shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        target = os.path.join(BUILD, 'target')
        # cargo's freshness cache would skip the wrapper: forget the workspace packages
        for pat in ('release/build/granne*', 'release/.fingerprint/granne-*', 'release/deps/*granne*', 'release/incremental/granne*'):
            for p in glob.glob(os.path.join(target, pat)):
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    os.unlink(p)
        e = env()
        e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['FACTS_DIR'] = d
        e['FACTS_CONFIG'] = cfg
        r = _sh(['cargo', '+nightly', 'check', '--release', '--offline', '--lib', '--target-dir', target] + args, env=e, cwd=REPO)
        if r.returncode != 0 or not os.path.exists(out):
            raise BuildError('cargo check failed for configuration %s:\n%s' % (cfg, r.stdout[-6000:]))
        if pkg != 'granne':
            # the wrapper also dumped the library this package depends on
            pass
        return out


if __name__ == '__main__':
    for c in (sys.argv[1:] or CONFIGS):
        print(c, facts(c))
