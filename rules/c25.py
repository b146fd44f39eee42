"""Type-level witnesses. The library of the current tree is type-checked, and the compiler then judges pairs of programs against it that
differ in one marked use: the program without that use must be accepted (so the interface still offers what the property permits) and
the program with it must be rejected with exactly the error that says why (a borrow that ends too early, a conflicting borrow, shared
access where exclusive access is needed, a private field, a type that is not Send or Sync). The programs are never run. They cover:
indexes, builders and vector collections against the bytes, slices and elements they borrow; index snapshots against the builder they
come from; elements behind an index or builder against modification; shared and exclusive access of every reading and writing method;
and Send/Sync of every public type for elements that have and that lack them, generically where the signature allows it.
The same declarations are looked at directly as well: every hand-written Send or Sync implementation of the crate is a violation."""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, tempfile
import build, lib

TECHNIQUE = 'type-level witnesses: compile-fail/compile-pass program pairs judged by the type and borrow checker, plus a query over Send/Sync implementations'
NOTE = 'Trusts the compiler\'s borrow and trait checker; code inside the crate that uses unsafe to forge lifetimes internally is judged by C07 and C08.'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def library():
    """type-checks the library of the current tree; returns the rustc arguments that make it available"""
    target = os.path.join(build.BUILD, 'witness')
    h = build.tree_hash() + build.REPO
    stamp = os.path.join(target, 'tree')
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        for pat in ('debug/build/granne*', 'debug/.fingerprint/granne-*', 'debug/deps/*granne*', 'debug/incremental/granne*'):
            for p in glob.glob(os.path.join(target, pat)):
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    r = build._sh(['cargo', '+nightly', 'check', '--offline', '--lib', '-p', 'granne', '--features', 'rw_granne', '--message-format=json',
                   '--target-dir', target], env=build.env(), cwd=build.REPO)
    found, dirs = {}, set()
    for line in r.stdout.splitlines():
        if line.startswith('{'):
            m = json.loads(line)
            if m.get('reason') == 'compiler-artifact':
                dirs |= {os.path.dirname(f) for f in m['filenames']}
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] in ('granne', 'ordered_float', 'ordered-float'):
                found[m['target']['name'].replace('-', '_')] = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
    if r.returncode != 0 or len(found) != 2:
        raise build.BuildError('the library does not type-check:\n' + r.stdout[-3000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return [a for x in sorted(dirs) for a in ('-L', 'dependency=' + x)] + [a for n in sorted(found) for a in ('--extern', n + '=' + found[n])]


def cases():
    text = open(os.path.join(HERE, 'witness', 'cases.rs')).read()
    for part in re.split(r'^//= ', text, flags=re.M)[1:]:
        head, body = part.split('\n', 1)
        i, code, title = head.split(' ', 2)
        good = '\n'.join(l for l in body.split('\n') if not l.rstrip().endswith('//-'))
        bad = '\n'.join(l for l in body.split('\n') if not l.rstrip().endswith('//+'))
        assert good != bad, i
        yield i, code, title, good, bad


def judge(prog, args, d, n):
    src = os.path.join(d, n + '.rs')
    with open(src, 'w') as f:
        f.write(prog)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json',
                        '-o', os.path.join(d, n + '.rmeta')] + args + [src], env=build.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    errs = []
    for line in r.stderr.splitlines():
        if line.startswith('{'):
            m = json.loads(line)
            if m.get('level', '').startswith('error') and not m['message'].startswith('aborting due'):
                sp = [s for s in m.get('spans', []) if s['is_primary']]
                errs.append(((m.get('code') or {}).get('code') or '', m['message'], sp[0]['text'][0]['text'].strip() if sp and sp[0]['text'] else ''))
    return r.returncode, errs


def run(ctx):
    F = ctx.F('rw')
    manual = [i for i in F.impls if re.search(r'marker::(Send|Sync)$', i.get('trait') or '')]
    for i in manual:
        ctx.ob('no hand-written Send or Sync', False, '%s for %s' % (i['trait'].split('::')[-1], F.tstr(i['self']) if 'self' in i else '?'), i.get('span'),
               'the compiler no longer derives it from the parts of the type')
    ctx.ob('no hand-written Send or Sync', not manual, 'implementations of the crate', None, '%d implementations looked at' % len(F.impls))
    prelude = open(os.path.join(HERE, 'witness', 'prelude.rs')).read()
    os.makedirs(build.BUILD, exist_ok=True)
    with open(os.path.join(build.BUILD, 'witness.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        args = library()
        d = tempfile.mkdtemp(prefix='granne-witness.')
        try:
            todo = []
            for i, code, title, good, bad in cases():
                todo += [(i, code, title, 'twin', good), (i, code, title, 'witness', bad)]
            with cf.ThreadPoolExecutor(8) as ex:
                out = list(ex.map(lambda t: judge(prelude + t[4], args, d, t[0] + '-' + t[3]), todo))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for (i, code, title, which, prog), (rc, errs) in zip(todo, out):
        said = '; '.join('%s %s [%s]' % e for e in errs)[:600]
        where = 'witness/cases.rs (%s)' % i
        if which == 'twin':
            ctx.ob('what the interface permits is accepted', rc == 0 and not errs, 'twin of ' + i, where, '%s: %s' % (title, said or 'accepted'))
        else:
            marked = [l.split('//-')[0].strip() for l in prog.split('\n') if l.rstrip().endswith('//-')]
            ok = rc != 0 and bool(errs) and all(c == code for c, m, t in errs)
            ctx.ob('what the interface forbids is rejected', ok, i, where, '%s: %s -> %s' % (title, ' '.join(marked), said or 'accepted by the compiler'))
    ctx.floor('witness pairs', len(todo) // 2, 40)
    ctx.stat('programs judged', len(todo))
