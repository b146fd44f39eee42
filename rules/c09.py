"""Call-site guard analysis. Every place of the type-checked program (all feature configurations) that mentions a function compiled
for optional processor features - a direct call, or taking it as a function value - is enumerated, including the compiler's own
vector intrinsics. For each, the branch facts that hold there on every path must contain a positive run-time detection
(is_x86_feature_detected!) of every feature the mentioned function has beyond its user's own; a private helper that does not check
is followed to all its callers."""
import lib
from vals import subterms

TECHNIQUE = 'dominating-branch facts at every use of a target_feature function (MIR call-site query)'
NOTE = 'Decides every use of a target_feature function in all feature configurations of the crate; trusts the standard library\'s run-time detection; a check whose outcome is cached in a static is accepted when the same function also performs the detection.'

IMPLIES = {'avx2': {'avx', 'sse4.2', 'sse4.1', 'ssse3', 'sse3'}, 'fma': {'avx', 'sse4.2'}, 'avx': {'sse4.2', 'sse4.1', 'ssse3', 'sse3'},
           'avx512f': {'avx2', 'fma', 'avx', 'f16c', 'sse4.2'}, 'avx512bw': {'avx512f', 'avx2', 'avx', 'fma'}, 'avx512vl': {'avx512f', 'avx2', 'avx', 'fma'},
           'sse4.2': {'sse4.1', 'ssse3', 'sse3'}, 'sse4.1': {'ssse3', 'sse3'}, 'ssse3': {'sse3'}}
BASE = {'sse', 'sse2', 'fxsr', 'x87'}


def close(s):
    s = set(s)
    while True:
        n = set(s)
        for f in s:
            n |= IMPLIES.get(f, set())
        if n == s:
            return s
        s = n


def feats(F, k):
    """features a body is compiled for (closures inherit them)"""
    b = F.bodies[k]
    out = set(b.get('tf') or ())
    if b['kind'] == 'Closure' and b.get('parent') in F.bodies:
        out |= feats(F, b['parent'])
    return close(out)


def mentions(F, k):
    """(block index, fn record, span) of target_feature functions mentioned in body k"""
    out = []
    b = F.bodies[k]

    def op(o, i, sp):
        if isinstance(o, dict) and isinstance(o.get('k'), dict) and 'fn' in o['k'] and o['k']['fn'].get('tf'):
            out.append((i, o['k']['fn'], sp))
    for i, bl in enumerate(b['blocks']):
        for st in bl['s']:
            if st[0] == '=':
                for x in st[2][1:]:
                    for y in (x if isinstance(x, list) else [x]):
                        op(y, i, st[-1])
        t = bl['t']
        if t['t'] == 'call':
            op(t['f'], i, t.get('sp', b['span']))
            for a in t['a']:
                op(a, i, t.get('sp', b['span']))
    return out


def detected(facts):
    out = set()
    for t, v in facts:
        if v == 1 and t.op == 'call' and '__is_feature_detected' in str(t.args[0]):
            out.add(str(t.args[0]).split('::')[-1].split('@')[0].replace('_', '.'))
    return close(out)


CACHE = ('Atomic', 'OnceLock::', 'LazyLock::', 'OnceCell::', 'LazyCell::', 'Lazy::')


def cached(V, i):
    """does reaching block i depend on a value remembered in a static (an atomic or a once-cell)?"""
    d = V.dominators()
    b = i
    while True:
        c = V.cond.get(b) if b != i else None
        if c is not None:
            seen, work = set(), [c]
            while work:
                t = work.pop()
                if t in seen or len(seen) > 300:
                    continue
                seen.add(t)
                for x in subterms(t):
                    if x.op == 'call' and str(x.args[0]).startswith(CACHE):
                        return True
                    if x.op == 'phi':
                        work += list(V.phi_in.get(x, {}).values())
                        for p in V.phi_in.get(x, {}):
                            q = p
                            for _ in range(4):
                                if q in V.cond:
                                    work.append(V.cond[q])
                                    break
                                if q not in d or d[q] == q:
                                    break
                                q = d[q]
        if b not in d or d[b] == b:
            return False
        b = d[b]


def uses(V, F):
    """(block, fn path, needed features) of every mention of a target_feature function in an inlined graph"""
    out = []
    for i, B in enumerate(V.ir.blocks):
        if i in V.dead or B.fr is None:
            continue
        have = feats(F, B.fr.key) if B.fr.key in F.bodies else set()
        ops = []
        for st in B.st:
            if st[0] == '=':
                ops += [x for x in st[2][1:] if isinstance(x, tuple)]
                for x in st[2][1:]:
                    if isinstance(x, (list, tuple)):
                        ops += [y for y in x if isinstance(y, tuple)]
        if B.t and B.t[0] == 'call':
            if isinstance(B.t[1], dict):
                ops.append(('fn', B.t[1]))
            ops += [x for x in B.t[2] if isinstance(x, tuple)]
        for o in ops:
            if o and o[0] == 'fn' and isinstance(o[1], dict) and o[1].get('tf'):
                need = close(o[1]['tf']) - have - BASE
                if need:
                    out.append((i, o[1]['path'], set(o[1]['tf']) - have - BASE, B.fr.path))
    return out


def run(ctx):
    for cfg in ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        users = {k for k in F.bodies if mentions(F, k)}
        rev = {}
        for a, s in lib.callgraph(F).items():
            for x in s:
                rev.setdefault(x, set()).add(a)
        n = sum(len(mentions(F, k)) for k in users)
        ctx.stats['uses of target_feature functions [%s]' % cfg] = n
        ctx.stats['target_feature functions [%s]' % cfg] = sorted(b['path'] for b in F.bodies.values() if b.get('tf'))
        if cfg in ('rw', 'base', 'single'):
            # the portable path must stay available; the vectorised functions are what the rule is about
            ctx.floor('functions compiled for optional features [%s]' % cfg, len(ctx.stats['target_feature functions [%s]' % cfg]), 1)
        noinl = lambda key, body, fr: not (set(body.get('tf') or ()) - set(F.bodies[fr.key].get('tf') or () if fr.key in F.bodies else ()))

        def bad_in(root, only):
            V = ctx.V(cfg, root, inline=noinl, tag='tf')
            out = []
            for (i, path, need, fp) in uses(V, F):
                if only and fp.split('::{closure')[0] not in only:
                    continue
                got = detected(V.facts(i))
                miss = need - got
                if miss and cached(V, i):
                    got |= close({str(e.name).split('::')[-1].replace('_', '.') for e in V.calls() if '__is_feature_detected' in e.name})
                    miss = need - got
                if miss:
                    out.append((path, miss, fp, V.ir.blocks[i].sp))
            return out
        for k in sorted(users):
            b = F.bodies[k]
            if feats(F, k) >= {f for m in mentions(F, k) for f in m[1]['tf']}:
                for m in mentions(F, k):
                    ctx.ob('features available where vectorised code is used', True, '%s: %s [%s]' % (b['path'], m[1]['path'], cfg), b['span'], 'the user is itself compiled for the features')
                continue
            paths = {m[1]['path'] for m in mentions(F, k)}
            top = b['root'] if b['kind'] == 'Closure' else k
            work, seen, viol = [(top, None)], set(), None
            while work:
                r, _ = work.pop()
                if r in seen:
                    continue
                seen.add(r)
                bad = bad_in(r, {b['path'].split('::{closure')[0]})
                if not bad:
                    continue
                callers = {F.bodies[c]['root'] if F.bodies[c]['kind'] == 'Closure' else c for c in rev.get(r, ())} - {r}
                rb = F.bodies[r]
                if rb.get('exported') and not rb.get('unsafe') or not callers or len(seen) > 40:
                    viol = (r, bad[0])
                    break
                work += [(c, None) for c in callers]
            for p in sorted(paths):
                key = '%s: %s' % (b['path'].split('::{closure')[0], p)
                if viol and viol[1][0] == p:
                    ctx.ob('features available where vectorised code is used', False, key, viol[1][3] or b['span'],
                           '%s, compiled for %s, is used in %s without a positive run-time check for %s on every path (entered from %s, configuration %s)' % (
                               p, ', '.join(sorted(viol[1][1])), viol[1][2], ' and '.join(sorted(viol[1][1])), F.bodies[viol[0]]['path'], cfg))
                else:
                    ctx.ob('features available where vectorised code is used', True, key + ' [%s]' % cfg, b['span'], 'guarded by run-time detection')
