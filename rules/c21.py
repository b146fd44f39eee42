"""Conditional reachability of output. For every public function (and every Python-visible function) whose code can reach a print to
standard output or error or the creation of a progress display, the function is inlined completely and explored from its entry under
the assumption that no progress output was requested (its progress arguments are false, and the progress option of any build
configuration it receives is off): no print and no creation of a progress display may remain reachable. Calls from the Python crate
into the library must not switch progress output on themselves."""
import re
import lib
from explore import Explore
from vals import mk, pp, INT

TECHNIQUE = 'conditional reachability over the inlined control-flow graph of every public function'
NOTE = 'Covers every print and progress-display construction reachable from public functions, including closures run by worker threads; output written by dependencies on their own is out of scope.'

SINK = re.compile(r'(^|::)io::(stdio::)?(_e?print|stdout|stderr)$|^pbr::.*::(new|on)$|^(log|tracing)::')
ASK = re.compile(r'progress|verbose', re.I)


def sinks(F, k):
    for bl in F.bodies[k]['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'k' in t['f'] and 'fn' in t['f']['k']:
            p = re.sub(r'<[^<>]*(<[^<>]*>)?[^<>]*>', '', t['f']['k']['fn']['path']).replace('::::', '::')
            if SINK.search(p):
                yield t['sp'] if 'sp' in t else '', p


def requests(V):
    """terms that say whether progress output was requested, on entry of the root function"""
    F, b = V.F, V.F.bodies[V.ir.root_key]
    out = []

    def walk(t, term, d):
        r = F.types[F.peel(t)]
        if r.get('k') == 'adt' and d < 4:
            a = F.adt_by_path.get(r['path'])
            if a and len(a['vs']) == 1:
                for i, f in enumerate(a['vs'][0]['fs']):
                    ft = f['t']
                    tm = V.proj(term, ('f', i))
                    if F.types[ft].get('k') == 'bool' or F.tstr(ft) == 'bool':
                        if ASK.search(f['n']):
                            out.append(tm)
                    else:
                        walk(ft, tm, d + 1)
    for i, t in enumerate(b['ins']):
        term = mk('arg', i + 1)
        n = b['argnames'][i] if i < len(b['argnames']) else ''
        if F.tstr(t) == 'bool':
            if ASK.search(n or ''):
                out.append(term)
        else:
            walk(t, term, 0)
    return out


def one(ctx, cfg, k):
    F = ctx.F(cfg)
    V = ctx.V(cfg, k)
    req = requests(V)
    X = Explore(V, [V.ir.entry], assume=[(t, 0) for t in req], from_entry=True)
    bad = [e for e in X.events('call') if SINK.search(re.sub(r'<[^<>]*(<[^<>]*>)?[^<>]*>', '', e.fn['path']).replace('::::', '::'))]
    b = F.bodies[k]
    for e in bad:
        ctx.ob('silent unless progress output was requested', False, '%s: %s' % (e.fr.path.split('::{closure')[0], e.name), e.sp,
               '%s can reach %s although no progress output was requested (requests known: %s)' % (b['path'], e.name, ', '.join(pp(t) for t in req) or 'none'))
    if not bad:
        ctx.ob('silent unless progress output was requested', True, '%s [%s]' % (b['path'], cfg), b['span'], 'assumed off: ' + (', '.join(pp(t) for t in req) or 'nothing to assume'))
    return {B.fr.key for B in V.ir.blocks if B.fr is not None}


def defaults(ctx, cfg, rs):
    """a configuration made from nothing does not request progress output"""
    F = ctx.F(cfg)
    n = 0
    for k in rs:
        b = F.bodies[k]
        r = F.types[b['out']]
        if b['ins'] or r.get('k') != 'adt':
            continue
        a = F.adt_by_path.get(r['path'])
        if not a or len(a['vs']) != 1:
            continue
        for i, f in enumerate(a['vs'][0]['fs']):
            if ASK.search(f['n']) and F.tstr(f['t']) == 'bool':
                V = ctx.V(cfg, k)
                for e in V.live('return'):
                    vs = {V.proj(x, ('f', i)) for x in V.alts(e.val)}
                    n += 1
                    ctx.ob('progress output is off by default', vs == {INT(0)}, '%s: %s' % (b['path'], f['n']), b['span'], 'default is ' + ', '.join(pp(x) for x in vs))
    ctx.floor('default configurations', n, 1)


def run(ctx):
    for cfg in ('rw', 'single', 'blas', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        from rules.c01 import py_roots
        rs = py_roots(F) if cfg == 'py' else lib.roots(F)
        has = {k for k in F.bodies if any(True for _ in sinks(F, k))}
        allr = lib.reachable(F, rs)
        ctx.stats['functions that print [%s]' % cfg] = sorted(F.bodies[k]['path'] for k in has & allr)
        seen = set()
        ks = []
        for k in rs:
            if not lib.reachable(F, [k]) & has:
                continue
            if ctx.tier == 'quick' and cfg in ('single', 'blas') and not cfg_specific(ctx, cfg, k):
                seen |= lib.reachable(F, [k])
                continue
            ks.append(k)
        for r in ctx.pmap(ks, lambda c, k: one(c, cfg, k), lambda k: len(lib.reachable(F, [k]))):
            seen |= r
        for k in sorted((has & allr) - seen):
            ctx.ob('silent unless progress output was requested', False, F.bodies[k]['path'] + ': unseen', F.bodies[k]['span'], 'prints, and the analysis cannot follow how it is called')
        if cfg == 'rw':
            defaults(ctx, cfg, rs)
            ctx.floor('public functions that can show progress', sum(1 for o in ctx.obs if o['ok']), 3)
        if cfg == 'py':
            L = ctx.F('rw')
            byp = {}
            for lk, lb in L.bodies.items():
                byp.setdefault(re.sub(r'<.*?>', '', lb['path']).split('::')[-1], []).append(lb)
            n = 0
            for k in rs:
                if 'granne' not in str(F.bodies[k]):
                    continue
                V = ctx.V(cfg, k)
                for e in V.live('call'):
                    if e.fn.get('local') or not e.fn['path'].startswith(('granne::', '<granne::')) and 'granne' not in e.fn['path']:
                        continue
                    for lb in byp.get(e.fn['name'], []):
                        if len(lb['ins']) != len(e.vals):
                            continue
                        for i, nme in enumerate(lb['argnames']):
                            if L.tstr(lb['ins'][i]) == 'bool' and (ASK.search(nme or '') or ASK.search(lb['name'])):
                                n += 1
                                v = e.vals[i]
                                on = v.op == 'int' and v.args[0] == 1
                                ctx.ob('progress output is not switched on by the bindings', not on, '%s: %s' % (F.bodies[k]['path'], e.name), e.sp, 'passes %s' % pp(v))
            ctx.stats['progress arguments passed by the Python crate'] = n


def cfg_specific(ctx, cfg, k):
    """does the code reachable from k differ from the same code in the default configuration?"""
    A, B = ctx.F(cfg), ctx.F('rw')
    def sig(F):
        return sorted((F.bodies[x]['path'], len(F.bodies[x]['blocks'])) for x in lib.reachable(F, [k]))
    return k not in B.bodies or sig(A) != sig(B)
