"""Every call of a function returning an I/O (or JSON) error that public code can reach is followed, assuming it failed, along
all paths of the inlined program: each must end in a panic, in an error return carrying that error, or in another attempt of the
same call. Also: no partial-transfer primitive (Write::write, Read::read) whose byte count is ignored, and no iterator adaptor that
filters out failed items. The places of the failing calls are all enumerated from the type-checked program (all configurations)."""
TECHNIQUE = 'path-sensitive error-propagation dataflow on fully inlined MIR'
NOTE = 'Decides, on every path from every fallible I/O call reachable from a public function, that its error ends in an error return or a panic. Errors the operating system or a destination does not report are out of scope.'

import lib, ir
from rules.ioerr import sources, follow, carrier, mentions_err, is_err_ty
from explore import Explore
from vals import contains, pp, INT


def py_roots(F):
    return [k for k, b in F.bodies.items() if b['kind'] != 'Closure' and 'create_instance' not in b['path'] and '<macro' not in b['span']]


def key(V, e, name):
    # innermost user frame and callee
    return '%s: %s' % (e.fr.path.split('::{closure')[0], name)


def run(ctx):
    total = 0
    for cfg in ('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        rs = py_roots(F) if cfg == 'py' else lib.roots(F)
        R = lib.reachable(F, rs)
        # which roots mention fallible calls at all
        src_bodies = set()
        for k in R:
            b = F.bodies[k]
            if any(mentions_err(F, t) for t in b['locals']):
                src_bodies.add(k)
        cg = lib.callgraph(F)
        done = {}
        for k in rs:
            if not (lib.reachable(F, [k]) & src_bodies):
                continue
            V = ctx.V(cfg, k)
            for (e, whole, r, pr, name) in sources(V):
                probs, X = follow(V, e, whole, r, pr)
                kk = key(V, e, name)
                d = done.setdefault((kk, e.sp), [0, None, F.bodies[k]['path']])
                d[0] += 1
                total += 1
                if probs:
                    ev, bad = probs[0]
                    ctx.ob('failed I/O call never leads to an ordinary return', False, kk, e.sp,
                           'in %s: when %s fails, %s can still return %s (at %s)' % (' > '.join(p for p, _ in e.fr.chain()), name, F.bodies[k]['path'], pp(bad[0])[:200], ev.sp))
            extra(ctx, V, F, cfg, k)
        for (kk, sp), d in sorted(done.items()):
            ctx.ob('failed I/O call never leads to an ordinary return', True, kk, sp, 'followed from %d entry points, e.g. %s' % (d[0], d[2]))
        ctx.floor('fallible I/O call sites [%s]' % cfg, len(done), {'py': 9}.get(cfg, 30))
    ctx.stats['paths followed from failing calls'] = total


PARTIAL = {'Write::write': 'Write', 'Read::read': 'Read', 'Write::write_vectored': 'Write', 'Read::read_vectored': 'Read'}
SWALLOW_ITER = {'Iterator::flatten', 'Iterator::sum_'}


def item_is_fallible(F, t):
    """iterator type t (std adaptors only) yielding Results with an I/O error"""
    t = F.peel(t)
    r = F.types[t]
    if r.get('k') != 'adt':
        return False
    p = r['path']
    if p.endswith(('io::Lines', 'io::Split', 'io::Bytes', 'fs::ReadDir')):
        return True
    if p.endswith(('::Skip', '::Take', '::Rev', '::StepBy', '::Filter', '::TakeWhile', '::SkipWhile', '::Peekable', '::Fuse', '::Inspect', '::Enumerate')):
        return bool(r.get('args')) and isinstance(r['args'][0], int) and item_is_fallible(F, r['args'][0])
    return False


KEEPS = {'filter': 1, 'take_while': 1, 'skip_while': 0, 'find': 1, 'partition': None, 'any': None, 'all': None, 'position': None}
DROPS = ('Iterator::skip', 'Iterator::step_by', 'Iterator::count', 'Iterator::last', 'Iterator::nth')


def selected(ctx, V, F):
    """a predicate that decides which items are looked at must not sort out failed ones"""
    for p in V.live('param'):
        keep = KEEPS.get(str(p.name).split('::')[-1], 0.5)
        if keep == 0.5 or p.tys[0] is None:
            continue
        t = F.types[p.tys[0]]
        pr = carrier(F, t['t']) if t.get('k') == 'ref' else carrier(F, p.tys[0])
        if pr is None:
            continue
        r = p.val.args[0] if p.val.op == 'ref' else p.val
        ass = []
        for x in pr:
            if x[0] == 'd':
                ass.append((V.discr(r), 1))
            r = V.proj(r, x)
        X = Explore(V, [p.block], ass + [(V.discr(r), 1)])
        outs = set()
        for c in X.live_events:
            if c.kind == 'call' and c.site == p.site and c.vals and any(v.op == 'cloret' for v in c.vals):
                for v in c.vals:
                    if v.op == 'cloret':
                        outs |= set(X.values_of(v.args[-1]) or [None])
        ok = keep is not None and outs <= {INT(keep), keep}
        ctx.ob('failed items are not filtered out', ok, '%s: %s' % (p.name, p.fr.path), p.sp, 'failed items pass' if ok else '%s sorts out items whose I/O failed' % p.name)


def extra(ctx, V, F, cfg, k):
    selected(ctx, V, F)
    for e in V.live('call'):
        if e.name in PARTIAL and (e.fn.get('trait') or '').startswith('std::io'):
            pay = V.proj(V.proj(e.ret, ('d', 0)), ('f', 0))
            used = False
            for e2 in V.events:
                if e2.block in V.dead or e2 is e:
                    continue
                for t in list(e2.vals or []) + ([e2.val] if e2.val is not None else []):
                    if e2.kind in ('call', 'write', 'return') and contains(t, pay):
                        used = True
            for c in V.cond.values():
                if contains(c, pay):
                    used = True
            ctx.ob('byte count of a partial transfer is used', used, 'partial %s: %s' % (e.name, e.fr.path), e.sp,
                   '%s may transfer only part of the buffer and its count is ignored' % e.name)
        # iterator adaptors dropping failed items
        if e.name in ('Iterator::flatten',) and e.tys and e.tys[0] is not None and item_is_fallible(F, e.tys[0]):
            ctx.ob('failed items are not filtered out', False, 'flatten: ' + e.fr.path, e.sp, 'flatten() silently skips items whose I/O failed')
        if e.name in DROPS and e.tys and e.tys[0] is not None and item_is_fallible(F, e.tys[0]):
            ctx.ob('failed items are not filtered out', False, '%s: %s' % (e.name, e.fr.path), e.sp, '%s passes over items without looking whether their I/O failed' % e.name)
        for i, op in enumerate(V.ir.blocks[e.block].t[2]):
            if op[0] == 'fn' and ir.cname(op[1]['path']) in ('Result::ok', 'Result::unwrap_or_default', 'Result::is_ok') and any(isinstance(x, int) and is_err_ty(F, x) for x in op[1].get('args', [])):
                ctx.ob('failed items are not filtered out', False, 'Result::ok: ' + e.fr.path, e.sp, '%s(Result::ok) silently skips items whose I/O failed' % e.name)
