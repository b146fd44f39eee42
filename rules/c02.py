"""Typestate of buffering writers. For every buffering writer the library creates itself (BufWriter, LineWriter) and every call that
can put bytes into it, all paths from that call are followed assuming it succeeded: each path must reach a flush (or into_inner, or a
seek of the buffering writer, all of which hand the bytes to the destination and report failure) before an ordinary return; and a
failing flush must itself end in an error return or a panic."""
TECHNIQUE = 'typestate of buffering writers (bytes put, flushed) over fully inlined MIR'
NOTE = 'Every path from a call that can put bytes into a library-created buffering writer to an ordinary return is followed; durability beyond the hand-over to the destination (fsync) is not claimed.'

import lib, ir
from explore import Explore, after
from rules.ioerr import follow, sources, carrier, errlike
from vals import pp, mk

BUF = ('std::io::BufWriter', 'std::io::LineWriter', 'std::io::buffered::BufWriter')
FLUSH = {'Write::flush', 'BufWriter::into_inner', 'BufWriter::flush_buf', 'IntoInnerError::into_inner'}
FLUSH_SEEK = {'Seek::seek', 'Seek::rewind'}
PURE = {'BufWriter::get_ref', 'BufWriter::buffer', 'BufWriter::capacity', 'BufWriter::new', 'BufWriter::with_capacity', 'Seek::stream_position'}


def is_buf(F, t):
    if t is None:
        return False
    r = F.types[F.peel(t)]
    return r.get('k') == 'adt' and any(r['path'].endswith(x) for x in ('::BufWriter', '::LineWriter'))


def roots_of(V, e):
    """the local buffering writers a call can write to: root of every unique reference argument whose target is a buffering writer"""
    out = []
    for i, a in enumerate(e.args):
        r = a
        if r.op == 'ref' and isinstance(r.args[1], int):
            l = r.args[1]
            # the reference may go to a field / through wrappers: the type of the root local decides
            t = V.ir.locals[l]
            if t is not None and V.F.contains_adt(t, lambda p: p.endswith(('::BufWriter', '::LineWriter')), deep=False) and V.F.types[t].get('k') != 'closure':
                out.append((i, (r.args[1], r.args[2])))
        elif r.op == 'ref':
            pass
    return out


def analyse(ctx, cfg, k, acc):
    V = ctx.V(cfg, k)
    F = V.F
    for c in V.calls('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new'):
        acc['writers'].setdefault((c.fr.path, c.sp), []).append(F.bodies[k]['path'])
    by = {}
    for e in V.live('call'):
        for i, lv in roots_of(V, e):
            by.setdefault(lv, []).append((e, i))
    for lv, es in by.items():
        fl = set()
        for e, i in es:
            if e.name in FLUSH or (e.name in FLUSH_SEEK and is_buf(F, V.ir.locals[lv[0]])):
                fl.add((e.block, e.idx))
        # moved into into_inner
        for e in V.calls('BufWriter::into_inner'):
            fl.add((e.block, e.idx))
        for e, i in es:
            if e.name in PURE or (e.block, e.idx) in fl:
                continue
            if V.ir.blocks[e.block].t[4] is None:
                continue
            t = V.ir.place_ty(e.dest)
            ass = []
            if carrier(F, t) == []:
                ass = [(V.discr(e.ret), 0)]
            X = Explore(V, after(V, e), ass, stop=lambda ev, x: (ev.block, ev.idx) in fl)
            bad = []
            for ev, alts in X.returns():
                ty = V.ir.locals[0]
                for a in alts:
                    a = X.subst(a)
                    if a.op == 'agg' and a.args[0][:3] == ('adt', 'Result', 1):
                        continue
                    # an error passed on: the failing result of another call
                    vs = X.values_of(V.discr(a)) if carrier(F, ty) == [] else None
                    if vs == {1}:
                        continue
                    bad.append((ev, a))
            key = '%s: bytes written by %s' % (root_frame(V, e, lv), e.name)
            acc['puts'][key] = acc['puts'].get(key, 0) + 1
            if bad:
                ev, a = bad[0]
                ctx.ob('buffered bytes are flushed before success', False, key, e.sp, '%s puts bytes into a buffering writer and %s can return %s (at %s) without a flush whose result is checked: a failure to write the last bytes goes unnoticed' % (
                    e.name, F.bodies[k]['path'], pp(a)[:120], ev.sp))
            else:
                acc['ok'].setdefault((key, e.sp), []).append(F.bodies[k]['path'])
    for (e, whole, r, pr, name) in sources(V):
        if name in FLUSH or name == 'BufWriter::into_inner':
            probs, X = follow(V, e, whole, r, pr)
            key = '%s: %s' % (e.fr.path, name)
            ctx.ob('a failing flush is reported', not probs, key, e.sp, 'when the flush fails %s can still return normally' % F.bodies[k]['path'] if probs else '')


def root_frame(V, e, lv):
    # the function that owns the buffering writer
    fr = e.fr
    while fr.parent is not None and not owns(V, fr, lv[0]):
        fr = fr.parent
    return fr.path.split('::{closure')[0]


def owns(V, fr, l):
    return l in getattr(fr, 'locals_', ())


def run(ctx):
    for cfg in ('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        from rules.c01 import py_roots
        rs = py_roots(F) if cfg == 'py' else lib.roots(F)
        has = {k for k, b in F.bodies.items() if any(F.contains_adt(t, lambda p: p.endswith(('::BufWriter', '::LineWriter')), deep=False) for t in b['locals'])}
        acc = {'writers': {}, 'puts': {}, 'ok': {}}
        for k in rs:
            if lib.reachable(F, [k]) & has:
                analyse(ctx, cfg, k, acc)
        for (key, sp), ps in sorted(acc['ok'].items()):
            ctx.ob('buffered bytes are flushed before success', True, key, sp, 'from ' + ', '.join(sorted(set(ps)))[:200])
        ctx.stats['buffering writers [%s]' % cfg] = ['%s %s' % x for x in acc['writers']]
        ctx.stats['buffered writes [%s]' % cfg] = sum(acc['puts'].values())
