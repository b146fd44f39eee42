"""Lock-set analysis of saving. For every type that protects its state with locks, the save operations are the public shared-reference methods
that hand protected state to a writer. All places in such an operation that write protected state out, or read it without its lock, must be
reached while one and the same exclusive acquisition of one lock is held; and every exclusive acquisition of any other lock that a public
shared-reference method can make - element list, layers, single neighbour lists, also on worker threads - must happen while that lock is held."""
import re
import lib, locks
from rules.c11 import pathstr, fnname, cls
from vals import pp, subterms, contains
from rules.common import held

TECHNIQUE = 'must-held lock sets in every calling context of save and insert'
NOTE = 'Decides that no exclusive access overlaps a save; that each acquisition protects the data it names is enforced by the types (lock-owned data), except for the unsafe raw read, which is listed.'


def lock_adts(F):
    out = {}
    for p, a in F.adt_by_path.items():
        for v in a['vs']:
            fs = [f['n'] for f in v['fs'] if F.types[f['t']].get('k') == 'adt' and locks.LOCKT.search(F.types[f['t']]['path'])]
            if fs:
                out[p] = fs
    return out


def run(ctx):
    cfgs = ('rw',) if ctx.tier == 'quick' else ('rw', 'single', 'blas')
    for cfg in cfgs:
        F = ctx.F(cfg)
        held(ctx, cfg, F)
        L = locks.Locks(F)
        adts = lock_adts(F)
        saves, muts, ops = [], [], 0
        for p in sorted(adts):
            short = p.split('::')[-1]
            rs = []
            for k, b in F.bodies.items():
                if b['kind'] == 'Closure' or not b.get('exported') or not b['ins'] or not b['argnames'] or b.get('self_ty') is None:
                    continue
                t = F.types[b['ins'][0]]
                if t.get('k') == 'ref' and not t.get('mut') and F.types[t['t']].get('path') == p and b['argnames'][0] == 'self':
                    rs.append(k)
            ops += len(rs)
            for r in sorted(rs):
                outs, ms = [], []

                def visit(kind, way, k, i, t, may, must, a):
                    if kind == 'acquire':
                        if a.mode == 'w':
                            ms.append((a, must, way, t.get('sp', '')))
                        return
                    f = L.call(t)
                    if not f:
                        return
                    if protected_write(F, k, t, f):
                        outs.append(('writes protected state out', f['path'], must, way, t.get('sp', '')))
                    elif f.get('unsafe') and f.get('local') and raw_read(F, f):
                        outs.append(('reads protected state without its lock', f['path'], must, way, t.get('sp', '')))
                L.explore([r], visit)
                if any(o[0].startswith('writes') for o in outs):
                    saves.append((r, outs))
                muts += [(r,) + m for m in ms]
        ctx.stats['types with locks'] = {p: v for p, v in adts.items()}
        ctx.floor('shared-reference operations of types with locks [%s]' % cfg, ops, 8)
        ctx.floor('save operations [%s]' % cfg, len(saves), 2)
        guards = set()
        for r, outs in saves:
            common = None
            for what, callee, must, way, sp in outs:
                ex = {x for x in must if x.mode == 'w'}
                common = ex if common is None else common & ex
            X = sorted({x.name() for x in common})
            guards |= set(X)
            ctx.floor('places where %s writes state out or reads it raw' % F.bodies[r]['path'], len(outs), 3)
            for what, callee, must, way, sp in outs:
                ok = any(x in common for x in must)
                ctx.ob('a save holds one exclusive lock throughout', ok, '%s: %s through %s' % (fnname(F, way[-1]), what, callee), sp,
                       'under %s, acquired once' % ', '.join(X) if ok else 'not under one exclusive acquisition that covers the whole save; held here: %s (%s)' % (sorted(map(repr, must)) or 'nothing', pathstr(F, way)))
        for r, outs in saves:
            same_set(ctx, cfg, r)
        if not guards:
            continue
        n = 0
        seen = set()
        for r, a, must, way, sp in muts:
            if a.name() in guards:
                continue
            n += 1
            ok = any(x.name() in guards for x in must)
            key = '%s: %s' % (fnname(F, way[-1]), cls(a))
            full = (fnname(F, r), key, ok)
            if full in seen:
                continue
            seen.add(full)
            ctx.ob('nothing changes while a save holds its lock', ok, '%s -> %s' % (fnname(F, r), key), sp,
                   'holds %s' % ', '.join(sorted(x.name() for x in must)) if ok else 'exclusive access to %s without %s: a save can run meanwhile (%s)' % (cls(a), ' or '.join(sorted(guards)), pathstr(F, way)))
        ctx.floor('exclusive acquisitions in insert operations [%s]' % cfg, n, 4)


def same_set(ctx, cfg, r):
    """the layer that is read raw (it has room for elements to come) is cut to the number of the elements that are written"""
    F = ctx.F(cfg)
    V = ctx.V(cfg, r)
    raws = [e for e in V.live('call') if e.vals and (e.fn and e.fn.get('unsafe') and e.fn.get('local') and raw_read(F, e.fn) or in_raw(F, e.fr.key) and not (e.fn and e.fn.get('local')))]
    els = {e.vals[0] for e in V.live('call') if str(e.name).endswith('Writeable::write') and e.vals and e.vals[0].op == 'content'}
    ctx.floor('elements written in %s' % F.bodies[r]['path'], len(els), 1)
    ctx.floor('raw reads in %s' % F.bodies[r]['path'], len(raws), 1)
    bases = {e.vals[0] for e in raws}
    n = 0
    for e in V.live('call'):
        if not str(e.name).startswith(('Vec::push', 'Vec::insert', 'VecDeque::push', 'Vec::extend')) and not (e.name or '').endswith('::chain') and not (e.fn and e.fn.get('local') and e.fn['name'].startswith('write')):
            continue
        for v in [x for y in (e.vals[1:] if str(e.name).startswith('Vec') else e.vals) for x in ((y,) if y.op != 'call' or y.args[0].split('::')[-1] not in ('once', 'from', 'into', 'into_iter', 'Some') else y.args[2:])]:
            for b in bases:
                if not contains(v, b) or v.op != 'agg':
                    continue
                n += 1
                ends = set()
                for x in deep(v):
                    if x.op == 'fld' and x.args[1][0] == 'i' and contains(x.args[0], b):
                        ends |= set(deep(x.args[1][1]))
                ok = any(t in lens(els, t) for t in ends)
                why = 'cut to the number of elements' if ok else 'the raw layer is written with its spare nodes'
                if ok:
                    for x in ends:
                        if (x.op == 'bin' and x.args[0] in ('Add', 'Sub', 'Div') or x.op == 'poly' and len(x.args[0]) > 1) and any(t in lens(els, t) for t in deep(x)):
                            ok, why = False, 'cut to %s' % pp(x)
                ctx.ob('the layers written cover exactly the elements written', ok, '%s: last layer' % fnname(F, r), e.sp, why)
    ctx.floor('uses of the raw layer in %s' % F.bodies[r]['path'], n, 1)


def in_raw(F, k):
    b = F.bodies[k]
    return bool(b.get('unsafe')) and raw_read(F, b)


def deep(t):
    """all terms in t, those in projections and polynomials included"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if isinstance(x, (tuple, frozenset)):
            work += list(x)
        elif hasattr(x, 'op') and x not in seen:
            seen.add(x)
            work += list(x.args)
    return seen


def lens(els, x):
    return {s for s in subterms(x) if s.op == 'call' and str(s.args[0]).split('::')[-1] == 'len' and any(a in els for a in s.args[2:])}


def raw_read(F, f):
    """an unsafe function of a type whose fields contain locks"""
    if f.get('self_ty') is None:
        return False
    a = F.adt_by_path.get(F.types[F.peel(f['self_ty'])].get('path'))
    return any(locks.LOCKT.search(F.types[x].get('path', '')) for v in (a or {'vs': ()})['vs'] for g in v['fs'] for x in F.walk(g['t']))


def protected_write(F, k, t, f):
    """a call that hands data to a writer: a local function (or trait method) named write* that takes a writer"""
    if not f['name'].startswith('write') or not (f.get('local') or (f.get('trait') or '').startswith(('io::', 'granne::io::'))):
        return False
    b = F.bodies[k]
    own = b.get('self_ty')
    # calls between methods of the same type are followed, not judged
    if own is not None and f.get('self_ty') is not None and F.peel(f['self_ty']) == F.peel(own):
        return False
    return True
