"""Backward data-flow of the returned list. Every exported search is inlined (its own code, the bounded heap, not the graph access); the list it
returns is traced back through joins and order-preserving stages to its source. Each way of producing it must be an empty list or the
ascending drain of a priority queue, limited by the requested number, with every reported pair made of the two parts of one queue entry.
Every entry ever pushed to that queue is followed back: it must pair an id with the distance computed between the query and the element with
that very id (an entry popped from the work queue is followed to what was pushed there), and every id must be pushed behind the edge on which
inserting it into the set of visited ids succeeded (or before the loop, once, and be inserted too); nothing may be removed from that set, and no
entry may be pushed twice after one pop."""
import lib
from rules.common import closure_terms
from rules.searching import roots, leaves, heap_ops, inputs, event_of, path_without, inline, mutated, norm
from ir import succs
from vals import mk, pp, subterms, INT, contains

TECHNIQUE = 'backward data-flow of the returned list over the inlined control-flow graph, with guard dominance for uniqueness'
NOTE = 'Decides order, bound, uniqueness and truthfulness structurally for every index, query and parameter; correctness of the standard library heap and hash set is assumed.'


def fields(V, t, *path):
    for i in path:
        t = V.proj(t, ('f', i))
    return t


def is_dist(V, d, n, q):
    """is d the distance between element n and the query q?"""
    return d.op == 'call' and str(d.args[0]).split('::')[-1] in ('dist_to_element', 'dist') and n in d.args[2:] and q in d.args[2:]


def unreverse(V, v):
    """(term, reversed?)"""
    if v.op == 'agg' and v.args[0][0] == 'adt' and str(v.args[0][1]).endswith('Reverse'):
        return v.args[1], True
    return v, False


def pop_of(v):
    """the pop call whose result v is a part of"""
    x = v
    while x.op in ('fld', 'payload', 'd') or (x.op != 'call' and x.args and hasattr(x.args[0], 'op') and x.op not in ('phi', 'agg', 'mut')):
        x = x.args[0]
    return x if x.op == 'call' and str(x.args[0]).split('::')[-1] in ('pop', 'pop_front') else None


def check_entries(ctx, V, name, q, H, what, depth=0):
    """all entries of the queue H: truthful and unique"""
    pushes, pops, bad, vals = heap_ops(V, H)
    ctx.ob('the result queue only holds what was pushed to it', not bad, '%s: %s' % (name, what), '', 'unexpected source %s' % pp(bad[0])[:200] if bad else 'pushes and pops only')
    ctx.floor('pushes to the %s of %s' % (what, name), len(pushes), 1)
    for m in pushes:
        for e in event_of(V, m):
            v, _ = unreverse(V, m.args[4])
            d, n = V.proj(v, ('f', 0)), V.proj(v, ('f', 1))
            key = '%s: %s, pushed in %s' % (name, what, e.fr.path)
            pd, pn = pop_of(d), pop_of(n)
            if pd is not None or pn is not None:
                # one entry moved from the work queue
                moved = pd is pn and pd is not None and d.op == 'fld' and n.op == 'fld' and d.args[0] is n.args[0] and d.args[1] == ('f', 0) and n.args[1] == ('f', 1)
                ctx.ob('an entry taken from the work queue is passed on whole', moved, key, e.sp, 'pushes (%s, %s)' % (pp(d)[:120], pp(n)[:120]))
                if not moved:
                    continue
                popb = [c for c in V.live('call') if c.ret is pd]
                pb = {c.block for c in popb}
                allp = {x.block for y in pushes for x in event_of(V, y)}
                twice = path_without(V, [s for s in succs(V.ir.blocks[e.block].t)], allp, cut_blocks=pb)
                ctx.ob('an entry is passed on at most once', twice is None, key + ' (once)', e.sp, 'another push is reachable before the next entry is taken' if twice is not None else 'the next push is behind the next pop')
                if depth == 0:
                    check_entries(ctx, V, name, q, popb[0].vals[0] if popb else pd.args[2], 'work queue', 1)
                continue
            ctx.ob('every reported distance is the one between the query and that element', is_dist(V, d, n, q), key + ' (distance)', e.sp, 'pushes distance %s for element %s' % (pp(d)[:200], pp(n)[:120]))
            ins = [c for c in V.live('call') if c.name.endswith(('HashSet::insert', 'BTreeSet::insert')) and len(c.vals) > 1 and c.vals[1] is n]
            fresh = any((t.op == 'call' and t in [c.ret for c in ins] and val == 1) for t, val in V.facts(e.block))
            if not fresh and ins:
                # asked first, inserted separately
                for t, val in V.facts(e.block):
                    if val == 0 and t.op == 'call' and str(t.args[0]).endswith(('HashSet::contains', 'BTreeSet::contains')) and n in t.args[2:]:
                        qs = {c.block for c in V.live('call') if c.ret is t}
                        fresh = any(V.dominates(c.block, e.block) and any(V.dominates(b, c.block) for b in qs) or
                                    qs and path_without(V, succs(V.ir.blocks[e.block].t), qs, cut_blocks={c.block}) is None for c in ins)
            if not fresh and ins:
                # the entry point: pushed once, outside the loop that takes entries, and marked as visited as well
                # marked before anything else can be pushed
                others = [x.block for y in pushes for x in event_of(V, y) if x is not e]
                marked = all(any(V.dominates(c.block, o) for c in ins) for o in others)
                # and in the very set the others consult
                sets = [heap_ops(V, c.vals[0])[0] for y in pushes for x in event_of(V, y) if x is not e for c in V.live('call')
                        if c.name.endswith('Set::insert') and len(c.vals) > 1 and V.proj(unreverse(V, y.args[4])[0], ('f', 1)) is c.vals[1]]
                shared = all(any(m2.args[1] == c.site for m2 in st for c in ins) for st in sets)
                fresh = mutated(m).op == 'empty' and marked and shared
            ctx.ob('no id enters the queue twice', fresh, key + ' (unique)', e.sp, 'id %s is pushed %s' % (pp(n)[:120], 'only when it was not yet visited' if fresh else 'without a successful insertion into the set of visited ids'))
            for c in ins:
                p2, o2, b2, _ = heap_ops(V, c.vals[0])
                ctx.ob('ids are never forgotten by the visited set', not o2 and not b2, key + ' (visited)', c.sp, 'the set also comes from %s' % pp((o2 + b2)[0])[:150] if o2 + b2 else 'insertions only')


def check(ctx, cfg, k, qa, na):
    F = ctx.F(cfg)
    V = ctx.V(cfg, k, inline=inline, tag='search')
    name = F.bodies[k]['path']
    q, limit = mk('arg', qa), mk('arg', na)
    n = 0
    heaps = []
    for e in V.live('return'):
        for lf in leaves(V, e.val):
            if lf.kind == 'empty':
                ctx.ob('results come from the ranked queue', True, '%s: empty result' % name, e.sp, 'an empty list is sorted and unique')
                continue
            key = '%s: result' % name
            ok = lf.kind == 'list' and lf.base.op == 'call' and str(lf.base.args[0]) == 'BinaryHeap::into_sorted_vec'
            ctx.ob('results come from the ranked queue, in ascending order', ok, key + ' (order)', e.sp, 'the list is %s' % pp(lf.term)[:300])
            if not ok:
                continue
            n += 1
            H = lf.base.args[2]
            it = lf.item
            good = it is not None and it is not False
            if good:
                a, b = norm(V, V.proj(it, ('f', 0))), norm(V, V.proj(it, ('f', 1)))
                src = a.args[0] if a.op == 'fld' else None
                good = src is not None and src.op == 'elem' and src.args[0] is lf.base and a.args[1] == ('f', 1) and b.op == 'fld' and b.args[0] is src and b.args[1] == ('f', 0)
            ctx.ob('each result pairs the id and the distance of one queue entry', good, key + ' (pair)', e.sp, 'the pair is %s' % pp(it)[:200] if it else 'no pair recognised')
            ctx.ob('at most as many results as requested', limit in lf.bounds, key + ' (bound)', e.sp, 'limited by %s' % ', '.join(pp(x) for x in lf.bounds) if lf.bounds else 'not limited by the requested number')
            if H not in heaps:
                heaps.append(H)
    ctx.floor('ranked results of %s' % name, n, 1)
    for H in heaps:
        check_entries(ctx, V, name, q, H, 'result queue')


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        rs = roots(ctx, cfg)
        ctx.floor('exported searches [%s]' % cfg, len(rs), 2 if cfg == 'rw' else 1)
        for k, qa, na, ma in rs:
            check(ctx, cfg, k, qa, na)
    ctx.assume('BinaryHeap::into_sorted_vec is ascending and HashSet::insert reports whether the value was new')
