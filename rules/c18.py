"""Conditional reachability of an empty result, plus path rules for the queue that is drained. Every exported search is inlined and explored from
its entry assuming a non-empty index (the structure whose size the index's own length query reports is not empty) and a positive number of
requested results: in that exploration no return of an empty list may be reachable. For every other way of producing the list, the queue it is
drained from must be non-empty: the work queue receives an entry before the loop that takes entries from it; on every path from taking an entry
to the next round or out of the loop either an entry is pushed to the result queue or a branch has established that the result queue already
holds at least the (positive) search breadth; every removal from the result queue is followed by a push; and no stage that could drop entries
other than the limit by the requested number lies between the queue and the returned list.
Paths are followed knowing which constant a joined truth value has, so a test moved into a helper function is seen through."""
import lib
from explore import Explore
from ir import succs
from rules.searching import filled, roots, leaves, heap_ops, inputs, event_of, path_without, path_threaded, inline, mutated
from vals import mk, pp, subterms, INT, contains, binop

TECHNIQUE = 'conditional reachability of an empty result and path coverage of the result queue over the inlined control-flow graph'
NOTE = 'Decides for every query and non-empty index that a search with positive breadth and limit cannot return an empty list; a breadth of zero panics and is outside the rule.'


def nonempty(ctx, cfg, k, V):
    """assumptions that say the index holds at least one element, recognised by what the type's own length query measures"""
    F = ctx.F(cfg)
    out = []
    for c in {s for b, c in V.cond.items() if b not in V.dead for s in subterms(c)} | {s for e in V.live('call') for a in e.vals for s in subterms(a)}:
        # number of layers of the index, or number of stored elements
        if c.op == 'len' and layers_of(c.args[0]):
            out += [(c, None)]
        elif c.op == 'call' and str(c.args[0]).split('::')[-1] == 'len' and elements_of(V, c.args[2]):
            out += [(c, None)]
        elif c.op == 'call' and str(c.args[0]).split('::')[-1] == 'is_empty' and len(c.args) > 2 and elements_of(V, c.args[2]):
            out += [(c, 0)]
        elif c.op == 'call' and str(c.args[0]).split('::')[-1] in ('split_last', 'last', 'first', 'split_first') and layers_of(c.args[2]):
            out += [(c, 'some')]
    return out


def layers_of(t):
    """is t the list of layers of a loaded index?"""
    for _ in range(6):
        if t.op == 'call' and str(t.args[0]).split('::')[-1] in ('load', 'borrow'):
            return True
        if t.op in ('fld', 'payload') or t.op not in ('phi', 'call', 'arg', 'content', 'mut') and t.args and hasattr(t.args[0], 'op'):
            t = t.args[0]
            continue
        return False
    return False


def elements_of(V, t):
    """is t the element collection of a concurrently used index?"""
    return t.op == 'content' and t.args[0].op == 'fld' and t.args[0].args[0] is mk('arg', 1)


def check(ctx, cfg, k, qa, na, ma):
    F = ctx.F(cfg)
    V = ctx.V(cfg, k, inline=inline, tag='search')
    name = F.bodies[k]['path']
    limit, breadth = mk('arg', na), mk('arg', ma)
    assume = [(binop('Le', INT(1), x, 'usize'), 1) for x in (limit, breadth)] + [(binop('Eq', INT(0), x, 'usize'), 0) for x in (limit, breadth)]
    n = 0
    for t, how in sorted(nonempty(ctx, cfg, k, V), key=lambda p: pp(p[0])):
        n += 1
        if how is None:
            assume += [(binop('Eq', INT(0), t, 'usize'), 0), (binop('Le', INT(1), t, 'usize'), 1), (binop('Lt', INT(0), t, 'usize'), 1), (binop('Le', t, INT(0), 'usize'), 0)]
        elif how == 0:
            assume.append((t, 0))
        else:
            assume += [(mk('discr', t), 1)]
    X = Explore(V, [V.ir.entry], assume=assume, from_entry=True)
    got = 0
    lvs = []
    for e in X.live_events:
        if e.kind == 'return':
            for lf in leaves_in(V, X, e.val):
                if lf.kind == 'empty':
                    ctx.ob('a non-empty index never answers with an empty list', False, '%s: empty result' % name, e.sp, 'an empty list is returned although the index holds elements')
                else:
                    got += 1
                    lvs.append((e, lf))
    ctx.floor('non-empty answers of %s' % name, got, 1)
    if not any(o['key'] == '%s: empty result' % name for o in ctx.obs):
        ctx.ob('a non-empty index never answers with an empty list', True, '%s: empty result' % name, F.bodies[k]['span'], 'no empty list is returned under the assumptions (%d conditions on the size of the index)' % n)
    done = set()
    for e, lf in lvs:
        ok = lf.kind == 'list' and lf.base.op == 'call' and str(lf.base.args[0]).startswith('BinaryHeap::into_')
        ctx.ob('the answer is the drained result queue', ok, '%s: source of the answer' % name, e.sp, pp(lf.term)[:200])
        if not ok:
            continue
        ctx.ob('only the requested number limits the answer', all(b is limit or b is breadth for b in lf.bounds), '%s: limits' % name, e.sp, 'limited by %s' % ', '.join(pp(b) for b in lf.bounds))
        H = lf.base.args[2]
        if H in done:
            continue
        done.add(H)
        check_queue(ctx, V, name, H, breadth)


def leaves_in(V, X, v):
    """the ways the value is built on the explored paths; a list joined at the head of a loop that pushes in every round is as long as the iteration"""
    out, seen, work = [], set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op != 'phi' or X.opaque(x.args[0]):
            out += leaves(V, x)
            continue
        ins = [y for p, y in V.phi_in.get(x, {}).items() if (p, x.args[0]) in X.edges or p == 'entry' and X.entry]
        if filled(V, x, ins):
            ins = [y for y in ins if y.op != 'empty']
        if not ins:
            out += leaves(V, x)
        work += ins
    return out


def full_edge(V, H, breadth):
    """predicate on edges: has the branch established that the result queue holds at least the search breadth?"""
    _, _, _, fam = heap_ops(V, H)
    lens = {V.length(x) for x in fam}

    def f(p, s):
        facts, live = V.edge_facts(p, s)
        for t, v in facts:
            for a, b in V.atoms(t, v):
                if a.op == 'bin' and a.args[0] in ('Lt', 'Le', 'Eq'):
                    o, x, y = a.args
                    if o == 'Le' and b == 1 and x is breadth and y in lens or o == 'Lt' and b == 0 and x in lens and y is breadth or o == 'Lt' and b == 1 and x is breadth and y in lens or o == 'Le' and b == 0 and x in lens and y is breadth:
                        return True
                    if o == 'Eq' and b == 1 and {x, y} & lens and (x is breadth or y is breadth):
                        return True
                    if o == 'Eq' and b == 0 and {x, y} & lens and (x is INT(0) or y is INT(0)):
                        return True
                if a.op == 'discr' and b == 1 and a.args[0].op == 'call' and str(a.args[0].args[0]) == 'BinaryHeap::peek' and a.args[0].args[2] in fam:
                    return True
        return False
    return f


def check_queue(ctx, V, name, H, breadth):
    pushes, pops, bad, fam = heap_ops(V, H)
    ctx.ob('the result queue only changes by pushes and pops', not bad, '%s: result queue' % name, '', pp(bad[0])[:150] if bad else '')
    pe = {e.block for m in pushes for e in event_of(V, m)}
    exits = {x.block for x in V.live('call') if x.name.startswith('BinaryHeap::into_') and x.ret is not None and x.ret.args[2] is H}
    for m in pops:
        for e in event_of(V, m):
            g = path_without(V, [s for s in succs(V.ir.blocks[e.block].t)], exits, cut_blocks=pe)
            ctx.ob('a removal from the result queue makes room for a push', g is None, '%s: removal in %s' % (name, e.fr.path), e.sp, 'the queue can be drained right after a removal' if g is not None else 'every path pushes before draining')
    # work queue: where the entries come from
    works = set()
    full = full_edge(V, H, breadth)
    for m in pushes:
        for e in event_of(V, m):
            d = V.proj(m.args[4], ('f', 0))
            while d.op != 'call' and d.op not in ('phi', 'arg', 'agg', 'mut', 'elem') and d.args and hasattr(d.args[0], 'op'):
                d = d.args[0]
            if d.op == 'call' and str(d.args[0]).split('::')[-1] in ('pop', 'pop_front'):
                for c in V.live('call'):
                    if c.ret is d:
                        works.add(c)
    ctx.floor('work queues of %s' % name, len(works), 1)
    for c in sorted(works, key=lambda c: c.block):
        Q = c.vals[0]
        entry = [x for x in inputs(V, Q)]
        wp, wo, wb, wf = heap_ops(V, Q)
        first = [m for m in wp if mutated(m).op == 'empty']
        ok = first and all(any(V.dominates(e.block, c.block) for e in event_of(V, m)) for m in first)
        ctx.ob('the work queue holds an entry before the first round', bool(ok), '%s: work queue is primed' % name, c.sp, 'primed with %s' % pp(first[0].args[4])[:120] if first else 'nothing is pushed before the loop')
        # from the edge on which an entry was taken
        some = []
        for p in V.ir_blocks() if hasattr(V, 'ir_blocks') else range(len(V.ir.blocks)):
            if p in V.dead:
                continue
            for s in succs(V.ir.blocks[p].t):
                if (p, s) in V.live_e and any(t.op == 'discr' and t.args[0] is c.ret and v == 1 for t, v in V.edge_facts(p, s)[0]):
                    some.append(s)
        ctx.floor('rounds of the search loop of %s' % name, len(some), 1)
        g = path_threaded(V, some, {c.block} | exits, cut_blocks=pe, cut_edge=full)
        ctx.ob('every round leaves a non-empty result queue', g is None, '%s: rounds' % name, c.sp, 'a round can end without a push while the queue may be empty' if g is not None else 'each path pushes or has established that the queue is full')


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        rs = roots(ctx, cfg)
        ctx.floor('exported searches [%s]' % cfg, len(rs), 2 if cfg == 'rw' else 1)
        for k, qa, na, ma in rs:
            check(ctx, cfg, k, qa, na, ma)
    ctx.assume('an index with at least one layer has at least one node in every layer; the search breadth is positive')
