"""how the value a search returns is put together: shared by C17 (sorted, unique, bounded, truthful) and C18 (never empty-handed)"""
import lib
from ir import succs
from rules.common import closure_terms
from vals import mk, pp, subterms, INT, contains

STOP = ('get_neighbors', 'load', 'borrow', 'as_graph', 'as_slice', 'from_parts', 'len', 'index_element', 'fmt', 'clone', 'is_empty')
KEEP = {'Iterator::map', 'Iterator::take', 'Iterator::copied', 'Iterator::cloned', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse', 'Iterator::inspect'}


def inline(key, body, fr):
    if body['kind'] == 'Closure' or key.startswith('granne::max_size_heap'):
        return True
    return key.startswith('granne::index') and (body['name'] not in STOP or body['name'] in ('len', 'is_empty') and locking(body))


def locking(body):
    """a size query of the concurrent index: it reads the size of what a lock protects (possibly through another such query)"""
    for bl in body['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'fn' in (t['f'].get('k') or {}):
            p = t['f']['k']['fn']['path']
            if 'RwLock' in p and p.endswith('::read') or p.split('::')[-1] == 'len' and 'RwGranneBuilder' in p:
                return True
    return False


def roots(ctx, cfg):
    """exported search functions: (key, number of the argument that is the query, and of the one that limits the number of results)"""
    F = ctx.F(cfg)
    out = []
    for k, b in sorted(F.bodies.items()):
        if b['kind'] == 'Closure' or not b.get('exported') or not k.startswith('granne::index') or b['name'] != 'search':
            continue
        out.append((k, b['argnames'].index('element') + 1 if 'element' in b['argnames'] else 2, b['argnames'].index('num_neighbors') + 1 if 'num_neighbors' in b['argnames'] else 4,
                    b['argnames'].index('max_search') + 1 if 'max_search' in b['argnames'] else 3))
    return out


def inputs(V, t):
    """all values a joined value may have (joins expanded)"""
    seen, out, work = set(), [], [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        else:
            out.append(x)
    return out


def mutated(t):
    return t.args[3 + t.args[2]]


class Leaf(object):
    """one way a result is produced"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def source(V, t, bounds):
    """follow an ordered iteration back to what is iterated"""
    for _ in range(40):
        if t.op == 'call' and str(t.args[0]) in KEEP:
            if str(t.args[0]) == 'Iterator::take':
                bounds.append(t.args[3])
            t = t.args[2]
            continue
        if t.op == 'mut' and str(t.args[0]) == 'Vec::truncate':
            bounds.append(t.args[4])
            t = mutated(t)
            continue
        return t
    return t


def leaves(V, t):
    """the ways the returned list is built"""
    out = []
    work, seen = [(t, ())], set()
    while work:
        x, bnd = work.pop()
        if (x, bnd) in seen:
            continue
        seen.add((x, bnd))
        if x.op == 'phi':
            ins = list(V.phi_in.get(x, {}).values())
            if filled(V, x, ins):
                # as many entries as the iteration has: empty only if that is
                ins = [y for y in ins if y.op != 'empty']
            work += [(y, bnd) for y in ins]
        elif x.op == 'empty':
            out.append(Leaf('empty', term=x))
        elif x.op == 'mut' and str(x.args[0]) == 'Vec::truncate':
            work.append((mutated(x), bnd + (x.args[4],)))
        elif x.op == 'mut' and str(x.args[0]) in ('Vec::push', 'Vec::reserve'):
            work.append((mutated(x), bnd))
            if str(x.args[0]) == 'Vec::push':
                item = x.args[4]
                el = [s for s in subterms(item) if s.op == 'elem']
                srcs = set()
                for e in el[:1]:
                    for c in V.live('call'):
                        if c.site == e.args[1] and c.name == 'Iterator::next':
                            for s in inputs(V, c.vals[0]):
                                srcs.add(s)
                bounds = list(bnd)
                if len(srcs) == 1:
                    base = source(V, srcs.pop(), bounds)
                    out.append(Leaf('list', base=base, item=item, bounds=bounds, term=x))
                else:
                    out.append(Leaf('unknown', term=x))
        elif x.op == 'call' and str(x.args[0]) in KEEP:
            bounds = list(bnd)
            item = None
            y = x
            while item is None and y.op == 'call' and str(y.args[0]) in KEEP:
                if str(y.args[0]) == 'Iterator::map':
                    item = y.args[3].args[1] if y.args[3].op == 'cloret' else False
                    break
                y = y.args[2]
            base = source(V, x, bounds)
            out.append(Leaf('list', base=base, item=item, bounds=bounds, term=x))
        else:
            out.append(Leaf('unknown', term=x))
    return out


def filled(V, ph, ins):
    """is the list joined at a loop head pushed to in every round of the loop?"""
    head = ph.args[0]
    push = [y for y in ins if y.op == 'mut' and str(y.args[0]) == 'Vec::push']
    if not any(y.op == 'empty' for y in ins) or not push or len(ins) != len(push) + sum(y.op == 'empty' for y in ins):
        return False
    pb = {e.block for y in push for e in event_of(V, y)}
    for y in push:
        for s in subterms(y.args[4]):
            if s.op != 'elem':
                continue
            nx = [c for c in V.live('call') if c.site == s.args[1] and c.name == 'Iterator::next']
            some = [d for c in nx for p in range(len(V.ir.blocks)) if p not in V.dead for d in succs(V.ir.blocks[p].t)
                    if (p, d) in V.live_e and any(t.op == 'discr' and t.args[0] is c.ret and v == 1 for t, v in V.edge_facts(p, d)[0])]
            done = {b for b, bl in enumerate(V.ir.blocks) if bl.t is not None and bl.t[0] == 'return'}
            if some and path_without(V, some, done | {head}, cut_blocks=pb) is None:
                return True
    return False


def heap_ops(V, H):
    """(pushed values with their mut terms, other mutations, unknown bases) of a collection value, joins followed"""
    push, pop, bad = [], [], []
    seen, work = set(), [H]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'empty':
            pass
        elif x.op == 'mut':
            n = str(x.args[0])
            if n.endswith('::push') or n.endswith('::push_back'):
                push.append(x)
            elif n.endswith('::pop') or n.endswith('::pop_front'):
                pop.append(x)
            elif n.endswith(('::insert', '::reserve', '::shrink_to_fit')):
                push.append(x) if n.endswith('::insert') else None
            else:
                bad.append(x)
            work.append(mutated(x))
        else:
            bad.append(x)
    return push, pop, bad, seen


def event_of(V, m):
    """the call event a mut term stands for"""
    return [e for e in V.live('call') if e.name == str(m.args[0]) and e.site == m.args[1]]


def path_without(V, starts, goals, cut_blocks=(), cut_edge=None):
    """is there a path from one of the start edges to a goal block that avoids the cut blocks and edges? returns the goal or None"""
    seen, work = set(), list(starts)
    while work:
        b = work.pop()
        if b in seen or b in V.dead:
            continue
        seen.add(b)
        if b in goals:
            return b
        if b in cut_blocks:
            continue
        for s in succs(V.ir.blocks[b].t):
            if s in V.dead or (b, s) not in V.live_e or cut_edge is not None and cut_edge(b, s):
                continue
            work.append(s)
    return None


def path_threaded(V, starts, goals, cut_blocks=(), cut_edge=None):
    """path_without, knowing on a path which constant a joined value has: `a && b` computed in one place and tested in another"""
    phis = {}
    for ph in V.phi_in:
        if any(x.op == 'int' and x.args[0] in (0, 1) for x in V.phi_in[ph].values()):
            phis.setdefault(ph.args[0], []).append(ph)
    relevant = {ph for l in phis.values() for ph in l}
    grow = True
    while grow:
        grow = False
        for ph, ins in V.phi_in.items():
            if ph not in relevant and any(x in relevant for x in ins.values()):
                relevant.add(ph)
                phis.setdefault(ph.args[0], []).append(ph)
                grow = True

    def truth(t, known):
        n = 0
        while t.op == 'un' and t.args[0] == 'Not':
            t, n = t.args[1], 1 - n
        if t.op == 'int' and t.args[0] in (0, 1):
            return t.args[0] ^ n
        return known[t] ^ n if t in known else None
    seen, work = set(), [(b, frozenset()) for b in starts]
    while work:
        b, kn = work.pop()
        if (b, kn) in seen or b in V.dead:
            continue
        seen.add((b, kn))
        if len(seen) > 20000:
            return path_without(V, starts, goals, cut_blocks, cut_edge)
        if b in goals:
            return b
        if b in cut_blocks:
            continue
        known = dict(kn)
        for s in succs(V.ir.blocks[b].t):
            if s in V.dead or (b, s) not in V.live_e or cut_edge is not None and cut_edge(b, s):
                continue
            fs = V.edge_facts(b, s)[0]
            if any(v in (0, 1) and truth(t, known) not in (None, v) for t, v in fs):
                continue
            new = dict(known)
            for ph in phis.get(s, ()):
                x = V.phi_in[ph].get(b)
                v = truth(x, known) if x is not None else None
                new.pop(ph, None)
                if v is not None:
                    new[ph] = v
            work.append((s, frozenset(new.items())))
    return None


def norm(V, x):
    """an element of an iteration whose state is joined at the loop head, as the value its stages give it"""
    if x.op == 'fld':
        return V.proj(norm(V, x.args[0]), x.args[1])
    if x.op == 'elem':
        ins = inputs(V, x.args[0])
        if len(ins) == 1:
            y = ins[0]
            while y.op == 'call' and str(y.args[0]) in KEEP or y.op == 'mut' and str(y.args[0]) == 'Vec::truncate':
                if str(y.args[0]) == 'Iterator::map':
                    return norm(V, y.args[3].args[1]) if y.args[3].op == 'cloret' else x
                y = y.args[2] if y.op == 'call' else mutated(y)
            return mk('elem', y, x.args[1])
    return x
