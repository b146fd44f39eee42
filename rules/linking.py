"""writes to the neighbour lists of a graph under construction: shared by C15 (no blind overwrites) and C16 (no self and duplicate neighbours)"""
import lib
from ir import succs
from rules.inserting import bases, last, loops_back, rng
from rules.searching import inputs, mutated, path_without, event_of
from vals import mk, pp, subterms, INT, binop

UNUSED = INT(4294967295)
STOP = ('get_neighbors', 'load', 'borrow', 'as_graph', 'as_slice', 'from_parts', 'len', 'search', 'search_for_neighbors', 'find_entrypoint', 'fmt', 'clone', 'get_index')


def node_lock(F, t):
    """does the type mention a lock around the slots of a node?"""
    for x in F.walk(t):
        r = F.types[x]
        if r.get('k') == 'adt' and r['path'].endswith('RwLock') and 'u32]' in (F.tstr(x) or ''):
            return True
    return False


def slots_param(F, b):
    return [i for i, t in enumerate(b['ins']) if node_lock(F, t)]


def roots(ctx, cfg):
    """topmost functions that get the locked nodes of a layer and change them; and those that get a whole layer exclusively"""
    F = ctx.F(cfg)
    cg = lib.callgraph(F)
    locked = {k for k, b in F.bodies.items() if b['kind'] != 'Closure' and k.startswith('granne::index') and slots_param(F, b)}
    whole = {k for k, b in F.bodies.items() if b['kind'] != 'Closure' and k.startswith('granne::index::{') and not b.get('exported')
             and any(F.types[t].get('k') == 'ref' and F.types[t].get('mut') and 'FixedWidthSliceVector' in (F.tstr(t) or '') for t in b['ins'])}
    out = []
    live = lib.reachable(F, lib.roots(F))
    for s in (locked & live, whole & live):
        called = set()
        for k in s:
            called |= {x for x in lib.reachable(F, [k]) if x != k}
        out += sorted(k for k in s if k not in called)
    return out


def inline(extra=()):
    def f(key, body, fr):
        if body['kind'] == 'Closure':
            return True
        return key.startswith('granne::index') and body['name'] not in STOP and key not in extra
    return f


def views(ctx, cfg):
    rs = roots(ctx, cfg)
    for k in rs:
        yield k, ctx.V(cfg, k, inline=inline([r for r in rs if r != k]), tag='linking')


def node_of(V, t):
    """the node a slot belongs to: ('lock', node term, acquisition) / ('own', term) / None"""
    bs = bases(V, t)
    if len(bs) != 1:
        return None
    b = next(iter(bs))
    if b.op == 'content':
        return 'lock', b.args[0], b
    if b.op in ('elem', 'arg', 'fld', 'iidx'):
        return 'own', b, b
    return None


class Write(object):
    """one change of neighbour slots; off: the first slot of the part that is iterated over (None: not known), cap: limits of that iteration"""
    def __init__(self, V, e, kind, node, idx, val, off=INT(0), caps=()):
        self.V, self.e, self.kind, self.node, self.idx, self.val, self.off, self.caps = V, e, kind, node, idx, val, off, tuple(caps)

    def __repr__(self):
        return '%s %s[%s] = %s' % (self.kind, pp(self.node[1]), pp(self.idx) if self.idx is not None else '*', pp(self.val) if self.val is not None else '?')


BULK = {'fill', 'copy_from_slice', 'clone_from_slice', 'swap', 'sort', 'sort_unstable', 'sort_by_key', 'rotate_left', 'rotate_right', 'reverse', 'copy_within', 'swap_with_slice', 'fill_with'}
VIEWS = {'iter_mut', 'iter', 'into_iter', 'by_ref', 'rev', 'peekable', 'fuse', 'inspect', 'deref_mut', 'deref', 'as_mut', 'as_ref', 'as_mut_slice', 'as_slice', 'borrow_mut', 'borrow', 'copied', 'cloned', 'into_par_iter', 'par_iter_mut', 'par_iter'}


def strip(V, t):
    """(base, first slot, limits) of a slice: the parts of a larger slice are followed to that slice"""
    seen, out, work = set(), [], [(t, INT(0), ())]
    while work:
        x, off, caps = work.pop()
        if (x, off) in seen:
            continue
        seen.add((x, off))
        if x.op == 'phi':
            work += [(y, off, caps) for y in V.phi_in.get(x, {}).values()]
        elif x.op == 'mut':
            work.append((mutated(x), off, caps))
        elif x.op == 'with':
            work.append((x.args[0], off, caps))
        elif x.op == 'fld' and x.args[1][0] == 'i' and rng(x.args[1][1]) is not None:
            lo, hi = rng(x.args[1][1])
            work.append((x.args[0], lo if off is INT(0) else None, caps + ((hi,) if hi is not None else ())))
        elif x.op == 'fld' and x.args[0].op == 'call' and last(x.args[0].args[0]) in ('split_at_mut', 'split_at') and x.args[1] in (('f', 0), ('f', 1)):
            c = x.args[0]
            work.append((c.args[2], off if x.args[1] == ('f', 0) else c.args[3] if off is INT(0) else None, caps + ((c.args[3],) if x.args[1] == ('f', 0) else ())))
        elif x.op == 'call' and last(x.args[0]) in VIEWS and len(x.args) > 2 and not str(x.args[0]).startswith('FixedWidth'):
            work.append((x.args[2], off, caps))
        else:
            out.append((x, off, caps))
    return out


def component(V, t):
    """where the members named by an iteration variable (or a part of one) come from: (base, site, first, limits)"""
    path = []
    while t.op == 'fld' and t.args[1][0] == 'f':
        path.insert(0, t.args[1])
        t = t.args[0]
    if t.op != 'elem':
        return []
    out = []

    def go(seq, path, off, caps, seen):
        for x in ([seq] if seq.op != 'phi' else inputs(V, seq)):
            if (x, tuple(path)) in seen:
                continue
            seen = seen | {(x, tuple(path))}
            if x.op == 'mut' and last(x.args[0]) in SAMEMEMBERS:
                go(mutated(x), path, off, caps, seen)
                continue
            n = last(x.args[0]) if x.op == 'call' else None
            if n == 'zip' and path and len(x.args) > 3:
                other = x.args[3] if path[0] == ('f', 0) else x.args[2]
                go(x.args[2] if path[0] == ('f', 0) else x.args[3], path[1:], off, caps, seen)
            elif n == 'enumerate' and path:
                if path[0] == ('f', 1):
                    go(x.args[2], path[1:], off, caps, seen)
            elif n == 'take':
                go(x.args[2], path, off, caps + (x.args[3],), seen)
            elif n == 'skip':
                go(x.args[2], path, x.args[3] if off is INT(0) else None, caps, seen)
            elif n in VIEWS and len(x.args) > 2 and not str(x.args[0]).startswith('FixedWidth'):
                go(x.args[2], path, off, caps, seen)
            elif not path:
                for b, o, c in strip(V, x):
                    out.append((b, t.args[1], o if off is INT(0) else off if o is INT(0) else None, caps + c))
            else:
                out.append((None, t.args[1], None, caps))
    go(t.args[0], path, INT(0), (), frozenset())
    return out


def target(V, e):
    """(node, slot, first, limits) of a write event"""
    base, path = e.lv
    ix = [p for p in path if p[0] in ('i', 'c')]
    if ix:
        ss = strip(V, base)
        if len({s[0] for s in ss}) != 1:
            return None
        b, off, caps = ss[0]
        n = node_of(V, b)
        if n is None or n[0] == 'own' and not own_node(V, n[1], path):
            return None
        return n, ix[-1][1] if hasattr(ix[-1][1], 'op') else INT(ix[-1][1]), off if len({s[1] for s in ss}) == 1 else None, caps
    if path == () and base.op in ('elem', 'fld'):
        cs = component(V, base)
        if len({c[0] for c in cs}) == 1 and cs[0][0] is not None:
            b, site, off, caps = cs[0]
            if b.op == 'content':
                return ('lock', b.args[0], b), mk('iidx', b, site), off, caps
            if b.op == 'elem' and any(s.op == 'call' and 'FixedWidthSliceVector' in str(s.args[0]) for s in subterms(b)):
                return ('own', b, b), mk('iidx', b, site), off, caps
    n = node_of(V, base)
    if n is not None and n[0] == 'lock':
        return n, None, None, ()
    return None


def writes(V):
    out = []
    for e in V.live('write'):
        if not hasattr(e.lv[0], 'op'):
            continue
        t = target(V, e)
        if t is None:
            continue
        n, idx, off, caps = t
        out.append(Write(V, e, 'slot' if idx is not None else 'whole', n, idx, e.val, off, caps))
    for e in V.live('call'):
        if last(e.name) not in BULK:
            continue
        for a in e.vals[:1]:
            for b, off, caps in strip(V, a):
                n = node_of(V, b)
                if n is not None and (n[0] == 'lock' or own_node(V, n[1], (('i', INT(0)),))):
                    out.append(Write(V, e, last(e.name), n, None, e.vals[1] if len(e.vals) > 1 else None, off, caps))
                    break
    return out


def own_node(V, b, path):
    """a place that is a node reached by exclusive access: a member of the whole layer's exclusive iteration"""
    if not any(p[0] in ('i', 'c') for p in path):
        return False
    return b.op == 'elem' or b.op == 'fld'


def values(V, t, limit=3000):
    """all terms a value is computed from (joins followed), lengths left out"""
    seen, work = set(), [t]
    while work and len(seen) < limit:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'len' or x.op == 'call' and last(x.args[0]) == 'len':
            continue
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
            continue
        for a in x.args:
            if hasattr(a, 'op'):
                work.append(a)
            elif isinstance(a, tuple):
                stack = list(a)
                while stack:
                    y = stack.pop()
                    if hasattr(y, 'op'):
                        work.append(y)
                    elif isinstance(y, (tuple, frozenset)):
                        stack += list(y)
    return seen


def is_eq(t):
    return t.op == 'bin' and t.args[0] == 'Eq'


def same_pair(t, a, b):
    return is_eq(t) and (t.args[1] is a and t.args[2] is b or t.args[1] is b and t.args[2] is a)


def implied(V, facts):
    for t, v in facts:
        for a, b in V.atoms(t, v):
            yield a, b


# ------------------------------------------------------------------ list members
class Item(object):
    """a possible member of a list: its term, and facts known to hold for it"""
    def __init__(self, term, facts=(), via=()):
        self.term, self.facts, self.via = term, tuple(facts), tuple(via)


THROUGH = {'collect', 'into_iter', 'iter', 'rev', 'take', 'skip', 'by_ref', 'copied', 'cloned', 'to_vec', 'clone', 'peekable', 'fuse', 'inspect', 'into_vec', 'as_slice', 'deref', 'step_by', 'iter_mut', 'into_sorted_vec',
           'into_boxed_slice', 'skip_while', 'as_ref', 'borrow', 'par_iter', 'into_par_iter', 'index', 'split_at', 'drain', 'into', 'from'}
SAMEMEMBERS = {'reverse', 'truncate', 'dedup', 'dedup_by_key', 'dedup_by', 'shrink_to_fit', 'reserve', 'pop', 'swap', 'drain', 'remove', 'swap_remove', 'next', 'split_off', 'clear', 'take', 'by_ref', 'peek', 'position', 'any', 'all', 'find',
               'iter_mut', 'deref_mut'}


def members(V, L, seen=None, out=None):
    """possible members of a list (Items); an Item with term None stands for members that are not followed"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    work = [L]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        n = last(x.args[0]) if x.op in ('call', 'mut') else None
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'empty':
            pass
        elif x.op == 'with':
            work.append(x.args[0])
            for p, v in writes_of(x):
                if v.op == 'agg' and v.args[0][0] == 'array':
                    out += [Item(y) for y in v.args[1:]]
                else:
                    out.append(Item(v))
        elif x.op == 'mut' and n in ('push', 'push_back', 'insert') and len(x.args) > 4:
            evs = event_of(V, x)
            fs = None
            for e in evs:
                f = set(V.facts(e.block))
                fs = f if fs is None else fs & f
            out.append(Item(x.args[5] if n == 'insert' and len(x.args) > 5 else x.args[4], fs or (), evs))
            work.append(mutated(x))
        elif x.op == 'mut' and n in ('extend', 'append', 'extend_from_slice'):
            work += [x.args[4], mutated(x)]
        elif x.op == 'mut' and n in ('retain', 'retain_mut') and len(x.args) > 4:
            own = [y for y in subterms(x.args[4]) if y.op == 'elem' and y.args[1] == x.args[1]]
            out.append(Item(own[0] if own else mk('elem', mutated(x), x.args[1])))
        elif x.op == 'mut' and (n in SAMEMEMBERS or n.startswith('sort') or n.startswith('select')):
            work.append(mutated(x))
        elif x.op == 'call' and n in THROUGH and len(x.args) > 2:
            work.append(x.args[2])
        elif x.op == 'call' and n in ('filter', 'take_while'):
            own = [y for y in subterms(x.args[3]) if y.op == 'elem' and y.args[1] == x.args[1]] if len(x.args) > 3 else []
            out.append(Item(own[0] if own else mk('elem', x.args[2], x.args[1])))
        elif x.op == 'call' and n in ('map', 'filter_map', 'flat_map') and len(x.args) > 3 and x.args[3].op == 'cloret':
            out.append(Item(x.args[3].args[1]))
        elif x.op == 'call' and n == 'chain':
            work += [x.args[2], x.args[3]]
        elif x.op == 'call' and n == 'zip':
            A, B = members(V, x.args[2], set(seen)), members(V, x.args[3], set(seen))
            for a in A:
                for b in B or [Item(None)]:
                    out.append(Item(mk('agg', ('tuple',), a.term if a.term is not None else mk('opaque', x.args[2]), b.term if b.term is not None else mk('opaque', x.args[3])), a.facts + b.facts, a.via))
        elif x.op == 'call' and n == 'enumerate':
            for a in members(V, x.args[2], set(seen)):
                out.append(Item(mk('agg', ('tuple',), mk('opaque', x), a.term if a.term is not None else mk('opaque', x.args[2])), a.facts, a.via))
        elif x.op == 'call' and n in ('repeat', 'once', 'repeat_n'):
            out.append(Item(x.args[2]))
        elif x.op == 'agg' and x.args[0][0] == 'array':
            out += [Item(y) for y in x.args[1:]]
        else:
            out.append(Item(None, via=(x,)))
    return out


def writes_of(x):
    out = []
    for w in x.args[1:]:
        stack = list(w) if isinstance(w, (tuple, frozenset)) else [w]
        for y in stack:
            if isinstance(y, tuple) and len(y) == 2 and hasattr(y[1], 'op'):
                out.append(y)
    return out


class Leaf(object):
    def __init__(self, term, ok, via):
        self.term, self.ok, self.via = term, ok, via


def rebuild(V, b, path):
    for p in path:
        b = V.proj(b, p)
    return b


def leaves(V, v, prove, facts=(), via=(), path=(), seen=None, depth=0):
    """the values a term can have, lists it was taken from looked into; prove(term, facts) -> True ends the search at that term"""
    seen = set() if seen is None else seen
    whole = rebuild(V, v, path)
    if prove is not None and prove(whole, facts):
        return [Leaf(whole, True, via)]
    k = (v, path, via)
    if k in seen or depth > 40:
        return []
    seen.add(k)
    if v.op == 'fld':
        # a projection of something that is looked into first
        if v.args[0].op in ('elem', 'phi', 'agg', 'fld', 'payload', 'with') and not (v.args[1][0] in ('i', 'c')):
            return leaves(V, v.args[0], prove, facts, via, (v.args[1],) + path, seen, depth + 1)
        if v.args[1][0] in ('i', 'c'):
            return listed(V, v.args[0], None, whole, prove, facts, via, path, seen, depth)
        return [Leaf(whole, False, via)]
    if v.op == 'phi':
        out = []
        for p, x in V.phi_in.get(v, {}).items():
            f = set(facts) | set(V.facts(p)) | set(V.edge_facts(p, v.args[0])[0])
            out += leaves(V, x, prove, f, via, path, seen, depth + 1)
        return out
    if v.op == 'agg' and path:
        w = V.proj(v, path[0])
        if not (w.op == 'fld' and w.args[0] is v):
            return leaves(V, w, prove, facts, via, path[1:], seen, depth + 1)
    if v.op == 'elem':
        return listed(V, v.args[0], v.args[1], whole, prove, facts, via, path, seen, depth)
    return [Leaf(whole, False, via)]


def listed(V, L, site, whole, prove, facts, via, path, seen, depth):
    """the values a member of the list L can have"""
    ms = members(V, L)
    if not ms:
        return []
    if all(m.term is None for m in ms):
        return [Leaf(whole, False, via)]
    out = []
    for m in ms:
        if m.term is None:
            out.append(Leaf(rebuild(V, mk('elem', m.via[0], site), path), False, via))
        else:
            out += leaves(V, m.term, prove, set(facts) | set(m.facts), via + tuple(x for x in m.via if hasattr(x, 'block')), path, seen, depth + 1)
    return out


def filtered(V, t):
    """conditions that hold for a term because its iteration was filtered: (atom, value)"""
    out = []
    for s in subterms(t):
        if s.op != 'elem':
            continue
        for c in V.live('call'):
            if c.site == s.args[1] and last(c.name) in ('filter', 'take_while', 'retain') and len(c.vals) > 1 and c.vals[1].op == 'cloret':
                out += list(V.atoms(c.vals[1].args[1], 1))
    return out
