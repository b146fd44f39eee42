"""Value-flow equality. Every public function that reorders an index is inlined; the list handed to the element collection's permute, the list the
new layers are built from and the list returned have to be one and the same value, and its entries are shown to be the positions of the layers,
layer after layer, each exactly once. How the new layers are put together is reconstructed from the appends and the loops they happen in: each
layer becomes one list per entry of the permutation (cut to the layer's length), in order, holding exactly the neighbours the old layer had at
that entry, each replaced by its entry in the inverse permutation; the inverse is shown to hold i at permutation[i]. Each permute
operation is shown either to collect the members in the order of the permutation, or, working in place, to write slot x from slot permutation[x]
only, along complete cycles.
A permutation may also be all positions in order, parts of which, each within one layer, are then sorted in place."""
import re
from rules import flow
from rules import reordering as R
from rules.common import mut_effects
from rules.flow import canon, enumerates, flatten, inorder, members, tree
from rules.inserting import last, loops_back, rng
from rules.searching import inputs, mutated, path_without
from ir import succs
from linear import Linear, add, name
from vals import mk, pp, subterms, INT, to_poly, padd

TECHNIQUE = 'value-flow equality over reconstructed list appends and loops'
NOTE = 'Collections and layers are taken at their interfaces (get, push, get_neighbors); that sets are encoded faithfully is C36. The construct of the permutation is decided up to the order of equal-layer entries, which is free.'
A1 = R.A1


def unwrapped(t):
    """value inside conversions and unwraps"""
    for _ in range(12):
        if t.op == 'payload' or t.op == 'fld' and t.args[1][0] in ('d',) or t.op == 'fld' and t.args[0].op == 'fld' and t.args[0].args[1][0] == 'd':
            t = t.args[0]
        elif t.op == 'call' and name(t) in ('try_from', 'try_into', 'from', 'into', 'unwrap', 'expect', 'unwrap_or_else') and len(t.args) > 2:
            t = t.args[2]
        elif t.op == 'cast':
            t = t.args[-1] if hasattr(t.args[-1], 'op') else t.args[0]
        elif t.op == 'fld' and t.args[0].op == 'call' and name(t.args[0]) in ('try_from', 'try_into', 'get') and t.args[1] != ('i',):
            t = t.args[0]
        elif t.op == 'call' and name(t) == 'get' and len(t.args) == 4 and t.args[2].op != 'fld':
            return mk('fld', t.args[2], ('i', t.args[3]))
        else:
            return t
    return t


def cut(B):
    """(list, limit) of the start of a list"""
    if B.op == 'fld' and B.args[1][0] == 'i':
        g = rng(B.args[1][1])
        if g and g[0] is INT(0) and g[1] is not None:
            return B.args[0], g[1]
    if B.op == 'call' and name(B) == 'take' and len(B.args) > 3:
        return B.args[2], B.args[3]
    return B, None


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        rs = R.roots(ctx, cfg)
        ctx.floor('public reordering functions [%s]' % cfg, len(rs), 2)
        for k in rs:
            reordering(ctx, cfg, k)
        ks = sorted(k for k, b in F.bodies.items() if b['kind'] != 'Closure' and b['name'] == 'permute' and len(b['ins']) == 2)
        ctx.floor('permute operations [%s]' % cfg, len(ks), 3)
        for k in ks:
            permute(ctx, cfg, k)


def reordering(ctx, cfg, k):
    F = ctx.F(cfg)
    b = F.bodies[k]
    V = R.view(ctx, cfg, k)
    ef, lf = R.fields(F, b)
    if ef is None or lf is None:
        ctx.ob('the index has elements and layers', False, '%s: fields' % b['path'], b['span'], 'not found')
        return
    S = R.Sizes(V, ef, lf)
    where = b['path']
    perms = [e for e in V.live('call') if R.is_permute(e) and len(e.vals) > 1]
    writes = [e for e in V.live('write') if e.lv[0] is A1 and e.lv[1][:1] == (('f', lf),)]
    ctx.floor('permute calls in %s' % where, len(perms), 1)
    ctx.floor('new layers in %s' % where, len(writes), 1)
    order = canon(V, perms[0].vals[1]) if perms else None
    pb = {e.block for e in perms}
    again = [e for e in perms if path_without(V, succs(V.ir.blocks[e.block].t), pb) is not None]
    ok = bool(perms) and not again and len(pb) == len(perms) and all(e.vals[0] is S.E and canon(V, e.vals[1]) is order for e in perms)
    ctx.ob('the elements are permuted once', ok, '%s: elements' % where, perms[0].sp if perms else b['span'], '%d calls%s' % (len(perms), ', more than one of them on some path' if again else ''))
    rets = V.live('return')
    for e in rets:
        v = canon(V, e.val)
        must = perms and path_without(V, [0], {e.block}, pb) in (None,) + tuple(pb) and path_without(V, [0], {e.block}, {w.block for w in writes}) in (None,) + tuple(w.block for w in writes)
        ok = v is order and must
        ctx.ob('the permutation applied is the one returned', ok, '%s: returned' % where, e.sp, 'returns %s after permuting by %s%s' % (pp(v)[:80], pp(order)[:80] if order else None, '' if must else '; elements or layers are not reordered on every path'))
    ctx.ob('the layers are replaced once', len(writes) == 1 and not loops_back(V, writes[0].block, writes[0].block), '%s: layers' % where, writes[0].sp if writes else b['span'], '%d writes' % len(writes))
    if order is None or not writes:
        return
    for alt in inputs(V, writes[0].val):
        layers(ctx, V, S, where, writes[0].sp, alt, order)
    entries(ctx, V, S, where, perms[0].sp, order)


# ------------------------------------------------------------------ layers
def lists_in(V, t):
    """the lists wrapped in an enum value (joins looked through)"""
    out, seen, work = [], set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'agg' and x.args[0][0] == 'adt' and rng(x) is None:
            work += [y for y in x.args[1:]]
        elif x.op == 'phi':
            d = tree(V, x)
            if d is not None and d and not (len(d) == 1 and d[0].kind == 'list'):
                out.append(x)
            else:
                work += list(V.phi_in.get(x, {}).values())
        else:
            out.append(x)
    return out


def layers(ctx, V, S, where, sp, t, order):
    ls = lists_in(V, t)
    ctx.stat('new layer lists', len(ls))
    ctx.floor('new layer lists in %s' % where, len(ls), 1)
    for L in ls:
        r = flatten(V, tree(V, L))
        what = None
        if r is None or len(r) != 1 or len(r[0][0]) != 1:
            what = 'is not one new layer per layer: %s' % (pp(L)[:160])
        else:
            (site, src, idx), item = r[0][0][0], r[0][1]
            B = inorder(V, src)
            g = rng(B)
            old = mk('elem', B, site)
            if not (S.layers(B) or g and g[0] is INT(0) and g[1] is not None and S.linear.lin(g[1]) == {(S.N,): 1}):
                what = 'goes over %s, not over the layers' % pp(B)[:100]
        ctx.ob('every layer is rebuilt, in order', what is None, '%s: layers in order' % where, sp, what or 'one new layer per old layer')
        if what is None:
            layer(ctx, V, S, where, sp, item, site, B, order)


def same_layer(V, S, g, site, B):
    """is g the layer being rebuilt (member of the iteration over the layers at site)?"""
    if g.op == 'elem' and g.args[1] == site:
        return True
    if g.op == 'call' and name(g) == 'as_graph' and len(g.args) > 3 and S.layers(g.args[2]):
        i = g.args[3]
        return i.op == 'elem' and i.args[1] == site
    if g.op == 'fld' and g.args[1][0] == 'i' and S.layers(g.args[0]):
        i = g.args[1][1]
        return i.op in ('elem', 'iidx') and i.args[1] == site
    return False


def layer(ctx, V, S, where, sp, item, site, B, order):
    """one new layer: one list per entry of the permutation"""
    ts = tree(V, item)
    segs = None
    if ts is not None:
        segs = segments(V, ts) or [(ls, v) for ls, v in flatten_nodes(V, ts) or []]
    ok, why = False, 'the way the layer is built is not understood: %s' % (' '.join(x.show() for x in ts)[:200] if ts else pp(item)[:150])
    if segs and len(segs) == 1:
        ls, v = segs[0]
        nb = neighbours(V, v)
        if nb is None:
            why = 'a node of the new layer is %s' % pp(v)[:200]
        else:
            call, ids = nb
            g, node = call.args[2], call.args[3]
            base = enumerates(V, list(ls), node)
            if base is None:
                ok, why = False, 'node %s is not taken from each entry of a list, in order' % pp(node)[:120]
            else:
                o, lim = cut(base)
                if canon(V, o) is not order:
                    why = 'nodes are taken in the order of %s, which is not the permutation' % pp(o)[:120]
                elif not same_layer(V, S, g, site, B):
                    why = 'the neighbours come from %s, not from the layer that is rebuilt' % pp(g)[:100]
                elif lim is None or not (lim.op == 'call' and name(lim) == 'len' and same_layer(V, S, lim.args[2], site, B)):
                    why = 'the permutation is cut at %s, not at the length of the layer' % (pp(lim)[:100] if lim is not None else 'its end')
                else:
                    ok, why = True, 'one list per entry of the permutation up to the length of the layer'
    elif segs:
        why = 'nodes are added in %d different places' % len(segs)
    ctx.ob('nodes move by the permutation', ok, '%s: nodes' % where, sp, why)
    if not ok:
        return
    for v in ids:
        x = unwrapped(v)
        if not (x.op == 'fld' and x.args[1][0] == 'i'):
            ctx.ob('neighbour ids are mapped by the inverse permutation', False, '%s: neighbour ids' % where, sp, 'a neighbour id becomes %s' % pp(v)[:160])
            continue
        n = unwrapped(x.args[1][1])
        own = n.op == 'elem' and inorder(V, n.args[0], True) is call
        ctx.ob('neighbour ids are mapped by the inverse permutation', own, '%s: neighbour ids' % where, sp, 'looks up %s%s' % (pp(n)[:100], '' if own else ', which is not a neighbour of the node'))
        inverse(ctx, V, where, sp, x.args[0], order)


def flatten_nodes(V, nodes, loops=()):
    """[(loops, pushed list)] of a collection of lists"""
    out = []
    for x in nodes:
        if x.kind == 'push':
            out.append((tuple(loops), x.val))
        elif x.kind == 'loop':
            r = flatten_nodes(V, x.body, tuple(loops) + ((x.site, x.src, x.idx),))
            if r is None:
                return None
            out += r
        elif x.kind == 'extend':
            # a whole collection of lists, the members of an outer list of such
            v = inorder(V, x.val)
            if v.op == 'elem' and loops and v.args[1] == loops[-1][0]:
                r = flatten(V, tree(V, inorder(V, loops[-1][1])), tuple(loops[:-1]))
                if r is None or len(r) != 1:
                    return None
                ls, it = r[0]
                t = tree(V, it)
                r = flatten_nodes(V, t, tuple(ls)) if t is not None else None
            else:
                t = tree(V, v)
                r = flatten_nodes(V, t, tuple(loops)) if t is not None and not (len(t) == 1 and t[0].kind == 'list') else None
            if r is None:
                return None
            out += r
        else:
            return None
    # a list of lists that was collected first: loops over a list put together elsewhere
    res = []
    for ls, v in out:
        v2 = inorder(V, v)
        if v2.op == 'elem' and ls and v2.args[1] == ls[-1][0]:
            src = inorder(V, ls[-1][1])
            t = tree(V, src)
            if t is not None and not (len(t) == 1 and t[0].kind == 'list'):
                r = flatten(V, t, tuple(ls[:-1]))
                if r is None:
                    return None
                res += [(tuple(a), b) for a, b in r]
                continue
            if src.op == 'elem' and len(ls) > 1 and src.args[1] == ls[-2][0]:
                r = flatten(V, tree(V, inorder(V, ls[-2][1])), tuple(ls[:-2]))
                if r is not None and len(r) == 1:
                    a, it = r[0]
                    r = flatten(V, tree(V, it), tuple(a))
                    if r is not None:
                        res += [(tuple(p), q) for p, q in r]
                        continue
        res.append((ls, v))
    return res


def segments(V, ts):
    """a layer built from one flat list and the offsets that delimit its nodes: [(loops, list of a node)]"""
    loops, x = [], ts
    while len(x) == 1 and x[0].kind == 'loop':
        loops.append((x[0].site, x[0].src, x[0].idx))
        x = x[0].body
    if len(x) != 1 or x[0].kind != 'push' or not loops:
        return None
    v = x[0].val
    if not (v.op == 'fld' and v.args[1][0] == 'i'):
        return None
    K = v.args[0]
    g = rng(v.args[1][1])
    if not g or g[0] is None or g[1] is None:
        return None
    lo, hi = unwrapped(g[0]), unwrapped(g[1])
    site, src, idx = loops[-1]
    O = None
    if lo.op == hi.op == 'fld' and lo.args[1][0] == hi.args[1][0] == 'i' and lo.args[0] is hi.args[0]:
        i, j = lo.args[1][1], hi.args[1][1]
        if j is not padd(i, INT(1)):
            return None
        # positions in consecutive order
        r = rng(inorder(V, src)) if src is not None else None
        if r and (j.op == 'elem' and j.args[1] == site or idx is not None and j is idx) and r[0] is INT(1) and r[1] is not None and is_len(V, r[1], lo.args[0]):
            O = lo.args[0]
        elif r and (i.op == 'elem' and i.args[1] == site or idx is not None and i is idx) and r[0] is INT(0) and r[1] is not None and is_len(V, padd(r[1], INT(1)), lo.args[0]):
            O = lo.args[0]
        elif src is not None:
            w = inorder(V, src)
            W = lo.args[0]
            if w.op == 'call' and name(w) in ('windows', 'tuple_windows') and i is INT(0) and W.op == 'elem' and W.args[1] == site and w.args[3] is INT(2):
                O = inorder(V, w.args[2])
    if O is None:
        # for (a, b) in offsets.iter().zip(&offsets[1..])
        w = inorder(V, src) if src is not None else None
        if w is not None and w.op == 'call' and name(w) == 'zip' and len(w.args) > 3:
            p, q = inorder(V, w.args[2]), inorder(V, w.args[3])
            e = mk('elem', w, site)
            first = lo in (mk('elem', p, site), mk('fld', e, ('f', 0))) or lo.op == 'elem' and lo.args[1] == site and inorder(V, lo.args[0]) is p
            second = hi.op == 'elem' and hi.args[1] == site or hi is mk('fld', e, ('f', 1))
            if q.op == 'fld' and q.args[1][0] == 'i' and rng(q.args[1][1]) == (INT(1), None) and inorder(V, q.args[0]) is p and first and second:
                O = p
            elif q.op == 'call' and name(q) == 'skip' and q.args[3] is INT(1) and inorder(V, q.args[2]) is p and first and second:
                O = p
    if O is None:
        return None
    pre = loops[:-1]
    o, kk = O, K
    if O.op == 'fld' and K.op == 'fld' and O.args[0] is K.args[0] and O.args[0].op == 'elem' and pre and O.args[0].args[1] == pre[-1][0]:
        r = flatten(V, tree(V, inorder(V, pre[-1][1])), tuple(pre[:-1]))
        if r is None or len(r) != 1:
            return None
        pre, pair = list(r[0][0]), r[0][1]
        o, kk = V.proj(pair, O.args[1]), V.proj(pair, K.args[1])
    to, tk = tree(V, o), tree(V, kk)
    if to is None or tk is None or len(to) != 2 or to[0].kind != 'lit' or to[0].items != [INT(0)] or to[1].kind != 'loop' or len(tk) != 1 or tk[0].kind != 'loop':
        return None
    a, c = to[1], tk[0]
    if a.phi is None or c.phi is None or a.phi.args[0] != c.phi.args[0] or len(a.body) != 1 or a.body[0].kind != 'push':
        return None
    end = a.body[0].val
    after = {x for p, x in V.phi_in[c.phi].items() if V.dominates(c.phi.args[0], p)}
    if not (len(after) == 1 and end in (V.length(list(after)[0]), mk('len', list(after)[0]))):
        return None
    if len(c.body) == 1 and c.body[0].kind == 'extend':
        return [(tuple(pre) + ((c.site, c.src, c.idx),), c.body[0].val)]
    if len(c.body) == 1 and c.body[0].kind == 'loop':
        return [(tuple(pre) + ((c.site, c.src, c.idx),), c.body[0])]
    return None


def is_len(V, n, L):
    """is n the length of the list L?"""
    for x in inputs(V, n):
        if not (x is V.length(L) or x.op == 'len' and (x.args[0] is L or inorder(V, x.args[0]) is inorder(V, L)) or is_poly_len(V, n, L)):
            return False
    return True


def is_poly_len(V, n, L):
    p = to_poly(n)
    return p == {(V.length(L),): 1}


def neighbours(V, v):
    """a list of converted neighbours: (the get_neighbors call, [converted ids]) if all neighbours of one node are in it"""
    if isinstance(v, flow.Node):
        r = flatten(V, [v])
    else:
        r = members(V, v, ())
    if r is None or not r:
        return None
    call, ids = None, []
    for ls, item in r:
        if len(ls) != 1:
            return None
        site, src, idx = ls[0]
        c = inorder(V, src, True) if src is not None else None
        if c is None or c.op != 'call' or name(c) != 'get_neighbors' or len(c.args) < 4 or call is not None and call is not c:
            return None
        call = c
        ids.append(item)
    return (call, ids) if len(ids) == 1 else None


def inverse(ctx, V, where, sp, T, order):
    """T[order[i]] == i for every i"""
    why = inverse_of(V, T, order)
    ctx.ob('the inverse holds i at entry permutation[i]', why is None, '%s: inverse' % where, sp, why or 'every entry is written once, in one loop over the permutation')


def inverse_of(V, T, order):
    for _ in range(20):
        T = canon(V, T)
        if T.op == 'mut' and name(T) in ('reserve',):
            T = mutated(T)
            continue
        if T.op == 'call' and name(T) in ('deref', 'as_slice', 'into_boxed_slice', 'to_vec') and len(T.args) > 2:
            T = T.args[2]
            continue
        break
    if T.op != 'phi':
        return 'the inverse is %s' % pp(T)[:120]
    head = T.args[0]
    ins = V.phi_in.get(T, {})
    back = {x for p, x in ins.items() if V.dominates(head, p)}
    if not back:
        whys = [inverse_of(V, x, order) for x in ins.values()]
        return next((w for w in whys if w), None)
    n = 0
    for x in back:
        if x is T:
            return 'an iteration can leave out its entry'
        if x.op != 'with' or x.args[0] is not T or len(x.args[1]) != 1 or x.args[1][0][0][0] != 'i':
            return 'an iteration makes %s of the inverse' % pp(x)[:100]
        el, val = x.args[1][0]
        if not inverted(V, el[1], val, order):
            return 'entry %s is set to %s' % (pp(el[1])[:80], pp(val)[:80])
        i = unwrapped(val)
        site = i.args[1] if i.op in ('elem', 'iidx') else i.args[0].args[1] if i.op == 'fld' and i.args[0].op == 'elem' else None
        if flow.escapes(V, head, site, i if i.op == 'phi' else None) is not None:
            return 'the loop over the permutation can be left early'
    return None


def inverted(V, j, i, order):
    """is j the entry of the permutation at position i, for a loop over all of it?"""
    j, i = unwrapped(j), unwrapped(i)
    if j.op == 'fld' and j.args[1] == ('f', 1) and i.op == 'fld' and i.args[1] == ('f', 0) and j.args[0] is i.args[0] and j.args[0].op == 'elem':
        S = flow.strip_next(V, j.args[0].args[0])
        return S.op == 'call' and name(S) == 'enumerate' and canon(V, inorder(V, S.args[2])) is order or \
            S.op == 'call' and name(S) == 'zip' and False
    if j.op == 'elem' and i.op == 'iidx' and j.args[1] == i.args[1]:
        return all(canon(V, inorder(V, x)) is order for x in (j.args[0], i.args[0]))
    if j.op == 'fld' and j.args[1][0] == 'i' and j.args[1][1] is i and canon(V, j.args[0]) is order:
        if i.op == 'elem':
            return flow.whole_range(V, inorder(V, i.args[0]), j.args[0])
        if i.op == 'iidx':
            return canon(V, i.args[0]) is order
        if i.op == 'phi':
            for p in [i]:
                x, r = flow.counter(V, p)
                return x is i and flow.whole_range(V, r, j.args[0])
    if j.op == 'elem' and i.op == 'elem' and j.args[1] == i.args[1]:
        # zipped with 0..
        g = rng(inorder(V, i.args[0]))
        return canon(V, inorder(V, j.args[0])) is order and g is not None and g[0] is INT(0)
    return False


# ------------------------------------------------------------------ the permutation
def entries(ctx, V, S, where, sp, order):
    alts = [order]
    fs = [f for e in V.live('call') if e.name.split('::')[-1] == 'permute' for f in V.facts(e.block)]
    d = tree(V, order)
    if all(sorted_parts(V, S, x, fs) for x in leaves(V, order)):
        ctx.ob('the permutation lists the positions of each layer once, layer by layer', True, '%s: entries' % where, sp, 'all positions in order, then parts of one layer each reordered in place')
        return
    if d is None and order.op == 'phi':
        alts = list(dict.fromkeys(V.phi_in.get(order, {}).values()))
    n = 0
    for t in alts:
        d = tree(V, t)
        if d == [] and len(alts) > 1:
            continue                    # no entries at all: only possible for an index without layers, permute rejects it otherwise
        n += 1
        why = layered(V, S, d) if d else 'the way the permutation is built is not understood: %s' % pp(t)[:150]
        ctx.ob('the permutation lists the positions of each layer once, layer by layer', why is None, '%s: entries' % where, sp, why or 'consecutive ranges, one per layer, reordered within')
    ctx.floor('permutations built in %s' % where, n, 1)


def leaves(V, t, seen=None):
    """the values joined in a value, up to what is carried round a loop"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    ins = V.phi_in.get(t, {}) if t.op == 'phi' else {}
    other = [x for x in dict.fromkeys(ins.values()) if x is not t]
    if len(other) == 1:
        return leaves(V, other[0], seen)            # not changed by the loop
    if not ins or any(V.dominates(t.args[0], p) for p in ins):
        return [t]
    return [y for x in ins.values() for y in leaves(V, x, seen)]


def sorted_parts(V, S, t, fs):
    """all positions in order, of which then parts are put into another order, each within one layer"""
    ins = V.phi_in.get(t, {}) if t.op == 'phi' else {}
    fwd = [x for p, x in ins.items() if not V.dominates(t.args[0], p)]
    back = [x for p, x in ins.items() if V.dominates(t.args[0], p)]
    if not fwd or not back:
        return False
    for x in fwd:
        d = tree(V, x)
        r = ranged(V, d[0].val) if d and len(d) == 1 and d[0].kind in ('list', 'extend') else ranged(V, x)
        if r is None or r[0] is not INT(0):
            return False
        # as many as there are elements in the index
        n = S.linear.lin(r[1])
        if not any(v == 1 and f.op == 'bin' and f.args[0] == 'Eq' and any(S.linear.lin(a) == n and any(y.op == 'arg' and y.args[0] == 1 or y.op == 'phi' for y in subterms(b)) for a, b in (f.args[1:3], f.args[2:0:-1])) for f, v in fs):
            return False
    site, src = flow.loopsite(V, t)
    if site is None:
        return False
    lp = flow.Node('loop', site=site, src=src, phi=t, idx=None)
    for x in back:
        while x.op == 'with':
            if len(x.args[1]) != 1:
                return False
            (path, new), = x.args[1]
            r = rng(path[1]) if path[0] == 'i' else None
            if r is None or r[1] is None or new.op != 'mut' or not re.search(r'sort|reverse$|rotate_(left|right)$', name(new) or ''):
                return False
            old = new.args[3]
            if old.op != 'fld' or old.args[1] != path or old.args[0] is not x.args[0]:
                return False
            e = lay(V, S, r[1])
            if e is None or not (e.op in ('elem', 'iidx') and e.args[1] == site) or not start_ok(V, S, lp, r[0], r[1], e, False):
                return False
            x = x.args[0]
        if x is not t and leaves(V, x) != [t]:
            return False
    return True


def ranged(V, v):
    """(start, end) if the list v holds every number of a range exactly once, in any order"""
    t, hops = v, []
    for _ in range(40):
        t = flow.strip_next(V, t) if t.op in ('phi', 'mut') and name(t) in (None, 'next', 'by_ref') else t
        n = name(t)
        if t.op in ('call', 'mut') and (n in flow.ANYORDER or n in flow.INORDER and n != 'enumerate'):
            t = mutated(t) if t.op == 'mut' else t.args[2]
        elif t.op == 'call' and n == 'map' and len(t.args) > 3 and t.args[3].op == 'cloret':
            hops.append(t)
            t = t.args[2]
        else:
            break
    r = rng(t)
    if t.op == 'phi' or t.op == 'mut':
        # collected by hand
        d = tree(V, t)
        f = flatten(V, d) if d else None
        if f and len(f) == 1 and len(f[0][0]) == 1:
            q = rng(inorder(V, f[0][0][0][1], True)) if f[0][0][0][1] is not None else None
            if q and q[1] is not None:
                r, hops = q, hops + [mk('call', 'map', f[0][0][0][0], inorder(V, f[0][0][0][1], True), mk('cloret', '', f[0][1]))]
    if not r or r[1] is None:
        return None
    # what is left of an entry of the range
    val = None
    for h in reversed(hops):
        ret = h.args[3].args[1]
        if val is None:
            val = 'entry' if ret.op == 'elem' and rng(inorder(V, ret.args[0], True)) else pick(V, ret, h.args[1])
        else:
            val = project(V, ret, h.args[1], val)
        if val is None:
            return None
    return (r[0], r[1]) if val in (None, 'entry') else None


def pick(V, ret, site):
    """which component of a mapped value is the entry itself"""
    if ret.op == 'agg' and ret.args[0][0] == 'tuple':
        for i, x in enumerate(ret.args[1:]):
            if x.op == 'elem' and rng(inorder(V, x.args[0], True)) and x.args[1] == site:
                return i
    return None


def project(V, ret, site, val):
    if val == 'entry':
        if ret.op == 'elem' and ret.args[1] == site:
            return 'entry'
        return pick2(ret, lambda x: x.op == 'elem' and x.args[1] == site)
    if ret.op == 'fld' and ret.args[1] == ('f', val) and ret.args[0].op == 'elem' and ret.args[0].args[1] == site:
        return 'entry'
    # the component may have been looked through: the member of the range itself
    if ret.op == 'elem' and rng(inorder(V, ret.args[0], True)):
        return 'entry'
    return pick2(ret, lambda x: x.op == 'fld' and x.args[1] == ('f', val) and x.args[0].op == 'elem' and x.args[0].args[1] == site)


def pick2(ret, f):
    if ret.op == 'agg' and ret.args[0][0] == 'tuple':
        for i, x in enumerate(ret.args[1:]):
            if f(x):
                return i
    return None


def layered(V, S, d):
    """None if the appended ranges are those of the layers, one after the other; else what is wrong"""
    first = None
    nodes = list(d)
    if nodes and nodes[0].kind in ('list', 'extend'):
        r = ranged(V, nodes[0].val)
        if r is None:
            return 'the first entries are %s' % pp(nodes[0].val)[:120]
        if r[0] is not INT(0) or lay(V, S, r[1]) is not INT(0):
            return 'the first entries go over %s..%s, not over the first layer' % (pp(r[0])[:60], pp(r[1])[:60])
        first = nodes.pop(0)
    if len(nodes) != 1 or nodes[0].kind != 'loop':
        return 'the entries are not added layer by layer'
    lp = nodes[0]
    if len(lp.body) != 1 or lp.body[0].kind not in ('extend', 'loop'):
        return 'an iteration adds entries in %d places' % len(lp.body)
    if lp.body[0].kind == 'extend':
        r = ranged(V, lp.body[0].val)
    else:
        x = lp.body[0]
        f = flatten(V, [x])
        r = None
        if f and len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] is not None:
            src = inorder(V, f[0][0][0][1], True)
            r = ranged(V, mk('call', 'map', f[0][0][0][0], src, mk('cloret', '', f[0][1])))
            r = r or ranged2(V, src, f[0])
    if r is None:
        return 'a layer adds %s' % (pp(lp.body[0].val)[:150] if lp.body[0].val is not None else 'something else than all its positions')
    # which layers
    src = inorder(V, lp.src) if lp.src is not None else None
    rg = rng(src) if src is not None else None
    if src is not None and rg is None and lens_list(V, S, src):
        rg = (INT(0), S.N)
    e = lay(V, S, r[1])
    if e is None:
        return 'the end of a range is %s' % pp(r[1])[:100]
    own = e.op in ('elem', 'iidx') and e.args[1] == lp.site or lp.idx is not None and e is lp.idx
    if e.op == 'elem' and src is not None and src.op == 'call' and name(src) == 'map' and src.args[1] == e.args[1]:
        own = True                      # the member of the list the loop goes over, seen through the map that made the list
    if not own:
        return 'the range ends at the length of layer %s' % pp(e)[:100]
    if not rg or rg[1] is None or not all_layers(V, S, rg[1]) or rg[0] is not (INT(1) if first is not None else INT(0)):
        return 'the layers %s..%s are covered' % (pp(rg[0])[:40], pp(rg[1])[:60]) if rg else 'the layers covered are not known'
    s = start_ok(V, S, lp, r[0], r[1], e, first is not None)
    return None if s else 'the range of layer %s starts at %s' % (pp(e)[:40], pp(r[0])[:100])


def ranged2(V, src, f):
    return None


def lay(V, S, t):
    """the layer whose length t is: a position, iidx for the position of the iteration t is taken from"""
    t = canon(V, t)
    x = S.lens(t)
    if x is not None:
        return x
    if t.op == 'fld' and t.args[1][0] == 'i' and lens_list(V, S, t.args[0]):
        return canon(V, t.args[1][1])
    if t.op == 'elem' and lens_list(V, S, t.args[0]):
        return mk('iidx', t.args[0], t.args[1])
    if t.op == 'fld' and t.args[1] == ('f', 1) and t.args[0].op == 'elem' and flow.has_enumerate(V, t.args[0].args[0]) and lens_list(V, S, t.args[0].args[0]):
        return mk('iidx', t.args[0].args[0], t.args[0].args[1])
    return None


def all_layers(V, S, n):
    n = canon(V, n)
    if S.linear.lin(n) == {(S.N,): 1}:
        return True
    if n.op == 'len' or n.op == 'call' and name(n) == 'len' and len(n.args) > 2:
        return lens_list(V, S, n.args[0] if n.op == 'len' else n.args[2])
    return False


def lens_list(V, S, M):
    """is M the list of the lengths of all layers, in order?"""
    M = flow.inorder(V, M)
    M = flow.inorder(V, canon(V, M))
    f = flatten(V, tree(V, M))
    if f and len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] is not None:
        site, src, idx = f[0][0][0]
        r = rng(inorder(V, src))
        x = S.lens(f[0][1])
        return bool(r) and r[0] is INT(0) and r[1] is not None and S.linear.lin(canon(V, r[1])) == {(S.N,): 1} and x is not None and (x.op == 'elem' and x.args[1] == site or idx is not None and x is idx)
    return False


def start_ok(V, S, lp, a, end, e, has_first):
    """does the range start where the previous layer ended?"""
    def prev(t):
        l = lay(V, S, t)
        return l is not None and (l is padd(e, INT(-1)) or checked_prev(l, e))

    if prev(a):
        return has_first
    a = canon(V, a)
    if prev(a):
        return has_first
    if lp.phi is not None and flow.is_length(V, a, lp.phi):
        return True                     # as many entries as were listed so far: those of the previous layers
    if a.op == 'phi':
        ins = V.phi_in.get(a, {})
        if any(V.dominates(a.args[0], p) for p in ins):
            # carried: starts at 0, becomes the end of the range
            fwd = [x for p, x in ins.items() if not V.dominates(a.args[0], p)]
            back = [x for p, x in ins.items() if V.dominates(a.args[0], p)]
            return a.args[0] == (lp.phi.args[0] if lp.phi is not None else None) and all(x is INT(0) for x in fwd) and all(canon(V, x) is canon(V, end) for x in back) and not has_first
        ok = True
        for p, x in ins.items():
            fs = set(V.facts(p)) | set(V.edge_facts(p, a.args[0])[0])
            if x is INT(0):
                ok = ok and S.linear.le(e, INT(0), fs)
            else:
                ok = ok and prev(x)
        return ok and not has_first or ok and all(prev(x) for x in ins.values())
    return False


def checked_prev(l, e):
    from linear import checked
    c = checked(l)
    return c is not None and name(c) == 'checked_sub' and c.args[2] is e and c.args[3] is INT(1)


# ------------------------------------------------------------------ permute operations
def permute(ctx, cfg, k):
    F = ctx.F(cfg)
    b = F.bodies[k]
    where = b['path']
    P = mk('arg', 2)
    V = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure' or body['name'] in ('permute', 'load_mut', 'load_mmap', 'load') or F.bodies[k]['key'].split('::{')[0] == key.split('::{')[0] and 'slice_vector' in key
                      and body['name'] not in ('push', 'new', 'extend_from_slice_vector', 'len', 'par_iter', 'iter'), tag='perm')
    # handed to another permute operation that is analysed itself
    D = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure', tag='perm0')
    own = mut_effects(D, A1)
    if own and all(e.kind == 'call' and last(e.name) == 'permute' for e in own):
        ok = len(own) == 1 and own[0].vals[1] is P and all(D.dominates(own[0].block, r.block) for r in D.live('return'))
        ctx.ob('elements are permuted by the permutation given', ok, '%s: passed on' % where, own[0].sp, 'passes %s on' % pp(own[0].vals[1])[:60])
        return
    slots = [e for e in V.live('call') if last(e.name) in ('clone_from_slice', 'copy_from_slice', 'swap_with_slice') and touches(V, e)]
    if slots:
        in_place(ctx, V, b, where, P, slots)
    else:
        rebuilt(ctx, ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure' or body['name'] == 'permute' or local_helper(F, b, body), tag='perm1'), b, where, P)


def local_helper(F, b, body):
    return body['key'].split('::{')[0] == b['key'].split('::{')[0] and not body.get('exported') and not body.get('impl_trait')


def rebuilt(ctx, V, b, where, P):
    ws = [e for e in V.live('write') if e.lv[0] is A1]
    others = [e for e in mut_effects(V, A1) if e.kind != 'write']
    ok, why = False, 'the collection is changed in %d ways' % (len(ws) + len(others))
    if len(ws) == 1 and not others:
        lv = ws[0].lv[1]
        nodes = tree(V, ws[0].val)
        r = flatten_nodes(V, nodes) if nodes is not None else None
        if r is None:
            v2 = ws[0].val
            r = None
            why = 'the way the new collection is built is not understood: %s' % (' '.join(x.show() for x in nodes)[:200] if nodes else pp(v2)[:160])
        elif len(r) != 1:
            why = 'members are added in %d places' % len(r)
        else:
            ls, item = r[0]
            src = item.args[2] if item.op == 'call' and name(item) == 'get' and len(item.args) > 3 else item.args[0] if item.op == 'fld' and item.args[1][0] == 'i' else None
            pos = None if src is None else item.args[3] if item.op == 'call' else item.args[1][1]
            old = A1
            for x in lv:
                old = mk('fld', old, x)
            if src is None or src is not old:
                why = 'a member of the new collection is %s' % pp(item)[:120]
            else:
                B = enumerates(V, list(ls), pos)
                ok = B is P
                why = 'members are collected in the order of %s' % (pp(B)[:60] if B is not None else 'something else than the permutation: %s' % pp(pos)[:100])
        ok = ok and all(V.dominates(ws[0].block, e.block) or ws[0].block == e.block for e in V.live('return'))
    ctx.ob('elements are permuted by the permutation given', ok, '%s: rebuilt' % where, ws[0].sp if ws else b['span'], why)


def root_is_self(V, t):
    seen, work = set(), [t]
    while work:
        t = unref(work.pop())
        if t in seen:
            continue
        seen.add(t)
        if t is A1:
            return True
        if t.op in ('fld', 'payload'):
            work.append(t.args[0])
        elif t.op == 'phi':
            work += list(V.phi_in.get(t, {}).values())
        elif t.op == 'call' and len(t.args) > 2:
            work.append(t.args[2])
        elif t.op == 'mut':
            work.append(mutated(t))
    return False


def unref(t):
    while t.op == 'ref' and hasattr(t.args[1], 'op'):
        x = t.args[1]
        for p in t.args[2]:
            x = mk('fld', x, p)
        t = x
    c = unwrapped1(t)
    if c.op == 'call' and name(c) in ('get', 'get_mut') and len(c.args) == 4 and rng(c.args[3]) and c is not t:
        return mk('fld', c.args[2], ('i', c.args[3]))      # a sub-slice asked for and unwrapped
    return t


def unwrapped1(t):
    """what a value was unwrapped from"""
    while t.op == 'payload' or t.op == 'fld' and t.args[1][0] in ('d', 'f') and (t.args[1][0] == 'd' or t.args[0].op == 'fld' and t.args[0].args[1][0] == 'd'):
        t = t.args[0]
    if t.op == 'call' and name(t) in ('unwrap', 'expect') and len(t.args) > 2:
        return t.args[2]
    return t


def operand(e, i):
    """the place an argument refers to"""
    a = unref(e.args[i])
    return a if a.op != 'ref' else e.vals[i]


def touches(V, e):
    return root_is_self(V, operand(e, 0))


def slot(V, t):
    """(start, length) of a sub-slice of the storage, as integer forms"""
    def start(x, d=0):
        x = unref(x)
        if d > 20:
            return None
        if x.op == 'fld' and x.args[1][0] == 'i':
            g = rng(x.args[1][1])
            if g is None or g[0] is None:
                return None
            s = start(x.args[0], d + 1)
            return None if s is None else add(s, to_poly(g[0]))
        if x.op == 'fld' and x.args[1][0] == 'f' and x.args[0].op == 'call' and name(x.args[0]) in ('split_at_mut', 'split_at'):
            s = start(x.args[0].args[2], d + 1)
            return None if s is None else s if x.args[1][1] == 0 else add(s, to_poly(x.args[0].args[3]))
        if x.op == 'call' and name(x) in ('to_vec', 'to_owned', 'clone', 'deref', 'as_slice', 'into_vec', 'into', 'to_mut', 'deref_mut'):
            return start(x.args[2], d + 1)
        return {}
    if t.op == 'call' and name(t) in ('to_vec', 'to_owned', 'clone', 'deref', 'as_slice', 'into_boxed_slice'):
        return slot(V, t.args[2])
    t = unref(t)
    if t.op == 'fld' and t.args[1][0] == 'i':
        g = rng(t.args[1][1])
        s = start(t)
        if g and s is not None and g[1] is not None:
            ln = add(to_poly(g[1]), to_poly(g[0]), -1)
            if len(ln) == 1 and list(ln.values()) == [1] and len(list(ln)[0]) == 1:
                w = list(ln)[0][0]
                if not s:
                    return INT(0)
                if len(s) == 1 and list(s.values()) == [1]:
                    m = list(list(s)[0])
                    if w in m:
                        m.remove(w)
                        if len(m) == 1:
                            return m[0]
                        if not m:
                            return INT(1)
    return None


def slots_of(V, t, seen=()):
    """[(predecessor block or None, slot number)]"""
    t = unref(t)
    if t in seen:
        return []
    seen += (t,)
    if t.op == 'phi':
        c = canon(V, t)
        if c is not t:
            return slots_of(V, c, seen)
        out = []
        for p, x in V.phi_in.get(t, {}).items():
            if x is t:
                continue
            r = slots_of(V, x, seen)
            fs = edge(V, p, t.args[0])
            out += [((t.args[0], p) if q is None else q, among(V, s, fs)) for q, s in r]
        return out
    return [(None, slot(V, t))]


def edge(V, p, s):
    return dict(list(V.facts(p)) + list(V.edge_facts(p, s)[0]))


def among(V, s, fs):
    """the one input of a slot number chosen earlier that agrees with what is known here"""
    if s is None or s.op != 'phi' or s not in V.phi_in:
        return s
    got = set()
    for p, x in V.phi_in[s].items():
        g = edge(V, p, s.args[0])
        if not any(t in g and g[t] != v for t, v in fs.items()):
            got.add(x)
    return got.pop() if len(got) == 1 else s


def operands(V, e):
    """[(destination slot, source slot)] for every way the two slices were made"""
    ds, ss = slots_of(V, operand(e, 0)), slots_of(V, operand(e, 1))
    out = set()
    for p, d in ds:
        for q, s in ss:
            if p is not None and q is not None and p[0] == q[0] and p[1] != q[1]:
                continue
            out.add((d, s))
    return out


def in_place(ctx, V, b, where, P, slots):
    bad = []
    moves, closes = [], []
    xs = set()
    for e in slots:
        if last(e.name) == 'swap_with_slice':
            bad.append('slots are swapped')
            continue
        for d, s in operands(V, e):
            if d is None or s is None:
                bad.append('a slot is written that is not understood: %s from %s' % (pp(e.vals[0])[:80], pp(e.vals[1])[:80]))
                continue
            xs.add(d)
            want = mk('fld', P, ('i', d))
            fs = V.facts(e.block)
            if s is want:
                moves.append(e)
            elif any((t.op == 'bin' and t.args[0] == 'Eq' and v == 1 or t.op == 'bin' and t.args[0] == 'Ne' and v == 0) and {t.args[1], t.args[2]} == {s, want} for t, v in fs):
                closes.append((e, s))
            else:
                bad.append('slot %s is written from slot %s' % (pp(d)[:60], pp(s)[:60]))
    ctx.ob('elements are permuted by the permutation given', not bad and bool(closes) and bool(moves), '%s: slots' % where, slots[0].sp, '; '.join(sorted(set(bad))) or 'slot x is written from slot permutation[x] (%d places)' % len(slots))
    if bad:
        return
    # the walk along a cycle: from i by permutation, i being each position once
    heads = set()
    for x in sorted(xs, key=pp):
        ok, why = walk(V, x, P, V.facts(slots[0].block))
        ctx.ob('cycles are walked from every position', ok, '%s: walk' % where, slots[0].sp, why)
    starts = {s for e, s in closes}
    saved = [e for e in V.live('call') if last(e.name) in ('to_vec', 'to_owned', 'clone', 'into_boxed_slice') and e.vals and slot(V, e.vals[0]) in starts]
    ok = bool(saved) and all(any(V.dominates(sv.block, e.block) for sv in saved) and not any(V.dominates(e.block, sv.block) for sv in saved) for e in slots)
    ctx.ob('the start of a cycle is saved before it is overwritten', ok, '%s: saved' % where, saved[0].sp if saved else slots[0].sp, 'copied before the first write' if ok else 'no copy of slot %s precedes the writes' % ', '.join(pp(s)[:40] for s in starts))
    # written slots are marked, and marked ones are not started from again
    marks = [w for w in V.live('write') if w.lv[1] and w.lv[1][0][0] == 'i' and w.val is INT(1)]
    for e in slots:
        d = [x for x, s in operands(V, e)][0]
        ok = any(w.lv[1][0][1] is d and (V.dominates(e.block, w.block) or V.dominates(w.block, e.block)) for w in marks)
        ctx.ob('moved slots are marked', ok, '%s: marked' % where, e.sp, 'slot %s is %s' % (pp(d)[:60], 'marked' if ok else 'not marked as moved'))
        fs = V.facts(e.block)
        ok = any(t.op == 'fld' and t.args[1][0] == 'i' and t.args[1][1] in starts and v == 0 for t, v in fs) or any(t.op == 'un' and v == 1 and t.args[1].op == 'fld' and t.args[1].args[1][0] == 'i' and t.args[1].args[1][1] in starts for t, v in fs)
        ctx.ob('cycles are walked once', ok, '%s: once' % where, e.sp, 'only from positions not marked yet' if ok else 'not guarded by the marks')
    # no position is left out
    for s in sorted(starts, key=pp):
        heads = [c.block for c in V.live('call') if s.op in ('elem', 'iidx') and c.site == s.args[1] and last(c.name) == 'next'] or [e.block for e in V.events if e.kind == 'mark' and s.op in ('elem', 'iidx') and e.site == s.args[1]] or ([s.args[0]] if s.op == 'phi' else [])
        why = 'the loop over the positions is not found'
        for h in heads[:1]:
            out = flow.escapes(V, h, s.args[1] if s.op != 'phi' else None, s if s.op == 'phi' else None)
            hit = skipping(V, h, s, {e.block for e, _ in closes})
            why = 'the loop over the positions can be left early' if out is not None else 'a position not marked yet can be skipped' if hit else None
        ctx.ob('every position is started from unless it was moved already', why is None, '%s: positions' % where, slots[0].sp, why or 'every unmarked position')
    # a walk that began is always closed
    outer = [c.block for c in V.live('call') if c.site in {s.args[1] for s in starts if s.op == 'elem'}] + [e.block for e in V.live('return')]
    cb = {e.block for e, s in closes}
    for e in moves:
        hit = path_without(V, [e.block], set(outer), cb)
        ctx.ob('cycles are closed', hit is None, '%s: closed' % where, e.sp, 'the saved slot is always put back' if hit is None else 'the walk can end without putting the saved slot back')


def skipping(V, h, s, cb):
    """can an iteration over the positions come back to its head without a walk from an unmarked position?"""
    seen, work = set(), [h]
    first = True
    while work:
        b = work.pop()
        for n in succs(V.ir.blocks[b].t):
            fs, live = V.edge_facts(b, n)
            if not live or n in V.dead or any(t.op == 'fld' and t.args[1] == ('i', s) and v == 1 for t, v in fs):
                continue
            if n == h:
                return True
            if n not in seen and n not in cb and V.dominates(h, n):
                seen.add(n)
                work.append(n)
    return False


def walk(V, x, P, fs=()):
    if x.op != 'phi':
        return False, 'slot %s is not the position of a walk' % pp(x)[:80]
    ins = {y for y in V.phi_in.get(x, {}).values() if y is not x}
    step = mk('fld', P, ('i', x))
    init = ins - {step}
    if step not in ins or len(init) != 1:
        return False, 'the walk continues at %s' % ', '.join(pp(y)[:60] for y in sorted(ins, key=pp))
    i = init.pop()
    def whole(n):
        same = {n} | {y for t, v in fs if t.op == 'bin' and (t.args[0] == 'Eq' and v == 1 or t.args[0] == 'Ne' and v == 0) and n in t.args[1:] for y in t.args[1:]}
        return any(flow.is_length(V, y, P) for y in same)
    g = rng(inorder(V, i.args[0])) if i.op == 'elem' else None
    if not (g and g[0] is INT(0) and g[1] is not None and whole(g[1])) and not (i.op == 'iidx' and i.args[0] is P):
        c, r = flow.counter(V, i) if i.op == 'phi' else (None, None)
        if not (c is i and r is not None and rng(r)[0] is INT(0) and whole(rng(r)[1])):
            return False, 'walks start at %s' % pp(i)[:80]
    return True, 'from each position by the permutation'
