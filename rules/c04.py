"""Layout of a saved index by following the position of the stream (ghost stream position, see C03) through every function that saves one.
At each successful end: what was written joins without gap or overlap from where the stream was handed over; the header is written last,
to the start, and has a constant size H; the layers are written directly behind it, one call of the layer writer per layer, visiting all
layers in order; the header is known to fit (branch facts) before it is padded or cut to H. In every function that loads an index: the
layers are cut out of the buffer one after the other, starting at the same H, each as long as the entry of the header says, the entries
being visited all and in order, each cut-out becoming one layer of the result."""
import lib
from linear import add
from rules import flow, layout
from stream import op, neg
from vals import pp, subterms, mk

TECHNIQUE = 'dataflow of a ghost stream position over inlined MIR: run decomposition, loop iteration order, equality of linear forms'
NOTE = 'The bytes of one layer are the business of C03 (counts) and C36 (encoding).'


def save(ctx, cfg, sv):
    V, S, b = sv.V, sv.S, sv.body
    where = b['span']
    ctx.ob('an index is written to one stream', len(sv.roots) == 1 and bool(sv.ends), b['path'], where, '%d streams that are positioned, %d ways to return success' % (len(sv.roots), len(sv.ends)))
    if len(sv.roots) != 1 or not sv.ends:
        return None
    H = None
    for s, fs in sv.ends:
        base = sv.base(s)
        p0 = S.pos(base)
        rs, why = S.runs(s, base, fs)
        if rs is None:
            ctx.ob('what is written is understood', False, b['path'], where, why)
            continue
        rs = [r for r in rs if not S.same(add(r[1], r[0], -1), fs, split=1)]
        last = rs[-1] if rs else [p0, p0]
        size = add(last[1], last[0], -1)
        const = len(size) == 1 and () in size
        ctx.ob('the header is written last, where the stream was handed over', len(rs) == 2 and S.same(add(last[0], p0, -1), fs), b['path'], where,
               '; '.join('%s .. %s' % (S.show(x), S.show(y)) for x, y in rs))
        ctx.ob('the header has a fixed size', const, b['path'], where, S.show(size))
        if len(rs) != 2 or not const:
            continue
        H = size[()]
        ctx.ob('the layers follow directly behind the header', S.same(add(add(rs[0][0], p0, -1), {(): -H}), fs), b['path'], where, 'layers from %s, header of %d bytes' % (S.show(rs[0][0]), H))
        # nothing of the header may be cut off
        for x in S.chain(s):
            o = op(x)
            if o and o[0] == 'Write::write_all' and any(y.op == 'call' and y.args[0].startswith('serde_json::to_') for y in subterms(o[2][0])):
                fits(ctx, sv, o[2][0], H, where)
        layers(ctx, sv, s, fs, where)
    return H


def fits(ctx, sv, data, H, where):
    V, S = sv.V, sv.S
    for y in subterms(data):
        if y.op == 'mut' and y.args[0].split('::')[-1] in ('resize', 'truncate'):
            n, site, i = y.args[0], y.args[1], y.args[2]
            es = [e for e in V.live('call') if e.site == site and e.name == n]
            ok = bool(es) and all(S.L.le(S.V.length(y.args[3]), y.args[4], V.facts(e.block)) for e in es)
            ctx.ob('the header fits into its space', ok, sv.body['path'], es[0].sp if es else where, '%s: length before is at most %s' % (n, pp(y.args[4])))


def layers(ctx, sv, s, fs, where):
    V, S, b = sv.V, sv.S, sv.body
    ways = layout.passes(sv, mk('none'), s, fs)
    ctx.ob('layers are written in a loop', bool(ways) and all(w[0] is not None for w in ways), b['path'], where, '%d loops over layers' % len(ways))
    for ph, _, f2 in ways:
        if ph is None:
            continue
        site, src = flow.loopsite(V, ph)
        key = '%s: loop writing layers' % b['path']
        if site is None:
            ctx.ob('all layers are visited in order', False, key, where, 'not an iteration over a list')
            continue
        ps = sv.passes(ph)
        one = all(p is not None and len(p) == 1 and op(p[0])[0] in sv.counted for p in ps) and bool(ps)
        ctx.ob('each pass writes one layer', one, key, where, '; '.join(', '.join(op(t)[0] for t in p) if p is not None else 'not understood' for p in ps))
        if not one:
            continue
        done = any(v == 0 and t.op == 'discr' and t.args[0].op == 'call' and t.args[0].args[0] == 'Iterator::next' and t.args[0].args[1] == site for t, v in f2)
        done = done or consumed(V, site)
        item = op(ps[0][0])[2][0]
        why = partial(V, src) or visits(V, site, src, item)
        ctx.ob('all layers are visited in order', done and not why, key, where, why or ('visits %s' % pp(src, 4)[:120] if done else 'the loop can end early without an error'))


PART = {'rev', 'take', 'skip', 'filter', 'step_by', 'take_while', 'skip_while', 'map_while', 'filter_map', 'flat_map', 'flatten', 'chain', 'zip', 'chunks', 'windows', 'split_at', 'split_first', 'split_last', 'drain', 'last', 'first',
        'truncate', 'pop', 'remove', 'retain', 'sort', 'reverse', 'swap', 'clear', 'dedup', 'get', 'cycle', 'scan', 'successors', 'rsplit', 'chunks_exact', 'skip_any', 'take_any', 'nth', 'swap_remove', 'split_off', 'insert', 'rotate_left', 'rotate_right'}


def partial(V, S, d=0):
    """why the sequence may not be the whole of a list in order (empty: it is)"""
    S = flow.inorder(V, S)
    if d > 20:
        return 'not understood'
    if S.op == 'call' and layout.name(S) == 'map':
        return partial(V, S.args[2], d + 1)
    if S.op in ('call', 'mut') and layout.name(S) in PART:
        return '%s of a list of layers' % layout.name(S)
    if S.op == 'fld' and S.args[1][0] == 'i' and S.args[1][1].op == 'agg':
        return 'a part of a list of layers: ' + pp(S, 3)[:100]
    if S.op in ('phi', 'mut'):
        t = flow.tree(V, S)
        if t is None:
            m = [x for x in subterms(S) if x.op == 'mut' and layout.name(x) in PART]
            return '%s on the list of layers' % layout.name(m[0]) if m else ''
        t = [x for x in t if x.kind != 'lit' or x.items]
        if len(t) == 1 and t[0].kind == 'loop':
            if len(t[0].body) != 1 or t[0].body[0].kind != 'push':
                return 'layers are added to the list in a way that is not understood'
            return partial(V, t[0].src, d + 1) if t[0].src is not None else 'layers are added in a loop that is not an iteration'
        if len(t) == 1 and t[0].kind in ('extend', 'list') and t[0].val is not S:
            return partial(V, t[0].val, d + 1)
        if len(t) == 1 and t[0].kind == 'list':
            return ''
        return 'the list of layers is put together from %d parts' % len(t)
    return ''


def visits(V, site, src, item):
    """why the item of a pass is not the member the pass is about"""
    S = flow.inorder(V, src)
    if S.op == 'call' and layout.name(S) == 'map' and len(S.args) > 3 and S.args[3].op == 'cloret' and S.args[3].args[-1] is item:
        return ''
    if flow.enumerates(V, [(site, src, None)], item) is not None:
        return ''
    return 'what is written is not the layer visited: ' + pp(item, 3)[:100]


def place(t):
    """one spelling for a place and a reference to it"""
    path = ()
    while True:
        if t.op == 'fld':
            path, t = (t.args[1],) + path, t.args[0]
        elif t.op == 'ref' and len(t.args) > 2:
            path = tuple(t.args[2]) + path
            if not hasattr(t.args[1], 'op'):
                return t.args[1], path
            t = t.args[1]
        else:
            return t, path


def held(V, t, block):
    """what a place holds"""
    root, path = place(t)
    return (root, path) if hasattr(root, 'op') else place(V.value(V.ins.get(block, {}), (root, path)))


def load(ctx, cfg, l, Hs):
    V, b, L = l.V, l.body, l.L
    where = b['span']
    n = 0
    for e, base, start, size, cut in l.slices:
        n += 1
        key = '%s: layer cut out of the buffer' % b['path']
        site = l.site(size)
        ok, why, first = ghost(l, start, size)
        ctx.ob('each layer starts where the one before it ended', ok, key, where, why)
        if first is not None:
            for H in sorted(Hs):
                ctx.ob('the first layer starts right behind the header', first == {(): H}, key, where, 'first layer at %s, saved headers have %d bytes' % (l.S.show(first), H))
        loop = [ph for ph in V.phi_in if ph.args[0] in l.S.heads and flow.loopsite(V, ph)[0] == site]
        src = flow.loopsite(V, loop[0])[1] if loop else None
        why = 'not an iteration' if src is None else partial(V, src) or visits(V, site, src, size)
        done = bool(loop) and (flow.escapes(V, loop[0].args[0], site) is None or consumed(V, site))
        ctx.ob('the sizes in the header are visited all and in order', not why and done, key, where, why or 'list %s of the header%s' % (l.source(size), '' if done else '; the loop can end early'))
        ctx.ob('layers are cut out of the buffer the header is read from', any({place(base), held(V, base, e.block)} & {place(x) for x in subterms(p.vals[0])} for p in l.parses), key, where, 'buffer %s' % pp(base, 3)[:80])
        puts = [p for p in V.live('call') if p.name.split('::')[-1] in ('push', 'push_back', 'insert') and len(p.vals) > 1 and p.vals[0].op == 'phi' and flow.loopsite(V, p.vals[0])[0] == site and from_cut(V, p.vals[-1], cut)]
        every = len(puts) == 1 and puts[0].name.endswith('::push') and all(V.dominates(puts[0].block, p) for p, x in l.S.sides(puts[0].vals[0])[1])
        ctx.ob('each part becomes one layer, in order', every or not puts and consumed(V, site, lambda r: from_cut(V, r, cut)), key, where, '%d places where it is added to a list' % len(puts))
    return n


def ghost(l, start, size):
    """does the start of the layers move by the size of each? (ok, explanation, first start)"""
    V, L = l.V, l.L
    phis = {(y.args[0] if y.op == 'off' else y): y for m in start for y in m if y.op == 'off' or y.op == 'phi' and y.args[0] in l.S.heads}
    if len(phis) != 1:
        return False, 'start is ' + l.S.show(start), None
    (ph, atom), = phis.items()
    if start.get((atom,)) != 1:
        return False, 'start is ' + l.S.show(start), None
    val = (lambda t: l.offset(t)[1]) if atom.op == 'off' else L.lin
    init, back = l.S.sides(ph)
    if len(init) != 1 or not back:
        return False, 'start is ' + l.S.show(start), None
    rest = add(start, {(atom,): 1}, -1)
    if any(flow.loopsite(V, y)[0] is not None and y.op == 'phi' for m in rest for y in m):
        return False, 'start is ' + l.S.show(start), None
    steps = [add(val(v), add({(atom,): 1}, L.lin(size)), -1) for p, v in back]
    ok = all(not x for x in steps)
    first = add(val(init[0][1]), rest)
    return ok, 'starts at %s; next start is the end of the layer%s' % (l.S.show(first), '' if ok else ': differs by ' + ', '.join(l.S.show(x) for x in steps)), first


ALL = ('collect', 'extend', 'for_each', 'try_for_each', 'fold', 'try_fold', 'count', 'sum', 'from_iter', 'unzip')


def consumed(V, site, want=lambda r: True):
    """is the function passed to an iterator method at the site applied to all members (unless it fails), in order?"""
    es = [e for e in V.live('call') if e.site == site]
    if not es or es[0].name == 'Iterator::next':
        return False
    if es[0].name.split('::')[-1] in ALL:
        return want is None or not es[0].name.endswith('map')
    if es[0].name != 'Iterator::map':
        return False
    for e in V.live('call'):
        if e.name.split('::')[-1] in ALL:
            for v in e.vals:
                v = flow.inorder(V, v)
                if v.op == 'call' and v.args[1] == site and layout.name(v) == 'map' and len(v.args) > 3 and v.args[3].op == 'cloret' and want(v.args[3].args[-1]):
                    return True
    return False


def from_cut(V, t, cut, d=0):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        ss = list(subterms(x))
        if cut in ss:
            return True
        todo += [y for s in ss if s.op == 'phi' for y in V.phi_in.get(s, {}).values() if y not in seen]
        if len(seen) > 500:
            return False
    return False


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        Hs, n = set(), 0
        svs = layout.saves(ctx, cfg)
        for sv in svs:
            H = save(ctx, cfg, sv)
            if H is not None:
                Hs.add(H)
        for l in layout.loads(ctx, cfg):
            n += load(ctx, cfg, l, Hs)
        ctx.floor('functions that save an index [%s]' % cfg, len(svs), 2)
        ctx.floor('places where layers are cut out of a buffer [%s]' % cfg, n, 1)
