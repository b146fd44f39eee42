"""Ghost stream position. In every function that reports a number of written bytes (returns io::Result<usize> and writes to a stream it
is handed), with all library functions inlined, the position of the stream is followed as a linear form over lengths of what is written
and targets of seeks, with an invariant for every loop, and joins split into cases. For every way to return success the reported number
must equal the distance the stream moved, and the part of the stream in between must have been written completely: after seeking back
and forth the written parts must join without gap or overlap. Calls of the writing trait for unknown types are taken at their word, as
every implementation of the trait is itself checked. In the function that saves an index, the list of sizes that is put into the header
must have one entry per layer, added in the same pass that writes the layers, each of which equals the distance the stream moved while
that layer was written."""
import lib
from stream import Stream, op, neg
from linear import add
from rules import flow
from vals import mk, pp, subterms

TECHNIQUE = 'dataflow of a ghost stream position (linear forms, loop invariants by induction, case splits) over inlined MIR'
NOTE = 'Covers the writes made through std::io::Write/Seek; that a destination accepts the bytes it is given is its contract.'
WRITES = ('Write::write_all', 'Seek::seek', 'Writeable::write', 'Seek::rewind', 'Write::write', 'Write::write_fmt')


def is_count(F, t):
    r = F.types[t]
    return r.get('k') == 'adt' and r['path'].endswith('result::Result') and len(r.get('args', [])) == 2 and F.tstr(r['args'][0]) == 'usize' and 'io::' in (F.tstr(r['args'][1]) or '')


def mutparams(F, b):
    return [i + 1 for i, t in enumerate(b['ins']) if F.types[t].get('k') == 'ref' and F.types[t].get('mut')]


def reporters(F):
    from rules.c01 import py_roots
    live = lib.reachable(F, lib.roots(F))
    return sorted(k for k, b in F.bodies.items() if k in live and b['kind'] != 'Closure' and b.get('parent') not in F.bodies and is_count(F, b['out']) and mutparams(F, b))


def is_stream_op(e):
    return e.name in WRITES or e.name.split('::')[-1].startswith('write')


def check(ctx, cfg, k):
    V = ctx.V(cfg, k)
    F, b = V.F, V.F.bodies[k]
    S = Stream(V)
    roots = set()
    for e in V.live('call'):
        if is_stream_op(e):
            for a in e.args[:]:
                if a.op == 'ref' and a.args[1] in [mk('arg', i) for i in mutparams(F, b)]:
                    roots.add(a.args[1])
    ctx.ob('a function that reports a number of bytes writes to one stream', len(roots) == 1, b['path'], b['span'], 'streams: %s' % ', '.join(pp(r) for r in roots))
    if len(roots) != 1:
        return
    root = roots.pop()
    n = 0
    bad = []
    for ev in V.live('return'):
        rv = ev.val if ev.val is not None else ev.ret
        for r, s, fs in S.outcomes(rv, V.out[ev.block].get(root, root), ev.block):
            if r.op == 'agg' and r.args[0][:2] == ('adt', 'Result') and r.args[0][2] == 1:
                continue
            if (V.discr(r), 1) in fs:
                continue
            if r.op == 'call' and r.args[0].endswith('FromResidual::from_residual'):
                continue
            n += 1
            got = V.proj(V.proj(r, ('d', 0)), ('f', 0))
            moved = add(S.pos(s), S.pos(root), -1)
            if not S.same(add(S.L.lin(got), moved, -1), fs):
                bad.append('reports %s, but the stream moved by %s' % (pp(got, 5)[:300], S.show(moved)))
                continue
            rs, why = S.runs(s, root, fs)
            if rs is None:
                bad.append(why)
                continue
            ok, why = S.contiguous(rs, S.pos(root), S.pos(s), fs)
            if not ok:
                bad.append('the bytes reported are not all written: ' + why)
    ctx.ob('the number reported is the number of bytes written', not bad and n > 0, b['path'], b['span'], '; '.join(bad)[:900] or '%d ways to return success' % n)


def recorded(ctx, cfg):
    """the list of layer sizes in the header of a saved index"""
    from rules import layout
    svs = layout.saves(ctx, cfg)
    keys = sorted({l.source(size) for l in layout.loads(ctx, cfg) for e, base, start, size, cut in l.slices})
    n = 0
    for sv in svs:
        V, S, b = sv.V, sv.S, sv.body
        for key in keys:
            vals = sv.sizes(key)
            who = '%s: %s' % (b['path'], key)
            ctx.ob('the sizes loading goes by are saved', len(vals) == 1, who, b['span'], '%d entries with this name in the header' % len(vals))
            for vec in vals[:1]:
                for s, fs in sv.ends:
                    for ph, w, f2 in layout.passes(sv, layout.unvalue(vec), s, fs):
                        n += 1
                        why = unequal(sv, ph, w)
                        ctx.ob('the sizes recorded are those of the layers written', not why, who, b['span'], why or 'one entry per layer: how far the stream moved while it was written')
    return n


def unequal(sv, ph, w):
    V, S = sv.V, sv.S
    if ph is None:
        return 'layers are not written in a loop'
    site, src = flow.loopsite(V, ph)
    steps = [add(S.pos(v), {(mk('pos', ph),): 1}, -1) for p, v in S.sides(ph)[1]]
    if not steps or any(x != steps[0] for x in steps):
        return 'ways through the loop write different amounts'
    if w.op == 'phi' and w.args[0] == ph.args[0]:
        init, back = S.sides(w)
        if len(init) != 1 or init[0][1].op not in ('empty', 'call') or flow.tree(V, init[0][1]) != []:
            return 'the list of sizes does not start empty'
        items = {v.args[4] if v.op == 'mut' and v.args[0] in ('Vec::push', 'VecDeque::push_back') and v.args[3] is w else None for p, v in back}
        if len(items) != 1 or None in items:
            return 'a pass of the loop that writes the layers does not add exactly one size'
        item = items.pop()
    else:
        t = w
        while t.op == 'fld' and t.args[1][0] in ('d', 'f'):
            t = t.args[0]
        t = flow.inorder(V, arm(V, t, site, ph.args[0]))
        if t.op != 'call' or t.args[0] != 'Iterator::map' or t.args[1] != site or len(t.args) < 4 or t.args[3].op != 'cloret':
            return 'sizes are not added in the loop that writes the layers, but taken from ' + pp(t, 4)[:100]
        item = t.args[3].args[-1]
        if item.op == 'phi' or item.op == 'call':
            item = V.proj(V.proj(item, ('d', 0)), ('f', 0))
    if add(S.L.lin(item), steps[0], -1):
        return 'a size recorded is %s, but the stream moved by %s' % (pp(item, 4)[:120], S.show(steps[0]))
    return ''


def arm(V, t, site, loop):
    """of several lists one of which is handed on: the one handed on after the loop at hand"""
    if t.op != 'phi' or t not in V.phi_in:
        return t
    after, work = set(), [loop]
    while work:
        b = work.pop()
        if b not in after:
            after.add(b)
            work += [q for p, q in V.live_e if p == b]
    xs = set()
    for p, x in V.phi_in[t].items():
        if p in after:
            while x.op == 'fld' and x.args[1][0] in ('d', 'f'):
                x = x.args[0]
            xs.add(x)
    return xs.pop() if len(xs) == 1 else t


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        rs = reporters(F)
        for k in rs:
            check(ctx, cfg, k)
        ctx.floor('functions that report a number of bytes [%s]' % cfg, len(rs), 6)
        ctx.floor('loops that write layers [%s]' % cfg, recorded(ctx, cfg), 2)
