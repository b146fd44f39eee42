"""Exact arithmetic on the shard bounds. In every public function that writes ranges of an element container, the range written in
iteration s of the loop over the shards is evaluated symbolically (polynomials, integer division and minima): the first range begins at
0, range s ends where range s+1 begins, the last ends at the number of elements for every number of shards, and begin never exceeds end
nor end the length (so no shard aborts). Every iteration writes its range, the loop covers all shards, and each shard has a file name
built from its number. The range writer itself must write the number of slices, the offsets of the slices relative to the first, and
exactly the data between the first and last offset."""
import lib
from rules.common import closure_terms, consumer, loop_skips, loop_breaks, conds
from algebra import Eval, Min, nonneg, paddd, le
from vals import mk, pp, subterms, contains, INT, to_poly, padd, from_poly

TECHNIQUE = 'symbolic term evaluation of shard bounds (polynomial/minimum normal forms) and loop coverage over MIR'
NOTE = 'Decides contiguity and coverage for every number of elements and every positive number of shards; trusts the container accessors.'

ADT = 'VariableWidthSliceVector'


def is_vec(F, b):
    t = b.get('self_ty')
    if t is None:
        return False
    t = F.types[F.peel(t)]
    return t.get('k') == 'adt' and t['path'].split('::')[-1] == ADT


def writers(F):
    """methods of the container that write part of it: (self, writer, two integers) -> Result"""
    out = []
    for k, b in F.bodies.items():
        if b['kind'] != 'Closure' and is_vec(F, b) and 'Result' in F.tstr(b['out']) and len(b['ins']) == 4 and [F.tstr(x) for x in b['ins'][2:]] == ['usize', 'usize']:
            out.append(k)
    return out


def counter(V, t):
    """loop index terms in t with the number of iterations: [(index, count, how)]"""
    out = []
    for s in sorted(closure_terms(V, t), key=lambda x: x.id):
        if s.op == 'elem' and s.args[0].op == 'agg' and str(s.args[0].args[0][1]).endswith('Range') and s.args[0].args[1] is INT(0):
            how = consumer(V, s.args[1], s.args[0])
            if how is not None:
                out.append((s, s.args[0].args[2], ('elem', how)))
        elif s.op == 'phi' and set(V.phi_in.get(s, {}).values()) == {INT(0), padd(s, INT(1))}:
            for b, c in conds(V):
                if c.op == 'bin' and c.args[0] == 'Lt' and c.args[1] is s:
                    out.append((s, c.args[2], ('phi', s.args[0])))
    return out


def covers(V, e, b, t, L):
    """does the loop writing [b, t) partition [0, L)? returns None or what is wrong"""
    cs = counter(V, b) + counter(V, t)
    carried = b.op == 'phi' and any(x is t for x in V.phi_in.get(b, {}).values())
    if not cs and not carried:
        return 'the bounds %s..%s do not depend on a loop over the shards starting at 0' % (pp(b), pp(t))
    if carried:
        ins = list(V.phi_in[b].values())
        if any(x is not t and x is not INT(0) for x in ins):
            return 'the first shard does not begin at 0'
        how = cs[0][2] if cs else None
        n = cs[0][1] if cs else None
        if n is None:
            # the loop that carries begin
            for c in V.live('call'):
                if c.name in ('Iterator::next',) and c.block == b.args[0] and c.vals and c.vals[0].op == 'agg' and str(c.vals[0].args[0][1]).endswith('Range') and c.vals[0].args[1] is INT(0):
                    n, how = c.vals[0].args[2], ('elem', c.site)
        if n is None:
            return 'the loop carrying the bounds is not a loop over all shards'
        m = Eval(V).ev(t)
        if m is None:
            return 'the end %s of a shard is not understood' % pp(t)
        step = [paddd(p, to_poly(b), -1) for p in m.ps if p != to_poly(L)]
        if to_poly(L) not in m.ps or len(step) != 1 or any(contains(f, b) for q in step[0] for f in q):
            return 'the end %s of a shard is not begin plus the shard size, bounded by the number of elements' % pp(t)
        if not nonneg(paddd(times(step[0], n), to_poly(L), -1)):
            return 'the shards together need not reach the last element: %s shards of size %s' % (pp(n), pp(from_poly(step[0])))
    else:
        i, n, how = cs[0]
        if any(c[0] is not i for c in cs):
            return 'the bounds %s..%s depend on more than one loop' % (pp(b), pp(t))
        f0, fs = Eval(V, {i: INT(0)}).ev(b), Eval(V, {i: padd(i, INT(1))}).ev(b)
        fn, g = Eval(V, {i: n}).ev(b), Eval(V).ev(t)
        if None in (f0, fs, fn, g):
            return 'the bounds %s..%s are not understood' % (pp(b), pp(t))
        Lm = Min([to_poly(L)])
        if not f0 == Min([{}]):
            return 'the first shard begins at %s, not at 0' % show(f0)
        if not fs == g:
            return 'a shard ends at %s but the next one begins at %s' % (show(g), show(fs))
        if not fn == Lm:
            return 'the last shard ends at %s, not at the number of elements %s' % (show(fn), pp(L))
        f = Eval(V).ev(b)
        if not all(any(le(p, q) for p in f.ps) for q in g.ps):
            return 'a shard may begin at %s after its end %s' % (show(f), show(g))
        if not any(le(p, to_poly(L)) for p in g.ps) and not i_bounded(g, i, n, L):
            return 'a shard may end at %s, beyond the last element' % show(g)
    if loop_skips(V, how, {e.block}):
        return 'an iteration of the loop over the shards can go on without writing its range'
    if loop_breaks(V, how) is not None:
        return 'the loop over the shards can be left before its end'
    return None


def i_bounded(g, i, n, L):
    """a bound that grows with the index and equals L at the last one"""
    return all(all(c >= 0 or not any(contains(f, i) for f in m) for m, c in p.items()) for p in g.ps)


def times(p, n):
    from algebra import pmuld
    return pmuld(p, to_poly(n))


def show(m):
    ps = [pp(from_poly(p)) for p in m.ps]
    return ps[0] if len(ps) == 1 else 'min(%s)' % ', '.join(ps)


def alts(V, t):
    return list(V.alts(t)) if t.op == 'phi' else [t]


def named(V, t, idx, d=0):
    """is every possible value of t computed from idx?"""
    if contains(t, idx):
        return True
    if d > 6:
        return False
    for s in subterms(t):
        if s.op == 'phi':
            al = [x for x in V.phi_in.get(s, {}).values() if x is not s]
            if al and all(named(V, x, idx, d + 1) for x in al):
                return True
    return False


def writes(V):
    return [e for e in V.calls() if e.name in ('Write::write_all', 'Write::write') or e.name.endswith('::write_as_bytes')]


def data_of(t):
    """the sequence whose bytes a write of raw bytes writes"""
    if t.op == 'call' and str(t.args[0]) in ('slice::from_raw_parts',) and t.args[2].op == 'call' and str(t.args[2].args[0]) == 'slice::as_ptr':
        return t.args[2].args[2]
    return None


def part(V, F, k, ctx, cfg):
    """the range writer: (ok, message)"""
    V = ctx.V(cfg, k)
    b = F.bodies[k]
    lo, hi = mk('arg', 3), mk('arg', 4)
    ws = writes(V)
    seqs = [(e, data_of(e.vals[1])) for e in ws]
    count = [e for e, s in seqs if s is None and contains(e.vals[1], lo) and contains(e.vals[1], hi) and any(x is padd(hi, lo, -1) for x in subterms(e.vals[1]))]
    data, offs = [], []
    for e, s in seqs:
        if s is None:
            continue
        if s.op == 'fld' and s.args[1][0] == 'i':
            r = s.args[1][1]
            if r.op == 'agg' and str(r.args[0][1]).endswith('Range') and len(r.args) == 3:
                x, y = value(V, r.args[1]), value(V, r.args[2])
                if x.op == 'fld' and y.op == 'fld' and x.args[0] is y.args[0] and x.args[1] == ('i', lo) and y.args[1] == ('i', hi):
                    data.append((e, x.args[0]))
                    continue
        offs.append((e, s))
    if len(count) != 1:
        return 'the number of slices written is not end - begin'
    if len(data) != 1:
        return 'the data written is not exactly that between the offsets of begin and end'
    O = data[0][1]
    base = mk('fld', O, ('i', lo))
    if len(offs) != 1:
        return 'the offsets are not written by exactly one write'
    e, s = offs[0]
    if s.op == 'agg' and s.args[0][0] == 'array' and len(s.args) == 2:
        x = value(V, s.args[1])
        cand = [y for y in subterms(x) if y.op == 'elem' or y.op == 'fld' and y.args[0] is O]
        for y in cand:
            if padd(y, base, -1) is x and inclusive(V, y, O, lo, hi):
                if loop_skips(V, inclusive(V, y, O, lo, hi), {e.block}):
                    return 'an offset may be left out'
                return None
        return 'an offset is written as %s, not relative to the offset of begin' % pp(x)
    m = s
    if m.op == 'call' and str(m.args[0]) in ('Iterator::map',) and m.args[3].op == 'cloret':
        r = value(V, m.args[3].args[1])
        for y in subterms(r):
            if y.op == 'elem' and padd(y, base, -1) is r and rng(m.args[2], O, lo, hi):
                return None
    return 'the offsets written are %s' % pp(s)


def rng(t, O, lo, hi):
    if t.op != 'fld' or t.args[0] is not O or t.args[1][0] != 'i':
        return False
    r = t.args[1][1]
    if r.op == 'call' and str(r.args[0]) == 'RangeInclusive::new':
        return r.args[-2] is lo and r.args[-1] is hi
    return r.op == 'agg' and str(r.args[0][1]).endswith('Range') and len(r.args) == 3 and r.args[1] is lo and r.args[2] is padd(hi, INT(1))


def inclusive(V, y, O, lo, hi):
    """loop in which y is each of O[lo..=hi]"""
    if y.op == 'elem' and rng(y.args[0], O, lo, hi):
        s = consumer(V, y.args[1], y.args[0])
        return ('elem', s) if s is not None else None
    if y.op == 'fld' and y.args[1][0] == 'i':
        i = y.args[1][1]
        if i.op == 'elem':
            r = i.args[0]
            ok = r.op == 'call' and str(r.args[0]) == 'RangeInclusive::new' and r.args[-2] is lo and r.args[-1] is hi or \
                r.op == 'agg' and str(r.args[0][1]).endswith('Range') and len(r.args) == 3 and r.args[1] is lo and r.args[2] is padd(hi, INT(1))
            s = consumer(V, i.args[1], r) if ok else None
            return ('elem', s) if s is not None else None
        if i.op == 'phi' and set(V.phi_in.get(i, {}).values()) == {lo, padd(i, INT(1))}:
            if any(c.op == 'bin' and (c.args[0] == 'Le' and c.args[1] is i and c.args[2] is hi or c.args[0] == 'Lt' and c.args[1] is i and c.args[2] is padd(hi, INT(1))) for _, c in conds(V)):
                return ('phi', i.args[0])
    return None


def value(V, t):
    """a loop-invariant join as the one value it can have"""
    if t.op == 'phi':
        al = set(V.alts(t))
        if len(al) == 1:
            return next(iter(al))
    return t


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        ws = writers(F)
        ctx.floor('range writers of %s [%s]' % (ADT, cfg), len(ws), 1)
        for k in ws:
            bad = part(None, F, k, ctx, cfg)
            ctx.ob('a range writer writes exactly the requested slices', bad is None, F.bodies[k]['path'], F.bodies[k]['span'], bad or '')
        names = {F.bodies[k]['path'].split('::')[-1] for k in ws}
        n = 0
        cg = lib.callgraph(F)
        users = {k for k, s in cg.items() if s & set(ws)}
        for r in lib.roots(F):
            if r in ws or not (lib.reachable(F, [r]) & users):
                continue
            b = F.bodies[r]
            V = ctx.V(cfg, r, inline=lambda key, body, fr: not is_vec(F, body), tag='sh')
            for e in V.calls():
                if e.name.split('::')[-1] not in names or not e.name.startswith(ADT):
                    continue
                n += 1
                recv, lo, hi = e.vals[0], e.vals[2], e.vals[3]
                Ls = {c.ret for c in V.calls() if c.name == ADT + '::len' and c.vals and c.vals[0] is recv}
                if len(Ls) != 1:
                    bad = 'the number of elements of the container that is written is not used to compute the bounds'
                else:
                    bad = covers(V, e, value(V, lo), value(V, hi), next(iter(Ls)))
                ctx.ob('the shards are contiguous and cover all elements', bad is None, b['path'], e.sp, bad or '')
                cs = counter(V, lo) + counter(V, hi)
                files = [c for c in V.calls() if c.name in ('File::create', 'OpenOptions::open') and V.dominates(c.block, e.block)]
                if cs:
                    i = cs[0][0]
                    for c in files:
                        ok = any(named(V, x, i) for x in c.vals)
                        ctx.ob('each shard has a file of its own', ok, b['path'] + ': file name', c.sp, '' if ok else 'the name of the file created is %s, which need not depend on the number of the shard' % pp(c.vals[0]))
                    ctx.ob('a shard is written to a file created for it', bool(files), b['path'] + ': file', e.sp, '' if files else 'no file is created before the range is written')
        ctx.floor('sharded writes [%s]' % cfg, n, 1)
