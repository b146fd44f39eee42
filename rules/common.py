"""helpers shared by the rules"""
import re
from vals import Term, mk, subterms, contains, pp, INT, to_poly

NOMUT = {'Iterator::next', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow'}


def mut_effects(V, root, events=None):
    """events that change memory behind the root term (an argument passed by mutable reference, or an owned value)"""
    out = []
    for e in (events if events is not None else [x for x in V.events if x.block not in V.dead]):
        if e.kind == 'write' and e.lv[0] is root:
            out.append(e)
        elif e.kind == 'call':
            for a in e.args:
                if any(r.args[1] is root for r in V.mutrefs(a)):
                    out.append(e)
                    break
    return out


def strip(fn):
    return re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>', '', fn['path']).replace('::::', '::')


def field(F, adt, pred):
    """indexes of the fields of a struct (by path suffix) that satisfy pred(name, type index)"""
    for p, a in F.adt_by_path.items():
        if (p == adt or p.endswith('::' + adt)) and len(a['vs']) == 1:
            return [i for i, f in enumerate(a['vs'][0]['fs']) if pred(f['n'], f['t'])]
    return []


def closure_terms(V, t, limit=4000):
    """all terms a value is built from, joins included"""
    seen, work = set(), [t]
    while work and len(seen) < limit:
        x = work.pop()
        for s in subterms(x):
            if s in seen:
                continue
            seen.add(s)
            if s.op == 'phi':
                work += [y for y in V.phi_in.get(s, {}).values() if y not in seen]
    return seen


def conds(V):
    """every branch condition of the graph, as (block, term)"""
    return [(b, c) for b, c in V.cond.items() if b not in V.dead]


def cond_atoms(V):
    out = set()
    for b, c in conds(V):
        for s in closure_terms(V, c):
            if s.op == 'bin' and s.args[0] in ('Lt', 'Le', 'Eq'):
                out.add(s)
    return out


def term_type(V, t):
    """type index of a place-like term (argument or its parts), or None"""
    F = V.F
    if t.op == 'arg':
        return F.peel(V.ir.locals[t.args[0]]) if t.args[0] < len(V.ir.locals) else None
    if t.op == 'fld':
        b = term_type(V, t.args[0])
        return step_type(F, b, t.args[1])
    if t.op == 'with':
        return term_type(V, t.args[0])
    if t.op == 'phi':
        for x in V.phi_in.get(t, {}).values():
            if x.op in ('arg', 'fld'):
                return term_type(V, x)
    return None


def step_type(F, t, e):
    if t is None:
        return None
    r = F.types[t]
    if r.get('k') == 'adt' and e[0] == 'f':
        a = F.adt_by_path.get(r['path'])
        if a is None:
            return None
        fs = [v['fs'] for v in a['vs'] if len(v['fs']) > e[1]]
        # after a downcast only one variant is meant; take the last one that has the field (checked by callers through the variant)
        return F.peel(fs[-1][e[1]]['t']) if fs else None
    if r.get('k') == 'tuple' and e[0] == 'f':
        return F.peel(r['ts'][e[1]]) if e[1] < len(r['ts']) else None
    if e[0] == 'd':
        return t
    if e[0] in ('i', 'c') and 't' in r:
        return F.peel(r['t'])
    return None


def lv_types(V, root, path):
    """types along a mutable place: [(prefix length, type index)]"""
    F = V.F
    t = V.ir.locals[root] if isinstance(root, int) else term_type(V, root)
    t = F.peel(t) if t is not None else None
    out = [(0, t)]
    var = None
    for n, e in enumerate(path):
        if e[0] == 'd':
            var = e[1]
            out.append((n + 1, t))
            continue
        r = F.types[t] if t is not None else {}
        if r.get('k') == 'adt' and e[0] == 'f' and var is not None and r['path'] in F.adt_by_path:
            vs = F.adt_by_path[r['path']]['vs']
            fs = vs[var]['fs'] if var < len(vs) else []
            t = F.peel(fs[e[1]]['t']) if e[1] < len(fs) else None
        else:
            t = step_type(F, t, e)
        var = None
        out.append((n + 1, t))
    return out


def adt_path(F, t):
    r = F.types[t] if t is not None else {}
    return r.get('path') if r.get('k') == 'adt' else None


def whole(V, r, seq):
    """is r the index range of the whole of seq (0..len)?"""
    from vals import INT
    return r.op == 'agg' and r.args[0][0] == 'adt' and str(r.args[0][1]).endswith('Range') and len(r.args) == 3 and r.args[1] is INT(0) and r.args[2] is V.length(seq)


def same_len(V, n, seq):
    """is n the length of seq, or of what seq becomes by having members changed?"""
    if n is V.length(seq):
        return True
    if n.op != 'len':
        return False
    seen, work = set(), [n.args[0]]
    while work:
        x = work.pop()
        if x in seen or x is seq:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'with':
            work.append(x.args[0])
        else:
            return False
    return True


ORDERED = {'Iterator::enumerate', 'IndexedParallelIterator::enumerate', 'Iterator::inspect', 'Iterator::map', 'ParallelIterator::map', 'slice::iter_mut', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse',
           'IndexedParallelIterator::with_min_len', 'IndexedParallelIterator::with_max_len', 'IntoParallelRefMutIterator::par_iter_mut', 'rayon::par_iter_mut'}
REVERSED = {'Iterator::rev', 'IndexedParallelIterator::rev'}
CONSUMERS = {'Iterator::next', 'DoubleEndedIterator::next_back', 'Iterator::for_each', 'ParallelIterator::for_each', 'Iterator::fold'}


def chain(V, it, seq, through=None, rev=False):
    """does iterating over `it` visit every member of seq once, in order (any order if rev), by way of the call with site `through`?"""
    hit = through is None
    for _ in range(30):
        if it is seq or whole(V, it, seq):
            return hit
        if it.op != 'call':
            return False
        n = str(it.args[0])
        if it.args[1] is not None and it.args[1] == through:
            hit = True
        if n in ORDERED or rev and n in REVERSED:
            it = it.args[2]
            continue
        return False
    return False


def consumer(V, site, seq, rev=False):
    """site of the loop (or whole-sequence consumer) in which the member called elem(seq, site) is visited"""
    for c in V.live('call'):
        n = c.name
        if n not in CONSUMERS or (n == 'DoubleEndedIterator::next_back' and not rev):
            continue
        src = c.ret.args[2] if c.ret is not None and c.ret.op == 'call' and len(c.ret.args) > 2 else c.vals[0]
        if c.site == site:
            if chain(V, src, seq, None, rev):
                return c.site
        elif chain(V, src, seq, site, rev):
            return c.site
    return None


def member_of(V, t, seq, rev=False, maps=False):
    """('elem', site of the loop) / ('phi', block) when t is the member of seq visited by a loop over all of seq (in order), else None;
    with maps, also ('elem', site) of a lazy map over all of seq"""
    from vals import INT, padd
    site = None
    if t.op == 'elem' and (t.args[0] is seq or t.args[0].op == 'call' and str(t.args[0].args[0]) == 'slice::iter_mut' and t.args[0].args[2] is seq):
        site = t.args[1]
    elif t.op == 'fld' and t.args[0] is seq and t.args[1][0] == 'i':
        i = t.args[1][1]
        if i.op == 'elem' and (whole(V, i.args[0], seq) or i.args[0].op == 'call' and str(i.args[0].args[0]) == 'slice::iter_mut' and i.args[0].args[2] is seq):
            site = i.args[1]
        elif i.op == 'iidx' and i.args[0] is seq:
            site = i.args[1]
        elif i.op == 'phi':
            ins = set(V.phi_in.get(i, {}).values())
            if ins == {INT(0), padd(i, INT(1))} and any(c.op == 'bin' and c.args[0] == 'Lt' and c.args[1] is i and same_len(V, c.args[2], seq) for c in V.cond.values()):
                return 'phi', i.args[0]
    if site is None:
        return None
    if maps:
        for c in V.live('call'):
            if c.site == site and c.name in ('Iterator::map', 'ParallelIterator::map') and chain(V, c.vals[0], seq, None, rev):
                return 'elem', site
    s = consumer(V, site, seq, rev)
    return ('elem', s) if s is not None else None


def heads_of(V, how):
    if how[0] == 'phi':
        return [how[1]]
    body = [e.block for e in V.events if e.kind == 'mark' and e.site == how[1] and e.args == 'loop' and e.block not in V.dead]
    return body or [c.block for c in V.live('call') if c.site == how[1]]


def loop_skips(V, how, must):
    """can an iteration of the loop (as returned by member_of) come back to its head without running a block of `must`?"""
    from ir import succs
    heads = heads_of(V, how)
    for h in heads:
        seen, work = set(), [s for s in succs(V.ir.blocks[h].t)] if h not in must else []
        while work:
            b = work.pop()
            if b in seen or b in must or b in V.dead:
                continue
            seen.add(b)
            work += succs(V.ir.blocks[b].t)
        if h in seen:
            return True
    return False


def loop_breaks(V, how):
    """a block of the loop from which the loop can be left towards a return other than by its own end condition, or None"""
    from ir import succs
    heads = heads_of(V, how)

    def fwd(starts):
        seen, work = set(), list(starts)
        while work:
            b = work.pop()
            if b in seen or b in V.dead:
                continue
            seen.add(b)
            work += succs(V.ir.blocks[b].t)
        return seen
    pred = {}
    for i, B in enumerate(V.ir.blocks):
        for s in succs(B.t):
            pred.setdefault(s, []).append(i)
    rets = {e.block for e in V.live('return')}
    back, work = set(), list(rets)
    while work:
        b = work.pop()
        if b in back:
            continue
        back.add(b)
        work += pred.get(b, [])
    for h in heads:
        f = fwd([h])
        r, work = set(), [h]
        while work:
            b = work.pop()
            if b in r or b not in f:
                continue
            r.add(b)
            work += [p for p in pred.get(b, []) if p in f]
        own = h
        while len(succs(V.ir.blocks[own].t)) == 1:
            own = succs(V.ir.blocks[own].t)[0]
        for b in r:
            if b == own:
                continue
            for s in succs(V.ir.blocks[b].t):
                if s not in r and s in back and s not in V.dead and (b, s) in V.live_e:
                    return b
    return None


GIVES_UP = ('unlocked', 'unlocked_fair', 'bump', 'force_unlock', 'force_unlock_fair', 'force_unlock_read', 'force_unlock_write', 'force_unlock_read_fair', 'force_unlock_write_fair', 'leak', 'raw', 'data_ptr')


def held(ctx, cfg, F):
    """locks are held from their acquisition until the guard is dropped: no operation of the lock type gives them up in between, never gives them up,
    or goes around them"""
    n = 0
    for k, b in sorted(F.bodies.items()):
        for bl in b['blocks']:
            t = bl['t']
            if t['t'] != 'call' or 'k' not in t['f'] or 'fn' not in t['f']['k']:
                continue
            fn = t['f']['k']['fn']
            if 'RwLock' in fn['path'] or 'rwlock' in fn['path']:
                n += 1
                nm = fn['path'].split('::')[-1]
                if nm in GIVES_UP:
                    ctx.ob('a lock is held until its guard is dropped', False, '%s: %s' % (b['path'].split('::{closure')[0], nm), t.get('sp', b['span']), '%s lets go of a lock (or of the data behind it) while it counts as held' % fn['path'])
    ctx.ob('a lock is held until its guard is dropped', True, 'lock operations [%s]' % cfg, None, '%d operations of read-write locks' % n)
