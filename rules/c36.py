"""Two data-flow rules over the inlined control-flow graphs. (1) Sorting: in every exported operation that reaches the neighbour-set encoder
(recognised by its use of the variable-byte codec) the buffer given to the codec is traced back through joins, padding, truncation and the
in-place differencing loop; every path must end in an in-place ascending sort, nothing but those steps may lie between the sort and the codec.
(2) Marker: every neighbour slot that is read from a fixed-width layer and handed on - converted to an element number, or pushed into the
buffer that is encoded - must be behind a comparison that excludes the unused marker (a branch that dominates the use, or a filter /
take_while stage the value has passed); every get_neighbors either does this or hands on another get_neighbors; and whatever fills unused
slots (resizing a layer, padding a decoded set, overwriting the tail of a list) fills them with the marker itself."""
import lib, ir
from rules.common import closure_terms
from linear import rng
from vals import mk, pp, subterms, INT

TECHNIQUE = 'backward data-flow over joins (sorted-before-encode) and guard dominance (marker comparison) over inlined control-flow graphs'
NOTE = 'Covers every operation that encodes neighbour sets and every read of a raw neighbour slot in the index code; that the unused slots of a list come after the used ones is assumed.'

UNUSED = (1 << 32) - 1
SORTS = {'slice::sort', 'slice::sort_unstable', 'ParallelSliceMut::par_sort', 'ParallelSliceMut::par_sort_unstable'}
# in-place differencing may reach the slots through an index or an iterator
KEEP = {'slice::iter_mut', 'slice::split_at_mut', 'slice::split_first_mut', 'slice::split_last_mut', 'Vec::as_mut_slice', 'slice::windows_mut', 'Vec::resize', 'Vec::truncate', 'Vec::reserve', 'Vec::shrink_to_fit', 'Vec::dedup'}


def fncalls(F, k):
    for bl in F.bodies[k]['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'k' in t['f'] and 'fn' in t['f']['k']:
            yield t['f']['k']['fn']


def encoder_reach(F):
    enc = {k for k in F.bodies if any(fn['path'].startswith('stream_vbyte') and fn['path'].endswith('::encode') for fn in fncalls(F, k))}
    cg = lib.callgraph(F)
    up, ch = set(enc), True
    while ch:
        ch = False
        for k, s in cg.items():
            if k not in up and s & up:
                up.add(k)
                ch = True
    return enc, up


def mutname(t):
    return str(t.args[0])


def whole_of(x):
    """the value a mutating call changed"""
    return x.args[3 + x.args[2]]


def unsorted(V, t):
    """the term at which the backward walk meets something that is not an ascending sort, or None; second result: number of sorts met"""
    seen, work, sorts, bases = set(), [t], 0, []
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'with':
            if not all(p and p[0][0] in ('i', 'c') for p, v in x.args[1]):
                return x, sorts, bases
            work.append(x.args[0])
        elif x.op == 'mut':
            n = mutname(x)
            if n in SORTS:
                sorts += 1
                bases.append(whole_of(x))
            elif n in KEEP:
                work.append(whole_of(x))
            else:
                return x, sorts, bases
        elif x.op == 'empty':
            pass
        else:
            return x, sorts, bases
    return None, sorts, bases


def raw_slot(V, t):
    """is t the value of one slot of a fixed-width neighbour list?"""
    if t.op == 'elem':
        b = t.args[0]
    elif t.op == 'fld' and t.args[1][0] in ('i', 'c'):
        b = t.args[0]
    else:
        return False
    for _ in range(20):
        if b.op == 'call':
            n = str(b.args[0])
            if n.startswith('FixedWidthSliceVector::'):
                return True
            if n.startswith(('slice::', 'Iterator::', 'Deref::', 'DerefMut::')) and len(b.args) > 2:
                b = b.args[2]
                continue
            return False
        if b.op == 'content':
            return True
        if b.op == 'elem':
            b = b.args[0]
            continue
        if b.op in ('mut', 'with'):
            b = whole_of(b) if b.op == 'mut' else b.args[0]
            continue
        if b.op == 'fld' and b.args[1][0] in ('i', 'c'):
            b = b.args[0]
            continue
        if b.op == 'arg':
            F = V.F
            ty = F.types[F.peel(V.ir.locals[b.args[0]])]
            return 't' in ty and F.tstr(ty['t']) == 'u32'
        return False
    return False


def excludes(t, v, x):
    """does the fact (term t has value v) exclude x == UNUSED?"""
    if t.op == 'un' and t.args[0] == 'Not':
        return v in (0, 1) and excludes(t.args[1], 1 - v, x)
    if t.op == 'bin':
        o, a, b = t.args[0], t.args[1], t.args[2]
        u = INT(UNUSED)
        if o == 'Eq' and {a, b} == {x, u}:
            return v == 0
        if o == 'Lt' and a is x and b is u:
            return v == 1
        if o == 'Le' and a is u and b is x:
            return v == 0
        if o == 'And' and v == 1:
            return excludes(a, 1, x) or excludes(b, 1, x)
    return False


def before_marker(V, x):
    """is x a member of a list that was cut off at the first marker?"""
    b = x.args[0]
    for _ in range(10):
        if b.op == 'call' and len(b.args) > 2 and str(b.args[0]).startswith(('slice::iter', 'Deref::', 'Iterator::', 'IntoIterator::')) and not str(b.args[0]).endswith(('chain', 'zip')):
            b = b.args[2]
        elif b.op == 'fld' and b.args[1][0] == 'i':
            q = b.args[1][1]
            r = (INT(0), q.args[1], 0) if q.op == 'agg' and str(q.args[0][1]).endswith('RangeTo') and len(q.args) > 1 else rng(q)
            if r and r[1] is not None and r[0] is INT(0) and r[2] == 0 and first_marker(V, r[1], b.args[0]):
                return True
            b = b.args[0]
        elif b.op == 'fld' and b.args[1] == ('f', 0) and b.args[0].op == 'call' and str(b.args[0].args[0]).startswith('slice::split_at') and len(b.args[0].args) > 3:
            if first_marker(V, b.args[0].args[3], b.args[0].args[2]):
                return True
            b = b.args[0].args[2]
        else:
            return False
    return False


def first_marker(V, n, L):
    """is n the number of members of the list L in front of its first marker?"""
    def upto(t):
        """a search from the front of L that goes on as long as there is no marker"""
        if t.op != 'call' or len(t.args) < 4 or t.args[3].op != 'cloret' or t.args[2] is not L and not (t.args[2].op == 'call' and str(t.args[2].args[0]).split('::')[-1] in ('iter', 'copied', 'cloned', 'into_iter') and L in subterms(t.args[2])):
            return False
        r = t.args[3].args[1]
        own = [y for y in subterms(r) if y.op == 'elem' and y.args[1] == t.args[1]]
        went = 1 if str(t.args[0]).split('::')[-1] in ('take_while', 'partition_point') else 0
        return any(excludes(r, went, y) for y in own)

    def found(t):
        while t.op == 'fld' and t.args[1] in (('d', 1), ('f', 0)):
            t = t.args[0]
        return t if t.op == 'call' and str(t.args[0]).split('::')[-1] == 'position' and upto(t) else None
    if n.op == 'phi':
        ins = {(p, v) for p, v in V.phi_in.get(n, {}).items() if p != 'entry' and V.edge_facts(p, n.args[0])[1]}
        pos = {found(v) for p, v in ins} - {None}
        return len(pos) == 1 and all(found(v) or v in (mk('len', L), V.length(L)) and any(t.op == 'discr' and c == 0 and t.args[0] in pos for t, c in list(V.facts(p)) + list(V.edge_facts(p, n.args[0])[0])) for p, v in ins)
    if n.op == 'call' and str(n.args[0]).endswith('unwrap_or') and len(n.args) > 3:
        return found(n.args[2]) is not None and n.args[3] in (mk('len', L), V.length(L))
    if n.op == 'call' and str(n.args[0]).endswith('::count') and len(n.args) > 2:
        return n.args[2].op == 'call' and str(n.args[2].args[0]).endswith('::take_while') and upto(n.args[2])
    if n.op == 'call' and str(n.args[0]).endswith('::partition_point'):
        return upto(n)
    return False


def guarded(V, x, block):
    for c, v in V.facts(block):
        if excludes(c, v, x):
            return True
    if x.op == 'elem' and before_marker(V, x):
        return True
    # a filtering stage upstream: the stage's predicate excludes the marker and the value is only used by what consumes that stage
    users = [e for e in V.live('call') if e.vals and any(a.op == 'cloret' and x in closure_terms(V, a) for a in e.vals[1:])]
    filt = []
    for e in users:
        if e.name in ('Iterator::filter', 'Iterator::take_while', 'ParallelIterator::filter'):
            for a in e.vals[1:]:
                if a.op == 'cloret' and excludes(a.args[1], 1, x):
                    filt.append(e.ret)
    if not filt:
        return False
    # the block belongs to a closure run by a stage whose source comes out of the filter, or to a loop over it
    fr = V.ir.blocks[block]
    for e in V.live('call'):
        if e.ret in filt or not e.vals:
            continue
        src = e.vals[0]
        if any(f is not None and f in subterms(src) for f in filt):
            return True
    return False


def check_sort(ctx, cfg):
    F = ctx.F(cfg)
    enc, up = encoder_reach(F)
    ctx.floor('functions that use the neighbour-set codec [%s]' % cfg, len(enc), 1)
    n = m = 0
    for r in lib.roots(F):
        if r not in up:
            continue
        V = ctx.V(cfg, r, inline=lambda key, body, fr: key in up or body['kind'] == 'Closure' or body['name'] in ('delta_encode', 'clear', 'borrow'), tag='enc')
        name = F.bodies[r]['path']
        for e in V.live('call'):
            if not (e.fn and e.fn['path'].startswith('stream_vbyte') and e.fn['path'].endswith('::encode')):
                continue
            n += 1
            bad, sorts, bases = unsorted(V, e.vals[0])
            ctx.ob('neighbour sets are sorted ascending before they are encoded', bad is None and sorts > 0, '%s: codec in %s' % (name, e.fr.path), e.sp,
                   'the encoded buffer comes from %s without an ascending sort in between' % pp(bad)[:200] if bad is not None else '%d sort(s) on the way, nothing else' % sorts)
            # what is collected into the sorted buffer straight from raw slots
            seen, work = set(), list(bases)
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'phi':
                    work += list(V.phi_in.get(x, {}).values())
                elif x.op == 'mut':
                    work.append(whole_of(x))
            for p in V.live('call'):
                if p.ret is None and not p.vals:
                    continue
                if p.name in ('Vec::push', 'VecDeque::push_back') and any(x.op == 'mut' and x.args[0] == p.name and x.args[1] == p.site for x in seen):
                    v = p.vals[1]
                    if raw_slot(V, v):
                        m += 1
                        ctx.ob('an unused slot is never encoded', guarded(V, v, p.block), '%s: pushed into the encoded set in %s' % (name, p.fr.path), p.sp,
                               '%s is pushed %s' % (pp(v)[:150], 'behind a comparison with the marker' if guarded(V, v, p.block) else 'without a comparison with the unused marker'))
                elif p.name in ('Extend::extend', 'Vec::extend_from_slice') and any(x.op == 'mut' and x.args[0] == p.name and x.args[1] == p.site for x in seen):
                    src = p.vals[1]
                    sl = [s for s in closure_terms(V, src) if s.op == 'elem' and raw_slot(V, s)]
                    for v in sl[:1]:
                        m += 1
                        ctx.ob('an unused slot is never encoded', any(s.op == 'cloret' and excludes(s.args[1], 1, v) for s in subterms(src)), '%s: added to the encoded set in %s' % (name, p.fr.path), p.sp, pp(src)[:200])
            for x in bases:
                for s in subterms(x):
                    if s.op == 'call' and str(s.args[0]) in ('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::copied', 'Iterator::cloned', 'Iterator::take_while'):
                        slots = {y for y in closure_terms(V, s) if y.op == 'elem' and raw_slot(V, y)}
                        # not the list a slot is taken from
                        slots -= {z for y in slots for z in subterms(y) if z is not y}
                        for v in slots:
                            m += 1
                            ctx.ob('an unused slot is never encoded', any(y.op == 'cloret' and excludes(y.args[1], 1, v) for y in subterms(x)), '%s: collected into the encoded set' % name, e.sp, pp(x)[:200])
    ctx.floor('uses of the codec reached from exported operations [%s]' % cfg, n, 4)
    ctx.floor('raw slots put into encoded sets [%s]' % cfg, m, 1)


def slot_helper(F, key, body):
    """a private function that works on the slots of one neighbour list (a helper factored out of a neighbour query)"""
    if not key.startswith('granne::index') or body.get('exported') or body['name'] in ('get_neighbors', 'add_and_limit_neighbors') or len(body['blocks']) > 30:
        return False
    for i in body['ins']:
        t = F.types[F.peel(i)]
        if F.tstr(F.peel(i)) == 'u32' or 't' in t and F.tstr(t['t']) == 'u32':
            return True
    return False


def check_marker(ctx, cfg):
    F = ctx.F(cfg)
    sites, gn = 0, 0
    fills = 0
    for k, b in sorted(F.bodies.items()):
        if b['kind'] == 'Closure' or not k.startswith('granne::index'):
            continue
        V = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure' or slot_helper(F, key, body), tag='slot')
        mine = 0
        for e in V.live('call') + V.live('cast'):
            if e.kind == 'call':
                if e.name not in ("TryFrom::try_from", "TryInto::try_into", "From::from", "Into::into") or not e.tys or e.tys[0] is None or F.tstr(e.tys[0]) != "u32":
                    continue
            elif e.tys[0] != 'u32':
                continue
            x = e.vals[0]
            if not raw_slot(V, x):
                continue
            sites += 1
            mine += 1
            g = guarded(V, x, e.block)
            ctx.ob('a slot is read as a neighbour only when it is not the unused marker', g, '%s: slot used as a neighbour' % b['path'], e.sp,
                   '%s is used as an element number %s' % (pp(x)[:150], 'behind a comparison with the marker' if g else 'without a comparison with the unused marker'))
        if b['name'] == 'get_neighbors' and b.get('self_ty') is not None:
            gn += 1
            dele = any(c.name.endswith('::get_neighbors') for c in V.live('call'))
            dec = any(c.name in ('MultiSetVector::get', 'MultiSetVector::get_into') for c in V.live('call'))
            ctx.ob('every neighbour query filters the unused marker or hands on one that does', dele or dec or mine > 0, '%s' % b['path'], b['span'],
                   'hands on another neighbour query' if dele else 'reads an encoded set (which holds no markers)' if dec else 'filters the marker' if mine else 'neither filters nor delegates')
        for e in V.live('call'):
            if not e.tys:
                continue
            ts = [F.tstr(t) if t is not None else "" for t in e.tys]
            if e.name in ('FixedWidthSliceVector::resize', 'Vec::resize', 'VecDeque::resize') and ts[-1] == 'u32' or e.name in ('slice::fill', 'iter::repeat', 'repeat', 'iter::repeat_n') and 'u32' in ts:
                v = e.vals[-1] if 'repeat' not in e.name else e.vals[0]
                fills += 1
                ctx.ob('unused slots are filled with the marker', v is INT(UNUSED), '%s: fill by %s' % (b['path'], e.name), e.sp, 'filled with %s' % pp(v))
    ctx.floor('raw slots read as neighbours [%s]' % cfg, sites, 3 if cfg != 'single' else 3)
    ctx.floor('neighbour queries [%s]' % cfg, gn, 5)
    ctx.floor('fills of neighbour slots [%s]' % cfg, fills, 3)


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        check_sort(ctx, cfg)
        check_marker(ctx, cfg)
    ctx.assume('used slots of a fixed-width neighbour list come before the unused ones')
