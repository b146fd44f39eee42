"""operations of a lock-protected index that append elements: shared by C12 (ids) and C14 (capacity)"""
import locks
from algebra import Min, paddd
from ir import succs
from rules.c13 import lock_adts
from rules.searching import inputs, mutated
from vals import mk, pp, subterms, INT, to_poly, from_poly


def adts(ctx, cfg):
    """locked types that own an extendable container: {path: {'elements': index of that field, ...}}"""
    F = ctx.F(cfg)
    out = {}
    for p in sorted(lock_adts(F)):
        fs = F.adt_by_path[p]['vs'][0]['fs']
        d = {'elements': [], 'locks': {}}
        for i, f in enumerate(fs):
            t = F.types[f['t']]
            if t.get('k') != 'adt' or not locks.LOCKT.search(t['path']):
                continue
            d['locks'][i] = f['n']
        out[p] = d
    return out


def operations(F, adt):
    """public methods of the type that take self by shared reference"""
    out = []
    for k, b in sorted(F.bodies.items()):
        if b['kind'] == 'Closure' or not b.get('exported') or not b['ins'] or b.get('self_ty') is None or not b['argnames'] or b['argnames'][0] != 'self':
            continue
        t = F.types[b['ins'][0]]
        if t.get('k') == 'ref' and not t.get('mut') and F.types[t['t']].get('path') == adt:
            out.append(k)
    return out


def constructors(F, adt):
    return [k for k, b in sorted(F.bodies.items()) if b['kind'] != 'Closure' and b.get('exported') and b.get('self_ty') is not None and F.types[F.peel(b['self_ty'])].get('path') == adt
            and (not b['argnames'] or b['argnames'][0] != 'self') and F.types[b['out']].get('path') == adt]


def inline(F, module):
    def f(key, body, fr):
        if body['kind'] == 'Closure' or body['name'] in ('len', 'as_slice'):
            return True
        return key.startswith(module) and not body.get('exported') and not body.get('impl_trait')
    return f


def module_of(key):
    return key.split('::{impl')[0]


def view(ctx, cfg, key):
    F = ctx.F(cfg)
    return ctx.V(cfg, key, inline=inline(F, module_of(key)), tag='inserting')


def is_push(e):
    return e.kind == 'call' and e.fn is not None and (e.fn.get('trait') or '').endswith('ExtendableElementContainer') and e.fn['name'] == 'push'


def bases(V, t):
    """what a mutable place goes back to, changes to it removed"""
    seen, out, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'mut':
            work.append(mutated(x))
        elif x.op == 'with':
            work.append(x.args[0])
        else:
            out.add(x)
    return out


def pushes(V):
    return [e for e in V.live('call') if is_push(e)]


ORDER = {'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse', 'Iterator::inspect', 'Iterator::copied', 'Iterator::cloned'}


def last(n):
    return str(n).split('::')[-1]


def rng(t):
    """(start, end or None) of a range value"""
    if t.op == 'agg' and t.args[0][0] == 'adt':
        n = str(t.args[0][1]).split('::')[-1]
        if n == 'Range':
            return t.args[1], t.args[2]
        if n == 'RangeTo':
            return INT(0), t.args[1]
        if n == 'RangeFrom':
            return t.args[1], None
        if n == 'RangeFull':
            return INT(0), None
    return None


def source(V, t):
    """(whole list, [soft limits], [hard limits]) of an iteration in order over the start of a list; soft limits cut what is there (take), hard
    limits are exact, going beyond the list panics (split_off, drain)"""
    soft, hard = [], []
    for _ in range(40):
        n = last(t.args[0]) if t.op in ('call', 'mut') else None
        if t.op == 'call' and n == 'take' and len(t.args) > 3:
            soft.append(t.args[3])
            t = t.args[2]
        elif t.op == 'call' and (str(t.args[0]) in ORDER or n in ('into_iter', 'iter', 'deref', 'as_slice')):
            t = t.args[2]
        elif t.op == 'call' and n == 'drain' and len(t.args) > 3 and rng(t.args[3]) and rng(t.args[3])[0] is INT(0):
            if rng(t.args[3])[1] is not None:
                hard.append(rng(t.args[3])[1])
            t = t.args[2]
        elif t.op == 'mut' and n == 'split_off' and len(t.args) > 4:
            hard.append(t.args[4])
            t = mutated(t)
        elif t.op == 'mut' and n == 'truncate' and len(t.args) > 4:
            soft.append(t.args[4])
            t = mutated(t)
        elif t.op == 'mut' and n in ('by_ref', 'next'):
            t = mutated(t)
        elif t.op == 'phi':
            # an iterator that is being advanced
            rest = {x for x in inputs(V, t) if not (x.op == 'mut' and last(x.args[0]) == 'next' and mutated(x) in chain_phis(V, t))}
            if len(rest) != 1:
                return t, soft, hard
            t = rest.pop()
        else:
            return t, soft, hard
    return t, soft, hard


def feed(V, item):
    """where a member of an iteration comes from: (whole list, soft limits, hard limits, site of the loop, its head calls)"""
    site = item.args[1]
    nxt = [c for c in V.live('call') if c.site == site and c.name in ('Iterator::next', 'Iterator::for_each')]
    lst, soft, hard = source(V, nxt[0].vals[0] if nxt else item.args[0])
    for c in nxt:
        if c.name != 'Iterator::next':
            continue
        # for _ in 0..n { .. it.next() .. }
        for r in V.live('call'):
            if r.name == 'Iterator::next' and r is not c and V.dominates(r.block, c.block) and loops_back(V, c.block, r.block):
                for x in inputs(V, r.vals[0]):
                    y = mutated(x) if x.op == 'mut' else x
                    g = rng(y)
                    if g and g[0] is INT(0) and g[1] is not None:
                        return lst, soft, hard + [g[1]], r.site, [r]
    return lst, soft, hard, site, nxt


def loops_back(V, a, b):
    """can control come from block a to block b?"""
    seen, work = set(), [a]
    while work:
        x = work.pop()
        for s in succs(V.ir.blocks[x].t):
            if s == b:
                return True
            if s not in seen and s not in V.dead:
                seen.add(s)
                work.append(s)
    return False


def chain_phis(V, t):
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen or x.op != 'phi':
            continue
        seen.add(x)
        work += list(V.phi_in.get(x, {}).values())
    return seen


def count(V, ev, lst, soft, hard):
    """number of members of the start of the list, as a minimum of polynomials"""
    ps = []
    for l in soft + hard + ([] if hard else [V.length(lst)]):
        m = ev.ev(unsat(l))
        if m is None:
            return None
        ps += m.ps
    return Min(ps)


def unsat(t):
    """saturating subtraction as subtraction (the saturated case is the one in which nothing is left)"""
    if t.op == 'call' and last(t.args[0]) == 'saturating_sub' and len(t.args) == 4:
        return from_poly(paddd(to_poly(t.args[2]), to_poly(t.args[3]), -1))
    if t.op == 'min':
        return mk('min', *[unsat(x) for x in t.args])
    return t
