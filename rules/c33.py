"""Sign analysis of the value every distance operation returns. All distances are of a type that cannot hold NaN; the rule demands that no
value of that type is made without its check, and that on every path the returned value is provably at least zero: a maximum with
(or a clamp from) a non-negative constant, such a constant, an absolute value, another distance, or a value that a branch on the path has
found not to be negative (decided by assuming it negative and looking whether the return can still be reached with it)."""
import lib, struct
from explore import Explore
from vals import mk, pp, subterms, INT

TECHNIQUE = 'sign analysis of returned distances over inlined MIR'
NOTE = 'Decides for all inputs that distances are at least zero and not NaN; relies on NotNan rejecting NaN as documented.'

UNCHECKED = ('new_unchecked', 'unchecked_new', 'from_bits_unchecked')
NONNEG = {'f32::abs', 'f64::abs', 'f32::sqrt', 'f64::sqrt', 'Signed::abs', 'Float::abs', 'Float::sqrt'}
DISTS = {'Dist::dist', 'ElementContainer::dist', 'ElementContainer::dist_to_element'}
CASTS = {'From::from', 'Into::into', 'NotNan::new', 'Result::unwrap', 'Result::expect', 'NotNan::into_inner', 'Clone::clone', 'Deref::deref'}


def const_nonneg(t):
    return t.op == 'int' and 0 <= t.args[0] <= 0x7f800000


def nonneg(V, t, X=None, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return True
    if t.op == 'notnan':
        return nonneg(V, t.args[0], X, seen)
    if const_nonneg(t):
        return True
    if t.op == 'max':
        return any(nonneg(V, x, X, seen) for x in t.args)
    if t.op == 'min':
        return all(nonneg(V, x, X, seen) for x in t.args)
    if t.op == 'phi':
        seen.add(t)
        al = (X.alts(t) if X else V.alts(t)) - {t}
        return bool(al) and all(nonneg(V, x, X, seen) for x in al)
    if t.op == 'call':
        n = str(t.args[0])
        ops = t.args[2:]
        if n in DISTS or n in NONNEG:
            return True
        if n in ('f32::max', 'Ord::max', 'cmp::max', 'Float::max', 'f64::max'):
            return any(nonneg(V, x, X, seen) for x in ops)
        if n in ('f32::clamp', 'Ord::clamp', 'f64::clamp', 'Ord::min', 'cmp::min'):
            lo = ops[1:2] if 'clamp' in n else ops
            return bool(lo) and all(nonneg(V, x, X, seen) for x in lo)
        if n in CASTS and ops:
            return nonneg(V, ops[0], X, seen)
    return False


def strip(t):
    while t.op in ('notnan',):
        t = t.args[0]
    return t


def leaves(V, t, X, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'notnan' and t.args[0].op in ('phi', 'notnan'):
        yield from leaves(V, t.args[0], X, seen)
    elif t.op == 'phi':
        for x in (X.alts(t) if X else V.alts(t)) - {t}:
            yield from leaves(V, x, X, seen)
    else:
        yield t


def guarded(V, e, t):
    """a value that is not a non-negative expression by itself: can it be returned while negative?"""
    zero = [INT(0), mk('notnan', INT(0))]
    negs = []
    for b, c in V.cond.items():
        for s in subterms(c):
            if s.op == 'bin' and s.args[0] in ('Lt', 'Le', 'FLt', 'FLe') and strip(s.args[1]) is strip(t) and const_nonneg(strip(s.args[2])):
                negs.append((s, 1))
            if s.op == 'bin' and s.args[0] in ('Lt', 'Le', 'FLt', 'FLe') and strip(s.args[2]) is strip(t) and const_nonneg(strip(s.args[1])):
                negs.append((s, 0))
    if not negs:
        return False
    X = Explore(V, [V.ir.entry], assume=negs, from_entry=True)
    for ev, alts in X.returns():
        for a in alts:
            for y in leaves(V, a, X, set()):
                if not nonneg(V, y, X) :
                    return False
    return True


def run(ctx):
    for cfg in ('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        n = unchecked = 0
        for k, b in F.bodies.items():
            for bl in b['blocks']:
                t = bl['t']
                fn = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
                if fn and 'NotNan' in fn['path'] and fn['name'] in UNCHECKED or fn and fn['name'] == 'transmute' and 'NotNan' in str([F.tstr(g['t']) if isinstance(g, dict) and 't' in g else g for g in fn.get('args', [])]):
                    ctx.ob('no distance is made without the NaN check', False, '%s: %s' % (b['path'], fn['name']), b['span'], 'a NotNan is made without checking the value')
                elif fn and 'NotNan' in fn['path']:
                    unchecked += 1
                for st in bl['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and 'NotNan' in str(st[2][1]):
                        ctx.ob('no distance is made without the NaN check', False, '%s: aggregate' % b['path'], b['span'], '')
        ctx.stat('calls of NotNan functions[%s]' % cfg, unchecked)
        for k, b in F.bodies.items():
            if b['kind'] == 'Closure' or 'NotNan<f32>' != F.tstr(b['out']).replace('ordered_float::', ''):
                continue
            n += 1
            V = ctx.V(cfg, k)
            for e in V.live('return'):
                bad = [t for t in leaves(V, e.val, None, set()) if not nonneg(V, t) and not guarded(V, e, t)]
                ctx.ob('a returned distance is at least zero', not bad, b['path'], b['span'], 'can return %s, which can be negative' % pp(bad[0]) if bad else '')
        if cfg != 'py':
            ctx.floor('distance operations [%s]' % cfg, n, 8)
            ctx.floor('checked NotNan constructions [%s]' % cfg, unchecked, 6)
