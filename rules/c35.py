"""Value equality over the inlined distance operations of every element container. Each implementation of the container trait is reduced to
the pair of things it measures: the single-distance operation must measure exactly (element i, element j), the distance-to-element operation
exactly (element i, the given element), and the batch operation must return a sequence whose n-th member measures (element idx, element
others[n]): either a map over the whole list of ids, in order, or one push per iteration of a loop over it that no iteration can skip.
Elements are recognised by an accessor applied to the container and exactly the id (no arithmetic on ids)."""
import lib
from rules.common import member_of, loop_skips, loop_breaks, whole
from vals import mk, pp, subterms, contains

TECHNIQUE = 'value-flow equality of the batch and single distance operations'
NOTE = 'Decides which elements are measured, how many results are returned and in which order, for every container and list of ids; the arithmetic of the measure itself is opaque.'

A1, A2, A3 = mk('arg', 1), mk('arg', 2), mk('arg', 3)


def trait_of(F):
    return [p for p in F.traits if p.endswith('::ElementContainer') or p == 'ElementContainer']


def is_nn(F, t):
    s = F.tstr(t)
    return 'NotNan' in s


def inline(F):
    tr = set(trait_of(F))
    dist = {k for im in F.impls if (im.get('trait') or '').endswith('::Dist') or (im.get('trait') or '') == 'Dist' for n, k in im['items']}

    def f(key, body, fr):
        if body['kind'] == 'Closure':
            return True
        return key not in dist and is_nn(F, body['out'])
    return f


def only_exact(t, idt):
    """is every use of the id in t the id itself (as an argument or index)?"""
    if t is idt:
        return True
    for x in t.args:
        for y in (x if isinstance(x, tuple) else (x,)):
            if getattr(y, 'op', None) is None:
                continue
            if contains(y, idt):
                if y is not idt and y.op in ('poly', 'bin', 'max', 'min'):
                    return False
                if not only_exact(y, idt):
                    return False
    return True


def ids_in(t, ids):
    return {i for i in ids if contains(t, i)}


def refers(t, idt, others):
    return contains(t, idt) and contains(t, A1) and not any(contains(t, o) for o in others) and only_exact(t, idt)


def pair(V, t, want):
    """does t measure the two things of `want` (each ('id', term) or ('val', term))?"""
    if t.op == 'phi':
        al = V.alts(t)
        if V.carried(t):
            return False
        return bool(al) and all(x.op != 'phi' and pair(V, x, want) for x in al)
    if t.op == 'notnan':
        return False
    if t.op != 'call':
        return False
    n = str(t.args[0])
    ops = list(t.args[2:])
    if n == 'Dist::dist' and len(ops) == 2:
        cand = [(('t', ops[0]), ('t', ops[1]))]
    elif n == 'ElementContainer::dist_to_element' and len(ops) == 3:
        cand = [(('c', ops[0], ops[1]), ('t', ops[2]))]
    elif n == 'ElementContainer::dist' and len(ops) == 3:
        cand = [(('c', ops[0], ops[1]), ('c', ops[0], ops[2]))]
    else:
        return False

    def fits(x, w, other):
        if w[0] == 'id':
            o = [other[1]] if other[0] == 'id' else [other[1]]
            o = [z for z in o if z is not w[1] and not contains(w[1], z)]
            if x[0] == 'c':
                return x[2] is w[1] and contains(x[1], A1)
            return refers(x[1], w[1], o)
        return x[0] == 't' and x[1] is w[1]
    for a, b in cand:
        if fits(a, want[0], want[1]) and fits(b, want[1], want[0]) or fits(a, want[1], want[0]) and fits(b, want[0], want[1]):
            return True
    return False


def delegated(t, name, args):
    return t.op == 'call' and str(t.args[0]) == 'ElementContainer::' + name and contains(t.args[2], A1) and list(t.args[3:]) == args


def single(V, name):
    want = [('id', A2), ('id', A3)] if name == 'dist' else [('id', A2), ('val', A3)]
    for e in V.live('return'):
        for t in (V.alts(e.val) if e.val.op == 'phi' else [e.val]):
            if not (pair(V, t, want) or delegated(t, name, [A2, A3])):
                return e, t
    return None


def batch(V):
    """None when every result list is right, else (event, what)"""
    for e in V.live('return'):
        for t in (V.alts(e.val) if e.val.op == 'phi' else [e.val]):
            if delegated(t, 'dists', [A2, A3]):
                continue
            if t.op == 'call' and str(t.args[0]) in ('Iterator::map', 'ParallelIterator::map'):
                src, cl = t.args[2], t.args[3]
                if src is not A3 and not whole(V, src, A3):
                    return e, 'the result goes over %s instead of the whole list of ids in order' % pp(src)
                if cl.op != 'cloret':
                    return e, 'the mapped function is not known'
                r = cl.args[1]
                if not any(pair(V, r, [('id', A2), ('id', x)]) for x in subterms(r) if member_of(V, x, A3, maps=True)):
                    return e, 'a result is %s, not the distance between element idx and the element with that id' % pp(r)
                continue
            bad = loop(V, e, t)
            if bad:
                return e, bad
    return None


def loop(V, e, t):
    pushes = [p for p in V.live('call') if p.name in ('Vec::push',)]
    if len(pushes) != 1:
        return 'the result is %s, neither a map over the ids nor one push per id' % pp(t)
    p = pushes[0]
    r = p.vals[1]
    x = next((x for x in subterms(r) if member_of(V, x, A3) and pair(V, r, [('id', A2), ('id', x)])), None)
    if x is None:
        return 'a result is %s, not the distance between element idx and the element with that id' % pp(r)
    if loop_skips(V, member_of(V, x, A3), {p.block}):
        return 'an iteration of the loop over the ids can go on without adding a result'
    if loop_breaks(V, member_of(V, x, A3)) is not None:
        return 'the loop over the ids can be left before its end'
    return None


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        tr = trait_of(F)
        ctx.floor('element container trait [%s]' % cfg, len(tr), 1)
        n = {'dist': 0, 'dist_to_element': 0, 'dists': 0}
        todo = []
        for t in F.traits.values():
            if t['path'] in tr:
                todo += [(m, k) for m, k, has in t['items'] if has and m in n]
        for im in F.impls:
            if im.get('trait') in tr:
                todo += [(m, k) for m, k in im['items'] if m in n]
        for m, k in todo:
            if k not in F.bodies:
                continue
            b = F.bodies[k]
            V = ctx.V(cfg, k, inline=inline(F), tag='d')
            n[m] += 1
            if m == 'dists':
                bad = batch(V)
                ctx.ob('one distance per id, in order, between the right elements', bad is None, b['path'], b['span'], bad[1] if bad else '')
            else:
                bad = single(V, m)
                ctx.ob('a distance is measured between the requested elements', bad is None, b['path'], b['span'], 'measures %s' % pp(bad[1]) if bad else '')
        for m, least in (('dist', 3), ('dist_to_element', 5), ('dists', 3)):
            ctx.floor('%s operations [%s]' % (m, cfg), n[m], least)
