"""Conditional reachability and linear arithmetic. Every public function that reorders an index is inlined down to the layers and the element
collection. It is explored from its entry once for every thing that has to match (the number of elements, and every list parameter), assuming
the sizes differ: no write to the index, no call that gets mutable access to a part of it and no ordinary return may be reachable; the same is
required of every permute operation. Then every access by layer number (asking a layer for its length or nodes, and indexing lists and
arrays whose length is the number of layers or a constant) has to be in range for every number of layers, which is proved from the branch
conditions and loop ranges in force."""
from explore import Explore
from rules import reordering as R
from rules.common import mut_effects, cond_atoms
from rules.inserting import last
from vals import mk, pp, subterms, binop, INT

TECHNIQUE = 'conditional reachability of mutation, and range proofs for layer numbers over the inlined control-flow graph'
NOTE = 'For every index and number of layers. Positions inside a layer (ids of elements) are not part of the range proofs; that searches return something is C18.'
A1 = R.A1


def differ(a, b):
    return [(binop('Eq', a, b, 'usize'), 0), (binop('Eq', b, a, 'usize'), 0)]


def unequal(V, pairs):
    """atoms that compare the two sizes, assumed unequal"""
    out = []
    for c in cond_atoms(V):
        if c.op == 'bin' and c.args[0] in ('Eq', 'Ne') and pairs(c.args[1], c.args[2]):
            out.append((c, 0 if c.args[0] == 'Eq' else 1))
    return out


def no_effect(ctx, V, b, key, assume, what, root=A1):
    X = Explore(V, [V.ir.entry], assume=assume, from_entry=True)
    bad = mut_effects(V, root, X.events()) if assume else mut_effects(V, root)
    rets = [e for e, al in X.returns()] if assume else []
    ctx.ob('sizes are compared before anything is changed', not bad and not rets, '%s: %s' % (b['path'], key), (bad or rets)[0].sp if bad or rets else b['span'],
           '%s: %s' % (what, 'the sizes are not compared before a change' if not assume else 'still reaches %s' % (bad[0].name or 'a write') if bad else 'still returns normally' if rets else 'panics before anything is changed'))


def reorderings(ctx, cfg):
    F = ctx.F(cfg)
    rs = R.roots(ctx, cfg)
    ctx.floor('public reordering functions [%s]' % cfg, len(rs), 2)
    for k in rs:
        b = F.bodies[k]
        V = R.view(ctx, cfg, k)
        ef, lf = R.fields(F, b)
        ctx.floor('element and layer fields of the index', int(ef is not None) + int(lf is not None), 2)
        if ef is None or lf is None:
            continue
        S = R.Sizes(V, ef, lf)
        effs = mut_effects(V, A1)
        ctx.floor('changes made by %s' % b['path'], len(effs), 2)
        perms = [e.vals[1] for e in V.live('call') if R.is_permute(e) and len(e.vals) > 1]

        def elements_len(t):
            return t.op == 'call' and last(t.args[0]) == 'len' and len(t.args) == 3 and t.args[2] is S.E

        def index_len(t):
            return t is S.TOTAL or t.op == 'len' and t.args[0] in perms or index_total(S, t)

        def either(p, q):
            return lambda x, y: p(x) and q(y) or p(y) and q(x)
        no_effect(ctx, V, b, 'elements', unequal(V, either(elements_len, index_len)), 'elements that do not match the index')
        for i, t in enumerate(b['ins']):
            if i and R.is_list(F, t):
                a = mk('arg', i + 1)
                n = V.length(a)
                no_effect(ctx, V, b, b['argnames'][i], unequal(V, either(lambda x: x is n, lambda x: index_len(x) or elements_len(x))), 'a list %s of another length than the index' % b['argnames'][i])
        layers(ctx, V, b, S)


def index_total(S, t):
    """the length of the last layer"""
    i = S.lens(t)
    if i is None:
        return False
    d = S.linear.lin(i)
    from linear import add
    return not add(add(S.linear.lin(S.N), d, -1), {(): -1})


def layers(ctx, V, b, S):
    L = S.linear
    n = 0

    def within(i, bound, blk, key, sp, what):
        fs = V.facts(blk)
        ok = L.nonneg(i, fs) and L.less(i, bound, fs)
        ctx.ob('layer numbers are in range for any number of layers', ok, '%s: %s' % (b['path'], key), sp, '%s: %s %s' % (what, pp(i)[:120], 'is in range' if ok else 'can be out of range'))
    for e in V.live('call'):
        i = S.layer_number(e)
        if i is not None:
            n += 1
            within(i, S.N, e.block, last(e.name), e.sp, last(e.name))
            continue
        if last(e.name) in ('index', 'index_mut') and len(e.vals) > 1 and R.rng(e.vals[1]) is None and e.vals[1].op != 'agg':
            ln = V.length(e.vals[0])
            if sized(L, S, ln):
                n += 1
                within(e.vals[1], ln, e.block, 'index', e.sp, 'indexing')
    for k, c in sorted(V.cond.items()):
        if k in V.dead or V.ir.blocks[k].t[0] != 'assert' or not (c.op == 'bin' and c.args[0] == 'Lt') or not sized(L, S, c.args[2]):
            continue
        n += 1
        sp = V.ir.blocks[k].t[-1] if isinstance(V.ir.blocks[k].t[-1], str) else b['span']
        within(c.args[1], c.args[2], k, 'bounds', sp, 'indexing')
    def differences(t):
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if x not in seen and x.op not in ('elem', 'cloret', 'iidx'):
                seen.add(x)
                if x.op == 'poly':
                    work += [a for m, c in x.args[0] for a in m]
                else:
                    work += [a for a in x.args if hasattr(a, 'op')]
        return [x for x in seen if x.op == 'poly' and sized(L, S, x) and any(c < 0 for c in L.lin(x).values())]
    for blk, sp, ts in [(e.block, e.sp, e.vals) for e in V.live('call')] + [(k, b['span'], [c]) for k, c in sorted(V.cond.items()) if k not in V.dead]:
        for x in {x for t in ts for x in differences(t)}:
            n += 1
            ok = L.nonneg(x, V.facts(blk))
            ctx.ob('numbers of layers do not underflow', ok, '%s: difference' % b['path'], sp, '%s %s' % (pp(x)[:120], 'is not negative' if ok else 'can underflow'))
    ctx.stat('accesses by layer number in %s' % b['name'], n)
    ctx.floor('accesses by layer number in %s' % b['path'], n, 1)


def sized(L, S, t):
    """is a length the number of layers, or a constant?"""
    d = L.lin(t)
    return all(m == () or m == (S.N,) for m in d)


def permutations(ctx, cfg):
    """every permute operation compares the lengths first"""
    F = ctx.F(cfg)
    ks = sorted(k for k, b in F.bodies.items() if b['kind'] != 'Closure' and b['name'] == 'permute' and len(b['ins']) == 2)
    ctx.floor('permute operations [%s]' % cfg, len(ks), 3)
    for k in ks:
        b = F.bodies[k]
        V = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure' or body['name'] == 'permute', tag='permute')
        n = V.length(mk('arg', 2))

        def own(t):
            return t.op in ('call', 'len') and (last(t.args[0]) == 'len' if t.op == 'call' else True) and of_self(t.args[2] if t.op == 'call' else t.args[0])

        def of_self(t):
            while t.op in ('fld', 'payload'):
                t = t.args[0]
            return t is A1
        no_effect(ctx, V, b, 'permutation', unequal(V, lambda x, y: x is n and own(y) or y is n and own(x)), 'a permutation of another length than the collection')


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        reorderings(ctx, cfg) if cfg != 'py' else None
        if cfg != 'py':
            permutations(ctx, cfg)
    ctx.assume('the elements trait implementations of users report their length truthfully')
