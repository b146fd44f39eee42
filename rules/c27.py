"""Conditional reachability of mutation. The builder's partial build is inlined completely and explored from its entry twice: assuming the
requested number exceeds the number of elements, and assuming it is non-zero but smaller than the length of the last layer. In both
explorations no write to the builder, no call that is handed mutable access to any part of it, and no ordinary return may be reachable.
The length of the last layer is recognised by the value it is computed from (the last entry of the builder's layers)."""
import lib
from explore import Explore
from rules.common import mut_effects, closure_terms, cond_atoms, field
from vals import mk, pp, subterms, binop, INT

TECHNIQUE = 'conditional reachability of mutation over the inlined control-flow graph'
NOTE = 'Decides the order of the bound checks and every mutation on all paths, for every builder and number; that a layer reports its length correctly is assumed.'


def is_elems_len(F, t, ef):
    return t.op == 'call' and str(t.args[0]).endswith('::len') and len(t.args) == 3 and t.args[2] is mk('fld', mk('arg', 1), ('f', ef))


def last_len(V, t, lf):
    """is t the length of the last layer of the builder (argument 1, field lf)?"""
    layers = mk('fld', mk('arg', 1), ('f', lf))
    n = V.length(layers)
    if t is n:
        return False
    C = closure_terms(V, t)
    if layers not in C:
        return False
    last = False
    for x in C:
        if x.op == 'fld' and x.args[0] is layers and x.args[1][0] in ('i', 'c'):
            i = x.args[1][1]
            from vals import padd
            if hasattr(i, 'op') and i is padd(n, INT(-1)):
                last = True
            else:
                return False
        if x.op == 'call' and str(x.args[0]) in ('slice::first', 'Vec::first', 'VecDeque::front'):
            return False
        if x.op == 'call' and str(x.args[0]) in ('slice::last', 'slice::split_last', 'Iterator::last', 'Graph::len') or str(x.args[0]).endswith('next_back'):
            last = True
    return last


def check(ctx, cfg, k):
    F = ctx.F(cfg)
    b = F.bodies[k]
    V = ctx.V(cfg, k)
    A1, A2 = mk('arg', 1), mk('arg', 2)
    adt = F.types[F.peel(b['self_ty'])]['path']
    a = F.adt_by_path[adt]
    ef = [i for i, f in enumerate(a['vs'][0]['fs']) if F.types[f['t']].get('k') == 'param']
    lf = [i for i, f in enumerate(a['vs'][0]['fs']) if F.contains_adt(f['t'], lambda p: p.endswith('Vec'), deep=False) and F.types[f['t']].get('k') == 'adt' and F.types[f['t']]['path'].endswith('::Vec')]
    ctx.floor('element and layer fields of the builder', min(len(ef), len(lf)), 1)
    if not ef or not lf:
        return
    nz = (binop('Eq', INT(0), A2, 'usize'), 0)
    effs = mut_effects(V, A1)
    ctx.stats['mutations of the builder reachable from %s' % b['path']] = len(effs)
    ctx.floor('mutations of the builder in %s' % b['path'], len(effs), 1)

    def explore(assume):
        X = Explore(V, [V.ir.entry], assume=assume, from_entry=True)
        ev = X.events()
        bad = mut_effects(V, A1, ev)
        return bad, [e for e, al in X.returns()]

    def report(what, key, bad, rets):
        ctx.ob('bounds are checked before the index is touched', not bad and not rets, '%s: %s' % (b['path'], key), (bad or rets)[0].sp if bad or rets else b['span'],
               what + (': reaches %s of the builder in %s' % (bad[0].name or 'a write', bad[0].fr.path) if bad else ': returns normally' if rets else ': panics before anything is changed'))
    els = {t for e in V.live('call') for t in [e.ret] if t is not None and is_elems_len(F, t, ef[0])}
    els |= {s for c in V.cond.values() for s in subterms(c) if is_elems_len(F, s, ef[0])}
    bad = rets = None
    for t in els or {None}:
        if t is None:
            bad, rets = effs, []
        else:
            bad, rets = explore([(binop('Le', A2, t, 'usize'), 0), (binop('Lt', t, A2, 'usize'), 1), (binop('Eq', A2, t, 'usize'), 0), nz])
        if not bad and not rets:
            break
    report('asked for more elements than exist', 'more than exist', bad, rets)
    cands = set()
    n = V.length(mk('fld', A1, ('f', lf[0])))
    some = (binop('Eq', INT(0), n, 'usize'), 0)
    for c in cond_atoms(V):
        for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if y is A2 and x.op != 'int' and last_len(V, x, lf[0]):
                cands.add(x)
    best = (effs, [])
    for t in sorted(cands, key=pp):
        r = explore([(binop('Le', t, A2, 'usize'), 0), (binop('Lt', A2, t, 'usize'), 1), (binop('Eq', A2, t, 'usize'), 0), nz, some])
        if not r[0] and not r[1]:
            best = r
            break
        if len(r[0]) < len(best[0]):
            best = r
    report('asked for fewer elements (but not none) than the last layer holds', 'fewer than indexed', *best)


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        ks = ctx.method(cfg, 'GranneBuilder', 'build_partial', 'Builder') or ctx.method(cfg, 'GranneBuilder', 'build_partial')
        ctx.floor('partial build functions [%s]' % cfg, len(ks), 1)
        for k in ks:
            check(ctx, cfg, k)
