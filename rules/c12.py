"""Symbolic bookkeeping of ids (helpers and closures inlined, quantified over every batch, size and interleaving by the lock discipline). Every
public shared-reference operation of the lock-protected index that returns ids is decomposed: a list of ids it returns is (a) empty, (b) the
range that starts at the number of elements read through the same lock acquisition, before the first append of it, and has as many members as
that acquisition appends, or the size read in each round of the appending loop, (c) such a list followed by what the same operation returns for
the rest of the batch, or (d) the one id out of the list that another such operation returns for a batch of one. The appends of an acquisition
must be the members of the batch from its start, in order, one append per round with no round skipped, and the rest passed on must begin where
they stopped."""
import lib
from algebra import Eval, Min, paddd
from ir import succs
from rules.c13 import deep
from rules.common import loop_skips, held
from rules.inserting import adts, operations, view, pushes, bases, feed, count, unsat, is_push, last, rng, chain_phis
from rules.searching import event_of, inputs, mutated, path_without
from vals import mk, pp, subterms, INT, to_poly, from_poly, padd

TECHNIQUE = 'term equality between returned id ranges and the appends of the same lock acquisition'
NOTE = 'Positions follow from the append-only container (C24); atomicity from the lock discipline (C14 decides that the size is read under the same acquisition; here the same term must start the ids).'


def ids_like(F, out):
    s = F.tstr(out)
    return s in ('std::vec::Vec<usize>', 'std::option::Option<usize>', 'usize') or 'Vec<usize' in s or 'Option<usize' in s


def run(ctx):
    cfgs = ('rw',) if ctx.tier == 'quick' else ('rw', 'single', 'blas')
    for cfg in cfgs:
        F = ctx.F(cfg)
        held(ctx, cfg, F)
        n = 0
        for adt, info in adts(ctx, cfg).items():
            ops = operations(F, adt)
            adders = {}
            for k in ops:
                V = view(ctx, cfg, k)
                if pushes(V):
                    adders[k] = V
            deleg = {}
            for k in ops:
                if k in adders:
                    continue
                V = view(ctx, cfg, k)
                cs = [e for e in V.live('call') if e.fn is not None and any(x in adders for x in lib.resolver(F)(e.fn))]
                if cs:
                    deleg[k] = (V, cs)
            for k, V in adders.items():
                n += 1
                Adder(ctx, cfg, F, V, k, info).judge()
            for k, (V, cs) in deleg.items():
                n += 1
                delegate(ctx, F, V, k, cs)
        ctx.floor('operations that insert [%s]' % cfg, n, 2)


def short(F, k):
    return F.bodies[k]['path'].split('::')[-1]


def one(V, t):
    """the single member of a list literal, or None"""
    for _ in range(8):
        if t.op == 'call' and last(t.args[0]) in ('into_vec', 'from', 'into_boxed_slice', 'box_new', 'to_vec', 'into', 'from_elem', 'box_assume_init_into_vec_unsafe'):
            t = t.args[2]
            continue
        break
    if t.op == 'agg' and t.args[0][0] == 'array' and len(t.args) == 2:
        return t.args[1]
    if t.op == 'with':
        # vec![x] is a box that is filled with an array
        arrays = [x for x in deep(t) if x.op == 'agg' and x.args[0][0] == 'array']
        return arrays[0].args[1] if len(arrays) == 1 and len(arrays[0].args) == 2 else None
    if t.op == 'mut' and last(t.args[0]) == 'push' and mutated(t).op == 'empty':
        return t.args[4]
    return None


def delegate(ctx, F, V, k, cs):
    name = short(F, k)
    for e in V.live('return'):
        for v in inputs(V, e.val):
            key = '%s: id of its element' % name
            if v.op == 'agg' and str(v.args[0]).find('None') >= 0:
                ctx.ob('an operation hands on the id of the element it was given', True, key, e.sp, 'None')
                continue
            hit = [c for c in cs if c.ret is not None and any(s is c.ret for s in subterms(v))]
            if not hit:
                ctx.ob('an operation hands on the id of the element it was given', False, key, e.sp, 'returns %s' % pp(v)[:160])
                continue
            for c in hit:
                b = one(V, c.vals[1]) if len(c.vals) > 1 else None
                if b is None and v is c.ret:
                    ok = c.vals[1] is mk('arg', 2)
                    ctx.ob('an operation hands on the id of the element it was given', ok, key, e.sp, 'all ids of the batch')
                    continue
                ok = b is mk('arg', 2)
                ctx.ob('an operation hands on the id of the element it was given', ok, key, e.sp, 'inserts a batch of %s and returns %s' % (pp(b) if b is not None else pp(c.vals[1])[:120], pp(v)[:120]))
                # which member: of a list of one, any
                w = v
                okw = False
                for _ in range(12):
                    if w is c.ret:
                        okw = True
                        break
                    if w.op == 'call' and last(w.args[0]) in ('pop', 'first', 'last', 'next', 'copied', 'cloned', 'into_iter', 'iter', 'get', 'nth', 'deref', 'as_slice', 'remove', 'next_back', 'swap_remove') and len(w.args) > 2:
                        w = w.args[2]
                    elif w.op in ('fld', 'payload', 'elem'):
                        w = w.args[0]
                    elif w.op == 'agg' and 'Some' in str(w.args[0]) and len(w.args) == 2:
                        w = w.args[1]
                    else:
                        break
                ctx.ob('the id is not changed on its way out', okw, key, e.sp, pp(v)[:160])


class Adder(object):
    def __init__(self, ctx, cfg, F, V, k, info):
        self.ctx, self.cfg, self.F, self.V, self.k = ctx, cfg, F, V, k
        self.name = short(F, k)
        self.ev = Eval(V)
        self.batch = mk('arg', 2)

    # ---- the appends
    def judge(self):
        V, ctx = self.V, self.ctx
        self.loops = []
        for e in pushes(V):
            self.append(e)
        ctx.floor('appending loops of %s' % self.name, len(self.loops), 1)
        n = 0
        self.added = {}
        for e in V.live('return'):
            for v in inputs(V, e.val):
                n += 1
                self.returned(v, e)
        ctx.floor('returned lists of %s' % self.name, n, 1)
        rets = {e.block for e in V.live('return')}
        for c in V.live('call'):
            if c.fn is None or self.k not in lib.resolver(self.F)(c.fn):
                continue
            g = path_without(V, succs(V.ir.blocks[c.block].t), rets, cut_blocks=self.added.get(c.site, set()))
            self.ob('the ids of the rest are part of the answer', g is None, 'rest of the batch', c, 'on every path' if g is None else 'the ids of the rest can be left out')

    def ob(self, rule, ok, what, e, detail):
        return self.ctx.ob(rule, ok, '%s: %s' % (self.name, what), e.sp if e is not None else '', detail)

    def append(self, e):
        V = self.V
        bs = bases(V, e.vals[0])
        here = e.vals[0]
        rule = 'elements are appended from the start of the batch, in order, none skipped'
        if len(bs) != 1 or next(iter(bs)).op != 'content':
            self.ob(rule, False, 'appended elements', e, 'appends to %s' % ', '.join(pp(b)[:80] for b in bs))
            return
        E0 = next(iter(bs))
        item = e.vals[1]
        if item.op != 'elem':
            self.ob(rule, False, 'appended elements', e, 'appends %s' % pp(item)[:160])
            return
        lst, soft, hard, site, nxt = feed(V, item)
        if not self.is_batch(lst):
            self.ob(rule, False, 'appended elements', e, 'appends members of %s' % pp(lst)[:160])
            return
        # conditions on the append inside the loop
        skips = bool(nxt) and loop_skips(V, ('elem', site), {e.block})
        turned = [x for c in nxt for x in self.turned(c.vals[0])]
        if turned:
            self.ob(rule, False, 'appended elements', e, 'visits the batch through %s' % ', '.join(turned))
        ok = bool(nxt) and not skips and (here.op != 'phi' or self.clean(here, E0))
        self.ob(rule, ok, 'appended elements', e, 'each member of the start of the batch is appended once' if ok else 'a round can end without its append' if skips else 'the appending loop is not recognised' if not nxt else 'something else changes the elements in the loop')
        n = count(V, self.ev, lst, soft, hard)
        self.loops.append((e, E0, lst, n, site, item))

    def turned(self, t):
        """stages of the iteration that do not keep the order or drop members"""
        out = []
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                work += list(self.V.phi_in.get(x, {}).values())
            elif x.op == 'mut' and last(x.args[0]) in ('next', 'by_ref'):
                work.append(mutated(x))
            elif x.op == 'call' and str(x.args[0]).startswith(('Iterator::', 'DoubleEndedIterator::', 'IndexedParallelIterator::')):
                if last(x.args[0]) not in ('take', 'by_ref', 'peekable', 'fuse', 'inspect', 'copied', 'cloned', 'enumerate', 'map', 'zip', 'next'):
                    out.append(str(x.args[0]))
                work.append(x.args[2])
        return out

    def is_batch(self, lst):
        """the batch itself, or what is left of it in a later round"""
        V = self.V
        for x in inputs(V, lst):
            if x is self.batch or x.op == 'call' and last(x.args[0]) == 'split_off' and x.args[2] in chain_phis(V, lst) | {lst, self.batch}:
                continue
            return False
        return True

    def clean(self, phi, E0):
        V = self.V
        own = chain_phis(V, phi)
        for x in inputs(V, phi):
            if x is E0 or x.op == 'mut' and last(x.args[0]) == 'push' and mutated(x) in own:
                continue
            return False
        return True

    # ---- what is returned
    def returned(self, v, e, seen=None):
        V = self.V
        seen = set() if seen is None else seen
        if v in seen:
            return
        seen.add(v)
        rule = 'returned ids are those of the appended elements'
        if v.op == 'phi':
            for x in inputs(V, v):
                self.returned(x, e, seen)
            return
        if v.op == 'empty':
            self.ob('a batch is only turned away as a whole', self.before_append(v, e), 'empty answer', e, 'nothing is returned')
            return
        if v.op == 'mut' and last(v.args[0]) in ('extend', 'append', 'extend_from_slice') or v.op == 'call' and last(v.args[0]) == 'chain':
            a, b = (mutated(v), v.args[4]) if v.op == 'mut' else (v.args[2], v.args[3])
            self.returned(a, e, seen)
            self.rest(b, e, seen, v)
            return
        if v.op == 'mut' and last(v.args[0]) == 'push':
            a, x = mutated(v), v.args[4]
            ok, why = self.each(x, v)
            self.ob(rule, ok, 'ids', e, why)
            for y in inputs(V, a):
                if y.op != 'empty':
                    self.returned(y, e, seen)
            return
        ok, why = self.range(v)
        self.ob(rule, ok, 'ids', e, why)

    def before_append(self, v, e):
        """an empty list is only returned on paths without an append"""
        V = self.V
        ps = {p.block for p in pushes(V)}
        # the list is chosen at the entry of the joins that carry it; no append may reach that point unrecorded
        for b in [c.block for c in V.live('call') if c.ret is v] or [None]:
            if b is None:
                return True
            seen, work = set(), list(ps)
            while work:
                x = work.pop()
                if x in seen or x in V.dead:
                    continue
                seen.add(x)
                work += succs(V.ir.blocks[x].t)
            if b in seen:
                return False
        return True

    def start_of(self, t, E0):
        return t.op == 'call' and last(t.args[0]) == 'len' and len(t.args) > 2 and t.args[2] is E0

    def range(self, v):
        """(ok, why): is the list the range of ids of one appending loop"""
        V = self.V
        soft = []
        t = v
        for _ in range(20):
            if t.op == 'call' and last(t.args[0]) in ('collect', 'into_iter', 'iter', 'to_vec', 'clone', 'copied', 'cloned'):
                t = t.args[2]
            elif t.op == 'call' and last(t.args[0]) == 'take':
                soft.append(t.args[3])
                t = t.args[2]
            else:
                break
        r = rng(t)
        if r is None:
            return False, 'returns %s' % pp(v)[:200]
        lo, hi = r
        why = ''
        for e, E0, lst, n, site, item in self.loops:
            if not self.start_of(lo, E0):
                why = 'the ids start at %s, not at the number of elements before the appends' % pp(lo)[:120]
                continue
            if hi is None:
                if len(soft) != 1:
                    why = 'the range of ids has no end'
                    continue
                m = self.ev.ev(unsat(soft[0]))
            elif soft:
                why = 'the range of ids is cut again'
                continue
            elif hi.op == 'call' and last(hi.args[0]) == 'len' and len(hi.args) > 2 and hi.args[2] is not E0 and bases(V, hi.args[2]) == {E0}:
                return True, 'from the size before to the size after the appends'
            else:
                m = self.ev.ev(unsat(from_poly(paddd(to_poly(hi), to_poly(lo), -1))))
            if m is not None and n is not None and m == n:
                return True, 'from %s, %s of them' % (pp(lo)[:80], ' or '.join(pp(from_poly(p))[:100] for p in m.ps))
            why = '%s ids for %s appends' % (' or '.join(pp(from_poly(p))[:80] for p in m.ps) if m is not None else '?', ' or '.join(pp(from_poly(p))[:80] for p in n.ps) if n is not None else '?')
        return False, why

    def each(self, x, v):
        """an id noted in each round of the appending loop"""
        V = self.V
        for e, E0, lst, n, site, item in self.loops:
            here = e.vals[0]
            after = e.ret
            ms = [w for w in V.live('call') if is_push(w)]
            good = False
            if x.op == 'call' and last(x.args[0]) == 'len' and len(x.args) > 2 and x.args[2] is here:
                good = True
            p = to_poly(x)
            for m in p:
                if len(m) == 1 and m[0].op == 'call' and last(m[0].args[0]) == 'len' and p == {m: 1, (): -1} and m[0].args[2].op == 'mut' and mutated(m[0].args[2]) is here:
                    good = True
            if not good:
                continue
            evs = event_of(V, v)
            blocks = {w.block for w in evs}
            if blocks and not loop_skips(V, ('elem', site), blocks):
                return True, 'the size at the append of each round'
            return False, 'a round can end without noting its id'
        return False, 'notes %s' % pp(x)[:160]

    def rest(self, b, e, seen, whole):
        """what is added to the ids: the answer of the same operation for the rest of the batch"""
        V = self.V
        rule = 'the rest of the batch follows where the appends stopped'
        t = b
        while t.op == 'call' and last(t.args[0]) in ('into_iter', 'iter', 'drain', 'deref', 'as_slice'):
            t = t.args[2]
        calls = [c for c in V.live('call') if c.ret is t and c.fn is not None and self.k in lib.resolver(self.F)(c.fn)]
        if not calls:
            if t in chain_phis(V, t) or t.op in ('phi', 'call', 'agg'):
                ok, why = self.range(t)
                self.ob(rule, ok, 'added ids', e, why)
            else:
                self.ob(rule, False, 'added ids', e, 'adds %s' % pp(b)[:160])
            return
        for c in calls:
            self.added.setdefault(c.site, set()).update({w.block for w in event_of(V, whole)} | {w.block for w in V.live('call') if w.ret is whole})
            a = c.vals[1] if len(c.vals) > 1 else None
            ok, why = self.left(a)
            self.ob(rule, ok, 'rest of the batch', c, why)

    def left(self, a):
        V = self.V
        for e, E0, lst, n, site, item in self.loops:
            t = a
            while t.op == 'call' and last(t.args[0]) in ('collect', 'into_iter', 'to_vec'):
                t = t.args[2]
            if t.op == 'call' and last(t.args[0]) == 'split_off' and t.args[2] is lst:
                m = self.ev.ev(unsat(t.args[3]))
                if m is not None and m == n:
                    return True, 'split off after %s' % ' or '.join(pp(from_poly(p))[:100] for p in m.ps)
                return False, 'split off after %s' % (' or '.join(pp(from_poly(p))[:100] for p in m.ps) if m is not None else pp(t.args[3]))
            if t.op == 'mut' and last(t.args[0]) == 'drain' and mutated(t) is lst:
                g = rng(t.args[4])
                m = self.ev.ev(unsat(g[1])) if g and g[0] is INT(0) and g[1] is not None else None
                return (m is not None and m == n), 'what is left after draining'
            # the same iterator, advanced by the loop
            if t.op == 'mut' and last(t.args[0]) == 'take' and mutated(t) is lst:
                m = self.ev.ev(unsat(t.args[4]))
                ok = m is not None and n is not None and n == Min(m.ps + self.ev.ev(V.length(lst)).ps)
                return ok, 'what is left in the iterator after taking %s' % pp(t.args[4])[:120]
            if t is lst and item.args[1] != site and any(c.name == 'Iterator::collect' and c.ret is t for c in V.live('call')):
                return True, 'what is left in the iterator'
        return False, 'the rest is %s' % pp(a)[:200]
