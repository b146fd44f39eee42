"""Dataflow over the operations of the lock-protected index that append elements (helpers and closures inlined). Every append happens on the
content of a guard of the element lock; how many appends one acquisition can make must be bounded by a capacity minus the number of elements,
where that number is read through the very same acquisition and before the first append of it. A capacity is the configured maximum or the
length of the layer that is being filled; every value that becomes that layer must have been sized from the configured maximum by a function
that never returns more than it was given."""
import lib, locks
from algebra import Eval, le, paddd
from rules.common import member_of, loop_skips, held
from rules.inserting import adts, operations, constructors, view, pushes, bases, feed, count, unsat, is_push, last
from rules.searching import inputs, mutated
from vals import mk, pp, subterms, INT, to_poly

TECHNIQUE = 'upper bounds on the number of appends per lock acquisition, tied to the size read under that acquisition'
NOTE = 'An index that was created from a builder that already holds more elements than the maximum is outside the rule: only insertion is judged.'


def capfields(F, adt):
    """size fields of the locked type (candidates for the configured maximum)"""
    fs = F.adt_by_path[adt]['vs'][0]['fs']
    return [i for i, f in enumerate(fs) if F.tstr(f['t']) == 'usize']


def capped(ctx, cfg, V, t, caps, d=0):
    """is the size t at most one of the capacities?"""
    if d > 8:
        return False
    if t in caps:
        return True
    if t.op == 'min':
        return any(capped(ctx, cfg, V, x, caps, d + 1) for x in t.args)
    if t.op in ('max', 'phi'):
        xs = t.args if t.op == 'max' else inputs(V, t)
        return all(capped(ctx, cfg, V, x, caps, d + 1) for x in xs)
    if t.op == 'int' and t.args[0] == 0:
        return True
    if t.op == 'call':
        F = ctx.F(cfg)
        for c in V.live('call'):
            if c.ret is t and c.fn is not None and c.fn.get('local'):
                for i in bounded_by(ctx, cfg, F, c.fn):
                    if i < len(c.vals) and capped(ctx, cfg, V, c.vals[i], caps, d + 1):
                        return True
                return False
    return False


def bounded_by(ctx, cfg, F, fn):
    """numbers of the arguments that a local function's result never exceeds"""
    out = []
    for key in lib.resolver(F)(fn):
        if key not in F.bodies:
            return []
        W = ctx.V(cfg, key)
        rets = W.live('return')
        ok = []
        for i in range(W.ir.argc):
            a = mk('arg', i + 1)
            if rets and all(le_term(W, e.val, a) for e in rets):
                ok.append(i)
        out = ok if not out else [i for i in out if i in ok]
    return out


def le_term(W, t, a, d=0):
    if t is a or t.op == 'int' and t.args[0] == 0:
        return True
    if d > 8:
        return False
    if t.op == 'min':
        return any(le_term(W, x, a, d + 1) for x in t.args)
    if t.op == 'max':
        return all(le_term(W, x, a, d + 1) for x in t.args)
    if t.op == 'phi':
        for p, x in W.phi_in.get(t, {}).items():
            if le_term(W, x, a, d + 1):
                continue
            fs = set(W.facts(p)) | set(W.edge_facts(p, t.args[0])[0])
            if not any(c.op == 'bin' and (c.args == ('Le', x, a) and v == 1 or c.args == ('Lt', x, a) and v == 1 or c.args == ('Lt', a, x) and v == 0 or c.args == ('Le', a, x) and v == 0) for c, v in fs):
                return False
        return bool(W.phi_in.get(t))
    return False


def run(ctx):
    cfgs = ('rw',) if ctx.tier == 'quick' else ('rw', 'single', 'blas')
    for cfg in cfgs:
        F = ctx.F(cfg)
        held(ctx, cfg, F)
        npush = 0
        for adt, info in adts(ctx, cfg).items():
            ops = [k for k in operations(F, adt)]
            caps = [mk('fld', mk('arg', 1), ('f', i)) for i in capfields(F, adt)]
            sized = set()
            for k in ops:
                V = view(ctx, cfg, k)
                ps = pushes(V)
                if not ps and not any(True for e in V.live('call') if locked_mut(V, info, e)):
                    continue
                npush += len(ps)
                for e in ps:
                    judge(ctx, cfg, F, V, k, e, info, caps, sized)
                for e in V.live('call'):
                    m = locked_mut(V, info, e)
                    if m and not is_push(e):
                        other_change(ctx, cfg, F, V, k, e, m, info, caps)
                for e in V.live('write'):
                    for b in bases(V, e.lv[0]) if hasattr(e.lv[0], 'op') else ():
                        if b.op == 'content' and b.args[0].op == 'fld' and b.args[0].args[1][0] == 'f' and b.args[0].args[0] is mk('arg', 1):
                            write(ctx, cfg, F, V, k, e, b, info, caps, sized)
            # the layer a new index starts with
            for k in constructors(F, adt):
                V = view(ctx, cfg, k)
                for e in V.live('return'):
                    for v in inputs(V, e.val):
                        if v.op != 'agg' or len(v.args) < 2 or v.args[0][1:2] != (adt,):
                            continue
                        mine = [v.args[i + 1] for i in capfields(F, adt)]
                        for li in sorted(sized):
                            x = v.args[li + 1]
                            start(ctx, cfg, F, V, k, e, x, mine)
        ctx.floor('appends to a locked element list [%s]' % cfg, npush, 1)


def locked_mut(V, info, e):
    """locks (field numbers) of the protected state a call may change"""
    out = []
    for a in e.args:
        for r in V.mutrefs(a):
            for b in bases(V, r.args[1]) if hasattr(r.args[1], 'op') else ():
                if b.op == 'content' and b.args[0].op == 'fld' and b.args[0].args[0] is mk('arg', 1) and b.args[0].args[1][1] in info['locks']:
                    out.append((b, r))
    return out


def short(F, k):
    return F.bodies[k]['path'].split('::')[-1]


def layer_len(V, t):
    """t is the length of something protected by a lock: (lock field, path)"""
    if t.op == 'call' and last(t.args[0]) == 'len':
        x = t.args[2]
    elif t.op == 'len':
        x = t.args[0]
    else:
        return None
    path = []
    while x.op in ('fld', 'call') and len(path) < 12:
        if x.op == 'call':
            if last(x.args[0]) not in ('load', 'as_slice', 'deref', 'borrow'):
                return None
            x = x.args[2]
        else:
            path.append(x.args[1])
            x = x.args[0]
    bs = {b for b in bases(V, x)}
    roots = {(b.args[0].args[1][1]) for b in bs if b.op == 'content' and b.args[0].op == 'fld' and b.args[0].args[0] is mk('arg', 1)}
    if len(roots) == 1 and all(b.op == 'content' for b in bs):
        return roots.pop(), tuple(path[::-1])
    return None


def judge(ctx, cfg, F, V, k, e, info, caps, sized):
    name = short(F, k)
    bs = bases(V, e.vals[0])
    key = '%s: append to %s' % (name, '/'.join(sorted(info['locks'].get(b.args[0].args[1][1], '?') if b.op == 'content' and b.args[0].op == 'fld' else 'unlocked' for b in bs)))
    if len(bs) != 1 or next(iter(bs)).op != 'content':
        ctx.ob('elements are appended under the element lock', False, key, e.sp, 'appends to %s' % ', '.join(pp(b)[:80] for b in bs))
        return
    E0 = next(iter(bs))
    ctx.ob('elements are appended under the element lock', True, key, e.sp, 'on the content of one acquisition')

    def is_size(t, state):
        return t.op == 'call' and last(t.args[0]) == 'len' and len(t.args) > 2 and t.args[2] is state or t.op == 'len' and t.args[0] is state

    def room(p, state):
        """polynomial p is at most capacity - size(state); returns the capacity"""
        for m in p:
            if len(m) == 1 and is_size(m[0], state) and p[m] < 0:
                q = paddd(p, {m: -1}, -1)
                for c in caps:
                    if le(q, to_poly(c)):
                        return c
                for n in q:
                    if len(n) == 1 and layer_len(V, n[0]) and layer_len(V, n[0])[0] != E0.args[0].args[1][1] and le(q, {n: 1}):
                        return n[0]
        return None

    def note(c):
        if c not in caps:
            sized.add(layer_len(V, c)[0])
    # each append guarded on its own
    here = e.vals[0]
    for t, v in V.facts(e.block):
        for a, b in V.atoms(t, v):
            if a.op != 'bin' or a.args[0] not in ('Lt', 'Le', 'Eq'):
                continue
            o, x, y = a.args
            lo, hi = (x, y) if (o, b) == ('Lt', 1) else (y, x) if (o, b) == ('Le', 0) else (None, None)
            if o == 'Eq':
                continue
            if lo is not None:
                d = paddd(to_poly(hi), to_poly(lo), -1)      # d >= 1
                c = room(d, here)
                if c is not None and d == paddd(to_poly(c), to_poly(sz(V, here, d)), -1):
                    note(c)
                    ctx.ob('each acquisition appends at most what is left', True, key, e.sp, 'guarded by %s' % pp(a))
                    return
    # a loop over the start of a list
    item = e.vals[1]
    el = [s for s in subterms(item) if s.op == 'elem']
    why = 'the number of appends is not bounded by the room left under the same lock'
    if here.op == 'phi':
        own = set(V.phi_in.get(here, {}).values())
        rest = {x for x in own if x is not here and not (x.op == 'mut' and mutated(x) is here)}
        entered = {y for x in rest for y in (inputs(V, x) if x.op == 'phi' else [x])}
        if entered - {x for x in entered if x.op == 'mut' and mutated(x) is here} != {E0}:
            rest = None
        for s in el if rest is not None else ():
            lst, soft, hard, _, _ = feed(V, s)
            n = count(V, Eval(V), lst, soft, hard)
            if n is None:
                continue
            for p in n.ps:
                c = room(p, E0)
                if c is not None:
                    note(c)
                    ctx.ob('each acquisition appends at most what is left', True, key, e.sp, 'at most %s' % pp(vpoly(p)))
                    return
            why = 'the number of appends is only bounded by %s' % ', '.join(pp(vpoly(p))[:160] for p in n.ps)
    ctx.ob('each acquisition appends at most what is left', False, key, e.sp, why)


def sz(V, state, d):
    for m in d:
        if len(m) == 1 and m[0].op in ('call', 'len') and d[m] < 0:
            return m[0]
    return INT(0)


def vpoly(p):
    from vals import from_poly
    return from_poly(p)


def value_size(V, v):
    """size terms of a layer value"""
    for _ in range(20):
        if v.op == 'call' and last(v.args[0]) in ('into', 'from', 'clone', 'borrow', 'to_owned'):
            v = v.args[2]
        elif v.op == 'mut' and last(v.args[0]) == 'resize':
            return v.args[4]
        elif v.op == 'mut' and last(v.args[0]) in ('reserve', 'reserve_exact'):
            v = mutated(v)
        elif v.op == 'call' and last(v.args[0]) in ('with_width', 'new', 'with_capacity'):
            return INT(0)
        else:
            return None
    return None


def write(ctx, cfg, F, V, k, e, b, info, caps, sized):
    f = b.args[0].args[1][1]
    key = '%s: %s replaced' % (short(F, k), info['locks'].get(f, '?'))
    path = e.lv[1]
    for v in inputs(V, e.val):
        if not path and v.op == 'agg' and v.args[0][0] == 'tuple':
            v = v.args[1]
        n = value_size(V, v)
        if path and path[0] != ('f', 0) and path[0][0] == 'f' and len(path) == 1:
            continue
        if n is None:
            # not sized here: judged only if it can hold more than before
            ctx.ob('a layer being filled is sized from the configured maximum', False, key, e.sp, 'the size of %s is not known' % pp(v)[:120])
            continue
        sized.add(f)
        ok = capped(ctx, cfg, V, n, set(caps))
        ctx.ob('a layer being filled is sized from the configured maximum', ok, key, e.sp, 'sized %s' % pp(n)[:160])


def start(ctx, cfg, F, V, k, e, x, mine):
    """the layer an index is created with: sized from the maximum, or what the builder made already"""
    key = '%s: first layer' % short(F, k)
    for a in inputs(V, x):
        if a.op == 'call' and last(a.args[0]) == 'new':
            a = a.args[2]
        v = a.args[1] if a.op == 'agg' and a.args[0][0] == 'tuple' else a
        ns = sizes(V, v)
        # a layer may be kept as it was built on some ways, but not on all of them
        if all(n is None for n in ns):
            ctx.ob('a layer being filled is sized from the configured maximum', False, key, e.sp, 'the size of %s is not known' % pp(v)[:120])
            continue
        first(ctx, cfg, V, [n for n in ns if n is not None], mine, key, e)


def sizes(V, v, d=0):
    """size terms (None: as it came) of the ways a layer value can have come about"""
    while v.op == 'call' and last(v.args[0]) in ('into', 'from') and len(v.args) > 2:
        v = v.args[2]
    if v.op == 'phi' and d < 6:
        return [n for x in inputs(V, v) if x is not v for n in sizes(V, x, d + 1)]
    n = value_size(V, v)
    return [mk('unknown', v) if n is None and v.op == 'mut' else n]


def first(ctx, cfg, V, ns, mine, key, e):
    for n in ns:
        have = {t for t in subterms(n) if t.op == 'len' or t.op == 'phi' or t.op == 'call' and last(t.args[0]) == 'len'}
        ok = capped(ctx, cfg, V, n, set(mine) | have)
        ok = ok and (not have or capped(ctx, cfg, V, n, set(mine)) or n.op == 'max' and any(capped(ctx, cfg, V, y, set(mine)) for y in n.args))
        ctx.ob('a layer being filled is sized from the configured maximum', ok, key, e.sp, 'sized %s' % pp(n)[:160])


SAFE = {'deref_mut', 'deref', 'downgrade', 'replace', 'take', 'swap', 'borrow_mut', 'as_mut', 'index_mut', 'iter_mut', 'last_mut', 'first_mut'}


def other_change(ctx, cfg, F, V, k, e, ms, info, caps):
    """other calls that get the protected state to change: only ones that cannot add elements or make the layer longer"""
    for b, r in ms:
        f = b.args[0].args[1][1]
        n = last(e.name)
        key = '%s: %s on %s' % (short(F, k), n, info['locks'].get(f, '?'))
        if n in SAFE:
            if n in ('replace', 'swap') and len(e.vals) > 1:
                s = value_size(V, e.vals[1])
                ok = s is not None and capped(ctx, cfg, V, s, set(caps))
                ctx.ob('a layer being filled is sized from the configured maximum', ok, key, e.sp, 'replaced by something sized %s' % (pp(s) if s is not None else 'unknown'))
            continue
        inner = r.args[2] if len(r.args) > 2 else ()
        if isinstance(inner, tuple) and inner and inner[0] == ('f', 1):
            continue
        ctx.ob('a layer being filled is sized from the configured maximum', False, key, e.sp, 'changes the protected state in a way that is not followed')
