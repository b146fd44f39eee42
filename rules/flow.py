"""How a list is put together: the appends that build it, with the loops they happen in, in order."""
from ir import succs
from linear import rng, name
from rules.inserting import last, loops_back
from rules.searching import inputs, mutated, event_of
from vals import mk, pp, subterms, INT

# iteration that visits every member once, in order
INORDER = {'iter', 'into_iter', 'par_iter', 'into_par_iter', 'copied', 'cloned', 'inspect', 'by_ref', 'with_min_len', 'with_max_len', 'collect', 'deref', 'as_slice', 'peekable', 'fuse', 'to_vec', 'into_vec', 'enumerate', 'iter_mut',
           'par_iter_mut', 'as_ref', 'borrow', 'to_owned', 'into_boxed_slice', 'as_mut_slice', 'deref_mut', 'into', 'from', 'from_iter'}
ANYORDER = {'rev', 'reverse', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'par_sort', 'par_sort_unstable', 'par_sort_by', 'par_sort_by_key', 'par_sort_unstable_by',
            'par_sort_unstable_by_key', 'sort_by_cached_key', 'par_sort_by_cached_key', 'sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable'}
PUSH = {'push', 'push_back'}
EXTEND = {'extend', 'par_extend', 'extend_from_slice', 'append', 'extend_from_slice_vector'}
NOCHANGE = {'reserve', 'reserve_exact', 'shrink_to_fit', 'next', 'by_ref', 'iter_mut', 'deref_mut', 'as_mut', 'len'}


class Node(object):
    """kind push: val; extend: val (a list); loop: site, src, body; lit: items; list: val (a whole list used as it is); unknown: val"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.site = self.src = self.body = self.val = self.ev = None
        self.items = []
        self.__dict__.update(kw)

    def show(self):
        if self.kind == 'loop':
            return 'loop(%s){%s}' % (pp(self.src)[:60] if self.src is not None else None, ' '.join(x.show() for x in self.body))
        return '%s(%s)' % (self.kind, pp(self.val)[:60] if self.val is not None else len(self.items))


def canon(V, t):
    """the value a joined value always equals, if joins on the way only pass it on"""
    done = set()
    while t.op == 'phi' and t not in done:
        done.add(t)
        ins = {x for x in V.phi_in.get(t, {}).values() if x is not t}
        if len(ins) == 1:
            t = ins.pop()
            continue
        # a single value everything that reaches the join comes through
        R, work = [], [t]
        seen = {t}
        while work:
            x = work.pop(0)
            for y in V.phi_in.get(x, {}).values():
                if y not in seen:
                    seen.add(y)
                    R.append(y)
                    if y.op == 'phi':
                        work.append(y)
        hit = None
        for q in R:
            ok, s2, work = True, {t}, [t]
            while work and ok:
                x = work.pop()
                for y in V.phi_in.get(x, {}).values():
                    if y is q or y in s2:
                        continue
                    if y.op != 'phi':
                        ok = False
                        break
                    s2.add(y)
                    work.append(y)
            if ok and q not in s2:
                hit = q
                break
        if hit is None:
            return t
        t = hit
    return t


def loopsite(V, phi, blocks=()):
    """(site, what is iterated) of the loop a loop-carried value belongs to; (None, None) if it is not an iteration"""
    head = phi.args[0]
    cands = []
    for e in V.live('call'):
        if e.name not in ('Iterator::next', 'DoubleEndedIterator::next_back') or not e.vals:
            continue
        if V.dominates(head, e.block) and (e.block == head or loops_back(V, e.block, head)):
            cands.append(e)
    best = None
    for e in cands:
        if all(e is f or V.dominates(e.block, f.block) for f in cands):
            best = e
    if best is not None:
        return best.site, strip_next(V, best.vals[0])
    # body of a function passed to an iterator method
    for e in V.events:
        if e.kind == 'mark' and e.block not in V.dead and V.dominates(head, e.block) and loops_back(V, e.block, head):
            cs = [c for c in V.live('call') if c.site == e.site and c.vals]
            if cs:
                return e.site, strip_next(V, cs[0].vals[0])
    return None, None


def escapes(V, head, site, idx=None):
    """a block from which the loop at head can be left, towards a return, other than because its iteration (or count) ended; None if there is none"""
    pred = {}
    for i, B in enumerate(V.ir.blocks):
        if i not in V.dead:
            for s in succs(B.t):
                pred.setdefault(s, []).append(i)
    body, work = {head}, [p for p in pred.get(head, []) if V.dominates(head, p)]
    while work:
        b = work.pop()
        if b not in body:
            body.add(b)
            work += pred.get(b, [])
    back, work = set(), [e.block for e in V.live('return')]
    while work:
        b = work.pop()
        if b not in back:
            back.add(b)
            work += pred.get(b, [])
    for b in sorted(body):
        out = [s for s in succs(V.ir.blocks[b].t) if s not in body and s in back and s not in V.dead]
        if not out:
            continue
        c = V.cond.get(b)
        if V.ir.blocks[b].t[0] == 'nondet':
            continue
        if c is not None and site is not None and any(x.op == 'call' and x.args[1] == site and name(x) in ('next', 'next_back') for x in subterms(c)):
            continue
        if c is not None and idx is not None and c.op == 'bin' and idx in c.args[1:]:
            continue
        return b
    return None


def strip_next(V, t):
    seen, out, work = set(), [], [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'mut' and name(x) in ('next', 'by_ref', 'next_back'):
            work.append(mutated(x))
        else:
            out.append(x)
    return out[0] if len(out) == 1 else t


def counter(V, phi):
    """for a loop that counts: (the counting term, range it goes over)"""
    head = phi.args[0]
    for i, ins in V.phi_in.items():
        if i.op != 'phi' or i.args[0] != head:
            continue
        xs = set(ins.values())
        from vals import padd
        st = [x for x in xs if x is not padd(i, INT(1))]
        if len(xs) == 2 and len(st) == 1:
            for c in V.cond.values():
                if c.op == 'bin' and c.args[0] == 'Lt' and c.args[1] is i:
                    return i, mk('agg', ('adt', 'Range', 0, 'Range', ('start', 'end')), st[0], c.args[2])
    return None, None


def tree(V, t, depth=0):
    """the list t as a sequence of Nodes"""
    return delta(V, None, t, depth)


def delta(V, start, t, depth=0, seen=()):
    """what was appended between the list value `start` (None: empty) and t"""
    out = []
    for _ in range(200):
        if t is start:
            return out
        n = name(t)
        if t.op == 'empty' or t.op == 'call' and n in ('new', 'with_capacity', 'default') and len([a for a in t.args[2:] if a.op == 'arg']) == 0 and start is None:
            return out if start is None else None
        if depth > 30:
            return None
        if t.op == 'mut' and n in PUSH and len(t.args) > 4:
            out.insert(0, Node('push', val=t.args[4], ev=event_of(V, t)))
            t = mutated(t)
            continue
        if t.op == 'mut' and n in EXTEND and len(t.args) > 4:
            out.insert(0, Node('extend', val=t.args[4], ev=event_of(V, t)))
            t = mutated(t)
            continue
        if t.op == 'mut' and n in NOCHANGE:
            t = mutated(t)
            continue
        if t.op == 'phi' and t not in seen:
            ins = V.phi_in.get(t, {})
            head = t.args[0]
            back = {x for p, x in ins.items() if V.dominates(head, p)}
            fwd = {x for p, x in ins.items() if not V.dominates(head, p)}
            if back - {t}:
                if len(fwd) != 1:
                    return None
                ds = [delta(V, t, x, depth + 1, seen + (t,)) for x in back if x is not t]
                if any(d is None for d in ds) or any(sig(d) != sig(ds[0]) for d in ds) or t in back:
                    return None
                if ds[0]:
                    site, src = loopsite(V, t)
                    idx = None
                    if site is None:
                        idx, src = counter(V, t)
                    if escapes(V, head, site, idx) is not None:
                        return None
                    out.insert(0, Node('loop', site=site, src=src, body=ds[0], phi=t, idx=idx))
                t = fwd.pop()
                continue
            if t in set(ins.values()) and len(set(ins.values())) == 2:
                t = [x for x in ins.values() if x is not t][0]
                continue
            xs = list(dict.fromkeys(x for x in ins.values() if x is not t))
            ds = [delta(V, start, x, depth + 1, seen + (t,)) for x in xs]
            if ds and all(d is not None and sig(d) == sig(ds[0]) for d in ds):
                return ds[0] + out
            return None
        if start is not None:
            return None
        if t.op == 'with' and arrays(t):
            return [Node('lit', items=arrays(t))] + out
        if t.op == 'agg' and t.args[0][0] == 'array':
            return [Node('lit', items=list(t.args[1:]))] + out
        if t.op == 'call' and n in INORDER and len(t.args) > 2:
            t = t.args[2]
            continue
        if t.op == 'call' and n == 'map' and len(t.args) > 3 and t.args[3].op == 'cloret':
            return [Node('loop', site=t.args[1], src=t.args[2], body=[Node('push', val=t.args[3].args[1], ev=[])], phi=None, idx=None)] + out
        if t.op == 'call' and n in ('flat_map',) and len(t.args) > 3 and t.args[3].op == 'cloret':
            return [Node('loop', site=t.args[1], src=t.args[2], body=[Node('extend', val=t.args[3].args[1], ev=[])], phi=None, idx=None)] + out
        if t.op == 'call' and n in ('concat', 'flatten') and len(t.args) > 2:
            inner = delta(V, None, t.args[2], depth + 1)
            if inner is None:
                return None
            return [concat(x) for x in inner] + out
        return [Node('list', val=t)] + out
    return None


def concat(x):
    if x.kind == 'push':
        return Node('extend', val=x.val, ev=x.ev)
    if x.kind == 'loop':
        return Node('loop', site=x.site, src=x.src, body=[concat(y) for y in x.body], phi=x.phi, idx=x.idx)
    return x


def sig(d):
    return None if d is None else tuple((x.kind, x.val, x.site, sig(x.body) if x.body else None, tuple(x.items)) for x in d)


def arrays(t):
    """items of vec![a, b, ..]"""
    if t.op != 'with':
        return None
    stack = list(t.args[1])
    while stack:
        w = stack.pop()
        if isinstance(w, tuple):
            stack += [y for y in w if isinstance(y, tuple) or hasattr(y, 'op')]
        elif w.op == 'agg' and w.args[0][0] == 'array':
            return list(w.args[1:])
        elif w.op == 'with':
            stack += list(w.args[1])
    return None


def inorder(V, S, anyorder=False, counting=None):
    """the list an iteration goes over completely (in order, unless anyorder), or None. Chunks are kept: ('chunks', list)."""
    for _ in range(40):
        S = strip_next(V, S) if S.op in ('phi', 'mut') else S
        n = name(S)
        if S.op == 'call' and n in INORDER and len(S.args) > 2:
            S = S.args[2]
            continue
        if anyorder and S.op in ('call', 'mut') and n in ANYORDER:
            S = mutated(S) if S.op == 'mut' else S.args[2]
            continue
        return S
    return S


def is_length(V, n, B):
    """is n the length of the list B?"""
    n = canon(V, n)
    if n is V.length(B):
        return True
    if n.op == 'call' and name(n) == 'len' and len(n.args) > 2:
        return canon(V, n.args[2]) is canon(V, B)
    return n.op == 'len' and (canon(V, n.args[0]) is canon(V, B) or canon(V, inorder(V, n.args[0])) is canon(V, inorder(V, B)))


def whole_range(V, r, B):
    """is r the range of all positions of the list B?"""
    g = rng(r)
    return bool(g and g[0] is INT(0) and not g[2] and g[1] is not None and is_length(V, g[1], B))


def enumerates(V, loops, X, anyorder=False):
    """loops: [(site, src, idx)], outermost first. If the loops visit every member of a list B exactly once (in order) and X is the member, return B"""
    if not loops:
        return None
    site, src, idx = loops[-1]
    if src is None:
        return None
    S = inorder(V, src, anyorder)
    if X.op == 'fld' and X.args[1] == ('f', 1) and X.args[0].op == 'elem' and X.args[0].args[1] == site and has_enumerate(V, src):
        X = mk('elem', S, site)
    if X.op == 'elem' and X.args[1] == site and site is not None:
        if len(loops) == 1 and rng(S) is None and not chunks(S):
            return S
        if len(loops) == 2:
            C = mapped(V, inorder(V, loops[0][1], anyorder), anyorder)
            if chunks(C) and S.op == 'elem' and stage_of(S, loops[0]):
                return C.args[2]
        return None
    if X.op == 'fld' and X.args[1][0] == 'i' and len(loops) == 1:
        i = X.args[1][1]
        if (i.op == 'elem' and i.args[1] == site or idx is not None and i is idx) and whole_range(V, S, X.args[0]):
            return X.args[0]
    if X.op == 'fld' and X.args[1][0] == 'i' and len(loops) == 2:
        i, c = X.args[1][1], X.args[0]
        if (i.op == 'elem' and i.args[1] == site or idx is not None and i is idx) and whole_range(V, S, c) and c.op == 'elem' and stage_of(c, loops[0]):
            C = mapped(V, inorder(V, loops[0][1], anyorder), anyorder)
            if chunks(C):
                return C.args[2]
    return None


def stage_of(x, loop):
    """is x a member of what the loop iterates, taken by the loop or by one of the stages its iteration is made of?"""
    return x.args[1] == loop[0] or any(s.op == 'call' and s.args[1] == x.args[1] for s in subterms(loop[1]))


def mapped(V, S, anyorder):
    """what a chain of mapping stages goes over"""
    while S.op == 'call' and name(S) == 'map' and len(S.args) > 2:
        S = inorder(V, S.args[2], anyorder)
    return S


def has_enumerate(V, S):
    for _ in range(40):
        S = strip_next(V, S) if S.op in ('phi', 'mut') else S
        if S.op == 'call' and name(S) == 'enumerate':
            return True
        if S.op == 'call' and name(S) in INORDER and len(S.args) > 2:
            S = S.args[2]
            continue
        return False


def chunks(S):
    return S.op == 'call' and name(S) in ('par_chunks', 'chunks')


def flatten(V, nodes, loops=(), depth=0):
    """[(loops, item)] for the appended members; None if something is not understood"""
    out = []
    if nodes is None or depth > 12:
        return None
    for x in nodes:
        if x.kind == 'lit':
            out += [(list(loops), y) for y in x.items]
        elif x.kind == 'push':
            out.append((list(loops), x.val))
        elif x.kind == 'loop':
            r = flatten(V, x.body, tuple(loops) + ((x.site, x.src, x.idx),), depth + 1)
            if r is None:
                return None
            out += r
        elif x.kind in ('extend', 'list'):
            r = members(V, x.val, tuple(loops), depth + 1)
            if r is None:
                return None
            out += r
        else:
            return None
    return out


def members(V, L, loops, depth=0):
    """members of a list that is appended as a whole inside the given loops"""
    v = inorder(V, L)
    if v.op == 'elem' and loops and v.args[1] == loops[-1][0]:
        # the members of the members of a list of lists
        outer = inorder(V, loops[-1][1])
        r = flatten(V, tree(V, outer), loops[:-1], depth + 1)
        if r is None or len(r) != 1:
            return None
        ls, item = r[0]
        return members(V, item, tuple(ls), depth + 1)
    t = tree(V, v)
    if t is None:
        return None
    if len(t) == 1 and t[0].kind == 'list':
        s = mk('site', t[0].val)
        return [(list(loops) + [(s, t[0].val, None)], mk('elem', t[0].val, s))]
    return flatten(V, t, loops, depth + 1)
