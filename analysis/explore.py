"""Conditional exploration of an analysed graph: which blocks can follow a point when some conditions are assumed.

No path is executed: branch conditions are looked up in the assumed and established facts, and values merged at joins are
restricted to the joins' incoming edges explored so far; an undecided branch is followed both ways."""
from ir import succs
from vals import mk, binop, bnot, INT, padd, contains, subterms, to_poly


class Explore(object):
    def __init__(self, V, starts, assume=(), stop=None, max_rounds=60, from_entry=False):
        """starts: list of edges (p, b) or blocks; stop(event, self) true = path ends there"""
        self.V = V
        self.stop = stop or (lambda e, x: False)
        self.known = {}
        for t, v in assume:
            for a, b in V.atoms(t, v):
                self.learn(a, b)
        self.edges = set()
        self.blocks = set()
        self.starts = starts
        self.evs = {}
        for e in V.events:
            self.evs.setdefault(e.block, []).append(e)
        self.start_blocks = set()
        for s in starts:
            if isinstance(s, tuple):
                self.edges.add(s)
                self.start_blocks.add(s[0])
            else:
                self.start_blocks.add(s)
        self.opaque_cache = {}
        self.inprog = set()
        self.entry = from_entry
        for r in range(max_rounds):
            n = (len(self.edges), len(self.blocks))
            self.memo = {}
            self.round()
            if (len(self.edges), len(self.blocks)) == n:
                break

    def learn(self, t, v):
        self.known[t] = v
        if t.op == 'bin' and t.args[0] == 'Eq' and v == 1:
            a, b = t.args[1], t.args[2]
            if a.op == 'int':
                self.known[b] = a.args[0]
            elif b.op == 'int':
                self.known[a] = b.args[0]

    # ------------------------------------------------------------ walking
    def round(self):
        seen = set()
        work = []
        for s in self.starts:
            work.append(s[1] if isinstance(s, tuple) else s)
        self.live_events = []
        self.cut = []
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            self.blocks.add(b)
            cut = False
            for e in self.evs.get(b, ()):
                if self.stop(e, self):
                    cut = True
                    self.cut.append(e)
                    break
                self.live_events.append(e)
            if cut:
                continue
            for s in self.next(b):
                if (b, s) not in self.V.efacts and self.V.dead:
                    if (b, s) not in self.V.live_e:
                        continue
                self.edges.add((b, s))
                work.append(s)

    def next(self, b):
        t = self.V.ir.blocks[b].t
        ss = [s for s in dict.fromkeys(succs(t)) if (b, s) in self.V.live_e]
        if t[0] == 'switch':
            c = self.V.cond.get(b)
            if c is not None:
                vs = self.values_of(c, b)
                if vs is not None:
                    out = []
                    for v in vs:
                        hit = [x for y, x in t[2] if y == v]
                        out += hit or ([t[3]] if t[3] is not None else [])
                    return [s for s in ss if s in out]
                # excluded values
                ex = self.excluded(c, b)
                if ex:
                    keep = []
                    for s in ss:
                        vals = [y for y, x in t[2] if x == s]
                        if vals and s != t[3] and all(y in ex for y in vals):
                            continue
                        keep.append(s)
                    return keep
        elif t[0] == 'assert':
            c = self.V.cond.get(b)
            if c is not None:
                vs = self.values_of(c, b)
                if vs is not None and vs == {0 if t[2] else 1}:
                    return []
        return ss

    def excluded(self, c, b):
        out = set()
        for t, v in self.known.items():
            if v == 0 and t.op == 'bin' and t.args[0] == 'Eq':
                if t.args[1] is c and t.args[2].op == 'int':
                    out.add(t.args[2].args[0])
                if t.args[2] is c and t.args[1].op == 'int':
                    out.add(t.args[1].args[0])
        return out

    # ------------------------------------------------------------ values under restriction
    def opaque(self, blk):
        """a join that was (possibly) executed before the exploration started"""
        if self.entry:
            return False
        r = self.opaque_cache.get(blk)
        if r is None:
            r = any(self.V.dominates(blk, s) for s in self.start_blocks)
            self.opaque_cache[blk] = r
        return r

    def alts(self, t, seen=None):
        """possible values of t given the edges explored"""
        if t.op != 'phi':
            return {t}
        top = seen is None
        if top:
            seen = set()
        if t in seen:
            return set()
        seen.add(t)
        b = t.args[0]
        if self.opaque(b):
            return {t}
        inc = [(p, x) for p, x in self.V.phi_in.get(t, {}).items() if (p, b) in self.edges or (p == 'entry' and self.entry)]
        if not inc:
            return {t}
        out = set()
        for p, x in inc:
            out |= self.alts(x, seen)
            if len(out) > 60:
                return {t}
        return out or ({t} if top else out)

    def subst(self, t, d=0):
        """t with joins resolved where only one value can arrive"""
        if d > 8:
            return t
        m = self.memo.get(t)
        if m is not None:
            return m
        self.memo[t] = t
        r = t
        if t.op == 'phi':
            a = self.alts(t)
            if len(a) == 1:
                x = next(iter(a))
                if x is not t:
                    r = self.subst(x, d + 1)
            else:
                hs = {x.args[0] for x in a if x.op == 'agg'}
                if len(hs) == 1 and all(x.op == 'agg' for x in a):
                    ns = {len(x.args) for x in a}
                    if len(ns) == 1 and all(len({x.args[i] for x in a}) == 1 for i in range(1, next(iter(ns)))):
                        r = next(iter(a))
        elif t.op in ('bin', 'un', 'fld', 'discr', 'cast', 'len', 'agg', 'call', 'poly', 'notnan', 'min', 'max') and any(s.op == 'phi' for s in subterms(t)):
            r = self.rebuild(t, d)
        self.memo[t] = r
        return r

    def rebuild(self, t, d):
        V = self.V
        s = lambda x: self.subst(x, d + 1)
        if t.op == 'bin':
            o, a, b = t.args
            a2, b2 = s(a), s(b)
            if (a2, b2) == (a, b):
                return t
            if o in ('FLt', 'FLe'):
                return mk('bin', o, a2, b2)
            return binop(o, a2, b2, 'usize' if o in ('Add', 'Sub', 'Mul', 'Lt', 'Le', 'Div', 'Rem') else '')
        if t.op == 'un':
            return bnot(s(t.args[1])) if t.args[0] == 'Not' else mk('un', t.args[0], s(t.args[1]))
        if t.op == 'fld':
            e = t.args[1]
            b = s(t.args[0])
            if b is t.args[0]:
                return t
            return V.proj(b, e)
        if t.op == 'discr':
            return V.discr(s(t.args[0]))
        if t.op == 'len':
            return V.length(s(t.args[0]))
        if t.op == 'poly':
            acc = INT(0)
            from vals import pmul
            for m, c in t.args[0]:
                x = INT(c)
                for f in m:
                    x = pmul(x, s(f))
                acc = padd(acc, x)
            return acc
        if t.op in ('agg', 'call', 'cast', 'notnan', 'min', 'max'):
            na = tuple(s(x) if hasattr(x, 'op') else x for x in t.args)
            return mk(t.op, *na) if na != t.args else t
        return t

    def values_of(self, t, b=None, d=0):
        """set of possible integer values, or None when undecided"""
        if t.op == 'int':
            return {t.args[0]}
        if t in self.known:
            return {self.known[t]}
        if b is not None:
            for (x, v) in self.V.facts(b):
                if x is t:
                    return {v}
        if d > 12:
            return None
        if t.op == 'phi':
            a = self.alts(t)
            out = set()
            for x in a:
                if x is t:
                    return None
                v = self.values_of(x, None, d + 1)
                if v is None:
                    return None
                out |= v
            return out
        if t.op == 'un' and t.args[0] == 'Not':
            v = self.values_of(t.args[1], b, d + 1)
            return {1 - x for x in v} if v is not None and v <= {0, 1} else None
        if t.op == 'bin' and t.args[0] in ('BitAnd', 'BitOr'):
            x, y = self.values_of(t.args[1], b, d + 1), self.values_of(t.args[2], b, d + 1)
            if t.args[0] == 'BitAnd':
                if x == {0} or y == {0}:
                    return {0}
                if x == {1} and y == {1}:
                    return {1}
            else:
                if x == {1} or y == {1}:
                    return {1}
                if x == {0} and y == {0}:
                    return {0}
            return None
        if t.op == 'discr':
            x = t.args[0]
            if x.op == 'phi':
                out = set()
                for y in self.alts(x):
                    if y is x:
                        return None
                    dv = self.values_of(self.V.discr(y), None, d + 1)
                    if dv is None:
                        return None
                    out |= dv
                return out
        s = self.subst(t)
        if s is not t:
            return self.values_of(s, b, d + 1)
        if t.op == 'fld':
            # a part of a joined value: the same part of each value that can arrive (its own loop-carried copy adds nothing)
            path, r = [], t
            while r.op == 'fld':
                path.append(r.args[1])
                r = r.args[0]
            if r.op == 'phi':
                if t in self.inprog:
                    return set()
                self.inprog.add(t)
                try:
                    out = set()
                    for x in self.alts(r):
                        if x is r:
                            return None
                        for e in reversed(path):
                            x = self.V.proj(x, e)
                        if x is t:
                            continue
                        v = self.values_of(x, None, d + 1)
                        if v is None:
                            return None
                        out |= v
                    return out if out or len(self.inprog) > 1 else None
                finally:
                    self.inprog.discard(t)
        if t.op == 'bin' and t.args[0] == 'Eq':
            x, y = self.values_of(t.args[1], b, d + 1), self.values_of(t.args[2], b, d + 1)
            if x is not None and y is not None and len(x) == 1 and len(y) == 1:
                return {int(x == y)}
            if x is not None and y is not None and not (x & y):
                return {0}
            ta = self.alts(t.args[1]) if t.args[1].op == 'phi' else None
            tb = self.alts(t.args[2]) if t.args[2].op == 'phi' else None
            if ta is not None or tb is not None:
                out = set()
                for x in (ta or {t.args[1]}):
                    for y in (tb or {t.args[2]}):
                        if x is t.args[1] and y is t.args[2]:
                            return None
                        v = self.values_of(binop('Eq', x, y, 'x'), None, d + 1)
                        if v is None:
                            return None
                        out |= v
                return out
        if t.op == 'bin' and t.args[0] in ('Lt', 'Le'):
            x, y = self.values_of(t.args[1], b, d + 1), self.values_of(t.args[2], b, d + 1)
            if x and y:
                f = (lambda p, q: p < q) if t.args[0] == 'Lt' else (lambda p, q: p <= q)
                r = {int(f(p, q)) for p in x for q in y}
                if len(r) == 1:
                    return r
        return None

    # ------------------------------------------------------------ results
    def events(self, kind=None):
        return [e for e in self.live_events if kind is None or e.kind == kind]

    def returns(self):
        """(event, alternatives of the returned value)"""
        out = []
        for e in self.live_events:
            if e.kind == 'return':
                out.append((e, self.alts(e.val)))
        return out


def after(V, ev):
    """start edges right after a call event"""
    t = V.ir.blocks[ev.block].t
    return [(ev.block, s) for s in succs(t)]
