"""Which instances of generic functions can be called: a worklist over (function, type arguments) starting at the exported functions.

Calls are resolved with the type arguments substituted. A method of a trait of the crate whose receiver type is still a parameter may be any
implementation; a call of a function outside the crate may call any method of a foreign trait implemented for the types it is given."""
import ir


class Resolver(ir.Builder):
    def __init__(self, F):
        self.F = F


class Fr(object):
    def __init__(self, tmap):
        self.tmap = tmap


def fns(b):
    """function records mentioned in a body (called or used as values) with the block and terminator they are called in"""
    def ops(o):
        if isinstance(o, dict):
            k = o.get('k')
            if isinstance(k, dict) and isinstance(k.get('fn'), dict):
                yield k['fn']
            else:
                for v in o.values():
                    for x in ops(v):
                        yield x
        elif isinstance(o, (list, tuple)):
            for v in o:
                for x in ops(v):
                    yield x
    for bl in b['blocks']:
        for s in bl['s']:
            for f in ops(s):
                yield f
        for f in ops(bl['t']):
            yield f


class Mono(object):
    def __init__(self, F, roots):
        self.F, self.R = F, Resolver(F)
        self.callers = {}
        self.roots = {(k, ()) for k in roots}
        self.by_trait = {}
        for im in F.impls:
            if im.get('trait'):
                self.by_trait.setdefault(im['trait'], []).append(im)
        self.foreign = [im for im in F.impls if im.get('trait') and im['trait'] not in F.traits]
        self.memo = {}
        work = list(self.roots)
        self.nodes = set(work)
        while work:
            n = work.pop()
            for m in self.edges(n):
                self.callers.setdefault(m, set()).add(n)
                if m not in self.nodes:
                    self.nodes.add(m)
                    work.append(m)

    def node(self, key, tmap):
        b = self.F.bodies.get(key)
        if b is None:
            return None
        return (key, tuple(sorted((n, self.canon(t)) for n, t in tmap.items())))

    def canon(self, t):
        return self.F.canon(t) if hasattr(self.F, 'canon') else t

    def edges(self, n):
        F, out = self.F, set()
        key, tm = n
        tmap = dict(tm)
        b = F.bodies[key]
        bodies = [b] + [F.bodies[c] for c in closures(F, key)]
        for x in bodies:
            for f in fns(x):
                g = self.R.subst_fn(f, Fr(tmap))
                k, m = self.R.resolve(g, None, None)
                if k is not None:
                    out.add(self.node(k, m))
                    continue
                args = [a for a in g.get('args', []) if isinstance(a, int)]
                if g.get('trait') in F.traits:
                    # receiver unknown: every implementation, and the default body
                    for im in self.by_trait.get(g['trait'], []):
                        for nm, kk in im['items']:
                            if nm == g['name']:
                                mm = {}
                                if args:
                                    F.unify(im['self'], args[0], mm)
                                out.add(self.node(kk, mm))
                    for nm, kk, has in F.traits[g['trait']]['items']:
                        if nm == g['name'] and has:
                            out.add(self.node(kk, dict(zip(F.items.get(kk, {}).get('generics', []), args))))
                else:
                    for a in args:
                        for t in F.walk(a):
                            out |= self.methods(t)
        out.discard(None)
        return out

    def methods(self, t):
        """methods of foreign traits implemented for a type"""
        if t not in self.memo:
            r = set()
            if self.F.types[t].get('k') != 'param':
                for im in self.foreign:
                    m = {}
                    if self.F.types[im['self']].get('k') != 'param' and self.F.unify(im['self'], t, m):
                        for nm, k in im['items']:
                            r.add(self.node(k, m))
            r.discard(None)
            self.memo[t] = r
        return self.memo[t]

    def show(self, n):
        return '%s%s' % (self.F.bodies[n[0]]['path'], '<%s>' % ', '.join('%s=%s' % (k, self.F.tstr(t)) for k, t in n[1]) if n[1] else '')


def closures(F, key):
    out, work = [], [key]
    while work:
        k = work.pop()
        for c in F.closures_of.get(k, []):
            if c not in out:
                out.append(c)
                work.append(c)
    return out
