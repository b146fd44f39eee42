"""operations that reorder an index: shared by C19 (one permutation) and C20 (checks first, any number of layers)"""
import lib
from linear import Linear, rng, name
from rules.common import field
from rules.inserting import last
from rules.searching import inputs, mutated, event_of
from vals import mk, pp, subterms, INT

A1 = mk('arg', 1)


def heap_user(F, b):
    """the graph search itself: it drives a heap"""
    for bl in b['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'fn' in (t['f'].get('k') or {}):
            p = t['f']['k']['fn']['path']
            if 'BinaryHeap' in p and p.split('::')[-1] in ('push', 'pop'):
                return True
    return False


def inline(F):
    def self_name(b):
        t = b.get('self_ty')
        if not isinstance(t, int):
            return ''
        r = F.types[F.peel(t)]
        return r.get('path', '') if r.get('k') == 'adt' else ''

    def f(key, b, fr):
        if b['kind'] == 'Closure':
            return True
        if b.get('impl_trait') or heap_user(F, b):
            return False
        s = self_name(b)
        if 'slice_vector' in s or 'max_size_heap' in s or s.startswith('elements'):
            return False
        if s.endswith('Layers'):
            # the vocabulary of layers is kept; anything that gets a permutation is looked into
            return any(is_list(F, t) for t in b['ins'])
        if s.endswith('::Granne') and b['name'] in ('get_element', 'get_elements'):
            return False
        return True
    return f


def is_list(F, t):
    r = F.types[F.peel(t)]
    return r.get('k') in ('slice',) or r.get('k') == 'adt' and r['path'].endswith('::Vec')


def permutes(b):
    for bl in b['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'fn' in (t['f'].get('k') or {}):
            fn = t['f']['k']['fn']
            if (fn.get('trait') or '').split('::')[-1] == 'Permutable':
                return True
    return False


def roots(ctx, cfg):
    """public functions through which an index is reordered"""
    F = ctx.F(cfg)
    users = {k for k, b in F.bodies.items() if permutes(b)}
    out = []
    for k in lib.roots(F):
        b = F.bodies[k]
        if b['kind'] == 'Closure' or not isinstance(b.get('self_ty'), int) or b.get('impl_trait') or not b['argnames'] or b['argnames'][0] != 'self':
            continue
        p = F.types[F.peel(b['self_ty'])].get('path', '')
        if p in F.adt_by_path and users & set(lib.reachable(F, [k])):
            out.append(k)
    return out


def view(ctx, cfg, k):
    F = ctx.F(cfg)
    return ctx.V(cfg, k, inline=inline(F), tag='reorder')


def fields(F, b):
    """(elements field, layers field) of the index type"""
    a = F.adt_by_path[F.types[F.peel(b['self_ty'])]['path']]['vs'][0]['fs']
    e = [i for i, f in enumerate(a) if F.types[f['t']].get('k') == 'param']
    l = [i for i, f in enumerate(a) if F.types[f['t']].get('k') == 'adt' and 'ayers' in F.types[f['t']]['path']]
    return (e + [None])[0], (l + [None])[0]


def is_permute(e):
    return e.fn is not None and (e.fn.get('trait') or '').split('::')[-1] == 'Permutable'


class Sizes(object):
    """recognises the number of layers, the sizes of layers and of the element collection"""

    def __init__(self, V, ef, lf):
        self.V = V
        self.E, self.L = mk('fld', A1, ('f', ef)), mk('fld', A1, ('f', lf))
        self.N = mk('call', 'Index::num_layers', None, A1)
        self.TOTAL = mk('call', 'Index::len', None, A1)
        self.linear = Linear(V, self.norm)

    def layers(self, t):
        """is t the layers of the index (loaded or not, as a list or wrapped)?"""
        for _ in range(10):
            if t is self.L:
                return True
            if t.op == 'payload' or t.op == 'fld' and t.args[1][0] in ('f', 'd'):
                t = t.args[0]
            elif t.op == 'call' and name(t) in ('load', 'borrow', 'deref', 'as_ref', 'iter', 'into_iter') and len(t.args) > 2:
                t = t.args[2]
            else:
                return False
        return False

    def norm(self, t):
        V = self.V
        if t.op == 'call' and name(t) == 'len' and len(t.args) == 3 and (self.layers(t.args[2])):
            return self.N
        if t.op == 'len' and self.layers(t.args[0]):
            return self.N
        if t.op == 'len':
            n = self.seqlen(t.args[0])
            if n is not None:
                return n
        if t.op == 'phi':
            xs = {self.norm(x) or x for x in inputs(V, t)}
            if len(xs) == 1:
                return xs.pop()
        return None

    def seqlen(self, t, d=0):
        """length of a list that was collected from a sequence of known length"""
        if d > 10:
            return None
        if t.op == 'call' and name(t) in ('map', 'collect', 'into_iter', 'iter', 'enumerate', 'rev', 'into_par_iter', 'copied', 'cloned') and len(t.args) > 2:
            return self.seqlen(t.args[2], d + 1)
        r = rng(t)
        if r and r[1] is not None and not r[2] and r[0].op == 'int' and r[0].args[0] == 0:
            return r[1]
        if t.op == 'agg' and t.args[0][0] == 'array':
            return INT(len(t.args) - 1)
        if t.op == 'repeat' and len(t.args) > 1 and t.args[1].op == 'int':
            return t.args[1]
        if self.layers(t):
            return self.N
        return None

    def layer_number(self, e):
        """the layer a call asks about"""
        n = last(e.name)
        if n in ('layer_len', 'get_neighbors') and len(e.vals) > 1 and e.vals[0] is A1:
            return e.vals[1 if n == 'layer_len' else 2]
        if n == 'as_graph' and len(e.vals) > 1 and self.layers(e.vals[0]):
            return e.vals[1]
        if n in ('index', 'Index::index') and len(e.vals) > 1 and self.layers(e.vals[0]):
            return e.vals[1]
        return None

    def lens(self, t):
        """the layer whose length t is, or None"""
        V = self.V
        if t.op == 'call' and name(t) == 'layer_len' and len(t.args) > 3 and t.args[2] is A1:
            return t.args[3]
        if t.op == 'call' and name(t) == 'len' and len(t.args) == 3:
            g = t.args[2]
            if g.op == 'call' and name(g) == 'as_graph' and self.layers(g.args[2]):
                return g.args[3]
            if g.op == 'fld' and g.args[1][0] == 'i' and self.layers(g.args[0]):
                return g.args[1][1]
        if t.op == 'fld' and t.args[1][0] == 'i' and t.args[0].op == 'call' and name(t.args[0]) in ('map', 'collect'):
            m = t.args[0]
            while m.op == 'call' and name(m) in ('collect', 'into_iter', 'iter') and len(m.args) > 2:
                m = m.args[2]
            if m.op == 'call' and name(m) == 'map' and len(m.args) > 3 and m.args[3].op == 'cloret':
                r = rng(m.args[2])
                x = self.lens(m.args[3].args[1])
                if r and r[0] is INT(0) and x is not None and x is mk('elem', m.args[2], m.args[1]):
                    return t.args[1][1]
        return None
