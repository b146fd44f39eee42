"""Shared context of the rules."""
import multiprocessing, os
import build, mir, ir, vals
from vals import mk, pp, subterms, contains, INT


def relspan(sp):
    return sp if isinstance(sp, str) else str(sp)


_job = {}


def _work(i):
    ctx, items, fn = _job['v']
    ctx.obs, ctx.assumptions, ctx.floors = [], [], []
    ctx.stats = {}
    r = fn(ctx, items[i])
    ctx._v.clear()
    return i, (r, ctx.obs, {k: v for k, v in ctx.stats.items() if isinstance(v, (int, float))}, ctx.assumptions, ctx.floors)


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs, self.floors, self.assumptions = [], [], []
        self.stats = {}
        self._facts, self._v = {}, {}

    # ---------------------------------------------------------------- program
    def F(self, cfg):
        if cfg not in self._facts:
            F = mir.Facts(build.facts(cfg))
            self._facts[cfg] = F
            self.stats.setdefault('functions[%s]' % cfg, len(F.bodies))
        return self._facts[cfg]

    def V(self, cfg, key, inline=None, tag=None, tmap=None):
        k = (cfg, key, tag)
        if k not in self._v:
            B = ir.Builder(self.F(cfg), key, inline=inline, tmap=tmap)
            self._v[k] = vals.Vals(B.ir)
            self.stats['inlined graphs'] = self.stats.get('inlined graphs', 0) + 1
            self.stats['basic blocks'] = self.stats.get('basic blocks', 0) + len(B.ir.blocks)
        return self._v[k]

    def find(self, cfg, pred):
        F = self.F(cfg)
        return [k for k, b in F.bodies.items() if pred(b)]

    def method(self, cfg, adt, name, trait=None):
        """keys of methods `name` implemented on ADT path suffix adt (inherent, or of a trait)"""
        F = self.F(cfg)
        out = []
        for im in F.impls:
            t = F.types[im['self']]
            while t.get('k') == 'ref':
                t = F.types[t['t']]
            p = t.get('path', '')
            if not (p == adt or p.endswith('::' + adt)):
                continue
            if trait is None and im.get('trait'):
                pass
            if trait is not None and not (im.get('trait') or '').endswith(trait):
                continue
            for n, k in im['items']:
                if n == name and k in F.bodies:
                    out.append(k)
        return out

    # ---------------------------------------------------------------- results
    def ob(self, rule, ok, key, where='', detail=''):
        self.obs.append({'rule': rule, 'ok': bool(ok), 'key': key, 'where': where, 'detail': detail})
        return ok

    def floor(self, name, count, least):
        """fail closed: the rule must have found at least as many instances as were confirmed by hand"""
        self.floors.append({'name': name, 'count': count, 'least': least})
        if count < least:
            self.ob('instance floor', False, 'floor:' + name, '', 'only %d instances of "%s" found, at least %d expected: the code the rule is about is gone' % (count, name, least))

    def pmap(self, items, fn, weight=None):
        """fn(ctx, item) for every item, in forked worker processes; their obligations and counts are merged in item order"""
        items = list(items)
        order = sorted(range(len(items)), key=lambda i: -(weight(items[i]) if weight else 0))
        n = min(int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 1), len(items))
        if n <= 1:
            return [fn(self, x) for x in items]
        _job['v'] = (self, items, fn)
        with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=4) as pool:
            got = dict(pool.imap_unordered(_work, order, chunksize=1))
        out = []
        for i in range(len(items)):
            r, obs, st, asm, fl = got[i]
            self.obs += obs
            self.floors += fl
            for a in asm:
                self.assume(a)
            for k, v in st.items():
                self.stats[k] = self.stats.get(k, 0) + v
            out.append(r)
        return out

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


# -------------------------------------------------------------------- helpers
def pubroots(F):
    """functions that users can call: bodies with public reach, not closures"""
    return [k for k, b in F.bodies.items() if b['kind'] != 'Closure' and b.get('reach')]


def resolver(F):
    """function record of a call or function value -> keys of the local bodies it may run (unresolved trait methods = all impls)"""
    if hasattr(F, '_fnrefs'):
        return F._fnrefs
    tr = {}
    for im in F.impls:
        if im.get('trait'):
            for n, k in im['items']:
                tr.setdefault((im['trait'], n), []).append(k)
    for t in F.traits.values():
        for n, k, has in t['items']:
            if has:
                tr.setdefault((t['path'], n), []).append(k)

    def fnrefs(f):
        out = []
        if 'res' in f and f['res'].get('local'):
            out.append(f['res']['key'])
        elif f.get('local') and not f.get('trait'):
            out.append(f['key'])
        if f.get('trait') and not ('res' in f and f['res'].get('local')):
            out += tr.get((f['trait'], f['name']), [])
            # blanket conversions
            if f['trait'] == 'std::convert::Into':
                out += tr.get(('std::convert::From', 'from'), [])
            if f['trait'] == 'std::iter::Iterator' and f['name'] == 'collect':
                out += tr.get(('std::iter::FromIterator', 'from_iter'), [])
        return out
    F._fnrefs = fnrefs
    return fnrefs


def callgraph(F):
    """conservative call graph over raw bodies: key -> set of keys (closures of a function included)"""
    if hasattr(F, '_cg'):
        return F._cg
    fnrefs = resolver(F)
    cg = {}
    for k, b in F.bodies.items():
        s = set(F.closures_of.get(k, []))
        tys = set()
        for l in b['locals']:
            tys.add(l)

        def op(o):
            if 'k' in o and 'fn' in o['k']:
                s.update(fnrefs(o['k']['fn']))
        for bl in b['blocks']:
            for st in bl['s']:
                if st[0] == '=':
                    for x in st[2][1:]:
                        if isinstance(x, dict):
                            op(x)
                        elif isinstance(x, list):
                            for y in x:
                                if isinstance(y, dict):
                                    op(y)
            t = bl['t']
            if t['t'] == 'call':
                op(t['f'])
                for a in t['a']:
                    op(a)
        for t in tys:
            r = F.types[t]
            if r.get('k') == 'fndef':
                s.update(fnrefs(r['fn']))
        cg[k] = {x for x in s if x in F.bodies}
    F._cg = cg
    return cg


def reachable(F, roots):
    cg = callgraph(F)
    seen, st = set(roots), list(roots)
    while st:
        for x in cg.get(st.pop(), ()):
            if x not in seen:
                seen.add(x)
                st.append(x)
    return seen


def roots(F):
    """entry points of a crate: exported functions; in a cdylib (no exported functions of interest) every function nothing else in the crate calls"""
    exp = [k for k, b in F.bodies.items() if b['kind'] != 'Closure' and b.get('exported')]
    if F.crate == 'granne':
        return exp
    cg = callgraph(F)
    called = set()
    for k, s in cg.items():
        called |= {x for x in s if x != k}
    return [k for k, b in F.bodies.items() if b['kind'] != 'Closure' and (k not in called or b.get('exported'))]
