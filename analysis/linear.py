"""Linear arithmetic over integers read off the program: proves p >= 0 from branch facts, ranges of loop variables, minima and maxima, by
eliminating unknowns (Fourier-Motzkin) from the facts and the negated goal. Every unknown is a non-negative machine integer."""
from vals import to_poly, subterms, mk, pp


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def rng(t):
    if t.op == 'agg' and t.args[0][0] == 'adt' and len(t.args) >= 2:
        n = str(t.args[0][1]).split('::')[-1]
        if n == 'Range':
            return t.args[1], t.args[2], 0
        if n == 'RangeInclusive':
            return t.args[1], t.args[2], 1
        if n == 'RangeFrom':
            return t.args[1], None, 0
    if t.op == 'call' and str(t.args[0]).endswith('RangeInclusive::new'):
        return t.args[2], t.args[3], 1
    return None


SUBSET = {'rev', 'skip', 'filter', 'step_by', 'into_iter', 'iter', 'into_par_iter', 'by_ref', 'skip_while', 'take_while', 'peekable', 'fuse', 'inspect', 'copied', 'cloned', 'take', 'collect', 'par_iter'}


def name(t):
    return str(t.args[0]).split('::')[-1] if t.op in ('call', 'mut') else None


def checked(a):
    """the checked operation an unwrapped value comes from"""
    for _ in range(4):
        if a.op == 'fld' or a.op == 'payload':
            a = a.args[0]
        elif a.op == 'call' and name(a) in ('checked_sub', 'checked_add') and len(a.args) == 4:
            return a
        else:
            return None


class Linear(object):
    def __init__(self, V, norm=None, signed=None):
        self.V, self.norm, self.memo = V, norm or (lambda t: None), {}

    def lin(self, t, d=0):
        """term as a linear form: {monomial: coefficient}"""
        if t in self.memo:
            return self.memo[t]
        out = {}
        for m, c in to_poly(t).items():
            if len(m) == 1 and d < 20:
                n = self.norm(m[0])
                if n is not None and n is not m[0]:
                    for k, v in self.lin(n, d + 1).items():
                        out = add(out, {k: c * v})
                    continue
            out = add(out, {m: c})
        self.memo[t] = out
        return out

    def base(self, t):
        """what an iterator goes over, advancing it ignored"""
        V = self.V
        seen, out, work = set(), set(), [t]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                work += list(V.phi_in.get(x, {}).values())
            elif x.op == 'mut' and name(x) in ('next', 'by_ref', 'next_back'):
                work.append(x.args[3 + x.args[2]])
            else:
                out.add(x)
        return out.pop() if len(out) == 1 else None

    def member(self, x, S, d=0):
        """constraints (>= 0) on x being a number out of the sequence S"""
        S = self.base(S)
        if S is None or d > 20:
            return []
        r = rng(S)
        if r:
            out = [add(self.lin(x), self.lin(r[0]), -1)]
            if r[1] is not None:
                out.append(add(add(self.lin(r[1]), self.lin(x), -1), {(): r[2] - 1}))
            return out
        if S.op == 'call' and name(S) in SUBSET and len(S.args) > 2:
            return self.member(x, S.args[2], d + 1)
        return []

    def index(self, x, S, d=0):
        """constraints on x being a position in the sequence S"""
        S = self.base(S)
        if S is None or d > 20:
            return []
        V = self.V
        out = []
        if S.op == 'call' and name(S) == 'take' and len(S.args) > 3:
            out.append(add(add(self.lin(S.args[3]), self.lin(x), -1), {(): -1}))
            return out + self.index(x, S.args[2], d + 1)
        if S.op == 'call' and name(S) in ('map', 'enumerate', 'rev', 'into_iter', 'iter', 'copied', 'cloned', 'inspect', 'by_ref', 'peekable', 'iter_mut', 'filter', 'skip', 'zip') and len(S.args) > 2:
            return self.index(x, S.args[2], d + 1) + (self.index(x, S.args[3], d + 1) if name(S) == 'zip' else [])
        r = rng(S)
        if r and r[1] is not None:
            return [add(add(add(self.lin(r[1]), self.lin(r[0]), -1), self.lin(x), -1), {(): r[2] - 1})]
        return [add(add(self.lin(V.length(S)), self.lin(x), -1), {(): -1})]

    def limits(self, site):
        """limits put on the positions a loop visits by take()"""
        V, out = self.V, []
        for e in V.live('call'):
            if e.site != site or not e.vals or e.name.split('::')[-1] not in ('next', 'for_each', 'map', 'fold', 'try_fold', 'find', 'any', 'all', 'position', 'filter_map', 'flat_map'):
                continue
            T, ls = self.base(e.vals[0]), []
            while T is not None and T.op == 'call' and len(T.args) > 2 and name(T) in ('take', 'enumerate', 'map', 'iter', 'into_iter', 'copied', 'cloned', 'by_ref', 'zip', 'inspect', 'iter_mut', 'peekable', 'fuse'):
                if name(T) == 'take':
                    ls.append(T.args[3])
                T = self.base(T.args[2])
            out.append(ls)
        return [l for l in out[0] if all(l in o for o in out)] if out else []

    def about(self, a):
        """constraints known of an unknown"""
        out = [{(a,): 1}]
        L = self.lin
        if a.op == 'elem':
            out += self.member(a, a.args[0])
        elif a.op == 'iidx':
            out += self.index(a, a.args[0])
            for l in self.limits(a.args[1]):
                out.append(add(add(L(l), L(a), -1), {(): -1}))
        elif a.op == 'fld' and a.args[0].op == 'elem' and a.args[1] == ('f', 0):
            S = self.base(a.args[0].args[0])
            T = S
            lims = []
            while T is not None and T.op == 'call' and name(T) in ('take', 'skip', 'rev', 'filter', 'map', 'into_iter', 'by_ref', 'step_by') and len(T.args) > 2:
                if name(T) == 'take':
                    lims.append(T.args[3])
                if name(T) in ('skip', 'rev', 'filter', 'step_by') or name(T) == 'map':
                    lims = []
                if name(T) == 'map':
                    T = None
                    break
                T = self.base(T.args[2])
            if T is not None and T.op == 'call' and name(T) == 'enumerate':
                for l in lims:
                    out.append(add(add(L(l), L(a), -1), {(): -1}))
                out += self.index(a, T.args[2])
        elif a.op == 'fld' and checked(a):
            c = checked(a)
            x = add(L(c.args[2]), L(c.args[3]), -1 if name(c) == 'checked_sub' else 1)
            out += [add(x, {(a,): 1}, -1), add({(a,): 1}, x, -1)]
        elif a.op == 'min':
            out += [add(L(x), {(a,): 1}, -1) for x in a.args]
        elif a.op == 'max':
            out += [add({(a,): 1}, L(x), -1) for x in a.args]
        elif a.op == 'bin' and a.args[0] == 'Div' and a.args[2].op == 'int' and a.args[2].args[0] > 0:
            c = a.args[2].args[0]
            x = L(a.args[1])
            out.append(add(x, {(a,): c}, -1))
            out.append(add(add({(a,): c}, {(): c - 1}), x, -1))
        elif a.op == 'bin' and a.args[0] == 'Div':
            out.append(add(L(a.args[1]), {(a,): 1}, -1))
        elif a.op == 'bin' and a.args[0] == 'Rem':
            out.append(add(L(a.args[1]), {(a,): 1}, -1))
            if a.args[2].op == 'int':
                out.append({(): a.args[2].args[0] - 1, (a,): -1})
        elif a.op == 'bin' and a.args[0] == 'BitAnd' and a.args[2].op == 'int':
            out.append({(): a.args[2].args[0], (a,): -1})
        elif a.op == 'call' and name(a) == 'saturating_sub' and len(a.args) == 4:
            out.append(add(add({(a,): 1}, L(a.args[2]), -1), L(a.args[3])))
        return out

    def facts(self, fs):
        """constraints from branch facts"""
        out = []
        for t, v in fs:
            if t.op == 'discr' and v in (0, 1) and t.args[0].op == 'call' and name(t.args[0]) == 'checked_sub' and len(t.args[0].args) == 4:
                d = add(self.lin(t.args[0].args[2]), self.lin(t.args[0].args[3]), -1)
                out.append(d if v else add({m: -c for m, c in d.items()}, {(): -1}))
                continue
            if t.op != 'bin' or v not in (0, 1):
                continue
            o, a, b = t.args
            d = add(self.lin(b), self.lin(a), -1)
            if o == 'Lt':
                out.append(add(d, {(): -1}) if v else {m: -c for m, c in d.items()})
            elif o == 'Le':
                out.append(d if v else add({m: -c for m, c in d.items()}, {(): -1}))
            elif o == 'Eq' and v or o == 'Ne' and not v:
                out += [d, {m: -c for m, c in d.items()}]
            elif o == 'Eq' and not v and (a.op == 'int' and a.args[0] == 0 or b.op == 'int' and b.args[0] == 0):
                out.append(add(d if a.op == 'int' else {m: -c for m, c in d.items()}, {(): -1}))
        return out

    def prove(self, p, fs=(), extra=(), limit=400):
        """p >= 0 ?"""
        if all(m == () for m in p):
            return p.get((), 0) >= 0
        known = self.facts(fs) + list(extra)
        goal = add({m: -c for m, c in p.items()}, {(): -1})
        atoms, cons, seen = [], [goal], set()
        for rounds in range(6):
            new = [a for c in cons for m in c for a in m if a not in seen]
            if not new and rounds:
                break
            for a in new:
                if a in seen:
                    continue
                seen.add(a)
                cons += self.about(a)
            for k in known:
                if k not in cons and any(a in seen for m in k for a in m):
                    cons.append(k)
        if self.contradiction(list(cons), limit):
            return True
        prods = {m for c in cons for m in c if len(m) > 1}
        return bool(prods) and self.contradiction(cons + [{m: 1} for m in prods], limit)

    def nonneg(self, t, fs=(), extra=()):
        return self.prove(self.lin(t), fs, extra)

    def less(self, a, b, fs=(), extra=()):
        """a < b ?"""
        return self.prove(add(add(self.lin(b), self.lin(a), -1), {(): -1}), fs, extra)

    def le(self, a, b, fs=(), extra=()):
        return self.prove(add(self.lin(b), self.lin(a), -1), fs, extra)

    @staticmethod
    def contradiction(cons, limit):
        uniq = {}

        def put(c):
            c = {m: v for m, v in c.items() if v}
            if all(m == () for m in c):
                return c.get((), 0) < 0
            uniq.setdefault(tuple(sorted(((tuple(x.id for x in m), v) for m, v in c.items()))), c)
            return False
        for c in cons:
            if put(c):
                return True
        while uniq:
            cs = list(uniq.values())
            ms = {}
            for c in cs:
                for m, v in c.items():
                    if m != ():
                        x = ms.setdefault(m, [0, 0])
                        x[v > 0] += 1
            m = min(ms, key=lambda k: (ms[k][0] * ms[k][1], tuple(x.id for x in k)))
            pos = [c for c in cs if c.get(m, 0) > 0]
            neg = [c for c in cs if c.get(m, 0) < 0]
            uniq = {}
            for c in cs:
                if not c.get(m):
                    if put(c):
                        return True
            for a in pos:
                for b in neg:
                    c = add({k: v * -b[m] for k, v in a.items()}, {k: v * a[m] for k, v in b.items()})
                    if put(c):
                        return True
            if len(uniq) > limit:
                return False
        return False
