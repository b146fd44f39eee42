"""Exact arithmetic over non-negative integer quantities taken from the program: polynomials over opaque atoms, integer division kept
symbolic, and minima kept as sets ("min of these polynomials"). Enough to decide that consecutive sub-ranges are contiguous."""
from vals import Term, INT, to_poly, from_poly, padd, pmul, binop, mk, subterms

ZERO = {}


def paddd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def pmuld(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def key(p):
    return tuple(sorted(((tuple(x.id for x in m), c) for m, c in p.items())))


class Min(object):
    """min of a set of polynomials (simplified under polynomials known to be non-negative)"""

    def __init__(self, ps, facts=()):
        d = {key(p): p for p in ps}
        ps = list(d.values())
        self.ps = [p for i, p in enumerate(ps) if not any(j != i and le(q, p, facts) and (not le(p, q, facts) or j < i) for j, q in enumerate(ps))]

    def __eq__(self, o):
        return o is not None and {key(p) for p in self.ps} == {key(p) for p in o.ps}

    def same(self, o, facts):
        return all(any(le(p, q, facts) for p in self.ps) for q in o.ps) and all(any(le(p, q, facts) for p in o.ps) for q in self.ps)


def le(p, q, facts=()):
    """p <= q"""
    d = paddd(q, p, -1)
    if nonneg(d) or any(nonneg(paddd(d, f, -1)) for f in facts):
        return True
    a, b = quot(p), quot(q)
    return a is not None and b is not None and a[1] is b[1] and le(to_poly(a[0]), to_poly(b[0]), facts)


def quot(p):
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0].op == 'bin' and m[0].args[0] == 'Div':
            return m[0].args[1], m[0].args[2]
    return None


def nonneg(p):
    """p >= 0 for all non-negative atom values (and n*ceil(l/n) >= l, n > l%n)"""
    for _ in range(4):
        if all(c >= 0 for c in p.values()):
            return True
        q = p
        for m, c in p.items():
            if c <= 0:
                continue
            for a in m:
                if a.op == 'ceil' and a.args[1] is not None:
                    l, n = a.args
                    rest = list(m)
                    rest.remove(a)
                    d = to_poly(n)
                    # the monomial must be n * ceil(l, n) * k
                    if len(d) == 1 and list(d.values()) == [1]:
                        nm = next(iter(d))
                        k = list(rest)
                        ok = True
                        for x in nm:
                            if x in k:
                                k.remove(x)
                            else:
                                ok = False
                        if ok:
                            km = {tuple(sorted(k, key=lambda x: x.id)): c}
                            q = paddd(paddd(p, {m: c}, -1), pmuld(km, to_poly(l)))
                            break
            if q is not p:
                break
        if q is p:
            # a divisor is larger than the remainder
            for m, c in p.items():
                if c < 0 and len(m) == 1 and m[0].op == 'bin' and m[0].args[0] == 'Rem':
                    q = paddd(paddd(p, {m: c}, -1), pmuld({(): c}, to_poly(m[0].args[2])))
                    break
        if q is p:
            return False
        p = q
    return all(c >= 0 for c in p.values())


def reduce(p):
    """n*(l/n) = l - l%n"""
    for _ in range(4):
        for m, c in list(p.items()):
            hit = None
            for a in m:
                if a.op == 'bin' and a.args[0] == 'Div':
                    n = to_poly(a.args[2])
                    if len(n) == 1 and list(n.values()) == [1]:
                        rest = list(m)
                        rest.remove(a)
                        if all(x in rest for x in next(iter(n))):
                            for x in next(iter(n)):
                                rest.remove(x)
                            hit = (a, rest)
                            break
            if hit:
                a, rest = hit
                l, n = a.args[1], a.args[2]
                p = paddd(p, {m: c}, -1)
                e = paddd(to_poly(l), {(binop('Rem', l, n, 'usize'),): 1}, -1)
                p = paddd(p, pmuld({tuple(sorted(rest, key=lambda x: x.id)): c}, e))
                break
        else:
            return p
    return p


def ceil(l, n):
    if n.op == 'int' and n.args[0] == 1:
        return l
    return mk('ceil', l, n)


class Eval(object):
    """evaluates integer terms into Min forms, under a substitution"""

    def __init__(self, V, sub=()):
        self.V, self.sub = V, dict(sub)
        self.memo = {}

    def atom(self, t):
        """a term with the substitution applied inside, as a polynomial"""
        if t in self.sub:
            return to_poly(self.sub[t])
        if t.op == 'bin' and t.args[0] in ('Div', 'Rem'):
            a, b = self.poly(t.args[1]), self.poly(t.args[2])
            if a is None or b is None:
                return {(t,): 1}
            n = from_poly(b)
            if t.args[0] == 'Div':
                l = paddd(paddd(a, b, -1), {(): 1})
                if self.ceilish(a, b):
                    return to_poly(ceil(from_poly(l), n))
                # (n*x)/n = x
                q = self.exact(a, b)
                if q is not None:
                    return q
            return to_poly(binop(t.args[0], from_poly(a), n, 'usize'))
        return {(t,): 1}

    def exact(self, a, b):
        if len(b) != 1 or list(b.values()) != [1]:
            return None
        bm = next(iter(b))
        out = {}
        for m, c in a.items():
            r = list(m)
            for x in bm:
                if x not in r:
                    return None
                r.remove(x)
            out[tuple(r)] = c
        return out

    def ceilish(self, a, b):
        """a = l + b - 1 with l free of the constant -1"""
        l = paddd(paddd(a, b, -1), {(): 1})
        return bool(b) and all(c >= 0 for c in l.values()) and any(m for m in l)

    def poly(self, t):
        m = self.ev(t)
        if m is None or len(m.ps) != 1:
            return None
        return m.ps[0]

    def ev(self, t, d=0):
        if d > 30:
            return None
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._ev(t, d)
        self.memo[t] = r
        return r

    def joined(self, t, d):
        """a join whose alternatives are all the same minimum, given what is known where each is chosen"""
        V = self.V
        ins = V.phi_in.get(t, {})
        if not ins or len(ins) > 4 or V.carried(t):
            return None
        al = []
        for p, x in ins.items():
            if x is t:
                return None
            e = self.ev(x, d + 1)
            if e is None:
                return None
            fs = []
            for c, v in set(V.facts(p)) | set(V.edge_facts(p, t.args[0])[0]):
                if c.op == 'bin' and c.args[0] in ('Lt', 'Le'):
                    a, b = self.poly(c.args[1]), self.poly(c.args[2])
                    if a is None or b is None:
                        continue
                    f = paddd(b, a, -1) if v else paddd(a, b, -1)
                    if (c.args[0] == 'Lt') == bool(v):
                        f = paddd(f, {(): 1}, -1)
                    fs.append(f)
            al.append((e, fs))
        cand = [e for e, _ in al] + [Min([p for e, _ in al for p in e.ps])]
        for c in cand:
            if all(c.same(e, fs) for e, fs in al):
                return c
        return None

    def _ev(self, t, d):
        if t in self.sub:
            return Min([to_poly(self.sub[t])])
        if t.op == 'int':
            return Min([to_poly(t)])
        if t.op == 'min':
            ps = []
            for x in t.args:
                e = self.ev(x, d + 1)
                if e is None:
                    return None
                ps += e.ps
            return Min(ps)
        if t.op == 'call' and str(t.args[0]).endswith('::div_ceil') and len(t.args) == 4:
            a, b = self.poly(t.args[2]), self.poly(t.args[3])
            if a is None or b is None:
                return None
            return Min([to_poly(ceil(from_poly(a), from_poly(b)))])
        if t.op == 'phi':
            r = self.joined(t, d)
            if r is not None:
                return r
        if t.op == 'poly':
            acc = [ZERO]
            for m, c in t.args[0]:
                prod = [{(): c}]
                for f in m:
                    e = self.ev(f, d + 1)
                    if e is None:
                        return None
                    if len(e.ps) > 1 and c < 0:
                        # minus a minimum: keep it whole
                        e = Min([{(minterm(e),): 1}])
                    prod = [reduce(pmuld(p, q)) for p in prod for q in e.ps]
                    if len(prod) > 16:
                        return None
                acc = [paddd(p, q) for p in acc for q in prod]
                if len(acc) > 16:
                    return None
            return Min([reduce(p) for p in acc])
        return Min([reduce(self.atom(t))])


def minterm(m):
    ts = sorted((from_poly(p) for p in m.ps), key=lambda x: x.id)
    return mk('min', *ts)
