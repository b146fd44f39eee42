"""Dispatch rule over the Python bindings. In every function that compares a caller-supplied string with the documented element type names, each use
of a typed element representation (a call whose type arguments, receiver, arguments or result mention the angular, the 8-bit angular or the
summed-embeddings collection or vector) is shown to happen only where the branch facts say that the string equals exactly the name of that
representation; every documented name has such a use; and no path on which the string equals none of the names reaches a return with anything
but an error."""
from rules.common import term_type
from rules.flow import canon
from vals import mk, pp, subterms
from ir import succs

TECHNIQUE = 'dominating branch facts over string dispatch, with type reachability of the representation used'
NOTE = 'Which bytes a representation reads is the subject of C03-C06; here only that the name picks it.'

NAMES = {'angular': 'angular', 'angular_int': 'angular_int', 'embeddings': 'embeddings'}


def run(ctx):
    cfg = 'py'
    F = ctx.F(cfg)
    kinds = Kinds(F)
    fns = dispatchers(ctx, cfg, kinds)
    ctx.floor('functions that dispatch on the element type name', len(fns), 2)
    indexes = distances = 0
    for k in sorted(fns):
        i, d = dispatch(ctx, cfg, k, kinds)
        indexes += i
        distances += d
    ctx.floor('dispatches that make an index or builder', indexes, 2)
    ctx.floor('dispatches that compute a distance', distances, 1)


def own(b):
    return (b['span'] or '').startswith('py/')


def strings(x, out):
    """string constants of a body"""
    if isinstance(x, dict):
        if isinstance(x.get('str'), str):
            out.add(x['str'])
        for y in x.values():
            strings(y, out)
    elif isinstance(x, list):
        for y in x:
            strings(y, out)
    return out


def dispatchers(ctx, cfg, kinds):
    """functions that compare a string with the documented names (themselves or in a helper) and use the representations"""
    F = ctx.F(cfg)
    cands = {k for k, b in F.bodies.items() if own(b) and strings([b['blocks'], b.get('promoted')], set()) & {'angular', 'angular_int'}}
    out, seen = set(), set()
    while cands:
        k = cands.pop()
        if k in seen:
            continue
        seen.add(k)
        b = F.bodies[k]
        up = b.get('root') if b['kind'] == 'Closure' else None
        V = view(ctx, cfg, k)
        compares = any(name_eq(c) and name_eq(c)[1] in NAMES for c in V.cond.values())
        if not compares:
            continue
        if up is None and any(uses(F, kinds, e)[0] for e in V.live('call')):
            out.add(k)
            continue
        # a helper that only reads the name: its callers dispatch
        if up is not None:
            cands.add(up)
        for c, cb in F.bodies.items():
            if own(cb) and c != k and any(bl['t'].get('t') == 'call' and 'k' in bl['t']['f'] and target(bl['t']['f']['k'].get('fn')) == k for bl in cb['blocks']):
                cands.add(c)
    return out


def target(fn):
    return ((fn or {}).get('res') or fn or {}).get('key')


def view(ctx, cfg, k):
    return ctx.V(cfg, k, inline=lambda key, body, fr: own(body) and not (body.get('impl_trait') and body['kind'] != 'Closure' and 'FromStr' not in str(body.get('impl_trait')) and 'From' not in str(body.get('impl_trait'))), tag='c29')


def uses(F, kinds, e):
    tys = list(e.tys or [])
    if isinstance(e.fn, dict):
        tys += [a for a in (e.fn.get('args') or []) if isinstance(a, int)]
    ks, idx = set(), False
    for t in tys:
        ks |= kinds.of(t)
        idx = idx or bool(kinds.of(t)) and kinds.index(t)
    return ks, idx


class Kinds(object):
    def __init__(self, F):
        self.F = F
        self.memo = {}

    def of(self, t):
        """representations a type mentions (struct fields looked through for structs of the bindings)"""
        if t is None:
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        out = set()
        F = self.F
        for x in F.walk(t):
            d = F.types[x]
            if d.get('k') != 'adt':
                continue
            p = d.get('path') or ''
            last = p.split('::')[-1]
            mod = p.split('::')[-2:-1]
            if last in ('Vector', 'Vectors') and mod in (['angular'], ['angular_int']):
                out.add(mod[0])
            elif last == 'SumEmbeddings':
                out.add('embeddings')
            elif p in F.adt_by_path and F.adt_by_path[p].get('span', '').startswith('py/'):
                for v in F.adt_by_path[p]['vs']:
                    for f in v['fs']:
                        out |= self.of(f['t'])
        self.memo[t] = frozenset(out)
        return self.memo[t]

    def index(self, t):
        return t is not None and any((self.F.types[x].get('path') or '').split('::')[-1] in ('Granne', 'GranneBuilder') for x in self.F.walk(t))


def name_eq(t):
    """(subject, constant) if t is the comparison of a string with a constant"""
    if t.op == 'call' and t.args[0].split('::')[-1] in ('eq', 'eq_ignore_ascii_case') and len(t.args) == 4:
        for a, c in ((t.args[2], t.args[3]), (t.args[3], t.args[2])):
            if c.op == 'str':
                return a, c.args[0]
    if t.op == 'bin' and t.args[0] == 'Eq':
        for a, c in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if c.op == 'str':
                return a, c.args[0]
    return None


def from_arg(t):
    return any(x.op == 'arg' for x in subterms(t))


def fact_names(V, t, v, depth=0):
    """the names a fact leaves possible, or None"""
    q = name_eq(t)
    if q is not None and v == 1 and from_arg(q[0]):
        return {q[1]}
    if t.op == 'discr' and depth < 6:
        return variant_names(V, t.args[0], v, depth)
    if t.op in ('fld', 'phi', 'payload') and depth < 6:
        return variant_names(V, t, v, depth, True)
    if t.op == 'bin' and t.args[0] == 'Eq' and v == 1 and depth < 6:
        for x, c in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if c.op == 'int' and x.op in ('fld', 'phi', 'payload'):
                return variant_names(V, x, c.args[0], depth, True)
    return None


def variant_names(V, x, v, depth, whole=False):
    """names under which the value x has variant v (is v, if whole)"""
    path = []
    while x.op == 'fld' and x.args[1][0] in ('d', 'f'):
        path.insert(0, x.args[1])
        x = x.args[0]
    x = canon(V, x)
    if x.op != 'phi':
        return None
    out = set()
    for p, y in V.phi_in.get(x, {}).items():
        if y is x:
            continue
        z = y
        bad = False
        for el in path:
            if el[0] == 'd':
                if z.op == 'agg' and z.args[0][0] == 'adt' and z.args[0][2] != el[1]:
                    bad = True
                    break
                continue
            z = V.proj(z, el)
        if bad:
            continue
        if not whole and z.op == 'agg' and z.args[0][0] == 'adt' and z.args[0][2] != v or whole and z.op == 'int' and z.args[0] != v:
            continue
        r = names_on(V, p, x.args[0], depth + 1)
        if r is None:
            if z.op not in ('agg', 'int'):
                r = variant_names(V, z, v, depth + 1, whole)
            if r is None:
                return None
        out |= r
    return out


def names_of_facts(V, fs, depth=0):
    best = None
    for t, v in fs:
        r = fact_names(V, t, v, depth)
        if r is not None:
            best = r if best is None else best & r
    return best


def names_on(V, p, s, depth=0):
    return names_of_facts(V, set(V.facts(p)) | set(V.edge_facts(p, s)[0]), depth)


def dispatch(ctx, cfg, k, kinds):
    F = ctx.F(cfg)
    b = F.bodies[k]
    V = view(ctx, cfg, k)
    where = b['path']
    used, idx = {}, False
    n = 0
    for e in V.live('call'):
        ks, i = uses(F, kinds, e)
        idx = idx or i
        if not ks:
            continue
        n += 1
        names = names_of_facts(V, V.facts(e.block))
        bad = names is None or len(names) != 1 or {NAMES.get(x) for x in names} != ks
        ctx.ob('a representation is used only under its name', not bad, '%s: %s for %s' % (where, '/'.join(sorted(ks)), '/'.join(sorted(names)) if names else 'other names'), e.sp, '%s uses %s where the name is %s' % (e.name, '/'.join(sorted(ks)), '/'.join(sorted(names)) if names else 'not known'))
        if not bad:
            used.setdefault(names.pop(), set()).update(ks)
    ctx.stat('typed uses', n)
    want = {'angular', 'angular_int'} | ({'embeddings'} if idx else set())
    for w in sorted(want):
        ctx.ob('every documented name is supported', w in used, '%s: name %s' % (where, w), b['span'], 'used' if w in used else 'no representation is used under this name')
    # unknown names
    for e in V.live('return'):
        hit = unknown(V, e)
        ctx.ob('an unknown name is rejected', hit is None, '%s: unknown name' % where, e.sp, 'no return without a name' if hit is None else 'returns %s although the name is none of the documented ones' % pp(hit)[:100])
    return (1, 0) if idx else (0, 1)


def failed(t):
    if t.op == 'agg' and t.args[0][0] == 'adt' and t.args[0][1].split('::')[-1] == 'Result':
        return t.args[0][2] == 1
    return t.op == 'call' and t.args[0].split('::')[-1] == 'from_residual'


def unknown(V, e):
    """a value returned on a path on which the name equals none of the documented ones, or None"""
    pred = {}
    for i, B in enumerate(V.ir.blocks):
        if i not in V.dead:
            for s in succs(B.t):
                pred.setdefault(s, []).append(i)
    seen, work = set(), [(e.block, e.val)]
    while work:
        b, t = work.pop()
        if (b, t) in seen:
            continue
        seen.add((b, t))
        if failed(t):
            continue
        if b == V.ir.entry:
            return t
        for p in pred.get(b, []):
            fs, live = V.edge_facts(p, b)
            if not live or names_of_facts(V, fs):
                continue
            x = V.phi_in[t].get(p, t) if t.op == 'phi' and t.args[0] == b and t in V.phi_in else t
            work.append((p, x))
    return None
