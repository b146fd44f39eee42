"""The layout of a vector of slices in a file, from both sides. Reading: in every function of a vector type, the parts of its bytes that are
reinterpreted are cut out of the buffer at positions that are linear in the length field (the integer read from the first eight bytes);
all functions of a type take the same parts for the same purpose. Writing (ghost stream position, see C03): on every way to return
success, the first eight bytes written are the length field in the same byte order; with what was written there put in place of the
length field, the parts start and end exactly where reading looks for them; each part is the complete list of that purpose of the same
vector (or, in what writes a range, the members of one range, with the data between the first and last offset of that range and the
offsets reduced by the first); a value read from the length field is the value written. In what converts to another vector type: the
offsets are one for the start and one per slice, each the distance from the start of the data at which the slice written in the same
pass of the loop ends, and the loop visits every slice of the vector."""
import itertools
import lib
from stream import Stream, op
from linear import add, rng, Linear
from explore import Explore
from rules import flow, c03, layout
from rules.layout import good
from vals import mk, pp, to_poly, from_poly, subterms, INT

TECHNIQUE = 'agreement of sibling implementations: linear positions of parts cut out by readers against ghost stream positions of writers, over inlined MIR'
NOTE = 'Little-endian 64-bit targets. The bytes inside a part are copies of the list in memory (C06, C07 decide the extent and alignment of the reinterpretation); how a set of neighbours is coded into bytes is not part of this property.'
HDR = mk('hdr')
READ8 = {'from_le_bytes': 'le', 'from_ne_bytes': 'le', 'from_be_bytes': 'be'}
WRITE8 = {'to_le_bytes': 'le', 'to_ne_bytes': 'le', 'to_be_bytes': 'be'}


CONV = ('try_from', 'try_into', 'from', 'into', 'unwrap', 'expect', 'clone', 'to_owned')


def name(t):
    return t.args[0].split('::')[-1]


def vectors(F):
    """path of types that are either a memory map or lists in memory"""
    out = {}
    for p, a in F.adt_by_path.items():
        if len(a['vs']) == 2 and not p.startswith(('std::', 'core::', 'alloc::')):
            for i, v in enumerate(a['vs']):
                ts = [F.tstr(f['t']) or '' for f in v['fs']]
                if len(ts) == 1 and 'Mmap' in ts[0]:
                    out[p] = (i, 1 - i)
    return out


class Regions(object):
    """parts of a buffer, as linear forms in the length field"""
    def __init__(self, V):
        self.V = V
        self.L = Linear(V, self.norm)

    def norm(self, t):
        return HDR if self.header(t) else None

    def lin(self, t):
        """linear form in the length field"""
        out = {}
        for m, c in self.L.lin(t).items():
            m = tuple(sorted((HDR if a is HDR or self.header(a) else a for a in m), key=lambda x: x.id))
            out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}

    def header(self, t):
        """(byte order, what it was read from) of an integer read from the first eight bytes of something"""
        while t.op == 'cast':
            t = t.args[-1]
        if t.op != 'call':
            return None
        n = name(t)
        if n in READ8 and len(t.args) > 2:
            order = READ8[n]
        elif n in ('read_u64', 'get_u64_le') and len(t.args) > 2:
            order = 'be' if 'BigEndian' in t.args[0] else 'le'
        else:
            return None
        rs = set()
        for s in subterms(t.args[2]):
            if s.op == 'fld' and s.args[1][0] in ('i', 'f'):
                r = self.region(s)
                if r and r[2] is not None and not any(s is not o and o.op == 'fld' and s is o.args[0] and self.region(o) for o in subterms(t.args[2])):
                    rs.add((r[0], tuple(sorted(r[1].items(), key=str)), tuple(sorted(r[2].items(), key=str))))
        if len(rs) != 1:
            return None
        root, s, e = rs.pop()
        return (order, root) if s == () and e == (((), 8),) else None

    def region(self, t, d=0):
        """(buffer, start, end or None for its end)"""
        if d > 20:
            return None
        if t.op == 'call' and name(t) in ('as_ref', 'deref', 'as_slice', 'borrow') and len(t.args) > 2:
            return self.region(t.args[2], d + 1)
        if t.op == 'fld' and t.args[1][0] == 'i':
            x = self.region(t.args[0], d + 1)
            r = rng(t.args[1][1])
            if not x:
                return None
            q = t.args[1][1]
            if r:
                lo, hi = self.lin(r[0]), None if r[1] is None else add(self.lin(r[1]), {(): r[2]} if r[2] else {})
            elif q.op == 'agg' and str(q.args[0][1]).endswith('RangeTo') and len(q.args) > 1:
                lo, hi = {}, self.lin(q.args[1])
            elif q.op == 'agg' and str(q.args[0][1]).endswith('RangeFull'):
                lo, hi = {}, None
            else:
                return None
            return x[0], add(x[1], lo), add(x[1], hi) if hi is not None else x[2]
        if t.op == 'fld' and t.args[1][0] == 'f' and t.args[0].op == 'call' and name(t.args[0]) == 'split_at' and len(t.args[0].args) > 3:
            x = self.region(t.args[0].args[2], d + 1)
            if not x:
                return None
            at = add(x[1], self.lin(t.args[0].args[3]))
            return (x[0], x[1], at) if t.args[1][1] == 0 else (x[0], at, x[2])
        if t.op in ('arg',) or t.op == 'fld' and t.args[1][0] in ('d', 'f'):
            return t, {}, None
        if t.op == 'ref' and hasattr(t.args[1], 'op'):
            return self.region(t.args[1], d + 1)
        return None


def text(p):
    """a position for a report"""
    if p is None:
        return 'the end'
    return ' + '.join('*'.join([str(c)] * (c != 1 or not m) + ['length field' if a is HDR else pp(a, 3)[:60] for a in m]) for m, c in sorted(p.items(), key=lambda x: (len(x[0]), str(x)))) or '0'


def span(r):
    return '%s .. %s' % (text(r[0]), text(r[1]))


class Format(object):
    """what reading takes from where, for one type"""
    def __init__(self, path, file, mem):
        self.path, self.file, self.mem = path, file, mem
        self.parts, self.values, self.order = {}, set(), None


def peel(V, t, seen=None):
    """ways a list can have come about, with wrappers that only say who owns it taken off"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == 'phi':
        for x in V.phi_in.get(t, {}).values():
            for y in peel(V, x, seen):
                yield y
    elif t.op == 'ref' and len(t.args) > 1 and hasattr(t.args[1], 'op'):
        x = t.args[1]
        for e in t.args[2] if len(t.args) > 2 else ():
            x = V.proj(x, e)
        for y in peel(V, x, seen):
            yield y
    elif t.op == 'agg' and t.args[0][0] == 'adt' and len(t.args) == 2:
        for y in peel(V, t.args[1], seen):
            yield y
    elif t.op == 'call' and name(t) in ('deref', 'as_ref', 'as_slice', 'borrow', 'to_vec', 'into_owned', 'to_owned', 'clone', 'into') and len(t.args) > 2:
        for y in peel(V, t.args[2], seen):
            yield y
    elif t.op == 'fld' and t.args[1][0] in ('d', 'f') and t.args[0].op in ('phi',):
        b = t.args[0]
        for x in V.phi_in.get(b, {}).values():
            for y in peel(V, V.proj(x, t.args[1]), seen):
                yield y
    else:
        yield t


def cuts(R, t):
    """parts of a buffer a value is made from, other than through the length field"""
    out, work, seen = set(), list(peel(R.V, t)), set()
    while work:
        x = work.pop()
        if x in seen or not hasattr(x, 'op'):
            continue
        seen.add(x)
        if R.header(x):
            continue
        if x.op == 'call' and name(x) in ('as_ptr', 'as_mut_ptr') and len(x.args) > 2:
            r = R.region(x.args[2])
            if r:
                out.add((freeze(r[1]), freeze(r[2])))
                continue
        if x.op == 'fld':
            r = R.region(x)
            if r and (r[1] or r[2] is not None):
                out.add((freeze(r[1]), freeze(r[2])))
                continue
        if x.op == 'call' and name(x) in ('from_raw_parts', 'from_raw_parts_mut', 'read_unaligned'):
            work.append(x.args[2])
            continue
        if x.op == 'len':
            continue
        if x.op == 'phi':
            work += list(R.V.phi_in.get(x, {}).values())
        work += [a for a in x.args if hasattr(a, 'op')]
    return out


def freeze(p):
    return None if p is None else frozenset(p.items())


def thaw(p):
    return None if p is None else dict(p)


def methods(F, path):
    live = lib.reachable(F, lib.roots(F))
    for k, b in sorted(F.bodies.items()):
        if b['kind'] == 'Closure' or b.get('self_ty') is None or k not in live:
            continue
        if F.types[F.peel(b['self_ty'])].get('path') == path:
            yield k, b


def formats(ctx, cfg):
    F = ctx.F(cfg)
    out = {}
    for path, (file, mem) in sorted(vectors(F).items()):
        for k, b in methods(F, path):
            if len(b['ins']) != 1 or F.tstr(F.peel(b['ins'][0])) != '[u8]' or F.types[b['out']].get('path') != path:
                continue
            V = ctx.V(cfg, k)
            R = Regions(V)
            f = Format(path, file, mem)
            bad = []
            for ev in V.live('return'):
                rv = ev.val if ev.val is not None else ev.ret
                for r in peel_adt(V, rv, path):
                    if r is None:
                        bad.append('returns %s' % pp(rv, 3)[:200])
                        continue
                    for i, x in enumerate(r.args[1:]):
                        h = [R.header(y) for y in peel(V, x)]
                        if h and all(h):
                            f.values.add(i)
                            f.order = h[0][0]
                            continue
                        c = cuts(R, x)
                        if len(c) != 1:
                            bad.append('field %d is made from %d parts of the buffer' % (i, len(c)))
                            continue
                        f.parts.setdefault(i, set()).update(c)
                    for s in subterms(r):
                        if R.header(s):
                            f.order = R.header(s)[0]
            if any(len(c) != 1 for c in f.parts.values()):
                bad.append('a field is made from different parts')
            ctx.ob('a vector is read from parts of the buffer given by the length field', not bad and bool(f.parts) and f.order is not None, b['path'], b['span'],
                   '; '.join(bad) or ', '.join('%d: %s' % (i, '; '.join(span((thaw(s), thaw(e))) for s, e in c)) for i, c in sorted(f.parts.items())))
            if not bad and f.parts:
                f.parts = {i: list(c)[0] for i, c in f.parts.items()}
                f.generics = F.types[F.peel(b['self_ty'])].get('args', [])
                if path in out:
                    o = out[path]
                    ctx.ob('all ways to read a vector take the same parts', o.parts == f.parts and o.values == f.values and o.order == f.order, b['path'], b['span'], 'agree' if o.parts == f.parts else 'parts differ')
                out[path] = f
    return out


def peel_adt(V, t, path):
    """aggregates of the type a value can be (None: something else)"""
    if t.op == 'phi':
        return [y for x in V.phi_in.get(t, {}).values() for y in peel_adt(V, x, path)]
    return [t if t.op == 'agg' and t.args[0][0] == 'adt' and t.args[0][1] == path else None]


def instance(F, f, tid):
    """the format for given types of items"""
    h = {}
    for a, b in zip(f.generics, F.types[tid].get('args', [])):
        r = F.types[b]
        h[mk('sizeof', F.types[a]['s'])] = {(): r['size']} if 'size' in r else {(mk('sizeof', r['s']),): 1}

    def put(p):
        out = {}
        for m, c in thaw(p).items():
            t = {(): c}
            for a in m:
                t = times(t, h.get(a, {(a,): 1}))
            out = add(out, t)
        return out
    g = Format(f.path, f.file, f.mem)
    g.values, g.order, g.generics = f.values, f.order, f.generics
    g.parts = {i: (freeze(put(s)), None if e is None else freeze(put(e))) for i, (s, e) in f.parts.items()}
    return g


# ---------------------------------------------------------------- reading
def readers(ctx, cfg, fm):
    F = ctx.F(cfg)
    n = 0
    for path, f in sorted(fm.items()):
        want = set(f.parts.values())
        for k, b in methods(F, path):
            V = ctx.V(cfg, k)
            R = Regions(V)
            bad, got = set(), set()
            for e in V.live('call'):
                if e.name not in ('slice::as_ptr', 'slice::as_mut_ptr') or not e.vals:
                    continue
                r = R.region(e.vals[0])
                if r and (r[1] or r[2] is not None) and layout_root(F, V, r[0], f):
                    c = (freeze(r[1]), freeze(r[2]))
                    got.add(c)
                    if c not in want:
                        bad.add('takes %s' % span(r[1:]))
            for e in V.live('agg'):
                for t in [e.val] if e.val is not None else []:
                    bad |= misplaced(R, V, t, f)
            for ev in V.live('return'):
                bad |= misplaced(R, V, ev.val if ev.val is not None else ev.ret, f)
            if got:
                n += 1
                ctx.ob('every function takes the same parts of the bytes of a vector', not bad, b['path'], b['span'], '; '.join(sorted(bad)) or ', '.join(sorted(span((thaw(s), thaw(e))) for s, e in got)))
    return n


def layout_root(F, V, t, f):
    """are these the bytes of a vector: the argument of a function that reads one, or a map that is one"""
    return t.op in ('arg', 'call') or t.op == 'fld'


def misplaced(R, V, t, f):
    bad = set()
    if t is None:
        return bad
    for x in subterms(t):
        if x.op == 'agg' and x.args[0][0] == 'adt' and x.args[0][1] == f.path and x.args[0][2] == f.mem:
            for i, y in enumerate(x.args[1:]):
                for c in cuts(R, y):
                    if f.parts.get(i) != c:
                        bad.add('takes list %d from %s' % (i, span((thaw(c[0]), thaw(c[1])))))
    return bad


# ---------------------------------------------------------------- writing
class Op(object):
    """one write, or a loop of writes"""
    def __init__(self, kind, state, before, val=None, phi=None, counted=None):
        self.kind, self.state, self.before, self.val, self.phi, self.counted = kind, state, before, val, phi, counted


class Forms(Linear):
    """linear forms in which the factors of a product are rewritten too"""
    def lin(self, t, d=0):
        if t in self.memo:
            return self.memo[t]
        out = {}
        for m, c in to_poly(t).items():
            ns = [self.norm(a) for a in m] if d < 20 else []
            if not any(n is not None and n is not a for n, a in zip(ns, m)):
                out = add(out, {m: c})
                continue
            q = {(): c}
            for n, a in zip(ns, m):
                r = self.lin(n, d + 1) if n is not None and n is not a else {(a,): 1}
                q = times(q, r)
            out = add(out, q)
        self.memo[t] = out
        return out


def times(p, q):
    out = {}
    for x, u in p.items():
        for y, v in q.items():
            out = add(out, {tuple(sorted(x + y, key=lambda z: z.id)): u * v})
    return out


def cases(V):
    """the kinds of vector (file or memory) told apart where values are merged"""
    ts = set()
    for ph in V.phi_in:
        if ph.op != 'phi' or len(V.phi_in[ph]) < 2:
            continue
        for p in V.phi_in[ph]:
            if p == 'entry' or not V.edge_facts(p, ph.args[0])[1]:
                continue
            for t, v in list(V.edge_facts(p, ph.args[0])[0]) + list(V.facts(p)):
                if t.op == 'discr' and v in (0, 1) and not any(x.op not in ('arg', 'fld') for x in subterms(t.args[0])):
                    ts.add(t)
    ts = sorted(ts, key=lambda t: t.id)[:4]
    return [list(zip(ts, vs)) for vs in itertools.product((0, 1), repeat=len(ts))]


class Writer(object):
    def __init__(self, ctx, cfg, k, fm, F, assume=()):
        self.ctx, self.F, self.b, self.fm = ctx, F, F.bodies[k], fm
        # lists that are kept in a type of their own are followed by the methods called on them
        own = owners(F, fm)
        self.V = V = ctx.V(cfg, k, inline=lambda key, b, fr: not keeps(F, b, own), tag='c37')
        self.assume = list(assume)
        self.X = Explore(V, [V.ir.entry], assume=self.assume, from_entry=True) if self.assume else None
        self.S = Stream(V)
        self.S.L = Forms(V, self.norm)
        self.base_norm = Stream.norm.__get__(self.S)
        self.R = Regions(V)
        self.root = None
        for e in V.live('call'):
            if c03.is_stream_op(e):
                for a in e.args:
                    if a.op == 'ref' and a.args[1] in [mk('arg', i) for i in c03.mutparams(F, self.b)]:
                        self.root = a.args[1]

    def norm(self, t):
        # the length field, and lengths of parts, of a file
        h = self.R.header(t)
        if h:
            return mk('hdr', h[1])
        r = self.R.region(t.args[0]) if t.op == 'len' else None
        if r and (r[1] or r[2] is not None):
            r = (r[0],) + tuple(None if p is None else subst(p, {(mk('hdr', r[0]),): 1}) for p in r[1:])
            return from_poly(add(r[2] if r[2] is not None else {(mk('len', r[0]),): 1}, r[1], -1))
        if t.op == 'len' and t.args[0].op == 'phi':
            m = mapped(self.V, t.args[0])
            q = rng(m[0]) if m else None
            if q and q[1] is not None:
                return from_poly(add(add(self.S.L.lin(q[1]), self.S.L.lin(q[0]), -1), {(): q[2]} if q[2] else {}))
            if m and not q:
                return self.S.length(m[0]) or self.V.length(m[0])
        r = self.base_norm(t)
        if r is not None and r is not t:
            return r
        if self.X is not None:
            x = self.X.subst(t)
            if x is not t:
                return x
        # n whole items of size s are n items
        if t.op == 'bin' and t.args[0] == 'Div':
            p, q = self.S.L.lin(t.args[1]), self.S.L.lin(t.args[2])
            if len(q) == 1:
                (m, c), = q.items()
                if not m and c > 1 and p and all(x % c == 0 for x in p.values()):
                    return from_poly({x: y // c for x, y in p.items()})
                if len(m) == 1 and c == 1 and all(m[0] in x for x in p):
                    out = {}
                    for x, y in p.items():
                        l = list(x)
                        l.remove(m[0])
                        out[tuple(l)] = y
                    return from_poly(out)
        return None

    # the ways to get to a state: operations in order, how joins were entered, facts
    def ways(self, s, d=0):
        V, S = self.V, self.S
        o = op(s)
        if s is self.root or d > 60:
            return [([], {}, [])] if s is self.root else []
        if o:
            n, before, rest, i = o
            ws = self.ways(before, d + 1)
            if n in ('Write::flush', 'Write::by_ref', 'Seek::stream_position'):
                return ws
            kind = 'write' if n == 'Write::write_all' else 'seek' if n in ('Seek::seek', 'Seek::rewind') else 'counted' if n in S.counted else 'width' if n.split('::')[-1] in ('write_u64',) else None
            if kind is None:
                return []
            x = Op(kind, s, before, rest[0] if rest else None)
            return [(l + [x], j, f) for l, j, f in ws]
        if s.op == 'phi' and s.args[0] in S.heads:
            init, back = S.sides(s)
            if len(init) != 1:
                return []
            if not back:
                return [(l, dict(j, **{str(s.args[0]): init[0][0]}), f) for l, j, f in self.ways(init[0][1], d + 1)]
            x = Op('loop', s, init[0][1], phi=s)
            return [(l + [x], j, f) for l, j, f in self.ways(init[0][1], d + 1)]
        if s.op == 'phi':
            out = []
            for p, v in V.phi_in.get(s, {}).items():
                if p == 'entry' or not V.edge_facts(p, s.args[0])[1]:
                    continue
                out += [(l, dict(j, **{str(s.args[0]): p}), f + list(V.facts(p)) + list(V.edge_facts(p, s.args[0])[0])) for l, j, f in self.ways(v, d + 1)]
            return out
        return []

    def ends(self):
        V, S = self.V, self.S
        for ev in V.live('return'):
            rv = ev.val if ev.val is not None else ev.ret
            for r, s, fs in S.outcomes(rv, V.out[ev.block].get(self.root, self.root), ev.block):
                if good(V, r, fs) and self.possible(fs):
                    yield s, fs

    def possible(self, fs):
        return not any(t is u and v != w for t, v in fs for u, w in self.assume)

    # ------------------------------------------------------------ contents
    def source(self, t, f):
        """which list of the vector (or None) each way to get t leads to; with the range of members taken"""
        out = set()
        for y in peel(self.V, t):
            rg = ()
            while y.op == 'fld' and y.args[1][0] == 'i':
                r = rng(y.args[1][1])
                if not r:
                    break
                rg += ((r[0], r[1], r[2]),)
                base = y.args[0]
                ys = list(peel(self.V, base))
                if len(ys) > 1:
                    for z in ys:
                        out.add((self.field(z, f), rg))
                    y = None
                    break
                y = ys[0]
            if y is not None:
                out.add((self.field(y, f), rg))
        return out

    def field(self, t, f):
        path, x = [], t
        r = cuts(self.R, t) if t.op == 'call' and name(t) in ('from_raw_parts', 'from_raw_parts_mut') else None
        if r:
            hit = [i for i, c in f.parts.items() if r == {c}]
            return hit[0] if hit else None
        if self.R.header(t):
            return min(f.values) if f.values else None
        while x.op == 'fld' and x.args[1][0] in ('d', 'f'):
            path.append(x.args[1])
            x = x.args[0]
        if x.op != 'arg':
            return None
        path.reverse()
        for i, e in enumerate(path):
            if e == ('d', f.mem) and i + 1 < len(path):
                return path[i + 1][1]
        return None

    def raw(self, t):
        """(list, bytes) of a write of the memory of a list"""
        if t.op == 'call' and name(t) in ('from_raw_parts',) and len(t.args) > 3:
            p = t.args[2]
            while p.op in ('cast', 'ref') and hasattr(p.args[-1], 'op'):
                p = p.args[-1]
            if p.op == 'call' and name(p) in ('as_ptr', 'as_mut_ptr') and len(p.args) > 2:
                return p.args[2], t.args[3]
        return t, self.V.length(t)


def mapped(V, y):
    """(what is gone over, item, site) for a list of which each member is computed from one of another"""
    nodes = flow.tree(V, y)
    r = flow.flatten(V, nodes) if nodes is not None else None
    if r is None or len(r) != 1 or len(r[0][0]) != 1:
        return None
    (loops, item), = r
    return loops[0][1], item, loops[0][0]


def conv(t):
    """a number before it was converted"""
    while True:
        if t.op == 'fld' and t.args[1] in (('d', 0), ('f', 0)):
            t = t.args[0]
        elif t.op == 'call' and name(t) in CONV and len(t.args) > 2:
            t = t.args[2]
        elif t.op == 'cast':
            t = t.args[-1]
        else:
            return t


def numeric(S, t, d=0):
    """linear form of a number, conversions looked through"""
    out = {}
    for m, c in S.L.lin(conv(t)).items():
        if len(m) == 1 and d < 8 and conv(m[0]) is not m[0]:
            out = add(out, {k: c * v for k, v in numeric(S, m[0], d + 1).items()})
        else:
            out = add(out, {m: c})
    return out


def subst(p, h):
    """the form with h in place of the length field"""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for a in m:
            r = h if a is HDR else {(a,): 1}
            t = {tuple(sorted(x + y, key=lambda q: q.id)): u * v for x, u in t.items() for y, v in r.items()}
        out = add(out, t)
    return out


def keeps(F, b, own):
    st = b.get('self_ty')
    if st is None or F.types[F.peel(st)].get('path') not in own or not b['ins']:
        return False
    r = F.types[b['ins'][0]]
    return r.get('k') == 'ref' and bool(r.get('mut'))


def owners(F, fm):
    """types of the library in which a vector keeps one of its lists"""
    out = set()
    for path, f in fm.items():
        for fld in F.adt_by_path[path]['vs'][f.mem]['fs']:
            r = F.types[fld['t']]
            if r.get('k') == 'adt' and F.adt_by_path.get(r['path'], {}).get('key', '').startswith('granne::') and r['path'] not in fm:
                out.add(r['path'])
    return out


class Judge(object):
    """does what a function writes have the given format?"""
    def __init__(self, W, f, g):
        self.W, self.f, self.g = W, f, g
        self.V, self.S = W.V, W.S
        self.bad, self.notes, self.n = [], [], 0

    def same(self, p, fs):
        return self.S.same(p, fs)

    def run(self):
        W, S = self.W, self.S
        for s, fs in W.ends():
            ws = W.ways(s)
            if not ws:
                self.bad.append('the writes are not followed')
            for l, j, f2 in ws:
                if W.possible(f2):
                    self.n += 1
                    self.way(s, l, j, list(fs) + list(f2))
        return self

    def way(self, s, l, j, fs):
        W, S, V, f = self.W, self.S, self.V, self.f
        p0 = S.pos(W.root)
        ps = [x for x in l if x.kind in ('write', 'counted', 'loop', 'width')]
        if not ps or not self.same(add(S.pos(ps[0].before), p0, -1), fs):
            self.bad.append('nothing is written to the start')
            return
        x = ps[0]
        h = None
        if x.kind == 'width':
            h, order = x.val, 'be' if 'BigEndian' in x.state.args[0] else 'le'
        elif x.kind == 'write' and x.val.op == 'call' and name(x.val) in WRITE8 and len(x.val.args) > 2:
            h, order = x.val.args[2], WRITE8[name(x.val)]
        elif x.kind == 'write':
            y, n = W.raw(x.val)
            y = y.args[1] if y.op == 'ref' and hasattr(y.args[1], 'op') else y
            if y.op == 'agg' and y.args[0][0] == 'array' and len(y.args) == 2 and S.L.lin(n) == {(): 8}:
                h, order = y.args[1], 'le'
        if h is None or not self.same(add(add(S.pos(x.state), p0, -1), {(): 8}, -1), fs):
            self.bad.append('what is written first is not an integer of eight bytes')
            return
        if order != f.order:
            self.bad.append('the bytes of the length field are written in the opposite order')
        h = self.resolve(h, j)
        for i in sorted(f.values):
            src = {W.field(y, f) for y in peel(V, h)}
            if src != {i}:
                self.bad.append('the length field is %s, which is not what it is read as' % pp(h, 4)[:100])
        hl = S.L.lin(h)
        rest = ps[1:]
        content = {}
        for i, (ps_, pe) in sorted(f.parts.items()):
            at = add(p0, subst(thaw(ps_), hl))
            to = add(p0, subst(thaw(pe), hl)) if pe is not None else self.chosen(S.pos(s), j)
            got = []
            while True:
                nx = [y for y in rest if self.same(add(self.chosen(S.pos(y.before), j), at, -1), fs) and not (got and self.same(add(at, to, -1), fs))]
                if not nx:
                    break
                got.append(nx[0])
                rest.remove(nx[0])
                at = self.chosen(S.pos(nx[0].state), j)
            if not self.same(add(at, to, -1), fs):
                self.bad.append('list %d is read from %s, but %s' % (i, span((subst(thaw(ps_), hl), None if pe is None else subst(thaw(pe), hl))), 'what is written there ends at %s' % S.show(add(at, p0, -1)) if got else 'nothing is written there'))
            content[i] = got
        if rest:
            self.bad.append('%s is written where reading does not look for it' % ', '.join(pp(y.val, 3)[:80] if y.val is not None else 'a loop' for y in rest))
        if self.bad:
            return
        if f is self.g:
            self.members(content, fs, j)
        else:
            self.converted(content, fs, j, p0, hl)

    def resolve(self, t, j):
        """the value of a join on a way"""
        V, k = self.V, 0
        while t.op == 'phi' and str(t.args[0]) in j and k < 30:
            n = V.phi_in.get(t, {}).get(j[str(t.args[0])])
            if n is None:
                return t
            t, k = n, k + 1
        return t

    def chosen(self, p, j):
        """a position on a way"""
        for _ in range(20):
            for m in p:
                a = m[0] if len(m) == 1 else None
                if a is not None and a.op == 'pos' and self.resolve(a.args[0], j) is not a.args[0]:
                    break
            else:
                return p
            q = dict(p)
            c = q.pop(m)
            p = add(q, {k: c * v for k, v in self.S.pos(self.resolve(a.args[0], j)).items()})
        return p

    # the lists of the vector itself
    def members(self, content, fs, j):
        W, S, V, f = self.W, self.S, self.V, self.f
        whole, cut = {}, {}
        for i, xs in content.items():
            if len(xs) != 1:
                self.bad.append('list %d is written in %d pieces' % (i, len(xs)))
                return
            x = xs[0]
            if x.kind == 'write':
                y, n = W.raw(x.val)
                if not self.full(y, n):
                    self.bad.append('of list %d only %s bytes are written' % (i, pp(n, 4)[:80]))
                src = W.source(y, f)
                if len(src) == 1 and list(src)[0][0] == i:
                    r = list(src)[0][1]
                    if not r:
                        whole[i] = y
                        continue
                    if len(r) == 1:
                        cut[i] = ('range', r[0], y)
                        continue
                m = mapped(V, y)
                if m:
                    cut[i] = ('items',) + m
                    continue
                self.bad.append('where list %d is read from, %s is written' % (i, pp(y, 4)[:100]))
            elif x.kind == 'loop':
                m = self.passes(x.phi, fs)
                y = None if m else self.pieces(x.phi, fs)
                if y is not None and W.source(y, f) == {(i, ())}:
                    whole[i] = y
                elif m:
                    cut[i] = ('items',) + m
                else:
                    self.bad.append('the loop that writes list %d is not followed' % i)
            else:
                self.bad.append('where list %d is read from, something else is written' % i)
        if cut and not self.bad:
            self.cut(whole, cut)

    def full(self, y, n):
        """is n the number of bytes of all of y?"""
        S = self.S
        a, b = self.spread(S.L.lin(n)), self.spread(S.L.lin(self.V.length(y)))
        if not b:
            return not a
        if len(a) != len(b):
            return False
        # a is b times a size
        for m, c in a.items():
            for m2, c2 in b.items():
                size = list(m)
                if all(k in size for k in m2) and c % c2 == 0:
                    for k in m2:
                        size.remove(k)
                    q = {tuple(sorted(u + tuple(size), key=lambda z: z.id)): v * (c // c2) for u, v in b.items()}
                    if q == a and all(k.op == 'sizeof' for k in size):
                        return True
        return False

    def spread(self, p):
        """a form with lengths in products replaced by what they are"""
        out = {}
        for m, c in p.items():
            t = {(): c}
            for a in m:
                r = self.S.L.lin(a) if a.op == 'len' else {(a,): 1}
                t = {tuple(sorted(x + y, key=lambda q: q.id)): u * v for x, u in t.items() for y, v in r.items()}
            out = add(out, t)
        return out

    def passes(self, phi, fs):
        """the same for a loop that writes one item per pass"""
        V, S, W = self.V, self.S, self.W
        site, src = flow.loopsite(V, phi)
        if site is None or not self.exhausted(site, fs):
            return None
        items = set()
        for p, v in S.sides(phi)[1]:
            o = op(v)
            if not o or o[0] != 'Write::write_all' or o[1] is not phi:
                return None
            y, n = W.raw(o[2][0])
            if y.op == 'ref':
                y = y.args[1]
            if not (y.op == 'agg' and y.args[0][0] == 'array' and len(y.args) == 2) or not self.full(y, n):
                return None
            items.add(y.args[1])
        return (src, items.pop(), site) if len(items) == 1 else None

    def exhausted(self, site, fs):
        """was the loop left because there was nothing more to visit?"""
        cs = [e for e in self.V.live('call') if e.site == site]
        if not any(e.name in ('Iterator::next', 'DoubleEndedIterator::next_back') for e in cs):
            return bool(cs) and not any(e.name.split('::')[-1].startswith(('try_', 'find', 'any', 'all', 'position')) for e in cs)
        return any(t.op == 'discr' and v == 0 and t.args[0].op == 'call' and t.args[0].args[1] == site and name(t.args[0]) in ('next', 'next_back') for t, v in fs)

    def pieces(self, phi, fs):
        """the list of which the loop writes one piece after the other"""
        V, S, W = self.V, self.S, self.W
        site, src = flow.loopsite(V, phi)
        if site is None or not self.exhausted(site, fs):
            return None
        out = set()
        for p, v in S.sides(phi)[1]:
            o = op(v)
            if not o or o[0] != 'Write::write_all' or not self.unchanged(o[1], phi):
                return None
            y, n = W.raw(o[2][0])
            if y.op != 'elem' or y.args[1] != site or not self.full(y, n):
                return None
            out.add(y.args[0])
        c = flow.inorder(V, out.pop()) if len(out) == 1 else None
        return c.args[2] if c is not None and c.op == 'call' and name(c) == 'chunks' else None

    def cut(self, whole, cut):
        """a range: offsets lo ..= hi reduced by the first, and the data from there to the last"""
        V, S, W, f = self.V, self.S, self.W, self.f
        if whole:
            self.bad.append('of list %s all is written, of list %s a part' % (', '.join(map(str, whole)), ', '.join(map(str, cut))))
            return
        offs = [(i, c) for i, c in cut.items() if c[0] == 'items']
        data = [(i, c) for i, c in cut.items() if c[0] == 'range']
        if len(offs) != 1 or len(data) != 1:
            self.bad.append('a part of a vector is written, but the offsets are not made to start from zero')
            return
        (i, (_, src, item, site)), (k, (_, (a, b, inc), y)) = offs[0], data[0]
        num = numeric(S, item)
        mem = [m for m in num if len(m) == 1 and self.member(m[0], site) is not None]
        if len(mem) != 1 or num[mem[0]] != 1:
            self.bad.append('the offsets written are %s' % text(num)[:120])
            return
        less = {m: -c for m, c in num.items() if m != mem[0]}
        rs = self.bounds(mem[0][0], src, i)
        if rs is None:
            self.bad.append('the offsets written are not those of one range of slices')
            return
        lo, hi = rs
        first, last = self.offset(less, i), self.offset(numeric(S, a), i)
        if first is None or add(first, lo, -1):
            self.bad.append('the offsets are reduced by %s, not by the first offset of the range' % text(less)[:100])
        if last is None or add(last, lo, -1):
            self.bad.append('the data written starts at %s, not at the first offset of the range' % pp(a, 3)[:100])
        end = self.offset(numeric(S, b), i) if b is not None and not inc else None
        if end is None or add(end, hi, -1):
            self.bad.append('the data written ends at %s, not at the last offset of the range' % (pp(b, 3)[:100] if b is not None else 'its end'))

    def member(self, t, site):
        t = conv(t)
        if t.op == 'elem' and (t.args[1] == site or True):
            return t
        if t.op == 'fld' and t.args[1][0] == 'i' and t.args[1][1].op in ('elem', 'iidx'):
            return t
        return None

    def bounds(self, t, src, i):
        """(first, last) position of the members of list i gone over"""
        V, S, W = self.V, self.S, self.W
        t = conv(t)
        if t.op == 'elem':
            seq = flow.inorder(V, t.args[0])
            src2 = W.source(seq, self.f) if seq is not None else set()
            if {x[0] for x in src2} != {i} or len({x[1] for x in src2}) != 1:
                return None
            r = list(src2)[0][1]
            if len(r) != 1 or r[0][1] is None:
                return None
            lo, hi = S.L.lin(r[0][0]), add(S.L.lin(r[0][1]), {(): r[0][2] - 1} if r[0][2] != 1 else {})
            return lo, hi
        j = t.args[1][1]
        if {x[0] for x in W.source(t.args[0], self.f)} != {i}:
            return None
        r = rng(flow.inorder(V, j.args[0])) if j.op == 'elem' else None
        if not r or r[1] is None:
            return None
        return S.L.lin(r[0]), add(S.L.lin(r[1]), {(): r[2] - 1} if r[2] != 1 else {})

    def offset(self, p, i):
        """position in list i of the member p stands for"""
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c != 1 or len(m) != 1:
            return None
        t = conv(m[0])
        if t.op != 'fld' or t.args[1][0] != 'i' or {x for x in self.W.source(t.args[0], self.f)} != {(i, ())}:
            return None
        return self.S.L.lin(t.args[1][1])

    # slices of another type of vector
    def converted(self, content, fs, j, p0, hl):
        W, S, V, f = self.W, self.S, self.V, self.f
        table = [i for i, xs in content.items() if len(xs) == 1 and xs[0].kind == 'write' and self.table(xs[0].val, j) is not None]
        if len(table) != 1:
            self.bad.append('no table of offsets is written')
            return
        i = table[0]
        y, n = W.raw(content[i][0].val)
        if not self.full(y, n):
            self.bad.append('only a part of the table of offsets is written')
        O = self.table(content[i][0].val, j)
        data = [x for k, xs in content.items() if k != i for x in xs]
        start = None
        for k, (ps_, pe) in f.parts.items():
            if k != i:
                start = add(p0, subst(thaw(ps_), hl))
        if not data:
            if not self.starts(O):
                self.bad.append('without slices the table is not one offset of zero')
            if not self.none(fs):
                self.bad.append('slices are left out though there may be some')
            return
        if len(data) != 1 or data[0].kind != 'loop':
            self.bad.append('slices are not written in one loop')
            return
        ph = data[0].phi
        if O.op != 'phi' or O.args[0] != ph.args[0]:
            self.bad.append('the table of offsets is not made in the loop that writes the slices')
            return
        init, back = S.sides(O)
        if len(init) != 1 or not self.starts(init[0][1]):
            self.bad.append('the table does not start with one offset of zero')
        ins = V.phi_in[ph]
        for p, v in back:
            o = op(v)
            if not o or o[0].split('::')[-1] != 'push' or not self.unchanged(o[1], O) or len(o[2]) != 1:
                self.bad.append('a pass of the loop does not add exactly one offset')
                continue
            eq = S.invariants([ph])
            d = add(S.L.lin(o[2][0]), add(S.pos(ins[p]), start, -1), -1)
            ex = [e for q in eq for e in (q, {m: -c for m, c in q.items()})]
            if not S.same(d, V.facts(p), ex):
                self.bad.append('the offset added is %s, but the slice ends %s behind the start of the data' % (pp(o[2][0], 4)[:80], S.show(add(S.pos(ins[p]), start, -1))[:120]))
            if not any(x.kind in ('write', 'loop') for x in self.pass_ops(ins[p], ph)):
                self.bad.append('a pass of the loop writes nothing')
        site, src = flow.loopsite(V, ph)
        if not (site is not None and self.every(src, site) and self.exhausted(site, fs) or site is None and self.counted(ph, fs)):
            self.bad.append('the loop does not visit every slice of the vector')

    def none(self, fs):
        """do the facts say that there are no slices?"""
        V, W = self.V, self.W
        for t, v in fs:
            for x in subterms(t):
                if x.op not in ('phi', 'bin', 'len'):
                    continue
                ls = {y for y in peel(V, x) if y.op != 'int' or y.args[0]}
                if len(ls) == 1 and self.count(ls.pop()) and self.S.L.prove({(x,): -1}, [(t, v)]):
                    return True
        return False

    def counted(self, ph, fs):
        """a counter that starts from zero, grows by one each pass and has reached the number of slices"""
        V, S = self.V, self.S
        for i in V.phi_in:
            if i.op != 'phi' or i.args[0] != ph.args[0]:
                continue
            init, back = S.sides(i)
            if not init or not back or any(v is not INT(0) for _, v in init) or any(S.L.lin(v) != {(i,): 1, (): 1} for _, v in back):
                continue
            for t, v in fs:
                for x in subterms(t):
                    ls = {y for y in peel(V, x) if y.op != 'int' or y.args[0]} if x.op in ('phi', 'bin', 'len') and x is not i else ()
                    if len(ls) == 1 and self.count(ls.pop(), True) and S.L.prove({(i,): 1, (x,): -1}, [(t, v)]):
                        return True
        return False

    def count(self, t, slices=False):
        """the number of items, or of slices"""
        if t.op == 'bin' and t.args[0] == 'Div':
            t = t.args[1]
        elif slices:
            return False
        return t.op == 'len' and {y for y in self.W.source(t.args[0], self.g)} == {(min(self.g.parts), ())}

    def unchanged(self, t, O):
        """nothing happened to O on any way to here"""
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if x is O or x in seen:
                continue
            seen.add(x)
            if x.op != 'phi':
                return False
            work += list(self.V.phi_in.get(x, {}).values())
        return True

    def pass_ops(self, t, ph):
        out, k = [], 0
        while t is not ph and k < 100:
            o, k = op(t), k + 1
            if o:
                if o[0] == 'Write::write_all':
                    out.append(Op('write', t, o[1]))
                t = o[1]
            elif t.op == 'phi' and t.args[0] in self.S.heads:
                if not all(self.unchanged(v, t) for _, v in self.S.sides(t)[1]):
                    out.append(Op('loop', t, None))
                t = self.S.sides(t)[0][0][1]
            elif t.op == 'phi':
                # every way must write
                ws = [self.pass_ops(v, ph) for v in self.V.phi_in[t].values()]
                return out + (ws[0] if all(ws) else [])
            else:
                break
        return out

    def table(self, val, j):
        """the object that keeps the offsets whose memory is written"""
        y, n = self.W.raw(val)
        k = 0
        while k < 20:
            k += 1
            y = self.resolve(y, j)
            if y.op == 'ref' and hasattr(y.args[1], 'op'):
                x = y.args[1]
                for e in y.args[2] if len(y.args) > 2 else ():
                    x = self.V.proj(x, e)
                y = x
            elif y.op == 'fld' and y.args[1][0] in ('f', 'd'):
                b = self.resolve(y.args[0], j)
                if b is y.args[0] or b.op in ('mut', 'call', 'agg'):
                    y = b
                else:
                    y = self.V.proj(b, y.args[1])
            elif y.op == 'call' and name(y) in ('deref', 'as_ref', 'as_slice', 'borrow') and len(y.args) > 2:
                y = y.args[2]
            elif y.op == 'phi' or y.op == 'mut':
                return y if self.pushed(y) else None
            else:
                return None
        return None

    def pushed(self, t, d=0):
        if d > 6:
            return False
        o = op(t)
        if o:
            return o[0].split('::')[-1] == 'push' and str(o[0]).split('::')[0] not in ('Vec',)
        if t.op == 'phi':
            return any(self.pushed(v, d + 1) for v in self.V.phi_in.get(t, {}).values() if v is not t)
        return False

    def starts(self, t):
        """one offset of zero"""
        o = op(t)
        return bool(o) and o[0].split('::')[-1] == 'push' and len(o[2]) == 1 and self.S.L.lin(o[2][0]) == {} and (o[1].op in ('agg', 'call', 'empty'))

    def every(self, src, site):
        V, W = self.V, self.W
        s = flow.inorder(V, src)
        if s is None:
            return False
        r = rng(s)
        if r:
            n = r[1]
            return r[0] is INT(0) and not r[2] and n is not None
        if s.op == 'call' and name(s) in ('chunks', 'chunks_exact'):
            return {x for x in W.source(s.args[2], self.g)} == {(min(self.g.parts), ())}
        return False


def judge(Ws, f, g):
    """the same for every case"""
    j = Judge(Ws[0], f, g)
    for W in Ws:
        x = Judge(W, f, g).run()
        j.bad += x.bad
        j.n += x.n
    if not j.n:
        j.bad.append('no way to return success')
    return j


def kinds(F, b, fm):
    """vector types a function writes: its own, or those kept in it"""
    out, todo, seen = [], [F.peel(b['self_ty'])] if b.get('self_ty') is not None else [], set()
    d = 0
    while todo and d < 40:
        d += 1
        t = todo.pop()
        p = F.types[t].get('path')
        if F.types[t].get('k') != 'adt' or p in seen:
            continue
        seen.add(p)
        if p in fm:
            out.append((p, t))
            continue
        if p in F.adt_by_path and F.adt_by_path[p]['key'].startswith('granne::'):
            todo += [F.peel(x['t']) for v in F.adt_by_path[p]['vs'] for x in v['fs']]
    return out


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        fm = formats(ctx, cfg)
        ctx.floor('kinds of vectors read from bytes [%s]' % cfg, len(fm), 2)
        ctx.floor('functions that read the bytes of a vector [%s]' % cfg, readers(ctx, cfg, fm), 6)
        n = 0
        for k in c03.reporters(F):
            b = F.bodies[k]
            ks = kinds(F, b, fm)
            if not ks:
                continue
            W = Writer(ctx, cfg, k, fm, F)
            if W.root is None:
                continue
            Ws = [Writer(ctx, cfg, k, fm, F, c) for c in cases(W.V)]
            js = []
            for p, t in ks:
                g = instance(F, fm[p], t)
                js.append(judge(Ws, g, g))
                if js[-1].bad:
                    js += [judge(Ws, f, g) for q, f in sorted(fm.items()) if q != p]
            ok = [j for j in js if not j.bad]
            n += 1
            best = ok[0] if ok else js[0]
            ctx.ob('what a vector writes is laid out as it is read', bool(ok), b['path'], b['span'],
                   'as %s, on %d ways' % (best.f.path, best.n) if ok else '; '.join('as %s: %s' % (j.f.path.split('::')[-1], '; '.join(sorted(set(j.bad)))[:300]) for j in js)[:1200])
        ctx.floor('functions that write a vector [%s]' % cfg, n, 4)
