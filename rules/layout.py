"""What a saved index looks like, read off the functions that save and the functions that load (shared by C03, C04 and C05)."""
import lib
from stream import Stream, op, neg
from linear import add, rng
from rules import flow, c03
from vals import mk, pp, subterms

PARSE = ('serde_json::from_reader', 'serde_json::from_str', 'serde_json::from_slice')
LISTOK = ('to_vec', 'as_slice', 'as_ref', 'clone', 'deref', 'into_iter', 'iter')


def name(t):
    return t.args[0].split('::')[-1]


def calls(b, what):
    for bl in b['blocks']:
        t = bl['t']
        if t['t'] == 'call' and isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k'] and what(t['f']['k']['fn']):
            return True
    return False


def ancestors(F, cg, ks):
    rev = {}
    for k, cs in cg.items():
        for c in cs:
            rev.setdefault(c, set()).add(k)
    out, todo = set(ks), list(ks)
    while todo:
        for y in rev.get(todo.pop(), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def reaching(F, what):
    live = lib.reachable(F, lib.roots(F))
    cg = lib.callgraph(F)
    hit = [k for k, b in F.bodies.items() if k in live and calls(b, what)]
    return [k for k in sorted(ancestors(F, cg, hit)) if k in live and F.bodies[k]['kind'] != 'Closure' and F.bodies[k].get('parent') not in F.bodies]


def is_insert(fn):
    return fn['path'].startswith('serde_json::') and fn['name'] == 'insert' and 'Map' in fn['path']


def is_parse(fn):
    return fn['path'].startswith('serde_json::') and fn['name'] in ('from_reader', 'from_str', 'from_slice')


def good(V, r, fs):
    """is this way to return a success?"""
    if r.op == 'agg' and r.args[0][:2] == ('adt', 'Result') and r.args[0][2] == 1:
        return False
    return not ((V.discr(r), 1) in fs or r.op == 'call' and r.args[0].endswith('FromResidual::from_residual'))


class Save(object):
    """a function that saves an index; writers of single layers are taken at their word (C03 decides those)"""
    def __init__(self, ctx, cfg, k):
        F = ctx.F(cfg)
        self.key, self.body = k, F.bodies[k]
        rep = set(c03.reporters(F)) - {k}
        self.V = V = ctx.V(cfg, k, inline=lambda key, b, fr: key not in rep, tag='layout')
        self.counted = {}
        for e in V.live('call'):
            r = e.fn.get('res') if e.fn else None
            ks = [e.fn.get('key'), r.get('key') if isinstance(r, dict) else r] if e.fn else []
            if any(isinstance(x, str) and x in rep for x in ks):
                self.counted.setdefault(e.name, []).append(e)
        self.S = Stream(V, self.counted)
        self.inserts = [e for e in V.live('call') if e.name.split('::')[-1] == 'insert' and 'Map' in e.name and len(e.vals) > 2 and e.vals[1].op == 'str']
        self.roots = sorted({a.args[1] for e in V.live('call') if e.name == 'Seek::seek' for a in e.args[:1] if a.op == "ref"}, key=str)
        self.ok = bool(self.inserts) and bool(self.roots)
        self.ends = []
        if len(self.roots) != 1:
            return
        root = self.roots[0]
        for ev in V.live('return'):
            rv = ev.val if ev.val is not None else ev.ret
            st = V.out[ev.block].get(root, root)
            for r, s, fs in self.S.outcomes(rv, st, ev.block):
                if good(V, r, fs):
                    self.ends.append((s, fs))

    def base(self, s):
        """start of the stream: what the stream was before anything was done to it"""
        return self.S.chain(s)[-1]

    def passes(self, phi):
        """operations on the stream during one pass of the loop, for each way through it (None: not understood)"""
        return [self.between(v, phi) for p, v in self.S.sides(phi)[1]]

    def between(self, t, phi, d=0):
        l = []
        while t is not phi:
            o, d = op(t), d + 1
            if not o or d > 200:
                return None
            if o[0] not in ('Write::flush', 'Write::by_ref', 'Seek::stream_position'):
                l.append(t)
            t = o[1]
        return l[::-1]

    def sizes(self, key):
        """list of values stored in the header under the key"""
        return [e.vals[2] for e in self.inserts if e.vals[1].args[0] == key]


def unvalue(t):
    """x of to_value(x).unwrap()"""
    while True:
        if t.op == 'fld' and t.args[1][0] in ('d', 'f'):
            t = t.args[0]
        elif t.op == 'call' and name(t) in ('to_value', 'from', 'into') and len(t.args) > 2:
            return t.args[2]
        else:
            return t


def entered(V, t, block, p):
    """(a part of) a value joined at a block, as it is when the block is entered from p"""
    if t.op == 'phi':
        return V.phi_in[t].get(p, t) if t.args[0] == block else t
    if t.op == 'fld' and t.args[1][0] in ('d', 'f'):
        x = entered(V, t.args[0], block, p)
        return t if x is t.args[0] else V.proj(x, t.args[1])
    return t


def passes(sv, vec, s, fs, depth=0):
    """[(loop phi of the stream, value of the list after that loop, branch facts there)] for the ways to reach a state"""
    V, S = sv.V, sv.S
    # joins shared by the list and the stream
    if depth > 30:
        return []
    chain = S.chain(s)
    joins = [x for x in chain if x.op == 'phi' and x.args[0] not in S.heads]
    heads = [x for x in chain if x.op == 'phi' and x.args[0] in S.heads and S.sides(x)[1]]
    if joins and (not heads or chain.index(joins[0]) < chain.index(heads[0])):
        j, out = joins[0], []
        for p, v in V.phi_in[j].items():
            if p == 'entry' or not V.edge_facts(p, j.args[0])[1]:
                continue
            # what is known about other values that are joined here
            known = [(t, x, c) for t, c in fs if t.op == 'discr' for x in [entered(V, t.args[0], j.args[0], p)] if x is not t.args[0]]
            if any(c == 0 and not good(V, x, ()) or V.discr(x).op == 'int' and V.discr(x).args[0] != c for t, x, c in known):
                continue
            out += passes(sv, entered(V, vec, j.args[0], p), v, list(V.facts(p)) + list(V.edge_facts(p, j.args[0])[0]) + [(V.discr(x), c) for t, x, c in known], depth + 1)
        return out
    return [(heads[0] if heads else None, vec, S.more(list(fs)))]


def saves(ctx, cfg):
    out = []
    for k in reaching(ctx.F(cfg), is_insert):
        s = Save(ctx, cfg, k)
        if s.ok:
            out.append(s)
    whole = {s.key for s in out if len(s.roots) == 1 and s.ends}
    return [s for s in out if len(s.roots) == 1 or not either(s, whole - {s.key})]


def either(s, whole):
    """a function that saves by calling, in one of several places that exclude each other, a function that is looked at by itself"""
    from rules.searching import path_without
    at = {}
    for e in s.inserts:
        f, top = e.fr, None
        while f is not None:
            if f.key in whole:
                top = f
            f = f.parent
        if top is None:
            return False
        at.setdefault(top, []).append(e.block)
    return len(at) > 1 and len(at) == len(s.roots) and all(path_without(s.V, [a], set(at[g])) is None for f in at for a in at[f] for g in at if g is not f)


# ------------------------------------------------------------------ loading
class Load(object):
    def __init__(self, ctx, cfg, k):
        F = ctx.F(cfg)
        self.key, self.body = k, F.bodies[k]
        self.V = V = ctx.V(cfg, k)
        self.F = F
        self.S = Stream(V)
        self.L = self.S.L
        self.parses = [e for e in V.live('call') if e.name in PARSE]
        self.reads = []
        for e in V.live('call'):
            if e.name in ('Index::index', 'Value::get', 'Value::pointer', 'Map::get', 'Value::get_mut', 'IndexMut::index_mut', 'Value::remove', 'Map::remove') and len(e.vals) > 1 and e.vals[1].op == 'str' and e.fn:
                self.reads.append((str(e.vals[1].args[0]), e))
        self.slices = []
        for e in V.live('call'):
            if e.name in ('Index::index', 'slice::get', 'IndexMut::index_mut') and len(e.vals) > 1:
                r = rng(e.vals[1])
                if not r or r[1] is None:
                    continue
                start, base = self.L.lin(r[0]), e.vals[0]
                size = self.entry(add(add(self.L.lin(r[1]), start, -1), {(): r[2]} if r[2] else {}))
                cut = V.proj(base, ('i', e.vals[1]))
            elif e.name in ('slice::split_at', 'slice::split_at_checked') and len(e.vals) > 1 and e.ret is not None:
                start, base = {}, e.vals[0]
                size, cut = self.entry(self.L.lin(e.vals[1])), V.proj(e.ret, ('f', 0))
            else:
                continue
            if size is not None:
                root, off = self.offset(base)
                self.slices.append((e, root, add(off, start), size, cut))

    def entry(self, p):
        """the one value p stands for, if it is an entry of a list in the header"""
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c != 1 or len(m) != 1:
            return None
        site = self.site(m[0])
        return m[0] if site is not None and self.source(m[0]) is not None else None

    def site(self, x):
        if x.op == 'elem':
            return x.args[1]
        if x.op == 'fld' and x.args[1][0] == 'f' and x.args[0].op == 'elem':
            return x.args[0].args[1]
        if x.op == 'fld' and x.args[1][0] == 'i' and x.args[1][1].op in ('elem', 'iidx'):
            return x.args[1][1].args[1]
        return None

    def source(self, x):
        """key of the header list x is an entry of"""
        for y in subterms(x):
            if y.op == 'elem':
                k = self.header_list(y.args[0])
                if k is not None:
                    return k
            if y.op == 'fld' and y.args[1][0] == 'i' and y.args[1][1].op != 'str':
                k = self.header_list(y.args[0])
                if k is not None:
                    return k
        return None

    def offset(self, t, d=0):
        """(what t is a part of, where it starts in it) for the rest of a buffer"""
        V = self.V
        if d < 40:
            if t.op == 'ref' and len(t.args) > 2 and any(e[0] == 'i' for e in t.args[2]):
                n = [e[0] for e in t.args[2]].index('i')
                x = mk('ref', t.args[0], t.args[1], t.args[2][:n])
                for e in t.args[2][n:]:
                    x = mk('fld', x, e)
                return self.offset(x, d + 1)
            if t.op == 'fld' and t.args[1][0] == 'i':
                r = rng(t.args[1][1])
                q = t.args[1][1]
                s = self.L.lin(r[0]) if r else {} if q.op == 'agg' and str(q.args[0][1]).endswith(('RangeFull', 'RangeTo', 'RangeToInclusive')) else None
                if s is not None:
                    root, o = self.offset(t.args[0], d + 1)
                    return root, add(o, s)
            if t.op == 'fld' and t.args[1][0] == 'f' and t.args[0].op == 'call' and name(t.args[0]) == 'split_at' and len(t.args[0].args) > 3:
                root, o = self.offset(t.args[0].args[2], d + 1)
                return root, add(o, self.L.lin(t.args[0].args[3])) if t.args[1][1] == 1 else o
            if t.op == 'phi' and t.args[0] in self.S.heads:
                init, back = self.S.sides(t)
                if len(init) == 1:
                    root, o = self.offset(init[0][1], d + 1)
                    return root, {(mk('off', t),): 1}
        return t, {}

    def header_list(self, seq):
        """key of the header entry a list is read from"""
        S = flow.inorder(self.V, seq)
        return self.header_key(S if S is not None else seq)

    def header_key(self, t):
        for _ in range(60):
            if t.op == 'fld' and t.args[1][0] in ('d', 'f'):
                t = t.args[0]
            elif t.op == 'fld' and t.args[1][0] == 'i' and t.args[1][1].op == 'str':
                return str(t.args[1][1].args[0])
            elif t.op == 'call' and t.args[0] in ('Value::get', 'Map::get') and len(t.args) > 3 and t.args[3].op == 'str':
                return str(t.args[3].args[0])
            elif t.op == 'call' and (name(t) in ('from_value', 'deserialize', 'clone', 'to_owned', 'expect', 'unwrap', 'as_array', 'as_u64', 'into_iter', 'iter') or t.args[0].startswith(('Result::', 'Option::'))) and len(t.args) > 2:
                t = t.args[2]
            elif t.op == 'phi':
                r = self.S.single(t)
                if r is t:
                    return None
                t = r
            else:
                return None
        return None


def loads(ctx, cfg):
    out = []
    for k in reaching(ctx.F(cfg), is_parse):
        F = ctx.F(cfg)
        if not any(str(F.types[t].get('path', '')).startswith(('index::', 'granne::')) for t in F.walk(F.bodies[k]['out'])):
            continue
        l = Load(ctx, cfg, k)
        if l.parses:
            out.append(l)
    return out
