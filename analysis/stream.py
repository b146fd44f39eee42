"""Ghost stream position: follows where in a destination a program writes. The state of a stream is the chain of calls made on it; its
position is a linear form over program values (start of the stream, lengths of what is written, targets of seeks), results of seeks are
positions, loops get an invariant, and joins are split into cases. On top of it: equality of values under branch facts with case splits
over joins, and which part of the stream has been written."""
from linear import Linear, add
from vals import mk, pp, from_poly, to_poly, subterms, INT

NEUTRAL = {'Write::flush', 'Write::by_ref', 'BufWriter::flush_buf', 'Seek::stream_position', 'BufWriter::get_mut', 'BufWriter::get_ref', 'Read::by_ref'}
WIDTH = {'write_u8': 1, 'write_i8': 1, 'write_u16': 2, 'write_i16': 2, 'write_u24': 3, 'write_i24': 3, 'write_u32': 4, 'write_i32': 4, 'write_f32': 4,
         'write_u48': 6, 'write_i48': 6, 'write_u64': 8, 'write_i64': 8, 'write_f64': 8, 'write_u128': 16, 'write_i128': 16}
WRAP = {'BufWriter::new': 0, 'BufWriter::with_capacity': 1, 'LineWriter::new': 0, 'LineWriter::with_capacity': 1}
COUNTED = {'Writeable::write'}


def neg(p):
    return {m: -c for m, c in p.items()}


def op(t):
    """(name, value of the stream before, other values) of one operation on a stream"""
    if t.op != 'mut':
        return None
    n, site, i = t.args[0], t.args[1], t.args[2]
    vals = t.args[3:]
    return n, vals[i], [v for j, v in enumerate(vals) if j != i], i


class Stream(object):
    def __init__(self, V, counted=()):
        self.V = V
        self.L = Linear(V, self.norm)
        self.posmemo, self.arrays, self.seeks = {}, {}, {}
        self.counted = set(COUNTED) | set(counted)
        self.heads = V.headers()
        F = V.F
        for e in V.live('call'):
            t = V.ir.place_ty(e.dest)
            if e.ret is not None and t is not None:
                r = F.types[F.peel(t)]
                if r.get('k') == 'array' and isinstance(r.get('len'), int):
                    self.arrays[e.ret] = r['len']
            if e.name in ('Seek::seek', 'Seek::stream_position', 'Seek::rewind') and e.ret is not None and e.vals:
                # the term of the stream after this call
                self.seeks[e.ret] = e
        self.inv, self.moreof = {}, {}

    # ------------------------------------------------------------ values
    def norm(self, t):
        if t.op == 'phi':
            r = self.single(t)
            return r if r is not t else None
        if t.op == 'len':
            x = t.args[0]
            n = self.length(x)
            return n
        if t.op == 'fld' and t.args[1] == ('f', 0) and t.args[0].op == 'fld' and t.args[0].args[1] == ('d', 0) and t.args[0].args[0].op == 'call':
            c = t.args[0].args[0]
            if c in self.seeks:
                e = self.seeks[c]
                before = e.vals[0]
                if e.name == 'Seek::stream_position':
                    return from_poly(self.pos(before))
                if e.name == 'Seek::rewind':
                    return None
                return from_poly(self.seeked(before, e.vals[1]))
        return None

    def single(self, t, d=0):
        """the one value a phi stands for, if all ways into it agree"""
        while t.op == 'phi' and d < 30:
            vs = set()
            for v in self.V.phi_in.get(t, {}).values():
                if v is not t:
                    vs.add(self.single(v, d + 1) if v.op == 'phi' and v.args[0] not in self.heads else v)
            if len(vs) != 1:
                return t
            t = vs.pop()
            d += 1
        return t

    def length(self, x, d=0):
        """length of a sequence, as a term (None: nothing better known)"""
        V = self.V
        if d > 40:
            return None
        if x in self.arrays:
            return INT(self.arrays[x])
        sub = lambda y: self.length(y, d + 1) or V.length(y)
        if x.op == 'agg' and x.args[0][0] == 'array':
            return INT(len(x.args) - 1)
        if x.op == 'empty':
            return INT(0)
        if x.op == 'repeat':
            return x.args[1] if hasattr(x.args[1], 'op') else INT(x.args[1])
        if x.op == 'str':
            return INT(len(str(x.args[0]).encode()))
        if x.op == 'call' and x.args[0] in ('slice::from_raw_parts', 'slice::from_raw_parts_mut') and len(x.args) > 3:
            return x.args[3]
        if x.op == 'call' and x.args[0] in ('String::into_bytes', 'String::as_bytes', 'str::as_bytes', 'String::as_str', 'Vec::as_slice', 'Vec::into_boxed_slice') and len(x.args) > 2:
            return sub(x.args[2])
        if x.op == 'call' and x.args[0] in ('Vec::with_capacity', 'String::with_capacity', 'Vec::new', 'String::new'):
            return INT(0)
        if x.op == 'fld' and isinstance(x.args[1], tuple) and x.args[1][0] == 'i':
            from linear import rng
            r = rng(x.args[1][1])
            if r and r[1] is not None:
                return from_poly(add(add(self.L.lin(r[1]), self.L.lin(r[0]), -1), {(): r[2]} if r[2] else {}))
            if r:
                return from_poly(add(self.L.lin(V.length(x.args[0])), self.L.lin(r[0]), -1))
            q = x.args[1][1]
            if q.op == 'agg' and str(q.args[0][1]).endswith('RangeTo') and len(q.args) > 1:
                return q.args[1]
        if x.op == 'call' and x.args[0] in ('Iterator::map', 'Iterator::copied', 'Iterator::cloned', 'Iterator::rev', 'Iterator::enumerate', 'Iterator::inspect') and len(x.args) > 2:
            return sub(x.args[2])
        if x.op == 'mut' and len(x.args) > 3 and x.args[2] == 0:
            n, v = x.args[0].split('::')[-1], x.args[3:]
            if x.args[0].split('::')[0] in ('Vec', 'String', 'slice'):
                if n == 'resize' and len(v) > 1:
                    return v[1]
                if n in ('push', 'insert') and x.args[0].startswith('Vec'):
                    return from_poly(add(self.L.lin(sub(v[0])), {(): 1}))
                if n in ('extend_from_slice', 'push_str', 'append') and len(v) > 1:
                    return from_poly(add(self.L.lin(sub(v[0])), self.L.lin(sub(v[1]))))
                if n == 'clear':
                    return INT(0)
            if n in ('extend', 'extend_from_slice') and len(v) > 1 and x.args[0].split('::')[0] in ('Vec', 'String', 'Extend'):
                y = v[1]
                if y.op == 'call' and y.args[0].split('::')[-1] == 'take' and y.args[2].op == 'call' and y.args[2].args[0].split('::')[-1] == 'repeat':
                    return from_poly(add(self.L.lin(sub(v[0])), self.L.lin(y.args[3])))
                if y.op == 'call' and y.args[0].split('::')[-1] == 'repeat_n':
                    return from_poly(add(self.L.lin(sub(v[0])), self.L.lin(y.args[3])))
            if x.args[0].split('::')[0] in ('Vec', 'String', 'slice'):
                if n in ('sort', 'sort_unstable', 'copy_from_slice', 'fill', 'reverse', 'reserve', 'shrink_to_fit'):
                    return sub(v[0])
        return None

    # ------------------------------------------------------------ positions
    def seeked(self, before, target):
        if target.op == 'agg' and target.args[0][0] == 'adt' and len(target.args) == 2:
            v = target.args[0][3] if len(target.args[0]) > 3 else target.args[0][2]
            v = {0: 'Start', 1: 'End', 2: 'Current'}.get(target.args[0][2])
            if v == 'Start':
                return self.L.lin(target.args[1])
            if v == 'Current':
                return add(self.pos(before), self.L.lin(target.args[1]))
        return {(mk('end', before, target),): 1}

    def pos(self, t):
        """position of a stream in the given state"""
        if t in self.posmemo:
            return self.posmemo[t]
        self.posmemo[t] = {(mk('pos', t),): 1}
        self.posmemo[t] = self.pos1(t)
        return self.posmemo[t]

    def pos1(self, t):
        V = self.V
        o = op(t)
        if o:
            n, before, rest, i = o
            if n in NEUTRAL:
                return self.pos(before)
            if n == 'Write::write_all' and i == 0:
                return add(self.pos(before), self.L.lin(V.length(rest[0])))
            if n == 'Seek::seek' and i == 0:
                return self.seeked(before, rest[0])
            if n == 'Seek::rewind':
                return {}
            if n in self.counted:
                return add(self.pos(before), {(self.count(t),): 1})
            if n.split('::')[-1] in WIDTH and i == 0:
                return add(self.pos(before), {(): WIDTH[n.split('::')[-1]]})
        elif t.op == 'phi':
            if t.args[0] not in self.heads:
                ps = [self.pos(v) for v in V.phi_in.get(t, {}).values()]
                if ps and all(p == ps[0] for p in ps):
                    return ps[0]
            else:
                init, back = self.sides(t)
                if len(init) == 1 and all(self.pos(v) == {(mk('pos', t),): 1} for p, v in back):
                    return self.pos(init[0][1])
        elif t.op == 'call' and t.args[0] in WRAP and len(t.args) > 2 + WRAP[t.args[0]]:
            return self.pos(t.args[2 + WRAP[t.args[0]]])
        return {(mk('pos', t),): 1}

    def count(self, t):
        """what an operation reports as the number of bytes it wrote"""
        r = mk('call', t.args[0], t.args[1], *t.args[3:])
        return self.V.proj(self.V.proj(r, ('d', 0)), ('f', 0))

    def sides(self, phi):
        """incoming values of a loop phi: from before the loop, from iterations"""
        V = self.V
        ins = V.phi_in.get(phi, {})
        init = [(p, v) for p, v in ins.items() if p == 'entry' or not V.dominates(phi.args[0], p)]
        back = [(p, v) for p, v in ins.items() if p != 'entry' and V.dominates(phi.args[0], p) and v is not phi]
        return init, back

    # ------------------------------------------------------------ invariants of loops
    def invariants(self, phis):
        """equations (== 0) between the positions of streams at loop heads and accumulators of the loop, proved by induction"""
        V, out = self.V, []
        for ph in phis:
            key = ph
            if key in self.inv:
                out += self.inv[key]
                continue
            self.inv[key] = []
            h = ph.args[0]
            me = {(mk('pos', ph),): 1}
            if self.pos(ph) != me:
                continue
            init, back = self.sides(ph)
            if len(init) != 1 or not back:
                continue
            p0 = init[0][0]
            for acc in list(V.phi_in):
                if acc is ph or acc.args[0] != h or len(acc.args[1]) < 1:
                    continue
                ins = V.phi_in[acc]
                if p0 not in ins or any(p not in ins for p, v in back):
                    continue
                d0 = add(self.pos(init[0][1]), self.L.lin(ins[p0]), -1)
                eq = add(add(me, self.L.lin(acc), -1), d0, -1)
                if all(self.same(add(add(self.pos(v), self.L.lin(ins[p]), -1), d0, -1), V.facts(p), [eq, neg(eq)], split=3) for p, v in back):
                    self.inv[key].append(eq)
            out += self.inv[key]
        return out

    def exhausted(self, ph, fs):
        """equation (== 0) for the position after a loop that visited all of a sequence, writing the same for every item, or every piece
        of a sequence cut into pieces"""
        V, me = self.V, {(mk('pos', ph),): 1}
        init, back = self.sides(ph)
        if len(init) != 1 or not back:
            return None
        step = [add(self.pos(v), me, -1) for p, v in back]
        if any(s != step[0] for s in step):
            return None
        for t, v in fs:
            if v != 0 or t.op != 'discr' or t.args[0].op != 'call' or t.args[0].args[0] != 'Iterator::next':
                continue
            n = t.args[0]
            site, seq = n.args[1], n.args[2]
            es = [e for e in V.live('call') if e.ret is n]
            if not es or not all(V.dominates(ph.args[0], e.block) and all(V.dominates(e.block, p) for p, x in back) for e in es):
                continue
            inner = [x for m in step[0] for a in m for x in subterms(a)]
            if seq.op == 'call' and seq.args[0].split('::')[-1] == 'chunks' and step[0] == self.L.lin(V.length(mk('elem', seq, site))):
                total = self.L.lin(V.length(seq.args[2]))
            elif not any(x.op in ('elem', 'iidx') and x.args[1] == site or x.op == 'phi' or x.op == 'call' and x.args[1] is not None for x in inner):
                from linear import rng
                r = rng(seq)
                if r:
                    if r[1] is None:
                        continue
                    k = add(add(self.L.lin(r[1]), self.L.lin(r[0]), -1), {(): r[2]} if r[2] else {})
                    if not self.L.prove(k, fs):
                        continue
                else:
                    k = self.L.lin(V.length(seq))
                total = {}
                for m, c in step[0].items():
                    for m2, c2 in k.items():
                        total = add(total, {tuple(sorted(m + m2, key=lambda x: x.id)): c * c2})
            else:
                continue
            return add(add(me, self.pos(init[0][1]), -1), total, -1)
        return None

    def streamphis(self, p):
        out = set()
        for m in p:
            for a in m:
                for s in subterms(a):
                    if s.op == 'pos' and s.args[0].op == 'phi' and s.args[0].args[0] in self.heads:
                        out.add(s.args[0])
        return sorted(out, key=lambda t: t.id)

    # ------------------------------------------------------------ equality
    def zero(self, p, fs, extra):
        if not p:
            return True
        for k in list(extra):
            if add(p, k) == {} or add(p, k, -1) == {}:
                return True
        return self.L.prove(p, fs, extra) and self.L.prove(neg(p), fs, extra)

    @staticmethod
    def differs(d, v, fs):
        return d.op == 'int' and d.args[0] != v or any((d, o) in fs for o in (0, 1) if o != v)

    def more(self, fs):
        """branch facts, with those of the one way into a join that agrees with what is known of a value joined there"""
        V, key = self.V, frozenset(fs)
        if key in self.moreof:
            return self.moreof[key]
        out, todo, seen = list(fs), list(fs), set()
        while todo:
            t, v = todo.pop()
            if t.op != 'discr' or t.args[0].op != 'phi' or (t, v) in seen or len(seen) > 60:
                continue
            seen.add((t, v))
            ph = t.args[0]
            b = ph.args[0]
            if b in self.heads:
                continue
            ways = []
            for pr, x in V.phi_in.get(ph, {}).items():
                if pr == 'entry' or not V.edge_facts(pr, b)[1]:
                    continue
                d = V.discr(x)
                f = list(V.facts(pr)) + list(V.edge_facts(pr, b)[0])
                if self.differs(d, v, f):
                    continue
                ways.append((f + ([(d, v)] if d.op != 'int' else [])))
            if len(ways) == 1:
                for f in ways[0]:
                    if f not in out:
                        out.append(f)
                        todo.append(f)
        self.moreof[key] = self.moreof[frozenset(out)] = out
        return out

    def same(self, p, fs, extra=(), split=4):
        """p == 0 under facts; joins are split into cases"""
        extra = list(extra)
        fs = self.more(fs)
        if self.zero(p, fs, extra):
            return True
        hp = self.streamphis(p)
        if hp and split > 0:
            for e in self.invariants(hp):
                extra += [e, neg(e)]
            if self.zero(p, fs, extra):
                return True
            q = p
            for ph in hp:
                c = p.get((mk('pos', ph),))
                e = self.exhausted(ph, fs) if c else None
                if e is not None:
                    q = add(q, {m: c * x for m, x in e.items()}, -1)
            if q != p and self.same(q, fs, extra, split):
                return True
        if split <= 0:
            return False
        V = self.V
        js = {}
        for m in p:
            for a in m:
                b = a.args[0] if a.op == 'pos' else a
                if b.op == 'phi' and b.args[0] not in self.heads:
                    js.setdefault(b.args[0], []).append(b)
        for b in js:
            ok = True
            for pr in V.preds[b]:
                if (pr, b) not in V.efacts:
                    continue
                sub = {}
                for m, c in p.items():
                    t = {(): c}
                    for a in m:
                        if a.op == 'pos' and a.args[0].op == 'phi' and a.args[0].args[0] == b:
                            r = self.pos(V.phi_in[a.args[0]][pr])
                        elif a.op == 'phi' and a.args[0] == b:
                            r = self.L.lin(V.phi_in[a].get(pr, a))
                        else:
                            r = {(a,): 1}
                        t = {tuple(sorted(k1 + k2, key=lambda x: x.id)): c1 * c2 for k1, c1 in t.items() for k2, c2 in r.items()}
                    sub = add(sub, t)
                f2, live = V.edge_facts(pr, b)
                if not live:
                    continue
                f2 = list(f2) + list(V.facts(pr))
                if any(t.op == 'discr' and any((t, w) in fs for w in (0, 1) if w != v) and not any(x.op == 'phi' and x.args[0] in self.heads for x in subterms(t)) for t, v in f2):
                    # decided the other way
                    continue
                if any(t.op == 'discr' and t.args[0].op == 'phi' and t.args[0].args[0] == b and pr in V.phi_in[t.args[0]]
                       and self.differs(V.discr(V.phi_in[t.args[0]][pr]), v, f2) for t, v in fs):
                    continue
                if not self.same(sub, list(fs) + list(f2), extra, split - 1):
                    ok = False
                    break
            if ok:
                return True
        return False

    # ------------------------------------------------------------ outcomes
    def outcomes(self, rv, sv, block, fs=(), depth=0):
        """(returned value, state of the stream, facts) for every way to return"""
        V = self.V
        if rv.op == 'phi' and rv.args[0] not in self.heads and depth < 40:
            b = rv.args[0]
            out = []
            for pr, v in V.phi_in[rv].items():
                if pr == 'entry':
                    continue
                f2, live = V.edge_facts(pr, b)
                if not live:
                    continue
                out += self.outcomes(v, self.at(sv, b, pr), pr, list(fs) + list(f2), depth + 1)
            return out
        return [(rv, sv, list(fs) + list(V.facts(block)))]

    def at(self, t, b, pr):
        """a stream state as it is when block b is entered from pr"""
        V = self.V
        if t.op == 'phi':
            return V.phi_in[t].get(pr, t) if t.args[0] == b else t
        o = op(t)
        if o:
            n = self.at(o[1], b, pr)
            if n is not o[1]:
                a = list(t.args)
                a[3 + t.args[2]] = n
                return mk('mut', *a)
        return t

    # ------------------------------------------------------------ what is written
    def chain(self, t):
        """states of the stream from the given one back to its start"""
        out = []
        while True:
            out.append(t)
            if len(out) > 400:
                return out
            o = op(t)
            if o and (o[0] in NEUTRAL or o[0] in ('Write::write_all', 'Seek::seek', 'Seek::rewind') or o[0] in self.counted or o[0].split('::')[-1] in WIDTH):
                t = o[1]
            elif t.op == 'phi' and t.args[0] in self.heads:
                init, back = self.sides(t)
                if len(init) != 1:
                    return out
                t = init[0][1]
            elif t.op == 'phi':
                cs = [self.chain(v) for v in self.V.phi_in[t].values()]
                common = [x for x in cs[0] if all(x in c for c in cs[1:])]
                if not common:
                    return out
                t = common[0]
            else:
                return out

    def runs(self, t, base, fs):
        """parts written between two states: [(from, to)], and the reason if that is not known"""
        c = self.chain(t)
        if base not in c:
            return None, 'the stream at ' + pp(t, 3) + ' does not come from the one at the start'
        c = c[:c.index(base) + 1]
        cur = [self.pos(base), self.pos(base)]
        out = [cur]
        for prev, s in zip(reversed(c), list(reversed(c))[1:]):
            o = op(s)
            if o and o[0] in ('Seek::seek', 'Seek::rewind'):
                p = self.pos(s)
                if self.same(add(p, cur[1], -1), fs):
                    continue
                cur = [p, p]
                out.append(cur)
            elif o:
                cur[1] = self.pos(s)
            else:
                alts = [(p, v) for p, v in self.V.phi_in[s].items()] if s.args[0] not in self.heads else self.sides(s)[1]
                frm = prev if s.args[0] not in self.heads else s
                for p, v in alts:
                    f2 = list(self.V.facts(p)) if p != 'entry' else []
                    if s.args[0] not in self.heads:
                        f2 += list(self.V.edge_facts(p, s.args[0])[0])
                    r, why = self.runs(v, frm, f2)
                    if r is None:
                        return None, why
                    ok, why = self.contiguous(r, self.pos(frm), self.pos(v), f2)
                    if not ok:
                        return None, why
                if not self.same(add(self.pos(prev), cur[1], -1), fs):
                    cur = [self.pos(prev), self.pos(prev)]
                    out.append(cur)
                cur[1] = self.pos(s)
        return out, ''

    def contiguous(self, runs, start, end, fs):
        """do the runs cover exactly what is between start and end, without gap or overlap?"""
        rest = [r for r in runs if not self.same(add(r[1], r[0], -1), fs, split=1)]
        at = start
        while rest:
            nxt = [r for r in rest if self.same(add(r[0], at, -1), fs)]
            if len(nxt) != 1:
                return False, '%s at %s' % ('nothing is written' if not nxt else 'written more than once', self.show(at))
            at = nxt[0][1]
            rest.remove(nxt[0])
        if not self.same(add(at, end, -1), fs):
            return False, 'written up to %s, but the stream ends at %s' % (self.show(at), self.show(end))
        return True, ''

    def show(self, p):
        return pp(from_poly(p), 6)[:200]
