"""Every place where an integer is put into fewer bits is enumerated, in the inlined functions and with the branch facts that hold there:
narrowing casts must be preceded by a test (one that is still made in release builds) that bounds the value by what the target can hold - and
keeps it off the value that marks an unused place where the target type has one; checked conversions must not be ignored (a failed one ends
in a panic or an error on every path); bytes of an integer are only dropped under such a test or by a writer that refuses what does not
fit; and the value converted must not have been clamped or masked first. Elements are only added to an index, and indexes only made
from elements, where facts show that the number of elements stays at most the number of ids there are (2^32 - 1; the last is the marker).
Nothing is masked or limited before it is converted (inlined into the caller) to one of the odd byte integers."""
import re
import lib
from explore import Explore, after
from linear import Linear, add
from mono import Mono, closures, fns
from rules.c07 import Check as Base, LAST, cut, whole
from vals import INT, contains, mk, pp, subterms

TECHNIQUE = 'linear bounds from release-build branch facts at every narrowing conversion; failure-path exploration of checked conversions; element-count facts at every append'
NOTE = 'Targets with 64-bit usize. Counts of elements cannot exceed usize; sums of buffer lengths are assumed not to overflow 64 bits. byteorder write_uint is trusted to panic on values that do not fit.'

W = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128, 'char': 32}
LIMIT = 2 ** 32 - 1
LEN = 'ElementContainer::len'
PUSH = re.compile(r'ExtendableElementContainer$')


def top(ty):
    return 2 ** (W[ty] - (ty[0] == 'i')) - 1


def narrowing(a, b):
    return a in W and b in W and W[a] < 128 and top(b) < (top(a) if a[0] != 'i' else 2 ** W[a] - 1 if b[0] != 'i' else top(a)) and not (a[0] == 'i' and b[0] != 'i' and W[a] <= W[b])


def lossy(t, d=0):
    """a value changed so as to fit: why"""
    if d > 6:
        return None
    if t.op == 'bin' and t.args[0] in ('BitAnd', 'Rem'):
        c = [x.args[0] for x in t.args[1:] if x.op == 'int']
        if c and c[-1] >= 255 and (c[-1] & (c[-1] + 1) == 0 or c[-1] & (c[-1] - 1) == 0):
            return 'masked with %d' % c[-1]
    if t.op == 'min' and any(x.op == 'int' for x in t.args) and max(x.args[0] for x in t.args if x.op == 'int') >= 127:
        return 'limited to a constant'
    if t.op == 'call':
        n = LAST(t.args[0])
        if n.startswith(('wrapping_', 'saturating_', 'overflowing_', 'unchecked_')) and n.split('_')[1] in ('add', 'mul', 'shl', 'pow'):
            return n
        if n == 'clamp':
            return 'clamped'
    if t.op == 'cast':
        return lossy(t.args[-1], d + 1)
    if t.op == 'phi':
        return None
    return None


def markers(F):
    """(file, integer type) whose largest value is compared with: it has a meaning of its own there"""
    out = set()

    def const(o):
        k = o.get('k') if isinstance(o, dict) else None
        return k.get('v', k.get('int')) if isinstance(k, dict) else None
    for b in F.bodies.values():
        f = b['span'].split(':')[0]
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                    ts = [F.tstr(b['locals'][p]) for p in [o.get('m', o.get('c')) if isinstance(o, dict) else None for o in s[2][2:4]] if isinstance(p, int)]
                    for o in s[2][2:4]:
                        c = const(o)
                        for ty in ts:
                            if ty in W and ty[0] == 'u' and W[ty] < 64 and str(c) == str(top(ty)):
                                out.add((f, ty))
    return out


class Check(Base):
    def __init__(self, ctx, cfg):
        Base.__init__(self, ctx, cfg)
        self.marks = set()

    # ------------------------------------------------------------ casts
    def bounded(self, V, e, x, most):
        L = Linear(V, cut(V))
        if x.op == 'int':
            return 0 <= x.args[0] <= most
        return bound(V, x, most, e.block)

    def narrow(self, V, e):
        a, b = e.tys
        x = e.vals[0]
        why = lossy(x)
        if why:
            return False, 'the value is %s before it is stored as %s' % (why, b)
        most = top(b) - (1 if (e.sp.split(':')[0], b) in self.marks else 0)
        if self.bounded(V, e, x, most):
            return True, ''
        return False, 'nothing that is still tested in a release build shows that %s is at most %d before it is cast to %s' % (pp(x, 3)[:60], most, b)

    def casts(self):
        F = self.F
        n = 0
        for key, b in sorted(F.bodies.items()):
            nodes = self.inst.get(key, [])
            for bl in b['blocks'] if nodes else []:
                for s in bl['s']:
                    if s[0] != '=' or s[2][0] != 'cast' or not s[2][1].startswith('IntToInt'):
                        continue
                    a, t = F.tstr(s[2][3]), F.tstr(s[2][4])
                    if not narrowing(a, t):
                        continue
                    sp = s[3]
                    n += 1

                    def find(V, own, key=key, sp=sp, a=a, t=t):
                        return [e for e in V.live('cast') if e.fr.key == key and e.sp == sp and list(e.tys) == [a, t]]
                    for node in nodes:
                        V = self.V(node)
                        if not find(V, None):
                            if not reached(V, key):
                                self.ob('narrowing casts keep the value', False, '%s: %s as %s' % (b['path'], a, t), sp, 'called in a way the analysis does not follow')
                            continue
                        self.lift('narrowing casts keep the value', node, key, '%s as %s' % (a, t), sp, find, self.narrow)
        return n

    # ------------------------------------------------------------ checked conversions
    def handled(self, V, e):
        """a failed conversion does not go unnoticed: (ok, why, error handed on)"""
        if e.ret is None:
            return True, '', False
        why = lossy(e.vals[0]) if e.vals else None
        if why:
            return False, 'the value is %s before it is converted' % why, False
        X = Explore(V, after(V, e), [(V.discr(e.ret), 1)])
        for r, al in X.returns():
            for a in al:
                if a.op == 'agg' and a.args[0][:2] == ('adt', 'Result') and a.args[0][2] == 1 or a is e.ret or X.values_of(V.discr(a)) == {1} and ('Result' in ret_ty(V, r)):
                    continue
                return False, 'goes on after a conversion that failed', False
        return True, '', bool(X.returns())

    def conversions(self):
        F = self.F
        n = 0
        for key, b in sorted(F.bodies.items()):
            nodes = self.inst.get(key, [])
            if not nodes:
                continue
            fs = [f for f in fns(b) if f['name'] in ('try_from', 'try_into') and (f.get('trait') or '').split('::')[-1] in ('TryFrom', 'TryInto')]
            for f in fs:
                args = [a for a in f['args'] if isinstance(a, int)]
                if len(args) == 2:
                    to, fr = (args[0], args[1]) if f['name'] == 'try_from' else (args[1], args[0])
                    if F.tstr(to) in W and F.tstr(fr) in W and not narrowing(F.tstr(fr), F.tstr(to)):
                        continue
                    if F.types[to].get('k') not in ('param',) and F.tstr(to) not in W and not F.tstr(to).startswith('odd_byte'):
                        if (F.tstr(fr) in W) is False:
                            continue
                n += 1
                root = b['root'] if b['kind'] == 'Closure' else key
                node = (root, ())
                what = '%s: %s' % (F.bodies[root]['path'], '%s to %s' % (F.tstr(fr), F.tstr(to)))
                V = self.ctx.V(self.cfg, root)
                es = [e for e in V.live('call') if e.fr.key == key and LAST(e.name) in ('try_from', 'try_into')]
                bad = [h for h in [self.handled(V, e) for e in es] if not h[0]]
                on = any(h[2] for h in [self.handled(V, e) for e in es]) and not bad
                if on:
                    # the error is handed to the callers
                    for c in sorted({F.bodies[x]['root'] if F.bodies[x]['kind'] == 'Closure' else x for x in self.rev().get(root, ())} - {root}):
                        Vc = self.ctx.V(self.cfg, c)
                        for e in Vc.live('call'):
                            if e.fr.key == key and LAST(e.name) in ('try_from', 'try_into'):
                                h = self.handled(Vc, e)
                                if not h[0]:
                                    bad.append((False, '%s in %s' % (h[1], F.bodies[c]['path'])))
                ok = not bad and (bool(es) or reached(V, key))
                self.ob('failed conversions are not ignored', ok, what, b['span'] if not es else es[0].sp, 'panics or returns the error' if ok else bad[0][1] if bad else 'called in a way the analysis does not follow')
        return n

    def wholes(self):
        """what is turned into one of the odd byte integers by `into`/`from` (which refuse what does not fit) was not cut down before, in the caller"""
        F, n = self.F, 0
        odd = lambda t: 'odd_byte' in str(F.types[F.peel(t)].get('path', F.tstr(t))) or 'odd_byte' in F.tstr(t)
        for key, b in sorted(F.bodies.items()):
            if not self.inst.get(key):
                continue
            root = b['root'] if b['kind'] == 'Closure' else key
            if not any(f['name'] in ('into', 'from') and any(isinstance(a, int) and odd(a) for a in f['args']) and any(isinstance(a, int) and F.tstr(a) in W for a in f['args']) for f in fns(b)):
                continue
            V = self.ctx.V(self.cfg, root)
            for e in V.live('call'):
                if not LAST(e.name).startswith('write_uint') or len(e.vals) < 2:
                    continue
                n += 1
                why = lossy(e.vals[1])
                self.ob('integers are stored whole', not why, '%s: into an odd byte integer' % F.bodies[root]['path'], e.sp, 'the value is %s before it is converted' % why if why else 'converted as it is')
        return n

    def rev(self):
        if not hasattr(self, '_rev'):
            self._rev = {}
            for a, s in lib.callgraph(self.F).items():
                for x in s:
                    self._rev.setdefault(x, set()).add(a)
        return self._rev

    # ------------------------------------------------------------ bytes
    def bytes(self):
        F = self.F
        n = 0
        for node in sorted(self.M.nodes, key=str):
            own = self.own(node)
            if not any(f['name'] in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes') or f['name'].startswith('write_uint') or f['name'].startswith('write_int') for k in own for f in fns(F.bodies[k])):
                continue
            V = self.V(node)
            where = self.M.show(node)
            for e in V.live('call'):
                if e.fr.key not in own:
                    continue
                nm = LAST(e.name)
                if nm.startswith(('write_uint', 'write_int')) and len(e.vals) >= 2:
                    n += 1
                    x = e.vals[1] if 'ByteOrder' in e.name or 'Endian' in e.name else e.vals[1]
                    why = lossy(x)
                    self.ob('integers are stored whole', not why, '%s: %s' % (where, nm), e.sp, why or 'refuses what does not fit')
            done = set()
            for ev in V.events:
                if ev.block in V.dead or ev.fr is None or ev.fr.key not in own:
                    continue
                vs = list(ev.vals or []) + ([ev.val] if getattr(ev, 'val', None) is not None and hasattr(ev.val, 'op') else [])
                for v in vs:
                    for t in subterms(v):
                        part = None
                        if t.op == 'fld' and t.args[1][0] == 'i' and byteser(t.args[0]):
                            part = (t.args[0], t.args[1][1])
                        elif t.op == 'call' and LAST(t.args[0]) in ('take', 'skip', 'truncate', 'split_at', 'first_chunk', 'zip') and len(t.args) > 2 and any(byteser(a) for a in t.args[2:]):
                            part = ([a for a in t.args[2:] if byteser(a)][0], t.args[-1])
                        elif t.op == 'mut' and LAST(t.args[0]) == 'truncate' and byteser(t.args[3]):
                            part = (t.args[3], t.args[4])
                        if part is None or (part[0], part[1]) in done:
                            continue
                        done.add(part)
                        n += 1
                        B, i = part
                        x = B.args[2]
                        k = width(i)
                        why = lossy(x)
                        full = k is not None and k >= nbytes(F, V, B)
                        ok = full or not why and bound(V, x, 2 ** (8 * k) - 1 if k else 2 ** 56 - 1, ev.block)
                        self.ob('integers are stored whole', ok, '%s: part of %s' % (where, LAST(B.args[0])), ev.sp or '', 'under a test of its size' if ok else 'only a part of the bytes of %s is used and no test that is still made in a release build bounds it' % pp(x, 3)[:60])
        return n

    # ------------------------------------------------------------ number of elements
    def limits(self):
        F, ctx, cfg = self.F, self.ctx, self.cfg
        n = m = 0
        adts = set()
        for k in lib.roots(F):
            b = F.bodies[k]
            if not lib.reachable(F, [k]) & self.pushers() and not self.makers(k):
                continue
            V = ctx.V(cfg, k)
            ps = [e for e in V.live('call') if e.fn and PUSH.search(e.fn.get('trait') or '') and e.vals]
            for e in ps:
                n += 1
                ok, why = self.room(V, e, ps)
                ctx.ob('elements are only added while there are ids for them', ok, '%s: %s' % (b['path'], F.bodies[e.fr.key]['path'].split('::{closure')[0]), e.sp, why)
            for e in V.live('agg'):
                v = e.val
                if v is None or v.op != 'agg' or v.args[0][0] != 'adt' or v.args[0][1] not in self.builders():
                    continue
                i = self.builders()[v.args[0][1]]
                m += 1
                E = v.args[1 + i]
                while E.op == 'call' and LAST(E.args[0]) == 'new' and len(E.args) == 3:
                    E = E.args[2]
                ok = self.inherited(V, b, E) or bound(V, mk('call', LEN, None, E), LIMIT, e.block)
                ctx.ob('an index is only made from elements there are ids for', ok, '%s: %s' % (b['path'], v.args[0][1].split('::')[-1]), e.sp,
                       'at most %d' % LIMIT if ok else 'nothing that is still tested in a release build bounds the number of the elements')
        ctx.floor('places that add elements to an index [%s]' % cfg, n, 1)
        ctx.floor('places that make an index to add elements to [%s]' % cfg, m, 1)

    def pushers(self):
        if not hasattr(self, '_p'):
            self._p = {k for k, b in self.F.bodies.items() if any(PUSH.search(f.get('trait') or '') and f['name'] == 'push' for f in fns(b))}
        return self._p

    def builders(self):
        """types that own elements and a list of layers they can add to: {path: field of the elements}"""
        if not hasattr(self, '_b'):
            F = self.F
            self._b = {}
            for p, a in F.adt_by_path.items():
                for v in a['vs']:
                    es = [i for i, f in enumerate(v['fs']) if any(F.types[x].get('k') == 'param' and F.tstr(x) in ('Elements', 'E') for x in F.walk(f['t'])) and f['n'] == 'elements']
                    cf = [f for f in v['fs'] if 'BuildConfig' in F.tstr(f['t'])]
                    if es and cf:
                        self._b[p] = es[0]
        return self._b

    def makers(self, k):
        b = self.F.bodies[k]
        if not hasattr(self, '_m'):
            self._m = {x for x, c in self.F.bodies.items() for bl in c['blocks'] for s in bl['s'] if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], dict) and s[2][1].get('path', s[2][1].get('p', s[2][1].get('adt'))) in self.builders()}
            if not self._m:
                self._m = {x for x, c in self.F.bodies.items() if c.get('out') is not None and any(p in self.F.tstr(c['out']) for p in self.builders())}
        return bool(lib.reachable(self.F, [k]) & self._m)

    def inherited(self, V, b, E):
        """taken out of something that is such an index already"""
        F = self.F
        seen, work, hit = set(), [E], []
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'fld':
                hit.append(False)
                r = x.args[0]
                while r.op in ('fld', 'phi', 'mut', 'with'):
                    if r.op == 'phi':
                        ins = [y for y in V.phi_in.get(r, {}).values() if y is not r]
                        if not ins or len(seen) > 60:
                            break
                        seen.add(r)
                        nxt = [y for y in ins if y not in seen]
                        if not nxt:
                            break
                        r = nxt[0]
                    elif r.op == 'mut':
                        r = r.args[3 + r.args[2]]
                    else:
                        r = r.args[0]
                    if r in seen and r.op != 'arg':
                        break
                    seen.add(r)
                if r.op == 'arg':
                    t = F.peel(b['ins'][r.args[0] - 1]) if b.get('ins') and r.args[0] <= len(b['ins']) else None
                    hit[-1] = t is not None and F.types[t].get('path') in self.builders()
            elif x.op == 'phi':
                work += list(V.phi_in.get(x, {}).values())
            elif x.op == 'mut':
                work.append(x.args[3 + x.args[2]])
            else:
                hit.append(False)
        return bool(hit) and all(hit)

    def room(self, V, e, ps):
        R = e.vals[0]
        one = mk('call', LEN, None, R)
        if bound(V, one, LIMIT - 1, e.block):
            return True, 'tested right before'
        base = whole2(V, R)
        total = {}
        L = Linear(V, norm2(V))
        sites = [p for p in ps if whole2(V, p.vals[0]) is base]
        for p in sites:
            s = self.times(V, p)
            if s is None:
                return False, 'nothing bounds how many elements are added here'
            total = add(total, L.lin(s))
        have = L.lin(mk('call', LEN, None, base))
        ok = L.prove(add(add({(): LIMIT}, have, -1), total, -1), V.facts(e.block))
        return ok, 'for all added together' if ok else 'nothing that is still tested in a release build shows that %s more elements still have ids' % pp(self.times(V, e), 3)[:60]

    def times(self, V, e):
        """how often a push is made: once for each of a sequence, or once"""
        R, x = e.vals[0], e.vals[1] if len(e.vals) > 1 else None
        if R.op != 'phi':
            return INT(1)
        if x is not None and x.op == 'elem':
            return V.length(x.args[0])
        for t, v in V.facts(e.block):
            if t.op == 'discr' and v == 1 and t.args[0].op == 'call' and LAST(t.args[0].args[0]) == 'next':
                return V.length(t.args[0].args[2])
        return None

    def run(self):
        F, ctx, cfg = self.F, self.ctx, self.cfg
        self.marks = markers(F)
        ctx.stats['types with a marker [%s]' % cfg] = sorted('%s %s' % m for m in self.marks)
        a, b, c = self.casts(), self.conversions(), self.bytes() + self.wholes()
        ctx.stats['narrowing casts, checked conversions, byte writers [%s]' % cfg] = [a, b, c]
        ctx.floor('narrowing conversions [%s]' % cfg, a + b + c, 8)
        if cfg == 'rw' or ctx.tier != 'quick':
            self.limits()


def ret_ty(V, r):
    return V.F.tstr(V.F.bodies[V.ir.root if hasattr(V.ir, 'root') else r.fr.key]['out']) if V.F.bodies.get(r.fr.key if r.fr else None, {}).get('out') is not None else ''


def reached(V, key):
    return any(B.fr is not None and B.fr.key == key for B in V.ir.blocks)


def byteser(t):
    return t.op == 'call' and LAST(t.args[0]) in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes') and len(t.args) > 2


def width(i):
    """constant number of bytes an index or count takes"""
    if i.op == 'int':
        return None
    if i.op == 'agg':
        n = str(i.args[0][1]).split('::')[-1]
        if n == 'RangeTo' and i.args[1].op == 'int':
            return i.args[1].args[0]
        if n == 'RangeFull':
            return 99
        if n == 'Range' and i.args[1] is INT(0) and i.args[2].op == 'int':
            return i.args[2].args[0]
    return None


def nbytes(F, V, B):
    m = re.search(r'impl (\w+)>', str(B.args[0]))
    return W.get(m.group(1), 64) // 8 if m else 8


def whole2(V, S):
    """the container before what was appended to it"""
    seen, work, out = set(), [S], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and V.phi_in.get(x):
            work += list(V.phi_in[x].values())
        elif x.op == 'mut' and LAST(x.args[0]) == 'push':
            work.append(x.args[3 + x.args[2]])
        else:
            out.add(x)
    return out.pop() if len(out) == 1 else S


def norm2(V):
    c = cut(V)

    def norm(t):
        if t.op == 'len':
            S = t.args[0]
            while S.op == 'call' and LAST(S.args[0]) in ('into_iter', 'iter', 'drain', 'collect', 'enumerate', 'map', 'rev') and len(S.args) > 2:
                S = S.args[2]
            if S.op == 'mut' and LAST(S.args[0]) == 'split_off' and S.args[2] == 0:
                return S.args[4]
            if S.op == 'mut' and LAST(S.args[0]) == 'truncate' and S.args[2] == 0:
                return mk('min', S.args[4], V.length(S.args[3]))
            if S.op == 'call' and LAST(S.args[0]) == 'take' and len(S.args) > 3:
                return S.args[3]
            if S is not t.args[0]:
                return V.length(S)
        return c(t)
    return norm


def bound(V, x, most, block, d=0):
    L = Linear(V, norm2(V))
    if L.le(x, INT(most), V.facts(block)):
        return True
    if x.op == 'phi' and d < 4 and V.phi_in.get(x):
        for p, v in V.phi_in[x].items():
            if p == 'entry':
                return False
            pf, live = V.edge_facts(p, x.args[0])
            if live and not L.le(v, INT(most), list(pf) + list(V.facts(p))) and not bound(V, v, most, p, d + 1):
                return False
        return True
    return False


def run(ctx):
    for cfg in ('rw', 'blas') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        Check(ctx, cfg).run()
