"""Every operation of the program that the compiler does not check for memory safety is enumerated - calls of and references to unsafe
functions, dereferences of raw pointers, unsafe casts and unsafe impls, in all feature configurations - and each must belong to a kind for
which there is a rule that justifies it: values read through raw pointers lie within the slice the pointer was taken from (judged in every
monomorphic instance, and in the callers where the function itself does not know); unchecked indices are smaller than the length by the
branch facts that hold there; the count passed to a BLAS routine does not exceed the length of any slice passed with it and the increments
are 1; data that other threads may change through locks is read without those only while one exclusive lock is held that every change
also needs; references made from raw pointers do not outlive what they were made from. An operation of any other kind is a violation."""
import re
import lib, locks
from linear import Linear
from mono import Mono, closures, fns
from rules import c06
from rules.c11 import fnname, pathstr
from rules.c13 import raw_read
from vals import INT, mk, pp

TECHNIQUE = 'enumeration of all unchecked operations with bounds facts, lock sets and signatures at each (MIR query, linear arithmetic)'
NOTE = 'Safe Rust is bounds-checked by the compiler; trusted: the standard library, parking_lot, rayon and the interface of BLAS. Vectorised functions are C09, memory maps C08, alignment C06. owning_ref is trusted except for as_owner.'

LAST = c06.last
FREE = {'fmt::Arguments::new', 'fmt::Arguments::new_v1', 'fmt::rt::Argument::none'}
PTR = c06.ONE | c06.UNAL | c06.COPY
UNCHECKED = {'get_unchecked', 'get_unchecked_mut'}
# routine: position of the count, then (slice, increment) pairs
BLAS = {'dot': (0, [(1, 2), (3, 4)]), 'axpy': (0, [(2, 3), (4, 5)]), 'nrm2': (0, [(1, 2)]), 'scal': (0, [(2, 3)]), 'asum': (0, [(1, 2)]),
        'copy': (0, [(1, 2), (3, 4)]), 'swap': (0, [(1, 2), (3, 4)]), 'iamax': (0, [(1, 2)]), 'iamin': (0, [(1, 2)]), 'rot': (0, [(1, 2), (3, 4)])}
# unsafe functions without a memory-safety contract on their arguments here
DERIVED = re.compile(r'^(std|core|alloc)::')


def ptr_ty(F, b, l, tmap=()):
    t = F.types[F.subst(b['locals'][l], dict(tmap))]
    return t if t.get('k') == 'ptr' else None


def derefs(F, b):
    """raw pointers dereferenced in a body: {local: pointee type}"""
    out = {}

    def walk(o):
        if isinstance(o, list):
            if len(o) > 1 and isinstance(o[0], int) and not isinstance(o[0], bool) and o[1] == '*' and o[0] < len(b['locals']):
                t = ptr_ty(F, b, o[0])
                if t and not F.tstr(t['t']).startswith('std::mem::MaybeUninit<') and not boxed(F, b, o[0]):
                    out[o[0]] = t['t']
            for x in o:
                walk(x)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x)
    for bl in b['blocks']:
        walk(bl['s'])
        walk(bl['t'])
    return out


def defs(b, l):
    out = []
    for bl in b['blocks']:
        for s in bl['s']:
            if s[0] == '=' and s[1] == l:
                out.append(('s', s[2], s[3] if len(s) > 3 else ''))
        t = bl['t']
        if t['t'] == 'call' and t.get('d') == l:
            out.append(('c', t, t.get('sp', '')))
    return out


def boxed(F, b, l):
    """a pointer the compiler takes out of a Box to reach its content"""
    ds = defs(b, l)
    for k, r, sp in ds:
        if k == 's' and r[0] == 'cast' and r[1] == 'Transmute' and 'NonNull' in F.tstr(r[3]):
            continue
        return False
    return bool(ds)


def cut(V):
    """lengths of parts of slices (made by checked indexing) in terms of what they were cut at"""
    def norm(t):
        if t.op != 'len':
            return None
        S = whole(V, t.args[0])
        if S is not t.args[0]:
            return V.length(S)
        if S.op == 'fld' and S.args[1][0] == 'i' and hasattr(S.args[1][1], 'op') and S.args[1][1].op == 'agg':
            r = S.args[1][1]
            n = str(r.args[0][1]).split('::')[-1]
            if n == 'Range':
                return mk('bin', 'Sub', r.args[2], r.args[1])
            if n == 'RangeTo':
                return r.args[1]
            if n == 'RangeFrom':
                return mk('bin', 'Sub', V.length(S.args[0]), r.args[1])
            if n == 'RangeFull':
                return V.length(S.args[0])
        if S.op == 'elem' and S.args[0].op == 'call' and LAST(S.args[0].args[0]) in ('chunks_exact', 'chunks_exact_mut', 'windows') and len(S.args[0].args) > 3:
            return S.args[0].args[3]
        return None
    return norm


def whole(V, S):
    """the slice before what was done to its elements"""
    seen, work, out = set(), [S], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and V.phi_in.get(x):
            work += list(V.phi_in[x].values())
        elif x.op == 'mut' and (str(x.args[0]).startswith('slice::') or LAST(x.args[0]) in ('index_mut', 'deref_mut', 'iter_mut', 'as_mut_slice', 'as_mut_ptr')):
            work.append(x.args[3 + x.args[2]])
        elif x.op == 'with' and all(k[0] == 'i' for k, v in x.args[1]):
            work.append(x.args[0])
        else:
            out.add(x)
    return out.pop() if len(out) == 1 else S


def fits(V, c, n, block, fs, d=0):
    """c <= n, whichever way the values came"""
    L = Linear(V, cut(V))
    if L.le(c, n, fs):
        return True
    if c.op == 'phi' and d < 4 and V.phi_in.get(c):
        for p, v in V.phi_in[c].items():
            pf, live = V.edge_facts(p, c.args[0])
            if live and not fits(V, v, n, p, list(pf) + list(V.facts(p)) + list(fs), d + 1):
                return False
        return True
    return False


def use(o):
    return o.get('m', o.get('c')) if isinstance(o, dict) else None


class Check(object):
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.F = ctx, cfg, ctx.F(cfg)
        F = self.F
        self.M = Mono(F, lib.roots(F))
        self.inst = {}
        for n in self.M.nodes:
            for k in [n[0]] + closures(F, n[0]):
                self.inst.setdefault(k, []).append(n)
        self.raw = {k for k, b in F.bodies.items() if b['kind'] != 'Closure' and b.get('self_ty') is not None and raw_read(F, b) and (b.get('unsafe') or any(f['path'].startswith('owning_ref') and f['name'] == 'as_owner' for f in fns(b)))}

    def V(self, n):
        return self.ctx.V(self.cfg, n[0], tag=('c06', n[1]), tmap=dict(n[1]))

    def own(self, n):
        return set([n[0]] + closures(self.F, n[0]))

    def ob(self, rule, ok, where, sp, why):
        self.ctx.ob(rule, ok, where, sp, why)

    def lift(self, rule, node, k, what, sp, find, judge):
        """every operation find(V, own) yields in an instance must hold there or, for what it does not know, in every caller"""
        F, M = self.F, self.M
        own = self.own(node)
        V = self.V(node)
        bad = [judge(V, s) for s in find(V, own)]
        bad = [w for ok, w in bad if not ok]
        where = '%s: %s' % (M.show(node), what)
        if not bad:
            return self.ob(rule, True, where, sp, 'holds in the function itself')
        why, at = bad[0], M.show(node)
        todo, seen = [node], {node}
        while todo:
            x = todo.pop()
            if x in M.roots and not F.bodies[x[0]].get('unsafe'):
                return self.ob(rule, False, where, sp, 'entered from %s without it: %s' % (M.show(x), why))
            for c in sorted(M.callers.get(x, ()), key=str):
                if c in seen:
                    continue
                seen.add(c)
                W = self.V(c)
                rest = [judge(W, s) for s in find(W, own)]
                rest = [w for ok, w in rest if not ok]
                if rest:
                    why = rest[0]
                    todo.append(c)
        self.ob(rule, True, where, sp, 'justified in every caller (%d instances)' % (len(seen) - 1))

    # ------------------------------------------------------------ kinds
    def raw_access(self, V, s):
        src = c06.source(V, s.p)
        if src is None:
            return False, 'the pointer %s is not taken from a slice' % pp(s.p, 3)[:60]
        n = LAST(s.e.name) if s.e else ''
        if (n.endswith('_mut') and n != 'cast_mut' or n in ('write', 'write_unaligned', 'write_bytes', 'replace', 'write_volatile')) and 'mut' not in LAST(src[0].args[0]):
            return False, 'writes through a pointer taken from a shared slice'
        if not c06.extent(V, s, src):
            return False, 'nothing shows that %s value(s) of %s lie within the slice they are reached from' % (pp(s.n, 4)[:60], self.F.tstr(s.T) if s.T is not None else '?')
        return True, ''

    def unchecked(self, V, e):
        S, i = e.vals[0], e.vals[1]
        L, N, fs = Linear(V, cut(V)), V.length(e.vals[0]), V.facts(e.block)
        if i.op == 'agg' and 'Range' in str(i.args[0][1]):
            r = str(i.args[0][1]).split('::')[-1]
            lo, hi = {'Range': (i.args[1], i.args[2]), 'RangeTo': (INT(0), i.args[1]), 'RangeFrom': (i.args[1], N), 'RangeFull': (INT(0), N)}.get(r, (None, None)) if len(i.args) > 1 or r == 'RangeFull' else (None, None)
            ok = lo is not None and L.le(lo, hi, fs) and fits(V, hi, N, e.block, fs)
        else:
            ok = L.less(i, V.length(whole(V, S)), fs)
        return ok, 'nothing shows that %s is within the length of %s' % (pp(i, 3)[:60], pp(S, 3)[:60])

    def blas(self, V, e):
        m = re.match(r'^[sdcz]{1,2}(\w+?)u?c?$', LAST(e.name)) or re.match(r'^i?[sdcz](\w+)$', LAST(e.name))
        n = LAST(e.name)
        spec = BLAS.get(n[1:]) or BLAS.get('i' + n[2:] if n.startswith('i') else '')
        if spec is None:
            return False, 'no rule for this routine'
        fs = V.facts(e.block)
        c = e.vals[spec[0]]
        while c.op == 'cast' or c.op == 'call' and LAST(c.args[0]) in ('try_from', 'try_into', 'unwrap', 'expect', 'into', 'from') and len(c.args) > 2:
            c = c.args[-1] if c.op == 'cast' else c.args[2]
        for a, k in spec[1]:
            if e.vals[k] is not INT(1):
                return False, 'increment %s' % pp(e.vals[k], 3)
            if not fits(V, c, V.length(e.vals[a]), e.block, fs):
                return False, 'nothing shows that %s values fit in %s' % (pp(c, 4)[:60], pp(e.vals[a], 3)[:60])
        return True, ''

    def at(self, key, name, sp):
        """finder of the calls made at one place of a body"""
        def find(V, own):
            return [e for e in V.live('call') if e.fr.key == key and e.sp == sp and LAST(e.name) == name]
        return find

    def points(self, b, key, l, T, seen=()):
        """how a dereferenced raw pointer came about: list of ('param',) | ('ref', pointee type) | ('call', fn record, span) | ('?', text)"""
        F = self.F
        if l in seen:
            return []
        if 0 < l <= b['argc']:
            return [('param', l)]
        out = []
        for k, r, sp in defs(b, l):
            if k == 'c':
                f = r['f'].get('k', {}).get('fn') if isinstance(r['f'].get('k'), dict) else None
                out.append(('call', f, sp) if f else ('?', 'an unknown call'))
            elif r[0] in ('rawptr', 'ref'):
                out.append(('ref', T))
            elif r[0] == 'use' and isinstance(use(r[1]), int):
                out += self.points(b, key, use(r[1]), T, seen + (l,))
            elif r[0] == 'cast' and isinstance(use(r[2]), int):
                f = F.types[r[3]]
                if f.get('k') == 'ref':
                    out.append(('cast', f['t']))
                elif f.get('k') == 'ptr':
                    out += [('cast', p[1]) if p[0] == 'ref' else p for p in self.points(b, key, use(r[2]), f['t'], seen + (l,))]
                else:
                    out.append(('?', 'cast from ' + F.tstr(r[3])))
            else:
                out.append(('?', str(r[0])))
        return out or [('?', 'nothing known')]

    def owner_param(self, key):
        """a closure handed to OwningHandle::new_with_fn only: its parameter points to what the handle owns"""
        F = self.F
        b = F.bodies[key]
        if b['kind'] != 'Closure':
            return False
        p = F.bodies.get(b['parent'])
        if p is None:
            return False
        n = 0
        for node in self.inst.get(key, []):
            V = self.V((p['root'] if p['kind'] == 'Closure' else p['key'], ())) if False else self.V(node)
            for e in V.live('call'):
                for v in e.vals:
                    if v.op in ('closure', 'agg') and key in str(v.args[0]) and not e.name.startswith('owning_ref::OwningHandle::new_with_fn') and 'new_with_fn' not in e.name:
                        return False
                    if v.op in ('closure', 'agg') and key in str(v.args[0]) and 'new_with_fn' in e.name:
                        n += 1
        if n:
            return True
        # the parent mentions the library function and nothing else that could take the closure
        return any(f['name'] == 'new_with_fn' and 'owning' in f['path'] for f in fns(p))

    # ------------------------------------------------------------ all
    def run(self):
        F, ctx, cfg = self.F, self.ctx, self.cfg
        kinds = {}

        def count(k):
            kinds[k] = kinds.get(k, 0) + 1
        raws, lifted = [], set()
        for key, b in sorted(F.bodies.items()):
            # private functions nothing can call are not part of the program
            nodes = self.inst.get(key, [])
            if not nodes:
                continue
            for bl in b['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'Transmute' and not from_box(F, s[2][3]):
                        count('casts')
                        ok = plain(F, s[2][3]) and plain(F, s[2][4])
                        self.ob('every unchecked operation has a justification', ok, '%s: transmute to %s' % (b['path'], F.tstr(s[2][4])), s[3] if len(s) > 3 else '', 'plain numbers' if ok else 'transmute from %s' % F.tstr(s[2][3]))
                t = bl['t']
                called = t['f']['k']['fn'] if t['t'] == 'call' and isinstance(t['f'].get('k'), dict) and isinstance(t['f']['k'].get('fn'), dict) else None
                for f in fns({'blocks': [bl]}):
                    if not f.get('unsafe'):
                        continue
                    self.one(b, key, nodes, f, t.get('sp', '') if f is called else '', f is called, count, raws, lifted)
            for l, T in sorted(derefs(F, b).items()):
                count('dereferences of raw pointers')
                self.deref(b, key, nodes, l, T)
        self.typed()
        self.shared()
        for im in F.impls:
            if im.get('unsafe') and 'TrivialClone' not in str(im['trait']):
                self.ob('every unchecked operation has a justification', False, 'unsafe impl %s for %s' % (im['trait'], F.tstr(im['self'])), '', 'nothing checks what the impl promises')
        ctx.stats['unchecked operations [%s]' % cfg] = kinds
        ctx.floor('unchecked operations [%s]' % cfg, sum(kinds.values()), 8)

    def one(self, b, key, nodes, f, sp, called, count, raws, lifted):
        F = self.F
        p, n = f['path'], f['name'] if f.get('name') else LAST(f['path'])
        where = '%s: %s' % (b['path'].split('::{closure')[0], p)
        rule = 'every unchecked operation has a justification'
        if p.startswith(('std::fmt::Arguments', 'core::fmt::Arguments', 'std::fmt::rt::', 'core::fmt::rt::')):
            return
        if f.get('tf'):
            count('vectorised functions')
            return self.ob(rule, True, where, sp, 'C09 decides where it may be used')
        if re.match(r'<?(memmap|mmap|fmmap)', p):
            count('memory maps')
            return self.ob(rule, True, where, sp, 'C08 decides who may keep it')
        if f.get('local'):
            k = f.get('key') or f.get('path')
            count('unsafe functions of the crate')
            return self.ob(rule, True, where, sp, 'what is unchecked in it is judged there, in every calling context')
        if p.startswith('blas::'):
            count('BLAS calls')
            if not called:
                return self.ob('counts passed to BLAS fit the slices', False, where, sp, 'taken as a value: its arguments are not known')
            for node in nodes:
                self.lift('counts passed to BLAS fit the slices', node, key, p, sp, self.at(key, LAST(p), sp), self.blas)
            return
        if n in UNCHECKED and called:
            count('unchecked indexing')
            for node in nodes:
                self.lift('unchecked indices are in bounds', node, key, n, sp, self.at(key, n, sp), self.unchecked)
            return
        if n in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in p or c06.is_ptr(p) and n in PTR:
            count('accesses through raw pointers')
            self.life(b, key, n, where, sp, F.bodies[b['root']] if b['kind'] == 'Closure' else b)
            if not called:
                self.ob(rule, False, where, sp, 'taken as a value: its arguments are not known')
            return
        if c06.is_ptr(p) and n in c06.MOVES and called:
            count('pointer arithmetic')
            return self.ob(rule, self.consumed(key, nodes, n, sp), where, sp, 'the moved pointer is used by accesses that are judged')
        count('others')
        self.ob(rule, False, where, sp, 'an unsafe operation no rule justifies')

    def consumed(self, key, nodes, n, sp):
        """does every use of a moved pointer belong to a judged access or a judged dereference?"""
        F = self.F
        for node in nodes:
            V = self.V(node)
            es = self.at(key, n, sp)(V, None)
            ss = c06.sites(V)
            for e in es:
                if not any(contains(s.p, e.ret) for s in ss) and not any(derefs(F, F.bodies[k]) for k in self.own(node)):
                    return False
        return True

    def life(self, b, key, n, where, sp, fn):
        """references made here do not outlive what the function was given"""
        if n not in ('from_raw_parts', 'from_raw_parts_mut', 'as_ref', 'as_mut', 'as_ref_unchecked', 'deref'):
            return
        sig = fn.get('sig') or ''
        m = re.match(r'^(?:for<[^>]*> )?(?:unsafe )?fn\((.*)\)(?: -> (.*))?$', sig)
        ok, extra = True, set()
        if m and m.group(2):
            life = lambda s: set(re.findall(r"'\w+", s))
            extra = life(m.group(2)) - life(m.group(1))
            ok = not extra
        self.ob('references made from raw pointers do not outlive their source', ok, where, sp, 'the result lives as long as an argument' if ok else 'the result can have the lifetime %s, which no argument has: %s' % (', '.join(sorted(extra)), sig))

    def deref(self, b, key, nodes, l, T):
        F = self.F
        rule = 'accesses through raw pointers stay within the slice they were taken from'
        where = '%s: * %s' % (b['path'], F.tstr(T))
        self.life(b, key, 'deref', where, b['span'], F.bodies[b['root']] if b['kind'] == 'Closure' else b)
        for p in self.points(b, key, l, T):
            if p[0] == 'ref':
                self.ob(rule, True, where, b['span'], 'the address of a place')
            elif p[0] == 'param':
                ok = self.owner_param(key)
                self.ob(rule, ok, where, b['span'], 'what the owning handle points to, owned by it' if ok else 'a pointer passed in')
            elif p[0] == 'cast':
                x, y = c06.size(F, p[1]), c06.size(F, T)
                fx, fy = F.types[p[1]], F.types[T]
                ok = F.tstr(p[1]) == F.tstr(T) or x is not None and y is not None and y <= x and c06.plain(F, T) is None
                self.ob(rule, ok, where, b['span'], 'a reference to %s' % F.tstr(p[1]))
            elif p[0] == 'call':
                n, sp = p[1]['name'], p[2]
                if n not in c06.MOVES and n not in ('as_ptr', 'as_mut_ptr'):
                    self.ob(rule, False, where, sp, 'the pointer comes from %s' % p[1]['path'])
                    continue

                def find(V, own, n=n, sp=sp):
                    return [c06.Site(V, e, False, INT(1), e.ret, T) for e in self.at(key, n, sp)(V, own) if e.ret is not None]
                for node in nodes:
                    self.lift(rule, node, key, 'through ' + n, sp, find, self.raw_access)
            else:
                self.ob(rule, False, where, b['span'], 'a pointer made from %s' % p[1])

    def typed(self):
        """reads, writes and slices made through raw pointers"""
        F, M = self.F, self.M
        rule = 'accesses through raw pointers stay within the slice they were taken from'
        cl = {k: c06.has_ops(F, k) for k in F.bodies}
        n = 0
        for node in sorted(M.nodes, key=str):
            own = self.own(node)
            if not any(cl.get(k) for k in own):
                continue
            seen = set()
            for s in c06.sites(self.V(node)):
                if s.e.fr.key not in own or (s.e.name, s.T) in seen:
                    continue
                seen.add((s.e.name, s.T))
                n += 1
                T = s.T

                def find(V, o, nm=s.e.name, T=T):
                    return [z for z in c06.sites(V) if z.e.fr.key in o and z.e.name == nm and (z.T is None or T is None or F.tstr(z.T) == F.tstr(T))]
                self.lift(rule, node, node[0], '%s %s' % (LAST(s.e.name), F.tstr(T) if T is not None else ''), s.e.sp, find, self.raw_access)
        self.ctx.stats['typed accesses [%s]' % self.cfg] = n

    # ------------------------------------------------------------ data shared through locks
    def shared(self):
        """data that is read past its locks"""
        F, ctx, cfg = self.F, self.ctx, self.cfg
        if not self.raw:
            # an index whose lists are locked singly has a function that reads them all
            ctx.stats['functions that read locked data raw [%s]' % cfg] = []
        else:
            ctx.stats['functions that read locked data raw [%s]' % cfg] = sorted(F.bodies[k]['path'] for k in self.raw)
            for k in sorted(self.raw):
                b = F.bodies[k]
                ok = bool(b.get('unsafe')) or not b.get('exported')
                ctx.ob('data protected by locks is not handed out past them', ok, b['path'], b['span'], 'unsafe or private')
            L = locks.Locks(F)
            reads, writes = [], []

            def visit(kind, way, k, i, t, may, must, a):
                if kind == 'acquire':
                    if a.mode == 'w' and a.content and '&' in str(a.content):
                        writes.append((a, must, way, t.get('sp', '')))
                    return
                f = L.call(t)
                if f and (f.get('key') in self.raw or resolved(F, f) in self.raw) and k not in self.raw:
                    reads.append((f['path'], must, way, t.get('sp', '')))
            L.explore(lib.pubroots(F) if hasattr(lib, 'pubroots') else lib.roots(F), visit)
            common = None
            for p, must, way, sp in reads:
                if alone(F, way[0]):
                    continue
                ex = {x.name() for x in must if x.mode == 'w'}
                common = ex if common is None else common & ex
            for p, must, way, sp in reads:
                ok = alone(F, way[0]) or bool(common)
                ctx.ob('data protected by locks is read past them only while it cannot change', ok, '%s: %s' % (fnname(F, way[-1]), p), sp,
                       'under %s' % ', '.join(sorted(common)) if ok and common else 'exclusive access' if ok else 'no exclusive lock is held at all such reads; here: %s (%s)' % (sorted(map(repr, must)) or 'nothing', pathstr(F, way)))
            if common:
                seen = set()
                for a, must, way, sp in writes:
                    if alone(F, way[0]):
                        continue
                    ok = any(x.name() in common for x in must)
                    w = '%s -> %s' % (fnname(F, way[0]), fnname(F, way[-1]))
                    if (w, ok) not in seen:
                        seen.add((w, ok))
                        ctx.ob('data protected by locks is read past them only while it cannot change', ok, w, sp, 'changes it under %s' % ', '.join(sorted(common)) if ok else 'changes it without %s (%s)' % (' or '.join(sorted(common)), pathstr(F, way)))
        for k, b in F.bodies.items():
            if b['kind'] != 'Closure' and b.get('exported') and b.get('out') is not None:
                for t in F.walk(b['out']):
                    ty = F.types[t]
                    if ty.get('k') == 'adt' and locks.LOCKT.search(ty.get('path', '')) and any(F.types[x].get('k') == 'ref' and F.types[x].get('mut') for x in F.walk(t)):
                        ctx.ob('data protected by locks is not handed out past them', False, b['path'], b['span'], 'returns locked references into data it does not keep alive: %s' % b.get('sig'))


def resolved(F, f):
    r = f.get('res')
    return r.get('key') if isinstance(r, dict) else r


def alone(F, k):
    """does the operation have its object for itself?"""
    b = F.bodies[k]
    if b['kind'] == 'Closure' or not b.get('ins'):
        return False
    t = F.types[b['ins'][0]]
    return t.get('k') != 'ref' or bool(t.get('mut'))


def from_box(F, t):
    return 'NonNull' in F.tstr(t)


def plain(F, t):
    ty = F.types[t]
    return ty.get('k') not in ('ref', 'ptr', 'fn', 'dyn', 'fnptr', 'param') and c06.plain(F, t) is None


def contains(t, x):
    from vals import contains as c
    return c(t, x)


def run(ctx):
    for cfg in ('rw', 'blas') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        Check(ctx, cfg).run()
