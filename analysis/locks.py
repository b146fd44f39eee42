"""Lock-set analysis over the type-checked program. Guards are found by their types (lock_api, parking_lot and std guards); ownership says
exactly where a guard is held: from the call that returns it until it is moved into a call that ends it or dropped. The held sets are
propagated from the entry points through calls, closures and function values (work handed to a thread pool counts as done by the
thread that waits for it)."""
import re
import lib

ACQ = re.compile(r'(^|::)(RwLock|Mutex|ReentrantMutex|FairMutex)(::<[^>]*>)?::(try_)?(read|write|lock|upgradable_read|read_recursive)(_recursive|_for|_until)?$')
GUARD = re.compile(r'(^|::)(Mapped)?(RwLock(Upgradable)?(Read|Write)Guard|MutexGuard|ReentrantMutexGuard|FairMutexGuard|RwLockUpgradableReadGuard|ArcRwLock(Read|Write)Guard|ArcMutexGuard)$')
LOCKT = re.compile(r'(^|::)(RwLock|Mutex|ReentrantMutex|FairMutex)$')


class Inst(object):
    """one acquisition: lock class (kind, content type, origin), mode and site"""
    __slots__ = ('kind', 'content', 'origin', 'mode', 'site', 'rec')

    def __init__(self, kind, content, origin, mode, site, rec=False):
        self.kind, self.content, self.origin, self.mode, self.site, self.rec = kind, content, origin, mode, site, rec

    def id(self):
        return (self.kind, self.content, self.origin, self.mode, self.site)

    def __eq__(self, o):
        return self.id() == o.id()

    def __hash__(self):
        return hash(self.id())

    def name(self):
        return self.origin if isinstance(self.origin, str) else '%s<%s>' % (self.kind, self.content)

    def __repr__(self):
        return '%s.%s@%s' % (self.name(), self.mode, self.site)


def same(a, b):
    """may the two acquisitions be on the same lock"""
    if a.kind != b.kind:
        return False
    fa, fb = isinstance(a.origin, str), isinstance(b.origin, str)
    if fa and fb:
        return a.origin == b.origin
    if a.content == b.content:
        return True
    # a lock on a generic parameter, of unknown origin, may be any lock; one held in a known field is that field
    return a.content is None and not fa or b.content is None and not fb


class Locks(object):
    def __init__(self, F):
        self.F = F
        self._own, self._flow, self._defs = {}, {}, {}
        self.fnrefs = lib.resolver(F)

    # ------------------------------------------------------------ types
    def guards(self, t):
        """(path, content type index) of guards a value of type t owns"""
        if t not in self._own:
            self._own[t] = set()
            out, F = set(), self.F
            r = F.types[t]
            if r.get('k') == 'adt':
                if GUARD.search(r['path']):
                    out.add((r['path'].split('::')[-1], r['args'][-1] if r['args'] else None))
                elif r.get('local'):
                    a = F.adt_by_path.get(r['path'])
                    for v in (a or {'vs': []})['vs']:
                        for f in v['fs']:
                            out |= self.guards(f['t'])
                for x in r.get('args', ()):
                    if isinstance(x, int) and F.types[x].get('k') not in ('ref', 'ptr'):
                        out |= self.guards(x)
            elif r.get('k') in ('tuple', 'closure'):
                for x in r.get('ts', ()):
                    out |= self.guards(x)
            self._own[t] = out
        return self._own[t]

    def content(self, t):
        """content type of the lock that (a reference to) t is"""
        r = self.F.types[self.F.peel(t)]
        while r.get('k') == 'adt' and not LOCKT.search(r['path']) and r['path'].split('::')[-1] in ('Arc', 'Rc') and r['args']:
            r = self.F.types[self.F.peel(r['args'][0])]
        if r.get('k') == 'adt' and LOCKT.search(r['path']) and r['args']:
            return self.cstr(r['args'][-1])
        return None

    def cstr(self, t):
        if t is None:
            return None
        r = self.F.types[t]
        if r.get('k') == 'param':
            return None
        return re.sub(r"'\w+", "'_", self.F.tstr(t))

    # ------------------------------------------------------------ places
    def defs(self, k):
        if k not in self._defs:
            d = {}
            for bl in self.F.bodies[k]['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and isinstance(s[1], int):
                        d.setdefault(s[1], []).append(s[2])
                t = bl['t']
                if t['t'] == 'call' and isinstance(t['d'], int):
                    d.setdefault(t['d'], []).append(['call', t])
            self._defs[k] = d
        return self._defs[k]

    def origin(self, k, p, depth=0):
        """where a lock reference comes from: 'Type.field', ('arg', i) or None"""
        b, F = self.F.bodies[k], self.F
        if depth > 12:
            return None
        base, proj = (p, []) if isinstance(p, int) else (p[0], p[1:])
        # the last field projection on a named type
        last, seen = None, None
        fields = [x for x in proj if x != '*']
        if fields:
            if isinstance(fields[-1], dict) and 'f' in fields[-1]:
                if 'n' in fields[-1]:
                    owner = self.owner(k, base, proj)
                    return '%s.%s' % (owner, fields[-1]['n']) if owner else None
            return None
        if 1 <= base <= b['argc']:
            return ('arg', base)
        ds = self.defs(k).get(base, [])
        if len(ds) != 1:
            return None
        r = ds[0]
        if r[0] == 'ref' or r[0] == 'rawptr':
            return self.origin(k, r[2], depth + 1)
        if r[0] in ('use', 'cast') and isinstance(r[1], dict) and ('m' in r[1] or 'c' in r[1]):
            return self.origin(k, r[1].get('m', r[1].get('c')), depth + 1)
        if r[0] == 'call' and r[1]['f'].get('k', {}).get('fn', {}).get('name') in ('deref', 'as_ref', 'borrow', 'clone') and r[1]['a']:
            a = r[1]['a'][0]
            q = a.get('m', a.get('c'))
            if q is not None:
                return self.origin(k, q, depth + 1)
        return None

    def owner(self, k, base, proj):
        """type name owning the last field of a projection"""
        F, t = self.F, self.F.bodies[k]['locals'][base]
        own = None
        for x in proj:
            if x == '*':
                t = F.types[t]['t'] if 't' in F.types[t] else F.peel(t)
            elif isinstance(x, dict) and 'f' in x:
                r = F.types[t]
                own = r.get('path', '').split('::')[-1] if r.get('k') == 'adt' and r.get('local') and len((self.F.adt_by_path.get(r['path']) or {'vs': ()})['vs']) == 1 else None
                t = x.get('t', t)
            elif isinstance(x, dict) and 't' in x:
                t = x['t']
        return own

    # ------------------------------------------------------------ one function
    def call(self, t):
        return t['f']['k']['fn'] if isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k'] else None

    def acquisition(self, k, t):
        f = self.call(t)
        if not f:
            return None
        m = ACQ.search(re.sub(r'::<.*?>(?=::)', '', f['path']))
        if not m or f.get('local'):
            return None
        d = self.F.bodies[k]['locals'][t['d'] if isinstance(t['d'], int) else t['d'][0]]
        gs = self.guards(d)
        kind = m.group(2)
        ct = None
        for p, c in gs:
            ct = self.cstr(c)
        a = t['a'][0]
        p = a.get('m', a.get('c'))
        if ct is None and p is not None:
            ct = self.content(self.F.bodies[k]['locals'][p if isinstance(p, int) else p[0]])
        mode = {'read': 'r', 'read_recursive': 'r'}.get(m.group(5) + (m.group(6) or ''), 'w' if m.group(5) != 'read' else 'r')
        return Inst(kind, ct, self.origin(k, p) if p is not None else None, mode, '%s %s' % (k, t.get('sp', '').split(':')[0]), bool(m.group(4)) or 'recursive' in m.group(0))

    def flow(self, k):
        """per block: (may, must) map local -> instances at the terminator, for guards acquired in this function"""
        if k in self._flow:
            return self._flow[k]
        F, b = self.F, self.F.bodies[k]
        L = b['locals']
        n = len(b['blocks'])
        acq = {}
        for i, bl in enumerate(b['blocks']):
            if bl['t']['t'] == 'call':
                a = self.acquisition(k, bl['t'])
                if a:
                    a.site = '%s#%d' % (k, sum(1 for x in acq))
                    acq[i] = a
        base = lambda p: p if isinstance(p, int) else p[0]

        def moved(ops):
            for o in ops:
                if isinstance(o, dict) and 'm' in o:
                    yield o['m']
                elif isinstance(o, list):
                    for y in moved(o):
                        yield y

        def mode_of(inst, t):
            gs = self.guards(t)
            modes = {('r' if 'Read' in p and 'Upgrad' not in p else 'w') for p, c in gs}
            if len(modes) == 1:
                m = next(iter(modes))
                if m != inst.mode:
                    return Inst(inst.kind, inst.content, inst.origin, m, inst.site)
            return inst

        def stmt(st, s):
            if s[0] != '=':
                return
            d = base(s[1])
            got = set()
            for p in moved(s[2][1:]):
                q = base(p)
                if q in st:
                    got |= st[q]
                    if isinstance(p, int):
                        st.pop(q)
            if got and self.guards(L[d]):
                st[d] = frozenset(mode_of(i, L[d]) for i in got) | (st.get(d, frozenset()) if not isinstance(s[1], int) else frozenset())
            elif isinstance(s[1], int) and d in st and not got:
                st.pop(d)

        def term(i, st, must):
            """state after the terminator on the normal edge, per successor"""
            bl = b['blocks'][i]
            t = bl['t']
            if t['t'] == 'drop':
                if isinstance(t['p'], int):
                    st.pop(t['p'], None)
            elif t['t'] == 'call':
                got = set()
                for p in moved(t['a']):
                    q = base(p)
                    if q in st:
                        got |= st[q]
                        if isinstance(p, int):
                            st.pop(q)
                d = base(t['d'])
                if i in acq:
                    a = acq[i]
                    st[d] = frozenset([a]) if not (must and a.rec and 'try' in (self.call(t) or {}).get('name', '')) else frozenset()
                elif self.guards(L[d]):
                    if got:
                        st[d] = frozenset(mode_of(x, L[d]) for x in got)
                    else:
                        ins = []
                        for p, c in self.guards(L[d]):
                            f = self.call(t)
                            if f and f.get('name') in ('default', 'new', 'take', 'replace', 'with_capacity', 'none'):
                                continue
                            ins.append(Inst('RwLock' if 'RwLock' in p else 'Mutex', self.cstr(c), self.returned(k, t), 'r' if 'Read' in p and 'Upgrad' not in p else 'w', '%s#ret%d' % (k, i)))
                        st[d] = frozenset(ins)
            return st

        res = {}
        for must in (False, True):
            ent = {0: {}}
            work = [0]
            bef = {}
            while work:
                i = work.pop()
                st = dict(ent[i])
                for s in b['blocks'][i]['s']:
                    stmt(st, s)
                bef[i] = dict(st)
                out = term(i, dict(st), must)
                for j in _succ(b['blocks'][i]['t']):
                    if j not in ent:
                        ent[j] = dict(out)
                        work.append(j)
                        continue
                    old = ent[j]
                    new = {}
                    if must:
                        for q in old:
                            if q in out:
                                v = frozenset(x for x in old[q] if x in out[q])
                                if v:
                                    new[q] = v
                    else:
                        for q in set(old) | set(out):
                            new[q] = old.get(q, frozenset()) | out.get(q, frozenset())
                    if new != old:
                        ent[j] = new
                        work.append(j)
            res[must] = bef
        self._flow[k] = (res[False], res[True], acq)
        return self._flow[k]

    def returned(self, k, t):
        """origin of a guard that a call of a local function returns"""
        f = self.call(t)
        got = set()
        for c in (self.fnrefs(f) if f else ()):
            if c not in self.F.bodies or c == k:
                return None
            may, must, acq = self.flow(c)
            for i, bl in enumerate(self.F.bodies[c]['blocks']):
                if bl['t']['t'] == 'return' and i in may:
                    got |= {x.origin for x in may[i].get(0, ())}
        if len(got) != 1:
            return None
        o = next(iter(got))
        if isinstance(o, tuple):
            a = t['a'][o[1] - 1] if o[1] <= len(t['a']) else {}
            p = a.get('m', a.get('c'))
            return self.origin(k, p) if p is not None else None
        return o

    # ------------------------------------------------------------ calls
    def callees(self, k, t):
        """local bodies that may run during this call: the callee, and closures and functions passed to it"""
        F, b = self.F, self.F.bodies[k]
        out = set()
        f = self.call(t)
        if f:
            out.update(self.fnrefs(f))
        ops = [t['f']] + t['a']
        for o in ops:
            ty = None
            if 'k' in o:
                if o is not t['f']:
                    if 'fn' in o['k']:
                        out.update(self.fnrefs(o['k']['fn']))
                    ty = o['k'].get('ty')
            else:
                p = o.get('m', o.get('c'))
                if p is not None:
                    ty = b['locals'][p] if isinstance(p, int) else None
                    if ty is None:
                        q = [x for x in p[1:] if isinstance(x, dict) and 't' in x]
                        ty = q[-1]['t'] if q else b['locals'][p[0]]
            if ty is not None and (o is not t['f'] or 'k' not in o):
                for c in F.walk(ty):
                    r = F.types[c]
                    if r.get('k') == 'closure':
                        out.add(r['key'])
                    elif r.get('k') == 'fndef':
                        out.update(self.fnrefs(r['fn']))
        return {x for x in out if x in F.bodies}

    def bind(self, k, t, inst):
        """an acquisition of a callee, seen from the caller: origin through the arguments"""
        if isinstance(inst.origin, tuple) and inst.origin[0] == 'arg' and inst.origin[1] - 1 < len(t['a']):
            a = t['a'][inst.origin[1] - 1]
            p = a.get('m', a.get('c'))
            if p is not None:
                c = self.content(self.F.bodies[k]['locals'][p if isinstance(p, int) else p[0]])
                return Inst(inst.kind, inst.content or c, self.origin(k, p), inst.mode, inst.site, inst.rec)
        return inst

    # ------------------------------------------------------------ contexts
    def explore(self, roots, visit):
        """visit(kind, way, key, block, term, held may, held must, acquisition) at every call in every context reachable from roots;
        kind 'acquire' or 'call'. Contexts are sets of held instances."""
        seen = set()
        stack = [((r,), r, frozenset(), frozenset(), ()) for r in roots]
        while stack:
            way, k, may0, must0, args = stack.pop()
            key = (way[0], k, may0, must0, args)
            if key in seen:
                continue
            seen.add(key)
            may, must, acq = self.flow(k)
            b = self.F.bodies[k]
            for i in sorted(may):
                t = b['blocks'][i]['t']
                if t['t'] != 'call':
                    continue
                hm = frozenset(x for v in may[i].values() for x in v)
                hu = frozenset(x for v in must.get(i, {}).values() for x in v)
                hm = frozenset(self.subst(x, args) for x in hm) | may0
                hu = frozenset(self.subst(x, args) for x in hu) | must0
                if i in acq:
                    visit('acquire', way, k, i, t, hm, hu, self.subst(acq[i], args))
                    continue
                visit('call', way, k, i, t, hm, hu, None)
                f = self.call(t)
                direct = set(self.fnrefs(f)) if f else set()
                for c in sorted(self.callees(k, t)):
                    bound = ()
                    if c in direct:
                        bound = tuple(self.subst_origin(self.arg_origin(k, a), args) for a in t['a'])
                    stack.append((way + (c,) if len(way) < 40 else way, c, hm, hu, bound))
        return len(seen)

    def arg_origin(self, k, a):
        p = a.get('m', a.get('c'))
        if p is None:
            return None
        t = self.F.bodies[k]['locals'][p if isinstance(p, int) else p[0]]
        r = self.F.types[self.F.peel(t)]
        if not (r.get('k') == 'adt' and LOCKT.search(r['path'])) and r.get('k') != 'param':
            return None
        return (self.origin(k, p), self.content(t))

    def subst_origin(self, o, args):
        if o and isinstance(o[0], tuple):
            i = o[0][1] - 1
            a = args[i] if i < len(args) else None
            return (a[0], a[1] or o[1]) if a else (None, o[1])
        return o

    def subst(self, inst, args):
        if isinstance(inst.origin, tuple):
            i = inst.origin[1] - 1
            a = args[i] if i < len(args) else None
            o, c = a if a else (None, None)
            return Inst(inst.kind, inst.content or c, o, inst.mode, inst.site, inst.rec)
        return inst


def _succ(t):
    to = t.get('to')
    out = [to] if isinstance(to, int) else [x[1] for x in to] if isinstance(to, list) else []
    if isinstance(t.get('else'), int):
        out.append(t['else'])
    return out
