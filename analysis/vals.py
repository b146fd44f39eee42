"""Symbolic value dataflow over an inlined CFG (ir.py): every operand gets a hash-consed term describing where its
value comes from; conditions known to hold in a block are collected as facts. No path is executed and no solver is used:
terms are merged at joins (phi) and facts are intersected."""
from ir import succs, cname

INTS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128'}
SIZE = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'bool': 8, 'char': 32}


class Term(object):
    __slots__ = ('op', 'args', 'id', '_sub')

    def __repr__(self):
        return pp(self)


_tab = {}


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id, t._sub = op, args, len(_tab), None
        _tab[k] = t
    return t


def subterms(t):
    """all terms inside t (t included), through tuples"""
    if t._sub is None:
        s = {t}
        st = list(t.args)
        while st:
            a = st.pop()
            if isinstance(a, Term):
                s |= subterms(a)
            elif isinstance(a, tuple):
                st.extend(a)
        t._sub = frozenset(s)
    return t._sub


def contains(t, x):
    return x in subterms(t)


def pp(t, d=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(pp(x, d) for x in t) + ')'
        return str(t)
    if d == 0:
        return '..'
    o, a = t.op, t.args
    if o == 'int':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'arg':
        return 'arg%d' % a[0]
    if o == 'ref':
        return '&%s%s%s' % ('mut ' if a[0] else '', ('_%d' % a[1]) if isinstance(a[1], int) else pp(a[1], d - 1), ''.join(pel(e, d - 1) for e in a[2]))
    if o == 'fld':
        return pp(a[0], d - 1) + pel(a[1], d - 1)
    if o == 'agg':
        h = a[0]
        return '%s{%s}' % ('/'.join(str(x) for x in h[1:] if x is not None) or h[0], ', '.join(pp(x, d - 1) for x in a[1:]))
    if o == 'poly':
        return '(' + ' + '.join((('%d*' % c if c != 1 or not m else '') + '*'.join(pp(x, d - 1) for x in m)) if m else str(c) for m, c in a[0]) + ')'
    if o == 'bin':
        return '(%s %s %s)' % (pp(a[1], d - 1), a[0], pp(a[2], d - 1))
    if o == 'call':
        return '%s%s(%s)' % (a[0], '@%s' % a[1] if a[1] is not None else '', ', '.join(pp(x, d - 1) for x in a[2:]))
    if o == 'mut':
        return 'MUT[%s@%s.%s](%s)' % (a[0], a[1], a[2], ', '.join(pp(x, d - 1) for x in a[3:]))
    return '%s(%s)' % (o, ', '.join(pp(x, d - 1) for x in a))


def pel(e, d=3):
    if e[0] == 'f':
        return '.%s' % e[1]
    if e[0] == 'd':
        return '?%s' % e[1]
    if e[0] == 'i':
        return '[%s]' % pp(e[1], d)
    return str(e)


def INT(v):
    return mk('int', v)


UNDEF = mk('undef')
TRUE, FALSE = INT(1), INT(0)

# ------------------------------------------------------------------ integer polynomials


def to_poly(t):
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return INT(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return INT(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('poly', tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))))


def padd(a, b, s=1):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + s * c
    return from_poly(p)


def pmul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 24:
        return mk('bin', 'Mul', *sorted((a, b), key=lambda x: x.id))
    p = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            p[k] = p.get(k, 0) + c * d
    return from_poly(p)


def is_int_ty(s):
    return s in INTS


def binop(op, a, b, ty):
    op = op.replace('Unchecked', '')
    if op.endswith('WithOverflow'):
        r = binop(op[:-12], a, b, ty)
        return mk('agg', ('tuple',), r, FALSE)
    fl = ty in ('f32', 'f64')
    if not fl:
        if op == 'Add':
            return padd(a, b)
        if op == 'Sub':
            return padd(a, b, -1)
        if op == 'Mul':
            return pmul(a, b)
        if a.op == 'int' and b.op == 'int':
            x, y = a.args[0], b.args[0]
            try:
                r = {'Div': lambda: x // y if y and x >= 0 and y > 0 else None, 'Rem': lambda: x % y if y > 0 and x >= 0 else None, 'Shl': lambda: x << y if y < 128 else None, 'Shr': lambda: x >> y,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Lt': lambda: int(x < y), 'Le': lambda: int(x <= y), 'Gt': lambda: int(x > y), 'Ge': lambda: int(x >= y), 'Eq': lambda: int(x == y), 'Ne': lambda: int(x != y)}[op]()
                if r is not None:
                    return INT(r)
            except KeyError:
                pass
    if op == 'Gt':
        return binop('Lt', b, a, ty)
    if op == 'Ge':
        return binop('Le', b, a, ty)
    if op == 'Ne':
        return bnot(binop('Eq', a, b, ty))
    if op == 'Eq':
        if a is b and not fl:
            return TRUE
        if a.id > b.id:
            a, b = b, a
        return mk('bin', 'Eq', a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and a.id > b.id:
        a, b = b, a
    if fl and op in ('Lt', 'Le'):
        op = 'F' + op
    return mk('bin', op, a, b)


def bnot(t):
    if t.op == 'int' and t.args[0] in (0, 1):
        return INT(1 - t.args[0])
    if t.op == 'un' and t.args[0] == 'Not':
        return t.args[1]
    return mk('un', 'Not', t)


# ------------------------------------------------------------------ call models (by canonical short name)

IDENT_REF = {'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
             'slice::as_ref', 'Cow::to_mut', 'String::as_str', 'str::as_bytes', 'String::as_bytes', 'Path::as_path', 'PathBuf::as_path', 'Path::new', 'Read::by_ref', 'Write::by_ref', 'Iterator::by_ref',
             'NotNan::as_ref', 'Vec::leak', 'Box::leak', 'Arc::as_ref', 'slice::as_slice', 'Cow::as_ref', 'array::as_slice', 'array::as_mut_slice', 'OsStr::new', 'Pin::new', 'Path::as_os_str', 'String::as_mut_str', 'BufWriter::get_mut', 'OwningHandle::deref', 'OwningHandle::as_owner'}
IDENT_VAL = {'Clone::clone', 'ToOwned::to_owned', 'Cow::into_owned', 'slice::to_vec', 'Iterator::collect', 'ParallelIterator::collect', 'Iterator::cloned', 'Iterator::copied', 'ParallelIterator::cloned', 'ParallelIterator::copied',
             'slice::iter', 'IntoIterator::into_iter', 'IntoParallelIterator::into_par_iter', 'IntoParallelRefIterator::par_iter', 'NotNan::into_inner', 'Vec::into_boxed_slice', 'slice::into_vec', 'Box::new', 'Rc::new', 'Arc::new', 'Path::to_path_buf', 'Path::to_owned',
             'String::from', 'str::to_owned', 'str::to_string', 'String::into_bytes', 'String::into_boxed_str', 'PathBuf::from', 'Box::from', 'Vec::into_iter', 'Vec::iter', 'Vec::from', 'Vec::from_iter', 'FromIterator::from_iter', 'HashMap::iter', 'OwningHandle::into_owner',
             'ManuallyDrop::new', 'box::into_vec', 'Iterator::into_iter', 'mem::take', 'String::into_string', 'OsStr::to_os_string', 'ToString::to_string', 'Reverse::clone', 'Iterator::fuse', 'Iterator::peekable', 'Vec::par_iter', 'slice::par_iter', 'Vec::into_par_iter', 'array::map_identity', 'array::into_iter', 'convert::identity', 'Iterator::inspect', 'NotNan::clone'}
LEN = {'Vec::len', 'slice::len', 'str::len', 'String::len', 'HashMap::len', 'HashSet::len', 'BinaryHeap::len', 'ExactSizeIterator::len', 'VecDeque::len', 'array::len', 'BTreeMap::len', 'Mmap::len', 'IndexedParallelIterator::len'}
ISEMPTY = {'Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty', 'BinaryHeap::is_empty', 'HashSet::is_empty', 'VecDeque::is_empty'}
EMPTY = {'Vec::new', 'Vec::with_capacity', 'String::new', 'String::with_capacity', 'BinaryHeap::new', 'BinaryHeap::with_capacity', 'HashMap::new', 'HashSet::new', 'VecDeque::new', 'HashSet::with_capacity_and_hasher', 'HashMap::with_capacity', 'HashSet::with_capacity', 'HashSet::with_hasher', 'BTreeSet::new', 'BTreeMap::new', 'Vec::default', 'HashSet::default', 'HashMap::default'}
NO_HAVOC = {'Iterator::next', 'Iterator::position', 'Iterator::all', 'Iterator::any', 'Iterator::find', 'Iterator::nth', 'Iterator::last', 'DoubleEndedIterator::next_back', 'Iterator::find_map', 'Iterator::rposition', 'Iterator::try_for_each', 'Iterator::try_fold',
            'Index::index', 'Iterator::count', 'Peekable::peek'}
PASS_ITER = {'Iterator::rev', 'Iterator::skip', 'Iterator::take', 'Iterator::step_by', 'IndexedParallelIterator::rev', 'IndexedParallelIterator::skip', 'IndexedParallelIterator::take', 'Iterator::skip_while', 'Iterator::take_while', 'Iterator::filter',
             'ParallelIterator::filter', 'IndexedParallelIterator::with_min_len', 'IndexedParallelIterator::with_max_len', 'Iterator::chain_none', 'IndexedParallelIterator::step_by'}
MAPS = {'Iterator::map', 'ParallelIterator::map', 'array::map'}
HOF_ELEM = {'for_each', 'map', 'filter', 'filter_map', 'all', 'any', 'position', 'find', 'take_while', 'skip_while', 'flat_map', 'inspect', 'partition', 'find_map', 'max_by_key', 'min_by_key', 'try_for_each', 'rposition', 'find_any', 'position_any', 'map_while', 'find_first',
            'sort_by_key', 'sort_unstable_by_key', 'retain', 'sort_by_cached_key', 'par_sort_unstable_by_key', 'par_sort_by_key', 'is_sorted_by_key', 'partition_point', 'retain_mut', 'drain_filter', 'dedup_by_key', 'binary_search_by_key', 'for_each_with', 'map_with', 'min_by', 'max_by', 'sum_by'}
PURE_CRATES_MODS = ('core::slice', 'core::str', 'core::num', 'core::f32', 'core::f64', 'std::f32', 'std::f64', 'std::path', 'std::ffi', 'std::cmp', 'std::mem::size_of', 'std::mem::align_of', 'std::slice', 'ordered_float', 'std::iter', 'rayon::iter', 'rayon::slice', 'rayon::prelude', 'std::str', 'std::ops',
                    'std::convert', 'byteorder', 'std::collections', 'std::vec', 'std::string', 'std::option', 'std::result', 'std::borrow', 'std::array', 'std::char', 'std::ascii', 'std::alloc', 'std::default', 'std::hash', 'fxhash', 'std::ptr', 'core::ptr', 'std::fmt', 'core::fmt', 'serde_json', 'alloc::')
IMPURE_NAMES = {'Iterator::next'}
PURE_NAMES = {'Instant::elapsed_none'}
LOCKS = {'RwLock::read': 'read', 'RwLock::write': 'write', 'RwLock::upgradable_read': 'upgradable', 'Mutex::lock': 'write', 'RefCell::borrow': 'read', 'RefCell::borrow_mut': 'write', 'RwLock::read_recursive': 'read'}
INTERIOR = ('RwLock', 'Mutex', 'RefCell', 'Cell', 'Atomic', 'OnceCell', 'Lazy')


class Event(object):
    __slots__ = ('kind', 'block', 'idx', 'name', 'fn', 'args', 'vals', 'tys', 'site', 'ret', 'sp', 'fr', 'lv', 'val', 'pre', 'dest')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class Vals(object):
    def __init__(self, ir, pure=None, max_pass=40):
        self.ir, self.F = ir, ir.F
        self.extra_pure = pure or (lambda fn: False)
        self.phi_in = {}
        self.hofret = {}
        self.events = []
        self.prep()
        self.run(max_pass)

    # -------------------------------------------------------------- preparation
    def prep(self):
        ir = self.ir
        n = len(ir.blocks)
        order, seen, st = [], set(), [(ir.entry, iter(succs(ir.blocks[ir.entry].t)))]
        seen.add(ir.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(ir.blocks[s].t))))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = list(reversed(order))
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in dict.fromkeys(succs(ir.blocks[b].t)):
                self.preds[s].append(b)
        # definitions
        defs, bad = {}, set()

        def w(pl):
            l, pr = pl
            if pr and pr[0] == '*':
                return
            defs[l] = defs.get(l, 0) + 1
            if pr:
                bad.add(l)
        for b in self.rpo:
            B = ir.blocks[b]
            for s in B.st:
                if s[0] == '=':
                    w(s[1])
                    if s[2][0] == 'ref' and s[2][1]:
                        l, pr = s[2][2]
                        if '*' not in pr:
                            bad.add(l)
                elif s[0] == 'setd':
                    w(s[1]); bad.add(s[1][0])
            if B.t[0] == 'call':
                w(B.t[3])
        for i in range(1, ir.argc + 1):
            if i in defs:
                bad.add(i)
        self.glob = {l for l, c in defs.items() if c == 1 and l not in bad}
        # loop heads
        self.loop_head = {b for b in self.rpo if any(self.pos[p] >= self.pos[b] for p in self.preds[b])}
        self.back = {(p, b) for b in self.loop_head for p in self.preds[b] if self.pos[p] >= self.pos[b]}

    # -------------------------------------------------------------- fixpoint
    def run(self, max_pass):
        ir = self.ir
        self.env = {}
        self.out = {}
        self.ins = {}
        self.sticky = set()
        self.sticky_blocks = set()
        self.live_e = set()
        self.final = False
        self.passes = 0
        st0 = {}
        for i in range(1, ir.argc + 1):
            st0[i] = mk('arg', i)
        self.st0 = st0
        self.simplify_phi = True
        while True:
            self.passes += 1
            if self.passes > max_pass:
                raise RuntimeError('value analysis did not converge on ' + str(ir.root_key))
            if self.passes > max_pass - 20:
                self.simplify_phi = False
            self.changed = False
            for b in self.rpo:
                if b != ir.entry and not any((p, b) in self.live_e for p in self.preds[b]):
                    continue
                st = self.join(b)
                self.exec_block(b, st)
                self.mark_edges(b, st)
                old = self.out.get(b)
                if old != st:
                    self.out[b] = st
                    self.changed = True
            if not self.changed:
                break
        self.final = True
        for b in self.rpo:
            if b in self.out:
                self.exec_block(b, self.join(b))
        self.facts_pass()

    def mark_edges(self, b, st):
        t = self.ir.blocks[b].t
        ss = succs(t)
        if t[0] == 'switch':
            c = self.D(st, self.operand(st, t[1]))
            if c is UNDEF and self.passes < 3:
                return
            if c.op == 'int':
                ss = [[x for v, x in t[2] if v == c.args[0]] or [t[3]]][0]
        for s in ss:
            if (b, s) not in self.live_e:
                self.live_e.add((b, s))
                self.changed = True

    def join(self, b):
        ps = [p for p in self.preds[b] if p in self.out and (p, b) in self.live_e]
        if b == self.ir.entry and not self.preds[b]:
            return dict(self.st0)
        if b == self.ir.entry:
            ins = [('entry', self.st0)] + [(p, self.out[p]) for p in ps]
        else:
            ins = [(p, self.out[p]) for p in ps]
        if len(ins) == 1 and not self.has_sticky(b):
            return dict(ins[0][1])
        return self.merge_all(b, ins)

    def only(self, t, seen=()):
        """the one value a join has if it has only one (of a loop that does not change it, say)"""
        while t.op == 'phi' and t not in seen:
            seen = seen + (t,)
            xs = {self.only(x, seen) for x in self.phi_in.get(t, {}).values() if x not in seen}
            if len(xs) != 1:
                return t
            t = xs.pop()
        return t

    def has_sticky(self, b):
        return b in self.sticky_blocks

    def merge_all(self, b, ins):
        res = {}
        roots = {}
        for p, s in ins:
            for r in s:
                roots[r] = 1
        for r in roots:
            if isinstance(r, Term):
                vs = [(p, s.get(r, r)) for p, s in ins]
            else:
                vs = [(p, s[r]) for p, s in ins if r in s]
            res[r] = self.merge(b, (r,), vs)
        return res

    def merge(self, b, cell, vs):
        vs = [(p, v) for p, v in vs if v is not UNDEF] or vs[:1]
        key = (b, cell)
        ph = mk('phi', b, cell)
        if key in self.sticky:
            self.phi_in[ph] = dict(vs)
            return ph
        v0 = vs[0][1]
        if all(v is v0 for _, v in vs):
            return v0
        h = self.head(v0)
        if h is not None and len(cell) < 8 and all(self.head(v) == h for _, v in vs):
            fs = []
            n = len(v0.args) - 1
            if all(len(v.args) - 1 == n for _, v in vs):
                for i in range(n):
                    fs.append(self.merge(b, cell + (i,), [(p, v.args[1 + i]) for p, v in vs]))
                return mk('agg', h, *fs)
        self.sticky.add(key)
        self.sticky_blocks.add(b)
        self.phi_in[ph] = dict(vs)
        return ph

    def head(self, t):
        return t.args[0] if t.op == 'agg' else None

    # -------------------------------------------------------------- lvalues
    def root_val(self, st, r):
        if isinstance(r, int):
            if r in self.glob:
                return self.env.get(r, UNDEF)
            return st.get(r, UNDEF)
        return st.get(r, r)

    def value(self, st, lv):
        v = self.root_val(st, lv[0])
        for e in lv[1]:
            v = self.proj(v, e)
        return v

    def proj(self, t, e, depth=0):
        if t is UNDEF:
            return UNDEF
        o = t.op
        if e[0] == 'd':
            if o == 'agg':
                h = t.args[0]
                if h[0] == 'adt':
                    return t if h[2] == e[1] else UNDEF
                return t
            if o == 'phi' and self.simplify_phi:
                c = self.phi_sel(t, e[1])
                if c is not None:
                    return self.proj(c, e, depth + 1) if depth < 30 else mk('fld', t, ('d', e[1]))
            if o == 'with':
                return t
            return mk('fld', t, ('d', e[1]))
        if o == 'agg':
            if e[0] == 'f':
                i = e[1]
                return t.args[1 + i] if 1 + i < len(t.args) else UNDEF
            if e[0] in ('i', 'c') and t.args[0][0] == 'array':
                if e[0] == 'i' and e[1].op == 'int' and 1 + e[1].args[0] < len(t.args):
                    return t.args[1 + e[1].args[0]]
                if e[0] == 'c' and not e[2] and 1 + e[1] < len(t.args):
                    return t.args[1 + e[1]]
        if o == 'with':
            base, ov = t.args[0], t.args[1]
            for k, v in reversed(ov):
                if k == e:
                    return v
                if k[0] != 'f' or e[0] != 'f':
                    # element of unknown index may be the overwritten one
                    if k[0] == e[0] == 'i' and k[1].op == 'int' and e[1].op == 'int':
                        continue
                    if k[0] == 'f' or e[0] == 'f':
                        continue
                    return mk('fld', t, self.nel(e))
            return self.proj(base, e, depth)
        if o == 'phi' and self.simplify_phi and depth < 12:
            # all incoming project to the same value
            inc = self.phi_in.get(t, {})
            vals = set()
            for v in inc.values():
                if v is t:
                    continue
                if v.op in ('agg', 'with'):
                    vals.add(self.proj(v, e, depth + 1))
                else:
                    vals = None
                    break
            if vals is not None and len(vals) == 1:
                return next(iter(vals))
        if o == 'fld' and e[0] == 'f':
            base, d = t.args
            if d[0] == 'd' and e[1] == 0 and base.op == 'call':
                r = self.payload(base, d[1])
                if r is not None:
                    return r
        if o == 'elemraw':
            pass
        return mk('fld', t, self.nel(e))

    def nel(self, e):
        if e[0] == 'f':
            return ('f', e[1])
        return e

    def phi_sel(self, ph, variant):
        """the only incoming value of phi that can be of this variant"""
        c = {}
        for p, v in self.phi_in.get(ph, {}).items():
            if v is ph:
                continue
            if v.op == 'agg' and v.args[0][0] == 'adt' and v.args[0][2] != variant:
                continue
            # what an earlier iteration left behind may not be called by the name it would have in this one
            stale = (p, ph.args[0]) in self.backedges()
            c[v] = c.get(v, True) and stale
        if len(c) == 1:
            v, stale = next(iter(c.items()))
            if stale and any(x.op in ('elem', 'iidx', 'phi', 'mut') or x.op == 'call' and x.args[1] is not None for x in subterms(v)):
                return None
            if not contains(v, ph):
                return v
        return None

    def backedges(self):
        if not hasattr(self, '_backedges'):
            out, color = set(), {}
            st = [(self.ir.entry, iter(succs(self.ir.blocks[self.ir.entry].t)))]
            color[self.ir.entry] = 1
            while st:
                b, it = st[-1]
                for x in it:
                    if color.get(x) == 1:
                        out.add((b, x))
                    elif x not in color:
                        color[x] = 1
                        st.append((x, iter(succs(self.ir.blocks[x].t))))
                        break
                else:
                    color[b] = 2
                    st.pop()
            self._backedges = out
        return self._backedges

    def payload(self, call, variant):
        """payload of the Some/Ok variant of an opaque call"""
        n = call.args[0]
        a = call.args[2:]
        if n == 'Iterator::next' or n == 'DoubleEndedIterator::next_back':
            return self.elem(a[0], call.args[1]) if variant == 1 else None
        if n in ('slice::get', 'Vec::get', 'slice::get_mut_'):
            return self.proj(a[0], ('i', a[1])) if variant == 1 and len(a) > 1 else None
        if n in ('slice::first', 'Vec::first'):
            return self.proj(a[0], ('i', INT(0))) if variant == 1 else None
        if n in ('slice::last', 'Vec::last'):
            return self.proj(a[0], ('i', padd(self.length(a[0]), INT(1), -1))) if variant == 1 else None
        if n in ('TryFrom::try_from', 'TryInto::try_into'):
            return a[0] if variant == 0 else None
        if n == 'NotNan::new':
            return mk('notnan', a[0]) if variant == 0 else None
        return None

    def elem(self, it, site, depth=0):
        """one element produced by iterating over `it`"""
        o = it.op
        if depth > 20:
            return mk('elem', it, site)
        if o == 'call':
            n, s, a = it.args[0], it.args[1], it.args[2:]
            if n in MAPS:
                if len(a) > 1 and a[1].op == 'cloret':
                    return a[1].args[1]
                return mk('elem', it, site)
            if n in ('Iterator::filter', 'ParallelIterator::filter', 'Iterator::take_while', 'Iterator::skip_while'):
                return self.elem(a[0], s, depth + 1)
            if n in PASS_ITER:
                return self.elem(a[0], site, depth + 1)
            if n in ('Iterator::enumerate', 'IndexedParallelIterator::enumerate'):
                return mk('agg', ('tuple',), mk('iidx', a[0], site), self.elem(a[0], site, depth + 1))
            if n in ('Iterator::zip', 'IndexedParallelIterator::zip'):
                return mk('agg', ('tuple',), self.elem(a[0], site, depth + 1), self.elem(a[1], site, depth + 1))
        return mk('elem', it, site)

    def length(self, t):
        if t.op == 'empty':
            return INT(0)
        if t.op == 'agg' and t.args[0][0] == 'array':
            return INT(len(t.args) - 1)
        return mk('len', t)

    def write(self, st, lv, val):
        r, path = lv
        if not path:
            if isinstance(r, int) and r in self.glob:
                if self.env.get(r) is not val:
                    self.env[r] = val
                    self.changed = True
            else:
                st[r] = val
            return
        base = self.root_val(st, r)
        st[r] = self.update(base, path, val)

    def update(self, base, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'd':
            if base.op == 'agg' and base.args[0][0] == 'adt' and base.args[0][2] == e[1]:
                return self.update(base, path[1:], val)
            return self.update(base, path[1:], val)
        sub = self.update(self.proj(base, e), path[1:], val) if len(path) > 1 else val
        e = self.nel(e)
        if base.op == 'agg' and e[0] == 'f' and 1 + e[1] < len(base.args):
            a = list(base.args)
            a[1 + e[1]] = sub
            return mk('agg', *a)
        if base.op == 'with':
            ov = [kv for kv in base.args[1] if kv[0] != e]
            if len(ov) > 12:
                ov = ov[-12:]
                return mk('with', mk('with', base.args[0], base.args[1][:-12]), tuple(ov) + ((e, sub),))
            return mk('with', base.args[0], tuple(ov) + ((e, sub),))
        return mk('with', base, ((e, sub),))

    def place(self, st, pl):
        """lvalue (root, path) of a place"""
        lv = (pl[0], ())
        for e in pl[1]:
            if e == '*':
                v = self.value(st, lv)
                if v.op == 'ref':
                    lv = (v.args[1], v.args[2])
                elif v.op == 'guard':
                    lv = (mk('content', v.args[1], v.args[2]), ())
                elif lv[1] or not isinstance(lv[0], Term):
                    lv = (v, ())
            elif e[0] == 'i':
                i = self.D(st, self.value(st, (e[1], ())))
                lv = (lv[0], lv[1] + (('i', i),))
            elif e[0] == 'f':
                lv = (lv[0], lv[1] + (('f', e[1]),))
            elif e[0] == 'd':
                lv = (lv[0], lv[1] + (('d', e[1]),))
            elif e[0] == 'c':
                lv = (lv[0], lv[1] + ((('i', INT(e[1])) if not e[2] else e),))
            else:
                lv = (lv[0], lv[1] + (e,))
        return lv

    def D(self, st, t):
        """value behind references"""
        n = 0
        while t.op == 'ref' and n < 20:
            t = self.value(st, (t.args[1], t.args[2]))
            n += 1
        return t

    # -------------------------------------------------------------- evaluation
    def const(self, k):
        if 'v' in k:
            return INT(k['v'])
        if 'str' in k:
            return mk('str', k['str'])
        if 'fv' in k:
            return mk('float', k['fv'])
        if 'key' in k:
            it = self.F.items.get(k['key'])
            if it is not None:
                if 'v' in it:
                    return INT(it['v'])
                if 'str' in it:
                    return mk('str', it['str'])
            return mk('constitem', k.get('def'), k['key'])
        t = k.get('ty')
        if t is not None and self.F.types[t].get('k') == 'tuple' and not self.F.types[t]['ts']:
            return mk('agg', ('tuple',))
        if t is not None and self.F.types[t].get('k') == 'closure':
            return mk('agg', ('closure', self.F.types[t]['key']))
        return mk('const', k.get('txt'), self.F.tstr(t) if t is not None else '')

    def operand(self, st, op):
        if op[0] == 'p':
            return self.value(st, self.place(st, op[1]))
        if op[0] == 'k':
            return self.const(op[1])
        if op[0] == 'fn':
            return mk('fnitem', op[1]['path'])
        return UNDEF

    def tys(self, op):
        t = self.ir.op_ty(op)
        return self.F.tstr(t) if t is not None else ''

    def rvalue(self, st, rv, b):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1])
        if k == 'ref':
            lv = self.place(st, rv[2])
            if not lv[1] and isinstance(lv[0], Term) and not rv[1] and lv[0] not in st:
                return lv[0]  # shared reference to an opaque object: the object itself
            return mk('ref', bool(rv[1]), lv[0], lv[1])
        if k == 'cast':
            v = self.operand(st, rv[2])
            fs, ts = self.F.tstr(rv[3]), self.F.tstr(rv[4])
            if rv[1].startswith('IntToInt'):
                v = self.D(st, v)
                if fs in SIZE and ts in SIZE:
                    if v.op == 'int':
                        if v.args[0] >= 0 and (SIZE[ts] > 64 or v.args[0] < (1 << (SIZE[ts] - (ts[0] == 'i')))):
                            return v
                    if SIZE[ts] >= SIZE[fs] and fs[0] in 'ubc':
                        return v
                    if SIZE[ts] >= SIZE[fs] and fs[0] == ts[0] == 'i':
                        return v
                return mk('cast', fs, ts, v)
            if 'Float' in rv[1]:
                return mk('cast', fs, ts, self.D(st, v))
            return v
        if k == 'bin':
            a, c = self.D(st, self.operand(st, rv[2])), self.D(st, self.operand(st, rv[3]))
            if a is UNDEF or c is UNDEF:
                return UNDEF
            return binop(rv[1], a, c, self.tys(rv[2]))
        if k == 'un':
            v = self.D(st, self.operand(st, rv[2]))
            if rv[1] == 'Not' and self.tys(rv[2]) in ('bool', ''):
                return bnot(v)
            if rv[1] == 'PtrMetadata':
                return self.length(v)
            if rv[1] == 'Neg' and v.op == 'int':
                return INT(-v.args[0])
            return mk('un', rv[1], v)
        if k == 'discr':
            return self.discr(self.D(st, self.value(st, self.place(st, rv[1]))))
        if k == 'agg':
            a = rv[1]
            ops = [self.operand(st, o) for o in rv[2]]
            if a['a'] == 'adt':
                p = a['path']
                for n in ('Option', 'Result', 'ControlFlow'):
                    if p.endswith('::' + n) and p.startswith(('std::', 'core::')):
                        p = n
                return mk('agg', ('adt', p, a['v'], a['vn'], tuple(a.get('fs', ()))) if p not in ('Option', 'Result', 'ControlFlow') else ('adt', p, a['v'], a['vn']), *ops)
            if a['a'] == 'closure':
                return mk('agg', ('closure', a['key']), *ops)
            return mk('agg', (a['a'],), *ops)
        if k == 'repeat':
            v = self.operand(st, rv[1])
            return mk('repeat', v, rv[2])
        if k == 'hofarg':
            _, cn, site, j, args, i = rv
            base = self.D(st, self.operand(st, args[0]))
            last = cn.split('::')[-1]
            if last in HOF_ELEM and j == 0:
                return self.elem(base, site)
            if last in ('fold', 'try_fold') and j == 1:
                return self.elem(base, site)
            if cn == 'OwningHandle::new_with_fn':
                return base
            return mk('hofarg', cn, site, i, j)
        return mk('other', str(rv[:2]))

    def discr(self, v):
        if v is UNDEF:
            return UNDEF
        if v.op == 'agg' and v.args[0][0] == 'adt':
            return INT(v.args[0][2])
        if v.op == 'phi' and self.simplify_phi:
            c = set()
            for x in self.phi_in.get(v, {}).values():
                if x is v:
                    continue
                c.add(x.args[0][2] if x.op == 'agg' and x.args[0][0] == 'adt' else None)
            if len(c) == 1 and None not in c:
                return INT(next(iter(c)))
        if v.op == 'with':
            return self.discr(v.args[0])
        if v.op == 'call' and len(v.args) > 2:
            # borrowing accessors: present exactly when the index exists
            if v.args[0] in ('slice::first', 'slice::last', 'slice::split_first', 'slice::split_last', 'Vec::first', 'Vec::last'):
                return bnot(binop('Eq', INT(0), self.length(v.args[2]), 'usize'))
        return mk('discr', v)

    # -------------------------------------------------------------- blocks
    def exec_block(self, b, st):
        ir = self.ir
        B = ir.blocks[b]
        fin = self.final
        if fin:
            self.ins[b] = dict(st)
        for i, s in enumerate(B.st):
            if s[0] == '=':
                v = self.rvalue(st, s[2], b)
                lv = self.place(st, s[1])
                if fin:
                    if lv[1] or isinstance(lv[0], Term):
                        self.events.append(Event(kind='write', block=b, idx=i, lv=lv, val=v, sp=s[3], fr=B.fr, pre=self.root_val(st, lv[0]), dest=s[1]))
                    if s[2][0] == 'hofarg':
                        self.events.append(Event(kind='param', block=b, idx=i, name=s[2][1], site=s[2][2], val=v, sp=s[3], fr=B.fr, tys=[ir.locals[s[1][0]]], args=s[2][5]))
                    if s[2][0] == 'cast' and s[2][1].startswith('IntToInt'):
                        self.events.append(Event(kind='cast', block=b, idx=i, val=v, sp=s[3], fr=B.fr, vals=[self.D(st, self.operand(st, s[2][2]))], tys=[self.F.tstr(s[2][3]), self.F.tstr(s[2][4])]))
                    if s[2][0] == 'agg' and s[2][1]['a'] == 'adt':
                        self.events.append(Event(kind='agg', block=b, idx=i, val=v, sp=s[3], fr=B.fr, fn=s[2][1], args=[self.operand(st, o) for o in s[2][2]], vals=[self.D(st, self.operand(st, o)) for o in s[2][2]],
                                                 tys=[ir.op_ty(o) for o in s[2][2]]))
                self.write(st, lv, v)
            elif s[0] == 'setd':
                pass
            elif s[0] == 'mark' and fin:
                self.events.append(Event(kind='mark', block=b, idx=i, name=s[2], site=s[3], fr=B.fr, args=s[1]))
        t = B.t
        if t[0] == 'call':
            self.do_call(b, B, t, st)
        elif t[0] == 'assert' and fin:
            pass
        elif t[0] == 'return' and fin:
            v = self.value(st, t[1])
            self.events.append(Event(kind='return', block=b, idx=10 ** 6, val=v, vals=[self.deep(st, v)], fr=B.fr, sp=B.sp))
            self.ret_states = getattr(self, 'ret_states', {})
            self.ret_states[b] = dict(st)
        elif t[0] == 'drop' and fin:
            lv = self.place(st, t[1])
            self.events.append(Event(kind='drop', block=b, idx=10 ** 6, lv=lv, val=self.value(st, lv), tys=[t[2]], fr=B.fr, sp=B.sp))
        if fin and t[0] in ('switch', 'assert'):
            self.cond = getattr(self, 'cond', {})
            self.cond[b] = self.D(st, self.operand(st, t[1]))

    def deep(self, st, v, d=0):
        """replace references by the values behind them, inside aggregates too"""
        if d > 6:
            return v
        v = self.D(st, v)
        if v.op == 'agg':
            return mk('agg', v.args[0], *[self.deep(st, x, d + 1) if isinstance(x, Term) else x for x in v.args[1:]])
        return v

    def mutrefs(self, v, d=0):
        """mutable references inside a value"""
        if v.op == 'ref':
            return [v] if v.args[0] else []
        if v.op == 'agg' and d < 4:
            out = []
            for x in v.args[1:]:
                if isinstance(x, Term):
                    out += self.mutrefs(x, d + 1)
            return out
        return []

    def do_call(self, b, B, t, st):
        _, fn, ops, dest, to, sp, site, rets, cn = t
        raw = [self.operand(st, o) for o in ops]
        tys = [self.ir.op_ty(o) for o in ops]
        vals = []
        for i, v in enumerate(raw):
            d = self.deep(st, v)
            if i in rets:
                d = mk('cloret', d.args[0][1] if d.op == 'agg' else pp(d), self.deep(st, self.root_val(st, rets[i])))
            elif d.op == 'agg' and d.args[0][0] == 'closure':
                d = mk('clo', d.args[0][1])
            vals.append(d)
        pre_vals = vals
        ev = None
        if self.final:
            ev = Event(kind='call', block=b, idx=10 ** 6, name=cn, fn=fn, args=raw, vals=vals, tys=tys, site=site, sp=sp, fr=B.fr, dest=dest)
            self.events.append(ev)
        r = self.model(st, fn, cn, raw, vals, tys, site, rets, ops)
        if self.final:
            ev.ret = r
        if to is not None:
            self.write(st, self.place(st, dest), r)

    def model(self, st, fn, cn, raw, vals, tys, site, rets, ops):
        F = self.F
        path = fn.get('path', '')
        short = cn.split('::')[-1]
        a0 = raw[0] if raw else None
        local = fn.get('local') and not path.startswith(('std::', 'core::'))
        if not local:
            if cn in LOCKS and vals:
                lk = vals[0]
                g = mk('guard', LOCKS[cn], lk, site)
                if path.startswith('std::sync'):
                    return mk('agg', ('adt', 'Result', 0, 'Ok'), g)
                return g
            if cn in ('RwLockWriteGuard::downgrade', 'RwLockUpgradableReadGuard::upgrade', 'RwLockWriteGuard::downgrade_to_upgradable') and vals and vals[0].op == 'guard':
                return mk('guard', 'write' if 'upgrade' == short else 'read', vals[0].args[1], vals[0].args[2])
            if cn in IDENT_REF and raw:
                v = a0
                if v.op == 'ref':
                    x = self.value(st, (v.args[1], v.args[2]))
                    n = 0
                    while x.op == 'ref' and n < 10:
                        v = x
                        x = self.value(st, (v.args[1], v.args[2]))
                        n += 1
                    if x.op == 'guard':
                        return mk('ref', cn == 'DerefMut::deref_mut', mk('content', x.args[1], x.args[2]), ())
                    if x.op == 'notnan':
                        return x.args[0]
                    if cn in ('Cow::to_mut', 'DerefMut::deref_mut', 'Vec::as_mut_slice', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'Write::by_ref', 'Read::by_ref', 'Iterator::by_ref', 'BufWriter::get_mut'):
                        return v
                    return mk('ref', False, v.args[1], v.args[2])
                if v.op == 'guard':
                    return mk('ref', cn == 'DerefMut::deref_mut', mk('content', v.args[1], v.args[2]), ())
                if v.op == 'notnan':
                    return v.args[0]
                return v
            if cn in IDENT_VAL and vals:
                if cn in ('IntoIterator::into_iter', 'FromIterator::from_iter') and a0.op == 'ref' and a0.args[0] and self.mut_elem_ref(tys[0]):
                    return self.havoc_ret(st, 'slice::iter_mut', site, raw, vals)
                if cn == 'mem::take' and a0.op == 'ref':
                    self.write(st, (a0.args[1], a0.args[2]), mk('empty', 'default'))
                v = vals[0]
                return v.args[0] if v.op == 'notnan' and cn == 'NotNan::into_inner' else v
            if cn in LEN and vals:
                return self.length(vals[0])
            if cn in ISEMPTY and vals:
                return binop('Eq', self.length(vals[0]), INT(0), 'usize')
            if cn in EMPTY:
                return mk('empty', cn)
            if cn in ('cmp::min', 'cmp::max', 'Ord::min', 'Ord::max') or (short in ('min', 'max') and len(vals) == 2 and not cn.startswith(('Iterator', 'f32', 'f64'))):
                x, y = sorted(vals[:2], key=lambda z: z.id)
                return mk(short, x, y)
            if cn in ('PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge') and len(vals) == 2:
                ty = self.F.tstr(self.F.peel(tys[0])) if tys[0] is not None else ''
                ty = ty if ty in INTS else ('f32' if short in ('lt', 'le', 'gt', 'ge') and 'NotNan' not in ty else 'x')
                return binop({'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[short], vals[0], vals[1], ty)
            if cn in ('Index::index', 'IndexMut::index_mut') and len(raw) == 2:
                if vals[1].op == 'agg' and vals[1].args[0][1:2] and str(vals[1].args[0][1]).endswith('RangeFull') or vals[1].op == 'const' and 'RangeFull' in str(vals[1].args):
                    return a0
                if a0.op == 'ref':
                    v = a0
                    x = self.value(st, (v.args[1], v.args[2]))
                    while x.op == 'ref':
                        v = x
                        x = self.value(st, (v.args[1], v.args[2]))
                    return mk('ref', v.args[0], v.args[1], v.args[2] + (('i', vals[1]),))
                return self.proj(a0, ('i', vals[1]))
            if cn == 'mem::size_of':
                a = fn.get('args') or []
                if a and isinstance(a[0], int):
                    r = F.types[a[0]]
                    if 'size' in r:
                        return INT(r['size'])
                    return mk('sizeof', r['s'])
            if cn == 'mem::size_of_val' and vals:
                a = fn.get('args') or []
                r = F.types[a[0]] if a and isinstance(a[0], int) else {}
                if 'size' in r:
                    return INT(r['size'])
                if r.get('k') == 'slice':
                    e = F.types[r['t']]
                    return pmul(INT(e['size']) if 'size' in e else mk('sizeof', e['s']), self.length(vals[0]))
            if cn == 'mem::align_of':
                a = fn.get('args') or []
                return mk('alignof', F.tstr(a[0]) if a and isinstance(a[0], int) else '?')
            if short == 'max_value' and not vals:
                st_ = fn.get('self_ty')
                n = F.tstr(st_) if st_ is not None else ''
                if n in SIZE:
                    return INT((1 << (SIZE[n] - (n[0] == 'i'))) - 1)
            if cn in ('Into::into', 'From::from') and vals:
                a = [x for x in fn.get('args', []) if isinstance(x, int)]
                if len(a) > 1:
                    tgt, src = (a[1], a[0]) if cn == 'Into::into' else (a[0], a[1])
                    ts, ss = F.tstr(tgt), F.tstr(F.peel(src))
                    head = F.types[F.peel(tgt)].get('path', '')
                    if head.endswith(('Cow', 'Vec', 'Box', 'String', 'PathBuf', 'Arc', 'Rc')) or F.types[tgt].get('k') in ('slice',):
                        return vals[0]
                    if ts in INTS and ss in INTS or ts == ss:
                        return vals[0]
                    if 'NotNan' in ts:
                        return mk('notnan', vals[0])
                    return mk('call', 'Into::into', None, vals[0], mk('ty', ts))
            if cn == 'box_assume_init_into_vec_unsafe' or short == 'box_assume_init_into_vec_unsafe':
                for r, v in st.items():
                    if isinstance(r, Term) and contains(r, vals[0]):
                        return v
            if cn == 'Option::replace' and a0.op == 'ref':
                old = self.value(st, (a0.args[1], a0.args[2]))
                self.write(st, (a0.args[1], a0.args[2]), mk('agg', ('adt', 'Option', 1, 'Some'), raw[1]))
                return old
            if cn in ('Ord::cmp', 'PartialOrd::partial_cmp'):
                return mk('call', cn, None, *vals)
            if short in ('install', 'catch_unwind', 'scope', 'new_with_fn') and rets:
                pass
            if cn in ('ThreadPool::install', 'ThreadPool::scope', 'thread::scope') and len(rets) == 1:
                return self.root_val(st, list(rets.values())[0])
            if cn in ('rayon::join', 'rayon_core::join', 'join::join') and len(rets) == 2:
                return mk('agg', ('tuple',), *[self.root_val(st, r) for _, r in sorted(rets.items())])
            if cn in ('NotNan::new',):
                return mk('call', cn, None, vals[0])
            if cn in ('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem') and len(vals) == 2:
                ty = F.tstr(F.peel(tys[0])) if tys[0] is not None else ''
                if ty in INTS or ty in ('f32', 'f64'):
                    return binop(cn.split('::')[0], vals[0], vals[1], ty)
                return mk('call', cn, None, *vals)
        return self.generic(st, fn, cn, raw, vals, tys, site, rets, ops)

    def mut_elem_ref(self, ty):
        return ty is not None and self.F.types[ty].get('k') == 'ref' and self.F.types[ty].get('mut')

    def generic(self, st, fn, cn, raw, vals, tys, site, rets, ops):
        muts = []
        for i, v in enumerate(raw):
            if i in rets:
                continue
            if ops[i][0] == 'fn':
                continue
            ms = self.mutrefs(v)
            t = tys[i]
            if ms and not (t is not None and self.F.types[t].get('k') == 'ref' and not self.F.types[t].get('mut')):
                muts += [(i, m) for m in ms]
        opaque_mut = any(v.op != 'ref' and self.mut_elem_ref(tys[i]) for i, v in enumerate(raw))
        if cn in NO_HAVOC:
            return mk('call', cn, site, *vals)
        if muts or opaque_mut:
            return self.havoc_ret(st, cn, site, raw, vals, muts, tys)
        if self.is_pure(fn, cn, tys):
            return mk('call', cn, None if not rets else site, *vals)
        return mk('call', cn, site, *vals)

    def havoc_ret(self, st, cn, site, raw, vals, muts=None, tys=None):
        if muts is None:
            muts = [(i, m) for i, v in enumerate(raw) for m in self.mutrefs(v)]
        done = set()
        for i, m in muts:
            if m in done:
                continue
            done.add(m)
            self.write(st, (m.args[1], m.args[2]), mk('mut', cn, site, i, *vals))
        for i, v in enumerate(raw):
            if v.op != 'ref' and tys is not None and self.mut_elem_ref(tys[i]):
                # opaque object passed by unique reference
                self.write(st, (v, ()), mk('mut', cn, site, i, *vals))
        return mk('call', cn, site, *vals)

    def is_pure(self, fn, cn, tys):
        if cn in IMPURE_NAMES:
            return False
        if self.extra_pure(fn):
            return True
        p = fn.get('path', '')
        if fn.get('local'):
            for t in tys:
                if t is not None and self.F.contains_adt(t, lambda q: any(x in q for x in INTERIOR)):
                    return False
            return True
        if p.startswith('<'):
            p = p[1:]
        return p.startswith(PURE_CRATES_MODS)

    # -------------------------------------------------------------- facts
    def atoms(self, t, v):
        """facts implied by term t having value v"""
        out = {(t, v)}
        if t.op == 'un' and t.args[0] == 'Not':
            return self.atoms(t.args[1], 1 - v) if v in (0, 1) else out
        if t.op == 'bin' and v in (0, 1):
            o, a, b = t.args
            if o == 'BitAnd' and v == 1:
                return out | self.atoms(a, 1) | self.atoms(b, 1)
            if o == 'BitOr' and v == 0:
                return out | self.atoms(a, 0) | self.atoms(b, 0)
            if v == 0 and o == 'Lt':
                out |= {(mk('bin', 'Le', b, a), 1)}
            if v == 0 and o == 'Le':
                out |= {(mk('bin', 'Lt', b, a), 1)}
            if v == 1 and o == 'Lt':
                out |= {(mk('bin', 'Le', a, b), 1), (mk('bin', 'Le', b, a), 0)}
            if v == 1 and o == 'Le':
                out |= {(mk('bin', 'Lt', b, a), 0)}
        return out

    def edge_facts(self, p, s):
        """facts generated by taking edge p->s"""
        t = self.ir.blocks[p].t
        if t[0] == 'switch':
            c = self.cond.get(p)
            if c is None or c is UNDEF:
                return frozenset(), True
            vs = [v for v, x in t[2] if x == s]
            oth = t[3] == s
            if c.op == 'int':
                # constant condition: other edges are dead
                hit = [x for v, x in t[2] if v == c.args[0]] or [t[3]]
                if s not in hit:
                    return frozenset(), False
                return frozenset(), True
            if len(vs) == 1 and not oth:
                return frozenset(self.atoms(c, vs[0])), True
            if oth and not vs:
                ex = [v for v, _ in t[2]]
                isbool = t[4] is not None and self.F.tstr(t[4]) == 'bool' or c.op == 'un' or (c.op == 'bin' and c.args[0] in ('Eq', 'Lt', 'Le', 'FLt', 'FLe'))
                if ex == [0] and isbool:
                    return frozenset(self.atoms(c, 1)), True
                if c.op == 'discr' and len(ex) == 1 and ex[0] in (0, 1) and self.two_variants(c):
                    return frozenset(self.atoms(c, 1 - ex[0])), True
                return frozenset((mk('bin', 'Eq', c, INT(v)), 0) for v in ex), True
            return frozenset(), True
        if t[0] == 'assert':
            c = self.cond.get(p)
            if c is None or c is UNDEF:
                return frozenset(), True
            return frozenset(self.atoms(c, 1 if t[2] else 0)), True
        return frozenset(), True

    def two_variants(self, c):
        return True

    def facts_pass(self):
        self.cond = getattr(self, 'cond', {})
        self.preds = {b: [p for p in ps if (p, b) in self.live_e] for b, ps in self.preds.items()}
        TOP = None
        IN = {b: TOP for b in self.rpo}
        IN[self.ir.entry] = frozenset()
        self.efacts = {}
        base = {}
        for b in self.rpo:
            for s in dict.fromkeys(succs(self.ir.blocks[b].t)):
                base[(b, s)] = self.edge_facts(b, s)
        for it in range(60):
            ch = False
            for b in self.rpo:
                if b != self.ir.entry:
                    acc = TOP
                    for p in self.preds[b]:
                        e = self.efacts.get((p, b))
                        if e is None:
                            continue
                        acc = e if acc is TOP else acc & e
                    if acc is TOP:
                        if IN[b] is not TOP:
                            IN[b] = TOP
                        continue
                    if acc != IN[b]:
                        IN[b] = acc
                        ch = True
                for s in dict.fromkeys(succs(self.ir.blocks[b].t)):
                    g, live = base[(b, s)]
                    if not live or (b, s) not in self.live_e or IN[b] is TOP:
                        continue
                    f = IN[b] | g
                    for (t, v) in g:
                        f = f | self.expand(t, v)
                    if self.efacts.get((b, s)) != f:
                        self.efacts[(b, s)] = f
                        ch = True
            if not ch:
                break
        self.facts_in = {b: (IN[b] if IN[b] is not TOP else None) for b in self.rpo}
        self.dead = {b for b in self.rpo if IN[b] is TOP}

    def expand(self, t, v, depth=0):
        """facts implied through the phi that t is (or the discriminant of a phi)"""
        if depth > 6:
            return frozenset()
        ph, sel = None, None
        if t.op == 'phi':
            ph = t
            sel = lambda x: (x.args[0] == v) if x.op == 'int' else None
            sub = lambda x: self.atoms(x, v)
        elif t.op == 'discr' and t.args[0].op == 'phi':
            ph = t.args[0]
            sel = lambda x: (x.args[0][2] == v) if x.op == 'agg' and x.args[0][0] == 'adt' else None
            sub = lambda x: self.atoms(self.discr(x), v)
        if ph is None or ph.args[0] in self.loop_head:
            return frozenset()
        b = ph.args[0]
        acc = None
        for p, x in self.phi_in.get(ph, {}).items():
            s = sel(x)
            if s is False:
                continue
            f = self.efacts.get((p, b))
            if f is None:
                continue
            if s is None:
                ats = sub(x)
                f = f | frozenset(ats)
                for (t2, v2) in ats:
                    f = f | self.expand(t2, v2, depth + 1)
            acc = f if acc is None else acc & f
        return acc or frozenset()

    # -------------------------------------------------------------- queries
    def facts(self, b):
        return self.facts_in.get(b) or frozenset()

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.block not in self.dead and (not names or e.name in names)]

    def live(self, kind):
        return [e for e in self.events if e.kind == kind and e.block not in self.dead]

    def dominators(self):
        if hasattr(self, '_dom'):
            return self._dom
        idom = {self.ir.entry: self.ir.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b == self.ir.entry or b in self.dead:
                    continue
                n = None
                for p in self.preds[b]:
                    if p in idom and p not in self.dead and (p, b) in self.efacts:
                        n = p if n is None else self._isect(idom, n, p)
                if n is not None and idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self._dom = idom
        return idom

    def _isect(self, idom, a, b):
        while a != b:
            while self.pos[a] > self.pos[b]:
                a = idom[a]
            while self.pos[b] > self.pos[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        d = self.dominators()
        while True:
            if a == b:
                return True
            if b not in d or d[b] == b:
                return False
            b = d[b]

    def reach_from(self, b, avoid=()):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            for s in succs(self.ir.blocks[x].t):
                if (x, s) in self.efacts and s not in seen and s not in avoid:
                    seen.add(s)
                    st.append(s)
        return seen

    def headers(self):
        """blocks that loops come back to"""
        if not hasattr(self, '_headers'):
            self._headers = {s for b in range(len(self.ir.blocks)) if b not in self.dead for s in succs(self.ir.blocks[b].t) if self.dominates(s, b)}
        return self._headers

    def carried(self, t):
        """can the term stand for a value of an earlier iteration of a loop? (members of sequences, elem terms, mean those of the current one)"""
        seen, work, h = set(), [t], self.headers()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                if x.args[0] in h:
                    return True
                work += list(self.phi_in.get(x, {}).values())
        return False

    def alts(self, t, seen=None, limit=200):
        """possible values of a term: phis expanded into their incoming values"""
        if seen is None:
            seen = set()
        if t in seen:
            return set()
        if len(seen) > limit:
            return {t}
        seen.add(t)
        if t.op == 'phi':
            out = set()
            for x in self.phi_in.get(t, {}).values():
                out |= self.alts(x, seen, limit)
            return out
        return {t}
