"""Effect analysis for hidden inputs. For every public function except building and inserting (which are allowed to be randomised or scheduled),
everything it can reach is searched for sources of results that are not determined by the arguments: random numbers, the environment, process and
thread identities, addresses turned into numbers, mutable statics and thread-locals, iteration over hash containers whose hasher is
seeded at random, results of parallel searches and folds that depend on timing, and state shared between the threads of a parallel iteration
(anything but a progress bar). Clock values are followed: they may reach printed text only. Directory listings are followed: the
list has to be sorted before anything else iterates over it or indexes it."""
import re
import lib
from rules.inserting import bases, last
from rules.searching import inputs, mutated, path_without
from vals import pp, subterms

TECHNIQUE = 'call-graph query for nondeterminism sources, with forward dataflow for clock values and directory listings'
NOTE = 'Dependencies are trusted to be deterministic except for the enumerated sources. Building and inserting are outside the property.'

SOURCES = [
    ('random numbers', re.compile(r'(^|<|::)(rand|rand_core|rand_chacha|rand_distr|fastrand|getrandom|oorandom)::|thread_rng|from_entropy|(^|::)random::')),
    ('random hash keys', re.compile(r'RandomState::(new|hash_one|build_hasher)|DefaultHasher::(new|default)$.*RandomState|^<std::hash::RandomState as ')),
    ('the environment', re.compile(r'(^|::)env::(var|vars|var_os|vars_os|args|args_os|temp_dir|current_dir)$|process::id$|(^|::)(available_parallelism|current_num_threads|current_thread_index|num_cpus)\b')),
    ('thread identity', re.compile(r'thread::current$|Thread::id$')),
    ('thread-local state', re.compile(r'LocalKey(::|<.*>::)(with|set|get|take|replace)')),
    ('shared counters', re.compile(r'(^|::)Atomic[A-Z]\w*(::<\w+>)?::(fetch_\w+|store|swap|compare_exchange\w*|load|compare_and_swap)|atomic::Atomic(::)?<')),
    ('timing of threads', re.compile(r'::(find_any|find_map_any|position_any|par_bridge|try_reduce|try_fold)\b|mpsc::|crossbeam(_channel)?::|(^|::)thread::(spawn|scope)$|Scope::<.*>::spawn|rayon::spawn|recv_timeout|try_lock\b|try_read\b|try_write\b')),
]
HASHITER = re.compile(r'(HashMap|HashSet)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|par_iter)$|hash_(map|set)::(Iter|IntoIter|Keys|Values|Drain)')
CLOCK = re.compile(r'(Instant|SystemTime)::now$')
THROUGHCLOCK = {'elapsed', 'as_secs', 'as_secs_f64', 'as_secs_f32', 'as_millis', 'as_micros', 'as_nanos', 'subsec_millis', 'subsec_nanos', 'subsec_micros', 'duration_since', 'sub', 'from', 'into', 'clone', 'unwrap', 'unwrap_or', 'expect', 'map', 'as_ref', 'copied'}
TEXT = re.compile(r'fmt::(rt::)?Argument|fmt::Arguments|ArgumentV1|fmt::rt|Display|Debug|_print$|mem::drop|drop_in_place')


def entry(F, k):
    b = F.bodies[k]
    if b['kind'] == 'Closure' or 'test_helper' in b['path']:
        return False
    t = b.get('self_ty')
    if b['name'] == 'new' and isinstance(t, int) and 'Builder' in (F.tstr(t) or ''):
        return False
    return not re.match(r'build|insert|push|set_|with_', b['name'])


def fns(b):
    """functions called or mentioned: (fn record, terminator or None, span)"""
    def op(o, sp):
        if isinstance(o, dict) and isinstance(o.get('k'), dict) and 'fn' in o['k']:
            yield o['k']['fn'], None, sp
    for bl in b['blocks']:
        if bl.get('cl'):
            continue
        for st in bl['s']:
            if st[0] == '=':
                for x in st[2][1:]:
                    for y in (x if isinstance(x, list) else [x]):
                        for z in op(y, st[-1]):
                            yield z
        t = bl['t']
        if t['t'] == 'call':
            sp = t.get('sp', b['span'])
            if isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k']:
                yield t['f']['k']['fn'], t, sp
            for a in t['a']:
                for z in op(a, sp):
                    yield z


def run(ctx):
    for cfg in (('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py')):
        F = ctx.F(cfg)
        rs = [k for k in lib.roots(F) if entry(F, k)]
        R = lib.reachable(F, rs)
        ctx.floor('public functions that must be deterministic [%s]' % cfg, len(rs), 40 if cfg != 'py' else 5)
        ctx.stat('functions searched [%s]' % cfg, len(R))
        calls = 0
        par = set()
        for k in sorted(R):
            b = F.bodies[k]
            where = b['path'].split('::{closure')[0]
            for fn, t, sp in fns(b):
                calls += 1
                p = fn['path']
                full = p if fn.get('local') else p + ' ' + str(fn.get('trait') or '')
                if not fn.get('local'):
                    for what, rx in SOURCES:
                        if rx.search(p):
                            ctx.ob('results depend on the arguments only', False, '%s: %s' % (where, what), sp, 'calls %s' % p)
                    if HASHITER.search(strip_ref(p)) and random_hash(F, fn) or last(p) in ('into_iter', 'from_par_iter', 'into_par_iter') and fn.get('args') and isinstance(fn['args'][0], int) and random_map(F, fn['args'][0]):
                        ctx.ob('the order of a randomly seeded hash container is not observed', False, '%s: %s' % (where, last(p)), sp, 'iterates over %s' % p)
                if last(p) in ('lock', 'write', 'borrow_mut', 'get_or_init', 'set', 'send', 'update') and t is not None and not fn.get('local'):
                    shared(ctx, F, b, fn, t, sp, where, k)
                if CLOCK.search(p) and t is not None:
                    clock(ctx, F, k, b, t, sp, where)
            statics(ctx, F, b, where)
        ctx.stat('calls searched [%s]' % cfg, calls)
        listings(ctx, cfg, F, R)
    ctx.assume('functions of dependencies other than the enumerated sources are deterministic')
    # the query sees what it is about: the parallel build shares state between threads
    F = ctx.F('rw')
    bs = [k for k in lib.roots(F) if re.match(r'build|insert', F.bodies[k]['name'])]
    hits = sum(1 for k in lib.reachable(F, bs) for fn, t, sp in fns(F.bodies[k]) if t is not None and last(fn['path']) in ('write', 'lock') and guarded(F, F.bodies[k], fn, t) not in (None, 'ProgressBar'))
    ctx.floor('shared state found in building and inserting (the query works)', hits, 1)


def strip_ref(p):
    return re.sub(r"&('\w+ )?(mut )?", '', p)


def random_map(F, t):
    r = F.types[F.peel(t)]
    return r.get('k') == 'adt' and re.search(r'Hash(Map|Set)$', r['path'].split('<')[0]) is not None and any('RandomState' in (F.tstr(x) or '') for x in F.walk(F.peel(t)))


def random_hash(F, fn):
    ts = [a for a in fn.get('args', []) if isinstance(a, int)]
    return not ts or any('RandomState' in (F.tstr(a) or '') for a in ts) or not any('Hasher' in (F.tstr(a) or '') for a in ts)


def guarded(F, b, fn, t):
    """what a lock or cell guards: 'ProgressBar', another type's name, or None if the receiver is no lock or cell"""
    from rules.c24 import op_ty
    if not t['a']:
        return None
    ty = op_ty(F, b, t['a'][0])
    if ty is None:
        return None
    r = F.types[F.peel(ty)]
    if r.get('k') != 'adt' or not re.search(r'(Mutex|RwLock|RefCell|Cell|OnceCell|OnceLock|Lazy|LazyLock|ReentrantMutex)$', r['path']):
        return None
    s = F.tstr(F.peel(ty)) or ''
    inner = [a for a in r.get('args', []) if isinstance(a, int)]
    x = F.tstr(inner[-1]) if inner else s
    return 'ProgressBar' if 'ProgressBar' in x else x


def shared(ctx, F, b, fn, t, sp, where, k):
    g = guarded(F, b, fn, t)
    if g is None or g in ('ProgressBar', '()'):
        return
    ctx.ob('no state is changed behind a shared reference', False, '%s: %s' % (where, last(fn['path'])), sp, 'changes shared %s' % g)


def statics(ctx, F, b, where):
    for bl in b['blocks']:
        for st in bl['s']:
            if st[0] == '=' and isinstance(st[2], list):
                for x in st[2][1:]:
                    if isinstance(x, dict) and isinstance(x.get('k'), dict) and 'static' in x['k']:
                        s = x['k']['static']
                        if isinstance(s, dict) and s.get('mut'):
                            ctx.ob('no mutable static is used', False, '%s: %s' % (where, s.get('path')), st[-1], 'a mutable static')
                if st[2][0] == 'cast' and 'ExposeProvenance' in str(st[2][1]) or st[2][0] == 'cast' and 'PointerExpose' in str(st[2][1]):
                    why = beyond_alignment(F, b, base(st[1]))
                    if why:
                        ctx.ob('addresses are not turned into numbers', False, '%s: cast' % where, st[-1], 'an address becomes a number: ' + why)
                    else:
                        ctx.stat('addresses only tested for alignment', 1)


def beyond_alignment(F, b, start):
    """what else than a test for alignment is done with an address (None: nothing). Whether data is aligned decides if it is borrowed or
    copied, which C06 checks to be the same for the reader"""
    addr, rem, grown = {start}, set(), True
    while grown:
        grown = False
        for bl in b['blocks']:
            if bl.get('cl'):
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                us = rv_locals(s[2])
                if us & addr:
                    d = base(s[1])
                    if d == 0 or not isinstance(s[1], int):
                        return 'it is returned or stored'
                    first = op_local(s[2][2]) if s[2][0] == 'bin' else None
                    to = addr if s[2][0] == 'use' else rem if s[2][0] == 'bin' and s[2][1] in ('Rem', 'BitAnd') and (first in addr or s[2][1] == 'BitAnd') else None
                    if to is None:
                        return 'it is used in ' + str(s[2][:2])[:60]
                    if d not in to:
                        to.add(d)
                        grown = True
                if us & rem:
                    c = [x['k'].get('v') for x in s[2][2:] if isinstance(x, dict) and 'k' in x] if s[2][0] == 'bin' else None
                    if s[2][0] == 'use' and isinstance(s[1], int) and s[1] != 0:
                        if s[1] not in rem:
                            rem.add(s[1])
                            grown = True
                    elif not (s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne', 'Gt') and c == [0]):
                        return 'its remainder is used in ' + str(s[2][:2])[:60]
            t = bl['t']
            if t['t'] == 'call' and any(op_local(a) in addr | rem for a in t['a']):
                n = t['f']['k']['fn']['name'] if isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k'] else '?'
                if n not in ('is_multiple_of',):
                    return 'it is passed to ' + n
            if t['t'] == 'switch' and op_local(t['d']) in addr:
                return 'a branch depends on it'
    return None


# ------------------------------------------------------------------ clock
def clock(ctx, F, k, b, t, sp, where):
    """forward taint of a clock value within the function (and closures it is captured by)"""
    bad = taint(F, b, {base(t['d'])})
    ctx.ob('clock values only reach printed text', not bad, '%s: clock' % where, sp, '; '.join(sorted(bad)) or 'followed to its uses: elapsed times that are printed')


def base(p):
    return p if isinstance(p, int) else p[0]


def op_local(o):
    if not isinstance(o, dict):
        return None
    p = o.get('c', o.get('m'))
    return None if p is None else base(p)


def rv_locals(rv):
    out = set()

    def w(x):
        if isinstance(x, dict):
            l = op_local(x)
            if l is not None:
                out.add(l)
        elif isinstance(x, list):
            for y in x:
                w(y)
    for x in rv[1:]:
        w(x)
    if rv[0] in ('ref', 'rawptr', 'discr', 'len'):
        p = rv[2] if rv[0] in ('ref', 'rawptr') else rv[1]
        if isinstance(p, int) or isinstance(p, list):
            out.add(base(p))
    return out


def taint(F, b, start):
    tainted, bad = set(start), set()
    grown = True
    while grown:
        grown = False
        for bl in b['blocks']:
            if bl.get('cl'):
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                if rv_locals(s[2]) & tainted:
                    # a test of whether the clock was read at all is no use of its value
                    if s[2][0] == 'discr':
                        continue
                    if F.tstr(b['locals'][base(s[1])]) and re.search(r'fmt::|Argument', F.tstr(b['locals'][base(s[1])])):
                        continue
                    if s[2][0] == 'agg' and 'losure' in str(s[2][1])[:40]:
                        bad.add('captured by a closure')
                    d = base(s[1])
                    if d == 0:
                        bad.add('returned')
                    if d not in tainted:
                        tainted.add(d)
                        grown = True
            t = bl['t']
            if t['t'] == 'switch' and op_local(t['d']) in tainted:
                bad.add('decides a branch')
            if t['t'] == 'call':
                hit = [a for a in t['a'] if op_local(a) in tainted]
                if not hit:
                    continue
                fn = t['f']['k']['fn'] if isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k'] else None
                if fn is not None and (TEXT.search(fn['path']) or TEXT.search(str(fn.get('trait') or ''))):
                    continue
                if fn is not None and last(fn['path']) in THROUGHCLOCK and not fn.get('local'):
                    d = base(t['d'])
                    if d == 0:
                        bad.add('returned')
                    if d not in tainted:
                        tainted.add(d)
                        grown = True
                    continue
                bad.add('passed to %s' % (fn['path'] if fn else 'a function value'))
    return bad


# ------------------------------------------------------------------ directory listings
ORDERLESS = {'collect', 'map', 'into_iter', 'iter', 'unwrap', 'expect', 'path', 'filter', 'filter_map', 'next', 'flatten', 'read_dir', 'push', 'deref', 'deref_mut', 'as_mut_slice', 'len', 'count', 'file_name', 'file_type', 'metadata', 'by_ref', 'drop', 'extend', 'is_file', 'is_dir', 'as_ref', 'into_iter_sorted',
             'map_err', 'is_empty', 'join', 'clone', 'to_path_buf', 'as_path', 'extension', 'insert', 'is_some', 'is_none', 'new', 'from_iter', 'par_sort', 'as_mut'}


def listings(ctx, cfg, F, R):
    users = [k for k in sorted(R) if any(last(fn['path']) == 'read_dir' and not fn.get('local') for fn, t, sp in fns(F.bodies[k]))]
    tops = set()
    for k in users:
        b = F.bodies[k]
        top = k
        while F.bodies[top]['kind'] == 'Closure' and F.bodies[top].get('root') and F.bodies[top]['root'] in F.bodies:
            top = F.bodies[top]['root']
        # callers see the list too
        callers = [x for x in lib.reachable_to(F, top)] if hasattr(lib, 'reachable_to') else []
        tops.add(top)
    cg = lib.callgraph(F)
    grown = True
    # up to the callers that can be inlined around the listing
    work = list(tops)
    best = set()
    for t in work:
        up = [c for c, s in cg.items() if t in s and c != t and F.bodies[c]['kind'] != 'Closure' and not F.bodies[t].get('exported')]
        best |= set(up) or {t}
    for k in sorted(best):
        V = ctx.V(cfg, k, tag='listing')
        n = 0
        for c in V.live('call'):
            if last(c.name) == 'read_dir':
                n += 1
                bad = unsorted_uses(V, c)
                ctx.ob('a directory listing is sorted before it is used', not bad, '%s: read_dir' % F.bodies[k]['path'], c.sp, '; '.join(sorted(bad)) or 'every use of the list comes after it was sorted')
        ctx.stat('directory listings [%s]' % cfg, n)


SORTS = {'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'par_sort', 'par_sort_unstable', 'par_sort_by', 'par_sort_by_key', 'par_sort_unstable_by', 'par_sort_unstable_by_key', 'sort_by_cached_key'}


def ordered(V):
    """results of calls that build a sorted container, like collect::<BTreeSet<_>>()"""
    if not hasattr(V, '_ordered'):
        V._ordered = {e.ret for e in V.live('call') if e.ret is not None and e.fn and last(e.name) in ('collect', 'from_iter')
                      and any('BTree' in (V.F.tstr(a) or '') for a in e.fn.get('args', []) if isinstance(a, int))}
    return V._ordered


def from_listing(V, t, src, memo):
    """does an unsorted listing flow into t? sorting ends it"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in ordered(V):
            continue
        if x is src.ret or x.op == 'call' and last(x.args[0]) == 'read_dir':
            return True
        if x.op == 'mut' and last(x.args[0]) in SORTS:
            continue
        if x.op == 'call' and last(x.args[0]) in ('sorted', 'sorted_by', 'sorted_by_key', 'len', 'count', 'is_empty', 'sorted_unstable', 'into_sorted_vec'):
            continue
        if x.op in ('len',):
            continue
        if x.op == 'call' and ('BTree' in str(x.args[0]) or 'BinaryHeap' in str(x.args[0])):
            continue
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
            continue
        for a in x.args:
            if hasattr(a, 'op'):
                work.append(a)
            elif isinstance(a, tuple):
                st = list(a)
                while st:
                    y = st.pop()
                    if hasattr(y, 'op'):
                        work.append(y)
                    elif isinstance(y, (tuple, frozenset)):
                        st += list(y)
    return False


def unsorted_uses(V, c):
    bad = set()
    for e in V.live('call'):
        m = last(e.name)
        if m in ORDERLESS or m in SORTS or e is c:
            continue
        for v in e.vals:
            if from_listing(V, v, c, {}):
                bad.add('%s sees the list in directory order' % m)
    for e in V.live('return'):
        if e.val is not None and from_listing(V, e.val, c, {}):
            bad.add('the unsorted list is returned')
    return bad
