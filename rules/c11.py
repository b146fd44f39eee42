"""Lock-order analysis. Guards are tracked by ownership from acquisition to drop, through calls, closures and moves, from every public
function of the library; every acquisition is recorded with the locks held at that point in every calling context. Violations: (1) a
lock is requested while the same lock is already held (for two reads: if some operation that can run at that moment requests it for
writing, because a waiting writer blocks new readers); (2) a cycle of requests of operations that can run at the same time, each
holding what another waits for; (3) waiting for a thread pool, a thread, a channel or a condition while holding a lock that other
public operations request, unless the wait is only reached outside worker threads: a waiting worker runs other queued jobs, which may
be such operations."""
import re, itertools
import lib, locks
from vals import subterms
from rules.common import held

TECHNIQUE = 'interprocedural lock-set and lock-order analysis over ownership-scoped guards'
NOTE = 'Locks are identified by the field that holds them (or their content type); try-locks and recursive reads do not block. Guards that user code keeps (get_elements) are outside the library and not tracked.'

RAYON = re.compile(r'^<?rayon(_core)?::')
LAZY = re.compile(r'::(par_iter|par_iter_mut|into_par_iter|par_bridge|par_chunks|par_chunks_mut|par_windows|par_split|current_num_threads|current_thread_index|current_thread_has_pending_tasks|new|num_threads|build|build_global|thread_name|stack_size|spawn|spawn_fifo|default|with_producer|drop)$')
ITER = re.compile(r'^rayon::(iter|slice|vec|range|collections|array|option|result|string)::')
POOL = re.compile(r'^rayon(_core)?::ThreadPool::(install|join|scope|scope_fifo|in_place_scope|spawn|spawn_fifo|broadcast)$')
WAIT = re.compile(r'(^|::)(JoinHandle(<.*?>|::<.*?>)?::join|Receiver(<.*?>|::<.*?>)?::(recv|recv_timeout|iter)|Condvar::wait\w*|Barrier::wait|thread::scope|thread::park|Once(Lock|Cell)?(<.*?>|::<.*?>)?::(call_once|get_or_init)|WaitGroup::wait)$')


class Req(object):
    def __init__(self, inst, may, must, way, sp):
        self.i, self.may, self.must, self.way, self.sp = inst, may, must, way, sp


def blocks_pool(F, L, k, t):
    f = L.call(t)
    if not f:
        return False
    p = f['path']
    if WAIT.search(p):
        return True
    if not RAYON.search(p) and not (f.get('trait') or '').startswith('rayon::'):
        return False
    if LAZY.search('::' + f['name']) or LAZY.search(p):
        return False
    d = F.bodies[k]['locals'][t['d'] if isinstance(t['d'], int) else t['d'][0]]
    r = F.types[d]
    return not (r.get('k') == 'adt' and ITER.search(r['path']))


def compat(ms):
    """can these (must-held) lock sets be held at the same time by different threads?"""
    for a, b in itertools.combinations(ms, 2):
        for x in a:
            for y in b:
                if isinstance(x.origin, str) and x.origin == y.origin and 'w' in (x.mode, y.mode):
                    return False
    return True


def collect(F):
    L = locks.Locks(F)
    rs = [k for k in lib.roots(F)]
    reqs, waits, seen = [], [], set()

    def visit(kind, way, k, i, t, may, must, a):
        if kind == 'acquire':
            key = (a.id(), a.rec, may, must)
            if key not in seen:
                seen.add(key)
                reqs.append(Req(a, may, must, way, t.get('sp', '')))
        elif may and blocks_pool(F, L, k, t):
            key = (k, i, may)
            if key not in seen:
                seen.add(key)
                waits.append((k, i, t, may, must, way))
        if kind == 'call' and blocks_pool(F, L, k, t):
            allwaits.add((k, i))
        if kind == 'call':
            f = L.call(t)
            if f and POOL.search(f['path']):
                for c in L.callees(k, t):
                    if F.bodies[c]['kind'] == 'Closure':
                        injobs.add(c)
    allwaits, injobs = set(), set()
    n = L.explore(rs, visit)
    return L, rs, reqs, waits, allwaits, injobs, n


def cls(i):
    return i.name()


def pathstr(F, way):
    out = []
    for k in way:
        p = F.bodies[k]['path']
        if not out or out[-1] != p:
            out.append(p)
    return ' > '.join(out if len(out) < 7 else out[:3] + ['...'] + out[-3:])


def fnname(F, k):
    return F.bodies[k]['path'].split('::{closure')[0]


def not_worker(ctx, cfg, k, i, t):
    """the wait is only reached when the caller is not a worker thread: every path to it passes a test that rayon::current_thread_index() is None"""
    F = ctx.F(cfg)
    root = k
    V = ctx.V(cfg, root)
    f = t['f']['k']['fn']
    evs = [e for e in V.live('call') if e.sp == t.get('sp') and (e.name or '').split('::')[-1] == f['name']]
    if not evs:
        return False

    def absent(fact):
        term, v = fact
        s = str(term)
        if 'current_thread_index' not in s:
            return False
        # discriminant of the Option is 0 (None)
        return term.op == 'discr' and v == 0 or term.op == 'call' and 'is_none' in str(term.args[0]) and v == 1 or term.op == 'call' and 'is_some' in str(term.args[0]) and v == 0 or \
            term.op == 'Eq' and 'discr' in s and v == 1 and term.args[-1] == ('int', 0)
    for e in evs:
        if not any(absent(x) for x in V.facts(e.block)):
            return False
    return True


def run(ctx):
    for cfg in ('rw', 'single'):
        F = ctx.F(cfg)
        held(ctx, cfg, F)
        L, rs, reqs, waits, allwaits, injobs, n = collect(F)
        classes = sorted({cls(r.i) for r in reqs})
        ctx.stats['lock classes [%s]' % cfg] = classes
        ctx.stats['acquisitions in context [%s]' % cfg] = len(reqs)
        ctx.stats['calling contexts [%s]' % cfg] = n
        ctx.stats['waits while holding a lock [%s]' % cfg] = len(waits)
        if cfg == 'rw':
            ctx.floor('lock classes', len(classes), 4)
            ctx.floor('acquisitions in context', len(reqs), 15)
            ctx.floor('acquisitions while another lock is held', sum(1 for r in reqs if r.may), 6)
            ctx.floor('waits for a thread pool', len(allwaits), 3)
        writers = [r for r in reqs if r.i.mode == 'w']

        def pending(inst, musts):
            for w in writers:
                if locks.same(w.i, inst) and compat(musts + [w.must]):
                    return w
            return None

        def blocks(q, h, musts):
            if 'w' in (q.i.mode, h.mode):
                return 'exclusive'
            w = pending(q.i, musts)
            return w and 'a waiting writer (%s)' % pathstr(F, w.way)

        # (1) re-acquisition
        bad = {}
        for q in reqs:
            if q.i.rec:
                continue
            hit = None
            for h in q.may:
                if locks.same(h, q.i):
                    why = blocks(q, h, [q.must])
                    if why:
                        hit = (h, why)
            key = '%s: %s.%s while holding %s' % (fnname(F, q.way[-1]), cls(q.i), q.i.mode, ','.join(sorted({'%s.%s' % (cls(h), h.mode) for h in q.may})) or 'nothing')
            if hit:
                bad[key] = (q, hit)
            elif key not in bad:
                bad.setdefault(key, None)
                if bad[key] is None:
                    bad[key] = (q, None)
        for key in sorted(bad):
            q, hit = bad[key]
            ctx.ob('no operation requests a lock it already holds', not hit, key if not hit else '%s requests %s again' % (fnname(F, q.way[-1]), cls(q.i)), q.sp,
                   pathstr(F, q.way) if not hit else '%s is requested for %s while %s holds it (%s); reached through %s' % (cls(q.i), 'writing' if q.i.mode == 'w' else 'reading', hit[0], hit[1], pathstr(F, q.way)))

        # (2) cycles
        E = [q for q in reqs if not q.i.rec and q.may]
        E2, sk = [], set()
        for q in E:
            s = (q.i.id(), frozenset((h.name(), h.mode) for h in q.may), frozenset((h.name(), h.mode) for h in q.must))
            if s not in sk:
                sk.add(s)
                E2.append(q)
        cycles = {}

        def search(chain):
            q = chain[-1]
            musts = [x.must for x in chain]
            first = chain[0]
            if len(chain) >= 2:
                for h in first.may:
                    if locks.same(h, q.i) and blocks(q, h, musts):
                        ks = tuple(sorted('%s > %s' % (fnname(F, x.way[-1]), cls(x.i)) for x in chain))
                        cycles.setdefault(ks, list(chain))
            if len(chain) >= 4:
                return
            for r in E2:
                if r in chain:
                    continue
                if not compat(musts + [r.must]):
                    continue
                if any(locks.same(h, q.i) and blocks(q, h, musts + [r.must]) for h in r.may):
                    search(chain + [r])
        for q in E2:
            search([q])
        # two threads in the same operation
        ctx.stats['lock-order edges [%s]' % cfg] = len(E2)
        small = [c for c in cycles if not any(set(d) < set(c) for d in cycles)]
        for ks in sorted(small):
            ch = cycles[ks]
            ctx.ob('no two operations wait for each other', False, ' / '.join(ks), ch[0].sp, '; '.join('%s holds %s and waits for %s' % (pathstr(F, x.way), sorted('%s.%s' % (cls(h), h.mode) for h in x.may), cls(x.i)) for x in ch))
        for q in E2:
            for h in sorted({cls(h) for h in q.may}):
                if not any(('%s > %s' % (fnname(F, q.way[-1]), cls(q.i))) in ks for ks in small):
                    ctx.ob('no two operations wait for each other', True, '%s -> %s in %s' % (h, cls(q.i), fnname(F, q.way[-1])), q.sp, 'no cycle of up to 4 operations through this edge')

        # (3) waiting while holding
        done = set()
        for k, i, t, may, must, way in waits:
            f = L.call(t)
            worst = None
            # a worker of a pool of our own only picks up jobs submitted to it; any other waiting worker may pick up any operation
            own = any(x in injobs for x in way)
            for h in may:
                for q in reqs:
                    if own and not any(x in injobs for x in q.way):
                        continue
                    if not q.i.rec and locks.same(h, q.i) and ('w' in (h.mode, q.i.mode)):
                        worst = (h, q)
            key = '%s waits in %s' % (fnname(F, k), f['name'])
            ok = worst is None or not_worker(ctx, cfg, k, i, t)
            if (key, ok) in done:
                continue
            done.add((key, ok))
            ctx.ob('no operation waits for workers while holding a lock they may need', ok, key, t.get('sp', ''),
                   ('reached only outside worker threads' if worst else 'a worker of the private pool: its jobs request nothing that is held' if own else 'nothing held is requested elsewhere') if ok else
                   'it holds %s; if the caller is itself a worker thread it runs other jobs while it waits, such as %s, which requests %s.%s' % (sorted('%s.%s' % (cls(h), h.mode) for h in may), pathstr(F, worst[1].way), cls(worst[1].i), worst[1].i.mode))
