"""Call-graph effect query in the single-threaded configuration. From every public function of the builder and of the index, except
reordering (which the feature does not cover), all functions that can be called - closures, trait implementations and formatting
included - are collected, and every call or function value in them that would run code on another thread (rayon's parallel iterators,
joins, scopes, pools; std threads) is a violation. In the default configuration the same query must find the parallel build, which
shows that the rule sees it."""
import re
import lib

TECHNIQUE = 'call-graph reachability of thread-spawning effects in the feature configuration'
NOTE = 'Over-approximates what building and searching can call; dependencies other than rayon and std threads are assumed not to start threads.'

THREAD = re.compile(r'^<?(rayon|rayon_core|crossbeam|crossbeam_utils|tokio|threadpool|scoped_threadpool)::|(^|::)thread::(spawn|scope|Builder)\b|ScopedJoinHandle|as rayon::|Par(allel)?(Iterator|Extend|Slice)|FromParallelIterator')
COVERED = ('GranneBuilder', 'Granne', 'BuildConfig')


def thread_calls(F, k):
    out = []

    def op(o, sp):
        if isinstance(o, dict) and isinstance(o.get('k'), dict) and 'fn' in o['k']:
            f = o['k']['fn']
            if THREAD.search(f['path']) or (f.get('trait') and THREAD.search(f['trait'] + '::')):
                out.append((f['path'], sp))
    b = F.bodies[k]
    for bl in b['blocks']:
        for st in bl['s']:
            if st[0] == '=':
                for x in st[2][1:]:
                    for y in (x if isinstance(x, list) else [x]):
                        op(y, st[-1])
        t = bl['t']
        if t['t'] == 'call':
            sp = t.get('sp', b['span'])
            op(t['f'], sp)
            for a in t['a']:
                op(a, sp)
    return out


def entry(F, k):
    b = F.bodies[k]
    if not b.get('exported') or b['kind'] == 'Closure' or b['name'].startswith('reorder'):
        return False
    t = b.get('self_ty')
    if t is not None:
        r = F.types[F.peel(t)]
        if r.get('k') == 'adt' and r.get('local') and r['path'].split('::')[-1] in COVERED:
            return True
    return False


def run(ctx):
    for cfg in ('single', 'rw'):
        F = ctx.F(cfg)
        rs = [k for k in F.bodies if entry(F, k)]
        R = lib.reachable(F, rs)
        hits = []
        for k in sorted(R):
            for p, sp in thread_calls(F, k):
                hits.append((k, p, sp))
        ctx.stats['entry points [%s]' % cfg] = len(rs)
        ctx.stats['functions reachable [%s]' % cfg] = len(R)
        if cfg == 'rw':
            ctx.stats['thread-starting calls found in the default configuration'] = sorted({h[1] for h in hits})
            ctx.floor('thread-starting calls in the default configuration (positive example)', len(hits), 1)
            continue
        ctx.floor('public builder and index functions', len(rs), 20)
        cg = lib.callgraph(F)
        for k, p, sp in hits:
            ctx.ob('no worker threads in the single-threaded configuration', False, '%s: %s' % (F.bodies[k]['path'].split('::{closure')[0], p), sp,
                   'reachable from %s' % ' > '.join(F.bodies[x]['path'] for x in way(cg, rs, k)))
        if not hits:
            for k in rs:
                ctx.ob('no worker threads in the single-threaded configuration', True, F.bodies[k]['path'], F.bodies[k]['span'], '%d functions reachable' % len(lib.reachable(F, [k])))


def way(cg, rs, k):
    prev = {r: None for r in rs}
    q = list(rs)
    while q:
        x = q.pop(0)
        if x == k:
            break
        for y in sorted(cg.get(x, ())):
            if y not in prev:
                prev[y] = x
                q.append(y)
    out = []
    while k is not None:
        out.append(k)
        k = prev.get(k)
    return out[::-1]
