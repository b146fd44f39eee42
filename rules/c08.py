"""Ownership tracking of memory maps. Every creation of a memory map (any call into a memory-mapping crate whose result holds a map) that a
safe public function can reach is followed, assuming it succeeded, along all paths of the inlined program: before every ordinary return
the map itself must have been dropped, so that - with the compiler's borrow checker, which forbids references to outlive it - nothing
returned can still read from the file. Public functions that are declared unsafe may keep the map. Creating a writable or copy-on-write
map is a violation anywhere, in the Python crate as well."""
import re
import lib
from explore import Explore, after
from rules.c31 import name
from rules.ioerr import carrier
from vals import contains, pp

TECHNIQUE = 'ownership (drop-before-return) dataflow on memory maps and effect query for writable maps'
NOTE = 'Relies on the borrow checker for references into a map that is dropped; transmuted lifetimes are the subject of C07.'
MAPTY = lambda p: re.search(r'(^|::)Mmap(Raw|Mut|Inner)?$', p) is not None
WRITABLE = re.compile(r'map_mut$|map_copy$|MmapMut|make_mut$|map_anon$')


def creations(F, k):
    out = []
    for bl in F.bodies[k]['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'k' in t['f'] and 'fn' in t['f']['k']:
            f = t['f']['k']['fn']
            if not f.get('local') and re.match(r'<?memmap|<?mmap|<?libc::mmap|<?fmmap', f['path']):
                out.append((f, t.get('sp')))
    return out


def is_map_call(V, e):
    if e.fn.get('local') or not re.match(r'<?(memmap|mmap|fmmap)', e.fn['path']):
        return False
    t = V.ir.place_ty(e.dest)
    return t is not None and V.F.contains_adt(t, MAPTY)


def run(ctx):
    made = 0
    for cfg in ('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        from rules.c01 import py_roots
        rs = py_roots(F) if cfg == 'py' else lib.roots(F)
        has = {k for k in F.bodies if creations(F, k)}
        for k in sorted(has):
            for f, sp in creations(F, k):
                n = name(f)
                if WRITABLE.search(n):
                    ctx.ob('no writable memory map', False, '%s: %s' % (F.bodies[k]['path'], n), sp, 'creates a map that can be written through')
        if cfg == 'py':
            continue
        ctx.floor('functions that create memory maps [%s]' % cfg, len(has), 1)
        inl = set()
        for k in rs:
            b = F.bodies[k]
            if not lib.reachable(F, [k]) & has:
                continue
            if b.get('unsafe'):
                ctx.ob('maps are kept only by unsafe functions', True, b['path'] + ' [%s]' % cfg, b['span'], 'declared unsafe')
                inl |= lib.reachable(F, [k]) & has
                continue
            V = ctx.V(cfg, k)
            for B in V.ir.blocks:
                if B.fr is not None:
                    inl.add(B.fr.key)
            for e in V.live('call'):
                if not is_map_call(V, e):
                    continue
                made += 1
                t = V.ir.place_ty(e.dest)
                res = carrier(F, t) == []
                pay = V.proj(V.proj(e.ret, ('d', 0)), ('f', 0)) if res else e.ret
                drops = [d for d in V.live('drop')]
                X = Explore(V, after(V, e), [(V.discr(e.ret), 0)] if res else [],
                            stop=lambda ev, x: dropped(ev) is not None and owns(V, dropped(ev), pay, e.ret))
                bad = [r for r, al in X.returns()]
                ctx.ob('a map made by a safe function is dropped before it returns', not bad, '%s: %s' % (e.fr.path.split('::{closure')[0], e.name), e.sp,
                       '%s, a safe public function, can return (at %s) with the memory map made here still alive' % (b['path'], bad[0].sp) if bad else 'in %s: dropped on every path' % b['path'])
        allr = lib.reachable(F, rs)
        for k in sorted((has & allr) - inl):
            ctx.ob('a map made by a safe function is dropped before it returns', False, F.bodies[k]['path'] + ': unseen', F.bodies[k]['span'], 'called in a way the analysis does not follow')
    ctx.floor('maps made by safe functions', made, 1)


def dropped(ev):
    if ev.kind == 'drop':
        return ev.val
    if ev.kind == 'call' and ev.name in ('mem::drop', 'ptr::drop_in_place') and ev.args:
        return ev.args[0]


def owns(V, v, pay, ret):
    seen, work = set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is pay or x is ret:
            return True
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op in ('agg', 'with') or x.op == 'call' and str(x.args[0]).startswith(('Arc::new', 'Rc::new', 'Box::new')):
            work += [a for a in x.args if hasattr(a, 'op')]
    return False
