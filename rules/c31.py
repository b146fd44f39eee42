"""File-system effect analysis. Every call of a standard-library (or memory-mapping, temporary-file) primitive that creates, truncates,
renames, removes, resizes or opens a file for writing is enumerated in everything public functions can reach. Who may reach one: only
public functions whose name says that they save. For each effect reached by a save function, the path it is applied to is traced
through the inlined program and must be computed from a path parameter of that function, and not from one the function reads
(opens, maps or lists). Where two output paths are given, the stream that receives the index must be the one named for the index.
Every path parameter of a save function must reach a file operation."""
import re
import lib
from vals import subterms, pp

TECHNIQUE = 'call-graph effect query plus value-flow of the path argument'
NOTE = 'Covers the Rust and the Python crate; effects inside dependencies other than the enumerated primitives are not looked at.'

WRITE = re.compile(r'(^|::)fs::(write|copy|rename|remove_file|remove_dir|remove_dir_all|create_dir|create_dir_all|hard_link|set_permissions|soft_link)$|File::(create|create_new|set_len|set_permissions|set_modified)$|os::unix::fs::symlink$|^tempfile::|DirBuilder::create$|OpenOptions::(write|append|truncate|create|create_new)$|::map_mut$|MmapMut')
READ = re.compile(r'(^|::)fs::(read|read_to_string|read_dir)$|File::open$')


def name(fn):
    return re.sub(r'::<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)*[^<>]*>', '', fn['path'])


def effects(F, k):
    out = []

    def op(o, sp):
        if isinstance(o, dict) and isinstance(o.get('k'), dict) and 'fn' in o['k'] and not o['k']['fn'].get('local'):
            n = name(o['k']['fn'])
            if WRITE.search(n):
                out.append((n, sp))
    b = F.bodies[k]
    for bl in b['blocks']:
        for st in bl['s']:
            if st[0] == '=':
                for x in st[2][1:]:
                    for y in (x if isinstance(x, list) else [x]):
                        op(y, st[-1])
        t = bl['t']
        if t['t'] == 'call':
            op(t['f'], t.get('sp', b['span']))
            for a in t['a']:
                op(a, t.get('sp', b['span']))
    return out


def args_of(V, t):
    """root arguments a value is computed from"""
    out, seen, work = set(), set(), [t]
    while work:
        x = work.pop()
        for s in subterms(x):
            if s in seen:
                continue
            seen.add(s)
            if s.op == 'arg':
                out.add(s.args[0])
            elif s.op == 'phi':
                work += list(V.phi_in.get(s, {}).values())
    return out


def run(ctx):
    from rules.c01 import py_roots
    tot = 0
    for cfg in ('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        rs = py_roots(F) if cfg == 'py' else lib.roots(F)
        inl, pend = set(), []
        for k in rs:
            b = F.bodies[k]
            R = lib.reachable(F, [k])
            eff = [(r, n, sp) for r in sorted(R) for n, sp in effects(F, r)]
            if not eff:
                ctx.stat('public functions without file effects')
                continue
            saver = 'save' in b['name'].lower()
            if not saver:
                for r, n, sp in eff:
                    ctx.ob('only save functions change files', False, '%s: %s' % (F.bodies[r]['path'].split('::{closure')[0], n), sp, '%s, which is not a save function, can reach %s' % (b['path'], n))
                continue
            V = ctx.V(cfg, k)
            readargs = {}
            for e in V.live('call'):
                if READ.search(name(e.fn)):
                    for a in args_of(V, e.vals[0]):
                        readargs.setdefault(a, e)
            made, used = [], set(readargs)
            for e in V.live('call'):
                n = name(e.fn)
                if not WRITE.search(n) and not n.endswith('OpenOptions::open'):
                    continue
                tot += 1
                if 'OpenOptions' in n and not n.endswith('::open') or 'set_len' in n or 'set_permissions' in n or 'map_mut' in n:
                    continue
                v = e.vals[1] if n.endswith('OpenOptions::open') else e.vals[0] if e.vals else None
                ars = args_of(V, v) if v is not None else set()
                made.append((e, ars))
                used |= ars
                names = lambda s: ', '.join(b['argnames'][a - 1] for a in sorted(s))
                path_like = {a for a in ars if re.search(r'Path|str|String|OsStr|AsRef', F.tstr(b['ins'][a - 1])) or F.types[F.peel(b['ins'][a - 1])].get('k') == 'param'}
                bad = path_like & set(readargs)
                good = path_like - set(readargs)
                k0 = '%s: %s' % (e.fr.path.split('::{closure')[0], n.split('::')[-2] + '::' + n.split('::')[-1])
                ctx.ob('files are written at the given output path', bool(good) and not bad, k0, e.sp,
                       '%s: path computed from %s%s' % (b['path'], names(path_like) or 'no path parameter: ' + (pp(v)[:100] if v is not None else 'nothing'),
                                                        ('; %s is a path this function reads' % names(bad)) if bad else ''))
            # index and elements do not change places
            outs = [(e, a) for e, a in made if len(a) == 1]
            if len({tuple(a) for e, a in outs}) >= 2 and any('index' in b['argnames'][next(iter(a)) - 1] for e, a in outs):
                for e, a in outs:
                    nm = b['argnames'][next(iter(a)) - 1]
                    f = V.proj(V.proj(e.ret, ('d', 0)), ('f', 0))
                    seeks = [c for c in V.live('call') if c.name.startswith('Seek::') and c.vals and derived(V, c, f)]
                    if seeks or any(c.name.startswith('Write::') and derived(V, c, f) for c in V.live('call')):
                        ctx.ob('index and elements go to their own files', bool(seeks) == ('index' in nm), '%s: %s' % (b['path'], nm), e.sp,
                               'the file created at %s receives %s' % (nm, 'the index (its writer seeks)' if seeks else 'only sequential data'))
            for B in V.ir.blocks:
                if B.fr is not None:
                    inl.add(B.fr.key)
            for r, n, sp in eff:
                pend.append((b, r, n, sp))
            # dynamic dispatch to another save function: the path is handed on
            for e in V.live('call'):
                if e.fn.get('local') and e.fn.get('trait') and 'save' in e.fn['name'].lower():
                    ars = set()
                    for v in e.vals[1:]:
                        ars |= args_of(V, v)
                    used |= ars
                    ctx.ob('files are written at the given output path', bool(ars - {1}), '%s: dyn %s' % (b['path'], e.fn['name']), e.sp, 'hands on ' + ', '.join(b['argnames'][x - 1] for x in sorted(ars)))
            # an output path nobody looks at: what should be there goes somewhere else, or nowhere
            for i, t in enumerate(b['ins']):
                s = F.tstr(t)
                if re.search(r'\b(str|String|Path|PathBuf|OsStr|OsString)$', s) or 'path' in (b['argnames'][i] or '').lower():
                    ctx.ob('every path given to a save function is used', i + 1 in used, '%s: %s' % (b['path'], b['argnames'][i]), b['span'],
                           'parameter %s (%s) %s' % (b['argnames'][i], s, 'names a file' if i + 1 in used else 'reaches no file operation'))
        for b, r, n, sp in pend:
            if r not in inl:
                ctx.ob('files are written at the given output path', False, '%s: %s unseen' % (F.bodies[r]['path'], n), sp, 'reachable from %s in a way the analysis does not follow' % b['path'])
    ctx.floor('file-changing calls in save functions', tot, 6)


def derived(V, c, f):
    seen, work = set(), list(c.vals[:1]) + list(c.args[:1])
    while work:
        x = work.pop()
        for s in subterms(x):
            if s is f:
                return True
            if s in seen:
                continue
            seen.add(s)
            if s.op == 'phi':
                work += list(V.phi_in.get(s, {}).values())
    return False
