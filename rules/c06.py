"""Which types bytes are reinterpreted as, and what is known of the address where that happens. All instances of the crate's functions that
can be called from the exported functions are enumerated (type arguments substituted). In each instance the operations that read or form
typed values through raw pointers (from_raw_parts, ptr::read, ...) are judged on the inlined function: the pointer must come from a slice
whose elements are at least as strictly aligned; or the target type must have alignment 1; or the address must have been tested on every
path; or the pointer goes a constant, suitably aligned number of bytes into a memory map. The number of values formed must not exceed what
the slice holds. An operation that cannot be justified in its own function is judged again in every caller, up to the exported functions.
Targets must be types for which every bit pattern is a value, and types written as bytes must have no padding."""
import lib
from linear import Linear, add
from mono import Mono, closures
from rules import layout
from vals import INT, mk, pp, subterms

TECHNIQUE = 'alignment and extent analysis of pointer reinterpretations over all reachable monomorphic instances'
NOTE = 'memmap is trusted to return page-aligned memory; exported functions whose own type parameter is the target type are judged with an unknown alignment.'

READS = {'slice::from_raw_parts': 2, 'slice::from_raw_parts_mut': 2, 'ptr::slice_from_raw_parts': 2}
ONE = {'read', 'replace', 'write', 'read_volatile', 'write_volatile', 'as_ref', 'as_mut', 'swap', 'drop_in_place', 'as_ref_unchecked'}
UNAL = {'read_unaligned', 'write_unaligned'}
COPY = {'copy_nonoverlapping', 'copy', 'copy_to', 'copy_from', 'copy_to_nonoverlapping', 'copy_from_nonoverlapping', 'swap_nonoverlapping', 'write_bytes'}
MOVES = {'add', 'offset', 'sub', 'wrapping_add', 'wrapping_offset', 'wrapping_sub', 'cast', 'byte_add', 'cast_mut', 'cast_const', 'as_ptr', 'byte_offset'}
PAGE = 4096


def last(n):
    return str(n).split('::')[-1]


def is_ptr(n):
    return 'ptr' in str(n).split('::')[0] or '::ptr::' in str(n)


def op_of(e):
    """(align needed?, number of values term or int, pointers) of an operation through raw pointers"""
    n = last(e.name)
    if n in ('from_raw_parts', 'from_raw_parts_mut') and len(e.vals) == 2 and 'slice' in e.name:
        return True, e.vals[1], [e.vals[0]]
    if is_ptr(e.name):
        if n in UNAL:
            return False, INT(1), [e.vals[0]]
        if n in ONE and e.fn and e.fn.get('unsafe', True):
            return True, INT(1), [e.vals[0]]
        if n in COPY:
            return True, e.vals[-1], list(e.vals[:2])
    return None


def targs(F, e):
    return [a for a in (e.fn or {}).get('args', []) if isinstance(a, int)]


class Site(object):
    def __init__(self, V, e, need, n, p, T):
        self.V, self.e, self.need, self.n, self.p, self.T = V, e, need, n, p, T


def sites(V):
    out = []
    for e in V.live('call'):
        o = op_of(e)
        if o:
            a = targs(V.F, e)
            for p in o[2]:
                out.append(Site(V, e, o[0], o[1], p, a[0] if a else None))
    return out


def align(F, T):
    t = F.types[T] if T is not None else {}
    if t.get('align'):
        return t['align']
    k = t.get('k')
    if k in ('array', 'slice'):
        return align(F, t['t'])
    return None


def size(F, T):
    t = F.types[T] if T is not None else {}
    if t.get('k') == 'array' and t.get('size') is None and isinstance(t.get('len'), int):
        n = size(F, t['t'])
        return None if n is None else n * t['len']
    return t.get('size')


def source(V, p, d=0):
    """(slice term, element type, moved by [terms]) a pointer was taken from"""
    if d > 20:
        return None
    if p.op == 'call' and len(p.args) > 2:
        n = last(p.args[0])
        if n in ('as_ptr', 'as_mut_ptr') and not is_ptr(p.args[0]):
            for e in V.live('call'):
                if e.ret is p or e.name == p.args[0] and e.vals and e.vals[0] is p.args[2]:
                    a = targs(V.F, e)
                    if a:
                        return p, p.args[2], a[0], []
            return None
        if n in MOVES or is_ptr(p.args[0]) and n in MOVES:
            s = source(V, p.args[2], d + 1)
            if s is None:
                return None
            if n in ('cast', 'cast_mut', 'cast_const', 'as_ptr'):
                return s
            for e in V.live('call'):
                if e.ret is p:
                    a = targs(V.F, e)
                    return s[0], s[1], s[2], s[3] + [(n, p.args[3] if len(p.args) > 3 else None, a[0] if a else None)]
            return s[0], s[1], s[2], s[3] + [(n, p.args[3] if len(p.args) > 3 else None, None)]
    return None


def addresses(V, t):
    """is the term the address of a pointer: the pointer"""
    while t.op == 'cast' or t.op == 'call' and last(t.args[0]) in ('addr', 'expose_provenance', 'expose_addr', 'cast') and len(t.args) > 2:
        t = t.args[-1] if t.op == 'cast' else t.args[2]
    return t


def value(F, t, T):
    """number a term stands for: ('n', int) or ('align', type name) for the alignment of T"""
    if t.op == 'int':
        return t.args[0]
    if t.op == 'alignof':
        return ('align', str(t.args[0]))
    return None


def checked(V, s, src):
    """does a fact at the operation say that the address is aligned?"""
    F, T = V.F, s.T
    A = align(F, T)

    def enough(t):
        if t.op == 'int':
            return A is not None and t.args[0] % A == 0 and t.args[0] > 0
        return t.op == 'alignof' and str(t.args[0]) == F.tstr(T) or str(getattr(t, 'op', '')) == 'call' and last(t.args[0]) in ('align_of', 'align_of_val') and str(F.tstr(T)) in pp(t, 4)

    def same(t):
        p = addresses(V, t)
        q = source(V, p)
        return q is not None and not q[3] and q[1] is src[1]
    for a, b in V.facts(s.e.block):
        for x, v in V.atoms(a, b):
            y = x
            if x.op == 'bin' and x.args[0] == 'Eq' and v == 1:
                z = [o for o in x.args[1:] if o is INT(0)]
                y = [o for o in x.args[1:] if o is not INT(0)]
                if not z or len(y) != 1:
                    continue
                y = y[0]
            elif v != 0 and not (x.op == 'call' and v == 1):
                continue
            if y.op == 'bin' and y.args[0] == 'Rem' and same(y.args[1]) and enough(y.args[2]):
                return True
            if y.op == 'bin' and y.args[0] == 'BitAnd' and A is not None and any(same(y.args[i]) and y.args[3 - i].op == 'int' and (y.args[3 - i].args[0] + 1) % A == 0 for i in (1, 2)):
                return True
            if y.op == 'call' and last(y.args[0]) == 'align_offset' and same(y.args[2]) and y is not x:
                return True
            if y.op == 'call' and last(y.args[0]) == 'is_aligned' and v == 1 and same(y.args[2]):
                return True
    return False


def mapped(V, S):
    """constant number of bytes from the beginning of a memory map, or None"""
    L = Linear(V)
    off = 0
    maps = {e.vals[0] for e in V.live('call') if last(e.name) in ('deref', 'as_ref', 'deref_mut', 'borrow') and e.vals and any('Mmap' in V.F.tstr(a) for a in targs(V.F, e))}
    for _ in range(20):
        if S in maps:
            return off
        if S.op == 'fld' and S.args[1][0] == 'i' and S.args[1][1].op == 'agg':
            r = S.args[1][1]
            nm = str(r.args[0][1])
            if nm.endswith('RangeFull') or nm.endswith('RangeTo') or nm.endswith('RangeToInclusive'):
                pass
            else:
                st = L.lin(r.args[1])
                if any(m != () for m in st):
                    return None
                off += int(st.get((), 0))
            S = S.args[0]
        elif S.op == 'fld' and S.args[0].op == 'call' and last(S.args[0].args[0]) in ('split_at', 'split_at_mut'):
            c = S.args[0]
            if S.args[1][1] in (1, '1'):
                m = L.lin(c.args[3])
                if any(k != () for k in m):
                    return None
                off += int(m.get((), 0))
            S = c.args[2]
        else:
            return None
    return None


def extent(V, s, src):
    """no more values than the slice holds (after what the pointer was moved by)"""
    F = V.F
    S, A, moves = src[1], src[2], src[3]
    N = V.length(S)
    ts, as_ = size(F, s.T), size(F, A)
    same = F.tstr(s.T) == F.tstr(A)
    n = s.n
    L = Linear(V)
    if not moves:
        if n.op == 'call' and last(n.args[0]) == 'size_of_val' and n.args[2] is S and ts == 1:
            return True
        if n is INT(1) and F.tstr(A) in ('u8', 'i8') and S.op == 'elem' and S.args[0].op == 'call' and last(S.args[0].args[0]) in ('chunks_exact', 'array_chunks') and len(S.args[0].args) > 3 and unit(F, S.args[0].args[3], s.T):
            return True
        if same and n is N:
            return True
        if F.tstr(s.T) == 'u8' or ts == 1:
            # written as bytes: length times size
            if n.op == 'poly' or n.op == 'bin' and n.args[0] == 'Mul':
                if set(subterms(n)) >= {N} and any(x.op == 'sizeof' and str(x.args[0]) == F.tstr(A) for x in subterms(n)) and exact(V, n, N, F.tstr(A)):
                    return True
        if F.tstr(A) in ('u8', 'i8') and n.op == 'bin' and n.args[0] == 'Div' and n.args[1] is N and unit(F, n.args[2], s.T):
            return True
        if same or ts and as_:
            lhs = {k: v * (1 if same else ts) for k, v in L.lin(n).items()}
            rhs = {k: v * (1 if same else as_) for k, v in L.lin(N).items()}
            return L.prove(add(rhs, lhs, -1), V.facts(s.e.block)) if hasattr(L, 'prove') else False
        return False
    if len(moves) == 1 and moves[0][0] in ('add', 'offset') and n is INT(1):
        i, M = moves[0][1], moves[0][2]
        if i is not None and M is not None and F.tstr(M) == F.tstr(s.T) and F.tstr(A) in ('u8', 'i8', F.tstr(s.T)):
            for q in [INT(ts)] * bool(ts) + [mk('sizeof', F.tstr(s.T))]:
                D = N if F.tstr(A) == F.tstr(s.T) or q is INT(1) else mk('bin', 'Div', N, q)
                if L.less(i, D, V.facts(s.e.block)):
                    return True
        if i is not None and i.op in ('elem', 'iidx') and M is not None and F.tstr(M) == F.tstr(s.T):
            r = i.args[0]
            if i.op == 'elem' and r.op == 'agg' and str(r.args[0][1]).endswith('Range') and r.args[2].op == 'bin' and r.args[2].args[0] == 'Div' and r.args[2].args[1] is N and unit(F, r.args[2].args[2], s.T) and F.tstr(A) in ('u8', 'i8'):
                return True
    return False


def exact(V, n, N, A):
    """is the term exactly N * sizeof(A)?"""
    L = Linear(V)
    x = L.lin(n)
    y = L.lin(mk('bin', 'Mul', N, mk('sizeof', A)))
    return not add(x, y, -1)


def unit(F, t, T):
    if t.op == 'int':
        return size(F, T) is not None and t.args[0] >= size(F, T) > 0
    return t.op == 'sizeof' and str(t.args[0]) == F.tstr(T)


def judge(V, s):
    """(holds?, why)"""
    F = V.F
    src = source(V, s.p)
    if src is None:
        return False, 'the pointer %s is not taken from a slice' % pp(s.p, 3)[:60]
    if not extent(V, s, src):
        return False, 'nothing shows that the %s %s values lie within the slice they are read from' % (pp(s.n, 4)[:80], F.tstr(s.T) if s.T is not None else '?')
    if not s.need:
        return True, 'read without assuming alignment'
    a, b = align(F, s.T), align(F, src[2])
    if s.T is not None and (F.tstr(s.T) == F.tstr(src[2]) or a is not None and (a == 1 or b is not None and a <= b)):
        return True, 'alignment %s, taken from a slice of %s' % (a or 'of its own type', F.tstr(src[2]))
    if checked(V, s, src):
        return True, 'the address is tested first'
    m = mapped(V, src[1])
    if m is not None and a is not None and m % a == 0 and a <= PAGE:
        return True, '%d bytes into a memory map' % m
    return False, '%s (alignment %s) read from a slice of %s whose address is not known to be aligned' % (F.tstr(s.T) if s.T is not None else '?', a or 'unknown', F.tstr(src[2]))


def plain(F, T, seen=()):
    """every bit pattern is a value (True), or the part that is not"""
    t = F.types[T]
    k = t.get('k')
    s = F.tstr(T)
    if s in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize', 'f32', 'f64'):
        return None
    if k in ('array', 'slice'):
        return plain(F, t['t'], seen)
    if k == 'tuple':
        r = [plain(F, x, seen) for x in t['ts']]
        return next((x for x in r if x), None)
    if k == 'adt':
        a = F.adt_by_path.get(t.get('path'))
        if s.startswith('std::mem::MaybeUninit'):
            return None
        if a is None or len(a['vs']) != 1:
            return s
        for f in a['vs'][0]['fs']:
            x = plain(F, F.subst(f['t'], dict(zip(a.get('generics', []), [y for y in t.get('args', []) if isinstance(y, int)]))) if isinstance(f, dict) else f, seen + (T,))
            if x:
                return x
        return None
    if k == 'param':
        return None
    return s


def packed(F, T):
    """size without padding equals the size; True if unknown"""
    t = F.types[T]
    if t.get('align') == 1 and t.get('k') in ('adt', 'tuple', 'array', 'slice'):
        return True
    if t.get('k') == 'adt':
        a = F.adt_by_path.get(t.get('path'))
        if a is None or len(a['vs']) != 1:
            return False
        fs = [size(F, f['t']) for f in a['vs'][0]['fs']]
        return t.get('size') is not None and (None in fs or sum(fs) == t['size']) and all(packed(F, f['t']) for f in a['vs'][0]['fs'])
    if t.get('k') == 'tuple':
        fs = [size(F, x) for x in t['ts']]
        return None not in fs and sum(fs) == t.get('size') and all(packed(F, x) for x in t['ts'])
    if t.get('k') in ('array', 'slice'):
        return packed(F, t['t'])
    return True


def fixed(F, T):
    """is the order of the fields fixed?"""
    t = F.types[T]
    if t.get('k') in ('array', 'slice'):
        return fixed(F, t['t'])
    if t.get('k') == 'tuple':
        return len(t['ts']) < 2 and all(fixed(F, x) for x in t['ts'])
    if t.get('k') == 'adt':
        a = F.adt_by_path.get(t.get('path'))
        if a is None:
            return str(F.tstr(T)).startswith('std::mem::MaybeUninit')
        fs = [f['t'] for v in a['vs'] for f in v['fs']]
        return (len(fs) < 2 or 'IS_C' in str(a.get('repr')) or 'pack: Some' in str(a.get('repr'))) and all(fixed(F, x) for x in fs)
    return True


def local(p):
    return p[0] if isinstance(p, list) else p


def derefs(F, key, tmap, raised=False):
    """pointers or references cast to one of a more strictly aligned type and dereferenced in the body itself: (from, to, where)"""
    b = F.bodies[key]
    up = {}

    def use(o):
        return o.get('m', o.get('c')) if isinstance(o, dict) else None
    sts = [s for bl in b['blocks'] for s in bl['s'] if s[0] == '=']
    for s in sts:
        if s[2][0] == 'cast' and not isinstance(s[1], list) and ('PtrToPtr' in s[2][1] or s[2][1] == 'Transmute'):
            f, t = F.types[F.subst(s[2][3], tmap)], F.types[F.subst(s[2][4], tmap)]
            if f.get('k') in ('ptr', 'ref') and t.get('k') in ('ptr', 'ref'):
                x, y = align(F, f['t']), align(F, t['t'])
                if F.tstr(f['t']) != F.tstr(t['t']) and not (y is not None and (y == 1 or x is not None and y <= x)):
                    up[s[1]] = (F.tstr(f['t']), F.tstr(t['t']), s[3], s[2][1] == 'Transmute' and t.get('k') == 'ref')
    # pointers known to be as good as what they were made from
    safe = {}
    for s in sts:
        if isinstance(s[1], list):
            continue
        if s[2][0] in ('rawptr', 'ref'):
            safe[s[1]] = True
        elif s[2][0] == 'cast' and s[1] not in up:
            safe[s[1]] = True
    while True:
        n = len(up) + len(safe)
        for s in sts:
            if s[2][0] == 'use' and not isinstance(s[1], list) and isinstance(use(s[2][1]), int):
                for d in (up, safe):
                    if use(s[2][1]) in d:
                        d.setdefault(s[1], d[use(s[2][1])])
        if len(up) + len(safe) == n:
            break
    hit = {}

    def walk(o):
        if isinstance(o, list):
            if len(o) > 1 and isinstance(o[0], int) and o[1] == '*':
                t = F.types[F.subst(b['locals'][o[0]], tmap)]
                if o[0] in up:
                    hit[o[0]] = up[o[0]]
                elif raised and t.get('k') == 'ptr' and o[0] not in safe and align(F, t['t']) != 1:
                    hit[o[0]] = ('a pointer', F.tstr(t['t']), b['span'])
            for x in o:
                walk(x)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x)
    for bl in b['blocks']:
        walk(bl['s'])
        walk(bl['t'])
    return [h[:3] for h in hit.values()] + [v[:3] for l, v in up.items() if l not in hit and v[3]], len(up)


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        M = Mono(F, lib.roots(F))
        ctx.stats['reachable instances'] = ctx.stats.get('reachable instances', 0) + len(M.nodes)
        cl, m = {}, 0
        for node in sorted(M.nodes, key=str):
            for k in [node[0]] + closures(F, node[0]):
                ds, c = derefs(F, k, dict(node[1]), any(derefs(F, x, dict(node[1]))[1] for x in [node[0]] + closures(F, node[0])))
                m += c
                for f, t, sp in ds:
                    ctx.ob('no pointer is dereferenced after a cast to a more strictly aligned type', False, '%s: %s as %s' % (M.show(node), f, t), sp, 'nothing shows that the address is aligned')
        ctx.ob('no pointer is dereferenced after a cast to a more strictly aligned type', True, 'all reachable functions [%s]' % cfg, '', '%d casts to more strictly aligned types, used by the accesses judged below only' % m)
        for k, b in F.bodies.items():
            cl[k] = has_ops(F, k)
        n = 0
        for node in sorted(M.nodes, key=str):
            if not any(cl[k] for k in [node[0]] + closures(F, node[0]) if k in cl):
                continue
            own = set([node[0]] + closures(F, node[0]))
            V = ctx.V(cfg, node[0], tag=('c06', node[1]), tmap=dict(node[1]))
            for s in sites(V):
                if s.e.fr.key not in own:
                    continue
                n += 1
                prove(ctx, cfg, F, M, node, V, s, own)
                if s.T is not None:
                    src = source(V, s.p)
                    what = '%s in %s' % (F.tstr(s.T), M.show(node))
                    x = plain(F, s.T)
                    ctx.ob('bytes are only reinterpreted as types for which every bit pattern is a value', x is None, what, s.e.sp, x or '')
                    for T in [s.T] + ([src[2]] if src is not None else []):
                        ctx.ob('types stored as bytes have a fixed layout', fixed(F, T), '%s in %s' % (F.tstr(T), M.show(node)), s.e.sp, '')
                    if src is not None and F.tstr(s.T) == 'u8':
                        ctx.ob('values written as bytes have no padding', packed(F, src[2]), what, s.e.sp, F.tstr(src[2]))
        ctx.floor('typed accesses through raw pointers [%s]' % cfg, n, 3 if cfg != 'py' else 0)


def has_ops(F, k):
    from mono import fns
    for f in fns(F.bodies[k]):
        p = f['path']
        nm = p.split('::')[-1]
        if nm in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in p or ('ptr' in p and (nm in UNAL or nm in ONE or nm in COPY)):
            return True
    return False


def prove(ctx, cfg, F, M, node, V, s, own):
    rule = 'typed accesses through raw pointers are aligned and in bounds'
    ok, why = judge(V, s)
    where = '%s: %s %s' % (M.show(node), last(s.e.name), F.tstr(s.T) if s.T is not None else '')
    if ok:
        ctx.ob(rule, True, where, s.e.sp, why)
        return
    # what the callers know
    todo, seen, bad = [(node, ())], {node}, []
    while todo:
        x, chain = todo.pop()
        if x in M.roots:
            bad.append((x, chain, why))
            continue
        for c in sorted(M.callers.get(x, ()), key=str):
            if c in seen:
                continue
            seen.add(c)
            W = ctx.V(cfg, c[0], tag=('c06', c[1]), tmap=dict(c[1]))
            rest = []
            for z in sites(W):
                if z.e.fr.key in own and z.e.name == s.e.name and (z.T is None or s.T is None or F.tstr(z.T) == F.tstr(s.T)):
                    o, w = judge(W, z)
                    if not o:
                        rest.append(w)
            if rest:
                todo.append((c, chain + (c,)))
                why = rest[0]
    ctx.ob(rule, not bad, where, s.e.sp, 'justified in every caller (%d instances)' % (len(seen) - 1) if not bad else 'reached from %s without it: %s' % (M.show(bad[0][0]), bad[0][2]))
