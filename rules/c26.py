"""Check-dominates-use over inlined functions. Two obligations for every public function that handles a fixed-dimension collection:
every call that can change the number of stored scalars (anything handed mutable access to the collection's data, except calls known
to keep the length) must be unreachable when the length (or width) of what is added is assumed to differ from the width of the
collection at that point; and every collection put together from raw data (a slice, a vector, bytes, a mapped file) must be
unreachable to return normally when the data is assumed not to be divisible by the width, or the width is assumed to be zero."""
import lib
from explore import Explore
from rules.common import closure_terms, cond_atoms, lv_types, adt_path
from vals import mk, pp, subterms, binop, INT, contains

TECHNIQUE = 'check-dominates-use by conditional reachability over inlined MIR'
NOTE = 'Decides for every input, on all paths, that stored data always is a multiple of the dimension and that added vectors have the dimension of the collection (release semantics: debug assertions count as absent).'

KEEP = {'Cow::to_mut', 'Vec::reserve', 'Vec::reserve_exact', 'DerefMut::deref_mut', 'IndexMut::index_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'Vec::shrink_to_fit', 'Vec::clear',
        'Deref::deref', 'Vec::as_mut_ptr', 'BorrowMut::borrow_mut'}
KEEP_T = ('slice::', 'ParallelSliceMut::', 'Iterator::', 'IntoIterator::', 'IndexedParallelIterator::', 'mem::drop')


def fw_adt(F):
    for p, a in F.adt_by_path.items():
        if p.endswith('::FixedWidthSliceVector'):
            return p, a
    return None, None


def variant(F, a):
    """(variant, data field, width field) of the in-memory representation"""
    for vi, v in enumerate(a['vs']):
        w = [i for i, f in enumerate(v['fs']) if F.tstr(f['t']) == 'usize']
        d = [i for i, f in enumerate(v['fs']) if i not in w]
        if len(w) == 1 and len(d) == 1:
            return vi, d[0], w[0]
    return None


def scalar_container(F, t, fw):
    if F.contains_adt(t, lambda p: p.endswith(('::Granne', '::GranneBuilder', '::RwGranneBuilder'))):
        return False
    return F.contains_adt(t, lambda p: p == fw)


def data_mutations(V, fw, vdw):
    """calls given mutable access to the data of a fixed-width vector: (event, (root, prefix path of the vector), index of the argument)"""
    out = []
    for e in V.live('call'):
        for i, a in enumerate(e.args):
            for r in V.mutrefs(a):
                for n, t in lv_types(V, r.args[1], r.args[2]):
                    p = r.args[2][n:]
                    if adt_path(V.F, t) == fw and len(p) >= 2 and p[0] == ('d', vdw[0]) and p[1] == ('f', vdw[1]):
                        out.append((e, (r.args[1], r.args[2][:n]), i))
    return out


def width_writes(V, fw, vdw):
    out = []
    for e in V.live('write'):
        root, path = e.lv
        for n, t in lv_types(V, root, path):
            p = path[n:]
            if adt_path(V.F, t) == fw and p == (('d', vdw[0]), ('f', vdw[2])):
                out.append((e, (root, path[:n])))
    return out


def leaves(V, t, get=None, seen=None):
    """the values a (part of a) joined value can have"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    path, r = [], t
    while r.op == 'fld':
        path.append(r.args[1])
        r = r.args[0]
    if r.op != 'phi':
        return {t}
    out = set()
    for x in (get or (lambda p: set(V.phi_in.get(p, {}).values())))(r):
        for e in reversed(path):
            x = V.proj(x, e)
        out |= leaves(V, x, get, seen)
    return out or {t}


def at(X, t):
    return leaves(X.V, t, lambda p: X.alts(p) - {p})


def lens_of(x):
    """the things whose length a term is (a sum or product disqualifies it)"""
    return [x.args[0]] if x.op == 'len' else []


def check(ctx, cfg, k, fw, vdw):
    F = ctx.F(cfg)
    b = F.bodies[k]
    V = ctx.V(cfg, k)
    atoms = [c for c in cond_atoms(V) if c.args[0] == 'Eq']
    n = [0, 0]
    for e, lv, ai in data_mutations(V, fw, vdw):
        if e.name in KEEP or e.name.startswith(KEEP_T):
            continue
        n[0] += 1
        src = [x for j, x in enumerate(e.vals) if j != ai]
        C = set()
        for s in src:
            C |= closure_terms(V, s)
        good = None
        # the width of the collection where the call is made
        now = V.value(V.ins.get(e.block, {}), (lv[0], lv[1] + (('d', vdw[0]), ('f', vdw[2]))))
        olds = leaves(V, now)
        for c in atoms:
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if x.op == 'int' or y.op == 'int' or y is not now and not olds <= leaves(V, y) | leaves(V, x):
                    continue
                # x: the length of the added slice, or the width of the vector the added data belongs to
                if not (any(z in C for z in lens_of(x)) or same_vector(V, x, src, fw, vdw)):
                    continue
                if y is now:
                    X = Explore(V, [V.ir.entry], assume=[(c, 0)], from_entry=True)
                    if not any(ev is e for ev in X.events()):
                        good = c
                else:
                    # the width was y and may have been set to x: a different non-zero y must be rejected, a zero y replaced by x
                    z = binop('Eq', INT(0), y, 'usize')
                    X = Explore(V, [V.ir.entry], assume=[(c, 0), (z, 0)], from_entry=True)
                    if any(ev is e for ev in X.events()):
                        continue
                    X = Explore(V, [V.ir.entry], assume=[(z, 1)], from_entry=True)
                    if not any(ev is e for ev in X.events()) or at(X, now) <= leaves(V, x):
                        good = c
        ctx.ob('added data has the dimension of the collection', good is not None, '%s: %s' % (b['path'], e.name), e.sp,
               'unreachable when %s is false' % pp(good) if good is not None else 'no check that what %s adds has the width of the collection makes this call unreachable otherwise (in %s)' % (e.name, e.fr.path))
    for e in V.live('agg'):
        if e.val.args[0][0] != 'adt' or e.val.args[0][1] != fw:
            continue
        if e.val.args[0][2] == vdw[0]:
            D, W = e.vals[vdw[1]], e.vals[vdw[2]]
            if empty(V, D) or kept(V, D, W, fw, vdw):
                continue
            raw = [D]
        else:
            # a mapped file: the data and width are read from it
            D, W = None, None
            raw = [e.vals[0]]
        n[1] += 1
        bad = []
        for what, cand in (('the data is not a multiple of the width', rems(V, atoms, raw, W)), ('the width is zero', zeros(V, raw, W))):
            ok = False
            for ass in cand:
                X = Explore(V, [V.ir.entry], assume=[ass], from_entry=True)
                if all(failing(X, ev, alts) for ev, alts in X.returns()):
                    ok = True
            if not ok:
                bad.append(what)
        ctx.ob('collections are made from whole vectors only', not bad, '%s: %s' % (b['path'], 'from %s' % ('a mapped file' if D is None else 'data')), e.sp,
               'a collection made in %s is returned even when %s' % (e.fr.path, ' and when '.join(bad)) if bad else '')
    return n


def failing(X, ev, alts):
    for a in alts:
        a = X.subst(a)
        if a.op == 'agg' and a.args[0][:3] == ('adt', 'Result', 1):
            continue
        vs = X.values_of(X.V.discr(a)) if is_result(X.V) else None
        if vs == {1}:
            continue
        return False
    return True


def is_result(V):
    r = V.F.types[V.F.peel(V.ir.locals[0])]
    return r.get('k') == 'adt' and r['path'].endswith('::Result')


def unwrap(D):
    while D.op == 'agg' and D.args[0][0] == 'adt' and D.args[0][1].endswith('::Cow'):
        D = D.args[1]
    return D


def empty(V, D):
    D = unwrap(D)
    return D.op == 'empty' or V.length(D) is INT(0) or (D.op == 'call' and str(D.args[0]) in ('Vec::new', 'Vec::with_capacity'))


def kept(V, D, W, fw, vdw):
    """data and width of one and the same existing vector (or of one and the same mapped file that was checked when it was opened)"""
    d, w = closure_terms(V, D), closure_terms(V, W)

    def vecs(C, f):
        return {s.args[0].args[0] for s in C if s.op == 'fld' and s.args[1] == ('f', f) and s.args[0].op == 'fld' and s.args[0].args[1] == ('d', vdw[0])}

    def maps(C):
        return {s.args[0].args[0] for s in C if s.op == 'fld' and s.args[1] == ('f', 0) and s.args[0].op == 'fld' and s.args[0].args[1] == ('d', 1 - vdw[0])}
    a, c = vecs(d, vdw[1]) | maps(d), vecs(w, vdw[2]) | maps(w)
    if not a or not c:
        return False
    # the width must be exactly a width, not computed from one
    if any(s.op in ('poly', 'bin') for s in subterms(W)):
        return False
    return a == c


def same_vector(V, x, src, fw, vdw):
    if any(s.op in ('poly', 'bin') for s in subterms(x)):
        return False
    return any(kept(V, s, x, fw, vdw) for s in src)


def rems(V, atoms, raw, W):
    out = []
    C = set()
    for r in raw:
        C |= closure_terms(V, r)
    for c in atoms:
        for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if x is INT(0) and y.op == 'bin' and y.args[0] == 'Rem' and y.args[1].op == 'len':
                z, w = y.args[1].args[0], y.args[2]
                if W is not None and (w is not W or z is not unwrap(raw[0]) and z not in C):
                    continue
                if W is None and not (closure_terms(V, z) & set(raw) and closure_terms(V, w) & set(raw)):
                    continue
                out.append((c, 0))
    return out


def zeros(V, raw, W):
    out = []
    for c in cond_atoms(V):
        if c.args[0] == 'Lt' and c.args[1] is INT(0):
            w, ass = c.args[2], (c, 0)
        elif c.args[0] == 'Eq' and INT(0) in c.args:
            w, ass = (c.args[2] if c.args[1] is INT(0) else c.args[1]), (c, 1)
        elif c.args[0] == 'Le' and c.args[1] is INT(1):
            w, ass = c.args[2], (c, 0)
        elif c.args[0] == 'Lt' and c.args[2] is INT(1):
            w, ass = c.args[1], (c, 1)
        else:
            continue
        if W is not None and w is not W:
            continue
        if W is None and not (closure_terms(V, w) & set(raw)):
            continue
        out.append(ass)
    return out


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        F = ctx.F(cfg)
        fw, a = fw_adt(F)
        vdw = variant(F, a) if a else None
        ctx.floor('fixed-width vector type [%s]' % cfg, int(vdw is not None), 1)
        if vdw is None:
            return
        tot = [0, 0]
        ks = []
        for k in lib.roots(F):
            b = F.bodies[k]
            if 'test_helper' in b['path']:
                continue
            if any(scalar_container(F, t, fw) for t in list(b['ins']) + [b['out']]):
                ks.append(k)
        for n in ctx.pmap(ks, lambda c, k: check(c, cfg, k, fw, vdw)):
            tot = [tot[0] + n[0], tot[1] + n[1]]
        ctx.stats['public functions on fixed-dimension collections [%s]' % cfg] = len(ks)
        ctx.floor('calls that extend a fixed-dimension collection [%s]' % cfg, tot[0], 9)
        ctx.floor('collections made from raw data [%s]' % cfg, tot[1], 9)
