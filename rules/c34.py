"""Typestate on vector data: raw -> normalised -> vector. At every place that puts together an angular vector (with everything between the
conversion and that place inlined, except the normalising function itself) the data must be the state left behind by a call of the
normalising function on the whole of the data, or data of a vector or vector collection that exists already; nothing may change the data
between the two. The normalising function is the one that takes mutable scalars only and computes a root; it must divide every component
by the root of the sum of squares of all of them. For quantised vectors, every component converted to 8 bits must have been divided by
the largest absolute value of all components and scaled by no more than 127."""
import lib
from rules.common import lv_types, adt_path, term_type, closure_terms, member_of, loop_skips, loop_breaks
from explore import Explore
from vals import mk, pp, subterms, contains, INT

TECHNIQUE = 'typestate of vector data (raw, normalised, vector) over inlined MIR'
NOTE = 'Decides for every conversion that the data passes through normalisation of all its components; the rounding of the arithmetic is out of scope.'

A1 = mk('arg', 1)


def direct(F):
    """statically resolved calls and closures only"""
    if hasattr(F, '_direct'):
        return F._direct
    out = {}
    for k, b in F.bodies.items():
        s = set(F.closures_of.get(k, []))
        for bl in b['blocks']:
            t = bl['t']
            fn = t['f'].get('k', {}).get('fn') if t['t'] == 'call' else None
            if fn:
                if 'res' in fn and fn['res'].get('local'):
                    s.add(fn['res']['key'])
                elif fn.get('local') and not fn.get('trait'):
                    s.add(fn['key'])
                if fn.get('trait') in ('std::convert::Into', 'std::iter::Iterator'):
                    tr = {'std::convert::Into': 'std::convert::From', 'std::iter::Iterator': 'std::iter::FromIterator'}[fn['trait']]
                    for im in F.impls:
                        if im.get('trait') == tr:
                            s.update(key for n, key in im['items'])
        out[k] = {x for x in s if x in F.bodies}
    F._direct = out
    return out


def reach_to(F, goals):
    d = direct(F)
    back = {}
    for k, s in d.items():
        for x in s:
            back.setdefault(x, set()).add(k)
    seen, work = set(goals), list(goals)
    while work:
        for x in back.get(work.pop(), ()):
            if x not in seen:
                seen.add(x)
                work.append(x)
    return seen


def calls_of(b):
    for bl in b['blocks']:
        t = bl['t']
        fn = t['f'].get('k', {}).get('fn') if t['t'] == 'call' else None
        if fn:
            yield fn


def normalisers(F):
    d = direct(F)
    roots = {k for k, b in F.bodies.items() for fn in calls_of(b) if fn['name'] in ('sqrt', 'snrm2', 'rsqrt')}
    out = []
    for k, b in F.bodies.items():
        if b['kind'] == 'Closure' or b['argc'] != 1 or b.get('parent') in F.bodies:
            continue
        t = F.types[b['ins'][0]] if b['ins'] else {}
        if t.get('k') == 'ref' and t.get('mut') and 'f32' in F.tstr(b['ins'][0]) and F.tstr(b['out']) == '()' and lib.reachable(F, [k]) & roots:
            out.append(k)
    return out


def is_vec(F, t, which):
    return (adt_path(F, F.peel(t)) or '').endswith('elements::%s::Vector' % which) if t is not None else False


def aggs(b, which):
    for bl in b['blocks']:
        for st in bl['s']:
            if st[0] == '=' and st[2][0] == 'agg' and ('elements::%s::Vector' % which) in str(st[2][1]) and 'Vectors' not in str(st[2][1]):
                return True
    return False


def existing(V, t, which):
    """data of a vector, or of a collection of vectors, that exists already"""
    F = V.F
    x = t
    while x.op == 'fld':
        tt = term_type(V, x.args[0])
        if x.args[1] == ('f', 0) and is_vec(F, tt, which):
            return True
        x = x.args[0]
    C = closure_terms(V, t)
    if any(y.op in ('cloret', 'with', 'repeat') or y.op == 'bin' and y.args[0] in ('Div', 'Mul', 'Add', 'Sub') and not all(is_index(V, z) for z in y.args[1:]) for y in C):
        return False
    args = [y for y in C if y.op == 'arg']
    coll = [y for y in args if (adt_path(F, term_type(V, y)) or '').endswith(('elements::%s::Vectors' % which, 'elements::%s::Vector' % which))]
    return bool(coll) and all(y in coll or 'f32' not in F.tstr(V.ir.locals[y.args[0]]) for y in args)


def is_index(V, t):
    return not any(x.op == 'call' and str(x.args[0]).startswith('f32') for x in subterms(t))


def inliner(F, norm, reach):
    names = set()

    def f(key, body, fr):
        if key in norm:
            return False
        if body['kind'] == 'Closure' or key in reach:
            return True
        s = ' '.join(F.tstr(t) for t in [body['out']] + body['ins'])
        return 'f32' in s or 'Vector' in s or 'Cow' in s
    return f


def norm_sites(V, norm):
    """tokens of the states left behind by calls of the normalising functions on whole data"""
    F = V.F
    out = {}
    for e in V.live('call'):
        if e.fn is not None and (e.fn.get('target') in norm or e.fn.get('key') in norm or (e.fn.get('res') or {}).get('key') in norm):
            for r in V.mutrefs(e.args[0]):
                out[e.site] = (e, r)
    return out


def run(ctx):
    for cfg in ('rw', 'py') if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas', 'py'):
        F = ctx.F(cfg)
        norm = set(normalisers(F)) if cfg != 'py' else set()
        if cfg != 'py':
            ctx.floor('normalising functions [%s]' % cfg, len(norm), 1)
            for k in sorted(norm):
                normaliser(ctx, cfg, k)
        for which in ('angular', 'angular_int'):
            goals = {k for k, b in F.bodies.items() if aggs(b, which)}
            if cfg == 'py':
                for k in goals:
                    ctx.ob('vectors are only made by the library', False, F.bodies[k]['path'], F.bodies[k]['span'], 'puts an element vector together from raw components')
                ctx.stat('functions searched for vector construction[py]', len(F.bodies))
                continue
            reach = reach_to(F, goals)
            called = set()
            for k in reach:
                called |= direct(F)[k] - {k}
            roots = [k for k in reach if F.bodies[k]['kind'] != 'Closure' and (F.bodies[k].get('exported') or F.bodies[k].get('impl_trait') or k not in called)]

            def one(c, k):
                V = c.V(cfg, k, inline=inliner(F, norm, reach), tag='n' + which)
                return check(c, V, F.bodies[k], which, norm)
            n = sum(1 for x in ctx.pmap(sorted(roots), one) if x)
            ctx.floor('functions that make %s vectors [%s]' % (which, cfg), n, 3)


def check(ctx, V, b, which, norm):
    F = V.F
    sites = norm_sites(V, norm)
    n = 0
    for e in V.live('agg'):
        h = e.val.args[0] if e.val.op == 'agg' else None
        if not h or h[0] != 'adt' or not str(h[1]).endswith('elements::%s::Vector' % which):
            continue
        n += 1
        if which == 'angular':
            bad = norm_state(V, e.val.args[1], which, sites, set())
            ctx.ob('the data of a new vector has been normalised', bad is None, '%s in %s' % (lib_name(e, b), b['path']), b['span'], 'a vector is made of %s, which is not the result of normalising' % pp(bad) if bad is not None else '')
    if which == 'angular_int':
        for t in {x for e in V.events if e.block not in V.dead for v in ([e.val] if e.kind in ('cast', 'agg', 'write') else list(e.vals) if e.kind == 'call' else []) if v is not None
                  for x in closure_terms(V, v) if x.op == 'cast' and [str(y) for y in x.args[:2]] == ['f32', 'i8']} if n else ():
            bad = quantised(V, t.args[2])
            ctx.ob('a quantised component is scaled by the largest absolute component', bad is None, '%s [%s]' % (b['path'], which), b['span'], bad or '')
    return n


def lib_name(e, b):
    return e.fr.path.split('::')[-1]


def norm_state(V, t, which, sites, seen):
    if t in seen:
        return None
    seen.add(t)
    if t.op == 'phi':
        for x in V.alts(t) - {t}:
            bad = norm_state(V, x, which, sites, seen)
            if bad is not None:
                return bad
        return None
    if t.op == 'mut':
        return None if is_norm_mut(V, t, sites) else t
    if existing(V, t, which):
        return None
    return t


def is_norm_mut(V, t, sites):
    for s, (e, r) in sites.items():
        if t in V_states(V, e):
            return True
    return False


def V_states(V, e):
    """the terms of what the first argument of a call refers to after the call"""
    out = set()
    for r in V.mutrefs(e.args[0]):
        root, path = r.args[1], r.args[2]
        from ir import succs
        for s in succs(V.ir.blocks[e.block].t):
            if s in V.ins:
                out.add(V.value(V.ins[s], (root, path)))
    return {x for x in out if x is not None and x.op == 'mut'}


def quantised(V, t):
    C = subterms(t)
    div = [x for x in C if x.op == 'bin' and x.args[0] == 'Div' or x.op == 'call' and str(x.args[0]) == 'Div::div']
    if not div:
        return 'a component is converted to 8 bits without having been scaled'
    for x in C:
        if x.op == 'int' and 1123942400 < x.args[0] < 0x7f800000:
            return 'a component is scaled by more than 127'
    elems = [x for x in C if x.op == 'elem' or x.op == 'fld' and x.args[1][0] == 'i']
    for d in div:
        D = closure_terms(V, d.args[2] if d.op == 'bin' else d.args[3])
        if not any(x.op == 'call' and str(x.args[0]).split('::')[-1] in ('max', 'fold', 'max_by', 'reduce') or x.op == 'max' or x.op == 'phi' for x in D):
            continue
        if not any(x.op == 'call' and str(x.args[0]).endswith('::abs') for x in D):
            continue
        if any(contains(y, e.args[0]) for e in elems for y in D):
            return None
    return 'a component is not divided by the largest absolute value of all components: %s' % pp(t)


def normaliser(ctx, cfg, k):
    F = ctx.F(cfg)
    b = F.bodies[k]

    def inl(key, body, fr):
        return body['kind'] == 'Closure' or F.tstr(body['out']) == '()' or body.get('parent') == k and 'dot' not in body['name']
    V = ctx.V(cfg, k, inline=inl, tag='nn')

    def root(t):
        return t.op == 'call' and str(t.args[0]).split('::')[-1] in ('sqrt', 'snrm2') and contains(t, A1) and not any(
            x.op == 'call' and str(x.args[0]).split('::')[-1] in ('skip', 'take', 'step_by', 'filter', 'split_at', 'split_first', 'split_last', 'truncate') or part(x) for x in closure_terms(V, t))

    def part(x):
        """a piece of the data instead of all of it"""
        if x.op == 'call' and str(x.args[0]).split('::')[-1] == 'snrm2':
            return any(y.op == 'bin' for a in x.args[2:] if hasattr(a, 'op') for y in subterms(a))
        if x.op != 'fld' or x.args[1][0] != 'i' or x.args[0] is not A1:
            return False
        i = x.args[1][1]
        return i.op == 'agg' and 'Range' in str(i.args[0]) and not str(i.args[0][1]).endswith('RangeFull')
    roots = {x for e in V.live('call') if e.ret is not None for x in [e.ret] if root(x)}
    ws = [e for e in V.live('write') if e.lv[0] is A1 or e.lv[0].op in ('elem',)]
    bad, good = None, []
    for e in ws:
        p = e.lv[1]
        tgt = V.proj(A1, p[0]) if e.lv[0] is A1 and len(p) == 1 else e.lv[0] if not p else None
        d = e.val
        if d.op == 'bin' and d.args[0] == 'Div' and d.args[2] in roots:
            good.append(e)
        elif d.op == 'bin' and d.args[0] == 'Mul' and any(y.op == 'bin' and y.args[0] == 'Div' and y.args[2] in roots and y.args[1] is INT(1065353216) for y in d.args[1:]):
            good.append(e)
        else:
            bad = bad or 'a component becomes %s' % pp(d)
            continue
        i = p[0][1] if e.lv[0] is A1 and p and p[0][0] == 'i' else None
        how = None
        if i is not None:
            from vals import mk as _mk
            how = member_of(V, _mk('fld', A1, ('i', i)), A1)
        elif e.lv[0].op == 'elem':
            how = member_of(V, mk('fld', A1, ('i', e.lv[0])), A1) or member_of(V, e.lv[0], A1)
        if how is None:
            bad = bad or 'not every component is written (index %s)' % pp(i if i is not None else e.lv[0])
        elif loop_skips(V, how, {e.block}) or loop_breaks(V, how) is not None:
            bad = bad or 'a component can be skipped'
    sc = [e for e in V.live('call') if e.name.split('::')[-1] == 'sscal']
    for e in sc:
        f = e.vals[1]
        if f.op == 'bin' and f.args[0] == 'Div' and f.args[2] in roots and f.args[1] is INT(1065353216) and contains(e.vals[0], V.length(A1)):
            good.append(e)
        else:
            bad = bad or 'scales by %s' % pp(f)
    # with a positive root the function cannot return without scaling
    for r in roots:
        X = Explore(V, [V.ir.entry], assume=[(mk('bin', 'FLt', INT(0), r), 1), (mk('bin', 'FLe', INT(0), r), 1), (mk('bin', 'FLe', r, INT(0)), 0), (mk('bin', 'FLt', r, INT(0)), 0), (mk('bin', 'Eq', INT(0), r), 0), (mk('bin', 'Lt', INT(0), V.length(A1)), 1)], from_entry=True, stop=lambda e, x: e in good or e.kind == 'call' and e.site is not None and any(loop_of(V, g) == e.site for g in good))
        if X.returns():
            bad = bad or 'the data can be left as it is although its norm is positive'
    ctx.ob('normalising divides every component by the norm', bool(good) and bad is None, b['path'], b['span'], bad or ('no component is divided by the norm' if not good else ''))


def loop_of(V, e):
    if e.kind != 'write':
        return None
    p = e.lv[1]
    if e.lv[0] is A1 and p and p[0][0] == 'i' and p[0][1].op == 'elem':
        return p[0][1].args[1]
    return e.lv[0].args[1] if e.lv[0].op == 'elem' else None
