"""Argument-flow rules for options. (1) Each setter of the build configuration returns its input with exactly the field it is named after
replaced by the argument (wrapped in Some where the field is optional) and every other field unchanged: decided on the value of the returned
struct, field by field. (2) Swapped-argument rule over every call between functions of the crates, every struct built and every write to an
option field: a value that originates from a parameter, variable or option field with one meaning must not be passed to a parameter or field
with a different one. Names with a fixed meaning are the build and search options; beyond those, an argument must not carry the name of a
different parameter of the callee. (3) In the inlined search functions the result heap is bounded by exactly max_search and the result list by
exactly num_neighbors; while building, the heap is bounded by and the layers are as wide as what derives from the options of those names.
(4) The Python functions hand max_search, num_elements and every build option on unchanged, and the second pass over the elements runs exactly
when reinsertion was asked for.
(5) A function that makes a builder stores every option it is given unchanged; a Python argument is used on every path through the function."""
import lib, build, mir
from explore import Explore
from rules.common import term_type, adt_path, closure_terms, strip, lv_types
from rules.searching import path_without
from vals import mk, pp, subterms, contains, INT

TECHNIQUE = 'argument-origin dataflow (swapped-argument rule, field-wise setter equality, sink rules for search bounds)'
NOTE = 'Decides where each option value flows, for every value; how good a search with these options is is not a static question.'

CLS = {'max_search': {'search'}, 'num_neighbors': {'neigh'}, 'max_neighbors': {'neigh'}, 'num_elements': {'neigh', 'elems'}, 'max_elements': {'elems'},
       'expected_num_elements': {'elems'}, 'layer_multiplier': {'mult'}, 'reinsert_elements': {'reins'}, 'show_progress': {'prog'}, 'num_threads': {'thr'},
       'max_num_elements': {'elems'}, 'total_num_elements': {'elems'}}


def canon(n):
    n = (n or '').lstrip('_')
    for s in ('_path', '_file'):
        if n.endswith(s) and n != s[1:]:
            n = n[:-len(s)]
    return n


def config_adt(F):
    for p, a in F.adt_by_path.items():
        if p.endswith('::BuildConfig') or p == 'BuildConfig':
            return p, a
    return None, None


class Names(object):
    """names of the places a value was copied from"""

    def __init__(self, ctx, cfg):
        self.F = ctx.F(cfg)
        self.cfgp, self.cfga = config_adt(self.F)

    def term(self, V, b, t, depth=0):
        """(names, exact): the parameter or option field a term is, or that it is simply derived from"""
        F = self.F
        if t.op == 'arg':
            i = t.args[0] - 1
            an = b.get('argnames') or []
            return ({canon(an[i])}, True) if i < len(an) and an[i] else (set(), True)
        if t.op == 'fld':
            base = t.args[0]
            p = adt_path(F, term_type(V, base))
            if t.args[1][0] == 'f' and p and p == self.cfgp:
                return {self.cfga['vs'][0]['fs'][t.args[1][1]]['n']}, True
            if base.op == 'arg' or base.op == 'fld':
                if t.args[1][0] == 'd' or (base.op == 'fld' and base.args[1][0] == 'd'):
                    return self.term(V, b, base, depth + 1)
                if p and p in F.adt_by_path and t.args[1][0] == 'f' and len(F.adt_by_path[p]['vs']) == 1:
                    fs = F.adt_by_path[p]['vs'][0]['fs']
                    n = fs[t.args[1][1]]['n'] if t.args[1][1] < len(fs) else ''
                    return ({canon(n)}, True) if canon(n) in CLS else (set(), True)
            if base.op == 'call' or base.op == 'fld':
                return self.term(V, b, base, depth + 1)
            return set(), True
        if t.op == 'call' and str(t.args[0]) in ('File::open', 'File::create', 'Path::new', 'Option::expect', 'Option::unwrap', 'Result::unwrap', 'Result::expect') and len(t.args) > 2:
            return self.term(V, b, t.args[2], depth + 1)
        if t.op == 'agg' and t.args[0][0] == 'adt' and t.args[0][-1] in ('Some', 'Ok') and len(t.args) == 2:
            return self.term(V, b, t.args[1], depth + 1)
        if t.op in ('poly', 'bin', 'max', 'min') or t.op == 'payload':
            out = set()
            n = 0
            for s in subterms(t):
                if s is not t and (s.op in ('arg',) or s.op == 'fld'):
                    nm, ex = self.term(V, b, s, depth + 1)
                    out |= {x for x in nm if x in CLS}
                if s.op in ('call', 'phi', 'len'):
                    n += 1
            return (out, False) if n == 0 else (set(), False)
        return set(), False

    def chase(self, b, op):
        """names of the variables a MIR operand was copied from"""
        names = set()
        if not hasattr(self, '_d'):
            self._d = {}
        if b['key'] not in self._d:
            defs = {}
            for bl in b['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and (isinstance(s[1], int) or len(s[1]) == 1):
                        l = s[1] if isinstance(s[1], int) else s[1][0]
                        defs.setdefault(l, []).append(s[2])
                if bl['t']['t'] == 'call':
                    d = bl['t']['d']
                    defs.setdefault(d if isinstance(d, int) else d[0], []).append(None)
            dbg = {}
            for n, p, _ in b.get('dbg', []):
                dbg[self.norm(p)] = n
            self._d[b['key']] = (defs, dbg)
        defs, dbg = self._d[b['key']]
        seen = set()
        while True:
            p = op.get('c', op.get('m')) if isinstance(op, dict) else op
            if p is None:
                return names
            q = self.norm(p)
            if q in seen:
                return names
            seen.add(q)
            if q in dbg:
                names.add(canon(dbg[q]))
            if len(q) > 1:
                return names
            d = defs.get(q[0], [])
            if len(d) != 1 or d[0] is None:
                return names
            r = d[0]
            if r[0] == 'use':
                op = r[1]
            elif r[0] == 'ref':
                op = r[2]
            elif r[0] == 'cast':
                op = r[2]
            else:
                return names

    @staticmethod
    def norm(p):
        if isinstance(p, int):
            return (p,)
        return (p[0],) + tuple(('f', e['f']) if isinstance(e, dict) and 'f' in e else ('x', str(e)) for e in p[1:] if e != '*')


def clash(A, B, callee, at=None):
    """is a value called A passed to something called B (while what it is named after gets something else)?"""
    A, B = canon(A), canon(B)
    if not A or not B or A == B:
        return False
    if A in CLS and B in CLS:
        return not (CLS[A] & CLS[B])
    return A in callee and A not in CLS and not (at and A in at.get(A, ()))


def callee_params(ctx, F, G, fn):
    """parameter names of a call target, in this crate or (by path) in the library"""
    t = fn.get('target') or (fn.get('res') or {}).get('key') or fn.get('key')
    for FF in (F, G):
        b = FF.bodies.get(t) if FF else None
        if b is None and FF is not None:
            if not hasattr(FF, '_bykey'):
                FF._bykey = {}
                for k, x in FF.bodies.items():
                    FF._bykey.setdefault(strip(x).split('::', 1)[-1], x)
            if FF is G and fn.get('crate') == 'granne' or (fn.get('path') or '').startswith('granne::') and FF is G:
                b = FF.bodies.get(fn.get('key')) or FF._bykey.get(strip(fn).split('::', 1)[-1]) or FF._bykey.get(strip(fn))
        if b is None and FF is not None and fn.get('trait'):
            tr = fn['trait'].split('::')[-1]
            for im in FF.impls:
                if (im.get('trait') or '').split('::')[-1] == tr:
                    for n, k in im['items']:
                        if n == fn['name'] and k in FF.bodies:
                            b = FF.bodies[k]
        if b is not None and b['kind'] != 'Closure':
            return b['argnames'], b
    return None, None


def setters(ctx, cfg):
    F = ctx.F(cfg)
    cp, ca = config_adt(F)
    ctx.floor('build configuration type [%s]' % cfg, int(cp is not None), 1)
    if cp is None:
        return
    fs = ca['vs'][0]['fs']
    names = [f['n'] for f in fs]
    done = set()
    for k in lib.roots(F):
        b = F.bodies[k]
        if b.get('self_ty') is None or F.types[F.peel(b['self_ty'])].get('path') != cp or len(b['ins']) != 2 or b['kind'] == 'Closure' or b.get('impl_trait'):
            continue
        m = b['name']
        V = ctx.V(cfg, k)
        A1, A2 = mk('arg', 1), mk('arg', 2)
        if m not in names:
            continue
        rets = [e for e in V.live('return')]
        for e in rets:
            src = e.val
            if F.types[F.peel(b['out'])].get('path') != cp:
                src = None
            for i, f in enumerate(fs):
                v = V.proj(src, ('f', i)) if src is not None else V.value(V.ins[e.block], (A1, (('f', i),)))
                old = mk('fld', A1, ('f', i))
                if f['n'] == m:
                    ok = v is A2 or (v.op == 'agg' and v.args[0][-1] == 'Some' and len(v.args) == 2 and v.args[1] is A2) or (v.op == 'call' and str(v.args[0]) == 'Into::into' and v.args[2] is A2)
                    ctx.ob('a setter sets the field it is named after', ok, '%s sets %s' % (b['path'], m), b['span'], '' if ok else 'BuildConfig::%s leaves field %s = %s' % (m, f['n'], pp(v)))
                    done.add(m)
                else:
                    ctx.ob('a setter leaves every other field alone', v is old, '%s keeps %s' % (b['path'], f['n']), b['span'], '' if v is old else 'BuildConfig::%s changes field %s to %s' % (m, f['n'], pp(v)))
    ctx.floor('option setters [%s]' % cfg, len(done), 6)


def kept(ctx, F, G, V, b):
    """a configuration an option was set in is used afterwards"""
    cp, ca = config_adt(G)
    fields = {f['n'] for f in ca['vs'][0]['fs']} if ca else set()
    sets = [e for e in V.live('call') if e.fn['name'] in fields and 'BuildConfig' in e.fn['path'] and len(e.vals) == 2 and e.ret is not None]
    if not sets:
        return
    used = set()
    for o in V.events:
        if o.block in V.dead or o.kind in ('drop', 'mark', 'param'):
            continue
        for x in list(getattr(o, 'vals', None) or ()) + ([o.val] if o.kind in ('return', 'write') else []):
            if x is not None:
                used |= {(s, id(o)) for s in closure_terms(V, x) if s.op != 'int'}
    for e in sets:
        ok = any(s is e.ret and o != id(e) for s, o in used)
        ctx.ob('an option that was set is used', ok, '%s: %s' % (b['path'], e.fn['name']), e.sp, 'the configuration it was set in is used' if ok else 'the configuration the option was set in is dropped')


def flows(ctx, cfg):
    F = ctx.F(cfg)
    G = ctx.F('rw') if cfg == 'py' else None
    N = Names(ctx, cfg)
    n = checked = 0
    for k, b in F.bodies.items():
        if b['kind'] == 'Closure':
            continue
        V = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure', tag='c')
        an = {canon(x) for x in b.get('argnames') or []}
        kept(ctx, F, G or F, V, b)
        for e in V.live('call'):
            ps, cb = callee_params(ctx, F, G, e.fn)
            if ps is None:
                if e.name.split('::')[-1] in CLS and len(e.vals) == 2:
                    ps = ['self', e.name.split('::')[-1]]
                else:
                    continue
            n += 1
            cp = {canon(p) for p in ps}
            # setters are named after the option, not their parameter
            if len(ps) == 2 and ps[0] == 'self' and e.name.split('::')[-1] in CLS:
                ps = ['self', e.name.split('::')[-1]]
                cp = set(ps)
            at = {canon(p): N.term(V, b, v)[0] for p, v in zip(ps, e.vals)}
            for i, p in enumerate(ps):
                if i >= len(e.vals) or not p or p == 'self':
                    continue
                nm, exact = N.term(V, b, e.vals[i])
                if not nm:
                    continue
                checked += 1
                bad = [a for a in nm if clash(a, p, cp, at)] if exact else ([a for a in nm if clash(a, p, ())] if all(clash(a, p, ()) for a in nm) else [])
                if bad:
                    ctx.ob('arguments reach the parameter they are named after', False, '%s: %s -> %s of %s' % (b['path'], bad[0], p, e.name), e.sp, '%s passes %s as parameter %s of %s' % (b['path'], bad[0], p, e.name))
                elif not exact and cfg == 'py' and canon(p) in CLS:
                    ctx.ob('arguments reach the parameter they are named after', False, '%s: changed %s of %s' % (b['path'], p, e.name), e.sp, '%s passes %s as parameter %s of %s instead of the unchanged argument' % (b['path'], pp(e.vals[i]), p, e.name))
            if cfg == 'py' and e.name.split('::')[-1] == 'search' and 'max_search' in an:
                for i, p in enumerate(ps):
                    if canon(p) in CLS and i < len(e.vals):
                        nm, exact = N.term(V, b, e.vals[i])
                        ok = bool(nm) and exact
                        ctx.ob('search parameters are passed on unchanged', ok, '%s: %s of %s' % (b['path'], p, e.name), e.sp, '' if ok else 'passes %s' % pp(e.vals[i]))
        for e in V.live('agg'):
            h = e.val.args[0]
            if h[0] != 'adt' or h[1] not in F.adt_by_path:
                continue
            a = F.adt_by_path[h[1]]
            fs = a['vs'][h[2]]['fs'] if h[2] < len(a['vs']) else []
            cp = {canon(f['n']) for f in fs}
            for f, v in zip(fs, e.vals):
                nm, exact = N.term(V, b, v)
                for A in nm:
                    checked += 1
                    if clash(A, f['n'], cp if exact else ()):
                        ctx.ob('arguments reach the field they are named after', False, '%s: %s -> %s.%s' % (b['path'], A, h[1], f['n']), e.sp, '%s stores %s in field %s of %s' % (b['path'], A, f['n'], h[1]))
        for e in V.live('write'):
            root, path = e.lv
            if not path or path[-1][0] != 'f':
                continue
            ts = lv_types(V, root, path)
            if adt_path(F, ts[-2][1]) != N.cfgp or N.cfgp is None:
                continue
            fn = N.cfga['vs'][0]['fs'][path[-1][1]]['n']
            nm, exact = N.term(V, b, e.val)
            if nm:
                checked += 1
                ok = not all(clash(A, fn, ()) for A in nm)
                if not ok:
                    ctx.ob('arguments reach the field they are named after', False, '%s: %s -> config.%s' % (b['path'], sorted(nm)[0], fn), e.sp, '%s sets the option %s from %s' % (b['path'], fn, sorted(nm)[0]))
    # variables by name (macro-generated wrappers included)
    for k, b in F.bodies.items():
        for bl in b['blocks']:
            t = bl['t']
            if t['t'] != 'call' or 'k' not in t['f'] or 'fn' not in t['f']['k']:
                continue
            fn = t['f']['k']['fn']
            ps, cb = callee_params(ctx, F, G, fn)
            if ps is None:
                continue
            cp = {canon(p) for p in ps}
            if len(ps) == 2 and ps[0] == 'self' and fn['name'] in CLS:
                continue
            at = {canon(p): N.chase(b, a) for p, a in zip(ps, t['a'])}
            for p, a in zip(ps, t['a']):
                if not p or p == 'self':
                    continue
                nm = N.chase(b, a)
                if nm:
                    checked += 1
                if nm and canon(p) not in nm and any(clash(x, p, cp, at) for x in nm):
                    A = [x for x in nm if clash(x, p, cp, at)][0]
                    ctx.ob('arguments reach the parameter they are named after', False, '%s: variable %s -> %s of %s' % (b['path'], A, p, fn['name']), t['sp'], '%s passes variable %s as parameter %s of %s' % (b['path'], A, p, fn['path']))
    ctx.ob('arguments reach what they are named after', True, 'all calls [%s]' % cfg, '', '%d calls, %d named arguments and fields compared' % (n, checked))
    ctx.floor('calls with named parameters [%s]' % cfg, n, 60)
    ctx.floor('named arguments compared [%s]' % cfg, checked, 50)


def heap_adt(F):
    for p, a in F.adt_by_path.items():
        if len(a['vs']) == 1:
            fs = a['vs'][0]['fs']
            u = [i for i, f in enumerate(fs) if F.tstr(f['t']) == 'usize']
            h = [i for i, f in enumerate(fs) if F.types[f['t']].get('path', '').endswith('::BinaryHeap')]
            if len(fs) == 2 and len(u) == 1 and len(h) == 1:
                return p, u[0]
    return None, None


def sinks(ctx, cfg):
    F = ctx.F(cfg)
    N = Names(ctx, cfg)
    hp, hu = heap_adt(F)
    ctx.floor('bounded result heap type [%s]' % cfg, int(hp is not None), 1)
    if hp is None:
        return
    nsearch = 0
    for k in lib.roots(F):
        b = F.bodies[k]
        an = b.get('argnames') or []
        if b['name'] == 'search' and 'max_search' in an and 'num_neighbors' in an:
            V = ctx.V(cfg, k)
            ms, nn = mk('arg', an.index('max_search') + 1), mk('arg', an.index('num_neighbors') + 1)
            bounds = [e for e in V.live('agg') if e.val.args[0][:2] == ('adt', hp)]
            vals = {e.vals[hu] for e in bounds}
            ok = ms in vals and all(v is ms or v.op == 'int' for v in vals)
            ctx.ob('the search keeps max_search candidates', ok, b['path'] + ': max_search', bounds[0].sp if bounds else b['span'], 'result heaps are bounded by %s' % ', '.join(sorted(pp(v) for v in vals)))
            used = set()
            for e in V.live('call'):
                if e.name.split('::')[-1] in ('take', 'truncate', 'split_off', 'drain'):
                    for x in e.vals[1:]:
                        used.add(x)
            occ = False
            terms = list(V.cond.values())
            for e in V.events:
                if e.block not in V.dead:
                    terms += [x for x in (getattr(e, 'vals', None) or ()) if x is not None]
                    if e.kind in ('return', 'write'):
                        terms.append(e.val)
            seen = set()
            for x in terms:
                for s in subterms(x):
                    if s in seen:
                        continue
                    seen.add(s)
                    if s.op == 'call' and str(s.args[0]).split('::')[-1] in ('take', 'truncate'):
                        used.add(s.args[-1])
                    occ = occ or s is nn
            off = {x for x in used if x is ms or (x is not nn and contains(x, nn))}
            ok = (nn in used or occ) and not off
            ctx.ob('a search returns at most num_neighbors results', ok, b['path'] + ': num_neighbors', b['span'], 'result lists are cut at %s' % ', '.join(sorted(pp(v) for v in used)))
            nsearch += 1
        if b['name'] in ('build_partial', 'insert_batch') or (b['name'] == 'new' and 'num_threads' in an):
            V = ctx.V(cfg, k)
            c = 0
            for e in V.live('agg'):
                if e.val.args[0][:2] == ('adt', hp):
                    for v in alts(V, e.vals[hu]):
                        c += 1
                        nm = optnames(N, V, b, v)
                        if nm is not None and (nm and 'max_search' not in nm):
                            ctx.ob('building keeps max_search candidates', False, b['path'] + ': heap bound', e.sp, 'the candidate heap is bounded by %s (option %s)' % (pp(v), sorted(nm)))
            ctx.ob('building keeps max_search candidates', True, b['path'] + ': heap bounds', b['span'], '%d values' % c)
            for e in V.live('agg'):
                if e.val.args[0][0] == 'adt' and e.val.args[0][1].endswith('FixedWidthSliceVector') and len(e.vals) == 2:
                    nm = optnames(N, V, b, e.vals[1])
                    if nm and 'num_neighbors' not in nm:
                        ctx.ob('layers hold num_neighbors neighbours', False, b['path'] + ': layer width', e.sp, 'a layer is %s wide (option %s)' % (pp(e.vals[1]), sorted(nm)))
    ctx.floor('search functions [%s]' % cfg, nsearch, 2 if cfg == 'rw' else 1)


def alts(V, t):
    out, work = set(), [t]
    seen = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        else:
            out.add(x)
    return out


def deep(V, t):
    """the values a part of a joined value can be"""
    out, seen, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
            continue
        path, y = [], x
        while y.op == 'fld':
            path.append(y.args[1])
            y = y.args[0]
        if path and y.op == 'phi' and y in V.phi_in:
            for z in V.phi_in[y].values():
                for e in reversed(path):
                    z = V.proj(z, e)
                work.append(z)
        else:
            out.add(x)
    return out


def optnames(N, V, b, v):
    """option fields a value is made of by simple arithmetic; None when it is not only that"""
    out = set()
    C = closure_terms(V, v)
    for s in C:
        if s.op == 'fld' and s.args[1][0] == 'f' and adt_path(N.F, term_type(V, s.args[0])) == N.cfgp and N.cfgp:
            out.add(N.cfga['vs'][0]['fs'][s.args[1][1]]['n'])
        elif s.op in ('call', 'len', 'hofarg'):
            return None
    return out


def reinsertion(ctx, cfg):
    """calls told to reinsert happen exactly when the option says so"""
    F = ctx.F(cfg)
    cp, ca = config_adt(F)
    if cp is None:
        return
    ri = [i for i, f in enumerate(ca['vs'][0]['fs']) if f['n'] == 'reinsert_elements']
    found = 0
    for k, b in F.bodies.items():
        if b['kind'] == 'Closure' or not ri:
            continue
        V = None
        calls = []
        for bl in b['blocks']:
            t = bl['t']
            if t['t'] == 'call' and 'k' in t['f'] and 'fn' in t['f']['k']:
                ps, cb = callee_params(ctx, F, None, t['f']['k']['fn'])
                if ps and 'reinsert_elements' in ps and cb and F.tstr(cb['ins'][ps.index('reinsert_elements')]) == 'bool' and cb['name'] != 'reinsert_elements':
                    calls.append((cb, ps.index('reinsert_elements')))
        if not calls:
            continue
        V = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure', tag='c')
        opt = None
        for s in {s for c in V.cond.values() for s in closure_terms(V, c)}:
            if s.op == 'fld' and s.args[1] == ('f', ri[0]) and adt_path(F, term_type(V, s.args[0])) == cp:
                opt = s
        for cb, i in calls[:1]:
            evs = [e for e in V.live('call') if (e.fn.get('target') or e.fn.get('key')) == cb['key']]
            on = [e for e in evs if e.vals[i].op == 'int' and e.vals[i].args[0] == 1 or e.vals[i].op == 'const' and 'true' in str(e.vals[i].args)]
            off = [e for e in evs if e not in on]
            if not on:
                continue
            found += 1
            if opt is None:
                ctx.ob('reinsertion happens exactly when asked for', False, b['path'], on[0].sp, 'the second pass does not depend on the option reinsert_elements')
                continue
            X0 = Explore(V, [V.ir.entry], assume=[(opt, 0)], from_entry=True)
            X1 = Explore(V, [V.ir.entry], assume=[(opt, 1)], from_entry=True)
            bad = any(x in on for x in X0.events()) or not any(x in on for x in X1.events())
            ctx.ob('reinsertion happens exactly when asked for', not bad, b['path'], on[0].sp, 'the second pass runs without the option or not with it' if bad else '')
    ctx.stats['two-pass functions [%s]' % cfg] = found


def handed(ctx, cfg):
    """the built value holds the configuration it was given"""
    F = ctx.F(cfg)
    cp, ca = config_adt(F)
    if cp is None:
        return
    holders = {p: i for p, a in F.adt_by_path.items() if len(a['vs']) == 1 for i, f in enumerate(a['vs'][0]['fs']) if F.types[F.peel(f['t'])].get('path') == cp}
    n = 0
    for k in lib.roots(F):
        b = F.bodies[k]
        if b['kind'] == 'Closure' or b.get('impl_trait'):
            continue
        out, path = b['out'], ()
        t = F.types[F.peel(out)]
        if t.get('k') == 'adt' and t['path'].endswith('::Result') and t.get('args'):
            t = F.types[F.peel(t['args'][0])] if isinstance(t['args'][0], int) else t
            path = (('d', 0), ('f', 0))
        if t.get('path') not in holders:
            continue
        src = None
        for i, x in enumerate(b['ins']):
            y = F.types[F.peel(x)].get('path')
            if y == cp:
                src = mk('arg', i + 1)
            elif y in holders:
                src = mk('fld', mk('arg', i + 1), ('f', holders[y]))
        if src is None:
            continue
        n += 1
        V = ctx.V(cfg, k)
        for e in V.live('return'):
            v = e.val
            if path and v.op == 'agg' and v.args[0][-1] == 'Err':
                continue
            for x in path + (('f', holders[t['path']]),):
                v = V.proj(v, x)
            if v is src:
                ctx.ob('a builder keeps the options it is given', True, '%s: config' % b['path'], e.sp, 'all of them')
                continue
            for i, f in enumerate(ca['vs'][0]['fs']):
                w, old = V.proj(v, ('f', i)), mk('fld', src, ('f', i))
                ok = deep(V, w) == {old} or f['n'] == 'expected_num_elements' and 'max_elements' in b['argnames']
                ctx.ob('a builder keeps the options it is given', ok, '%s: %s' % (b['path'], f['n']), e.sp, 'the option becomes %s' % ', '.join(sorted(pp(x)[:80] for x in deep(V, w))[:4]))
    ctx.floor('functions that take options over [%s]' % cfg, n, 2)


def taken(ctx, cfg):
    """an option or search parameter given to a Python function reaches the library on every path, unless the path is only taken for one value of it"""
    F = ctx.F(cfg)
    n = 0
    for k, b in sorted(F.bodies.items()):
        an = b.get('argnames') or []
        if b['kind'] == 'Closure' or not set(an) & set(CLS):
            continue
        V = ctx.V(cfg, k, inline=lambda key, body, fr: body['kind'] == 'Closure', tag='c')
        for i, a in enumerate(an):
            if a not in CLS or F.types[b['ins'][i]].get('k') == 'adt':
                continue
            A = mk('arg', i + 1)
            n += 1
            sinks = {e.block for e in V.live('call') if any(contains(v, A) for v in e.vals if v is not None and hasattr(v, 'op'))}

            def pinned(p, s):
                for t, v in V.edge_facts(p, s)[0]:
                    if t is A or t.op == 'bin' and A in t.args[1:] and (t.args[0] == 'Eq' and v == 1 or t.args[0] == 'Ne' and v == 0):
                        return True
                return False
            failing, work = set(), [e.val for e in V.live('return') if e.val is not None]
            for t in work:
                for p, x in V.phi_in.get(t, {}).items():
                    if x.op == 'agg' and x.args[0][-1] == 'Err':
                        failing.add((p, t.args[0]))
                    elif x not in work:
                        work.append(x)
            hit = path_without(V, [V.ir.entry], {e.block for e in V.live('return')} - sinks, sinks, lambda p, s: (p, s) in failing or pinned(p, s))
            ctx.ob('arguments given through Python are used', hit is None, '%s: %s' % (b['path'], a), b['span'], 'on every path' if hit is None else 'on some path %s is passed to nothing' % a)
    ctx.floor('option arguments of Python functions', n, 5)


def run(ctx):
    cfgs = ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas')
    jobs = [(f, c) for c in cfgs for f in (setters, flows, sinks, reinsertion, handed)] + [(flows, 'py'), (taken, 'py')]
    for c in {c for _, c in jobs}:
        ctx.F(c)
    ctx.pmap(jobs, lambda cx, j: j[0](cx, j[1]))
