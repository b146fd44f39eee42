"""Effect analysis of element collections. First, the types that stand for an element collection are found from the program: the type parameters on
which the collection traits are used, and the fields of the index and builder types declared with them. In every function of the crate, every exclusive
borrow of such a collection that reaches a call, every assignment to one that exists already, and every function that hands an exclusive
borrow out is enumerated: the only operations that may receive one are the traits' own push and permute (or a function of the crate that is
itself analysed). Second, each implementation of push is inlined down to the standard vectors; every effect on the collection's storage has
to be an append, a reservation, the adoption of the first element's width, or the replacement of a borrowed or memory-mapped storage by an owned
copy of its own content."""
import lib
from rules.common import *  # noqa
from rules.inserting import bases, last
from rules.searching import inputs, mutated
from vals import pp, subterms, INT

TECHNIQUE = 'effect analysis: enumeration of exclusive accesses to element collections, and append-only effects of push'
NOTE = 'That permute only rearranges is C19. Interior mutability inside user-defined collections is outside the analysis.'

COLL = ('ElementContainer', 'ExtendableElementContainer', 'Permutable')
OKMETH = {'push', 'permute'}
PASS = {'DerefMut::deref_mut', 'deref_mut', 'borrow_mut', 'as_mut', 'get_mut', 'index_mut', 'unwrap', 'expect', 'map', 'into_inner', 'write', 'as_deref_mut', 'drop'}


def trait_of(fn):
    return (fn.get('trait') or '').split('::')[-1]


def calls(b):
    for bl in b['blocks']:
        t = bl['t']
        if t['t'] == 'call' and 'k' in t['f'] and 'fn' in t['f']['k']:
            yield t['f']['k']['fn'], t


def containers(F):
    """type parameters (per generic parent) used as element collections: {(param name)} per body, and (adt path, argument number)"""
    per = {}
    for k, b in F.bodies.items():
        for fn, t in calls(b):
            if trait_of(fn) in COLL and fn['args'] and isinstance(fn['args'][0], int):
                r = F.types[fn['args'][0]]
                if r.get('k') == 'param':
                    per.setdefault(k, set()).add(r['name'])
    adts = set()
    grown = True
    for k, ps in list(per.items()):
        for t in F.bodies[k]['locals']:
            for x in F.walk(t):
                r = F.types[x]
                if r.get('k') == 'adt' and r['path'] in F.adt_by_path:
                    for i, a in enumerate([y for y in r.get('args', []) if isinstance(y, int)]):
                        ra = F.types[a]
                        if ra.get('k') == 'param' and ra['name'] in ps and ra['name'] != 'Self':
                            adts.add((r['path'], i))
    return per, adts


def params(F, b, per, adts):
    """names of the type parameters of a body that stand for element collections"""
    out = {p for p in per.get(b['key'], ()) if p != 'Self'}
    for t in b['locals']:
        for x in F.walk(t):
            r = F.types[x]
            if r.get('k') == 'adt':
                for i, a in enumerate([y for y in r.get('args', []) if isinstance(y, int)]):
                    if (r['path'], i) in adts and F.types[a].get('k') == 'param':
                        out.add(F.types[a]['name'])
    root = F.bodies.get(b.get('root') or b.get('parent') or '')
    if root is not None and root is not b:
        out |= params(F, root, per, adts)
    return out


def exclusive(F, t, ps):
    """is the type an exclusive reference to a collection?"""
    r = F.types[t]
    if r.get('k') in ('ref', 'ptr') and r.get('mut'):
        x = F.types[r['t']]
        return x.get('k') == 'param' and x['name'] in ps or x.get('k') == 'ref' and exclusive(F, r['t'], ps)
    if r.get('k') == 'tuple':
        return any(exclusive(F, t, ps) for t in r['ts'])
    return False


def guards(F, t, ps):
    """does a value of this type give exclusive access to a collection behind a lock (or to one that is borrowed)?"""
    for x in F.walk(t):
        r = F.types[x]
        if r.get('k') == 'ref' and r.get('mut') and exclusive(F, x, ps):
            return True
        n = r.get('path', '').split('::')[-1] if r.get('k') == 'adt' else ''
        if 'Guard' in n and 'Read' not in n or n in ('RefMut', 'Mutex', 'RwLock', 'RefCell', 'Cell', 'UnsafeCell'):
            if any(F.types[y].get('k') == 'param' and F.types[y]['name'] in ps for a in r.get('args', []) if isinstance(a, int) for y in F.walk(a)):
                return True
    return False


def place_ty(F, b, p):
    if isinstance(p, int):
        return b['locals'][p]
    t = b['locals'][p[0]]
    for e in p[1:]:
        if t is None:
            return None
        if e == '*':
            r = F.types[t]
            t = r['t'] if r.get('k') in ('ref', 'ptr') else (r['args'][0] if r.get('box') else None)
        elif isinstance(e, dict) and 'f' in e:
            t = e['t']
        elif isinstance(e, dict) and ('i' in e or 'c' in e):
            t = F.types[t].get('t')
    return t


def op_ty(F, b, o):
    if 'c' in o or 'm' in o:
        return place_ty(F, b, o.get('c', o.get('m')))
    if 'k' in o:
        return o['k'].get('ty')
    return None


def run(ctx):
    for cfg in (('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas')):
        F = ctx.F(cfg)
        per, adts = containers(F)
        ctx.floor('types that hold an element collection [%s]' % cfg, len({a for a, i in adts}), 2)
        uses = 0
        for k, b in sorted(F.bodies.items()):
            ps = params(F, b, per, adts)
            if not ps:
                continue
            ctx.stat('functions over element collections')
            uses += body(ctx, F, b, ps, adts)
        ctx.floor('operations with exclusive access to the elements [%s]' % cfg, uses, 2)
        appends(ctx, cfg, F)
        who(ctx, cfg, F)


def who(ctx, cfg, F):
    """which public functions can reach an append or a rearrangement of an index's elements"""
    names = {'push': ('push', 'insert', 'append', 'extend', 'add'), 'permute': ('permute', 'reorder')}
    has = {'push': set(), 'permute': set()}
    for k, b in F.bodies.items():
        for fn, t in calls(b):
            if trait_of(fn) in ('ExtendableElementContainer', 'Permutable') and fn.get('name') in names and isinstance(fn['args'][0], int) and F.types[fn['args'][0]].get('k') == 'param':
                has[fn['name']].add(k)
    for k in sorted(lib.roots(F)):
        R = lib.reachable(F, [k])
        for op, ks in has.items():
            if R & ks:
                ok = any(F.bodies[k]['name'].startswith(n) for n in names[op])
                ctx.ob('elements are appended by push and insert, and rearranged by reorder', ok, '%s: %s' % (F.bodies[k]['path'], op), F.bodies[k]['span'], 'an operation that says so' if ok else 'this operation can %s the elements' % op)


def body(ctx, F, b, ps, adts):
    n = 0
    where = b['path'].split('::{closure')[0]
    for bl in b['blocks']:
        if bl.get('cl'):
            continue
        for s in bl['s']:
            if s[0] != '=':
                continue
            pl = s[1]
            if not isinstance(pl, int) and len(pl) > 1:
                t = place_ty(F, b, pl)
                r = F.types[t] if t is not None else {}
                through = '*' in pl[1:]
                if through and r.get('k') == 'param' and r['name'] in ps:
                    n += 1
                    ctx.ob('existing elements are not replaced', False, '%s: assigns the elements' % where, s[-1] if isinstance(s[-1], (str, list)) else b['span'], 'the collection is overwritten')
                elif through and r.get('k') == 'adt' and any(a == r['path'] for a, i in adts):
                    n += 1
                    ctx.ob('existing elements are not replaced', False, '%s: assigns a whole %s' % (where, r['path'].split('::')[-1]), s[-1] if isinstance(s[-1], (str, list)) else b['span'], 'an index or builder is overwritten together with its elements')
        t = bl['t']
        if t['t'] != 'call' or 'k' not in t['f'] or 'fn' not in t['f']['k']:
            if t['t'] == 'call':
                for a in t['a']:
                    ty = op_ty(F, b, a)
                    if ty is not None and exclusive(F, ty, ps):
                        n += 1
                        ctx.ob('elements are changed through push and permute only', False, '%s: unknown function' % where, t.get('sp', b['span']), 'exclusive access to the elements is given to a function value')
            continue
        fn = t['f']['k']['fn']
        for a in t['a']:
            ty = op_ty(F, b, a)
            if ty is None:
                continue
            r = F.types[ty]
            whole = r.get('k') == 'ref' and r.get('mut') and F.types[r['t']].get('k') == 'adt' and any(x == F.types[r['t']]['path'] for x, i in adts)
            if exclusive(F, ty, ps):
                n += 1
                tr = trait_of(fn)
                nm = fn['name'] if 'name' in fn else last(fn['path'])
                ok = tr in COLL and nm in OKMETH or bool(fn.get('local')) and tr not in COLL or nm in ('deref_mut', 'borrow_mut', 'as_mut', 'by_ref') and 'mut' in nm
                ctx.ob('elements are changed through push and permute only', ok, '%s: %s' % (where, last(fn['path'])), t.get('sp', b['span']),
                       'the append or rearrange operation of the collection' if tr in COLL else 'analysed itself' if ok else 'exclusive access to the elements is given to %s' % fn['path'])
            elif whole and not fn.get('local') and last(fn['path']) in ('swap', 'replace', 'take', 'write', 'swap_nonoverlapping', 'drop_in_place'):
                n += 1
                ctx.ob('existing elements are not replaced', False, '%s: %s' % (where, last(fn['path'])), t.get('sp', b['span']), 'a whole index or builder is exchanged together with its elements')
    if b['kind'] != 'Closure' and b.get('exported') and (exclusive(F, b['out'], ps) or guards(F, b['out'], ps)):
        ctx.ob('no exclusive access to the elements is handed out', False, where, b['span'], 'returns an exclusive reference to the elements')
    return n


# ------------------------------------------------------------------ push appends
APPEND = {'push', 'extend', 'extend_from_slice', 'append', 'reserve', 'reserve_exact', 'to_mut', 'push_back', 'extend_one', 'par_extend', 'shrink_to_fit', 'extend_from_within'}
READONLY = {'deref_mut', 'as_mut', 'as_mut_slice', 'iter', 'len', 'last', 'borrow', 'get', 'capacity', 'borrow_mut', 'by_ref'}


def appends(ctx, cfg, F):
    n = 0
    for k, b in sorted(F.bodies.items()):
        if b['name'] != 'push' or not b.get('impl_trait') or str(b['impl_trait']).split('::')[-1].split('<')[0] != 'ExtendableElementContainer':
            continue
        n += 1
        V = ctx.V(cfg, k, tag='append')
        where = F.tstr(b['self_ty']) if isinstance(b.get('self_ty'), int) else b['path']
        where = str(where).split('::')[-2] + '::' + str(where).split('::')[-1] if '::' in str(where) else where
        A0 = None
        effects = 0
        for e in V.live('write'):
            if not hasattr(e.lv[0], 'op') or not rooted(V, e.lv[0]):
                continue
            effects += 1
            ok, why = write_ok(V, e)
            ctx.ob('push leaves the elements it finds alone', ok, '%s: write of %s' % (where, place(e)), e.sp, why)
        for e in V.live('call'):
            for i, a in enumerate(e.args):
                for r in V.mutrefs(a):
                    if not hasattr(r.args[1], 'op') or not rooted(V, r.args[1]):
                        continue
                    m = last(e.name)
                    if m in READONLY:
                        continue
                    effects += 1
                    ctx.ob('push leaves the elements it finds alone', m in APPEND, '%s: %s' % (where, m), e.sp, 'appends to the storage' if m in APPEND else '%s is not an append' % e.name)
        ctx.floor('effects of push on its storage [%s %s]' % (cfg, where), effects, 1)
    ctx.floor('collections that can be appended to [%s]' % cfg, n, 2)


def rooted(V, t, seen=None):
    """does the place lie inside the collection (argument 0)?"""
    seen = set() if seen is None else seen
    work = [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'arg':
            return x.args[0] == 1
        if x.op == 'phi':
            work += list(V.phi_in.get(x, {}).values())
        elif x.op == 'mut':
            work.append(mutated(x))
        elif x.op in ('with', 'fld', 'payload', 'deref'):
            work.append(x.args[0])
        elif x.op == 'call' and last(x.args[0]) in ('to_mut', 'deref_mut', 'as_mut', 'index_mut', 'as_mut_slice', 'borrow_mut', 'get_mut', 'iter_mut', 'chunks_mut') and len(x.args) > 2:
            work.append(x.args[2])
        elif x.op == 'elem':
            work.append(x.args[0])
    return False


def place(e):
    return '.'.join(str(p[1]) for p in e.lv[1] if p[0] in ('f', 'd') and not hasattr(p[1], 'op')) or 'the whole'


def write_ok(V, e):
    """replacing the storage by an owned copy of its own content; adopting the width of the first element"""
    v = e.val
    if v.op == 'agg' or v.op == 'phi':
        # built from the collection's own content only
        srcs = set()
        work, seen = [v], set()
        bad = []
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                work += list(V.phi_in.get(x, {}).values())
            elif x.op == 'arg':
                srcs.add(x.args[0])
            elif x.op == 'call' and last(x.args[0]) not in ('to_vec', 'to_owned', 'into_owned', 'clone', 'into', 'from', 'load_bytes_as', 'deref', 'as_ref', 'index', 'split_at', 'len', 'from_le_bytes', 'from_raw_parts', 'as_ptr', 'cast', 'size_of', 'align_to', 'cloned', 'collect'):
                bad.append(last(x.args[0]))
            else:
                for a in x.args:
                    if hasattr(a, 'op'):
                        work.append(a)
                    elif isinstance(a, tuple):
                        st = list(a)
                        while st:
                            y = st.pop()
                            if hasattr(y, 'op'):
                                work.append(y)
                            elif isinstance(y, (tuple, frozenset)):
                                st += list(y)
        owned = [x for x in seen if x.op == 'agg' and 'Cow' in str(x.args[0])]
        if srcs == {1} and not bad and all(from_self(V, x) for x in owned):
            return True, 'an owned copy of its own content'
        return False, 'the storage is replaced by something that is not its own content (%s)' % pp(v)[:120]
    # the width, while it is still zero
    for a, b in V.facts(e.block):
        if b == 0 and a.op in ('fld', 'phi') and rooted(V, a) and same_place(V, e, a):
            return True, 'set while it was zero'
        for t, w in V.atoms(a, b):
            if t.op == 'bin' and t.args[0] == 'Eq' and w == 1 and INT(0) in t.args[1:]:
                o = t.args[1] if t.args[2] is INT(0) else t.args[2]
                if rooted(V, o) and same_place(V, e, o):
                    return True, 'set while it was zero'
    return False, 'overwrites part of the collection with %s' % pp(v)[:80]


def from_self(V, t):
    return any(s.op == 'arg' and s.args[0] == 1 for x in [t] + [y for z in subterms(t) if z.op == 'phi' for y in inputs(V, z)] for s in subterms(x))


def same_place(V, e, o):
    cur = e.lv[0]
    for p in e.lv[1]:
        cur = V.proj(cur, p)
    return cur is o or set(inputs(V, cur)) & set(inputs(V, o)) or o.op == cur.op == 'fld' and o.args[1] == cur.args[1]
