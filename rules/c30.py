"""Ordering rule over the Python bindings. A word dictionary is any struct of the bindings holding a map from strings to positions and a list of
strings. In every entry point that, helpers inlined, adds to the map, to the list or to the embeddings, all three additions are present once; the
addition of the embedding, which can fail, comes before both others; from it no path returns, fails explicitly or starts over without both others (a
map entry that was shown to be absent on the way is taken to be vacant); the map gets the word at the length the list has before the word is
pushed, only for a word that is not in the map, and the same word goes into the list. Dictionaries are only ever built empty or from a list whose
enumeration fills the map, and nothing else changes a dictionary or adds to the embeddings."""
from rules import flow
from rules.flow import canon, flatten, inorder, tree
from rules.inserting import last
from ir import succs
from vals import mk, pp, subterms

TECHNIQUE = 'must-happen-together path rule with effect ordering, on inlined entry points'
NOTE = 'That a dictionary file and an embeddings file loaded together belong together is up to the caller. Allocation failure is not considered.'

CHANGE_OK = {'entry', 'insert', 'push', 'reserve', 'or_insert', 'or_insert_with', 'deref_mut', 'borrow_mut'}
MAPADD = {'insert', 'or_insert', 'or_insert_with', 'insert_entry', 'try_insert'}


def own(b):
    return (b['span'] or '').startswith('py/')


def peeled(F, t):
    while t is not None and F.types[t].get('k') in ('ref', 'ptr'):
        t = F.types[t]['t']
    return t


def is_map(F, t):
    t = peeled(F, t)
    d = F.types[t] if t is not None else {}
    return (d.get('path') or '').split('::')[-1] in ('HashMap', 'BTreeMap') and F.tstr(t) is not None and 'String' in F.tstr(t)


def is_strings(F, t):
    t = peeled(F, t)
    d = F.types[t] if t is not None else {}
    return (d.get('path') or '').split('::')[-1] == 'Vec' and 'String' in (F.tstr(t) or '') and not any((F.types[x].get('path') or '').endswith('Vec') for x in F.walk(t) if x != t)


def dictionaries(F):
    out = {}
    for p, a in F.adt_by_path.items():
        if not (a.get('span') or '').startswith('py/') or len(a['vs']) != 1:
            continue
        m = [i for i, f in enumerate(a['vs'][0]['fs']) if is_map(F, f['t'])]
        l = [i for i, f in enumerate(a['vs'][0]['fs']) if is_strings(F, f['t'])]
        if len(m) == 1 and len(l) == 1:
            out[p] = (m[0], l[0])
    return out


def view(ctx, cfg, k):
    return ctx.V(cfg, k, inline=lambda key, body, fr: own(body), tag='c30')


def is_embedding_push(e):
    return last(e.name) == 'push_embedding'


def run(ctx):
    cfg = 'py'
    F = ctx.F(cfg)
    ds = dictionaries(F)
    ctx.floor('word dictionaries', len(ds), 1)
    if not ds:
        return
    (path, (mi, li)), = list(ds.items())[:1]
    calls = {}
    for k, b in F.bodies.items():
        if own(b):
            o = b.get('root') or k if b['kind'] == 'Closure' else k
            for bl in b['blocks']:
                t = bl['t']
                if t.get('t') == 'call' and 'k' in t['f'] and t['f']['k'].get('fn'):
                    fn = t['f']['k']['fn']
                    calls.setdefault(o, set()).add((fn.get('res') or fn).get('key'))
    called = {y for xs in calls.values() for y in xs}
    n = made = 0
    parts = {}
    for k in sorted(F.bodies):
        b = F.bodies[k]
        if not own(b) or b['kind'] == 'Closure':
            continue
        V = view(ctx, cfg, k)
        Es = [e for e in V.live('call') if is_embedding_push(e)]
        Ms = [e for e in V.live('call') if last(e.name) in MAPADD and e.tys and map_entry(F, e.tys[0]) and in_dict(V, e, mi)]
        Ls = [e for e in V.live('call') if last(e.name) in ('push', 'insert') and e.tys and is_strings(F, e.tys[0]) and field_of(e.vals[0]) == ('f', li)]
        parts[k] = (V, Es, Ms, Ls)
        made += constructed(ctx, F, V, b, path, mi, li) if any(F.types[x].get('path') == path for x in F.walk(b['out'])) else 0
    full = {k for k, p in parts.items() if all(p[1:])}

    def inside(k, seen):
        """does a function called by k do all three?"""
        for c in calls.get(k, ()):
            if c in parts and c not in seen:
                seen.add(c)
                if c in full or inside(c, seen):
                    return True
        return False
    for k, (V, Es, Ms, Ls) in sorted(parts.items()):
        if k in full and not inside(k, {k}) or (Es or Ms or Ls) and k not in full and k not in called:
            n += 1
            together(ctx, F, V, F.bodies[k], mi, li, Es, Ms, Ls)
    ctx.floor('entry points that add a word and an embedding', n, 1)
    ctx.floor('places where a dictionary is built from words', made, 1)
    # nothing else changes them
    for k in sorted(F.bodies):
        b = F.bodies[k]
        if own(b):
            changes(ctx, F, b, path)


def map_entry(F, t):
    t = peeled(F, t)
    p = (F.types[t].get('path') or '') if t is not None else ''
    return is_map(F, t) or p.split('::')[-1] in ('VacantEntry', 'OccupiedEntry', 'Entry') and 'String' in (F.tstr(t) or '')


def field_of(t):
    while t.op in ('mut',):
        t = t.args[4] if False else t.args[3]
    return t.args[1] if t.op == 'fld' else None


def in_dict(V, e, mi):
    """does the map operation concern a dictionary's own map?"""
    for x in subterms(e.vals[0]):
        if x.op == 'fld' and x.args[1] == ('f', mi) and x.args[0].op in ('content', 'arg', 'fld', 'guard', 'phi', 'call'):
            return True
    return False


def word(V, t):
    """a word, clones and references looked through"""
    t = canon(V, t)
    while t.op == 'call' and last(t.args[0]) in ('clone', 'to_string', 'to_owned', 'as_str', 'deref', 'borrow', 'as_ref', 'into', 'from', 'to_lowercase_no') and len(t.args) > 2:
        t = canon(V, t.args[2])
    return t


def absent(V, fs):
    """words that the facts show not to be in the map"""
    out = set()
    for t, v in fs:
        if t.op == 'call' and last(t.args[0]) == 'contains_key' and v == 0 and len(t.args) > 3:
            out.add(word(V, t.args[3]))
        if t.op == 'discr' and t.args[0].op == 'call' and last(t.args[0].args[0]) in ('get', 'get_mut', 'get_key_value') and v == 0 and len(t.args[0].args) > 3:
            out.add(word(V, t.args[0].args[3]))
        if t.op == 'discr' and t.args[0].op == 'call' and last(t.args[0].args[0]) == 'entry' and v == 1 and len(t.args[0].args) > 3:
            out.add(word(V, t.args[0].args[3]))
    return out


def occupied(V, fs):
    out = set()
    for t, v in fs:
        if t.op == 'discr' and t.args[0].op == 'call' and last(t.args[0].args[0]) == 'entry' and v == 0 and len(t.args[0].args) > 3:
            out.add(word(V, t.args[0].args[3]))
        if t.op == 'call' and last(t.args[0]) == 'contains_key' and v == 1 and len(t.args) > 3:
            out.add(word(V, t.args[3]))
    return out


def after(V, e, must):
    """a block where control can end (return or explicit failure) or begin the call e again, without running a block of `must`; words already shown to be absent are"""
    gone = absent(V, V.facts(e.block))
    seen, work = set(), [e.block]
    while work:
        b = work.pop()
        if V.ir.blocks[b].t[0] == 'return':
            return b, 'returns'
        for c in V.live('call'):
            if c.block == b and c is not e and last(c.name) in ('unwrap', 'expect', 'panic', 'panic_fmt', 'panic_display', 'begin_panic', 'unwrap_failed', 'expect_failed', 'assert_failed'):
                return b, 'can fail (%s)' % c.name
        for s in succs(V.ir.blocks[b].t):
            fs, live = V.edge_facts(b, s)
            if not live or s in V.dead or occupied(V, fs) & gone:
                continue
            if s == e.block:
                return s, 'starts over'
            if s not in seen and s not in must:
                seen.add(s)
                work.append(s)
    return None


def together(ctx, F, V, b, mi, li, Es, Ms, Ls):
    where = b['path']
    ok = len(Es) == len(Ms) == len(Ls) == 1
    ctx.ob('a word, its position and its embedding are added in one place each', ok, '%s: parts' % where, (Es + Ms + Ls)[0].sp, '%d embedding, %d map, %d list additions' % (len(Es), len(Ms), len(Ls)))
    if not ok:
        return
    E, M, L = Es[0], Ms[0], Ls[0]
    for x, what in ((M, 'map'), (L, 'list')):
        d = V.dominates(E.block, x.block) and E.block != x.block
        ctx.ob('the embedding, which can be rejected, is added first', d, '%s: %s after embedding' % (where, what), x.sp, 'the word is put into the %s %s the embedding is added' % (what, 'after' if d else 'before'))
        if d:
            r = after(V, E, {x.block})
            ctx.ob('an added embedding gets its word', r is None, '%s: embedding then %s' % (where, what), E.sp, 'always followed' if r is None else 'after adding the embedding a path %s without the word in the %s' % (r[1], what))
    for x, y, p, q in ((M, L, 'map', 'list'), (L, M, 'list', 'map')):
        if V.dominates(x.block, y.block):
            r = after(V, x, {y.block})
            ctx.ob('map and list get the word together', r is None, '%s: %s then %s' % (where, p, q), x.sp, 'always followed' if r is None else 'a path %s after only the %s got the word' % (r[1], p))
    # same word, right position, not there yet
    key = [z.args[3] for z in subterms(M.vals[0]) if z.op == 'call' and last(z.args[0]) == 'entry' and len(z.args) > 3]
    key = key[0] if key else M.vals[1] if len(M.vals) > 2 else None
    val = M.vals[-1]
    same = key is not None and word(V, key) is word(V, L.vals[1])
    ctx.ob('map and list get the same word', same, '%s: same word' % where, L.sp, 'the map gets %s, the list %s' % (pp(key)[:60] if key is not None else None, pp(L.vals[1])[:60]))
    v = canon(V, val)
    ln = v.op == 'len' and v.args[0].op == 'fld' and v.args[0].args[1] == ('f', li) and last(L.name) == 'push'
    ctx.ob('the position of a word is the end of the list', ln, '%s: position' % where, M.sp, 'the position recorded is %s' % pp(v)[:100])
    new = key is not None and word(V, key) in absent(V, V.facts(M.block))
    ctx.ob('a word already present keeps its position', new, '%s: new word' % where, M.sp, 'only for words not in the map' if new else 'the map entry can replace an existing one')


def constructed(ctx, F, V, b, path, mi, li):
    """dictionaries made in b: from a list of words"""
    n = 0
    seen = set()
    for e in V.live('return'):
        for d in subterms(e.val):
            if d.op == 'agg' and d.args[0][0] == 'adt' and d.args[0][1].split('::')[-1] == path.split('::')[-1] and d not in seen:
                seen.add(d)
                m, l = d.args[1 + mi], d.args[1 + li]
                if m.op in ('empty',) and l.op in ('empty',) or all(x.op == 'empty' or x.op == 'call' and last(x.args[0]) in ('default', 'new', 'with_capacity') for x in (m, l)):
                    continue
                n += 1
                why = enumerated(V, m, l) or lined(V, l)
                ctx.ob('a dictionary built from words maps each to its position', why is None, '%s: built' % b['path'], e.sp, why or 'the map holds the enumeration of the list')
    return n


def lined(V, l):
    """None if the list holds one word per line that was read, in order"""
    r = flatten(V, tree(V, canon(V, inorder(V, l))))
    if r is None or len(r) != 1 or len(r[0][0]) != 1:
        return 'the list of words is not one word per line: %s' % pp(l)[:120]
    (site, src, idx), item = r[0][0][0], r[0][1]
    B = inorder(V, src) if src is not None else None
    if B is None or B.op != 'call' or last(B.args[0]) not in ('lines', 'split', 'deserialize', 'split_terminator'):
        return 'the list of words is made from %s, not from every line' % (pp(B)[:100] if B is not None else None)
    if not any(x.op == 'elem' and x.args[1] == site for x in subterms(item)):
        return 'a word is %s' % pp(item)[:100]
    return None


def enumerated(V, m, l):
    r = flatten(V, tree(V, m))
    if r is None:
        m2 = m
        if m.op == 'phi':
            return inserted(V, m, l)
        return 'the map is built from %s' % pp(m2)[:120]
    if len(r) != 1 or len(r[0][0]) != 1:
        return 'the map is filled in %d places' % len(r)
    (site, src, idx), item = r[0][0][0], r[0][1]
    if item.op != 'agg' or len(item.args) != 3:
        return 'the map gets %s' % pp(item)[:100]
    return pairs(V, site, src, word(V, item.args[1]), canon(V, item.args[2]), l)


def pairs(V, site, src, w, i, l):
    B = inorder(V, src)
    if not flow.has_enumerate(V, src) and not (w.op == 'fld' and w.args[1][0] == 'i' and w.args[1][1] is i):
        return 'positions do not count the words'
    L = canon(V, inorder(V, l))
    if w.op == 'fld' and w.args[1][0] == 'i' and w.args[1][1] is i:
        return None if canon(V, inorder(V, w.args[0])) is L and flow.whole_range(V, B, w.args[0]) else 'the words are those of another list'
    e0 = w.op == 'elem' and w.args[1] == site and canon(V, inorder(V, w.args[0])) is L
    e0 = e0 or w.op == 'fld' and w.args[1] == ('f', 1) and w.args[0].op == 'elem' and canon(V, B) is L
    if B.op == 'call' and last(B.args[0]) == 'map' and len(B.args) > 3 and B.args[3].op == 'cloret':
        e0 = e0 or canon(V, B) is L and w is word(V, B.args[3].args[1])
    i0 = i.op == 'iidx' and i.args[1] == site or i.op == 'fld' and i.args[1] == ('f', 0) and i.args[0].op == 'elem' and i.args[0].args[1] == site
    return None if e0 and i0 else 'word %s is mapped to %s' % (pp(w)[:60], pp(i)[:60])


def inserted(V, m, l):
    """the map filled by a loop of insertions"""
    head = m.args[0]
    back = {x for p, x in V.phi_in.get(m, {}).items() if V.dominates(head, p)}
    for x in back:
        if not (x.op == 'mut' and last(x.args[0]) == 'insert' and len(x.args) > 5 and x.args[3] is m):
            return 'an iteration makes %s of the map' % pp(x)[:100]
        w, i = word(V, x.args[4]), canon(V, x.args[5])
        site = i.args[1] if i.op in ('iidx', 'elem') else i.args[0].args[1] if i.op == 'fld' and i.args[0].op == 'elem' else None
        c = [e for e in V.live('call') if e.site == site and e.vals]
        if site is None or not c or flow.escapes(V, head, site) is not None:
            return 'the loop that fills the map is not over all words'
        return pairs(V, site, flow.strip_next(V, c[0].vals[0]), w, i, l)
    return 'the map is not filled'


def changes(ctx, F, b, path):
    for bl in b['blocks']:
        t = bl['t']
        if t.get('t') != 'call' or 'k' not in t['f'] or not t['f']['k'].get('fn') or not t['a']:
            continue
        fn = t['f']['k']['fn']
        a = t['a'][0]
        pl = a.get('m', a.get('c')) if isinstance(a, dict) else None
        if not isinstance(pl, int):
            continue
        ty = b['locals'][pl]['t'] if isinstance(b['locals'][pl], dict) else b['locals'][pl]
        d = F.types[ty]
        if d.get('k') != 'ref' or not d.get('mut'):
            continue
        inner = peeled(F, ty)
        nm = fn['name']
        if is_map(F, inner) and (F.types[inner].get('path') or '').endswith('HashMap'):
            ctx.ob('dictionaries only grow', nm in CHANGE_OK, '%s: %s' % (b['path'], nm), t.get('sp') or b['span'], 'map operation %s' % nm)
        if is_strings(F, inner) and dict_list(b, pl):
            ctx.ob('dictionaries only grow', nm in CHANGE_OK, '%s: list %s' % (b['path'], nm), t.get('sp') or b['span'], 'list operation %s' % nm)
        if (F.types[inner].get('path') or '').endswith('SumEmbeddings') and not fn.get('trait'):
            ctx.ob('embeddings only change together with words', nm in ('push_embedding',), '%s: embeddings %s' % (b['path'], nm), t.get('sp') or b['span'], 'operation %s' % nm)


def dict_list(b, pl):
    """is the referenced list a field (of a dictionary) rather than a local list?"""
    for bl in b['blocks']:
        for s in bl['s']:
            if s[0] == '=' and s[1] == pl and s[2][0] == 'ref' and isinstance(s[2][2], list):
                return any(isinstance(x, dict) and 'f' in x for x in s[2][2])
    return False
