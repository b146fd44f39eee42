"""What loading expects of a saved index against what saving writes. In every function that loads an index (library functions inlined) all
reads of named header entries and the types they are converted to are enumerated; every function that saves an index must put an entry
of the same name and a type that can be converted into the header on every way to success (the inserts are followed through the map that
is serialised). Conditions between header entries that loading insists on are carried over to the values saved. The marker: the saved
header is taken apart into the pieces it is appended from, the first of which must be a constant, followed by the serialised entries and
white space only; in the loading function every parse of the header must lie behind a branch that holds only if bytes of the buffer equal
that same constant, whatever way is used to compare them."""
import re
import lib
from explore import Explore
from linear import add, rng
from rules import flow, layout
from rules.c04 import from_cut
from stream import op
from vals import mk, pp, subterms

TECHNIQUE = 'dataflow over inlined MIR: names and types read against names and types written; control dependence on the marker comparison'
NOTE = 'serde_json is trusted to give back what it was given.'

INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def kind(s):
    """what a type is in JSON"""
    s = re.sub(r"&('\w+ )?(mut )?", '', s or '').strip()
    s = re.sub(r'^std::borrow::Cow<(\'\w+, )?(.*)>$', r'\2', s)
    if s in INTS:
        return ('uint', INTS[s])
    if s in ('i8', 'i16', 'i32', 'i64', 'isize', 'i128'):
        return ('int', 64 if s == 'isize' else int(s[1:]))
    if s in ('f32', 'f64'):
        return ('float',)
    if s in ('str', 'std::string::String', 'String'):
        return ('str',)
    if s == 'bool':
        return ('bool',)
    m = re.match(r'^(?:std::vec::Vec|std::collections::VecDeque|smallvec::SmallVec)<(.*)>$', s) or re.match(r'^\[(.*?)(?:; \w+)?\]$', s)
    if m:
        return ('list', kind(m.group(1)))
    m = re.match(r'^std::option::Option<(.*)>$', s)
    if m:
        return ('opt', kind(m.group(1)))
    if s.endswith('serde_json::Value') or s.endswith('Value'):
        return ('any',)
    return ('?', s)


def fits(w, r):
    """can a value of kind w be read as kind r?"""
    if r[0] == 'any' or w == r:
        return True
    if r[0] == 'opt':
        return fits(w, r[1])
    if w[0] == 'uint' and r[0] == 'uint':
        return r[1] >= w[1]
    if w[0] == 'uint' and r[0] == 'int':
        return r[1] > w[1]
    if w[0] in ('uint', 'int') and r[0] == 'float':
        return False
    if w[0] == r[0] == 'list':
        return fits(w[1], r[1])
    return False


AS = {'as_u64': ('uint', 64), 'as_i64': ('int', 64), 'as_f64': ('float',), 'as_str': ('str',), 'as_bool': ('bool',), 'as_array': ('list', ('any',)), 'is_null': ('any',)}


def reads(l):
    """[(key, kind, where)]"""
    V, F, out = l.V, l.F, []
    for key, e in l.reads:
        ks = []
        for u in V.live('call'):
            n = u.name.split('::')[-1]
            if u is e or not u.vals or l.header_key(u.vals[0]) != key:
                continue
            if n in ('from_value', 'deserialize'):
                a = [F.tstr(x) for x in (u.fn or {}).get('args', []) if isinstance(x, int)]
                ks.append(kind(a[0] if n == 'from_value' else a[-1]))
            elif n in AS:
                ks.append(AS[n])
        out.append((key, ks or [('any',)], e))
    return out


def entries(sv, t, d=0):
    """{key: value} of the entries certainly in a map"""
    V = sv.V
    out = {}
    while t.op == 'mut' and d < 200:
        d += 1
        n = layout.name(t)
        if n == 'insert' and len(t.args) > 5 and t.args[4].op == 'str':
            out.setdefault(str(t.args[4].args[0]), t.args[5])
        elif n in ('remove', 'clear', 'retain', 'append'):
            return out
        t = t.args[3 + t.args[2]]
    if t.op == 'phi' and t.args[0] not in sv.S.heads and d < 100:
        alts = [entries(sv, v, d + 1) for v in V.phi_in.get(t, {}).values()]
        for k in set.intersection(*[set(a) for a in alts]) if alts else ():
            if len({a[k] for a in alts}) == 1:
                out.setdefault(k, alts[0][k])
    return out


def pieces(sv, t, d=0):
    """a text or byte sequence as what it is appended from: ('str', s), ('map', term), ('pad', byte), ('?', term)"""
    V = sv.V
    if d > 60:
        return [('?', t)]
    if t.op == 'str':
        return [('str', str(t.args[0]))]
    if t.op == 'empty' or t.op == 'call' and t.args[0] in ('String::new', 'Vec::new', 'String::with_capacity', 'Vec::with_capacity'):
        return []
    if t.op == 'mut' and t.args[2] == 0 and len(t.args) > 4:
        n, p = layout.name(t), pieces(sv, t.args[3], d + 1)
        if n in ('push_str', 'extend_from_slice', 'extend', 'append', 'write_all', 'write_str'):
            return p + pieces(sv, t.args[4], d + 1)
        if n == 'push':
            return p + [('pad', t.args[4].args[0]) if t.args[4].op == 'int' else ('?', t.args[4])]
        if n == 'resize' and len(t.args) > 5:
            return p + [('pad', t.args[5].args[0]) if t.args[5].op == 'int' else ('?', t.args[5])]
        if n in ('reserve', 'truncate', 'shrink_to_fit'):
            return p
        return p + [('?', t)]
    if t.op == 'phi':
        r = sv.S.single(t)
        if r is not t:
            return pieces(sv, r, d + 1)
        if t.args[0] in sv.S.heads:
            init, back = sv.S.sides(t)
            if len(init) == 1 and back and all(v.op == 'mut' and v.args[3] is t and layout.name(v) == 'push' and v.args[4].op == 'int' for p, v in back):
                return pieces(sv, init[0][1], d + 1) + [('pad', v.args[4].args[0]) for p, v in back]
        return [('?', t)]
    if t.op == 'call' and t.args[0].startswith('serde_json::to_') and len(t.args) > 2:
        m = t.args[2]
        while m.op == 'agg' and len(m.args) == 2:
            m = m.args[1]
        return [('map', m)]
    if t.op == 'fld' and t.args[1][0] in ('d', 'f'):
        return pieces(sv, t.args[0], d + 1)
    if t.op == 'call' and layout.name(t) in ('take',) and t.args[2].op == 'call' and layout.name(t.args[2]) == 'repeat':
        b = t.args[2].args[2]
        return [('pad', b.args[0]) if b.op == 'int' else ('?', t)]
    if t.op == 'repeat' and t.args[0].op == 'int':
        return [('pad', t.args[0].args[0])]
    if t.op == 'call' and layout.name(t) in ('into_bytes', 'as_bytes', 'as_str', 'as_slice', 'to_owned', 'to_string', 'to_vec', 'into', 'from', 'as_ref', 'clone', 'into_boxed_str', 'unwrap', 'expect') and len(t.args) > 2:
        return pieces(sv, t.args[2], d + 1)
    if t.op == 'call' and layout.name(t) == 'add' and len(t.args) > 3:
        return pieces(sv, t.args[2], d + 1) + pieces(sv, t.args[3], d + 1)
    return [('?', t)]


def header(sv, s):
    """pieces of the header: everything written after the stream was last positioned"""
    out = []
    for x in sv.S.chain(s):
        o = op(x)
        if not o or o[0] in ('Seek::seek', 'Seek::rewind'):
            break
        if o[0] in ('Write::write_all',):
            out = pieces(sv, o[2][0]) + out
    return out


def guards(l, marker):
    """facts (term, value) that hold only if bytes of the buffer equal the marker"""
    V, out = l.V, {}
    ts = {t for b in range(len(V.ir.blocks)) if b not in V.dead for t, v in V.facts(b)}
    for t in ts:
        x, want = t, 1
        if x.op == 'discr':
            x, want = x.args[0], 1
        ops = []
        if x.op == 'bin' and x.args[0] in ('Eq', 'Ne'):
            ops, want = list(x.args[1:]), 1 if x.args[0] == 'Eq' else 0
        elif x.op == 'call' and layout.name(x) in ('eq', 'ne', 'starts_with', 'strip_prefix') and len(x.args) > 3:
            ops, want = list(x.args[2:4]), 0 if layout.name(x) == 'ne' else 1
        consts = [o for o in ops if text(o) == marker]
        if x.op == 'call' and layout.name(x) in ('starts_with', 'strip_prefix') and text(ops[0]) is not None:
            continue
        if len(ops) == 2 and len(consts) == 1:
            other = [o for o in ops if o is not consts[0]][0]
            out[t] = (want, other)
    return out


def text(t):
    while t.op == 'call' and layout.name(t) in ('as_bytes', 'as_str', 'into_bytes', 'to_string', 'to_owned', 'as_slice', 'to_vec', 'from', 'into') and len(t.args) > 2:
        t = t.args[2]
    if t.op == 'agg' and t.args[0][0] == 'array' and all(x.op == 'int' for x in t.args[1:]):
        return ''.join(chr(x.args[0]) for x in t.args[1:])
    return str(t.args[0]) if t.op == 'str' else None


def inputs(l, p):
    """where the bytes that are parsed come from"""
    return {x for x in subterms(p.vals[0]) if x.op == 'arg' or x.op == 'call' and layout.name(x) in ('map', 'open', 'deref', 'as_slice')}


def marked(ctx, l, markers):
    V, b = l.V, l.body
    for p in l.parses:
        src = inputs(l, p)
        # the buffer itself, past adapters that only limit it
        for m in sorted(markers):
            gs = guards(l, m)
            fs = set(l.S.more(list(V.facts(p.block))))
            hit = [(t, o) for t, (want, o) in gs.items() if (t, want) in fs or t.op == 'bin' and (t, want) in fs]
            hit = [(t, o) for t, o in hit if any(from_cut(V, o, s) for s in src)]
            ctx.ob('data that does not begin with the marker is rejected', bool(hit), b['path'], p.sp, 'compared with the marker %r before the header is parsed' % m if hit else 'the header is parsed without comparing the beginning of the data with %r' % m)
            for t, o in hit[:1]:
                ns = sorted({n for x in reach(V, o) for n in limits(l, x)})
                if ns:
                    ctx.ob('the marker is compared with as many bytes as it has', min(ns) >= len(m), b['path'], p.sp, 'limits on what is compared: %s' % ns)


def returns(ctx, l, markers):
    """loading cannot succeed when no comparison with the marker came out equal"""
    gs = [(t, 1 - want) for m in markers for t, (want, o) in guards(l, m).items()]
    X = Explore(l.V, [l.V.ir.entry], assume=gs, from_entry=True)
    F = l.V.F
    if not any(F.types[F.peel(t)].get('k') in ('slice', 'array') for t in l.body['ins']):
        return 0
    bad = [e for e in X.live_events if e.kind == 'return']
    if 'Result<' in F.tstr(l.body['out']):
        bad = [e for e in bad if X.values_of(l.V.discr(e.val)) != {1}]
    ctx.ob('nothing is loaded from data that does not begin with the marker', bool(gs) and not bad, l.body['path'], bad[0].sp if bad else l.body['span'], '%d comparisons with the marker, %d returns reached when all of them fail' % (len(gs), len(bad)))
    return 1


def reach(V, t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y not in seen:
                seen.add(y)
                if y.op == 'phi':
                    todo += [v for v in V.phi_in.get(y, {}).values() if v not in seen]
        if len(seen) > 3000:
            break
    return seen


def limits(l, x):
    n = None
    if x.op == 'call' and layout.name(x) == 'take' and len(x.args) > 3:
        n = l.L.lin(x.args[3])
    elif x.op == 'fld' and x.args[1][0] == 'i' and x.args[1][1].op == 'agg':
        q = x.args[1][1]
        if str(q.args[0][1]).endswith('RangeTo') and len(q.args) > 1:
            n = l.L.lin(q.args[1])
    return [n.get((), 0)] if n is not None and all(m == () for m in n) else []


def carried(l, sv, ents, t, d=0):
    """a value of the loading function as the saving function would have it, or None"""
    k = l.header_key(t)
    if k is not None:
        return sv.S.L.lin(layout.unvalue(ents[k])) if k in ents else None
    if t.op == 'len' or t.op == 'call' and layout.name(t) == 'len' and len(t.args) > 2:
        k = l.header_key(t.args[0] if t.op == 'len' else t.args[2])
        if k is not None and k in ents:
            return sv.S.L.lin(sv.V.length(layout.unvalue(ents[k])))
        return None
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] else {}
    return None


def run(ctx):
    for cfg in ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas'):
        svs, ls = layout.saves(ctx, cfg), layout.loads(ctx, cfg)
        markers, written = set(), []
        for sv in svs:
            b = sv.body
            for s, fs in sv.ends:
                ps = header(sv, s)
                maps = [m for k, m in ps if k == 'map']
                ctx.ob('the header is a marker followed by the serialised entries', len(ps) >= 2 and ps[0][0] == 'str' and len(ps[0][1]) > 0 and ps[1][0] == 'map' and len(maps) == 1, b['path'], b['span'],
                       ', '.join('%s %s' % (k, x if not hasattr(x, 'op') else pp(x, 2)[:40]) for k, x in ps))
                ctx.ob('only white space follows the entries in the header', all(k == 'pad' and x in (32, 9, 10, 13) for k, x in ps[2:]), b['path'], b['span'], str([x for k, x in ps[2:] if not hasattr(x, 'op')]))
                if len(ps) < 2 or ps[0][0] != 'str' or len(maps) != 1:
                    continue
                markers.add(ps[0][1])
                written.append((sv, entries(sv, maps[0])))
        n = m = 0
        for l in ls:
            marked(ctx, l, markers)
            m += returns(ctx, l, markers)
            for key, ks, e in reads(l):
                n += 1
                for sv, ents in written:
                    who = '%s: %s' % (l.body['path'], key)
                    if not any(k[0] == 'opt' for k in ks):
                        ctx.ob('every header entry loading relies on is saved', key in ents, who, e.sp, 'entries saved by %s: %s' % (sv.body['path'], ', '.join(sorted(ents))))
                    if key in ents:
                        w = wkind(sv, ents[key])
                        ctx.ob('header entries are saved with the type loading expects', all(fits(w, k) or w[0] == '?' and k[0] == '?' and w == k for k in ks), who, e.sp, 'saved as %s, read as %s' % (show(w), ', '.join(show(k) for k in ks)))
            for ev in l.V.live('return'):
                for t, v in l.V.facts(ev.block):
                    if t.op == 'bin' and t.args[0] == 'Eq' and v == 1:
                        for sv, ents in written:
                            x, y = carried(l, sv, ents, t.args[1]), carried(l, sv, ents, t.args[2])
                            if x is None or y is None:
                                continue
                            d = add(x, y, -1)
                            if not d or all(m == () for m in d):
                                ctx.ob('saving meets the conditions loading insists on', not d, '%s: %s' % (l.body['path'], sorted({k for k in [l.header_key(z) for z in subterms(t)] if k})), ev.sp, '%s, saved by %s: %s' % (pp(t, 4)[:120], sv.body['path'], sv.S.show(d)))
        ctx.floor('functions that save an index [%s]' % cfg, len(svs), 2)
        ctx.floor('functions that load an index from bytes [%s]' % cfg, m, 1)
        ctx.floor('reads of header entries [%s]' % cfg, n, 1)


def show(k):
    return ' of '.join(str(x) if not isinstance(x, tuple) else show(x) for x in k)


def wkind(sv, t):
    F = sv.V.F
    c = t
    while c.op == 'fld' and c.args[1][0] in ('d', 'f'):
        c = c.args[0]
    if c.op == 'agg' and c.args[0][0] == 'adt' and c.args[0][1].endswith('Value'):
        return {0: ('any',), 1: ('bool',), 2: ('uint', 64), 3: ('str',), 4: ('list', ('any',))}.get(c.args[0][2], ('?', 'object'))
    for e in sv.V.live('call'):
        if e.ret is c and e.fn:
            a = [F.tstr(x) for x in e.fn.get('args', []) if isinstance(x, int)]
            if layout.name(c) in ('to_value',) and a:
                return kind(a[0])
            if layout.name(c) in ('from', 'into') and a:
                ks = [kind(x) for x in a if kind(x)[0] != 'any']
                if ks:
                    return ks[0]
    return ('?', pp(t, 2)[:40])
