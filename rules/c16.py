"""Provenance analysis of neighbour list updates (the linking functions inlined, lists followed through maps, filters, sorts, pushes and joins
back to where their members come from). For every value written to a slot of node i: it is a member of the list already, the unused marker, or a
branch, filter or retained condition excludes that it is i. And it is not listed twice: the slot is the first one found that is unused or already
holds the value; or the whole list is rewritten, up to its end, from its own members and at most one further value that was looked for in the
list and not found under the same lock; or an empty list is filled from distinct search results."""
from ir import succs
from rules.inserting import bases, last, rng
from rules.linking import views, writes, leaves, members, filtered, implied, UNUSED, is_eq, same_pair, strip, component
from rules.searching import path_without, inputs, mutated, event_of
from rules.c15 import empty_before, slot_reads, acquired, infeasible
from vals import mk, pp, subterms, INT, binop

TECHNIQUE = 'provenance of written neighbour ids with path conditions that exclude the node itself and listed ids'
NOTE = 'Induction over the history of a list: loaded lists are assumed to be free of self and duplicate entries; that search results are distinct is C17.'


def run(ctx):
    cfgs = ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas')
    for cfg in cfgs:
        F = ctx.F(cfg)
        n = 0
        for k, V in views(ctx, cfg):
            for w in writes(V):
                n += 1
                Check(ctx, F, V, w).judge()
        ctx.floor('changes of neighbour slots [%s]' % cfg, n, 2)
    ctx.assume('the results of a search are distinct (C17)')


def index_of(V, w):
    """the number of the node that is written"""
    t = w.node[1]
    if w.node[0] == 'lock':
        if t.op == 'fld' and t.args[1][0] == 'i':
            return t.args[1][1]
        if t.op == 'elem':
            return mk('iidx', t.args[0], t.args[1])
    return None


def parts(V, t):
    """the lists t is a part of"""
    return {b for b, off, caps in strip(V, t)}


class Check(object):
    def __init__(self, ctx, F, V, w):
        self.ctx, self.F, self.V, self.w = ctx, F, V, w
        self.e = w.e
        self.key = '%s: %s' % (self.e.fr.path.split('::')[-1], 'slot' if w.kind == 'slot' else w.kind)
        self.facts = set(V.facts(self.e.block))

    def ob(self, rule, ok, what, detail):
        self.ctx.ob(rule, ok, '%s: %s' % (self.key, what), self.e.sp, detail)

    def own(self, t):
        """a member of the same node's list"""
        n = self.w.node
        if t.op in ('elem',) or t.op == 'fld' and t.args[1][0] in ('i', 'c'):
            return any(bs and all(b is n[2] or b.op == 'content' and b.args[0] is n[1] for b in bs) for bs in (bases(self.V, t.args[0]), parts(self.V, t.args[0])))
        return False

    def current(self, t):
        """a member of the list as seen under the acquisition of the write"""
        if t.op in ('elem',) or t.op == 'fld' and t.args[1][0] in ('i', 'c'):
            return {self.w.node[2]} in (bases(self.V, t.args[0]), parts(self.V, t.args[0]))
        return False

    def judge(self):
        V, w = self.V, self.w
        if w.kind in ('swap', 'sort', 'sort_unstable', 'sort_by_key', 'rotate_left', 'rotate_right', 'reverse'):
            return
        if w.val is None:
            self.ob('values written to a list are followed', False, 'values', 'changes a list by %s' % w.kind)
            return
        self.no_self()
        self.no_duplicate()

    # ---- the node itself
    def no_self(self):
        V, w = self.V, self.w
        i = index_of(V, w)

        def prove(t, facts, o=i):
            if t is UNUSED or self.own(t):
                return True
            if o is None:
                return False
            for fs in (facts, self.facts):
                for a, b in implied(V, fs):
                    if b == 0 and same_pair(a, t, o):
                        return True
            for a, b in filtered(V, t):
                if b == 0 and same_pair(a, t, o):
                    return True
            return False
        val = w.val if w.kind == 'slot' else mk('elem', w.val, ('bulk',)) if w.kind in ('copy_from_slice', 'clone_from_slice') else w.val
        ls = leaves(V, val, prove, frozenset())
        bad = [l for l in ls if not l.ok]
        if bad and i is not None:
            # the other way round: the node comes from a list that excludes the value
            still = []
            for l in bad:
                if l.term.op in ('arg', 'fld', 'phi') or True:
                    other = leaves(V, i, lambda t, facts, o=l.term: prove(t, facts, o) and not (t is UNUSED or self.own(t)), frozenset())
                    if not other or not all(x.ok for x in other):
                        still.append(l)
            bad = still
        self.ob('a node is not made its own neighbour', bool(ls) and not bad, 'self', 'excluded for each of %d sources' % len(ls) if ls and not bad else 'could be the node itself: %s' % (', '.join(sorted({pp(l.term)[:120] for l in bad})) or 'the values are not followed'))

    # ---- already listed
    def no_duplicate(self):
        V, w = self.V, self.w
        rule = 'no neighbour is listed twice'
        val = w.val
        if w.kind == 'slot' and val is not UNUSED:
            how = self.slot_search(val)
            if how:
                self.ob(rule, True, 'duplicate', how)
                return
        if w.val is UNUSED:
            return
        if w.kind == 'slot':
            self.rewrite(rule)
            return
        if w.kind in ('fill',):
            self.ob(rule, False, 'duplicate', 'fills several slots with %s' % pp(val))
            return
        self.bulk(rule)

    def slot_search(self, val):
        """the slot is the first that is unused or holds the value, or the value was not found in the list"""
        V, w = self.V, self.w
        idx = w.idx
        x = idx
        while x.op in ('fld', 'payload') and hasattr(x.args[0], 'op'):
            x = x.args[0]
        if x.op == 'call' and last(x.args[0]) == 'position' and len(x.args) > 3 and x.args[3].op == 'cloret' and self.w.node[2] in bases(V, x.args[2]):
            if covers(V, x.args[3].args[1], val, x.args[1]):
                return 'the first slot that is unused or holds the value'
        # a hand-written search
        for h, body in self.heads(idx):
            if self.excluded_in_loop(h, body, val, idx):
                return 'the first slot that is unused or holds the value (loop)'
        if self.absent(val) and self.single():
            return 'one slot gets a value that was not found in the list'
        return None

    def single(self):
        """the write happens once per acquisition"""
        V, e = self.V, self.e
        return path_without(V, succs(V.ir.blocks[e.block].t), {e.block}, cut_blocks=acquired(V, self.w)) is None

    def heads(self, idx):
        """loops (head block, blocks entered with a member) whose counter is the index"""
        V = self.V
        out = []
        for c in V.live('call'):
            if c.name != 'Iterator::next':
                continue
            if any(s.op in ('iidx', 'elem') and s.args[1] == c.site for s in subterms(idx)):
                out.append((c.block, some_edges(V, c)))
        if idx.op == 'phi' and counts_up(V, idx):
            out.append((idx.args[0], [s for s in succs(V.ir.blocks[idx.args[0]].t)]))
        return out

    def excluded_in_loop(self, h, body, val, idx):
        V, w = self.V, self.w
        acq = acquired(V, w)

        def cut(p, s):
            if p not in V.cond:
                return False
            fs, live = V.edge_facts(p, s)
            return any(b == 0 and is_eq(a) and (a.args[1] is val or a.args[2] is val) and slot_reads(V, w, a) for a, b in implied(V, fs))
        if not body or path_without(V, body, {h}, cut_edge=cut, cut_blocks=acq) is not None:
            return False
        # and the search stops at the write
        return path_without(V, succs(V.ir.blocks[self.e.block].t), {h}, cut_blocks=acq) is None

    def not_found(self):
        """values that were looked for in the list, and not found, under the same acquisition"""
        V, w = self.V, self.w
        if hasattr(self, '_nf'):
            return self._nf
        out = []
        for a, b in implied(V, self.facts):
            c = None
            if a.op == 'discr' and b == 0 and a.args[0].op == 'call' and last(a.args[0].args[0]) in ('position', 'find', 'rposition'):
                c = a.args[0]
            elif a.op == 'call' and last(a.args[0]) in ('any', 'contains') and b == 0:
                c = a
            elif a.op == 'call' and last(a.args[0]) == 'all' and b == 1:
                c = a
            if c is None or len(c.args) < 4 or not any(x is w.node[2] and off is INT(0) and not caps for x, off, caps in strip(V, c.args[2])):
                continue
            if last(c.args[0]) == 'contains':
                out.append(c.args[3])
            elif c.args[3].op == 'cloret':
                r = c.args[3].args[1]
                for cand in searched(V, r, c.args[1]):
                    if last(c.args[0]) == 'all':
                        if any(b2 == 0 and is_eq(a2) and cand in a2.args[1:] and any(x.op == 'elem' and x.args[1] == c.args[1] for x in a2.args[1:]) for a2, b2 in V.atoms(r, 1)):
                            out.append(cand)
                    elif covers(V, r, cand, c.args[1]):
                        out.append(cand)
        # a loop over the list that went through without meeting the value
        no = infeasible(V, w)
        acq = acquired(V, w)
        for h, body, reads in self.scans():
            if not V.dominates(h, self.e.block):
                continue
            cands = {}
            for p in V.cond:
                if p in V.dead:
                    continue
                for s in succs(V.ir.blocks[p].t):
                    if (p, s) not in V.live_e:
                        continue
                    for a, b in implied(V, V.edge_facts(p, s)[0]):
                        if b == 0 and is_eq(a):
                            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                                if reads(x):
                                    cands.setdefault(y, set()).add((p, s))
            for y, edges in cands.items():
                if y is UNUSED:
                    continue
                goals = {h} if all(self.contradicts(h, s) for s in body) else {h, self.e.block}
                if path_without(V, body, goals, cut_blocks=acq, cut_edge=lambda p, s: (p, s) in edges or no(p, s)) is None:
                    out.append(y)
        self._nf = out
        return out

    def contradicts(self, h, s):
        """does entering the round over (h, s) decide something the other way than it is at the write?"""
        V, e = self.V, self.e
        if h not in V.cond:
            return False
        facts = dict(implied(V, V.facts(e.block)))
        acq = acquired(V, self.w)
        for a, b in implied(V, V.edge_facts(h, s)[0]):
            if a in facts and facts[a] != b and all(x.args[0] == h or x.args[0] in acq or path_without(V, [s], {x.args[0]}, cut_blocks=acq | {e.block, h}) is None or path_without(V, [x.args[0]], {e.block}, cut_blocks=acq | {h}) is None for x in subterms(a) if x.op == 'phi'):
                return True
        return False

    def scans(self):
        """loops over the whole list: (head, blocks entered with a member, is this term the member?)"""
        V, w = self.V, self.w
        for c in V.live('call'):
            if c.name != 'Iterator::next':
                continue
            body = some_edges(V, c)
            if not body:
                continue

            def reads(x, c=c):
                if x.op == 'fld' and x.args[1][0] == 'i' and w.node[2] in bases(V, x.args[0]):
                    i = x.args[1][1]
                    if i.op == 'elem' and i.args[1] == c.site:
                        return any(rng(r) and rng(r)[0] is INT(0) and rng(r)[1] is not None and is_len(V, rng(r)[1], w.node[2]) for r in inputs(V, i.args[0]))
                    return i.op == 'iidx' and i.args[1] == c.site
                return x.op in ('elem', 'fld') and any(s == c.site and b is not None and w.node[2] in bases(V, b) and o is INT(0) and all(is_len(V, l, w.node[2]) for l in caps) for b, s, o, caps in component(V, x))
            yield c.block, body, reads
        for ph in V.phi_in:
            if counts_up(V, ph) and starts(V, ph) is INT(0) and ph.args[0] in V.cond:
                def reads(x, ph=ph):
                    return x.op == 'fld' and x.args[1] == ('i', ph) and w.node[2] in bases(V, x.args[0])
                body = [s for s in succs(V.ir.blocks[ph.args[0]].t) if any(below(V, a, b, w, ph) for a, b in implied(V, V.edge_facts(ph.args[0], s)[0]))]
                if body:
                    yield ph.args[0], body, reads

    def absent(self, t):
        """was the value (or one it is a source of) looked for in the list, and not found?"""
        acq = acquired(self.V, self.w)
        no = infeasible(self.V, self.w)
        for cand in self.not_found():
            if any(o.e is not self.e and o.node[2] is self.w.node[2] and o.val is not None and o.val is not UNUSED and cand in [o.val] + inputs(self.V, o.val) and path_without(self.V, [o.e.block], {self.e.block}, cut_blocks=acq, cut_edge=no) is not None for o in writes(self.V)):
                # it may have been added since
                continue
            if cand is t or self.V.only(cand) is self.V.only(t) or any(l.term is t for l in leaves(self.V, cand, None)):
                return True
        return False

    def rewrite(self, rule):
        """slots get members of a list, each slot and each member once"""
        V, w = self.V, self.w
        acq = acquired(V, w)
        vs = {s.args[1] for t in ([w.val] + (inputs(V, w.val) if w.val.op == 'phi' else [])) for s in subterms(t) if s.op in ('elem', 'iidx')}
        ix = {s.args[1] for s in subterms(w.idx) if s.op in ('elem', 'iidx')}

        def once(heads):
            return bool(heads) and path_without(V, succs(V.ir.blocks[self.e.block].t), {self.e.block}, cut_blocks=heads | acq) is None
        slots = any(once(self.at(s)) for s in ix) or w.idx.op == 'phi' and counts_up(V, w.idx)
        if not slots or not any(once(self.at(s)) or any(self.feeds(s, t) for t in ix) for s in vs):
            self.ob(rule, False, 'duplicate', 'slot %s gets %s' % (pp(w.idx)[:80], pp(w.val)[:80]))
            return
        self.from_list(rule, w.val, ix | vs)

    def feeds(self, s, t):
        """is the stage s part of the iteration advanced at t?"""
        V = self.V
        for c in V.live('call'):
            if c.site == t and c.name == 'Iterator::next':
                return any(x.op == 'call' and x.args[1] == s for y in inputs(V, c.vals[0]) for x in subterms(y))
        return False

    def at(self, site):
        V = self.V
        marks = {m.block for m in V.live('mark') if m.site == site}
        return marks or {c.block for c in V.live('call') if c.site == site}

    def bulk(self, rule):
        self.from_list(rule, mk('elem', self.w.val, ('bulk',)), set())

    def from_list(self, rule, val, sites):
        V, w = self.V, self.w
        empty = empty_before(V, w)
        ls = leaves(V, val, lambda t, f: t is UNUSED or self.current(t), frozenset())
        extra = {}
        for l in ls:
            if not l.ok:
                extra.setdefault(l.term, []).append(l)
        bad = []
        if empty:
            roots = {frozenset(bases(V, s.args[0])) for t in extra for s in subterms(t) if s.op == 'elem'}
            if len(extra) > 1 and len(roots) > 1:
                bad.append('an empty list is filled from several sources: %s' % ', '.join(pp(t)[:80] for t in extra))
            for t in extra:
                if not any(s.op == 'elem' for s in subterms(t)):
                    bad.append('%s may be written to several slots' % pp(t)[:80])
        else:
            if len(extra) > 1 and not self.alternatives(extra):
                # several spellings of one value are one value
                vals = {tuple(sorted(map(id, inputs(V, t)))) for t in extra}
                if len(vals) > 1:
                    bad.append('several further values: %s' % ', '.join(sorted(pp(t)[:80] for t in extra)))
            for t in extra:
                if not self.absent(t):
                    bad.append('%s may be listed already' % pp(t)[:100])
        # each member once
        twice = self.twice(ls)
        if twice:
            bad.append(twice)
        if not empty and not self.covers_rest(sites):
            bad.append('the rest of the list keeps its old members')
        self.ob(rule, not bad, 'duplicate', '; '.join(bad) or ('an empty list is filled with the distinct members of one list' if empty else 'the list is rewritten to its end from its own members%s' % (' and %s, which was not found in it' % ', '.join(pp(t)[:60] for t in extra) if extra else '')))

    def alternatives(self, extra):
        """all further values are sources of one value that was searched for"""
        return any(all(t is cand or any(l.term is t for l in leaves(self.V, cand, None)) for t in extra) for cand in self.not_found())

    def twice(self, ls):
        """a member of one list is pushed more than once per round"""
        V = self.V
        by = {}
        for l in ls:
            for e in l.via:
                by.setdefault(e.vals[0] if e.vals else None, set()).add(e)
        evs = {e for s in by.values() for e in s}
        for e in evs:
            for f in evs:
                if e is f or e.vals[1] is not f.vals[1] or not any(s.op == 'elem' for s in subterms(e.vals[1])):
                    continue
                # the same member pushed at two places: both in one round?
                heads = set().union(*[self.at(x.args[1]) for x in subterms(e.vals[1]) if x.op == 'elem'])
                if path_without(V, succs(V.ir.blocks[e.block].t), {f.block}, cut_blocks=heads) is not None and bases(V, f.vals[0]) == bases(V, e.vals[0]):
                    return '%s is added twice' % pp(e.vals[1])[:80]
        return None

    def covers_rest(self, sites):
        """slots after the last written member are marked unused"""
        V, w = self.V, self.w
        for c in V.live('call'):
            if c.name in ('Iterator::next', 'Iterator::for_each') and c.site in sites:
                for x in inputs(V, c.vals[0]):
                    lim, inf = [], False
                    work = [mutated(x) if x.op == 'mut' else x]
                    stop = False
                    while work:
                        y = work.pop()
                        if y.op != 'call':
                            continue
                        n = last(y.args[0])
                        if n == 'take':
                            lim.append(y.args[3])
                            work.append(y.args[2])
                        elif n == 'chain':
                            z = y.args[3]
                            while z.op == 'call' and last(z.args[0]) in ('into_iter', 'by_ref', 'copied', 'cloned', 'map'):
                                z = z.args[2]
                            if z.op == 'call' and last(z.args[0]) in ('repeat', 'repeat_with') and (z.args[2] is UNUSED or last(z.args[0]) == 'repeat_with'):
                                inf = True
                        elif n == 'zip':
                            # bounded by the node's own iteration
                            work += [y.args[2], y.args[3]]
                        elif n in ('enumerate', 'into_iter', 'by_ref', 'map', 'iter_mut', 'iter', 'copied', 'fuse', 'peekable', 'inspect'):
                            work.append(y.args[2])
                    if inf and all(is_len(V, l, w.node[2]) for l in lim):
                        return True
        acq = acquired(V, w)
        # every slot is written in every round of an iteration over the whole list
        if w.kind == 'slot':
            for h, body, whole in self.rounds(w):
                if whole and path_without(V, body, {h}, cut_blocks={self.e.block} | acq) is None:
                    return True
        # separately
        sources = set()
        for t in [w.val] + (inputs(V, w.val) if w.val.op == 'phi' else []):
            for x in subterms(t):
                if x.op in ('elem', 'fld'):
                    for b, s, o, caps in component(V, x):
                        if b is not None:
                            sources |= bases(V, b)
                if x.op == 'fld' and x.args[1][0] == 'i':
                    sources |= bases(V, x.args[0])
        for o in writes(V):
            if o.val is not UNUSED or o.node[2] is not w.node[2] or o is w:
                continue
            if o.kind == 'fill':
                heads, part, full = {o.e.block}, o.off, all(is_len(V, l, w.node[2]) for l in o.caps)
                if self.placed(o, heads, part, full, sources):
                    return True
            elif o.idx is not None:
                for h, body, whole in self.rounds(o):
                    part = o.off
                    full = whole
                    if o.idx.op == 'elem':
                        r = [rng(x) for x in inputs(V, o.idx.args[0]) if rng(x)]
                        part = r[0][0] if r else None
                        full = bool(r) and r[0][1] is not None and is_len(V, r[0][1], w.node[2])
                    elif o.idx.op == 'iidx':
                        full = all(is_len(V, l, w.node[2]) for l in o.caps)
                    elif o.idx.op == 'phi':
                        part, full = starts(V, o.idx), True
                    if path_without(V, body, {h}, cut_blocks={o.e.block} | acq) is None and self.placed(o, {h}, part, full, sources):
                        return True
        return False

    def placed(self, o, heads, part, full, sources):
        """unused markers written from slot part on: all of the list before the values are written, or what follows the last value"""
        V, e = self.V, self.e
        acq = acquired(V, self.w)
        if part is None or not full:
            return False
        if part is INT(0):
            return any(V.dominates(h, e.block) for h in heads) and path_without(V, succs(V.ir.blocks[e.block].t), {o.e.block}, cut_blocks=acq) is None
        ins = inputs(V, part)
        if len(ins) == 1:
            part = ins[0]
        if part.op == 'min':
            # no further than the list reaches
            a, b = part.args
            part = b if is_len(V, a, self.w.node[2]) else a if is_len(V, b, self.w.node[2]) else part
        n = part.args[0] if part.op == 'len' else part.args[2] if part.op == 'call' and last(part.args[0]) == 'len' else None
        counted = part.op == 'phi' and self.w.idx is part
        if n is None and not counted or n is not None and not (bases(V, n) & sources):
            return False
        done = {b for b, bl in enumerate(V.ir.blocks) if bl.t is not None and bl.t[0] == 'return'}
        return any(V.dominates(h, e.block) for h in heads) or path_without(V, [e.block], done | acq, cut_blocks=heads) is None

    def rounds(self, w):
        """loops that give the slot of a write: (head, blocks entered, over the whole list?)"""
        V = self.V
        out = []
        for s in subterms(w.idx):
            if s.op in ('elem', 'iidx'):
                for c in V.live('call'):
                    if c.site == s.args[1]:
                        body = some_edges(V, c) if c.name == 'Iterator::next' else []
                        h = c.block
                        marks = [m.block for m in V.live('mark') if m.site == c.site]
                        if marks:
                            h, body = marks[0], succs(V.ir.blocks[marks[0]].t)
                        if not body:
                            continue
                        if s.op == 'iidx':
                            whole = s is w.idx and w.off is INT(0) and all(is_len(V, l, w.node[2]) for l in w.caps) and w.node[2] in bases(V, s.args[0])
                        else:
                            whole = s is w.idx and any(rng(r) and rng(r)[0] is INT(0) and rng(r)[1] is not None and is_len(V, rng(r)[1], w.node[2]) for r in inputs(V, s.args[0]))
                        out.append((h, body, whole))
        if w.idx.op == 'phi' and counts_up(V, w.idx):
            h = w.idx.args[0]
            out.append((h, [s for s in succs(V.ir.blocks[h].t) if any(below(V, a, b, w, w.idx) for a, b in implied(V, V.edge_facts(h, s)[0]))] if h in V.cond else [], starts(V, w.idx) is INT(0)))
        return out


def below(V, a, b, w, ph):
    return a.op == 'bin' and a.args[0] == 'Lt' and a.args[1] is ph and b == 1 and is_len(V, a.args[2], w.node[2])


def counts_up(V, ph):
    """a counter that goes up by one"""
    if ph.op != 'phi':
        return False
    steps = [x for x in V.phi_in.get(ph, {}).values() if x is not ph]
    ups = [x for x in steps if x is binop('Add', ph, INT(1), 'usize')]
    return bool(ups) and len(steps) - len(ups) == 1


def starts(V, ph):
    """the value a counter starts with"""
    s = [x for x in V.phi_in.get(ph, {}).values() if x is not binop('Add', ph, INT(1), 'usize')]
    return s[0] if len(s) == 1 else None


def reach(V, starts, stop):
    seen, work = set(), list(starts)
    while work:
        b = work.pop()
        if b in seen or b in stop or b in V.dead:
            continue
        seen.add(b)
        work += succs(V.ir.blocks[b].t)
    return seen


def some_edges(V, c):
    """blocks entered when the iterator call c gave a member"""
    out = []
    for p in V.cond:
        if p in V.dead:
            continue
        for s in succs(V.ir.blocks[p].t):
            if (p, s) in V.live_e and any(t.op == 'discr' and t.args[0] is c.ret and v == 1 for t, v in V.edge_facts(p, s)[0]):
                out.append(s)
    return out


def is_len(V, l, src):
    if l.op == 'phi':
        ins = inputs(V, l)
        return bool(ins) and all(x.op != 'phi' and is_len(V, x, src) for x in ins)
    x = None
    if l.op == 'len':
        x = l.args[0]
    elif l.op == 'call' and last(l.args[0]) == 'len':
        x = l.args[2]
    return x is not None and src in bases(V, x)


def searched(V, r, site):
    """values a predicate compares the member with"""
    out = set()
    cs = [s for x in [r] + (inputs(V, r) if r.op == 'phi' else []) for s in subterms(x)]
    # a disjunction: the comparison decides which branch the result comes from
    for ph in [s for s in cs if s.op == 'phi']:
        for p in V.phi_in.get(ph, {}):
            cs += [s for a, _ in set(V.facts(p)) | set(V.edge_facts(p, ph.args[0])[0]) for s in subterms(a)]
    for s in cs:
        if is_eq(s):
            for a, b in ((s.args[1], s.args[2]), (s.args[2], s.args[1])):
                if a.op == 'elem' and a.args[1] == site:
                    out.add(b)
    return out


def covers(V, r, val, site, d=0):
    """is the predicate's result r true whenever the member (elem at site) equals val?"""
    if d > 12:
        return False
    if r is INT(1):
        return True
    if is_eq(r):
        return any(a.op == 'elem' and a.args[1] == site and b is val for a, b in ((r.args[1], r.args[2]), (r.args[2], r.args[1])))
    if r.op == 'bin' and r.args[0] in ('BitOr', 'Or'):
        return covers(V, r.args[1], val, site, d + 1) or covers(V, r.args[2], val, site, d + 1)
    if r.op == 'phi':
        ok = bool(V.phi_in.get(r))
        for p, x in V.phi_in.get(r, {}).items():
            if covers(V, x, val, site, d + 1):
                continue
            fs = set(V.facts(p)) | set(V.edge_facts(p, r.args[0])[0])
            if any(b == 0 and is_eq(a) and any(m.op == 'elem' and m.args[1] == site and o is val for m, o in ((a.args[1], a.args[2]), (a.args[2], a.args[1]))) for a, b in implied(V, fs)):
                continue
            ok = False
        return ok
    return False
