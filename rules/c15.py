"""Lock-scoped dependence analysis of neighbour list updates. The functions that link nodes of a shared layer are inlined with their helpers and
closures; every write of a slot (and every bulk change) of a node that lies behind a lock must depend on the content of that node as seen through
the very acquisition under which it is written: the slot was found by looking at that content, or the values written are computed from it, or
every path from the acquisition to the write passes a test of that slot; the only other accepted write fills a node whose list was seen to be
empty under that same acquisition. Constants that mark the unused rest of a list must follow a read of the content under the same acquisition."""
from rules.inserting import bases, last
from ir import succs
from rules.linking import views, writes, values, implied, UNUSED, is_eq, strip, component
from rules.searching import path_without, inputs, mutated
from vals import mk, pp, subterms, INT
from rules.common import held

TECHNIQUE = 'dependence of each neighbour slot write on the content read under the same lock acquisition'
NOTE = 'Which lock guards which list is found from the types: a lock around a list of neighbour ids.'


def run(ctx):
    cfgs = ('rw',) if ctx.tier == 'quick' else ('rw', 'base', 'single', 'blas')
    for cfg in cfgs:
        F = ctx.F(cfg)
        held(ctx, cfg, F)
        n = 0
        seen = set()
        for k, V in views(ctx, cfg):
            for w in writes(V):
                n += 1
                judge(ctx, F, V, w, seen)
        ctx.floor('changes of neighbour slots [%s]' % cfg, n, 2)


def depends(V, w, t):
    """is the value computed from the content seen under the same acquisition?"""
    src = w.node[2]
    for x in values(V, t):
        if x is src:
            return True
        if x.op in ('mut', 'with', 'phi') and src in bases(V, x):
            return True
    return False


def judge(ctx, F, V, w, seen):
    e = w.e
    src = w.node[2]
    what = {'lock': 'locked node', 'own': 'node'}[w.node[0]]
    key = '%s: %s %s' % (e.fr.path.split('::')[-1], what, 'slot' if w.kind == 'slot' else w.kind)
    rule = 'a neighbour list is changed according to its current content'
    ok, why = False, 'neither the slot nor the value depends on the content of the list under this acquisition of its lock'
    if w.idx is not None and depends(V, w, w.idx):
        ok, why = True, 'the slot was found in the current content'
    elif w.val is not None and w.val is not UNUSED and depends(V, w, w.val):
        ok, why = True, 'the value is computed from the current content'
    elif w.kind in ('swap', 'sort', 'sort_unstable', 'sort_by_key', 'rotate_left', 'rotate_right', 'reverse', 'copy_within'):
        ok, why = True, 'the members are only rearranged'
    elif empty_before(V, w):
        ok, why = True, 'the list was seen to be empty'
    elif w.idx is not None and tested(V, w):
        ok, why = True, 'every path to the write tests the slot'
    elif w.val is UNUSED or w.kind == 'fill' and w.val is UNUSED:
        # the rest of a list is marked unused after the list was read
        got = [c for c in V.live('call') if V.dominates(c.block, e.block) and any(depends(V, w, a) for a in c.vals) and reads_members(V, w, c)]
        ok, why = bool(got), 'marks the rest of a list that was read under the same acquisition' if got else 'erases slots without reading them under the same acquisition'
    elif w.node[0] == 'own' and w.val is not None and exclusive_values(V, w):
        ok, why = True, 'exclusive access'
    ctx.ob(rule, ok, key, e.sp, why if ok else '%s (%s)' % (why, w))


def reads_members(V, w, c):
    src = w.node[2]
    for a in c.vals:
        for x in values(V, a):
            if x.op == 'elem' and src in bases(V, x.args[0]) or x.op == 'fld' and x.args[1][0] in ('i', 'c') and src in bases(V, x.args[0]):
                return True
            if x.op == 'call' and last(x.args[0]) in ('to_vec', 'clone', 'collect', 'iter') and len(x.args) > 2 and src in bases(V, x.args[2]):
                return True
    # collecting, copying or iterating over the content itself
    return last(c.name) in ('to_vec', 'clone', 'collect', 'next', 'to_owned', 'map', 'take_while', 'filter', 'copied', 'cloned') and any(src in bases(V, a) for a in c.vals)


def exclusive_values(V, w):
    return depends(V, w, w.val)


def unused_of(a):
    """the term that a comparison with the unused marker is about"""
    if is_eq(a) and UNUSED in a.args[1:]:
        return a.args[1] if a.args[2] is UNUSED else a.args[2]
    return None


def empty_before(V, w):
    """a test that established that the first slot of the same node (or every slot) is unused lies before the write on every path"""
    def same(x):
        return any(s is w.node[2] for s in bases(V, x))
    for a, b in implied(V, V.facts(w.e.block)):
        o = unused_of(a)
        if INT(b) is UNUSED and not is_eq(a):
            o, b = a, 1
        if b == 1 and o is not None and o.op == 'fld' and (o.args[1] == ('i', INT(0)) or o.args[1][0] == 'c' and o.args[1][1] in (0, INT(0))) and same(o.args[0]):
            return True
        if b == 1 and o is not None and o.op == 'payload' and o.args[0].op == 'call' and last(o.args[0].args[0]) in ('first', 'get') and same(o.args[0].args[2]) and (last(o.args[0].args[0]) == 'first' or o.args[0].args[3] is INT(0)):
            return True
        if a.op == 'call' and last(a.args[0]) in ('any', 'all') and len(a.args) > 3 and a.args[3].op == 'cloret' and b == (last(a.args[0]) == 'all') and any(same(x) for x, off, caps in strip(V, a.args[2]) if off is INT(0)):
            r = a.args[3].args[1]
            for c, d in V.atoms(r, int(b)):
                o = unused_of(c)
                if d == 1 and o is not None and o.op == 'elem' and o.args[1] == a.args[1]:
                    return True
    return False


def slot_reads(V, w, t):
    """does the term read this very slot of the same acquisition?"""
    for x in subterms(t):
        if x.op == 'fld' and x.args[1][0] == 'i' and x.args[1][1] is w.idx and w.node[2] in bases(V, x.args[0]):
            return True
        if w.idx.op == 'iidx' and x.op in ('elem', 'fld') and any(s == w.idx.args[1] and o is w.off and b is not None and w.node[2] in bases(V, b) for b, s, o, caps in component(V, x)):
            return True
    return False


def acquired(V, w):
    """blocks that start the access under which the write happens"""
    if w.node[0] == 'lock':
        return {c.block for c in V.live('call') if last(c.name) in ('write', 'lock', 'upgradable_read', 'read', 'try_write') and c.site == w.node[2].args[1]}
    b = w.node[1]
    if b.op == 'elem':
        marks = {m.block for m in V.live('mark') if m.site == b.args[1]} or {c.block for c in V.live('call') if c.site == b.args[1]}
        if marks:
            return marks
    return {V.ir.entry}


def infeasible(V, w):
    """edges that cannot be the last way through a decision before the write: their outcome contradicts one that holds at the write"""
    e = w.e
    facts = {}
    for a, b in implied(V, V.facts(e.block)):
        facts[a] = b
    acq = acquired(V, w)
    memo = {}

    def again(s, h):
        """can the block h be passed once more between s and the write?"""
        k = (s, h)
        if k not in memo:
            memo[k] = h not in acq and (s == h or path_without(V, [s], {h}, cut_blocks=acq | {e.block}) is not None) and path_without(V, succs(V.ir.blocks[h].t), {e.block}, cut_blocks=acq) is not None
        return memo[k]

    def f(p, s):
        # a decision whose outcome is known to be the opposite at the write
        if p in V.cond:
            for a, b in implied(V, V.edge_facts(p, s)[0]):
                if a in facts and facts[a] != b and not any(x.op == 'phi' and s != e.block and again(s, x.args[0]) for x in subterms(a)) and not any(x.op in ('elem', 'iidx') and again_site(s, x.args[1]) for x in subterms(a)):
                    return True
        # a join whose value is known to be another one
        for a, b in facts.items():
            if a.op == 'phi' and a.args[0] == s and a in V.phi_in and p in V.phi_in[a]:
                v = V.phi_in[a][p]
                if v in (INT(0), INT(1)) and v is not INT(b) and not any(again(x, s) for x in succs(V.ir.blocks[s].t)):
                    return True
        return False

    def again_site(s, site):
        return any(again(s, c.block) for c in V.live('call') if c.site == site)
    return f


def tested(V, w):
    """on every path from the acquisition to the write, a branch on the content of this slot is passed"""
    start = acquired(V, w)
    if not start:
        return False
    no = infeasible(V, w)

    def cut(p, s):
        if no(p, s):
            return True
        if p not in V.cond:
            return False
        fs, live = V.edge_facts(p, s)
        return any(is_eq(a) and b == 1 and slot_reads(V, w, a) for a, b in implied(V, fs))
    return path_without(V, start, {w.e.block}, cut_edge=cut) is None
