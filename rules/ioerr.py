"""shared: follow the error of one fallible I/O call to the ends of the paths it can take"""
import ir
from explore import Explore, after
from vals import mk, pp, contains, subterms

ERR = ('std::io::Error', 'serde_json::Error', 'std::string::FromUtf8Error_')


def is_err_ty(F, t):
    r = F.types[t]
    return r.get('k') == 'adt' and (r['path'] in ERR or r['path'].endswith(('io::Error', 'io::error::Error', 'serde_json::Error', 'serde_json::error::Error')))


def carrier(F, t):
    """how a value of type t carries an I/O error: list of projections to the Result, or None"""
    if t is None:
        return None
    r = F.types[t]
    if r.get('k') == 'tuple':
        for i, x in enumerate(r['ts']):
            c = carrier(F, x)
            if c is not None:
                return [('f', i)] + c
        return None
    if r.get('k') != 'adt':
        return None
    p, a = r['path'], r.get('args', [])
    if p.endswith('result::Result') and len(a) > 1 and isinstance(a[1], int) and is_err_ty(F, a[1]):
        return []
    if p.endswith('option::Option') and a and isinstance(a[0], int):
        x = carrier(F, a[0])
        if x is not None:
            return [('d', 1), ('f', 0)] + x
    return None


def mentions_err(F, t):
    return t is not None and any(is_err_ty(F, x) for x in F.walk(t))


def errlike(alt, r, payload):
    """does a returned value carry the error of r"""
    if alt is r:
        return True
    if alt.op == 'agg' and alt.args[0][:2] == ('adt', 'Result'):
        return alt.args[0][2] == 1
    if alt.op == 'agg' and alt.args[0][:2] == ('adt', 'Option') and alt.args[0][2] == 1:
        return errlike(alt.args[1], r, payload)
    if alt.op in ('call', 'fld', 'mut', 'cloret') and (contains(alt, r) or (payload is not None and contains(alt, payload))):
        return True
    return False


def sources(V):
    """(event, result term, projections, description) for every call that yields a fallible I/O result, and closure parameters that are one"""
    F = V.F
    out = []
    for e in V.live('call'):
        t = V.ir.place_ty(e.dest)
        if e.ret is None or V.ir.blocks[e.block].t[4] is None:
            continue
        pr = carrier(F, t)
        if pr is None:
            continue
        r = e.ret
        for x in pr:
            r = V.proj(r, x)
        if r.op == 'agg':
            continue
        out.append((e, e.ret, r, pr, e.name))
    for e in V.live('param'):
        pr = carrier(F, e.tys[0])
        if pr is None:
            continue
        r = e.val
        for x in pr:
            r = V.proj(r, x)
        out.append((e, e.val, r, pr, 'item of ' + e.name))
    return out


def follow(V, e, whole, r, pr):
    """list of problems with the error of r"""
    F = V.F
    D1 = mk('discr', r)
    ass = [(V.discr(r), 1)]
    w = whole
    for x in pr:
        if x[0] == 'd':
            ass.append((V.discr(w), 1))
        w = V.proj(w, x)
    payload = V.proj(V.proj(r, ('d', 1)), ('f', 0))
    absorbed = []

    def stop(ev, X):
        if ev.kind == 'call' and ev is not e:
            # the error value itself handed on (collected, converted, passed to another function that returns an error type)
            for i, a in enumerate(ev.vals or []):
                c = a
                if c.op == 'cloret':
                    c2 = c.args[1]
                    for alt in X.alts(c2):
                        if errlike(alt, r, payload):
                            absorbed.append(ev)
                            return True
        if ev.kind == 'write' and isinstance(ev.lv[0], vals_Term):
            pass
        return False
    X = Explore(V, after(V, e) if e.kind == 'call' else [e.block], ass, stop=stop)
    probs = []
    ty = F.types[V.ir.locals[0]]
    for ev, alts in X.returns():
        bad = [a for a in alts if not errlike(X.subst(a) if a.op == 'phi' else a, r, payload)]
        if bad:
            probs.append((ev, bad))
    return probs, X


from vals import Term as vals_Term
