"""Inlined, desugared control-flow graphs over the type-checked program.

`Builder(F, root, inline).ir` is one CFG for the function `root` in which local callees accepted by the
`inline` predicate, closures called by known higher-order functions, Option/Result combinators and `?`
are replaced by their meaning, so that rules see through helpers, combinators and control-flow spelling.
"""
import re


def cname(path):
    """short canonical name of a callee: generics dropped, last two segments"""
    out, d, i = [], 0, 0
    # `<impl X>` keeps nothing but a marker; `<A as B>::f` -> B::f
    p = path
    m = re.match(r'^<(.*) as (.*)>::([^:<>]+)$', p)
    if m:
        p = _strip(m.group(2)) + '::' + m.group(3)
    else:
        m = re.match(r'^<(.*)>::([^:<>]+)$', p)
        if m:
            p = _strip(m.group(1)) + '::' + m.group(2)
        else:
            p = _strip(p)
    segs = [s for s in p.split('::') if s]
    return '::'.join(segs[-2:])


def _strip(p):
    out, d = [], 0
    prev = ''
    for c in p:
        if c == '<':
            d += 1
        elif c == '>' and prev != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        prev = c
    s = ''.join(out)
    return '::'.join(x for x in s.split('::') if x)


class Blk(object):
    __slots__ = ('st', 't', 'fr', 'sp', 'key')

    def __init__(self, fr):
        self.st, self.t, self.fr, self.sp, self.key = [], None, fr, None, None


class Frame(object):
    __slots__ = ('key', 'path', 'parent', 'span', 'tmap', 'depth', 'lmap', 'sites')

    def __init__(self, key, path, parent, span, tmap):
        self.key, self.path, self.parent, self.span, self.tmap = key, path, parent, span, tmap
        self.depth = parent.depth + 1 if parent else 0

    def chain(self):
        f, out = self, []
        while f:
            out.append((f.path, f.span))
            f = f.parent
        return list(reversed(out))


class IR(object):
    def __init__(self, F):
        self.F = F
        self.locals = []      # type idx
        self.names = {}       # local -> debug name
        self.blocks = []
        self.entry = 0
        self.argc = 0

    def new_local(self, ty):
        self.locals.append(ty)
        return len(self.locals) - 1

    # ---- types of places
    def place_ty(self, pl):
        F = self.F
        t = self.locals[pl[0]]
        var = None
        for e in pl[1]:
            if t is None:
                return None
            if e == '*':
                r = F.types[t]
                t = r['t'] if r.get('k') in ('ref', 'ptr') else (r['args'][0] if r.get('box') else None)
            elif e[0] == 'f':
                t = e[2]
            elif e[0] == 'd':
                pass
            elif e[0] in ('i', 'c'):
                r = F.types[t]
                t = r.get('t')
            # sub keeps type
        return t

    def op_ty(self, op):
        if op[0] == 'p':
            return self.place_ty(op[1])
        if op[0] == 'k':
            return op[1].get('ty')
        if op[0] == 'fn':
            return op[2]
        return None


ONCE = {'ThreadPool::install', 'ThreadPool::scope', 'thread::scope', 'rayon::scope', 'rayon_core::scope', 'panic::catch_unwind',
        'OwningHandle::new_with_fn', 'rayon::join', 'rayon_core::join', 'thread::spawn', 'Scope::spawn', 'ThreadPool::join', 'ThreadPool::spawn',
        'ScopedJoinHandle::join', 'Builder::spawn', 'LocalKey::with', 'mem::drop'}

# combinators: per discriminant value an action
#   expressions: 'p' payload, 'a1','a2' arguments, 'self', ('some',e) ('ok',e) ('err',e) 'none' 'true' 'false' ('cont',e) ('brk',e)
#   ('call', argno, [expr..], wrapper)   'div' = diverges     'opaque' = unknown value
O, R = 'Option', 'Result'
COMB = {
    'Option::map': (O, {0: 'none', 1: ('call', 1, ['p'], 'some')}),
    'Option::inspect': (O, {0: 'none', 1: ('call', 1, ['rp'], 'self')}),
    'Option::map_or': (O, {0: 'a1', 1: ('call', 2, ['p'], None)}),
    'Option::map_or_else': (O, {0: ('call', 1, [], None), 1: ('call', 2, ['p'], None)}),
    'Option::and_then': (O, {0: 'none', 1: ('call', 1, ['p'], None)}),
    'Option::unwrap_or': (O, {0: 'a1', 1: 'p'}),
    'Option::unwrap_or_else': (O, {0: ('call', 1, [], None), 1: 'p'}),
    'Option::unwrap': (O, {0: 'div', 1: 'p'}),
    'Option::expect': (O, {0: 'div', 1: 'p'}),
    'Option::unwrap_unchecked': (O, {0: 'div', 1: 'p'}),
    'Option::ok_or': (O, {0: ('err', 'a1'), 1: ('ok', 'p')}),
    'Option::ok_or_else': (O, {0: ('call', 1, [], 'err'), 1: ('ok', 'p')}),
    'Option::or': (O, {0: 'a1', 1: 'self'}),
    'Option::or_else': (O, {0: ('call', 1, [], None), 1: 'self'}),
    'Option::and': (O, {0: 'none', 1: 'a1'}),
    'Option::is_some': (O, {0: 'false', 1: 'true'}),
    'Option::is_none': (O, {0: 'true', 1: 'false'}),
    'Option::is_some_and': (O, {0: 'false', 1: ('call', 1, ['p'], None)}),
    'Option::is_none_or': (O, {0: 'true', 1: ('call', 1, ['p'], None)}),
    'Option::as_ref': (O, {0: 'none', 1: ('some', 'rp')}),
    'Option::as_mut': (O, {0: 'none', 1: ('some', 'mp')}),
    'Option::as_deref': (O, {0: 'none', 1: ('some', 'rp')}),
    'Option::as_deref_mut': (O, {0: 'none', 1: ('some', 'mp')}),
    'Option::copied': (O, {0: 'none', 1: ('some', 'p')}),
    'Option::cloned': (O, {0: 'none', 1: ('some', 'p')}),
    'Result::map': (R, {0: ('call', 1, ['p'], 'ok'), 1: ('err', 'p')}),
    'Result::inspect': (R, {0: ('call', 1, ['rp'], 'self'), 1: ('err', 'p')}),
    'Result::map_err': (R, {0: ('ok', 'p'), 1: ('call', 1, ['p'], 'err')}),
    'Result::map_or': (R, {0: ('call', 2, ['p'], None), 1: 'a1'}),
    'Result::map_or_else': (R, {0: ('call', 2, ['p'], None), 1: ('call', 1, ['p'], None)}),
    'Result::and_then': (R, {0: ('call', 1, ['p'], None), 1: ('err', 'p')}),
    'Result::and': (R, {0: 'a1', 1: ('err', 'p')}),
    'Result::or_else': (R, {0: ('ok', 'p'), 1: ('call', 1, ['p'], None)}),
    'Result::unwrap': (R, {0: 'p', 1: 'div'}),
    'Result::expect': (R, {0: 'p', 1: 'div'}),
    'Result::unwrap_err': (R, {0: 'div', 1: 'p'}),
    'Result::expect_err': (R, {0: 'div', 1: 'p'}),
    'Result::unwrap_or': (R, {0: 'p', 1: 'a1'}),
    'Result::unwrap_or_else': (R, {0: 'p', 1: ('call', 1, ['p'], None)}),
    'Result::unwrap_or_default': (R, {0: 'p', 1: 'opaque'}),
    'Option::unwrap_or_default': (O, {1: 'p', 0: 'opaque'}),
    'Result::ok': (R, {0: ('some', 'p'), 1: 'none'}),
    'Result::err': (R, {0: 'none', 1: ('some', 'p')}),
    'Result::is_ok': (R, {0: 'true', 1: 'false'}),
    'Result::is_err': (R, {0: 'false', 1: 'true'}),
    'Result::as_ref': (R, {0: ('ok', 'rp'), 1: ('err', 'rp')}),
    'Result::as_mut': (R, {0: ('ok', 'mp'), 1: ('err', 'mp')}),
}
BY_REF = {'Option::is_some', 'Option::is_none', 'Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut',
          'Result::is_ok', 'Result::is_err', 'Result::as_ref', 'Result::as_mut'}
VAR = {'none': (O, 0, 'None'), 'some': (O, 1, 'Some'), 'ok': (R, 0, 'Ok'), 'err': (R, 1, 'Err'), 'cont': ('ControlFlow', 0, 'Continue'), 'brk': ('ControlFlow', 1, 'Break')}
PATHS = {O: 'std::option::Option', R: 'std::result::Result', 'ControlFlow': 'std::ops::ControlFlow'}


def agg(kind, v, vn, ops):
    return ('agg', {'a': 'adt', 'path': PATHS.get(kind, kind), 'key': kind, 'v': v, 'vn': vn, 'fs': ['0'] * len(ops)}, ops)


class Builder(object):
    def __init__(self, F, root, inline=None, max_blocks=60000, tmap=None):
        self.F = F
        self.ir = IR(F)
        self.inline = inline or (lambda key, body, fr: True)
        self.max_blocks = max_blocks
        self.site_no = 0
        b = F.bodies[root]
        fr = Frame(root, b['path'], None, b['span'], tmap or {})
        self.root = b
        lm = self.alloc_locals(b, fr)
        self.ir.argc = b['argc']
        self.ir.root_key = root
        ret = self.emit(b, fr, lm, None, None)
        self.ir.entry = ret

    # ------------------------------------------------------------------ helpers
    def blk(self, fr, sp=None):
        b = Blk(fr)
        b.sp = sp
        self.ir.blocks.append(b)
        if len(self.ir.blocks) > self.max_blocks:
            raise RuntimeError('inlined graph too large for ' + self.root['path'])
        return len(self.ir.blocks) - 1

    def alloc_locals(self, b, fr):
        F = self.F
        lm = [self.ir.new_local(F.subst(t, fr.tmap)) for t in b['locals']]
        for n, p, a in b.get('dbg', []):
            if isinstance(p, int):
                self.ir.names.setdefault(lm[p], n)
        return lm

    def conv_place(self, p, lm, fr):
        if isinstance(p, int):
            return (lm[p], ())
        pr = []
        for e in p[1:]:
            if e == '*':
                pr.append('*')
            elif 'f' in e:
                pr.append(('f', e['f'], self.F.subst(e['t'], fr.tmap), e.get('n')))
            elif 'i' in e:
                pr.append(('i', lm[e['i']]))
            elif 'c' in e:
                pr.append(('c', e['c'], bool(e['fe'])))
            elif 'sub' in e:
                pr.append(('sub', e['sub'], e['to'], bool(e['fe'])))
            elif 'd' in e:
                pr.append(('d', e['d'], e['n']))
            # other projections (opaque casts) are identity
        return (lm[p[0]], tuple(pr))

    def conv_op(self, o, lm, fr, pre):
        if 'c' in o:
            return ('p', self.conv_place(o['c'], lm, fr), False)
        if 'm' in o:
            return ('p', self.conv_place(o['m'], lm, fr), True)
        if 'k' in o:
            k = o['k']
            if 'fn' in k:
                return ('fn', self.subst_fn(k['fn'], fr), self.F.subst(k['ty'], fr.tmap))
            if 'promoted' in k:
                r = self.promoted(k, fr, pre)
                if r is not None:
                    return r
            kk = dict(k)
            kk['ty'] = self.F.subst(k['ty'], fr.tmap)
            return ('k', kk)
        return ('k', {'txt': str(o), 'ty': None})

    def promoted(self, k, fr, pre):
        owner = self.F.items.get(k['key'])
        if not owner or k['promoted'] >= len(owner.get('promoted', [])):
            return None
        b = owner['promoted'][k['promoted']]
        bl = [x for x in b['blocks'] if not x.get('cl')]
        if len(bl) != 1:
            return None
        lm = [self.ir.new_local(self.F.subst(t, fr.tmap)) for t in b['locals']]
        for s in bl[0]['s']:
            self.conv_stmt(s, lm, fr, pre)
        return ('p', (lm[0], ()), False)

    def subst_fn(self, f, fr):
        if not fr.tmap:
            return f
        g = dict(f)
        g['args'] = [self.F.subst(a, fr.tmap) if isinstance(a, int) else a for a in f.get('args', [])]
        if 'self_ty' in f:
            g['self_ty'] = f['self_ty']
        if 'res' in f:
            r = dict(f['res'])
            r['args'] = [self.F.subst(a, fr.tmap) if isinstance(a, int) else a for a in r.get('args', [])]
            g['res'] = r
        return g

    def conv_stmt(self, s, lm, fr, out):
        if s[0] == '=':
            pre = []
            pl = self.conv_place(s[1], lm, fr)
            rv = self.conv_rv(s[2], lm, fr, pre)
            out.extend(pre)
            out.append(('=', pl, rv, s[3] if len(s) > 3 else None))
        elif s[0] == 'setd':
            out.append(('setd', self.conv_place(s[1], lm, fr), s[2]))
        elif s[0] in ('live', 'dead'):
            out.append((s[0], lm[s[1]]))
        elif s[0] == 'intr':
            pass

    def conv_rv(self, r, lm, fr, pre):
        k = r[0]
        op = lambda o: self.conv_op(o, lm, fr, pre)
        if k == 'use':
            return ('use', op(r[1]))
        if k == 'ref':
            return ('ref', bool(r[1]), self.conv_place(r[2], lm, fr))
        if k == 'rawptr':
            return ('ref', 'Mut' in r[1], self.conv_place(r[2], lm, fr))
        if k == 'cast':
            return ('cast', r[1], op(r[2]), self.F.subst(r[3], fr.tmap), self.F.subst(r[4], fr.tmap))
        if k == 'bin':
            return ('bin', r[1], op(r[2]), op(r[3]))
        if k == 'un':
            return ('un', r[1], op(r[2]))
        if k == 'discr':
            return ('discr', self.conv_place(r[1], lm, fr))
        if k == 'agg':
            return ('agg', r[1], [op(x) for x in r[2]])
        if k == 'repeat':
            return ('repeat', op(r[1]), r[2])
        return ('other', str(r[:2]))

    # ------------------------------------------------------------------ bodies
    def emit(self, b, fr, lm, dest, cont):
        """emit body with locals lm; on return assign lm[0] to dest and go to cont (or end). returns entry block"""
        ids = {}
        for i, bl in enumerate(b['blocks']):
            if not bl.get('cl'):
                ids[i] = self.blk(fr, bl['sp'])
                self.ir.blocks[ids[i]].key = (b.get('key'), i)
        for i, bl in enumerate(b['blocks']):
            if bl.get('cl'):
                continue
            cur = ids[i]
            B = self.ir.blocks[cur]
            for s in bl['s']:
                self.conv_stmt(s, lm, fr, B.st)
            t = bl['t']
            k = t['t']
            if k == 'goto':
                B.t = ('goto', ids[t['to']])
            elif k == 'switch':
                op = self.conv_op(t['d'], lm, fr, B.st)
                B.t = ('switch', op, [(v, ids[x]) for v, x in t['to']], ids.get(t['else']), t.get('dt'))
            elif k == 'return':
                if cont is None:
                    B.t = ('return', (lm[0], ()))
                else:
                    B.st.append(('=', dest, ('use', ('p', (lm[0], ()), True)), bl['sp']))
                    B.t = ('goto', cont)
            elif k == 'drop':
                B.t = ('drop', self.conv_place(t['p'], lm, fr), self.F.subst(t['pt'], fr.tmap), ids[t['to']])
            elif k == 'assert':
                op = self.conv_op(t['c'], lm, fr, B.st)
                B.t = ('assert', op, t['e'], t['msg'], ids[t['to']])
            elif k == 'call':
                self.call(cur, t, lm, fr, ids)
            else:
                B.t = ('unreach',)
        return ids[0]

    def call(self, cur, t, lm, fr, ids):
        B = self.ir.blocks[cur]
        f = self.conv_op(t['f'], lm, fr, B.st)
        args = [self.conv_op(a, lm, fr, B.st) for a in t['a']]
        dest = self.conv_place(t['d'], lm, fr)
        to = ids[t['to']] if t['to'] is not None else None
        self.gen_call(cur, f, args, dest, to, t['sp'], fr, mac=t.get('mac'))

    # generate a call at the end of block cur
    def gen_call(self, cur, f, args, dest, to, sp, fr, mac=None):
        B = self.ir.blocks[cur]
        if f[0] != 'fn':
            # indirect call through a place
            self.site_no += 1
            B.t = ('call', {'path': 'indirect', 'name': 'indirect', 'local': False}, [f] + args, dest, to, sp, self.site_no, {}, 'indirect')
            return
        fn = f[1]
        path = fn['path']
        cn = cname(path)
        if to is None:
            self.site_no += 1
            B.t = ('call', fn, args, dest, None, sp, self.site_no, {}, cn)
            return
        # closures
        if fn.get('trait') in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce') and len(args) == 2:
            targs = self.untuple(args[1])
            if targs is not None and self.call_value(cur, args[0], targs, dest, to, sp, fr):
                return
        if cn in COMB and args:
            if self.comb(cur, cn, args, dest, to, sp, fr):
                return
        if cn == 'Try::branch':
            if self.try_branch(cur, args, dest, to, sp, fr):
                return
        if cn == 'FromResidual::from_residual' or cn == 'hint::must_use':
            B.st.append(('=', dest, ('use', args[0]), sp))
            B.t = ('goto', to)
            return
        if cn == 'Option::take' and args:
            a = self.deref(args[0])
            if a:
                B.st.append(('=', dest, ('use', ('p', a, False)), sp))
                B.st.append(('=', a, agg(O, 0, 'None', []), sp))
                B.t = ('goto', to)
                return
        if cn in ('mem::replace',) and len(args) == 2:
            a = self.deref(args[0])
            if a:
                B.st.append(('=', dest, ('use', ('p', a, False)), sp))
                B.st.append(('=', a, ('use', args[1]), sp))
                B.t = ('goto', to)
                return
        if cn == 'mem::swap' and len(args) == 2:
            a, b = self.deref(args[0]), self.deref(args[1])
            if a and b:
                tmp = self.ir.new_local(self.ir.place_ty(a))
                B.st.append(('=', (tmp, ()), ('use', ('p', a, False)), sp))
                B.st.append(('=', a, ('use', ('p', b, False)), sp))
                B.st.append(('=', b, ('use', ('p', (tmp, ()), False)), sp))
                B.t = ('goto', to)
                return
        if cn in ('bool::then', 'bool::then_some') and len(args) == 2:
            if self.bool_then(cur, cn, args, dest, to, sp, fr):
                return
        # enum / struct constructors used as functions
        if cn in ('Option::Some', 'Result::Ok', 'Result::Err') and len(args) == 1:
            k = {'Option::Some': 'some', 'Result::Ok': 'ok', 'Result::Err': 'err'}[cn]
            B.st.append(('=', dest, agg(VAR[k][0], VAR[k][1], VAR[k][2], [args[0]]), sp))
            B.t = ('goto', to)
            return
        key, tmap = self.resolve(fn, args, fr)
        if key is not None:
            body = self.F.bodies.get(key)
            p, n = fr, 0
            rec = False
            while p:
                if p.key == key:
                    rec = True
                p = p.parent
            if body and not rec and fr.depth < 40 and self.inline(key, body, fr):
                self.inline_body(cur, body, tmap, args, dest, to, sp, fr)
                return
            fn = dict(fn)
            fn['target'] = key
        # higher-order calls with closure arguments
        clo = []
        for i, a in enumerate(args):
            c = self.callable_of(a)
            if c:
                clo.append((i, c))
        if clo and not (key is not None):
            self.hof(cur, fn, cn, args, dest, to, sp, fr, clo)
            return
        self.site_no += 1
        B.t = ('call', fn, args, dest, to, sp, self.site_no, {}, cn)

    # ------------------------------------------------------------------ pieces
    def deref(self, op):
        if op[0] != 'p':
            return None
        return (op[1][0], op[1][1] + ('*',))

    def untuple(self, op):
        if op[0] == 'p':
            t = self.F.types[self.ir.op_ty(op)] if self.ir.op_ty(op) is not None else None
            if t is None or t.get('k') != 'tuple':
                return None
            return [('p', (op[1][0], op[1][1] + (('f', i, ty, str(i)),)), op[2]) for i, ty in enumerate(t['ts'])]
        if op[0] == 'k' and op[1].get('ty') is not None and self.F.types[op[1]['ty']].get('k') == 'tuple' and not self.F.types[op[1]['ty']]['ts']:
            return []
        return None

    def callable_of(self, op):
        """('closure', key, type) / ('fn', fndict) when operand is a closure or function item (behind refs)"""
        if op[0] == 'fn':
            return ('fn', op[1])
        t = self.ir.op_ty(op)
        if t is None:
            return None
        r = self.F.types[t]
        while r.get('k') == 'ref':
            t = r['t']
            r = self.F.types[t]
        if r.get('k') == 'closure':
            return ('closure', r['key'], t)
        if r.get('k') == 'fndef':
            return ('fn', r['fn'])
        return None

    def call_value(self, cur, fop, args, dest, to, sp, fr):
        """call callable operand fop with argument operands. False when unknown"""
        c = self.callable_of(fop)
        if not c:
            return False
        if c[0] == 'fn':
            self.gen_call(cur, ('fn', c[1], None), args, dest, to, sp, fr)
            return True
        key, ty = c[1], c[2]
        body = self.F.bodies.get(key)
        if not body:
            return False
        p = fr
        while p:
            if p.key == key:
                return False
            p = p.parent
        tmap = self.closure_tmap(body, ty)
        nf = Frame(key, body['path'], fr, sp, tmap)
        lm = self.alloc_locals(body, nf)
        B = self.ir.blocks[cur]
        # self argument
        want_ref = self.F.types[self.ir.locals[lm[1]]].get('k') == 'ref'
        have = self.ir.op_ty(fop)
        have_ref = have is not None and self.F.types[have].get('k') == 'ref'
        if fop[0] == 'p':
            if want_ref and not have_ref:
                B.st.append(('=', (lm[1], ()), ('ref', True, fop[1]), sp))
            elif have_ref and not want_ref:
                B.st.append(('=', (lm[1], ()), ('use', ('p', (fop[1][0], fop[1][1] + ('*',)), False)), sp))
            else:
                # peel nested refs
                n = 0
                t = have
                while self.F.types[t].get('k') == 'ref':
                    n += 1
                    t = self.F.types[t]['t']
                pl = fop[1]
                while n > 1:
                    pl = (pl[0], pl[1] + ('*',))
                    n -= 1
                B.st.append(('=', (lm[1], ()), ('use', ('p', pl, False)), sp))
        elif fop[0] == 'k':
            B.st.append(('=', (lm[1], ()), ('use', fop), sp))
        nargs = body['argc'] - 1
        for i in range(nargs):
            if i < len(args):
                B.st.append(('=', (lm[2 + i], ()), ('use', args[i]), sp))
        entry = self.emit(body, nf, lm, dest, to)
        self.ir.blocks[cur].t = ('goto', entry)
        return True

    def closure_tmap(self, body, ty):
        root = self.F.items.get(body.get('root'))
        gens = root.get('generics', []) if root else []
        pt = self.F.types[ty].get('pt', [])
        if len(gens) != len(pt):
            # trait default methods carry Self first
            if len(pt) == len(gens) + 1:
                return dict(zip(['Self'] + gens, pt))
            return {}
        return dict(zip(gens, pt))

    def inline_body(self, cur, body, tmap, args, dest, to, sp, fr):
        nf = Frame(body['key'], body['path'], fr, sp, tmap)
        lm = self.alloc_locals(body, nf)
        B = self.ir.blocks[cur]
        for i, a in enumerate(args):
            if i < body['argc']:
                B.st.append(('=', (lm[1 + i], ()), ('use', a), sp))
        entry = self.emit(body, nf, lm, dest, to)
        self.ir.blocks[cur].t = ('goto', entry)

    def resolve(self, fn, args, fr):
        """(local body key, tmap) or (None, None)"""
        F = self.F
        if 'res' in fn and fn['res'].get('local'):
            r = fn['res']
            b = F.items.get(r['key'])
            if b:
                return r['key'], dict(zip(b.get('generics', []), [a for a in r['args'] if isinstance(a, int)]))
        if fn.get('trait'):
            targs = [a for a in fn.get('args', []) if isinstance(a, int)]
            if not targs:
                return None, None
            st = targs[0]
            tr, name = fn['trait'], fn['name']
            for (tr2, name2, st2, extra) in self.trait_views(tr, name, targs):
                r = self.find_impl(tr2, name2, st2, extra)
                if r:
                    return r
            # default method of a local trait on an unknown / implementing type
            t = F.traits.get(tr)
            if t and fn.get('local'):
                for n, k, has in t['items']:
                    if n == name and has:
                        b = F.items.get(k)
                        if b and (fn.get('res_default') or F.types[st].get('k') != 'param'):
                            # self type implements the trait but does not override
                            imp = self.has_override(tr, name, st)
                            if imp is False or fn.get('res_default'):
                                g = b.get('generics', [])
                                return k, dict(zip(g, targs))
            return None, None
        if fn.get('local'):
            b = F.items.get(fn['key'])
            if b:
                return fn['key'], dict(zip(b.get('generics', []), [a for a in fn.get('args', []) if isinstance(a, int)]))
        return None, None

    def trait_views(self, tr, name, targs):
        yield tr, name, targs[0], targs[1:]
        if tr == 'std::convert::Into' and len(targs) > 1:
            yield 'std::convert::From', 'from', targs[1], [targs[0]]
        if tr == 'std::convert::TryInto' and len(targs) > 1:
            yield 'std::convert::TryFrom', 'try_from', targs[1], [targs[0]]
        if tr == 'std::iter::Iterator' and name == 'collect' and len(targs) > 1:
            yield 'std::iter::FromIterator', 'from_iter', targs[1], []

    def find_impl(self, tr, name, st, extra):
        F = self.F
        if F.types[st].get('k') == 'param':
            return None
        for im in F.impls:
            if im.get('trait') != tr:
                continue
            m = {}
            if not F.unify(im['self'], st, m):
                continue
            ta = im.get('trait_args', [])[1:]
            ok = True
            for a, b in zip(ta, extra):
                if isinstance(a, int) and isinstance(b, int) and not F.unify(a, b, m):
                    ok = False
            if not ok:
                continue
            for n, k in im['items']:
                if n == name:
                    b = F.items.get(k)
                    if not b or 'blocks' not in b:
                        return None
                    own = [g for g in b.get('generics', []) if g not in m]
                    rest = [x for x in extra if isinstance(x, int)][len(ta):]
                    tm = dict(m)
                    for g, x in zip(own, rest):
                        tm[g] = x
                    return k, tm
        return None

    def has_override(self, tr, name, st):
        F = self.F
        for im in F.impls:
            if im.get('trait') == tr:
                m = {}
                if F.unify(im['self'], st, m):
                    return any(n == name for n, k in im['items'])
        return None

    # ------------------------------------------------------------------ combinators
    def comb(self, cur, cn, args, dest, to, sp, fr):
        kind, acts = COMB[cn]
        a0 = args[0]
        if a0[0] != 'p':
            if a0[0] != 'k':
                return False
            loc = self.ir.new_local(a0[1].get('ty'))
            self.ir.blocks[cur].st.append(('=', (loc, ()), ('use', a0), sp))
            a0 = ('p', (loc, ()), False)
        pl = a0[1]
        if cn in BY_REF:
            pl = (pl[0], pl[1] + ('*',))
        else:
            # move scrutinee to a fresh local so that later writes do not disturb it
            loc = self.ir.new_local(self.ir.op_ty(a0))
            self.ir.blocks[cur].st.append(('=', (loc, ()), ('use', a0), sp))
            pl = (loc, ())
        ty = self.ir.place_ty(pl)
        pts = {0: None, 1: None}
        if ty is not None and self.F.types[ty].get('k') == 'adt':
            ta = self.F.types[ty].get('args', [])
            if kind == O and ta:
                pts = {1: ta[0]}
            elif kind == R and len(ta) > 1:
                pts = {0: ta[0], 1: ta[1]}
        B = self.ir.blocks[cur]
        d = self.ir.new_local(None)
        B.st.append(('=', (d, ()), ('discr', pl), sp))
        tg = []
        for v, act in sorted(acts.items()):
            nb = self.blk(fr, sp)
            tg.append((v, nb))
            self.action(nb, act, kind, v, pl, pts.get(v), args, dest, to, sp, fr, cn)
        B.t = ('switch', ('p', (d, ()), False), tg, None, None)
        return True

    def expr(self, nb, e, kind, v, pl, pty, args, sp):
        """operand for expression e"""
        B = self.ir.blocks[nb]
        vn = {('Option', 1): 'Some', ('Result', 0): 'Ok', ('Result', 1): 'Err'}.get((kind, v), '')
        pay = (pl[0], pl[1] + (('d', v, vn), ('f', 0, pty, '0')))
        if e == 'p':
            return ('p', pay, True)
        if e in ('rp', 'mp'):
            l = self.ir.new_local(None)
            B.st.append(('=', (l, ()), ('ref', e == 'mp', pay), sp))
            return ('p', (l, ()), False)
        if e == 'a1':
            return args[1]
        if e == 'a2':
            return args[2]
        if e == 'self':
            return ('p', pl, False)
        if e in ('true', 'false'):
            return ('k', {'v': 1 if e == 'true' else 0, 'ty': None, 'txt': e})
        raise KeyError(e)

    def action(self, nb, act, kind, v, pl, pty, args, dest, to, sp, fr, cn):
        B = self.ir.blocks[nb]
        if act == 'div':
            self.site_no += 1
            B.t = ('call', {'path': 'panic', 'name': 'panic', 'local': False, 'via': cn}, [], dest, None, sp, self.site_no, {}, 'panic::' + cn)
            return
        if act == 'opaque':
            self.site_no += 1
            B.t = ('call', {'path': 'default', 'name': 'default', 'local': False}, [], dest, to, sp, self.site_no, {}, 'Default::default')
            return
        if act == 'none':
            B.st.append(('=', dest, agg(O, 0, 'None', []), sp))
            B.t = ('goto', to)
            return
        if isinstance(act, tuple) and act[0] == 'call':
            _, ano, exprs, wrap = act
            ops = [self.expr(nb, e, kind, v, pl, pty, args, sp) for e in exprs]
            fop = args[ano]
            r = self.ir.new_local(None)
            fin = self.blk(fr, sp)
            if not self.call_value(nb, fop, ops, (r, ()), fin, sp, fr):
                self.site_no += 1
                self.ir.blocks[nb].t = ('call', {'path': 'indirect', 'name': 'indirect', 'local': False}, [fop] + ops, (r, ()), fin, sp, self.site_no, {}, 'indirect')
            FB = self.ir.blocks[fin]
            rv = ('use', ('p', (r, ()), True))
            if wrap == 'self':
                rv = ('use', ('p', pl, False))
            elif wrap:
                rv = agg(VAR[wrap][0], VAR[wrap][1], VAR[wrap][2], [('p', (r, ()), True)])
            FB.st.append(('=', dest, rv, sp))
            FB.t = ('goto', to)
            return
        if isinstance(act, tuple):
            op = self.expr(nb, act[1], kind, v, pl, pty, args, sp)
            B.st.append(('=', dest, agg(VAR[act[0]][0], VAR[act[0]][1], VAR[act[0]][2], [op]), sp))
            B.t = ('goto', to)
            return
        B.st.append(('=', dest, ('use', self.expr(nb, act, kind, v, pl, pty, args, sp)), sp))
        B.t = ('goto', to)

    def try_branch(self, cur, args, dest, to, sp, fr):
        a0 = args[0]
        if a0[0] != 'p':
            return False
        ty = self.ir.op_ty(a0)
        if ty is None or self.F.types[ty].get('k') != 'adt':
            return False
        p = self.F.types[ty]['path']
        ta = self.F.types[ty]['args']
        B = self.ir.blocks[cur]
        loc = self.ir.new_local(ty)
        B.st.append(('=', (loc, ()), ('use', a0), sp))
        d = self.ir.new_local(None)
        B.st.append(('=', (d, ()), ('discr', (loc, ())), sp))
        b0, b1 = self.blk(fr, sp), self.blk(fr, sp)
        mk = lambda k, op: ('=', dest, agg('ControlFlow', VAR[k][1], VAR[k][2], [op]), sp)
        if p.endswith('Option'):
            n = self.ir.new_local(ty)
            self.ir.blocks[b0].st += [('=', (n, ()), agg(O, 0, 'None', []), sp), mk('brk', ('p', (n, ()), False))]
            self.ir.blocks[b1].st.append(mk('cont', ('p', (loc, (('d', 1, 'Some'), ('f', 0, ta[0], '0'))), True)))
        elif p.endswith('Result'):
            self.ir.blocks[b0].st.append(mk('cont', ('p', (loc, (('d', 0, 'Ok'), ('f', 0, ta[0], '0'))), True)))
            n = self.ir.new_local(ty)
            e = ('p', (loc, (('d', 1, 'Err'), ('f', 0, ta[1], '0'))), True)
            self.ir.blocks[b1].st += [('=', (n, ()), agg(R, 1, 'Err', [e]), sp), mk('brk', ('p', (n, ()), False))]
        else:
            return False
        self.ir.blocks[b0].t = ('goto', to)
        self.ir.blocks[b1].t = ('goto', to)
        B.t = ('switch', ('p', (d, ()), False), [(0, b0), (1, b1)], None, None)
        return True

    def bool_then(self, cur, cn, args, dest, to, sp, fr):
        B = self.ir.blocks[cur]
        b0, b1 = self.blk(fr, sp), self.blk(fr, sp)
        self.ir.blocks[b0].st.append(('=', dest, agg(O, 0, 'None', []), sp))
        self.ir.blocks[b0].t = ('goto', to)
        if cn == 'bool::then_some':
            self.ir.blocks[b1].st.append(('=', dest, agg(O, 1, 'Some', [args[1]]), sp))
            self.ir.blocks[b1].t = ('goto', to)
        else:
            self.action(b1, ('call', 1, [], 'some'), O, 1, (0, ()), None, args, dest, to, sp, fr, cn)
        B.t = ('switch', args[0], [(0, b0)], b1, None)
        return True

    def hof(self, cur, fn, cn, args, dest, to, sp, fr, clo):
        """external call receiving callables"""
        self.site_no += 1
        site = self.site_no
        once = cn in ONCE
        rets = {}
        if cn == 'Iterator::fold' and len(args) == 3 and [i for i, c in clo] == [2] and self.n_params(clo[0][1]) == 2:
            self.fold(cur, fn, cn, args, dest, to, sp, fr, clo[0][1], site)
            return
        H = self.blk(fr, sp)
        self.ir.blocks[cur].t = ('goto', H)
        ex = self.blk(fr, sp)
        if once:
            at = H
            for i, c in clo:
                r = self.ir.new_local(None)
                nxt = self.blk(fr, sp)
                n = self.n_params(c)
                ops = []
                for j in range(n):
                    l = self.ir.new_local(self.param_ty(c, j))
                    self.ir.blocks[at].st.append(('=', (l, ()), ('hofarg', cn, site, j, args, i), sp))
                    ops.append(('p', (l, ()), False))
                self.ir.blocks[at].st.append(('mark', 'once', cn, site, i))
                if not self.call_value(at, args[i], ops, (r, ()), nxt, sp, fr):
                    self.ir.blocks[at].t = ('goto', nxt)
                else:
                    rets[i] = r
                at = nxt
            self.ir.blocks[at].t = ('goto', ex)
        else:
            succ = [ex]
            for i, c in clo:
                r = self.ir.new_local(None)
                body = self.blk(fr, sp)
                n = self.n_params(c)
                ops = []
                for j in range(n):
                    l = self.ir.new_local(self.param_ty(c, j))
                    self.ir.blocks[body].st.append(('=', (l, ()), ('hofarg', cn, site, j, args, i), sp))
                    ops.append(('p', (l, ()), False))
                self.ir.blocks[body].st.append(('mark', 'loop', cn, site, i))
                if self.call_value(body, args[i], ops, (r, ()), H, sp, fr):
                    rets[i] = r
                    succ.append(body)
                else:
                    self.ir.blocks[body].t = ('unreach',)
            self.ir.blocks[H].t = ('nondet', succ)
        self.ir.blocks[ex].t = ('call', fn, args, dest, to, sp, site, rets, cn)

    def fold(self, cur, fn, cn, args, dest, to, sp, fr, c, site):
        """a sequential fold is a loop that carries its accumulator"""
        acc = self.ir.new_local(self.param_ty(c, 0))
        arg = self.ir.new_local(self.param_ty(c, 0))
        item = self.ir.new_local(self.param_ty(c, 1))
        r = self.ir.new_local(self.param_ty(c, 0))
        H, body, nxt, ex, fin = [self.blk(fr, sp) for _ in range(5)]
        bl = self.ir.blocks
        bl[cur].st.append(('=', (acc, ()), ('use', args[1]), sp))
        bl[cur].t = ('goto', H)
        bl[body].st.append(('=', (item, ()), ('hofarg', cn, site, 1, args, 2), sp))
        bl[body].st.append(('=', (arg, ()), ('use', ('p', (acc, ()), True)), sp))
        bl[body].st.append(('mark', 'loop', cn, site, 2))
        if self.call_value(body, args[2], [('p', (arg, ()), True), ('p', (item, ()), False)], (r, ()), nxt, sp, fr):
            bl[H].t = ('nondet', [ex, body])
        else:
            bl[H].t = ('nondet', [ex])
            bl[body].t = ('unreach',)
        bl[nxt].st.append(('=', (acc, ()), ('use', ('p', (r, ()), True)), sp))
        bl[nxt].t = ('goto', H)
        res = self.ir.new_local(self.param_ty(c, 0))
        bl[ex].t = ('call', fn, [args[0], ('p', (acc, ()), False), args[2]], (res, ()), fin, sp, site, {}, cn)
        bl[fin].st.append(('=', dest, ('use', ('p', (acc, ()), True)), sp))
        bl[fin].t = ('goto', to)

    def param_ty(self, c, j):
        if c[0] == 'closure':
            b = self.F.bodies.get(c[1])
            if b:
                return self.F.subst(b['locals'][2 + j], self.closure_tmap(b, c[2]))
        return None

    def n_params(self, c):
        if c[0] == 'closure':
            b = self.F.bodies.get(c[1])
            return b['argc'] - 1 if b else 0
        fn = c[1]
        key = fn.get('res', {}).get('key') if fn.get('res', {}).get('local') else (fn['key'] if fn.get('local') else None)
        b = self.F.bodies.get(key) if key else None
        if b:
            return b['argc']
        return 1


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[3]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'nondet':
        return list(t[1])
    return []
