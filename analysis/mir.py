"""Facts loader: the type-checked program dumped by the driver, plus type helpers and a printer."""
import json, re

class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d['crate']
        self.config = d['config']
        self.types = d['types']
        self.bodies = {}
        self.items = {}
        for b in d['bodies']:
            self.items[b['key']] = b
            if 'blocks' in b:
                self.bodies[b['key']] = b
        self.adts = {a['key']: a for a in d['adts']}
        self.adt_by_path = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['path']: t for t in d['traits']}
        self._intern = {}
        for i, t in enumerate(self.types):
            self._intern.setdefault(t['s'] + '|' + t.get('k', ''), i)
        self.closures_of = {}
        for b in self.bodies.values():
            if b['kind'] == 'Closure':
                self.closures_of.setdefault(b['parent'], []).append(b['key'])

    # ---- types
    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]['s']

    def peel(self, i):
        """strip references / raw pointers / Box"""
        while True:
            t = self.types[i]
            if t.get('k') in ('ref', 'ptr'):
                i = t['t']
            elif t.get('k') == 'adt' and t.get('box'):
                i = t['args'][0]
            else:
                return i

    def walk(self, i, seen=None):
        """all type indexes syntactically contained in type i (generic args, not fields)"""
        if seen is None:
            seen = set()
        if i in seen:
            return seen
        seen.add(i)
        t = self.types[i]
        for k in ('args', 'ts'):
            for a in t.get(k, ()):
                if isinstance(a, int):
                    self.walk(a, seen)
        if 't' in t:
            self.walk(t['t'], seen)
        if t.get('k') == 'fndef':
            for a in t['fn'].get('args', ()):
                if isinstance(a, int):
                    self.walk(a, seen)
        return seen

    def contains_adt(self, i, pred, deep=True, _seen=None):
        """does type i contain (generic args; with deep also fields of local ADTs) an ADT with pred(path)"""
        if _seen is None:
            _seen = set()
        for j in self.walk(i):
            if j in _seen:
                continue
            _seen.add(j)
            t = self.types[j]
            if t.get('k') == 'adt':
                if pred(t['path']):
                    return True
                if deep and t['key'] in self.adts:
                    for v in self.adts[t['key']]['vs']:
                        for f in v['fs']:
                            if self.contains_adt(f['t'], pred, True, _seen):
                                return True
        return False

    def new_type(self, rec):
        k = rec['s'] + '|' + rec.get('k', '')
        if k in self._intern:
            return self._intern[k]
        self.types.append(rec)
        self._intern[k] = len(self.types) - 1
        return len(self.types) - 1

    def subst(self, i, m):
        """substitute type parameters by name"""
        if not m:
            return i
        t = self.types[i]
        k = t.get('k')
        if k == 'param':
            return m.get(t['name'], i)
        if k in ('ref', 'ptr', 'slice', 'array'):
            x = self.subst(t['t'], m)
            if x == t['t']:
                return i
            r = dict(t); r['t'] = x
            pre = {'ref': '&mut ' if t.get('mut') else '&', 'ptr': '*mut ' if t.get('mut') else '*const '}.get(k)
            r['s'] = (pre + self.types[x]['s']) if pre else ('[%s%s]' % (self.types[x]['s'], '; %s' % t.get('len') if k == 'array' else ''))
            r.pop('size', None); r.pop('align', None)
            return self.new_type(r)
        if k in ('adt', 'tuple', 'closure', 'alias'):
            key = 'args' if k == 'adt' else 'ts'
            na = [self.subst(a, m) if isinstance(a, int) else a for a in t.get(key, [])]
            pt = [self.subst(a, m) for a in t.get('pt', [])]
            if na == t.get(key, []) and pt == t.get('pt', []):
                return i
            r = dict(t); r[key] = na
            if pt:
                r['pt'] = pt
            r.pop('size', None); r.pop('align', None)
            base = t['path'] if k == 'adt' else (t['key'] if k == 'closure' else t['s'] if k == 'alias' else '')
            r['s'] = '%s<%s>' % (base, ', '.join(self.types[a]['s'] if isinstance(a, int) else str(a) for a in na + pt))
            return self.new_type(r)
        return i

    def unify(self, pat, i, m):
        """match impl self type pattern (with params) against concrete type; extends m"""
        if pat == i:
            return True
        p, t = self.types[pat], self.types[i]
        if p.get('k') == 'param':
            if p['name'] in m:
                return m[p['name']] == i
            m[p['name']] = i
            return True
        if p.get('k') != t.get('k'):
            return False
        k = p.get('k')
        if k == 'adt':
            if p['key'] != t['key']:
                return False
            pa = [a for a in p['args']]; ta = [a for a in t['args']]
            if len(pa) != len(ta):
                return False
            for a, b in zip(pa, ta):
                if isinstance(a, int) and isinstance(b, int) and not self.unify(a, b, m):
                    return False
            return True
        if k in ('ref', 'ptr'):
            return p.get('mut') == t.get('mut') and self.unify(p['t'], t['t'], m)
        if k in ('slice', 'array'):
            return self.unify(p['t'], t['t'], m)
        if k == 'tuple':
            return len(p['ts']) == len(t['ts']) and all(self.unify(a, b, m) for a, b in zip(p['ts'], t['ts']))
        return p['s'] == t['s']

    def resolve_trait(self, trait, name, self_ty):
        """local impl method for trait `trait` on self_ty, or None"""
        for im in self.impls:
            if im.get('trait') != trait:
                continue
            m = {}
            if self.unify(im['self'], self_ty, m):
                for n, k in im['items']:
                    if n == name:
                        return k, m
                return None, m
        return None, None

    def impls_of(self, trait, name):
        out = []
        for im in self.impls:
            if im.get('trait') == trait:
                for n, k in im['items']:
                    if n == name:
                        out.append(k)
        return out

    # ---- printing
    def pplace(self, p):
        if isinstance(p, int):
            return '_%d' % p
        s = '_%d' % p[0]
        for e in p[1:]:
            if e == '*':
                s = '(*%s)' % s
            elif 'f' in e:
                s += '.%s' % e.get('n', e['f'])
            elif 'i' in e:
                s += '[_%d]' % e['i']
            elif 'c' in e:
                s += '[%s%d]' % ('-' if e['fe'] else '', e['c'])
            elif 'd' in e:
                s = '(%s as %s)' % (s, e['n'])
            else:
                s += str(e)
        return s

    def pop(self, o):
        if 'c' in o:
            return self.pplace(o['c'])
        if 'm' in o:
            return 'move ' + self.pplace(o['m'])
        if 'k' in o:
            k = o['k']
            if 'fn' in k:
                return 'fn ' + self.pfn(k['fn'])
            return 'const ' + str(k.get('txt'))
        return str(o)

    def pfn(self, f):
        s = f['path']
        if f.get('args'):
            s += '<' + ', '.join(self.tstr(a) if isinstance(a, int) else str(a) for a in f['args']) + '>'
        if 'res' in f:
            s += ' => ' + f['res']['path']
        return s

    def prv(self, r):
        k = r[0]
        if k == 'use':
            return self.pop(r[1])
        if k == 'ref':
            return ('&mut ' if r[1] else '&') + self.pplace(r[2])
        if k == 'rawptr':
            return '&raw %s %s' % (r[1], self.pplace(r[2]))
        if k == 'cast':
            return '%s as %s (%s from %s)' % (self.pop(r[2]), self.tstr(r[4]), r[1], self.tstr(r[3]))
        if k == 'bin':
            return '%s(%s, %s)' % (r[1], self.pop(r[2]), self.pop(r[3]))
        if k == 'un':
            return '%s(%s)' % (r[1], self.pop(r[2]))
        if k == 'discr':
            return 'discr(%s)' % self.pplace(r[1])
        if k == 'agg':
            a = r[1]
            n = a['a'] if a['a'] != 'adt' else a['path'] + '::' + a['vn']
            if a['a'] == 'closure':
                n = 'closure ' + a['key']
            return '%s{%s}' % (n, ', '.join(self.pop(x) for x in r[2]))
        return str(r)

    def dump(self, b):
        out = ['fn %s argc=%d' % (b.get('path', b.get('key')), b['argc'])]
        for i, t in enumerate(b['locals']):
            out.append('  let _%d: %s' % (i, self.tstr(t)))
        for n, p, a in b.get('dbg', []):
            out.append('  debug %s => %s' % (n, self.pplace(p)))
        for i, bl in enumerate(b['blocks']):
            if bl.get('cl'):
                continue
            out.append(' bb%d:' % i)
            for s in bl['s']:
                if s[0] == '=':
                    out.append('   %s = %s' % (self.pplace(s[1]), self.prv(s[2])))
                elif s[0] in ('live', 'dead'):
                    pass
                else:
                    out.append('   ' + str(s))
            t = bl['t']
            k = t['t']
            if k == 'call':
                out.append('   %s = CALL %s(%s) -> %s  [%s]' % (self.pplace(t['d']), self.pop(t['f']), ', '.join(self.pop(a) for a in t['a']), t['to'], t['sp']))
            elif k == 'switch':
                out.append('   switch %s %s else %s' % (self.pop(t['d']), t['to'], t['else']))
            elif k == 'drop':
                out.append('   drop %s: %s -> %s' % (self.pplace(t['p']), self.tstr(t['pt']), t['to']))
            elif k == 'assert':
                out.append('   assert %s==%s %s -> %s' % (self.pop(t['c']), t['e'], t['msg'][:60], t['to']))
            else:
                out.append('   ' + ' '.join(str(v) for v in t.values()))
        return '\n'.join(out)


if __name__ == '__main__':
    import sys
    F = Facts(sys.argv[1])
    for k, b in F.bodies.items():
        if re.search(sys.argv[2], b['path']) or re.search(sys.argv[2], k):
            print(k)
            print(F.dump(b))
