#!/usr/bin/env python3
"""fill the generated parts of DESIGN.md from the rules, MANIFEST, known findings and seeds"""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(H + '/properties.jsonl'):
    if l.strip():
        p = json.loads(l)
        props[p['id']] = p
rules = []
for f in sorted(glob.glob(H + '/rules/c[0-9][0-9].py')):
    t = ast.parse(open(f).read())
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'NOTE')}
    i = 'C' + os.path.basename(f)[1:3]
    rules.append('### %s — %s\n\n*Method:* %s.\n\n*Rule:* %s\n\n*Bounds and assumptions:* %s\n\n*Why tests cannot settle it:* %s\n' % (i, props[i]['title'], d['TECHNIQUE'].rstrip('.'), ' '.join(ast.get_docstring(t).split()), d['NOTE'], props[i].get('why_tests_cant', '')))
na = ['* **%s** %s — %s' % (k, props[k]['title'], v) for k, v in sorted(json.load(open(H + '/tools/not_applicable.json')).items())]
fx = ['* %s, `%s`: %s' % (k['property'], k['commit'], k['line'].split(' ', 3)[3]) for k in json.load(open(H + '/known_findings.json')) if k['status'] == 'fixed']
sd = []
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    j = json.load(open(m))
    sd.append('* **%s** (caught by %s): %s *Needs:* %s' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'], j['needs']))
s = open(H + '/DESIGN.md').read()
for tag, body in (('rules', rules), ('na', na), ('fixed', fx), ('seeds', sd)):
    s = re.sub('<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(body), tag), s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
