#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current tree by static analysis.

exit 0: every obligation of the property was discharged; exit 1: a VIOLATION line per broken obligation;
exit 2: the tree could not be analysed (it does not build, or an anchor of the analysis is missing altogether)."""
import importlib, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build, mir, ir, vals, lib


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ctx = lib.Ctx(prop, tier)
    mod = importlib.import_module('rules.' + prop.lower())
    try:
        mod.run(ctx)
    except build.BuildError as e:
        print('cannot analyse: ' + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        print('cannot analyse: the analysis failed')
        return 2
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k['property'] == prop and k['status'] == 'known']
    viol, kn = [], []
    for o in ctx.obs:
        if o['ok']:
            continue
        if any(k['key'] == o['key'] for k in known):
            if not any(x['key'] == o['key'] for x in kn):
                kn.append(o)
        elif not any(v['key'] == o['key'] for v in viol):
            viol.append(o)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'obligations': len(ctx.obs), 'discharged': sum(1 for o in ctx.obs if o['ok']),
            'known_findings': len(kn),
            'analysed': ctx.stats,
            'floors': ctx.floors,
            'obligation_list': [{'rule': o['rule'], 'key': o['key'], 'ok': o['ok'], 'where': o['where'], 'detail': o['detail'][:400]} for o in ctx.obs][:600],
            'configurations': sorted(ctx._facts),
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': ctx.assumptions,
        'violations': [{'key': v['key'], 'where': v['where'], 'rule': v['rule'], 'detail': v['detail']} for v in viol],
    }
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s (%s): %d obligations, %d discharged, configurations %s, %.1f s' % (prop, tier, len(ctx.obs), ev['coverage']['discharged'], ','.join(sorted(ctx._facts)), time.time() - t0))
    for o in kn:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o['key'], o['detail']))
    for v in viol:
        rp = os.path.join(HERE, 'evidence', '%s.%s.report.txt' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', v['key'])[:80]))
        with open(rp, 'w') as f:
            f.write('property  %s\nrule      %s\ninstance  %s\nwhere     %s\n\n%s\n' % (prop, v['rule'], v['key'], v['where'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  rule: %s\n  instance: %s\n  where: %s\n  %s' % (v['rule'], v['key'], v['where'], v['detail'].replace('\n', '\n  ')))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
