#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree by static analysis.
exit 0: holds on everything analysed; exit 1 + VIOLATION line: broken; exit 2: the analysis could not run."""
import sys, os, json, time, traceback, resource, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    from sa import build, core, rules
    try:
        m, units = build.load()
        cx = core.Check(prop, m, units, tier)
        if tier == 'thorough':
            from sa.engine import Engine
            Engine.SCALE = 4; Engine.LIMIT = 400.0; Engine.TOTAL = 840.0
        rules.run(cx)
        if not cx.oblig:
            raise core.Broken('no obligation was analysed')
    except (core.Broken, build.BuildError) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e)); return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop); return 2
    known = []
    kf = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('known: property=%s ' % prop):
                known.append(l.split('key=', 1)[1].split(' :: ')[0].strip())
    viol = [f for k, f in sorted(cx.findings.items()) if k not in known]
    knownhit = [f for k, f in sorted(cx.findings.items()) if k in known]
    ev = {
        'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the resolved program (clang IR of every library source plus explicit template instantiations; nothing is executed). '
                           'Rule: ' + ' '.join(cx.rules),
            'obligations': len(cx.oblig), 'discharged': sum(1 for o in cx.oblig if o[1]),
            'translation_units': len(units), 'functions_analysed': len(cx.funcs),
            'undecided': cx.undec[:50], 'undecided_count': len(cx.undec),
            'samples': [o[0] for o in cx.oblig][:40],
            'functions': sorted(cx.funcs)[:200],
            'known_findings_seen': [f['key'] for f in knownhit],
        },
        'assumptions': cx.notes,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (
        prop, len(cx.oblig), ev['coverage']['discharged'], len(cx.undec), len(cx.funcs), time.time() - t0))
    for f in knownhit:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (prop, f['key'], f['where'], f['message']))
    if not viol:
        return 0
    rp = os.path.join(HERE, 'evidence', prop + '.violation.json')
    json.dump(viol, open(rp, 'w'), indent=1)
    for f in viol:
        print('%s: %s [%s]' % (f['where'], f['message'], f['key']))
        for p in f['path'][-12:]:
            print('      via ' + p)
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
