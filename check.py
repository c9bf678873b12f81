#!/usr/bin/env python3
"""check.py <ID>: decide one property of /repo's current source.

exit 0  the property's rule holds on every obligation (known findings listed)
exit 1  a violation that known-findings.txt does not list (VIOLATION line)
exit 2  the analysis could not be carried out (anchor vanished, no parse)
"""
import importlib, json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'analysis')]
sys.setrecursionlimit(20000)

def known():
    """known-findings.txt: 'finding: property=ID key=KEY text' / 'fixed: ...'"""
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for ln in open(f):
            if not ln.startswith('finding: '): continue
            w = ln[9:].strip().split(' ', 2)
            d = dict(x.split('=', 1) for x in w[:2])
            out.append((d['property'], d['key'], w[2] if len(w) > 2 else ''))
    return out

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    t0 = time.time()
    import facts
    if sys.argv[1] == '--setup':
        facts.build_tool(); return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        from report import Report, limit
        r = Report(pid, tier)
        limit(600)
        r.part(mod.check, r)
        signal.alarm(0)
        r.finish(getattr(mod, 'MINIMUM', {}))
    except facts.AnalysisError as e:
        for u in (r.undecided[:20] if 'r' in locals() else []): print('  undecided:', u)
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid); return 2
    kn = [(k, t) for p, k, t in known() if p == pid]
    fresh = []
    for v in r.violations:
        hit = [t for k, t in kn if k == v['key']]
        if hit: print('KNOWN-FINDING: property=%s %s (%s:%s)' % (pid, hit[0], v['file'], v['line']))
        else: fresh.append(v)
    rep = os.path.join(HERE, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
        f.write('property %s: %d obligations, %d violations\n' % (pid, r.total, len(r.violations)))
        for v in r.violations:
            f.write('%s%s:%s in %s\n    rule: %s\n    %s\n    key=%s\n' % ('' if v in fresh else '[known] ', v['file'], v['line'], v['fn'], v['rule'], v['msg'], v['key']))
    cov = dict(explanation=getattr(mod, '__doc__', '') or '', analysed=r.analysed(), obligations=r.total,
               discharged=r.total - len(r.violations), by_rule=r.counts, undecided=r.undecided[:200],
               samples=r.samples[:40], violations=[dict(v, known=v not in fresh) for v in r.violations])
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                   wall_s=round(time.time() - t0, 2)), open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%d known)' % (pid, r.total, r.total - len(r.violations), len(r.undecided), len(r.violations), len(r.violations) - len(fresh)))
    for v in fresh:
        print('  %s:%s in %s: [%s] %s  key=%s' % (v['file'], v['line'], v['fn'], v['rule'], v['msg'], v['key']))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    return 0
if __name__ == '__main__': sys.exit(main())
