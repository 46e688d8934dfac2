"""python -m monitors ID [--tier T] [--seed N] [--replay FILE] [--family NAME] [--jobs N]"""
import argparse
import importlib
import json
import os
import sys

os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

MODULES = dict(S='p_subspaces', G='p_gradients', D='p_domains', O='p_optim', R='p_respsurf', Q='p_quad', X='p_cross')


def selftest():
    """The machinery works here: everything imports from /repo, and the monitor tells good from bad executions."""
    import numpy as np
    import active_subspaces
    from monitors import core
    for m in list(MODULES.values()) + ['p_reuse', 'p_large', 'p_wide']:
        importlib.import_module('monitors.' + m)

    def good(mon, rng):
        mon.close(np.ones(3), np.ones(3), 'x')

    def bad(mon, rng):
        mon.close(np.ones(3) + 1e-3, np.ones(3), 'x')

    def raising(mon, rng):
        active_subspaces.subspaces.active_subspace(None, None)
    import active_subspaces.subspaces
    for fn, want in ((good, 'ok'), (bad, 'violation'), (raising, 'violation')):
        st = core.run_case(core.Family('T00', fn.__name__, fn, 1, 1), 0, 1, 60)[0]
        if st != want:
            print('selftest: %s gave %s' % (fn.__name__, st))
            return 2
    print('selftest: %d properties, %d case families' % (len(core.FAMILIES), sum(map(len, core.FAMILIES.values()))))
    return 0


def main():
    if '--selftest' in sys.argv:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.id == 'O02':
        from monitors import gurobi_stub
        gurobi_stub.install()
    import active_subspaces
    if not os.path.abspath(active_subspaces.__file__).startswith('/repo/'):
        print('INCONCLUSIVE: active_subspaces imported from %s' % active_subspaces.__file__)
        return 2
    from monitors import core
    importlib.import_module('monitors.' + MODULES[a.id[0]])
    importlib.import_module('monitors.p_reuse')
    importlib.import_module('monitors.p_large')
    importlib.import_module('monitors.p_wide')
    if a.id not in core.FAMILIES:
        print('INCONCLUSIVE: no families for %s' % a.id)
        return 2
    if a.replay:
        r = json.load(open(a.replay))
        fam = [f for f in core.FAMILIES[a.id] if f.name == r['family']][0]
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='asmon_')
        os.chdir(d)
        try:
            status, detail, mon = core.run_case(fam, r['index'], r['seed'], 600)
        finally:
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(dict(status=status, detail=detail, failures=mon.failures, sample=mon.sample), indent=1))
        return 1 if status == 'violation' else 0
    violations, problems, known, ev = core.run_property(a.id, a.tier, a.seed, a.jobs, only=a.family)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k, msg in known.items():
        print('KNOWN-FINDING: property=%s %s' % (a.id, msg))
    c = ev['coverage']
    print('%s %s seed=%d: %d cases (%d distinct), %d oracle checks, %.1f s' % (
        a.id, a.tier, a.seed, c['evaluations'], c['distinct_nontrivial'], c['oracle_checks'], ev['wall_s']))
    if violations:
        for fam, r in violations[:3]:
            p = core.write_replay(a.id, fam, r, a.seed, a.tier)
            for lab, msg, wit in r['failures'][:2]:
                print('  %s[%d] %s | %s' % (fam.name, r['idx'], msg, json.dumps(wit)[:600]))
            print('VIOLATION property=%s replay=%s' % (a.id, p))
        return 1
    if problems:
        for p in problems[:5]:
            print('INCONCLUSIVE: ' + p)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
