"""Writes MANIFEST.json from properties.jsonl and the oracle descriptions of the monitors."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from monitors import core
import importlib
for m in sorted(os.listdir(os.path.join(V, 'monitors'))):
    if m.startswith('p_'):
        importlib.import_module('monitors.' + m[:-3])
TECH = dict(S='runtime monitoring: reference-model and statistical oracles on executions',
            G='runtime monitoring: recording simulations and exact oracles on executions',
            D='runtime monitoring: geometric and distributional oracles on executions',
            O='runtime monitoring: optimality certificates on executions',
            R='runtime monitoring: reference models and recorded evaluations',
            Q='runtime monitoring: exact moments and reference rules on executions',
            X='runtime monitoring: interposed calls, state digests and event logs')
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    fams = core.FAMILIES[i]
    t = TECH[i[0]]
    if i == 'O02':
        t = 'runtime monitoring: stand-in solver recording the posed programs'
    if i in ('D04', 'Q04', 'S06'):
        t = 'runtime monitoring: statistical and enumerated oracles on executions'
    checks.append(dict(property=i, quick_cmd='bash run.sh %s' % i, thorough_cmd='bash run.sh %s --tier thorough' % i,
                       technique=t, level='exploration',
                       level_note='%d case families, %d generated executions per quick run. Oracle: %s '
                                  'Assurance is for the executions explored; trusts numpy/scipy and the oracle.' % (
                                      len(fams), sum(f.quick for f in fams), core.ABOUT[i])))
json.dump(dict(version=1, setup_cmd='bash run.sh --selftest', checks=checks, not_applicable=[],
               notes='No hooks in /repo: the monitors observe at the public interface, by recording callbacks and by '
                     'wrapping functions at run time. known_findings.txt lists the defects repaired by fix: commits.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
