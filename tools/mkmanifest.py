"""Writes /verif/MANIFEST.json from properties.jsonl, the scenarios present in props/, and the notes below."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from notes import NOTES, NOT_APPLICABLE

TECH = 'symbolic execution of the real Python code (numpy and linear algebra over exact real terms), assertions discharged by z3 (NRA), counterexamples replayed on the unpatched code'
LEVEL = 'Bounded: holds for every real value of the symbolic inputs within the stated dimensions, lengths and step counts, on every feasible path of the executed code. '
def larger(i):
    """The real-use sizes of props/large.py in words."""
    from props.large import SIZES
    out = []
    for name, grid, kw in SIZES.get(i, ()):
        for g in grid:
            sizes = ['%s=%s' % (k, v) for k, v in g.items() if k in ('d', 'n', 'k', 'N', 'T', 'it', 'B', 'S', 'm', 'M', 'size') and isinstance(v, int) and v > 4]
            if sizes:
                out.append('%s %s' % (name, ' '.join(sizes)))
    return ' Real-use sizes, with all but 1-50 % of the inputs fixed at small rationals that differ between rounds and seeds: ' + '; '.join(dict.fromkeys(out)) + '.' if out else ''


TRUST = ' Assumes exact real arithmetic, documented numpy/scipy linear algebra, nonzero divisors; nothing is claimed outside the bounds.'
checks = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')) or i in NOT_APPLICABLE:
        continue
    checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking',
                       level_note=LEVEL + NOTES.get(i, '') + larger(i) + TRUST))
claimed = {c['property'] for c in checks}
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NOT_APPLICABLE[p['id']]) for p in props if p['id'] not in claimed],
         notes='No hooks in /repo: the checks import the modules of /repo under a patched numpy/scipy/autograd layer inside the '
               'project interpreter. known_findings.txt lists repaired and recorded defects.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(m['not_applicable']), 'not applicable')
