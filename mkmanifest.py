#!/usr/bin/env python3
"""MANIFEST.json from the check modules (TECHNIQUE, LEVEL_NOTE) and not-applicable.json."""
import ast, glob, json, os
R = os.path.dirname(os.path.abspath(__file__))
checks = []
for p in sorted(glob.glob(R + '/checks/P*.py')):
    pid = os.path.basename(p)[:-3]
    v = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=pid, quick_cmd='./run.py ' + pid, thorough_cmd='./run.py %s --thorough' % pid,
                       technique=v['TECHNIQUE'], level='other', level_note=v['LEVEL_NOTE']))
na = json.load(open(R + '/not-applicable.json'))
json.dump(dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na,
               notes='Every check parses and type-checks the current /repo sources with a libTooling extractor and decides from '
                     'that representation; no code of the library is executed.'),
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
