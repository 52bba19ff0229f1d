#!/usr/bin/python3
"""plant.py SPEC.py : SPEC defines BUGS = [dict(id, prop, file, old, new, demo, needs, breaks)].
For each: apply to /repo, confirm the demo passes before and fails after, the stable tests
pass with it, run the property's quick check, write /verif/seeded/<id>, undo."""
import json
import os
import subprocess
import sys

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300).returncode


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write('import sys\nsys.path.insert(0, "/repo")\nimport numpy as np\n' + b['demo'])
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
    p0 = demo(d)
    try:
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for file, old, new in edits:
            s = open('/repo/' + file).read()
            assert s.count(old) == 1, (b['id'], file, s.count(old))
            open('/repo/' + file, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        p1 = demo(d)
        sh('bash /opt/vp/test.sh /tmp/w/plant.json')
        o = json.load(open('/tmp/w/plant.json'))
        missing = sorted(STABLE - set(o['passed']))
        r = sh('bash run.sh ' + b['prop'] if not os.environ.get('PLANT_NOCHECK') else 'echo VIOLATION not run', cwd='/verif')
        caught = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    finally:
        sh('git -C /repo checkout -- .')
    ok = p0 == 0 and p1 != 0 and not missing
    print('%-28s demo %s/%s tests-broken %s  %s  check rc=%s %s' % (
        b['id'], p0, p1, missing[:3], 'COUNTS' if ok else 'INVALID', r.returncode, caught[:1] or 'MISSED'), flush=True)
