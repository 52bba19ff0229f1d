#!/opt/venv/bin/python
"""Fill the generated parts of DESIGN.md: case counts of the sub-checks and the table of planted bugs."""
import glob
import importlib
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import pbt.core                 # noqa: E402
pbt.core.import_repo()


def subs():
    out = ['| property | sub-check | base cases | what is generated |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'checks', 'c[0-9][0-9].py'))):
        p = importlib.import_module('checks.' + os.path.basename(f)[:-3]).PROP
        for s in p.subs.values():
            out.append('| %s | %s | %d | %s |' % (p.id, s.name, s.quick, s.rule.replace('|', '/')))
    return '\n'.join(out)


def seeded():
    out = ['| bug | property | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
    return '\n'.join(out)


path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
for name, table in (('subs', subs()), ('seeded', seeded())):
    text, n = re.subn(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + table + '\n' + m.group(2), text, flags=re.S)
    assert n == 1, name
open(path, 'w').write(text)
