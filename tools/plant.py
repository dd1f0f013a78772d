#!/usr/bin/env python3
"""plant.py SPEC.py...   validate planted bugs in a scratch copy and store them.

A spec file defines BUGS: list of dicts with id, property, needs, what_it_breaks,
edits [(file, old, new)], demo (python text), files (names from demo_common)."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = os.path.join(ROOT, 'tools', 'demo_common')
SCRATCH = '/tmp/plant_scratch'
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def tests(cwd):
    stable = ['glmtools/test/' + t for t in ()]
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider glmtools/test 2>&1 | tail -15', cwd)
    return r.stdout


def main():
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        for b in ns['BUGS']:
            shutil.rmtree(SCRATCH, ignore_errors=True)
            sh('cp -a /repo %s' % SCRATCH)
            d = os.path.join(ROOT, 'seeded', b['id'])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(b['demo'].lstrip())
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write(SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            for x in b.get('files', ()):
                s = os.path.join(COMMON, x)
                if os.path.isdir(s):
                    shutil.copytree(s, os.path.join(d, x))
                else:
                    shutil.copy(s, d)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what_it_breaks']),
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            base = tests(SCRATCH).strip().splitlines()[-1]
            r0 = sh('bash %s/demo.sh' % d, SCRATCH)
            ok = True
            for fn, old, new in b['edits']:
                p = os.path.join(SCRATCH, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT TEXT COUNT', s.count(old), repr(old)[:80])
                    ok = False
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', SCRATCH).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            after = tests(SCRATCH).strip().splitlines()[-1]
            r1 = sh('bash %s/demo.sh' % d, SCRATCH)
            same = base.split(' in ')[0] == after.split(' in ')[0]
            good = ok and r0.returncode == 0 and r1.returncode != 0 and same
            print(b['id'], b['property'], 'OK' if good else 'BAD', 'demo', r0.returncode, r1.returncode,
                  '|', base.split(' in ')[0], '|', after.split(' in ')[0])
            if not good:
                print(r0.stdout[-800:], r0.stderr[-1500:])
                print('--- patched:', r1.stdout[-300:], r1.stderr[-800:])
            shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == '__main__':
    main()
