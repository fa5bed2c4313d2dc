#!/usr/bin/env python3
"""Keeps planted bugs: python3 tools/plant.py FILE [ID...]

FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
Each is tried in a scratch copy of /repo (builds, passes the stable tests, demo passes without and fails with the
change) and written to seeded/<id>/ only when all of that holds.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def main():
    mod = runpy.run_path(sys.argv[1])
    for b in mod['BUGS']:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            repo = os.path.join(tmp, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', repo])
            d = os.path.join(tmp, 'demo')
            os.mkdir(d)
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write(DEMO_SH)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(b['demo'].lstrip('\n'))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            clean = sh(['bash', os.path.join(d, 'demo.sh')], repo)
            if clean.returncode:
                print(b['id'], 'DEMO FAILS ON CLEAN', clean.stdout[-800:], clean.stderr[-1500:])
                continue
            for file, old, new in b['edits']:
                p = os.path.join(repo, file)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], file, old, s.count(old))
                with open(p, 'w') as f:
                    f.write(s.replace(old, new))
            diff = sh(['git', 'diff'], repo).stdout
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
            t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                    '--hypothesis-profile=ci', '-o', 'python_files=test_*.py *_test.py hyp_*.py', 'tests'], repo, env=env)
            if t.returncode:
                print(b['id'], 'TESTS FAIL', t.stdout[-1500:])
                continue
            bad = sh(['bash', os.path.join(d, 'demo.sh')], repo)
            if not bad.returncode:
                print(b['id'], 'DEMO PASSES WITH THE BUG')
                continue
            out = os.path.join(VERIF, 'seeded', b['id'])
            os.makedirs(out, exist_ok=True)
            for n in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(d, n), os.path.join(out, n))
            with open(os.path.join(out, 'patch.diff'), 'w') as f:
                f.write(diff)
            with open(os.path.join(out, 'meta.json'), 'w') as f:
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
                f.write('\n')
            print(b['id'], 'kept;', (bad.stderr.strip().splitlines() or ['?'])[-1][:150])
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
