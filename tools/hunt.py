#!/usr/bin/env python3
"""Runs the checks against the planted bugs: python3 tools/hunt.py [ID...]; in copies of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    for i in ids:
        d = os.path.join(VERIF, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        tmp = tempfile.mkdtemp(prefix='hunt-')
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
        try:
            t = time.time()
            r = subprocess.run(['python3-vt', 'run.py', meta['property']], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo))
            hit = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            print(i, meta['property'], 'CAUGHT' if r.returncode == 1 and hit else 'MISSED rc=%d' % r.returncode,
                  '%.0fs' % (time.time() - t), flush=True)
            f = os.path.join(VERIF, 'tools', 'hunt.json')
            res = json.load(open(f)) if os.path.exists(f) else {}
            res[i] = 'yes, by ' + meta['property'] if r.returncode == 1 and hit else 'no'
            with open(f, 'w') as h:
                json.dump(res, h, indent=0, sort_keys=True)
            if r.returncode != 1:
                print(r.stdout[-800:])
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
