"""Records fix commits: python3 tools/addfix.py PROP COMMIT 'what failed' ..."""
import json, os, sys
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
d = json.load(open(p))
items = d if isinstance(d, list) else d['findings']
for prop, commit, what in zip(sys.argv[1::3], sys.argv[2::3], sys.argv[3::3]):
    items.append({'property': prop, 'finding': commit, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (prop, commit, what), 'where': 'commit ' + commit})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
