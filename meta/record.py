# meta/record.py <bug> <rc> <output>: notes in caught.json whether the check caught the bug.
import json, os, re, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
c = json.load(open(f)) if os.path.exists(f) else {}
m = re.search(r'VIOLATION property=\S+ replay=\S*/([^/\s]+?)-\d+\.json', open(sys.argv[3]).read())
c[sys.argv[1]] = 'yes (`%s`)' % m.group(1) if sys.argv[2] == '1' and m else 'no'
json.dump(c, open(f, 'w'), indent=0, sort_keys=True)
