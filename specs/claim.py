import json, sys, os, subprocess
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, 'claimed.json')
c = json.load(open(p))
c[sys.argv[1]] = sys.argv[2]
json.dump(dict(sorted(c.items())), open(p, 'w'), indent=1)
subprocess.check_call([sys.executable, os.path.join(d, 'mkmanifest.py')])
