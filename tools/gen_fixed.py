"""known_findings.json 'fixed' entries from the fix commits (development aid; run by hand)."""
import json, subprocess
PROP = {}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], text=True).splitlines()
d = json.load(open('/verif/known_findings.json'))
old = {f.split()[2]: f for f in d['fixed']}
import sys
m = dict(a.split('=') for a in sys.argv[1:])
for l in log:
    h, s = l.split('\t')
    if s.startswith('fix:') and h not in old:
        d['fixed'].append('fixed: property=%s %s %s' % (m.get(h, '?'), h, s[5:]))
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
print([f for f in d['fixed'] if '=?' in f])
