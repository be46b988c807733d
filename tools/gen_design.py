"""DESIGN.md: table of families and their bounds between the markers (development aid; run by hand)."""
import importlib, sys
sys.path[:0] = ['/repo', '/verif']
rows = []
count = lambda f, tier: sum(1 for _ in (f.cases(tier) if callable(f.cases) else f.cases))

import glob
for f in sorted(glob.glob('/verif/mc/props/c[0-9]*.py')):
    n = f.split('/')[-1][:-3]
    m = importlib.import_module('mc.props.' + n)
    q = {x.name: x for x in m.families('quick')}
    t = {x.name: x for x in m.families('thorough')}
    rows.append('\n**%s** (%s; budget %s s quick, %s s thorough)\n' % (n.upper(), m.TITLE, m.BUDGET['quick'], m.BUDGET['thorough']))
    for k in dict.fromkeys(list(q) + list(t)):
        rows.append('* `%s` %s quick / %s thorough: %s' % (k, count(q[k], 'quick') if k in q else '–', count(t[k], 'thorough') if k in t else '–', (q.get(k) or t[k]).bound))
s = open('/verif/DESIGN.md').read()
a, b = '<!-- families -->', '<!-- /families -->'
i, j = s.index(a) + len(a), s.index(b)
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join([''] + rows) + '\n' + s[j:])
