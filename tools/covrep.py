"""usage: covrep.py DIR [path filter] [-l]: lines of the package never executed by the recorded runs"""
import sys, json, glob, os, ast
d, flt = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else '')
cov = {}
for f in glob.glob(os.path.join(d, '**/*.json'), recursive=True):
    for fn, ln in json.load(open(f)):
        cov.setdefault(fn, set()).add(ln)
def code_lines(path):
    src = open(path, encoding='utf-8').read()
    out = set()
    def walk(co):
        out.update(l for _, _, l in co.co_lines() if l)
        for c in co.co_consts:
            if hasattr(c, 'co_code'): walk(c)
    top = compile(src, path, 'exec')
    for c in top.co_consts:
        if hasattr(c, 'co_code'): walk(c)
    # executed lines in functions only
    return out, src.split('\n')
for root, _, fs in sorted(os.walk('/repo')):
    if 'tests' in root: continue
    for f in sorted(fs):
        p = os.path.join(root, f)
        if not f.endswith('.py') or flt not in p: continue
        lines, src = code_lines(p)
        # drop def lines / docstrings
        miss = sorted(l for l in lines if l not in cov.get(p, ()) and not src[l-1].strip().startswith(('def ', 'class ', '@', '"""')))
        if not lines: continue
        print('%-60s %4d/%4d missed' % (p[6:], len(miss), len(lines)))
        if '-l' in sys.argv:
            rng = []
            for l in miss:
                if rng and l - rng[-1][1] <= 2: rng[-1][1] = l
                else: rng.append([l, l])
            for a, b in rng:
                print('    %d-%d: %s' % (a, b, src[a-1].strip()[:110]))
