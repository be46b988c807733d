"""One-off: collect the polynomials quoted in comments and docstrings of the package into data/corpus.json.
(The frozen file is what the checks read.)"""
import re, sys, json, os
sys.path.insert(0, '/verif')
import sympy as sp
from mc.shorthand import parse, Bad
import signal
class TO(Exception): pass
def al(*a): raise TO()
signal.signal(signal.SIGALRM, al)
out = {}
def scan(text):
    # maximal runs of shorthand characters containing s( or p( or (
    for m in re.finditer(r"[0-9a-zA-Z()+\-*/^. ]*[sp]\([0-9a-zA-Z()+\-*/^. ]*", text):
        t = m.group(0).strip()
        yield t
        # also drop leading words
        mm = re.search(r"(?<![a-zA-Z])(\d*[sp(].*)$", t)
        if mm: yield mm.group(1).strip()
for root, _, fs in os.walk('/repo/triples'):
    for f in sorted(fs):
        if not f.endswith('.py'): continue
        path = os.path.join(root, f)
        for line in open(path, encoding='utf-8'):
            if 's(' not in line and 'p(' not in line: continue
            line = re.split(r'>=|>|<=|=', line)
            for piece in line:
                for t in scan(piece):
                    t = t.split('  ')[0].strip()
                    while t.count(')') > t.count('(') and t.endswith(')'): t = t[:-1]
                    t = t.rstrip('+-*/ .,')
                    if len(t) < 6: continue
                    for gens in (('abc', 'abcd') if re.search(r'(?<![a-z])d|d(?![a-z])|abcd', t) else ('abc',)):
                        key = gens + ':' + t.replace(' ', '')
                        if key in out: continue
                        try:
                            signal.alarm(20)
                            e = parse(t, gens)
                            p = sp.Poly(sp.expand(e), *[sp.Symbol(g) for g in gens])
                            signal.alarm(0)
                        except (Bad, TO, Exception) as ex:
                            signal.alarm(0)
                            continue
                        if p.is_zero or not p.is_homogeneous or p.free_symbols_in_domain: continue
                        if p.total_degree() > 12 or p.total_degree() < 2: continue
                        if p.domain.is_EX: continue
                        out[key] = dict(text=t.replace(' ', ''), gens=gens, deg=int(p.total_degree()), dom=str(p.domain), src=os.path.relpath(path, '/repo/triples'))
# dedupe by polynomial up to sign/scale
items = []
seen = set()
for k, v in out.items():
    p = sp.Poly(sp.expand(parse(v['text'], v['gens'])), *[sp.Symbol(g) for g in v['gens']])
    key = (v['gens'], str(p.as_expr()))
    if key in seen: continue
    seen.add(key)
    items.append(v)
items.sort(key=lambda v: (len(v['gens']), v['deg'], len(v['text']), v['text']))
json.dump(items, open('/verif/data/corpus.json', 'w'), indent=0)
print(len(items))
import collections
print(collections.Counter((v['gens'], v['deg']) for v in items))
