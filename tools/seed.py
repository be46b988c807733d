"""Development aid: turn a spec file into /verif/seeded/<id>/ after confirming it in a scratch copy.
usage: seed.py SPEC.py [...]   spec defines ID PROP EDITS=[(file, old, new), ...] DEMO (python text) NEEDS BREAKS
       seed.py check ID [PROP...]   run the quick checks against a scratch copy carrying the patch"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8
exec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d


def tests(repo):
    env = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    r = sh('/opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -p no:xdist --rootdir=%s triples' % repo, cwd=repo, env=env)
    mods = sh("grep -rl --include=*.py --exclude-dir=tests '>>>' triples", cwd=repo).stdout.split()
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', json.load(open('/opt/vp/BASELINE.json'))) if False else [])
    out = {'tests': r.returncode}
    ps = []
    for m in mods:
        ids = [l for l in sh('/opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -p no:xdist --rootdir=%s --collect-only --doctest-modules %s' % (repo, m), cwd=repo, env=env).stdout.split() if l.startswith(m + '::')]
        for i in ids:
            ps.append((i, subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--rootdir=' + repo, '--doctest-modules', i], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for i, p in ps:
        out[i] = p.wait()
    return out


def main():
    if sys.argv[1] == 'check':
        sid = sys.argv[2]
        meta = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))
        d = copy()
        try:
            subprocess.check_call(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, sid)], cwd=d + '/repo')
            for p in sys.argv[3:] or [meta['property']]:
                r = sh('./check.sh %s quick' % p, cwd=V, env=dict(os.environ, VERIF_REPO=d + '/repo'))
                vio = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                print(sid, p, 'CAUGHT' if r.returncode == 1 and vio else 'MISSED rc=%d' % r.returncode, r.stdout.splitlines()[-1][:150] if r.stdout else r.stderr[-300:])
        finally:
            shutil.rmtree(d)
        return
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        d = copy()
        try:
            repo = d + '/repo'
            for f, old, new in ns['EDITS']:
                s = open(repo + '/' + f).read()
                assert s.count(old) == 1, (ns['ID'], f, s.count(old), old)
                open(repo + '/' + f, 'w').write(s.replace(old, new))
            diff = sh('git diff', cwd=repo).stdout
            t = tests(repo)
            t0 = json.load(open('/tmp/base_tests.json')) if os.path.exists('/tmp/base_tests.json') else None
            if t0 is None:
                t0 = tests('/repo')
                json.dump(t0, open('/tmp/base_tests.json', 'w'))
            bad = [k for k in t0 if t0[k] == 0 and t.get(k) != 0]
            out = '%s/seeded/%s' % (V, ns['ID'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.sh', 'w').write(SH)
            open(out + '/demo.py', 'w').write(ns['DEMO'])
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            a = sh('bash %s/demo.sh' % out, cwd='/repo')
            b = sh('bash %s/demo.sh' % out, cwd=repo)
            ok = not bad and a.returncode == 0 and b.returncode != 0
            print(ns['ID'], 'OK' if ok else 'REJECTED', 'tests broken: %s' % bad, 'demo clean rc=%d patched rc=%d' % (a.returncode, b.returncode), (a.stderr[-300:] if a.returncode else ''), '|', b.stderr.strip().splitlines()[-1:] )
            if not ok:
                shutil.rmtree(out)
        finally:
            shutil.rmtree(d)


main()
