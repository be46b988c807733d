"""Bounded-exhaustive exploration runner shared by every check.

A property module declares *families*.  A family is a finite, deterministically ordered
space of cases (inputs, operation sequences, fault sequences, schedules) and a function that
executes ONE case on the real implementation and compares it with a reference model.
Families are enumerated completely, simplest case first; if the wall budget ends first, the run
says so in its evidence (`capped`) and reports how much was covered.
"""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class CaseTimeout(BaseException):
    """Raised by the per-case alarm (BaseException: bare `except Exception` must not eat it)."""


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Ctx:
    """What one case did: counted steps, canonical states, outcome class, failures."""

    def __init__(self):
        self.steps = 0
        self.validated = 0
        self.states = set()
        self.out = None
        self.is_trivial = False
        self.fails = []

    def step(self, n=1):
        """n calls into the implementation."""
        self.steps += n

    def state(self, obj):
        """A canonical state/observation reached; deduplicated over the whole run."""
        self.states.add(h64(obj))

    def valid(self, n=1):
        """n observations compared with the reference model."""
        self.validated += n

    def outcome(self, label):
        self.out = str(label)

    def trivial(self):
        self.is_trivial = True

    def fail(self, msg, key=None):
        self.fails.append((str(msg)[:2000], key))

    def require(self, cond, msg, key=None):
        self.validated += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return bool(cond)

    def equal(self, got, want, msg, key=None):
        self.validated += 1
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            self.fail('%s: got %s, expected %s' % (msg, _short(got), _short(want)), key)
        return ok


def _short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


class Family:
    """name: identifier; cases: iterable (or callable tier->iterable) of JSON-able cases;
    fn(ctx, case); timeout: seconds per case (a case that times out is reported as uncovered,
    never as a violation); chunk: cases per work unit."""

    def __init__(self, name, cases, fn, timeout=60, chunk=8, bound='', share=1.0):
        self.name, self.cases, self.fn = name, cases, fn
        self.timeout, self.chunk, self.bound, self.share = timeout, chunk, bound, share


_FAMS = {}
_HANG = [False]   # whether a case that never ends is reported (families whose cases take a second at most)


_FIRED = [False]


def _alarm(signum, frame):
    # re-armed every 2 s: code under test with a bare `except:` cannot swallow the timeout for good
    _FIRED[0] = True
    raise CaseTimeout()


def run_case(fam, case, timeout=None):
    ctx = Ctx()
    timed_out = False
    signal.signal(signal.SIGALRM, _alarm)
    _FIRED[0] = False
    try:
        signal.setitimer(signal.ITIMER_REAL, timeout or fam.timeout, 2.0)
        try:
            fam.fn(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        timed_out = True
    except Violation as v:
        ctx.fail(str(v), v.key)
    except MemoryError:
        timed_out = True
    except Exception:
        tb = traceback.format_exc()
        if 'CaseTimeout' in tb:
            timed_out = True
        else:
            ctx.fail('unexpected exception: ' + tb[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    timed_out = timed_out or _FIRED[0]
    if timed_out:
        # a timed out case says nothing, whatever it had seen so far
        ctx.fails = []
    return ctx, timed_out


def _work(arg):
    name, idx0, cases, deadline = arg
    fam = _FAMS[name]
    res = dict(name=name, n=0, steps=0, validated=0, trivial=0, timeouts=[], skipped=0,
               states=set(), outs={}, fails=[], distinct=set(), slow=(0, None))
    for k, case in enumerate(cases):
        if time.time() > deadline:
            res['skipped'] += len(cases) - k
            break
        t0 = time.time()
        ctx, to = run_case(fam, case)
        if to and _HANG[0] and _FIRED[0]:
            # ordinary cases take about a second: give it several times the limit before saying it never ends
            limit = max(120, 2 * fam.timeout)
            ctx, to = run_case(fam, case, timeout=limit)
            if to and _FIRED[0]:
                res['n'] += 1
                res['skipped'] += len(cases) - k - 1
                res['fails'].append((idx0 + k, case, 'no answer within %d s' % limit, None))
                break
        dt = time.time() - t0
        if dt > res['slow'][0]:
            res['slow'] = (dt, _short(case, 160))
        if to:
            res['timeouts'].append(_short(case, 160))
            continue
        res['n'] += 1
        res['steps'] += ctx.steps
        res['validated'] += ctx.validated
        res['states'] |= ctx.states
        if ctx.is_trivial:
            res['trivial'] += 1
        else:
            res['distinct'].add(h64(case))
        o = ctx.out or 'ok'
        res['outs'][o] = res['outs'].get(o, 0) + 1
        for msg, key in ctx.fails[:5]:
            res['fails'].append((idx0 + k, case, msg, key))
    if os.environ.get('VERIF_COV'):
        _cov_dump()
    return res


_COVERED = set()


def _cov_start():
    """development aid (VERIF_COV=DIR): record which lines of the package the cases execute"""
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'verif')

    def line(code, ln):
        if code.co_filename.startswith(REPO):
            _COVERED.add((code.co_filename, ln))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _cov_dump():
    d = os.environ['VERIF_COV']
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%d.json' % os.getpid()), 'w') as fh:
        json.dump(sorted(_COVERED), fh)


def _silence():
    """Workers print nothing (the code under test prints progress)."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if os.environ.get('VERIF_COV'):
        _cov_start()


def chunks(it, n):
    it = iter(it)
    idx = 0
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield idx, c
        idx += len(c)


def case_key(fam, case, key=None):
    if key is not None:
        return '%s:%s' % (fam, key)
    return '%s:%s' % (fam, json.dumps(case, sort_keys=True, default=str))


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {f['key']: f for f in data.get('findings', []) if f['property'] == prop}


def main(prop, title, families, tier, budget, level='model_checking', rule='', assumptions=(), hang=False):
    _HANG[0] = hang and tier == 'quick'
    t0 = time.time()
    deadline = t0 + budget
    for f in families:
        _FAMS[f.name] = f
    known = load_known(prop)
    total = dict(n=0, steps=0, validated=0, trivial=0)
    states, distinct, outs = set(), set(), {}
    fam_report, fails, samples = {}, [], []
    sys.stdout.flush()
    sys.stderr.flush()
    ctxm = mp.get_context('fork')
    # one pool, every family's units interleaved by declared share would complicate reading;
    # families run in order, each with its own slice of the wall budget
    weight = sum(f.share for f in families)
    pool = ctxm.Pool(NPROC, initializer=_silence, maxtasksperchild=None)
    capped = False
    try:
        for f in families:
            left = deadline - time.time()
            fam_deadline = time.time() + max(1.0, left * f.share / weight)
            weight -= f.share
            cs = f.cases(tier) if callable(f.cases) else f.cases
            cs = list(cs)
            rep = dict(cases=len(cs), explored=0, timeouts=0, skipped=0, bound=f.bound)
            fam_t0 = time.time()
            units = [(f.name, i, c, fam_deadline) for i, c in chunks(cs, f.chunk)]
            slow = (0, None)
            ffails = 0
            for r in pool.imap_unordered(_work, units):
                rep['explored'] += r['n']
                rep['timeouts'] += len(r['timeouts'])
                rep['skipped'] += r['skipped']
                if r['timeouts']:
                    rep.setdefault('timeout_samples', []).extend(r['timeouts'][:2])
                    rep['timeout_samples'] = rep['timeout_samples'][:4]
                for k in total:
                    total[k] += r[k]
                states |= r['states']
                distinct |= {(f.name, d) for d in r['distinct']}
                for o, c in r['outs'].items():
                    outs[f.name + ':' + o] = outs.get(f.name + ':' + o, 0) + c
                for idx, case, msg, key in r['fails']:
                    fails.append((f.name, idx, case, msg, key))
                    ffails += 1
                slow = max(slow, r['slow'], key=lambda x: x[0])
                if sum(case_key(n_, c_, k_) not in known for n_, _, c_, _, k_ in fails) > 400 or any(m_.startswith('no answer within') for _, _, _, m_, _ in fails):
                    break
            rep['wall_s'] = round(time.time() - fam_t0, 2)
            rep['slowest'] = [round(slow[0], 2), slow[1]]
            rep['failures'] = ffails
            if rep['explored'] < rep['cases']:
                capped = True
            fam_report[f.name] = rep
            if cs:
                samples.append({'family': f.name, 'case': _short(cs[len(cs) // 2], 300)})
            print('[%s] %-28s cases=%d explored=%d timeouts=%d skipped=%d fails=%d %.1fs slow=%.1fs %s' % (
                prop, f.name, rep['cases'], rep['explored'], rep['timeouts'], rep['skipped'], ffails,
                rep['wall_s'], slow[0], slow[1] if slow[0] > 5 else ''))
            sys.stdout.flush()
            if sum(case_key(n_, c_, k_) not in known for n_, _, c_, _, k_ in fails) > 400 or any(m_.startswith('no answer within') for _, _, _, m_, _ in fails):
                break
    finally:
        pool.terminate()
        pool.join()

    order = {f.name: i for i, f in enumerate(families)}
    fails.sort(key=lambda x: (order[x[0]], x[1]))
    new, hit = [], {}
    for name, idx, case, msg, key in fails:
        k = case_key(name, case, key)
        if k in known:
            hit[k] = msg
        else:
            new.append((name, idx, case, msg, key, k))
    for k in hit:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[k].get('what', k), k))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            states=len(states), transitions=total['steps'],
            traces_validated_against_impl=total['validated'],
            evaluations=total['n'], distinct_nontrivial=len(distinct),
            rule=rule or 'cases are enumerated in full from the declared alphabets, simplest first; a case is '
                         'non-trivial unless the harness marked it vacuous',
            samples=samples, families=fam_report, outcomes=outs,
            exhaustive=not capped, capped=capped,
            known_findings_seen=sorted(hit),
        ),
        assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('[%s] %s tier=%s: evaluations=%d distinct=%d states=%d transitions=%d validated=%d capped=%s wall=%.1fs' % (
        prop, title, tier, total['n'], len(distinct), len(states), total['steps'], total['validated'], capped,
        time.time() - t0))
    if total['n'] == 0:
        print('ERROR: nothing was explored')
        return 2
    if new:
        rdir = os.path.join(VERIF, 'replays', prop)
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, (name, idx, case, msg, key, k) in enumerate(new[:int(os.environ.get('VERIF_SHOW', '10'))]):
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(rdir, 'v%03d.json' % i)
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, family=name, case=case, message=msg, key=k,
                               replay='cd /verif && ./check.sh %s replay %s' % (prop, path)), fh, indent=1, default=str)
            print('--- %s %s\n%s' % (name, _short(case, 600), msg))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        print('%d violations (%d distinct shown)' % (len(new), len(seen)))
        return 1
    return 0


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    return x


def replay(families, path):
    data = json.load(open(path))
    fam = {f.name: f for f in families}[data['family']]
    case = tuplify(data['case'])
    ctx, to = run_case(fam, case, timeout=600)
    print('replay of %s %s: timeout=%s failures=%d' % (fam.name, _short(case), to, len(ctx.fails)))
    for msg, key in ctx.fails:
        print(msg)
    return 1 if ctx.fails else 0
