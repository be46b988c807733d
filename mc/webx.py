"""Controlled execution of the web service: the real Flask/Socket.IO application, every request and background task in a thread
of its own, at most one running at a time, switching only where a schedule says. Scheduling points: every line (or every function entry
and exit) of the web server and of triples.gui (sys.monitoring events), and every blocking hand-over."""
import gc
import io
import json
import os
import sys
import threading
import types
import contextlib

REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = 3


class Thread:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.sem = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.blocked = False
        self.points = 0


class Sched:
    """runs threads under the deviations {point index: thread name}; points -> self.trace [(running, enabled, is_end)]"""

    def __init__(self, deviations, step_timeout=2.0, patience=40.0, grain='line'):
        self.grain = grain
        self.patience, self.waited = patience, 0.0
        self.dev = dict(deviations)
        self.trace = []
        self.threads = []
        self.by_id = {}
        self.lock = threading.Lock()
        self.wake = threading.Event()
        self.current = None
        self.timeout = step_timeout
        self.stuck = False

    def add(self, fn, name):
        t = Thread(fn, name)

        def body():
            t.sem.acquire()
            self.by_id[threading.get_ident()] = t
            try:
                t.fn()
            except BaseException as e:      # noqa: B902 - whatever the task dies of is an observation
                t.error = e
            finally:
                with self.lock:
                    self.by_id.pop(threading.get_ident(), None)
                    t.done = True
                    if self.current is t or self.current is None:
                        self.current = None
                        self._pick(None)
                    self.wake.set()
        t.thread = threading.Thread(target=body, daemon=True)
        self.threads.append(t)
        t.thread.start()
        return t

    def _pick(self, me):
        """a decision: who runs on; self.lock is held"""
        enabled = [t for t in self.threads if not t.done and not t.blocked]
        if not enabled:
            self.wake.set()
            return None
        idx = len(self.trace)
        default = me if me is not None else enabled[0]
        want = self.dev.get(idx)
        pick = next((t for t in enabled if t.name == want), default) if want is not None else default
        self.trace.append((me.name if me else None, [t.name for t in enabled], default.name, pick.name))
        self.current = pick
        if pick is not me:
            pick.sem.release()
        self.wake.set()
        return pick

    def point(self):
        me = self.by_id.get(threading.get_ident())
        if me is None:
            return
        with self.lock:
            me.points += 1
            if self.current is not me:      # it was blocked in the code and has come back
                me.blocked = False
                wait = True
                if self.current is None:
                    self.current = me
                    wait = False
            else:
                wait = self._pick(me) is not me
        if wait:
            me.sem.acquire()

    def run(self):
        with self.lock:
            self._pick(None)
        while True:
            self.wake.wait(self.timeout)
            with self.lock:
                live = [t for t in self.threads if not t.done]
                if not live:
                    return
                if not self.wake.is_set():
                    # the running thread waits for something: let another one go on
                    cur = self.current
                    if cur is not None and not cur.done:
                        cur.blocked = True
                    if all(t.blocked for t in live):
                        self.waited += self.timeout
                        if self.waited >= self.patience:
                            self.stuck = True
                            return
                    self.current = None
                    self._pick(None)
                self.wake.clear()


SCHED = None
APP = None


def codes(code, files, seen):
    if code.co_filename in files and code not in seen:
        seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            codes(c, files, seen)


def application():
    """import the service once per process and arm the line events"""
    global APP
    if APP is None:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        with contextlib.redirect_stdout(io.StringIO()):
            import web_main
        mods = [web_main] + [m for n, m in sys.modules.items() if n.startswith('triples.gui') and m is not None]
        files = {m.__file__ for m in mods if getattr(m, '__file__', None)}
        seen = set()
        for f in gc.get_objects():
            if type(f) is types.FunctionType and f.__code__.co_filename in files:
                codes(f.__code__, files, seen)
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'webx')
        mon.register_callback(TOOL, mon.events.LINE, lambda code, line: SCHED.point() if SCHED is not None and SCHED.grain == 'line' else None)
        mon.register_callback(TOOL, mon.events.PY_START, lambda code, off: SCHED.point() if SCHED is not None and SCHED.grain == 'call' else None)
        mon.register_callback(TOOL, mon.events.PY_RETURN, lambda code, off, val: SCHED.point() if SCHED is not None and SCHED.grain == 'call' else None)
        for c in seen:
            if isinstance(c, types.CodeType):
                mon.set_local_events(TOOL, c, mon.events.LINE | mon.events.PY_START | mon.events.PY_RETURN)
        APP = types.SimpleNamespace(main=web_main, modules=mods, files=files, lines=len(seen))
    return APP


def replace_everywhere(app, old, new, undo):
    """every reference to a function of the core in the service's namespaces"""
    for m in app.modules:
        for k, v in list(vars(m).items()):
            if v is old:
                undo.append((m, k, v))
                setattr(m, k, new)


class Service:
    """two connected clients of the real application with scripted core stages"""

    def __init__(self, app, stages, clients=2):
        self.app, self.W = app, app.main
        self.undo = []
        for old, new in stages:
            replace_everywhere(app, old, new, self.undo)
        io_ = self.W.socketio
        self.undo.append((io_, 'start_background_task', None))
        io_.start_background_task = self.spawn
        self.out = io.StringIO()
        with contextlib.redirect_stdout(self.out):
            self.clients = [io_.test_client(self.W.app) for _ in range(clients)]
        self.sids = [io_.server.manager.sid_from_eio_sid(c.eio_sid, '/') for c in self.clients]
        self.answers = {}
        self.spawned = 0

    def spawn(self, target, *args, **kwargs):
        self.spawned += 1
        me = SCHED.by_id.get(threading.get_ident())
        return SCHED.add(lambda: target(*args, **kwargs), '%s.bg%d' % (me.name if me else 'main', self.spawned))

    def post(self, key, url, body):
        r = self.W.app.test_client().post(url, data=json.dumps(body), content_type='application/json')
        self.answers[key] = (r.status_code, r.get_json(silent=True))

    def run(self, jobs, deviations, grain='line'):
        """jobs: [(name, function)]; returns the scheduler"""
        global SCHED
        SCHED = s = Sched(deviations, grain=grain)
        try:
            with contextlib.redirect_stdout(self.out):
                for n, f in jobs:
                    s.add(f, n)
                s.run()
        finally:
            SCHED = None
        return s

    def received(self, i):
        c = self.clients[i]
        if not c.is_connected():
            return []
        return [(e['name'], e['args'][0] if e['args'] else None) for e in c.get_received()]

    def close(self):
        with contextlib.redirect_stdout(self.out):
            for c in self.clients:
                if c.is_connected():
                    c.disconnect()
                type(c).clients.pop(c.eio_sid, None) if isinstance(getattr(type(c), 'clients', None), dict) else None
        for o, k, v in reversed(self.undo):
            if v is None:
                delattr(o, k)
            else:
                setattr(o, k, v)

