"""Scripted answers of the numeric SDP backends: each call of a backend's solve is answered by the next letter of a script."""
import contextlib
import numpy as np

ANSWERS = ['good', 'noise-9', 'noise-6', 'noise-3', 'noise-1', 'zero', 'neg', 'scale', 'none', 'empty', 'raise', 'nan', 'inf', 'huge', 'short', 'ones', 'round', 'col', 'int']


def alter(k, y, n):
    """the answer k given the real one y (or None) of a problem of n unknowns"""
    if k == 'none':
        return None
    if k == 'empty':
        return np.array([])
    if k == 'raise':
        raise RuntimeError('scripted backend failure')
    base = np.array(y, dtype=float).flatten() if y is not None and np.size(y) == n else np.zeros(n)
    idx = np.arange(n)
    if k == 'good':
        return y
    if k.startswith('noise'):
        return base + 10.0 ** -int(k[6:]) * np.cos(idx * 1.7 + 0.3)
    if k == 'zero':
        return np.zeros(n)
    if k == 'neg':
        return -base
    if k == 'scale':
        return base * 1.5
    if k == 'nan':
        r = base.copy()
        r[:1] = np.nan
        return r
    if k == 'inf':
        r = base.copy()
        r[-1:] = np.inf
        return r
    if k == 'huge':
        return base * 1e17 + 1e17
    if k == 'short':
        return base[:-1]
    if k == 'ones':
        return np.ones(n)
    if k == 'round':
        return np.round(base, 1)
    if k == 'col':
        return base.reshape(-1, 1)
    if k == 'int':
        return np.round(base)
    raise KeyError(k)


def classes():
    import triples.sdp.backend.backend as B

    def subs(c):
        out = []
        for s in c.__subclasses__():
            out += [s] + subs(s)
        return out
    import triples.sdp.backend  # noqa: F401 (loads every backend)
    return [c for c in subs(B.SDPBackend) if 'solve' in vars(c) and not getattr(vars(c)['solve'], '__isabstractmethod__', False)]


@contextlib.contextmanager
def scripted(script, log):
    """answers follow the script; its last letter repeats for ever. A problem without unknowns has nothing to answer."""
    saved = []
    for c in classes():
        real = vars(c)['solve']
        saved.append((c, real))

        def fake(self, *a, _real=real, **k):
            n = self.dof
            if n == 0:
                return _real(self, *a, **k)
            letter = script[min(len(log), len(script) - 1)]
            log.append(letter)
            y = None
            if letter not in ('none', 'empty', 'raise', 'zero', 'ones'):
                try:
                    y = _real(self, *a, **k)
                except Exception:
                    if letter == 'good':
                        raise
            return alter(letter, y, n)
        c.solve = fake
    try:
        yield
    finally:
        for c, real in saved:
            c.solve = real
