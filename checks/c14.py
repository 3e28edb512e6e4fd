"""C14: simultaneous calls from threads do not interfere."""
import hashlib
import os
import random
import subprocess
import sys
import threading
import time

import numpy as np

from checks import c13
from checks.c13 import child, pure, same, warmup  # noqa: F401
from vlib.util import captured

RULE = ('random sets of calls of all public routines, one per thread, alone '
        'in a process and then simultaneously in another one with nothing '
        'loaded, with random delays injected at source lines and very short '
        'switch intervals; also fresh interpreters where competing threads '
        'compile the kernels; distinct by observed order of thread switches')
REQUIRED = {'threaded': 200, 'switches': 8000, 'cold': 12}
ASSUMPTIONS = ['standard output is one stream per process: not judged here']
CASE_LIMIT = 400
MAKERS = [c for c in c13.CALLS if c.__name__ not in ('c_design', 'c_view')]


class Shaker:
    """Line tracer: delays at random and records which thread ran."""

    def __init__(self, seed, p):
        self.rnd, self.p, self.log = random.Random(seed), p, []
        self.left = 1500
        self.path = os.sep + 'empymod' + os.sep

    def __call__(self, frame, event, arg):
        return self.line if self.path in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        self.log.append(threading.get_ident())
        if self.left > 0 and self.rnd.random() < self.p:
            self.left -= 1
            time.sleep(self.rnd.choice((0, 1e-6, 2e-5, 3e-4)))
        return self.line

    def summary(self):
        ids, order = {}, []
        for i in self.log:
            k = ids.setdefault(i, len(ids))
            if not order or order[-1] != k:
                order.append(k)
        return len(order), hashlib.md5(bytes(order)).hexdigest()


def simultaneously(calls, seed, p=.05):
    out = [None]*len(calls)
    barrier = threading.Barrier(len(calls))
    shaker = Shaker(seed, p)

    def one(i):
        f, a, k = calls[i]
        barrier.wait()
        try:
            with np.errstate(all='ignore'):
                v = f(*a, **k)
            out[i] = ('ok', pure(v))
        except Exception as e:
            out[i] = ('err', f'{type(e).__name__}: {e}')

    old = sys.getswitchinterval()
    sys.setswitchinterval([1e-6, 1e-5, 1e-4][seed % 3])
    threading.settrace(shaker)
    try:
        ths = [threading.Thread(target=one, args=(i,))
               for i in range(len(calls))]
        with captured():
            for th in ths:
                th.start()
            for th in ths:
                th.join(120)
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    return out, shaker.summary(), [th.is_alive() for th in ths]


def warm_case(t):
    rng = t.rng
    n = int(rng.choice([2, 3, 6]))
    if rng.random() < .4:
        # Same routine in all threads, with different arguments.
        make = [MAKERS[int(rng.integers(len(MAKERS)))]]*n
    else:
        make = [MAKERS[int(i)] for i in rng.integers(0, len(MAKERS), n)]
    calls = [m(rng) for m in make]
    if rng.random() < .3:
        calls[1] = calls[0]   # Also the very same objects.
    t.case(calls=[(f.__name__, a, k) for f, a, k in calls])
    alone = child(lambda: [(lambda r: (r[0], pure(r[1])))(c13.run(*c))
                           for c in calls])
    for rep in range(2):
        got, (nsw, order), hang = child(
            lambda: simultaneously(calls, int(rng.integers(1 << 30)),
                                   [.02, .2][rep]))
        t.check(not any(hang), 'hang', 'thread did not end')
        for i, (want, have) in enumerate(zip(alone, got)):
            t.check(want[0] == have[0] and same(have[1], want[1]),
                    f'interference:{make[i].__name__}',
                    lambda: f'{calls[i][0].__name__} in thread {i}: alone '
                    f'{str(want)[:400]} simultaneous {str(have)[:400]}')
            t.count('threaded')
        t.count('switches', nsw)
        t.sig(order)


COLD = r'''
import sys, threading, pickle, os
import numpy as np
import empymod
from empymod.scripts import tmtemod
sys.setswitchinterval(1e-5)
seed = int(sys.argv[1])
rng = np.random.default_rng(seed)
m = dict(depth=[0., 100.], res=[2., 5., 1.])
src, rec = [0, 0, 10.], [[100., 200.], [10., 20.], 20.]
K = dict(verb=0)
H = dict(ht='dlf', htarg={'dlf': 'key_51_2012', 'pts_per_dec': 0})
pool = [
    lambda: empymod.dipole(src, rec, freqtime=1., xdirect=False, **m, **H, **K),
    lambda: empymod.dipole(src, rec, freqtime=[1., 2], ab=45, xdirect=False,
                           epermH=[1, 2, 3], **m, **H, **K),
    lambda: empymod.bipole([*src, 10, 20], [*rec, 30, 40], freqtime=[.1, .2],
                           signal=0, ft='dlf', **m, **H, **K),
    lambda: empymod.dipole(src, rec, freqtime=3., ab=36, **m, **H, **K),
    lambda: empymod.dipole(src, rec, freqtime=1., ab=14, ht='qwe',
                           xdirect=False, **m, **K),
    lambda: empymod.dipole_k(src, rec, freq=1., wavenumber=np.array([.1, .2]),
                             **m, **K)[0],
    lambda: empymod.analytical(src, rec, 3., [1., 2.], **K),
    lambda: np.array(tmtemod.dipole(src, rec, freqtime=1., **m, **K)),
]
pick = [pool[i] for i in rng.permutation(len(pool))[:6]]
pick += [pick[0]]
out = [None]*len(pick)
bar = threading.Barrier(len(pick))
def one(i):
    bar.wait()
    try:
        out[i] = np.array(pick[i]())
    except BaseException as e:
        out[i] = repr(e)
ths = [threading.Thread(target=one, args=(i,)) for i in range(len(pick))]
[x.start() for x in ths]
[x.join() for x in ths]
want = [np.array(f()) for f in pick]
bad = []
for i, (a, b) in enumerate(zip(out, want)):
    if isinstance(a, str) or a is None or a.shape != b.shape or not np.allclose(
            a, b, rtol=1e-12, atol=0, equal_nan=True):
        bad.append((i, str(a)[:200], str(b)[:200]))
print('COLD', len(pick), bad)
sys.exit(3 if bad else 0)
'''


def cold_case(t):
    """First call of everything, by competing threads."""
    seed = int(t.rng.integers(1 << 30))
    t.case(seed=seed)
    d = os.path.join(os.environ['VWORK'], f'cold{seed}')
    os.makedirs(d)
    env = {**os.environ, 'NUMBA_CACHE_DIR': d}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', COLD,
                        str(seed)], env=env, capture_output=True, text=True,
                       timeout=380)
    t.check(p.returncode == 0 and 'COLD' in p.stdout, 'cold',
            p.stdout[-1000:] + p.stderr[-1500:])
    t.count('cold', int(p.stdout.split()[1]))
    t.sig('cold', seed)


CASES = [("cold", cold_case, 3, 40), ("warm", warm_case, 45, 2500)]
