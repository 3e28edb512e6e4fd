"""C15: kernels stay in bounds and equal their Python source."""
import os
import subprocess
import sys

import numpy as np

from vlib import gen, pykernel
from vlib.util import contrast, warm_dipole

RULE = ('random valid input, all source/receiver layers and components: the '
        'kernels run by the interpreter with every index guarded and fresh '
        'memory poisoned, against the compiled ones; compiled kernels with '
        'bounds checking in an own process; distinct by layers, component, '
        'kernel')
REQUIRED = {'wavenumber': 900, 'greenfct': 200, 'fields': 200,
            'reflections': 200, 'index': 1000000, 'bounds': 300}
ASSUMPTIONS = ['index monitor: computed negative indices count as out of '
               'bounds, literal ones (x[-1]) as intended']
PY = None


def kernels():
    global PY
    import empymod
    if PY is None:
        PY = pykernel.load(empymod.kernel.__file__)
    return empymod.kernel, PY


def warmup(group):
    warm_dipole(group == 'lap')
    # The other kernels called directly.
    rng = np.random.default_rng(1)
    k, _ = kernels()
    a = inputs(rng, group == 'lap', nl=3)[0]
    k.greenfct(*a[:11], False, a[12], a[13])
    k.fields(*parts(k, a)[1])


def inputs(rng, lap=False, nl=None):
    """Valid arguments of kernel.wavenumber."""
    from empymod import utils
    big = rng.random() < .06
    m = gen.model(rng, nl=nl or (int(rng.integers(10, 40)) if big else
                                 int(rng.integers(1, 7))),
                  thick=(.01, 500) if rng.random() < .3 else (20, 400))
    v = utils.check_model(m['depth'], m['res'], m.get('aniso'),
                          m.get('epermH'), m.get('epermV'), m.get('mpermH'),
                          m.get('mpermV'), True, 0)
    f = gen.lu(rng, 1e-4, 1e6, int(rng.integers(1, 3)))
    f, eH, eV, zH, zV = utils.check_frequency(-f if lap else f, *v[1:-1], 0)
    ab, ms, mr = utils.check_ab(int(rng.choice(gen.ABS_NZ)), 0)
    depth = v[0]
    nlay = len(m['res'])
    zs, zr = (gen.zpoint(rng, m['depth'], on_if=.3, layer=[
        None, 0, nlay-1][int(rng.choice([0, 0, 1, 2]))]) for _ in range(2))
    ls, zs = utils.get_layer_nr([0., 0., np.array([zs])], depth)
    lr, zr = utils.get_layer_nr([0., 0., np.array([zr])], depth)
    lam = np.ascontiguousarray(gen.lu(rng, 1e-6, 10, (
        int(rng.integers(1, 3)), int(rng.integers(1, 4)))))
    xd = bool(rng.integers(2))
    return (zs, zr, ls, lr, depth, eH, eV, zH, zV, lam, ab, xd, ms, mr), m


def parts(k, a):
    """Arguments of reflections and fields, from those of wavenumber."""
    (zs, zr, ls, lr, depth, eH, eV, zH, zV, lam, ab, xd, ms, mr) = a
    e, v, z = (eH, eV, zH) if not mr else (zH, zV, eH)
    Gam = np.sqrt((e/v)[:, None, :, None]*lam[None, :, None, :]**2 +
                  (z*e)[:, None, :, None])
    R = k.reflections(depth, e, Gam, lr, ls)
    return (depth, e, Gam, lr, ls), (depth, *R, Gam, lr, ls, zs, ab, True)


def compare(t, got, want, name, noise):
    for i, (x, y) in enumerate(zip(got, want)):
        t.check((x is None) == (y is None), f'{name}-none', i)
        if x is None:
            continue
        x, y = np.asarray(x), np.asarray(y)
        t.check(x.shape == y.shape and x.dtype == y.dtype, f'{name}-shape',
                f'{x.shape} {y.shape} {x.dtype} {y.dtype}')
        t.check(np.all(np.isfinite(y)), f'{name}-poison',
                'not finite: uninitialised memory or overflow')
        t.close(x, y, f'{name}-differs', rtol=1, scale=noise[i], atol=1e-290,
                msg=f'output {i}')


def noise_of(fun, a, which, want, m):
    """Rounding of the values: how much they change if the material
    parameters (arguments `which`) change in the 13th digit."""
    rng = np.random.default_rng(1)
    # 1 - |R| is lost for the highest contrasts.
    base = 1e-9 + 1e-15*contrast(m)
    out = [None if w is None else base*np.abs(w) for w in want]
    for _ in range(3):
        b = list(a)
        for j in which:
            b[j] = a[j]*(1 + 1e-13*rng.uniform(-1, 1, a[j].shape))
        with np.errstate(all='ignore'):
            for i, v in enumerate(fun(*b)):
                if v is not None:
                    out[i] = np.maximum(out[i], 100*np.abs(v-want[i]))
    if fun.__name__ == 'wavenumber':
        # The two modes may cancel each other.
        with np.errstate(all='ignore'):
            both = sum(np.abs(g) for g in kernels()[1].greenfct(*a))
        ab, lam = a[10], a[9]
        pw = ((1, 0, 1) if ab in (11, 12, 21, 22, 14, 24, 15, 25) else
              (3, 3, 3) if ab == 33 else (2, 2, 2))
        out = [o if o is None else o + 1e-12*both*lam**n/4/np.pi
               for o, n in zip(out, pw)]
    # Neighbours, as the perturbations may cancel by chance.
    return [None if o is None else o+.3*o.max(initial=0)*(np.abs(w) > (
        .3*np.abs(w).max(initial=0))) for o, w in zip(out, want)]


def guarded(t, fun, name, *a):
    pykernel.COUNT['index'] = 0
    try:
        with np.errstate(all='ignore'):
            return fun(*a)
    except pykernel.OutOfBounds as e:
        t.fail('index', f'{name}: {e}')
    finally:
        t.count('index', pykernel.COUNT['index'])


def direct_case(t, lap=False):
    rng = t.rng
    k, p = kernels()
    for rep in range(8):
        a, m = inputs(rng, lap)
        t.case(args=a[:4], alldepth=a[4], lam=a[9], rest=a[10:], laplace=lap,
               **m)
        sig = (len(m['res']), int(a[2]), int(a[3]), a[10], a[12], a[13],
               bool(a[0] == a[1]), lap)
        want = guarded(t, p.wavenumber, 'wavenumber', *a)
        compare(t, k.wavenumber(*a), want, 'wavenumber',
                noise_of(p.wavenumber, a, (5, 6, 7, 8), want, m))
        t.count('wavenumber')
        t.sig('wavenumber', *sig)
        if rep % 4 == 0 and len(m['res']) > 1:
            want = guarded(t, p.greenfct, 'greenfct', *a)
            compare(t, k.greenfct(*a), want, 'greenfct',
                    noise_of(p.greenfct, a, (5, 6, 7, 8), want, m))
            t.count('greenfct')
            r, _ = parts(k, a)
            want = guarded(t, p.reflections, 'reflections', *r)
            compare(t, k.reflections(*r), want, 'reflections',
                    noise_of(p.reflections, r, (1, 2), want, m))
            t.count('reflections')
            _, f = parts(k, a)
            f = (*f[:-1], bool(rng.integers(2)))
            want = guarded(t, p.fields, 'fields', *f)
            compare(t, k.fields(*f), want, 'fields',
                    noise_of(p.fields, f, (1, 2, 3), want, m))
            t.count('fields')
            t.sig('parts', *sig)


def laplace_case(t):
    direct_case(t, True)


def routine_case(t):
    """As called by the modelling routines, whatever they hand over."""
    import empymod
    from vlib.util import captured
    rng = t.rng
    k, p = kernels()
    orig = k.wavenumber
    n = [0]

    def both(*a, **kw):
        want = guarded(t, p.wavenumber, 'wavenumber', *a)
        got = orig(*a, **kw)
        compare(t, got, want, 'routine', noise_of(p.wavenumber, a, (
            5, 6, 7, 8), want, m))
        n[0] += 1
        return got

    m = gen.model(rng, nl=int(rng.integers(1, 5)))
    zs, zr = (gen.zpoint(rng, m['depth'], on_if=.3) for _ in range(2))
    x, y = gen.offsets(rng, 1)
    how = int(rng.integers(5))
    k.wavenumber = both
    filt = {'dlf': 'kong_61_2007b', 'pts_per_dec': 0}
    t.case(how=how, zs=zs, zr=zr, x=x, y=y, **m)
    try:
        with captured():
            if how == 0:
                empymod.dipole([0, 0, zs], [x, y, zr], freqtime=1.,
                               ab=int(rng.choice(gen.ABS_NZ)), xdirect=False,
                               htarg=filt, **m)
            elif how == 1:
                empymod.dipole_k([0, 0, zs], [x, y, zr], freq=1.,
                                 wavenumber=gen.lu(rng, 1e-4, 1, 4),
                                 ab=int(rng.choice(gen.ABS_NZ)), **m)
            elif how == 2:
                empymod.bipole([0, 0, zs, 20, 30], [x, y, zr, 40, 50],
                               freqtime=.1, xdirect=False, htarg=filt,
                               msrc=bool(rng.integers(2)), **m)
            elif how == 3:
                empymod.dipole([0, 0, zs], [x, y, zr], freqtime=1., ht='qwe',
                               htarg={'maxint': 4, 'nquad': 5,
                                      'pts_per_dec': 0},
                               ab=int(rng.choice(gen.ABS_NZ)), xdirect=False,
                               **m)
            else:
                empymod.loop([0, 0, zs, 0, 90], [x, y, zr, 0, 90],
                             freqtime=3., xdirect=False, htarg=filt, **m)
    finally:
        k.wavenumber = orig
    t.count('routine', n[0])
    t.sig('routine', how, n[0], len(m['res']))


BOUNDS = r'''
import sys
import numpy as np
from checks import c15
import empymod
class T:
    def __init__(self, s):
        self.rng = np.random.default_rng(s)
seed, n = int(sys.argv[1]), int(sys.argv[2])
rng = np.random.default_rng(seed)
k = empymod.kernel
for i in range(n):
    a, m = c15.inputs(rng)
    try:
        k.wavenumber(*a)
        if len(m['res']) > 1:
            k.greenfct(*a)
            r, f = c15.parts(k, a)
            k.fields(*f)
    except IndexError as e:
        print('INDEX', i, repr(e), a[:4], a[4], a[10:])
        sys.exit(3)
print('DONE', n)
'''


def bounds_case(t):
    seed = int(t.rng.integers(1 << 30))
    n = 400 if t.tier == 'quick' else 4000
    t.case(seed=seed, n=n)
    d = os.path.join(os.environ['VWORK'], f'bounds{seed}')
    os.makedirs(d)
    env = {**os.environ, 'NUMBA_CACHE_DIR': d, 'NUMBA_BOUNDSCHECK': '1'}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', BOUNDS,
                        str(seed), str(n)], env=env, capture_output=True,
                       text=True, timeout=300)
    t.check('INDEX' not in p.stdout, 'bounds', p.stdout[-1500:])
    t.check(p.returncode == 0 and 'DONE' in p.stdout, 'bounds-run',
            p.stdout[-500:] + p.stderr[-1500:])
    t.count('bounds', n)
    t.sig('bounds', seed)


CASE_LIMIT = 400
CASES = [('bounds', bounds_case, 1, 12),
         ('direct', direct_case, 160, 6000),
         ('routine', routine_case, 60, 1500),
         ('laplace', laplace_case, 30, 1000, 'lap')]
