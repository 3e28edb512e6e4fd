"""C19: filter design returns the best filter of the searched grid."""
import os

import numpy as np

from checks.c16 import folder
from checks.c18 import coeffs
from vlib import gen
from vlib.util import warm_dipole

RULE = ('random designs (pairs, parameters, grids, lengths, criteria): grid, '
        'values and winner recomputed from the filters of the single grid '
        'points, weights against least squares; designs stored and loaded; '
        'pairs against numerical integration; distinct by pairs, settings')
REQUIRED = {'designs': 60, 'candidates': 250, 'weights': 60, 'stored': 60,
            'pairs': 90, 'winner': 20}
ASSUMPTIONS = ['criterion as in its documentation and comments: up to four '
               'single exceedances are permitted',
               'candidates whose criterion changes under perturbations of '
               '1e-14 (ill-conditioned inversion) are not compared']
PAIRS = {'j0': ['j0_1', 'j0_2', 'j0_3', 'j0_4', 'j0_5'],
         'j1': ['j1_1', 'j1_2', 'j1_3', 'j1_4', 'j1_5'],
         'sin': ['sin_1', 'sin_2', 'sin_3'],
         'cos': ['cos_1', 'cos_2', 'cos_3']}


def warmup(group):
    if group == 'emp':
        warm_dipole()


def draw(rng, kind, cplx=True):
    """A pair with random parameters; its length scale is about 1 to 10."""
    from empymod.scripts import fdesign
    n = str(rng.choice(PAIRS[kind]))
    if n[-1] in '45':
        if not cplx:
            n = kind+'_1'
        else:
            kw = {'f': gen.lu(rng, .1, 10), 'rho': gen.lu(rng, .1, 10),
                  'z': gen.lu(rng, 1, 5)}
            return n, kw, getattr(fdesign, n)(**kw)
    kw = {'a': float(gen.lu(rng, .5, 8))}
    if kind in ('sin', 'cos') and rng.random() < .3:
        kw['inverse'] = True
    return n, kw, getattr(fdesign, n)(**kw)


def criterion(dlf, fC, r, error, cvar):
    """Value of a filter: smaller is better; inf if it fails."""
    worst = -np.inf
    with np.errstate(all='ignore'):
        for f in fC:
            k = dlf.base/r[:, None]
            want = f.rhs(r)
            if f.name == 'j2':
                a, b = f.lhs(k)
                got = (a @ dlf.j0)/r + (b @ dlf.j1)/r**2
            else:
                got = (f.lhs(k) @ getattr(dlf, f.name))/r
            bad = np.flatnonzero(np.abs((got-want)/want) > error)
            if np.all(got == 0) or np.all(np.isnan(got)):
                return np.inf
            if bad.size == 0:
                i = r.size-1
            elif bad.size > 4:
                i = bad[4]-5
            else:
                i = bad[0]-1
            if i <= 0:
                return np.inf
            worst = max(worst, np.abs(got[i]) if cvar == 'amp' else 1/r[i])
    return worst


def setting(rng, n):
    """Grid input, as number or (start, stop, num)."""
    c = 7.5/n**.65
    out = []
    for lo, hi, num in ((.5*c, 1.6*c, int(rng.integers(1, 5))),
                        (-1.5, 1.5, int(rng.integers(1, 5)))):
        a, b = np.sort(rng.uniform(lo, hi, 2))
        k = rng.integers(4)
        if num == 1 or b-a < 1e-3:
            out.append([float(a), [float(a)], np.array(a),
                        (float(a), float(a), 3)][k])
        else:
            x = (float(a), float(b), num)
            out.append([x, list(x), np.array(x), x][k])
    return out


def grid(x):
    x = np.ravel(np.asarray(x, float))
    if x.size == 1 or x[0] == x[1]:
        return x[:1]
    return np.linspace(x[0], x[1], int(x[2]))


def make(rng):
    fam = [['j0'], ['j1'], ['j0', 'j1'], ['j1', 'j0'], ['sin'], ['cos'],
           ['sin', 'cos']][int(rng.choice(7, p=[.15, .1, .3, .1, .1, .1,
                                                .15]))]
    n = int(rng.choice([15, 21, 30, 41, 60]))
    spacing, shift = setting(rng, n)
    dI = [draw(rng, k) for k in fam]
    dC = [] if rng.random() < .4 else [
        draw(rng, k) for k in rng.permutation(fam)[:int(
            rng.integers(1, len(fam)+1))]]
    kw = {'n': n, 'spacing': spacing, 'shift': shift,
          'r': np.logspace(rng.uniform(-2, -.5), rng.uniform(.5, 2.5),
                           int(rng.integers(10, 80)))}
    if rng.random() < .4:
        kw['r_def'] = (float(rng.uniform(0, 2)), float(rng.uniform(0, 2)),
                       float(rng.choice([1, 1.5, 2, 3])))
    if rng.random() < .3:
        kw['reim'] = np.real
    elif all(d[0][-1] in '45' for d in dI) and rng.random() < .3:
        kw['reim'] = np.imag
    if rng.random() < .5:
        kw['cvar'] = str(rng.choice(['amp', 'r']))
    if rng.random() < .5:
        kw['error'] = float(gen.lu(rng, 1e-3, .2))
    return fam, dI, dC, kw


def container(rng, fs):
    if len(fs) == 1 and rng.random() < .5:
        return fs[0]
    return list(fs) if rng.random() < .5 else tuple(fs)


def weights(t, dlf, fI, kw):
    """Weights solve the inversion problem in the least-squares sense."""
    n = kw['n']
    rd = kw.get('r_def', (1, 1, 2))
    reim = kw.get('reim') or np.real
    r = np.logspace(np.log10(1/dlf.base.max())-rd[0],
                    np.log10(1/dlf.base.min())+rd[1], int(rd[2]*n))
    with np.errstate(all='ignore'):
        k = dlf.base/r[:, None]
        for f in fI:
            A, b = reim(f.lhs(k)), reim(f.rhs(r)*r)
            J = getattr(dlf, f.name)
            t.check(J.shape == (n,), 'length', J.shape)
            if not (np.isfinite(A).all() and np.isfinite(b).all()):
                continue
            if not J.any():                # Singular: zeros by definition
                t.count('singular')
                continue
            best = np.linalg.lstsq(A, b, rcond=None)[0]
            e0 = np.linalg.norm(A @ best-b)
            e1 = np.linalg.norm(A @ J-b)
            noise = 1e-13*(np.linalg.norm(A)*np.linalg.norm(J) +
                           np.linalg.norm(b))
            t.check(e1 <= 1.01*e0 + noise, 'weights-not-optimal',
                    f'{f.name}: {e1}, possible {e0}, noise {noise}')
            t.count('weights')


def k_design(t):
    from empymod.scripts import fdesign
    rng = t.rng
    folder(t)
    fam, dI, dC, kw = make(rng)
    fI = [d[2] for d in dI]
    fC = [d[2] for d in dC]
    if set(fam) == {'j0', 'j1'} and rng.random() < .2:
        a, b = (gen.lu(rng, .5, 5) for _ in range(2))
        p, q = fdesign.j0_1(a), fdesign.j1_1(b)
        fC = [fdesign.Ghosh('j2', lambda x: (p.lhs(x), q.lhs(x)),
                            lambda x: p.rhs(x) + q.rhs(x)/x)]
        dC = [('j2', {'a': a, 'b': b}, None)]
    t.case(fI=[d[:2] for d in dI], fC=[d[:2] for d in dC],
           kw={k: getattr(v, '__name__', v) for k, v in kw.items()})
    extra = {} if not fC else {'fC': container(rng, fC)}
    name = None if rng.random() < .3 else str(rng.choice(
        ['my', 'a b', 'my.gz', 'b_1']))
    save = bool(rng.random() < .7)
    where = {} if rng.random() < .5 else {'path': 'some/where'}
    finish = bool(rng.random() < .12)
    dlf, full = fdesign.design(
        fI=container(rng, fI), **extra, **kw, verb=0, plot=0, save=save,
        full_output=True, name=name, finish=finish, **where)
    t.count('designs')
    t.sig(tuple(d[0] for d in dI), tuple(d[0] for d in dC), kw['n'],
          kw.get('cvar'), np.size(kw['spacing']), np.size(kw['shift']),
          'r_def' in kw, finish)
    # The grid.
    gs, gh = grid(kw['spacing']), grid(kw['shift'])
    t.check(full[2].shape == (2, gs.size, gh.size) and
            full[3].shape == (gs.size, gh.size), 'grid-shape',
            f'{full[2].shape} {full[3].shape}')
    t.close(full[2][0], np.repeat(gs[:, None], gh.size, 1), 'grid-spacing',
            rtol=1e-10)
    t.close(full[2][1], np.repeat(gh[None], gs.size, 0), 'grid-shift',
            rtol=1e-10, atol=1e-12)
    t.check(full[4] == (kw.get('cvar', 'amp') == 'r'), 'criterion', full[4])
    # The winner.
    vals = full[3]
    if finish:
        t.check(not full[1] > vals.min(), 'not-best', f'{full[1]} {vals}')
    else:
        t.check(full[1] == vals.min(), 'not-best', f'{full[1]} {vals}')
        i, j = np.argwhere((full[2][0] == full[0][0]) &
                           (full[2][1] == full[0][1]))[0]
        t.check(vals[i, j] == vals.min(), 'not-best', (full[0], vals))
        if np.isfinite(vals.min()):
            t.count('winner')
    n = kw['n']
    t.close(dlf.base, np.exp(full[0][0]*(np.arange(n)-n//2)+full[0][1]),
            'base-differs', rtol=1e-12)
    t.close(np.ravel(dlf.factor), [np.exp(full[0][0])], 'factor-differs',
            rtol=1e-10)
    t.check(sorted(coeffs(dlf)) == sorted(fam), 'coefficients', coeffs(dlf))
    weights(t, dlf, fI, kw)
    # Every candidate.
    check = fC or fI
    for i in range(gs.size):
        for j in range(gh.size):
            s, h = (float(full[2][q][i, j]) for q in (0, 1))
            ref = []
            for e in (0., 1e-14, -1e-14):
                one = {**kw, 'spacing': s*(1+e), 'shift': h*(1-e)}
                d = fdesign.design(fI=fI, **extra, **one, verb=0, plot=0,
                                   save=False)
                ref.append(criterion(d, check, kw['r'],
                                     kw.get('error', .01),
                                     kw.get('cvar', 'amp')))
            ref = np.array(ref)
            if len(set(np.isfinite(ref))) > 1:
                t.count('undecided')
                continue
            if np.isfinite(ref).all() and np.ptp(ref) > 1e-6*ref.max():
                t.count('undecided')
                continue
            t.count('candidates')
            if np.isinf(ref[0]):
                t.check(np.isinf(vals[i, j]), 'criterion-differs',
                        f'({s}, {h}): {vals[i, j]}, expected inf')
            else:
                t.close([vals[i, j]], [ref[0]], 'criterion-differs',
                        rtol=1e-4)
    # Stored.
    if save:
        name = name or f'dlf_{n}'
        g, out = fdesign.load_filter(name, True, **where)
        stored(t, dlf, full, g, out)
        g = fdesign.load_filter(name, **where)
        stored(t, dlf, None, g, None)


def stored(t, dlf, full, g, out):
    for c in ['base']+coeffs(dlf):
        t.check(np.array_equal(getattr(dlf, c), getattr(g, c)),
                'stored-differs', c)
    t.check(coeffs(g) == coeffs(dlf), 'stored-differs', coeffs(g))
    t.close(np.ravel(g.factor), np.ravel(dlf.factor), 'stored-differs',
            rtol=1e-14)
    t.check(g.name == dlf.name, 'stored-differs', g.name)
    t.count('stored')
    if full is None:
        return
    t.check(len(out) == len(full), 'stored-differs', len(out))
    for i, (a, b) in enumerate(zip(full, out)):
        t.check(np.shape(a) == np.shape(b) and np.array_equal(
            a, b, equal_nan=True), 'stored-differs', f'{i}: {a} {b}')


def k_default(t):
    """Default arguments are the documented ones."""
    from empymod.scripts import fdesign
    rng = t.rng
    folder(t)
    n = int(rng.choice([21, 41]))
    f = [fdesign.j0_1(gen.lu(rng, 1, 5)), fdesign.j1_1(gen.lu(rng, 1, 5))]
    s, h = (.15, .3, 3), (-2., 1., 4)
    doc = {'r': np.logspace(0, 5, 1000), 'r_def': (1, 1, 2), 'reim': np.real,
           'cvar': 'amp', 'error': .01, 'finish': None}
    a = fdesign.design(n, s, h, f, verb=0, plot=0)
    t.check(os.path.isfile(f'filters/dlf_{n}_base.txt'), 'not-saved',
            os.listdir('.'))
    t.check(not os.path.isfile(f'filters/dlf_{n}_full.txt'), 'full-saved',
            os.listdir('filters'))
    b = fdesign.design(n, s, h, f, verb=0, plot=0, save=False, **{
        k: doc[k] for k in doc if rng.random() < .6})
    t.case(n=n)
    t.check(np.array_equal(a.base, b.base), 'default-differs', n)
    stored(t, a, None, fdesign.load_filter(f'dlf_{n}'), None)
    t.count('defaults')
    t.sig('default', n, t.index)


def integrate(f, kind, r):
    """Numerical transforms of f with two filters; and their deviation."""
    import libdlf
    F = {'j0': ('hankel', 'j0', ['key_401_2009', 'wer_201_2018']),
         'j1': ('hankel', 'j1', ['key_401_2009', 'wer_201_2018']),
         'sin': ('fourier', 'sin', ['key_601_2009', 'key_241_2009']),
         'cos': ('fourier', 'cos', ['key_601_2009', 'key_241_2009'])}[kind]
    out = []
    for n in F[2]:
        fun = getattr(getattr(libdlf, F[0]), n)
        v = fun()
        with np.errstate(all='ignore'):
            x = v[0]/np.asarray(r)[:, None]
            out.append((f(x)*v[1+fun.values.index(F[1])]).sum(1)/r)
    return out


def k_pairs(t):
    """True transform pairs, by numerical integration."""
    from empymod.scripts import fdesign
    rng = t.rng
    names = sum(PAIRS.values(), [])
    n = names[t.index % len(names)]
    kind = n.split('_')[0]
    if n[-1] in '45':
        z = float(gen.lu(rng, 1, 500))
        kw = {'f': float(gen.lu(rng, 1e-2, 1e2)),
              'rho': float(gen.lu(rng, .1, 100)), 'z': z}
        if rng.random() < .2:
            for k in list(kw):
                if rng.random() < .5:
                    kw.pop(k)
        if 'z' in kw and rng.random() < .3:   # Source and receiver swapped
            kw['z'] = -z
        z = abs(kw.get('z', 50.))
        skin = 503*np.sqrt(kw.get('rho', .3)/kw.get('f', 1.))
        r = z*gen.lu(rng, .2, 3, 20)
        r = r[np.hypot(r, z) < 8*skin]
        if r.size == 0:
            r = np.array([z*.2])
        scale = 1.
    else:
        a = float(gen.lu(rng, .01, 100))
        kw = {'a': a} if rng.random() < .9 else {}
        a = kw.get('a', 1.)
        inv = kind in ('sin', 'cos') and rng.random() < .5
        if inv:
            kw['inverse'] = True
        L = {'j0_1': a**.5, 'j1_1': a**.5, 'sin_3': 1/a, 'cos_3': 1/a}.get(
            n, a)
        L = 1/L if inv else L
        r = L*gen.lu(rng, .2, 3, 20)
    t.case(pair=n, **kw)
    p = getattr(fdesign, n)(**kw)
    t.check(p.name == kind, 'name', p.name)
    want = p.rhs(r)
    best = min(np.abs(g-want).max() for g in integrate(p.lhs, kind, r))
    t.check(best <= 2e-5*np.abs(want).max(), 'no-pair',
            f'{n} {kw}: deviation {best/np.abs(want).max()}')
    t.count('pairs')
    t.sig('pair', n, kw.get('inverse'), t.index//len(names))


def k_empy(t):
    """Numerical pairs of the modeller."""
    from empymod.scripts import fdesign
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)), air=False, mperm=False)
    full_ = len(m['res']) == 1
    zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
    if abs(zs-zr) < 10:
        zr = zs + 15.
    f = float(gen.lu(rng, .01, 1))
    dep = m.pop('depth')
    kw = dict(zsrc=zs, zrec=zr, freqtime=f, **m)
    kw['depth'] = dep if not full_ else [None, []][int(rng.integers(2))]
    kw['htarg'] = {'rtol': 1e-10, 'atol': 1e-30, 'maxint': 100}
    t.case(**kw)
    t.sig('empy', len(dep), np.sign(zr-zs), tuple(m))
    r = np.array(np.abs(zr-zs)*gen.lu(rng, .5, 3, 4))
    ps = fdesign.empy_hankel(['j0', 'j1'], **kw)
    t.check([p.name for p in ps] == ['j0', 'j1'], 'name', ps[0].name)
    ps.append(fdesign.empy_hankel('j2', **kw))
    for p in ps:
        want = np.array(p.rhs(r))
        if p.name == 'j2':
            a = integrate(lambda x: lhs(p, x)[0], 'j0', r)
            b = integrate(lambda x: lhs(p, x)[1], 'j1', r)
            got = [i+j/r for i, j in zip(a, b)]
        else:
            got = integrate(lambda x: lhs(p, x), p.name, r)
        best = min(np.abs(g-want).max() for g in got)
        t.check(best <= 1e-5*np.abs(want).max(), 'no-pair',
                f'{p.name}: {got[0]} {want}')
        t.count('numerical')


def lhs(p, x):
    """Kernel values at a 2D array of wavenumbers."""
    v = p.lhs(np.ravel(x))
    if isinstance(v, tuple):
        return [np.reshape(i, x.shape) for i in v]
    return np.reshape(v, x.shape)


CASES = [
    ('design', k_design, 90, 1800),
    ('default', k_default, 3, 30),
    ('pairs', k_pairs, 192, 5000),
    ('empy', k_empy, 12, 150, 'emp'),
]
