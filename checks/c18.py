"""C18: digital filters are complete, consistent and survive storage."""
import os
import warnings

import numpy as np

from checks.c13 import same, snap
from checks.c16 import folder
from vlib import gen
from vlib.util import captured, dip, warm_dipole

RULE = ('all filters offered, compared with the publishing package and on '
        'closed-form pairs; used by name, object and after storage in random '
        'models; random filters stored and read under random names; histories '
        'of uses with all obtained filters fingerprinted; distinct by filter, '
        'use, settings')
REQUIRED = {'filters': 24, 'pairs': 60, 'used': 60, 'stored': 100,
            'history': 150}
ASSUMPTIONS = ['libdlf holds the published values']
OLD = {'kong_61_2007': 'kong_61_2007b', 'key_81_CosSin_2009': 'key_81_2009',
       'key_241_CosSin_2009': 'key_241_2009',
       'key_601_CosSin_2009': 'key_601_2009',
       'key_101_CosSin_2012': 'key_101_2012',
       'key_201_CosSin_2012': 'key_201_2012'}
HAN = ['kong_241_2007', 'key_101_2009', 'anderson_801_1982', 'key_51_2012',
       'wer_2001_2018']

PAIRS = {
    'j0': [(lambda x, a: x*np.exp(-a*x*x),
            lambda r, a: np.exp(-r*r/4/a)/2/a, .5),
           (lambda x, a: x*np.exp(-a*x), lambda r, a: a/(a*a+r*r)**1.5, 1)],
    'j1': [(lambda x, a: x*x*np.exp(-a*x*x),
            lambda r, a: r/4/a**2*np.exp(-r*r/4/a), .5),
           (lambda x, a: x*np.exp(-a*x), lambda r, a: r/(a*a+r*r)**1.5, 1)],
    'sin': [(lambda x, a: x/(a*a+x*x),
             lambda r, a: np.pi/2*np.exp(-a*r), -1),
            (lambda x, a: x*np.exp(-a*a*x*x), lambda r, a:
             np.sqrt(np.pi)*r/4/a**3*np.exp(-r*r/4/a/a), 1)],
    'cos': [(lambda x, a: a/(a*a+x*x),
             lambda r, a: np.pi/2*np.exp(-a*r), -1),
            (lambda x, a: np.exp(-a*a*x*x), lambda r, a:
             np.sqrt(np.pi)/2/a*np.exp(-r*r/4/a/a), 1)],
}


def warmup(group):
    if group == 'use':
        warm_dipole()


def offered():
    """All (family, name) the package offers, read from its own list."""
    import empymod
    return ([('Hankel', n) for n in empymod.filters.Hankel().available] +
            [('Fourier', n) for n in empymod.filters.Fourier().available])


def coeffs(f):
    return [c for c in ('j0', 'j1', 'sin', 'cos') if hasattr(f, c)]


def k_catalogue(t):
    """Every filter once: values, spacing, accuracy."""
    import empymod
    import libdlf
    if t.index == 0:
        for fam in ('hankel', 'fourier'):
            F = getattr(empymod.filters, fam.title())()
            t.check(sorted(F.available) == sorted(
                getattr(libdlf, fam).__all__), 'catalogue', F.available)
            for n in F.available:
                t.check(n in dir(F), 'not-listed', n)
            for n in ('nofilter_1_2000', 'available_', 'key_201'):
                try:
                    getattr(F, n)
                    t.fail('unknown-filter-given', n)
                except AttributeError:
                    pass
    names = offered()
    fam, name = names[t.index % len(names)]
    t.case(fam=fam, name=name)
    f = getattr(getattr(empymod.filters, fam)(), name)
    fun = getattr(getattr(libdlf, fam.lower()), name)
    vals = fun()
    t.check(f.name == name and f.savename == name, 'name', f.name)
    t.check(coeffs(f) == [c for c in ('j0', 'j1', 'sin', 'cos')
                          if c in fun.values], 'coefficients', coeffs(f))
    t.check(np.array_equal(f.base, vals[0]), 'base-differs', name)
    n = f.base.size
    dl = np.diff(np.log(f.base))
    t.check(f.base.ndim == 1 and n > 2 and np.all(f.base > 0) and
            np.all(dl > 0), 'base-invalid', name)
    t.check(np.ptp(dl) < 1e-9*dl.mean(), 'spacing-uneven', dl)
    t.check(np.shape(f.factor) == (1,), 'factor-shape', np.shape(f.factor))
    t.close(f.factor, [f.base[1]/f.base[0]], 'factor-differs', rtol=2e-15)
    t.close(np.log(f.factor[0])*(n-1), np.log(f.base[-1]/f.base[0]),
            'factor-differs', rtol=1e-9)
    rng = t.rng
    for c in coeffs(f):
        t.check(np.array_equal(getattr(f, c), vals[1+fun.values.index(c)]),
                'weights-differ', c)
        t.check(getattr(f, c).shape == (n,), 'length', c)
        errs = []
        for p, q, e in PAIRS[c]:
            s = gen.lu(rng, 1e-4, 1e4)            # Filters are scale-free
            r = s*gen.lu(rng, .1, 4, 40)
            a = {.5: s*s, 1: s, -1: 1/s}[e]
            with np.errstate(under='ignore'):
                x = f.base/r[:, None]
                got = (p(x, a)*getattr(f, c)).sum(1)/r
                want = q(r, a)
            errs.append(np.abs(got-want).max()/np.abs(want).max())
            t.count('pairs')
        t.check(min(errs) < (2e-4 if '2001' in name else 3e-5), 'inaccurate', f'{name} {c} {errs}')
        t.sig(fam, name, c, t.index//len(names))
    t.count('filters')


def k_old(t):
    """Functions of former versions give the same objects."""
    import empymod
    F = empymod.filters
    names = list(OLD) + ['kong_241_2007', 'key_101_2009', 'key_201_2009',
                         'key_401_2009', 'anderson_801_1982', 'key_51_2012',
                         'key_101_2012', 'key_201_2012', 'wer_201_2018']
    for n in t.rng.permutation(names):
        n = str(n)
        fam = F.Fourier() if 'CosSin' in n else F.Hankel()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = getattr(F, n)()
        want = getattr(fam, OLD.get(n, n))
        t.case(name=n)
        t.check(any(issubclass(x.category, DeprecationWarning) for x in w),
                'no-deprecation-warning', n)
        t.check(same_filter(got, want), 'old-name-differs', n)
        t.count('old')
        t.sig('old', n)


def same_filter(a, b):
    c = coeffs(b)
    return coeffs(a) == c and all(
        np.array_equal(getattr(a, x), getattr(b, x))
        for x in ['base', 'factor']+c)


def reload(t, f, d=None, name=None):
    """Filter through files."""
    import empymod
    rng = t.rng
    path = [d, 'filters', './a b/c', os.path.abspath('xyz'), None][
        int(rng.integers(5))] or None
    kw = {} if path is None else {'path': path}
    f.tofile(**kw)
    new = empymod.filters.DigitalFilter('other', f.savename) \
        if rng.random() < .5 else empymod.filters.DigitalFilter(f.savename)
    new.fromfile(**kw)
    return new


def k_use(t):
    """Name, object, and stored filter in the modelling."""
    import empymod
    rng = t.rng
    folder(t)
    m = gen.model(rng, nl=int(rng.integers(2, 4)), air=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 2)
    hank = rng.random() < .5
    fam = 'Hankel' if hank else 'Fourier'
    name = str(rng.choice([n for f, n in offered() if f == fam]))
    f = getattr(getattr(empymod.filters, fam)(), name)
    g = reload(t, f)
    t.check(same_filter(g, f), 'stored-differs', name)
    ppd = float(rng.choice([0, 0, -1, 10, 30] if hank else [-1, -1, 0, 12]))
    ab = int(rng.choice(gen.ABS_NZ))
    if hank:
        base = dict(freqtime=gen.lu(rng, .01, 10, 2), ht='dlf')
        key, other = 'htarg', {}
        ok = hasattr(f, 'j0') and hasattr(f, 'j1')
    else:
        sig = int(rng.choice([0, 1, -1]))
        base = dict(freqtime=gen.lu(rng, .1, 10, 2), signal=sig, ft='dlf')
        kind = str(rng.choice(['sin', 'cos', '']))
        other = {'kind': kind} if kind else {}
        need = ['sin', 'cos'][sig < 0] if sig else other.get('kind', 'sin')
        ok = hasattr(f, need)
        key = 'ftarg'
    t.case(m=m, name=name, fam=fam, ppd=ppd, ab=ab, base=base, other=other)
    t.sig('use', name, fam, ppd, ab//10 > 3)
    res = []
    for dlf in (name, f, g):
        kw = {**base, key: {'dlf': dlf, 'pts_per_dec': ppd, **other}}
        ftime = kw.pop('freqtime')
        try:
            res.append(dip([0, 0, zs], [x, y, zr], m, ftime, ab, **kw))
        except AttributeError:
            res.append(None)
    t.check(all((r is not None) == ok for r in res), 'incomplete-filter',
            f'{name} {[r is not None for r in res]}')
    if ok:
        t.check(np.isfinite(res[0]).all(), 'not-finite', name)
        t.check(same(res[0], res[1]), 'name-object-differ', name)
        t.check(same(res[0], res[2]), 'stored-differ', name)
    t.count('used')


def k_store(t):
    """Random filters under random names, several in one place."""
    import empymod
    rng = t.rng
    d = folder(t)
    names = ['f', 'f_j0', 'a b', 'x.y', 'ünï', 'f_base', 'F2', '-', 'f-1',
             'key_201_2009']
    done = []
    path = [None, 'filters', 'deep/er', d, 'with space'][int(rng.integers(5))]
    kw = {} if path is None else {'path': path}
    for n in rng.permutation(names)[:int(rng.integers(2, 6))]:
        n = str(n)
        extra = [[], ['j2'], ['j2', 'sinh']][int(rng.integers(3))]
        lab = 'lab' + str(rng.integers(9)) if rng.random() < .4 else n
        f = empymod.filters.DigitalFilter(
            lab, None if lab == n else n, extra or None)
        N = int(rng.choice([2, 3, 11, 50, 201]))
        f.base = np.exp(rng.uniform(-20, -5) +
                        np.arange(N)*rng.uniform(1e-3, .4))
        f.factor = np.around([f.base[1]/f.base[0]], 15)
        all_ = ['j0', 'j1', 'sin', 'cos']+extra
        have = [c for c in all_ if rng.random() < .6] or ['j0']
        for c in have:
            v = rng.standard_normal(N)*10**rng.uniform(-30, 30, N)
            v[rng.random(N) < .1] = 0
            setattr(f, c, v)
        t.case(name=n, lab=lab, extra=extra, have=have, N=N, path=path)
        before = snap(f)
        f.tofile(**kw)
        t.check(snap(f) == before, 'filter-changed', 'by storing')
        done.append((n, extra, have, f))
        t.sig('store', n, tuple(have), N, path)
    for i in rng.permutation(len(done)):
        n, extra, have, f = done[i]
        t.case(name=n, extra=extra, have=have, path=path)
        g = empymod.filters.DigitalFilter(
            *([n] if rng.random() < .5 else ['zzz', n]),
            filter_coeff=extra or None)
        g.fromfile(**kw)
        for c in ['base', 'factor']+have:
            a, b = getattr(f, c), getattr(g, c, None)
            t.check(b is not None and a.dtype == b.dtype and
                    np.array_equal(a, b), 'stored-differs',
                    f'{c}: {a[:5]} {None if b is None else b[:5]}')
        for c in {'j0', 'j1', 'sin', 'cos', *extra} - set(have):
            t.check(not hasattr(g, c), 'unknown-coefficients', c)
        t.count('stored')
    # Read before written is an error, not an empty filter.
    try:
        empymod.filters.DigitalFilter('absent').fromfile(**kw)
        t.fail('absent-filter-read', path)
    except FileNotFoundError:
        pass


def k_history(t):
    """Filters obtained stay as they are, whatever happens later."""
    import empymod
    from empymod import transform
    rng = t.rng
    folder(t)
    names = offered()
    got = []
    m = {'depth': [0., 100.], 'res': [1., 10., 3.]}
    for step in range(int(rng.integers(8, 20))):
        k = int(rng.integers(7))
        fam, name = names[int(rng.integers(len(names)))]
        F = getattr(empymod.filters, fam)()
        if k < 3 or not got:
            f = getattr(F, name)
            got.append((fam, name, f, snap(f)))
        elif k == 3:
            fam, name, f, s = got[int(rng.integers(len(got)))]
            g = reload(t, f)
            t.check(same_filter(g, f), 'stored-differs', name)
        elif k == 4:
            h = HAN[int(rng.integers(len(HAN)))]
            with captured():
                empymod.dipole(
                    [0, 0, 10.], [[50., 90.], [0., 8.], 20.],
                    freqtime=[1., 2.], ab=int(rng.choice(gen.ABS_NZ)),
                    htarg={'dlf': h, 'pts_per_dec': float(
                        rng.choice([-1, 0, 20]))}, verb=int(
                        rng.integers(5)), **m, xdirect=False)
        elif k == 5:
            fam, name, f, s = got[int(rng.integers(len(got)))]
            r = gen.lu(rng, .1, 10, 4)
            ppd = float(rng.choice([-1, 0, 10]))
            x, y = transform.get_dlf_points(f, r, ppd)
            c = [c for c in coeffs(f)]
            if fam == 'Hankel' and {'j0', 'j1'} <= set(c):
                K = np.exp(-x)
                transform.dlf((K, K, None), x, r, f, ppd, int_pts=y, ab=11,
                              ang_fact=np.array([1., 1, 1, -1])[:r.size])
            elif fam == 'Fourier':
                transform.dlf(np.exp(-x), x, r, f, ppd, kind=c[-1],
                              int_pts=y)
        else:
            empymod.filters.DigitalFilter(name)      # New, empty
            F.available, dir(F), repr(F)
        t.count('history')
        for fam, name, f, s in got:
            t.case(step=step, k=k, name=name)
            t.check(snap(f) == s, 'filter-changed', name)
        for fam, name, f, s in got:
            g = getattr(getattr(empymod.filters, fam)(), name)
            t.check(same_filter(g, f), 'filter-differs', name)
            t.sig('hist', k, name)


CASES = [
    ('catalogue', k_catalogue, 60, 300),
    ('old', k_old, 2, 10),
    ('store', k_store, 120, 3000),
    ('use', k_use, 110, 1500, 'use'),
    ('history', k_history, 50, 800, 'use'),
]
