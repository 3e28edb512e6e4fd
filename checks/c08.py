"""C08: Hankel transform methods agree and reproduce closed forms."""
import numpy as np

from vlib import gen
from vlib.run import Skip
from vlib.util import captured, dip, warmup  # noqa: F401

RULE = ('closed forms (analytical full-space fields of all components, '
        'Bessel integrals) and random layered models, by every filter in '
        'standard, lagged and splined form, QWE (plain, splined), QUAD; '
        'distinct by method, filter, component, azimuth pattern')
REQUIRED = {'filter_std': 600, 'filter_lag': 200, 'filter_spl': 200,
            'qwe': 50, 'qwe_spline': 20, 'quad': 20, 'bessel': 300,
            'layered': 100}
ASSUMPTIONS = ['accuracy per filter as calibrated on the unchanged tree '
               '(times 10 or more), offsets within 0.7 and 8 times the '
               'vertical distance']
# Accuracy relative to the largest component: standard, lagged, splined (80).
TOL = {
    'anderson_801_1982': (1e-4, 5e-3, 1e-4),
    'key_101_2009': (1e-6, 1e-2, 3e-5),
    'key_101_2012': (5e-5, 2e-2, 5e-5),
    'key_201_2009': (1e-11, 3e-3, 3e-5),
    'key_201_2012': (3e-6, 1e-2, 3e-5),
    'key_401_2009': (1e-11, 3e-3, 3e-5),
    'key_51_2012': (1e-2, 5e-2, 1e-2),
    'kong_121_2007': (5e-3, 2e-2, 5e-3),
    'kong_241_2007': (1e-9, 2e-3, 3e-5),
    'kong_61_2007b': (8e-2, 8e-2, 8e-2),
    'wer_2001_2018': (1e-3, 1e-3, 1e-3),
    'wer_201_2018': (1e-11, 2e-3, 3e-5),
}
WIDE = ['anderson_801_1982', 'key_401_2009', 'key_201_2012', 'key_101_2012',
        'key_201_2009', 'wer_201_2018']
QUAD = {'a': 1e-7, 'b': 2., 'limit': 2000, 'pts_per_dec': 60, 'rtol': 1e-9,
        'atol': 0}


def same_class(ab):
    return [k for k in gen.ABS_NZ
            if (k//10 > 3) == (ab//10 > 3) and (k % 10 > 3) == (ab % 10 > 3)]


def survey(t, nl=1):
    rng = t.rng
    m = gen.model(rng, nl=nl, res=(.3, 300), air=False)
    if 'aniso' in m:
        m['aniso'] = [float(q) for q in gen.lu(rng, .7, 1.5, len(m['res']))]
    dz = float(gen.lu(rng, 20, 300))
    n = int(rng.choice([1, 2, 3, 6, 15]))
    r = dz*gen.lu(rng, .7, 8, n)
    pat = str(rng.choice(['line', 'axis', 'any', 'two']))
    ph = {'line': np.full(n, rng.uniform(-np.pi, np.pi)),
          'axis': np.full(n, rng.choice([0, .5, 1, -.5])*np.pi),
          'any': rng.uniform(-np.pi, np.pi, n),
          'two': rng.choice(rng.uniform(-np.pi, np.pi, 2), n)}[pat]
    x, y = r*np.cos(ph), r*np.sin(ph)
    if pat == 'axis':
        x, y = np.round(x, 6), np.round(y, 6)
    R = np.max(np.hypot(r, dz))
    skin = R/gen.lu(rng, .02 if nl == 1 else .1, 2)
    mu = max(m.get('mpermH', [1]) + m.get('mpermV', [1]))
    freq = min(m['res'])/(np.pi*4e-7*np.pi*skin**2*mu)
    freq = freq*np.array([1., .3])[:int(rng.integers(1, 3))]
    return m, dz, x, y, freq, pat


def compare(t, m, src, rec, freq, ab, want, size, pat, xd=False,
            loose=1., heavy=True):
    """Run methods, compare with `want`, (nfreq, nrec)."""
    import empymod
    rng = t.rng
    fl = empymod.filters.Hankel()
    assert set(TOL) <= set(fl.available), 'filters'
    # key_201, wer_201 at least once in any form.
    some = ['key_201_2009', 'wer_201_2018',
            *rng.choice(list(TOL) if loose == 1 else WIDE, 4, replace=False)]
    for h in dict.fromkeys(map(str, some)):
        for form, p in enumerate((0, -1, 80)):
            if form and h not in some[:4]:
                continue
            if form == 2 and rng.random() < .2:
                p = 150.
            flt = h if rng.random() < .5 else getattr(fl, h)
            v = dip(src, rec, m, freq, ab, xdirect=xd,
                    htarg={'dlf': flt, 'pts_per_dec': p})[:, :, 0]
            t.close(v, want, f'dlf-{("std", "lagged", "splined")[form]}',
                    rtol=max(TOL[h][form]*5, 1e-8 if loose > 1 else 0)*loose, scale=size, atol=1e-300,
                    msg=f'{h} {p} ab={ab} {pat}')
            t.count(('filter_std', 'filter_lag', 'filter_spl')[form])
            t.sig('dlf', h, form, ab, pat)
    if not heavy:
        return
    for nm, ht, kw, tol in (
            ('qwe', 'qwe', {}, 3e-6),
            ('qwe_spline', 'qwe', {'pts_per_dec': 40}, 3e-4),
            ('qwe_spline', 'qwe', {'pts_per_dec': 40, 'diff_quad': .1,
                                   'a': 1e-7, 'b': 2., 'limit': 2000,
                                   'rtol': 1e-8}, 3e-4),
            ('quad', 'quad', QUAD, 5e-5)):
        with captured() as o:
            v = dip(src, rec, m, freq, ab, xdirect=xd, ht=ht, htarg=kw,
                    verb=1)[:, :, 0]
        wrn = 'WARNING' in o.getvalue()
        t.count(nm + ('_warned' if wrn else ''))
        # With a warning "the tolerance might not be achieved".
        t.close(v, want, nm, rtol=tol*loose*(10 if wrn else 1), scale=size,
                atol=1e-300, msg=f'{kw} ab={ab} {pat} warned={wrn}')
        t.count(nm)
        t.sig(nm, tuple(kw), ab, pat)


def fullspace_case(t):
    import empymod
    rng = t.rng
    m, dz, x, y, freq, pat = survey(t)
    if rng.random() < .5:
        dz = -dz
    ab0 = gen.ABS_NZ[t.index % len(gen.ABS_NZ)]
    src, rec = [0, 0, 0], [x, y, dz]
    f = {k: np.asarray(empymod.analytical(
        src, rec, m['res'], freq, ab=k, verb=0, squeeze=False,
        **{q: v for q, v in m.items() if q not in ('res', 'depth')}))[:, :, 0]
        for k in same_class(ab0)}
    size = np.max([np.abs(v) for v in f.values()], axis=0)
    t.case(ab=ab0, dz=dz, x=x, y=y, freq=freq, **m)
    compare(t, m, src, rec, freq, ab0, f[ab0], size, pat,
            heavy=t.index % 3 == 0)


def layered_case(t):
    rng = t.rng
    m, dz, x, y, freq, pat = survey(t, int(rng.integers(2, 6)))
    d = m['depth']
    zs = gen.zpoint(rng, d)
    zr = zs + dz*rng.choice([-1, 1])
    ab0 = gen.ABS_NZ[int(rng.integers(34))]
    src, rec = [0, 0, zs], [x, y, zr]
    xd = [False, True, None][t.index % 3]
    if xd is None and gen.layer_of(d, zs) == gen.layer_of(d, zr):
        # The reflected path is longer than the direct one.
        xd = False
    f = {k: dip(src, rec, m, freq, k, xdirect=xd,
                htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0})[:, :, 0]
         for k in same_class(ab0)}
    size = np.max([np.abs(v) for v in f.values()], axis=0)
    t.case(ab=ab0, zs=zs, zr=zr, x=x, y=y, freq=freq, xdirect=xd, **m)
    compare(t, m, src, rec, freq, ab0, f[ab0], size, pat, xd, 10,
            heavy=t.index % 4 == 0)
    t.count('layered')


def loop_case(t):
    """Loop settings and order of offsets, for all methods."""
    rng = t.rng
    m, dz, x, y, freq, pat = survey(t, 3)
    if x.size < 2:
        raise Skip
    zs = gen.zpoint(rng, m['depth'])
    zr = zs + dz
    ab = int(rng.choice(gen.ABS_NZ))
    ht, kw, tol = [('dlf', {'pts_per_dec': 0}, 1e-12),
                   ('dlf', {'pts_per_dec': -1}, 1e-12),
                   ('dlf', {'pts_per_dec': 50}, 1e-12),
                   ('qwe', {}, 1e-9)][t.index % 4]
    size = np.max([np.abs(dip([0, 0, zs], [x, y, zr], m, freq, k))
                   for k in same_class(ab)], axis=0)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, ht=ht, htarg=kw, **m)
    o = [0, 0, zs]
    a = dip(o, [x, y, zr], m, freq, ab, ht=ht, htarg=kw)
    p = rng.permutation(x.size)
    b = dip(o, [x[p], y[p], zr], m, freq, ab, ht=ht, htarg=kw,
            loop=rng.choice([None, 'freq', 'off']))
    t.close(b, a[:, p], 'permuted-offsets', rtol=tol, scale=size[:, p],
            atol=1e-300, msg=f'{ht} {kw} ab={ab}')
    t.count('permuted')
    t.sig('loop', ht, str(kw), ab, pat)


def bessel_case(t):
    """Known Bessel integrals through the digital-filter routine itself."""
    import empymod
    rng = t.rng
    fl = empymod.filters.Hankel()
    a = gen.lu(rng, .5, 5)
    n = int(rng.choice([1, 2, 5, 20]))
    scale = gen.lu(rng, 1e-3, 1e3)
    r = a*gen.lu(rng, .5, 6, n)*scale
    a = a*scale
    # int f(l) J_v(l r) dl
    pairs = {
        'j0': [(lambda q: q*np.exp(-a*q), a/(a**2+r**2)**1.5),
               (lambda q: q**2*np.exp(-a*q),
                (2*a**2-r**2)/(a**2+r**2)**2.5),
               (lambda q: q*np.exp(-(a*q)**2/4),
                2*np.exp(-(r/a)**2)/a**2),
               (lambda q: q*np.exp(-a*q)*(1-2j),
                (1-2j)*a/(a**2+r**2)**1.5)],
        'j1': [(lambda q: q**2*np.exp(-a*q), 3*a*r/(a**2+r**2)**2.5),
               (lambda q: q**3*np.exp(-a*q),
                3*r*(4*a**2-r**2)/(a**2+r**2)**3.5),
               (lambda q: q**2*np.exp(-(a*q)**2/4),
                4*r*np.exp(-(r/a)**2)/a**4),
               (lambda q: q**2*np.exp(-a*q)*(3+1j),
                (3+1j)*3*a*r/(a**2+r**2)**2.5)],
    }
    for h in fl.available:
        f = getattr(fl, h)
        for b in ('j0', 'j1'):
            if not hasattr(f, b):
                continue
            i = int(rng.integers(4))
            func, want = pairs[b][i]
            for form, p in enumerate((0, -1, 80)):
                t.case(filter=h, bessel=b, pair=i, a=a, r=r, pts_per_dec=p)
                lam, ip = empymod.transform.get_dlf_points(f, r, p)
                s = func(lam)[None]
                sig = (s, None, None) if b == 'j0' else (None, s, None)
                v = empymod.transform.dlf(sig, lam, r, f, p, ab=13,
                                          ang_fact=np.ones(n), int_pts=ip)
                v = np.asarray(v).reshape(-1, n)[0]
                tol = TOL.get(h, (5e-2, 8e-2, 5e-2))[form]
                top = np.abs(func(1/a))/a
                t.close(v, want, f'closed-{("std", "lag", "spline")[form]}',
                        rtol=10*tol, scale=np.abs(want) + top,
                        msg=f'{h} {b} pair {i}')
                t.count('bessel')
                t.sig('bessel', h, b, i, form)


CASES = [
    ('fullspace', fullspace_case, 136, 3000),
    ('layered', layered_case, 120, 3000),
    ('loop', loop_case, 60, 1500),
    ('bessel', bessel_case, 40, 800),
]
