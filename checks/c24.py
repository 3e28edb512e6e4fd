"""C24: Laplace-domain results are the real-valued continuation."""
import numpy as np

from vlib import gen, ref
from vlib.util import DLF, captured, contrast, dip, bip, rtol_for, warm_dipole

RULE = ('random models, surveys and negative frequencies: dipole fields '
        'against an independent Maxwell solver at real Laplace parameters, '
        'all Hankel methods against each other, closed-form direct fields '
        'against the wavenumber domain, rotated sources and receivers as '
        'sums, Laplace integrals of time responses; distinct by layers, '
        'combination, method, type of source and receiver')
REQUIRED = {'reference': 500, 'direct': 150, 'methods': 60, 'bipole': 60,
            'integral': 24, 'fullspace_continuation': 100}
ASSUMPTIONS = ['rounding of the recursion bounded by 1e-8 + 3e-15*contrast',
               'impulse response of diffusive models']


def warmup(group):
    warm_dipole(True)
    if group == 't':
        warm_dipole()


def real(t, a):
    t.check(np.isrealobj(a) and np.all(np.isfinite(a)), 'not-real', a.dtype)


def sval(rng, n=None, lo=1e-2, hi=1e5):
    n = n or int(rng.integers(1, 4))
    return gen.lu(rng, lo, hi, n)


def ref_case(t):
    import empymod
    rng = t.rng
    for _ in range(6):
        m = gen.model(rng)
        zs = gen.zpoint(rng, m['depth'])
        zr = zs if rng.random() < .15 else gen.zpoint(rng, m['depth'])
        n = int(rng.integers(1, 4))
        x, y = gen.offsets(rng, n)
        s = sval(rng)
        ab = int(rng.choice(gen.ABS))
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, s=s, **m)
        d = dip([3, -4, zs], [x+3, y-4, zr], m, -s, ab)[:, :, 0]
        real(t, d)
        fl = getattr(empymod.filters.Hankel(), DLF)
        if ab in (36, 63):
            t.check(np.all(d == 0), 'zero-combination', d)
            continue
        r, sc = ref.dlf_field(gen.full(m), s, zs, zr, ab, np.hypot(x, y),
                              np.arctan2(y, x), fl, laplace=True)
        t.check(np.abs(r.imag).max() <= 1e-12*sc.max(), 'reference-imag', r)
        t.close(d, r.real, 'layered-field', rtol=rtol_for(m), scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        t.count('reference', d.size)
        t.sig(*gen.nl_sig(m, zs, zr, ab))


def direct_case(t):
    """Closed-form direct field (xdirect True) and secondary field (None)."""
    import empymod
    rng = t.rng
    for _ in range(5):
        m = gen.model(rng, nl=int(rng.choice([1, 2, 3])), air=False,
                      res=(.1, 300))
        lay = int(rng.integers(len(m['res'])))
        zs = gen.zpoint(rng, m['depth'], layer=lay, on_if=0)
        x, y = gen.offsets(rng, 2, 60, 400)
        zr = gen.zpoint(rng, m['depth'], layer=lay, on_if=0)
        if abs(zr-zs) < 25:
            continue
        ab = int(rng.choice(gen.ABS_NZ))
        res = m['res'][lay]
        s = sval(rng, 1, .01, 10)/(4e-7*np.pi/res*100**2)
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, s=s, **m)
        fl = getattr(empymod.filters.Hankel(), 'wer_201_2018')
        _, sc = ref.dlf_field(gen.full(m), s, zs, zr, ab, np.hypot(x, y),
                              np.arctan2(y, x), fl, laplace=True)
        kw = {'htarg': {'dlf': 'wer_201_2018', 'pts_per_dec': 0}}
        o = ([0, 0, zs], [x, y, zr], m, -s, ab)
        a = dip(*o, xdirect=True, **kw)[:, :, 0]
        b = dip(*o, xdirect=False, **kw)[:, :, 0]
        c = dip(*o, xdirect=None, **kw)[:, :, 0]
        real(t, a)
        real(t, c)
        # sc: weighted kernel magnitudes; the filter error is relative to it
        t.close(a, b, 'direct-field', rtol=1e-7, scale=np.abs(b),
                atol=1e-9*sc, msg=f'ab={ab}')
        if len(m['res']) > 1:
            fm = {k: ([] if k == 'depth' else [v[lay]]) for k, v in m.items()}
            d = dip([0, 0, zs], [x, y, zr], fm, -s, ab, xdirect=True)[:, :, 0]
            t.close(a-d, c, 'secondary-field', rtol=1e-9,
                    scale=np.abs(a)+np.abs(d), atol=1e-300, msg=f'ab={ab}')
        t.count('direct')
        t.sig('direct', len(m['res']), lay, ab, 'mpermV' in m)


def continuation_case(t):
    """The closed form is analytic in s: its value at real s is fixed by the
    ones along the frequency axis (Poisson's integral)."""
    rng = t.rng
    import empymod
    for _ in range(4):
        res = float(gen.lu(rng, .3, 30))
        m = {'depth': [], 'res': [res]}
        if rng.random() < .6:
            m['aniso'] = [float(gen.lu(rng, .5, 3))]
        if rng.random() < .5:
            m['mpermH'] = [float(gen.lu(rng, 1, 3))]
        m['epermH'] = [0.]
        m['epermV'] = [0.]
        ab = int(rng.choice(gen.EE))
        zs, zr = 0., float(rng.uniform(-200, 200))
        x, y = gen.offsets(rng, 1, 60, 400, axis=0)
        R = np.sqrt(x[0]**2+y[0]**2+zr**2)
        s = float(sval(rng, 1, .1, 10)[0]/(4e-7*np.pi/res*R**2))
        # f(s) = 1/pi int s/(s^2+w^2) f(iw) dw, f real part even; w = s tan(u)
        gx, gw = np.polynomial.legendre.leggauss(60)
        lo = np.pi/2-np.logspace(np.log10(np.pi/2), -6, 25)
        small = np.logspace(-9, np.log10(lo[1]), 30)
        a = np.r_[0, small[:-1], lo[1:-1]][:, None]
        b = np.r_[small, lo[2:]][:, None]
        u = ((b-a)/2*gx+(a+b)/2).ravel()
        w = ((b-a)/2*gw).ravel()
        f = s*np.tan(u)/2/np.pi
        t.case(ab=ab, zr=zr, x=x, y=y, s=s, **m)
        old = empymod.get_minimum()
        empymod.set_minimum(min_freq=1e-30)
        try:
            v = dip([0, 0, zs], [x, y, zr], m, f, ab, xdirect=True)[:, 0, 0]
            d = dip([0, 0, zs], [x, y, zr], m, [-s], ab, xdirect=True)
        finally:
            empymod.set_minimum(**old)
        want = 2/np.pi*np.sum(w*v.real)
        sc = 2/np.pi*np.sum(w*np.abs(v.real))
        real(t, d)
        t.close(d[0, 0, 0], want, 'continuation', rtol=1e-9, scale=sc,
                msg=f'ab={ab}')
        t.count('fullspace_continuation')
        t.sig('cont', ab, 'aniso' in m, 'mpermH' in m)


METHODS = [
    ('dlf', {'dlf': 'key_201_2012', 'pts_per_dec': 0}, 1e-4),
    ('dlf', {'dlf': 'key_201_2012', 'pts_per_dec': -1}, 1e-3),
    ('dlf', {'dlf': 'wer_201_2018', 'pts_per_dec': 40}, 1e-3),
    ('qwe', {'rtol': 1e-9, 'atol': 1e-30, 'nquad': 51, 'maxint': 300,
             'diff_quad': 100}, 1e-4),
    ('qwe', {'rtol': 1e-9, 'atol': 1e-30, 'maxint': 300, 'pts_per_dec': 80,
             'diff_quad': 100}, 1e-3),
    ('quad', {'rtol': 1e-9, 'atol': 1e-30, 'limit': 2000, 'a': 1e-7,
              'b': 3., 'pts_per_dec': 400}, 1e-3),
]


def methods_case(t):
    rng = t.rng
    # Diffusive models, receivers not at the depth of the source.
    for _ in range(30):
        m = gen.model(rng, air=False, perm=False, res=(1, 100))
        zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
        if 25 < abs(zs-zr) < 200:
            break
    else:
        return
    x, y = gen.offsets(rng, 2, 100, 400, axis=.1)
    ab = int(rng.choice(gen.ABS_NZ))
    s = sval(rng, int(rng.integers(1, 3)), 1e-1, 300)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, s=s, **m)
    kw = {'xdirect': bool(rng.integers(2))}
    o = ([0, 0, zs], [x, y, zr], m, -s, ab)
    want = dip(*o, htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0}, **kw)
    import empymod
    fl = empymod.filters.Hankel().wer_201_2018
    _, sc = ref.dlf_field(gen.full(m), s, zs, zr, ab, np.hypot(x, y),
                          np.arctan2(y, x), fl, laplace=True)
    k = [t.index % 6, (t.index+3) % 6]
    for i in k:
        ht, arg, tol = METHODS[i]
        with captured() as out:
            got = dip(*o, ht=ht, htarg=dict(arg), **{**kw, 'verb': 1})
        if 'WARNING' in out.getvalue():
            t.count('warned')
            continue
        real(t, got)
        t.close(got[:, :, 0], want[:, :, 0], 'methods', rtol=tol,
                scale=np.abs(want[:, :, 0]), atol=2e-5*sc,
                msg=f'{ht} {arg} ab={ab}')
        t.count('methods')
        t.sig('methods', i, ab, len(m['res']))


def unit(a, d):
    a, d = np.deg2rad(a), np.deg2rad(d)
    return np.array([np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)])


def bipole_case(t):
    """Rotated sources and receivers of all types: sums of dipole fields,
    times the real s mu and eta for fluxes and currents."""
    rng = t.rng
    m = gen.model(rng, aniso=rng.random() < .5, vti_mu=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 2)
    s = sval(rng)
    a, b = (np.round(rng.uniform(-180, 180, 2), 1) for _ in range(2))
    b = b/2
    a[0] = float(rng.choice([a[0], 0., 90.]))
    msrc = [False, True, 'b'][rng.integers(3)]
    mrec = [False, True, 'j', 'b'][rng.integers(4)]
    t.case(m=m, zs=zs, zr=zr, x=x, y=y, s=s, a=a, b=b, msrc=msrc, mrec=mrec)
    S, R = unit(a[0], b[0]), unit(a[1], b[1])
    got = bip([0, 0, zs, a[0], b[0]], [x, y, zr, a[1], b[1]], m, -s,
              msrc=msrc, mrec=mrec)[:, :, 0]
    want, scale = 0, 0
    for i in range(3):
        for j in range(3):
            ab = 10*(i+1+3*(mrec in (True, 'b'))) + j+1+3*bool(msrc)
            d = dip([0, 0, zs], [x, y, zr], m, -s, ab)[:, :, 0]
            want, scale = want+d*R[i]*S[j], scale+np.abs(d)
    f = gen.full(m)
    eta, _, zeta, _ = ref.material(f, s, laplace=True)
    fac = np.ones((s.size, 1))
    if mrec == 'b':
        fac = fac*zeta[:, [gen.layer_of(m['depth'], zr)]]
    elif mrec == 'j':
        fac = fac*eta[:, [gen.layer_of(m['depth'], zr)]]
    if msrc == 'b':
        fac = fac*zeta[:, [gen.layer_of(m['depth'], zs)]]
    real(t, got)
    t.close(got, fac*want, 'bipole', rtol=rtol_for(m), scale=fac*scale,
            atol=1e-300)
    t.count('bipole')
    t.sig('bip', msrc, mrec, len(m['res']), a[0] in (0., 90.))


def integral_case(t):
    """int f(t) exp(-st) dt of the impulse response; of the step response."""
    rng = t.rng
    ab = int(rng.choice([11, 12, 22, 13, 33, 31, 32, 66, 55, 64, 46, 45]))
    m = gen.model(rng, nl=int(rng.choice([1, 2, 3])), air=False, perm=False,
                  mperm=rng.random() < .3, res=(1, 50))
    m['epermH'] = [0.]*len(m['res'])
    m['epermV'] = [0.]*len(m['res'])
    lay = len(m['res'])-1
    zs = gen.zpoint(rng, m['depth'], layer=lay, on_if=0)
    zr = zs+float(gen.lu(rng, 30, 150))
    x, y = gen.offsets(rng, 1, 100, 400, axis=0)
    R = np.sqrt(x[0]**2+y[0]**2)
    tau = 4e-7*np.pi*R**2/m['res'][-1]
    s = float(gen.lu(rng, .3, 10))/tau
    sig = int(rng.choice([0, 0, 1]))
    if ab % 10 > 3:
        sig = 0
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, s=s, signal=sig, **m)
    kw = {'xdirect': bool(rng.integers(2)), 'ft': 'dlf',
          'ftarg': {'dlf': 'key_201_2012', 'pts_per_dec': -1},
          'htarg': {'dlf': 'key_201_2012', 'pts_per_dec': 0}}
    tt = np.logspace(-4, 2.2, 600)/s
    v = dip([0, 0, zs], [x, y, zr], m, tt, ab, signal=sig, **kw)[:, 0, 0]
    kw.pop('ft'), kw.pop('ftarg')
    d = dip([0, 0, zs], [x, y, zr], m, [-s], ab, **kw)[0, 0, 0]
    lt = np.log(tt)
    g = v*np.exp(-s*tt)*tt
    want = np.sum((g[1:]+g[:-1])/2*np.diff(lt))
    sc = np.sum(np.abs(g))*(lt[1]-lt[0])
    if sig == 1:
        want, sc = want*s, sc*s
    t.close(d, want, 'laplace-integral', rtol=2e-3, scale=sc,
            msg=f'ab={ab} signal={sig}')
    t.count('integral')
    t.sig('int', ab, sig, len(m['res']), kw['xdirect'])


CASES = [('reference', ref_case, 200, 3000), ('direct', direct_case, 100, 1500),
         ('continuation', continuation_case, 40, 500),
         ('methods', methods_case, 60, 800), ('bipole', bipole_case, 100, 1500),
         ('integral', integral_case, 40, 500, 't')]
