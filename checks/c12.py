"""C12: time-domain responses are mutually consistent and causal."""
import numpy as np

from vlib import gen
from vlib.util import bip, dip, warmup  # noqa: F401

RULE = ('random models, surveys and times: switch-on + switch-off against the '
        'static field, differences of the step responses against the '
        'quadrature of the impulse response, early times, superposition of '
        'sources, time-domain results against the transform sum of the '
        'frequency-domain results; distinct by component, layers, signal')
REQUIRED = {'onoff': 60, 'integral': 80, 'off_integral': 30, 'early': 40,
            'assembled': 100, 'linear': 30}
ASSUMPTIONS = ['step and impulse responses through digital filters, accuracy '
               'as calibrated', 'switch-off only for electric sources and '
               'receivers, with the direct field in the frequency domain']
IMP = {'ft': 'dlf', 'ftarg': {'dlf': 'key_201_2012', 'pts_per_dec': 0}}
LOW = {'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009', 'pts_per_dec': 0}}
ON = {'ft': 'dlf', 'ftarg': {'dlf': 'key_201_2012', 'pts_per_dec': 0}}
OFF = {'ft': 'dlf', 'ftarg': {'dlf': 'key_601_2009', 'pts_per_dec': 0}}


def survey(rng, ee=None, n=None):
    m = gen.model(rng, nl=int(rng.integers(1, 5)), res=(.3, 100), perm=False,
                  air=bool(rng.random() < .3))
    nl = len(m['res'])
    zs = gen.zpoint(rng, m['depth'], layer=nl-1)
    zr = zs + gen.lu(rng, 20, 150)*rng.choice([-1, 1])
    if nl > 1:
        zr = max(zr, m['depth'][0] + 1)
    n = n or int(rng.choice([1, 3]))
    x, y = gen.offsets(rng, n, 100, 800, axis=0)
    R = np.hypot(np.hypot(x, y), zr-zs).min()
    if ee is None:
        ee = rng.random() < .5
    # Step responses of magnetic pairs have no limit (pole at zero frequency).
    abs_ = gen.EE if ee else [a for a in gen.ABS_NZ
                              if a//10 < 4 or a % 10 < 4]
    ab = int(rng.choice(abs_))
    rho = m['res'][-1]
    tau = 4e-7*np.pi*R**2/rho*max(m.get('mpermH', [1]))
    return m, zs, zr, x, y, ab, tau


def block_size(arg, tt, ab, **kw):
    """Largest of the nine components of the same kind."""
    r, s = 3*((ab//10-1)//3), 3*((ab % 10-1)//3)
    return max(np.abs(dip(*arg, tt, 10*(r+i)+s+j, **kw)).max()
               for i in (1, 2, 3) for j in (1, 2, 3))


def onoff_case(t):
    rng = t.rng
    m, zs, zr, x, y, ab, tau = survey(rng, True)
    tt = tau*gen.lu(rng, .1, 5, int(rng.choice([1, 3])))
    xd = [True, None][int(rng.integers(2))]
    arg = ([0, 0, zs], [x, y, zr], m)
    t.case(zs=zs, zr=zr, x=x, y=y, ab=ab, times=tt, xdirect=xd, **m)
    on = dip(*arg, tt, ab, signal=1, xdirect=xd, **ON)
    off = dip(*arg, tt, ab, signal=-1, xdirect=xd, **OFF)
    dc = dip(*arg, 1e-12/tau, ab, xdirect=xd)
    t.check(np.isrealobj(on) and np.isrealobj(off), 'real')
    t.check(np.all(np.abs(dc.imag) <= 1e-4*np.abs(dc).max() + 1e-30), 'static-real',
            dc)
    sc = np.maximum(np.abs(dc.real), np.maximum(np.abs(on), np.abs(off)))
    # The largest of any of the components (cancellation).
    sc = max(sc.max(), 1e-4*block_size(arg, 1e-12/tau, ab, xdirect=xd))
    t.close(on+off, np.broadcast_to(dc.real, on.shape), 'on-plus-off',
            rtol=5e-4, scale=sc, atol=1e-40, msg=f'ab {ab}')
    t.count('onoff', tt.size)
    t.sig('onoff', gen.nl_sig(m, zs, zr, ab, xd))


def integral_case(t, off=False):
    """Differences of step responses are integrals of the impulse response."""
    rng = t.rng
    m, zs, zr, x, y, ab, tau = survey(rng, off or None, 1)
    t1 = tau*gen.lu(rng, .1, 3)
    t2 = t1*gen.lu(rng, 1.2, 3)
    xd = True if off else [True, False][int(rng.integers(2))]
    arg = ([0, 0, zs], [x, y, zr], m)
    t.case(zs=zs, zr=zr, x=x, y=y, ab=ab, t1=t1, t2=t2, xdirect=xd, off=off,
           **m)
    g, w = np.polynomial.legendre.leggauss(14)
    L = np.log(t2/t1)
    q = t1*np.exp(L*(1+g)/2)
    # The longer filters use frequencies where the airwave is rough.
    air = m['res'][0] > 1e6
    imp = dip(*arg, q, ab, signal=0, xdirect=xd,
              **(LOW if air else IMP))[:, 0, 0]
    integ = (imp*q*w).sum()*L/2
    sg = -1 if off else 1
    step = dip(*arg, [t1, t2], ab, signal=sg, xdirect=xd,
               **(OFF if off else LOW if air else ON))[:, 0, 0]
    t.check(np.isrealobj(imp), 'real')
    sc = max(np.abs(step).max(), np.abs(imp*q).max(), 1e-4*block_size(
        arg, [t1, t2], ab, signal=1, xdirect=xd, **(LOW if air else ON)))
    t.close(sg*(step[1]-step[0]), integ, 'off-integral' if off else
            'integral', rtol=3e-3 if air else 5e-4, scale=sc, atol=1e-40, msg=f'ab {ab}')
    t.count('off_integral' if off else 'integral')
    t.sig('integral', off, gen.nl_sig(m, zs, zr, ab, xd))


def off_case(t):
    integral_case(t, True)


def early_case(t):
    """Diffusion: nothing arrives before; switch-off starts at static."""
    rng = t.rng
    m, zs, zr, x, y, ab, tau = survey(rng, None)
    if m['res'][0] > 1e6:
        m['res'][0] = 5.
    m.update(epermH=[0.]*len(m['res']))
    # The quickest way through any layer.
    f = gen.full(m)
    rho = (f['res']*f['aniso']**2).max()
    rho = max(rho, f['res'].max())
    mu = min(f['mpermH'].min(), f['mpermV'].min())
    R = np.hypot(np.hypot(x, y), zr-zs).min()
    tau = 4e-7*np.pi*R**2/rho*mu
    ee = ab % 10 < 4 and ab//10 < 4
    arg = ([0, 0, zs], [x, y, zr], m)
    t.case(zs=zs, zr=zr, x=x, y=y, ab=ab, tau=tau, **m)
    grid = tau*np.logspace(-1, 2, 13)
    early = tau*gen.lu(rng, 1e-3, 5e-3, 3)
    for signal, kw in [(0, ON), (1, ON)]:
        lag = {'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009',
                                      'pts_per_dec': -1}}
        big = np.abs(dip(*arg, grid, ab, signal=signal, xdirect=True, **lag)
                     ).max()
        big = max(big, 1e-3*block_size(arg, grid, ab, signal=signal,
                                       xdirect=True, **lag))
        v = dip(*arg, early, ab, signal=signal, xdirect=True, **kw)
        t.close(v, 0*v, f'early-{signal}', rtol=2e-4, scale=big,
                msg=f'ab {ab}')
        t.count('early')
    if ee:
        dc = dip(*arg, 1e-12/tau, ab, xdirect=True).real
        v = dip(*arg, early, ab, signal=-1, xdirect=True, **OFF)
        t.close(v, np.broadcast_to(dc, v.shape), 'early-off', rtol=5e-4,
                scale=max(np.abs(dc).max(), big), msg=f'ab {ab}')
    t.sig('early', gen.nl_sig(m, zs, zr, ab))


def assembled_case(t):
    """Time-domain result is the transform sum of the frequency results."""
    import empymod
    rng = t.rng
    m = gen.model(rng)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    n = int(rng.choice([1, 2, 4]))
    x, y = gen.offsets(rng, n)
    signal = int(rng.choice([-1, 0, 1]))
    kind = 'sin' if signal >= 0 else 'cos'
    fa = {'dlf': str(rng.choice(['key_81_2009', 'key_101_2012',
                                 'grayver_50_2021'][:3 - (signal < 0)])),
          'pts_per_dec': 0}
    if signal == 0 and fa['dlf'][0] == 'k' and rng.random() < .4:
        fa['kind'] = kind = 'cos'
    if rng.random() < .3:
        fa['pts_per_dec'] = -1
    tt = gen.lu(rng, 1e-4, 1e2)*gen.lu(rng, .5, 2, int(rng.choice([1, 2, 4])))
    xd = [True, False, None][int(rng.integers(3))]
    kw = dict(signal=signal, ft='dlf', ftarg=fa, xdirect=xd)
    fl = getattr(empymod.filters.Fourier(), fa['dlf'])
    w = getattr(fl, kind)

    def assemble(fun):
        out = []
        for one in tt:
            om = fl.base/one
            F = fun(om/2/np.pi)
            if signal:
                F = F*signal/(1j*om)[:, None]
            p = F.real if kind == 'cos' else -F.imag
            out.append((np.where(p == 0, 0, p)*w[:, None]).sum(0)/one*2/np.pi)
        return np.array(out)

    rout = str(rng.choice(['dipole', 'dipole', 'bipole', 'loop']))
    off = np.hypot(x, y)
    if rout == 'dipole':
        ab = int(rng.choice(gen.ABS))
        t.case(zs=zs, zr=zr, x=x, y=y, ab=ab, times=tt, **m, **kw)
        v = dip([0, 0, zs], [x, y, zr], m, tt, ab, **kw)[:, :, 0]

        def fun(f):
            return dip([0, 0, zs], [x, y, zr], m, f, ab,
                       xdirect=xd)[:, :, 0]
    else:
        src = [1., 2., zs, rng.uniform(-180, 180), rng.uniform(-90, 90)]
        rec = [x, y, zr, rng.uniform(-180, 180), rng.uniform(-90, 90)]
        bk = dict(xdirect=xd, strength=float(rng.choice([0, 2., -7.])))
        if rout == 'bipole':
            bk.update(msrc=str(rng.choice(['', 'x'])),
                      mrec=str(rng.choice(['', 'x', 'b', 'j'])))
            bk = {k: {'': False, 'x': True, 'b': 'b', 'j': 'j'}.get(v, v)
                  if isinstance(v, str) else v for k, v in bk.items()}
            call = bip
        else:
            bk['mrec'] = [True, False, 'loop'][int(rng.integers(3))]
            ck = {'verb': 0, 'squeeze': False, 'ht': 'dlf', 'htarg': {
                'dlf': 'key_201_2009', 'pts_per_dec': 0}}

            def call(s, r, mm, freqtime, **k):
                return np.asarray(empymod.loop(s, r, freqtime=freqtime, **ck, **k,
                                               **mm))
        t.case(src=src, rec=rec, times=tt, rout=rout, bk=bk, **m, **kw)
        v = call(src, rec, m, tt, **{**kw, **bk})[:, :, 0]

        def fun(f):
            return call(src, rec, m, f, **bk)[:, :, 0]

    t.check(np.isrealobj(v), 'real')
    want = assemble(fun)
    big = 0
    for one in tt:
        om = fl.base/one
        F = fun(om/2/np.pi)/(np.abs(om)[:, None] if signal else 1)
        big = big + (np.abs(F)*np.abs(w)[:, None]).sum(0)/one
    lag = fa['pts_per_dec'] == -1
    if lag:
        t.close(v, want, 'assembled-lagged', rtol=1e-2, scale=big, atol=1e-100)
    else:
        t.close(v, want, 'assembled', rtol=1e-12, scale=big, atol=1e-250,
                msg=f'{rout} {kw}')
    t.count('assembled')
    t.sig('assembled', rout, signal, kind, len(m['res']), tt.size, off.size)


def linear_case(t):
    """Superposition of sources, amplitudes, finite bipoles in time."""
    rng = t.rng
    m, zs, zr, x, y, ab, tau = survey(rng, None, 2)
    tt = tau*gen.lu(rng, .2, 5, 2)
    signal = int(rng.choice([0, 0, 1]))
    ms, mr = bool(rng.random() < .5), bool(rng.random() < .5)
    a, d = rng.uniform(-180, 180), rng.uniform(-90, 90)
    st = float(rng.choice([3., -2., 100.]))
    rec = [x, y, zr, 20., -15.]
    kw = dict(signal=signal, xdirect=False, msrc=ms, mrec=mr, **ON)
    t.case(zs=zs, rec=rec, times=tt, azm=a, dip=d, strength=st, msrc=ms,
           mrec=mr, signal=signal, **m)
    parts = [bip([0, 0, zs, *o], rec, m, tt, **kw)[:, :, 0]
             for o in ((0, 0), (90, 0), (0, 90))]
    ra, rd = np.deg2rad([a, d])
    u = [np.cos(ra)*np.cos(rd), np.sin(ra)*np.cos(rd), np.sin(rd)]
    want = st*sum(c*p for c, p in zip(u, parts))
    got = bip([0, 0, zs, a, d], rec, m, tt, strength=st, **kw)[:, :, 0]
    sc = abs(st)*sum(np.abs(p) for p in parts)
    t.close(got, want, 'superposition', rtol=1e-9, scale=sc.max(),
            atol=1e-100, msg=f'{ms} {mr}')
    t.count('linear')
    t.sig('linear', ms, mr, signal, len(m['res']))


CASES = [('onoff', onoff_case, 60, 900),
         ('integral', integral_case, 100, 1500),
         ('off', off_case, 40, 700),
         ('early', early_case, 40, 700),
         ('assembled', assembled_case, 120, 2500),
         ('linear', linear_case, 40, 600)]
