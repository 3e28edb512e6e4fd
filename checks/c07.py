"""C07: diffusive analytical solutions."""
import numpy as np

from vlib import gen
from vlib.util import dip, warm_dipole

RULE = ('random half-spaces and surveys; closed forms against layered '
        'modelling, against the full-space solution and between domains '
        '(numerical Laplace integral); parts summed; distinct by component, '
        'domain, depth relation and anisotropy')
REQUIRED = {'layered': 100, 'layered_lap': 40, 'fs': 100, 'parts': 100,
            'laplace_integral': 60, 'time_modelling': 4}
ASSUMPTIONS = ['air of 1e16 Ohm.m and zero permittivity is the diffusive '
               'limit of the layered model']
DAB = (11, 12, 13, 21, 22, 23, 31, 32, 33)


def warmup(group):
    warm_dipole(group == 'lap')


def ana(src, rec, res, ft, **kw):
    import empymod
    return np.asarray(empymod.analytical(
        src, rec, res, ft, verb=0, squeeze=False, **kw))


def survey(rng, n=3, surface=True):
    """Half-space, depths of source and receiver, offsets, skin depth."""
    res = gen.lu(rng, .2, 300)
    aniso = float(rng.choice([1., gen.lu(rng, .5, 3)]))
    zs = gen.lu(rng, 5, 300)
    zr = gen.lu(rng, 5, 300)
    kind = rng.choice(['gen', 'same', 's0', 'r0', 'both0'],
                      p=[.5, .2, .1, .1, .1])
    if kind == 'same':
        zr = zs
    if surface and kind in ('s0', 'both0'):
        zs = 0.
    if surface and kind in ('r0', 'both0'):
        zr = 0.
    x, y = gen.offsets(rng, n, 50, 3000)
    return float(res), aniso, float(zs), float(zr), x, y, str(kind)


def layered_case(t, laplace=False):
    rng = t.rng
    ab = DAB[t.index % 9]
    res, aniso, zs, zr, x, y, kind = survey(rng)
    # Deltas instead of the surface itself for the layered model.
    r = np.hypot(x, y)
    # Frequency for which the offsets are 0.05 to 6 skin depths.
    skin = np.median(r)/gen.lu(rng, .05, 6, 2)
    freq = np.sort(res/(np.pi*4e-7*np.pi*skin**2))
    if rng.random() < .5:
        freq = freq[::-1].copy()
    if laplace:
        freq = -2*np.pi*freq
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, res=res, aniso=aniso, freq=freq)
    a = ana([0, 0, zs], [x, y, zr], res, freq, solution='dhs', ab=ab,
            aniso=aniso)
    parts = ana([0, 0, zs], [x, y, zr], res, freq, solution='dsplit', ab=ab,
                aniso=aniso)
    m = {'depth': [0.], 'res': [1e16, res], 'aniso': [1., aniso],
         'epermH': [0., 0.], 'epermV': [0., 0.]}
    e = 1e-6
    kw = dict(htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0}, xdirect=True)
    o = ([0, 0, max(zs, e)], [x, y, max(zr, e)], m, freq, ab)
    b = dip(*o, **kw)
    # Size of the field, whatever the component and angle.
    sc = sum(np.abs(ana([0, 0, zs], [x, y, zr], res, freq, ab=c, aniso=aniso,
                        solution='dsplit')).sum(0) for c in (11, 22, 33))
    t.close(a, b, 'half-space-vs-layered', rtol=3e-4,
            scale=np.abs(b)+.01*sc, msg=f'ab={ab} {kind}')
    c = dip(*o, **{**kw, 'xdirect': None})
    t.close(parts[1]+parts[2], c, 'reflected-vs-layered', rtol=3e-4,
            scale=np.abs(b)+.01*sc, msg=f'ab={ab} {kind}')
    t.check(laplace == np.isrealobj(a), 'dtype', str(a.dtype))
    t.count('layered_lap' if laplace else 'layered')
    t.sig('lay', ab, kind, aniso != 1, laplace, x.min() == 0, y.min() == 0)


def layered_lap(t):
    layered_case(t, True)


def fs_case(t):
    """Diffusive full-space is the full one without displacement currents;
    permittivity and permeability are ignored."""
    rng = t.rng
    res, aniso, zs, zr, x, y, kind = survey(rng)
    zs, zr = zs*rng.choice([1, -1]), zr*rng.choice([1, -1])
    freq = gen.lu(rng, 1e-3, 1e7, 3)
    if rng.random() < .3:
        res = gen.lu(rng, 300, 1e5)
    lap = rng.random() < .4
    if lap:
        freq = -freq
    for ab in DAB:
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, res=res, aniso=aniso, freq=freq)
        o = ([1, 2, zs], [x, y, zr], res, freq)
        b = ana(*o, ab=ab, aniso=aniso, epermH=0, epermV=0)
        kw = [{}, {'epermH': float(gen.lu(rng, 1, 80))},
              {'epermH': 0., 'epermV': 0.},
              {'mpermH': 2., 'mpermV': 3.}][rng.integers(4)]
        a = ana(*o, solution='dfs', ab=ab, aniso=aniso, **kw)
        # Cancellation where the offset is small against the distance.
        lin = np.hypot(np.hypot(x, y), zr-zs)
        g = np.abs(b)
        s2 = res*aniso**3/(4*np.pi*lin**3)
        w = np.abs(2*np.pi*freq) if not lap else np.abs(freq)
        d = np.exp(-np.sqrt(w/2*(1+lap)*4e-7*np.pi/res)[:, None] *
                   lin[None]*min(1, aniso)/aniso)
        s2 = (s2*d*(1+w[:, None]*4e-7*np.pi/res*lin**2))[:, :, None]
        t.close(a, b, 'full-space', rtol=1e-9, scale=g+s2, atol=1e-300,
                msg=f'ab={ab} {kw}')
        t.count('fs')
        t.sig('fs', ab, kind, aniso != 1, lap)


def parts_case(t):
    rng = t.rng
    res, aniso, zs, zr, x, y, kind = survey(rng)
    if rng.random() < .15:
        x[0], y[0] = 0., 0.
    sig = [None, 'lap', 0, 1, -1][t.index % 5]
    r2 = np.hypot(np.median(np.hypot(x, y)), zs+zr)**2
    td = 4e-7*np.pi*r2/4/res
    ft = gen.lu(rng, .05, 50, 3)*td
    if sig is None:
        ft = 1/ft
    elif sig == 'lap':
        ft, sig = -1/ft, None
    for ab in DAB:
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, res=res, aniso=aniso, ft=ft,
               signal=sig)
        o = ([3, -5, zs], [x, y, zr], res, ft)
        kw = dict(ab=ab, aniso=aniso, signal=sig)
        full = ana(*o, solution='dhs', **kw)
        three = ana(*o, solution='dsplit', **kw)
        five = ana(*o, solution='dtetm', **kw)
        dire = ana(*o, solution='dfs', **kw)
        t.check(three.shape == (3, 3, 3, 1) and five.shape == (5, 3, 3, 1),
                'parts-shape', f'{three.shape} {five.shape}')
        sc = np.abs(three).sum(0)
        s5 = np.abs(five).sum(0) + sc
        t.close(three.sum(0), full, 'three-parts', rtol=1e-11, scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        t.close(five.sum(0), full, 'five-parts', rtol=1e-11, scale=s5,
                atol=1e-300, msg=f'ab={ab}')
        t.close(five[0]+five[1], three[0], 'direct-te-tm', rtol=1e-11,
                scale=s5, atol=1e-300, msg=f'ab={ab}')
        t.close(five[2]+five[3], three[1], 'reflected-te-tm', rtol=1e-11,
                scale=s5, atol=1e-300, msg=f'ab={ab}')
        t.close(five[4], three[2], 'air-part', rtol=1e-14,
                scale=np.abs(three[2]), atol=1e-300)
        t.close(dire, three[0], 'direct-part', rtol=1e-14,
                scale=np.abs(three[0]), atol=1e-300)
        if ab in (13, 23, 31, 32, 33):
            t.check(np.all(five[[0, 2, 4]] == 0), 'vertical-has-te', '')
        t.count('parts')
        t.sig('parts', ab, str(sig), kind, aniso != 1)


def integral_case(t):
    """Laplace integral of impulse/step of every part is the s-domain part."""
    rng = t.rng
    ab = DAB[t.index % 9]
    res, aniso, zs, zr, x, y, kind = survey(rng, 1, surface=False)
    r = float(np.hypot(x, y)[0])
    zs, zr = max(zs, .05*r), max(zr, .05*r)
    sig = int(rng.choice([0, 1, -1]))
    mu = 4e-7*np.pi
    td = mu*(r**2+(zs+zr)**2)/4/res
    s = gen.lu(rng, .1, 10, 2)/td
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, res=res, aniso=aniso, s=s,
           signal=sig)
    o = ([0, 0, zs], [x, y, zr], res)
    kw = dict(ab=ab, aniso=aniso)
    u = np.linspace(np.log(td*1e-4), np.log(60/s.min()), 700)
    tt = np.exp(u)
    names = {'dsplit': 3, 'dtetm': 5}
    for sol in names:
        F = ana(*o, -s, solution=sol, **kw)[:, :, 0, 0]
        F0 = ana(*o, np.array([-1e-20/td]), solution=sol, **kw)[:, :, 0, 0]
        h = ana(*o, tt, solution=sol, signal=sig, **kw)[:, :, 0, 0]
        w = np.gradient(u)
        w[0], w[-1] = w[0]/2, w[-1]/2
        I = (h[:, None, :]*np.exp(-s[:, None]*tt)*tt*w).sum(-1)
        I = I + h[:, None, 0]*tt[0]
        if sig == 0:
            want, tol = F, 2e-6
        elif sig == 1:
            want, tol = F/s, 1e-4
        else:
            want, tol = (F0-F)/s, 1e-4
        # The parts of the split in TE and TM contain poles in the offset.
        sc = np.abs(F)*(s**-abs(sig)) + np.abs(F0)*(s**-abs(sig))
        if ab in (12, 21):
            D = ana(*o, -s, solution=sol, ab=11, aniso=aniso)[:, :, 0, 0]
            sc = sc + np.abs(D)*s**-abs(sig)
        t.close(I, want, 'laplace-integral', rtol=tol,
                scale=sc+1e-3*sc.sum(0), msg=f'{sol} ab={ab} signal={sig}')
    # Switch-on plus switch-off is the static field, at any time.
    ft = gen.lu(rng, .01, 1e6, 5)*td
    on, off, st = (ana(*o, q, solution='dhs', signal=g, **kw)
                   for q, g in ((ft, 1), (ft, -1),
                                (np.array([-1e-20/td]), None)))
    stp = np.abs(ana(*o, np.array([-1e-20/td]), solution='dsplit',
                     **kw)).sum(0)
    t.close(on+off, 0*on+st, 'on-plus-off', rtol=2e-5, scale=0*on+stp,
            msg=f'ab={ab} times {ft/td} td')
    t.count('laplace_integral')
    t.sig('int', ab, sig, kind, aniso != 1)


def time_case(t):
    """Time-domain layered modelling."""
    rng = t.rng
    ab = int(rng.choice(DAB))
    res, aniso, zs, zr, x, y, kind = survey(rng, 1, surface=False)
    sig = [0, 1, -1][t.index % 3]
    r2 = float((x**2+y**2)[0] + (zs+zr)**2)
    times = 4e-7*np.pi*r2/4/res*gen.lu(rng, .3, 10, 3)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, res=res, aniso=aniso, times=times,
           signal=sig)
    a = ana([0, 0, zs], [x, y, zr], res, times, solution='dhs', ab=ab,
            signal=sig, aniso=aniso)
    m = {'depth': [0.], 'res': [1e16, res], 'aniso': [1., aniso],
         'epermH': [0., 0.], 'epermV': [0., 0.]}
    p = sum(np.abs(ana([0, 0, zs], [x, y, zr], res, times, ab=c, signal=sig,
                       aniso=aniso, solution='dsplit')).sum(0)
            for c in (11, 22, 33))
    b = dip([0, 0, zs], [x, y, zr], m, times, ab, signal=sig, xdirect=True,
            htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0}, ft='dlf',
            ftarg={'dlf': 'key_601_2009', 'pts_per_dec': -1})
    t.close(a, b, 'time-vs-layered', rtol=2e-3,
            scale=np.abs(b)+.1*p, msg=f'ab={ab} {sig}')
    t.count('time_modelling')
    t.sig('time', ab, sig)


CASES = [
    ('layered', layered_case, 180, 4000),
    ('layered_lap', layered_lap, 72, 2000, 'lap'),
    ('fs', fs_case, 80, 2000),
    ('parts', parts_case, 60, 1500),
    ('integral', integral_case, 108, 2500),
    ('time', time_case, 12, 200),
]
