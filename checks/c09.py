"""C09: Fourier transform methods agree and reproduce closed forms."""
import numpy as np
import scipy as sp
from scipy.interpolate import InterpolatedUnivariateSpline as Spline

from vlib import gen
from vlib.run import Skip
from vlib.util import quad_log, captured, dip, warmup  # noqa: F401

RULE = ('closed forms (exponential and diffusive decay and their random sums) '
        'and random layered models through every Fourier filter in every '
        'form, QWE, FFTLog (bias, sampling), FFT; distinct by method, '
        'settings, signal')
REQUIRED = {'dlf': 400, 'qwe': 60, 'fftlog': 200, 'fft': 40, 'layered': 60,
            'dirac': 30}
ASSUMPTIONS = ['accuracy per filter and signal as calibrated on the unchanged '
               'tree (times 5 or more); times between 0.1 and 5 '
               'characteristic times',
               'known finding: the spectrum in fourier_fft is misplaced for '
               'positive frequencies']
FILTERS = ['key_81_2009', 'key_241_2009', 'key_601_2009', 'key_101_2012',
           'key_201_2012', 'grayver_50_2021']
# (impulse, switch-on, switch-off of exp, switch-off of diff) per form.
# Relative to the size of the response.
STD, LAG, SPL = 0, 1, 2
TOL = {
    'key_81_2009': [(5e-4, 1e-3, 1e-8, .15), (5e-3, 1e-3, 5e-4, .15),
                    (5e-4, 1e-3, 2e-6, .15)],
    'key_241_2009': [(1e-7, 2e-6, 1e-10, 1e-2), (1e-3, 1e-4, 1e-4, 1e-2),
                     (1e-5, 5e-6, 2e-6, 1e-2)],
    'key_601_2009': [(1e-10, 1.5e-2, 1e-11, 1e-5), (5e-4, 1.5e-2, 2e-5, 5e-5),
                     (1e-5, 5e-2, 2e-6, 2e-5)],
    'key_101_2012': [(5e-4, 5e-4, 1e-6, .15), (3e-3, 5e-4, 3e-4, .15),
                     (5e-4, 5e-4, 2e-6, .15)],
    'key_201_2012': [(1e-7, 5e-6, 1e-11, 1e-2), (1e-3, 2e-4, 1e-4, 1e-2),
                     (1e-5, 1e-5, 2e-6, 1e-2)],
    'grayver_50_2021': [(5e-4, 3e-2, 1, 1), (2e-3, 3e-2, 1, 1),
                        (5e-4, 3e-2, 1, 1)],
}


def family(rng):
    """Spectrum, and responses to impulse, switch-on, switch-off."""
    kinds = rng.choice(['exp', 'diff'], int(rng.integers(1, 4)))
    tau0 = gen.lu(rng, 1e-5, 1e4)
    tau = tau0*gen.lu(rng, .6, 1.5, kinds.size)
    w = rng.uniform(.2, 1, kinds.size)*rng.choice([-1, 1])
    w[1:] *= rng.choice([-.3, 1], kinds.size-1)

    def spec(f):
        s = 2j*np.pi*np.asarray(f)[..., None]*tau
        return (w*np.where(kinds == 'exp', 1/(1+s), np.exp(-np.sqrt(s)))
                ).sum(-1)

    def resp(t, signal):
        x = np.asarray(t)[..., None]/tau
        on = np.where(kinds == 'exp', -np.expm1(-x),
                      sp.special.erfc(np.sqrt(.25/x)))
        off = np.where(kinds == 'exp', np.exp(-x),
                       sp.special.erf(np.sqrt(.25/x)))
        imp = np.where(kinds == 'exp', np.exp(-x), np.exp(-.25/x)/(
            2*np.sqrt(np.pi)*x**1.5))/tau
        return (w*{0: imp, 1: on, -1: off}[signal]).sum(-1)

    return kinds, tau0, spec, resp, np.abs(w).sum()


def times(rng, tau):
    n = int(rng.choice([1, 1, 2, 5, 20]))
    t = tau*gen.lu(rng, .1, 5, n)
    how = str(rng.choice(['any', 'sorted', 'reversed', 'log', 'double']))
    if how == 'sorted':
        t = np.sort(t)
    elif how == 'reversed':
        t = np.sort(t)[::-1]
    elif how == 'log' and n > 1:
        t = np.logspace(np.log10(t.min()), np.log10(t.max()), n)
    elif how == 'double':
        t = np.r_[t, t[:1]]
    return t, how


def run(spec, t, signal, ft, ftarg):
    """As in the modelling routines."""
    import empymod
    tt, freq, ft, fa, w = empymod.utils.check_time(
        t, signal, ft, ftarg, 0, new=True)
    F = spec(np.atleast_1d(freq).ravel())
    n = F.size
    # Several columns, such as for many offsets.
    F = F[:, None]*np.array([1., -2., 0.])
    v, conv = empymod.model.tem(F, np.ones(3), freq, tt, signal, ft, fa)
    return v, conv, n


def size_of(tau, signal, top):
    return top/tau if signal == 0 else top


def closed_case(t, ft, ftarg, tol, label):
    rng = t.rng
    kinds, tau, spec, resp, top = family(rng)
    tt, how = times(rng, tau)
    signal = label[0]
    t.case(ft=ft, ftarg=ftarg, signal=signal, times=tt, tau=tau, kinds=kinds)
    v, conv, nf = run(spec, tt, signal, ft, dict(ftarg))
    want = resp(tt, signal)[:, None]*np.array([1., -2., 0.])
    t.close(v, want, label[1], rtol=tol(kinds), scale=size_of(
        tau, signal, top)*2, msg=f'{ft} {ftarg} signal {signal} {kinds}')
    t.sig(label, how, tt.size, tuple(kinds))
    return nf


def dlf_case(t):
    import empymod
    rng = t.rng
    fl = empymod.filters.Fourier()
    t.check(set(FILTERS) <= set(fl.available), 'filters', fl.available)
    for name in FILTERS:
        signal = int(rng.choice([-1, 0, 1]))
        if name == 'grayver_50_2021' and signal < 0:
            continue  # No cosine coefficients.
        form = int(rng.integers(3))
        ppd = [0, -1, float(rng.choice([30, 50]))][form]
        a = {'dlf': name if rng.random() < .5 else getattr(fl, name),
             'pts_per_dec': ppd}
        if signal == 0 and name != 'grayver_50_2021':
            a['kind'] = str(rng.choice(['sin', 'cos']))
        elif rng.random() < .3:
            # Replaced by what is required for the signal.
            a['kind'] = 'sin'
        tl = TOL[name][form]

        def tol(kinds):
            if signal >= 0:
                return tl[signal]
            return tl[2 + int('diff' in kinds)]
        closed_case(t, 'dlf', a, tol,
                    (signal, f'dlf-{("std", "lagged", "splined")[form]}',
                     name, a.get('kind')))
        t.count('dlf')


def qwe_case(t):
    rng = t.rng
    signal = [-1, 0, 1][t.index % 3]
    a = {'pts_per_dec': int(rng.choice([20, 40]))}
    if rng.random() < .5:
        a.update(maxint=int(rng.choice([150, 300])))
    if rng.random() < .3:
        a.update(nquad=int(rng.choice([15, 31])))
    if rng.random() < .4:
        # Mostly by QUAD
        a.update(diff_quad=3, limit=2000)
    closed_case(t, 'qwe', a, lambda k: (2e-2, 2e-2, .3)[signal], (
        signal, 'qwe', tuple(a)))
    t.count('qwe')


def fftlog_case(t):
    rng = t.rng
    signal = [-1, 0, 1][t.index % 3]
    ppd = int(rng.integers(10, 36))
    dec = float(rng.choice([3, 3.5, 4]))
    a = {'pts_per_dec': ppd, 'add_dec': [-dec, dec]}
    q = {0: [0, 0, -.3, .2, rng.uniform(-.3, .2)],
         1: [0, -.3, -.5, -.6], -1: [0]}[signal]
    q = float(rng.choice(q))
    if q or rng.random() < .3:
        a['q'] = q

    def tol(kinds):
        if signal < 0:
            return .3 if 'diff' in kinds else 2e-2
        if signal > 0:
            return 3e-2 if q == 0 else 5e-3
        return 1e-3
    nf = closed_case(t, 'fftlog', a, tol, (signal, 'fftlog', ppd % 2, q != 0))
    t.count('fftlog')
    t.count('fftlog_odd', nf % 2)


def fft_case(t):
    """FFT against the sum it stands for, and against closed forms."""
    import empymod
    rng = t.rng
    kinds, tau, spec, resp, top = family(rng)
    signal = int(rng.choice([-1, 0, 1], p=[.2, .6, .2]))
    nfreq = int(rng.choice([2048, 1000, 4096]))
    a = {'nfreq': nfreq, 'dfreq': float(gen.lu(rng, .002, .02)/tau)}
    if rng.random() < .5:
        a['ntot'] = int(rng.choice([4096, 8192, 5000]))
    if rng.random() < .4:
        a['pts_per_dec'] = int(rng.choice([20, 40]))
    # Times the FFT computes, interpolation not needed
    _, freq, ft, fa, _ = empymod.utils.check_time(1., signal, 'fft', dict(a),
                                                  0, new=True)
    ntot = fa['ntot']
    t.check(ntot >= max(nfreq, a.get('ntot', 0)), 'fft-ntot', fa)
    dt = 1/(2*ntot*a['dfreq'])
    n = int(rng.choice([1, 3, 9]))
    hi = max(2, min(ntot-1, int(5*tau/dt)))
    k = rng.integers(1, hi, n)
    tt = k*dt
    t.case(signal=signal, tau=tau, kinds=kinds, times=tt, **a)
    v, _, _ = run(spec, tt, signal, 'fft', dict(a))
    v = v[:, 0]

    # The sum.
    F = spec(freq)
    if signal:
        F = F*signal/(2j*np.pi*freq)
    if 'pts_per_dec' in a:
        f = np.arange(1, nfreq+1)*a['dfreq']
        F = (Spline(np.log(freq), F.real)(np.log(f)) +
             1j*Spline(np.log(freq), F.imag)(np.log(f)))
        freq = f
        # Interpolated spectrum is close to the true one.
    P = np.pad(F, (0, ntot-nfreq), 'linear_ramp')
    m = np.arange(1, ntot+1)
    e = np.exp(2j*np.pi*np.outer(k, m)/(2*ntot))
    neg = (P*e).real.sum(1)
    pos = (P[:-1]*e[:, :-1]).real.sum(1)
    good = a['dfreq']*(P[0].real + neg + pos)
    # Misplaced: the second frequency sits at zero frequency.
    sh = np.exp(2j*np.pi*np.outer(k, m[:-1]-1)/(2*ntot))
    bad = a['dfreq']*(neg + (P[1:]*sh).real.sum(1))
    size = a['dfreq']*np.abs(P).sum()
    err_good = np.max(np.abs(v-good))/size
    err_bad = np.max(np.abs(v-bad))/size
    t.count('fft')
    t.sig('fft', signal, nfreq, ntot, 'pts_per_dec' in a)
    t.check(min(err_good, err_bad) < 1e-9, 'fft',
            f'differs from the sum: {err_good:.1e} {err_bad:.1e}')
    # The deviation of the misplaced spectrum is proportional to t*dfreq.
    if signal == 0:
        near = tt*a['dfreq'] < .02
        if near.any():
            t.close(v[near], resp(tt[near], 0), 'fft-closed', rtol=.15,
                    scale=top/tau*np.maximum(1, tau/tt[near]*.3), msg=f'{a}')
            t.count('fft_closed')
    if err_bad < 1e-9 < err_good:
        t.soft('fft-positive-frequencies-misplaced',
               f'deviation {err_good:.1e} of the sum of amplitudes')


def dirac_case(t):
    """Each frequency enters as one term: response is linear and causal."""
    import empymod
    rng = t.rng
    ft, a = [('dlf', {'pts_per_dec': 0}), ('dlf', {'pts_per_dec': -1}),
             ('dlf', {'pts_per_dec': 20.}), ('qwe', {}), ('fftlog', {}),
             ('fft', {'nfreq': 300})][t.index % 6]
    signal = int(rng.choice([-1, 0, 1]))
    tt, how = times(rng, gen.lu(rng, 1e-3, 1e3))
    tt = np.maximum(tt, 1e-9)
    k1, tau1, s1, _, top1 = family(rng)
    sc = 2.**rng.integers(-10, 10)
    t.case(ft=ft, ftarg=a, signal=signal, times=tt)
    kw = dict(signal=signal, ft=ft, ftarg=a)
    x, f, ft2, fa, _ = empymod.utils.check_time(tt, signal, ft, dict(a), 0,
                                                new=True)
    F1 = s1(np.ravel(f))
    F2 = rng.normal(size=F1.size) + 1j*rng.normal(size=F1.size)
    if ft == 'qwe':
        # Not linear (epsilon algorithm); homogeneous at least.
        F2 = 0*F1
    M = np.stack([F1, F2, sc*F1 + 3*F2], axis=1)
    keep = M.copy()
    v, _ = empymod.model.tem(M, np.ones(3), f, x, signal, ft2, fa)
    t.check(np.array_equal(M, keep), 'spectrum-changed', kw)
    t.check(np.isrealobj(v), 'real', kw)
    one = [empymod.model.tem(M[:, i:i+1], np.ones(1), f, x, signal, ft2,
                             fa)[0][:, 0] for i in range(3)]
    t.close(v, np.stack(one, axis=1), 'columns', rtol=1e-12,
            scale=np.abs(v).max(0), msg=kw)
    big = sc*np.abs(v[:, 0]).max() + 3*np.abs(v[:, 1]).max()
    t.close(v[:, 2], sc*v[:, 0] + 3*v[:, 1], 'linear',
            rtol=1e-6 if ft == 'qwe' else 1e-9, scale=big, msg=kw)
    t.count('dirac')
    t.sig('dirac', ft, str(a), signal, how)


def layered_case(t):
    """All methods through the modelling routine."""
    rng = t.rng
    nl = int(rng.integers(1, 5))
    m = gen.model(rng, nl=nl, res=(.5, 50), perm=False, air=False)
    zs = gen.zpoint(rng, m['depth'], layer=nl-1)
    dz = gen.lu(rng, 30, 200)*rng.choice([-1, 1])
    zr = zs + dz if nl == 1 else max(zs + dz, m['depth'][-1] + 1)
    n = int(rng.choice([1, 3]))
    x, y = gen.offsets(rng, n, 100, 800, axis=0)
    R = np.hypot(np.hypot(x, y), zr-zs).mean()
    ab = int(rng.choice(gen.EE + [14, 42, 53, 61, 25, 34]))
    tau = 4e-7*np.pi*R**2/m['res'][-1]*max(m.get('mpermH', [1]))
    tt, how = times(rng, tau)
    signal = [0, 0, 1, -1][t.index % 4]
    if ab//10 > 3 or ab % 10 > 3:
        signal = 0   # Steps of mixed pairs vanish, only rounding is left
        if nl == 1 and ab in (14, 25):
            ab = 42      # As do these in a full-space
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, times=tt, signal=signal, **m)
    arg = ([0, 0, zs], [x, y, zr], m, tt, ab)
    xd = True if signal == -1 else False
    ref = dip(*arg, signal=signal, ft='dlf', xdirect=xd,
              ftarg={'dlf': 'key_601_2009', 'pts_per_dec': 0})[:, :, 0]
    # Largest at any time of the decay.
    long = tau*np.logspace(-1.5, 1, 25)
    sc = np.abs(dip(*arg[:3], long, ab, signal=signal, ft='dlf', xdirect=xd,
                    ftarg={'dlf': 'key_201_2012', 'pts_per_dec': -1})
                [:, :, 0]).max(0)
    if not np.all(sc > 0):
        raise Skip
    meth = [('dlf', {'dlf': 'key_201_2012', 'pts_per_dec': 0}, 5e-2),
            ('dlf', {'dlf': 'key_241_2009', 'pts_per_dec': -1}, 5e-2),
            ('dlf', {'dlf': 'key_81_2009', 'pts_per_dec': 30.}, .15),
            ('qwe', {'pts_per_dec': 30}, .1),
            ('fftlog', {'pts_per_dec': 25, 'add_dec': [-3, 3]}, .1),
            ]
    if signal == 0:
        meth += [('dlf', {'dlf': 'key_201_2012', 'kind': 'cos',
                          'pts_per_dec': 0}, 3e-2),
                 ('fftlog', {'pts_per_dec': 25, 'add_dec': [-3, 3],
                             'q': -.2}, .1)]
    for ft, a, tol in meth:
        if signal == 0:
            tol = tol/10
        with captured() as o, quad_log() as log:
            v = dip(*arg, signal=signal, ft=ft, ftarg=a, xdirect=xd,
                    verb=1)[:, :, 0]
        if ft == 'qwe' and log:
            # QUADPACK stops at the last interval, without extrapolation.
            t.count('truncated')
            continue
        if 'WARNING' in o.getvalue():
            t.count('warned')
            tol = max(tol, .1)
        t.close(v, ref, f'layered-{ft}', rtol=tol, scale=sc,
                msg=f'{ft} {a} ab={ab} signal {signal}')
        t.sig('layered', ft, str(a), signal, ab, how)
    t.count('layered')


CASES = [
    ('dlf', dlf_case, 150, 4000),
    ('qwe', qwe_case, 72, 2000),
    ('fftlog', fftlog_case, 300, 6000),
    ('fft', fft_case, 80, 1500),
    ('dirac', dirac_case, 60, 1200),
    ('layered', layered_case, 64, 1500),
]
