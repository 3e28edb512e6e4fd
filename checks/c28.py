"""C28: the radar response is the wavelet-filtered impulse response."""
import numpy as np

from vlib import gen
from vlib.util import captured, warm_dipole

RULE = ('random radar models and surveys, transforms, gains, centre '
        'frequencies; against the frequency responses of single calls of '
        'dipole, an own Ricker spectrum, and the separately monitored Fourier '
        'transforms; travel times of direct and reflected waves; distinct by '
        'transform, numbers of sources, receivers, layers, gain, pair')
REQUIRED = {'wave': 100, 'gain': 40, 'no_gain': 40, 'arrival': 20,
            'single': 60, 'defaults': 4}
ASSUMPTIONS = ['the Fourier transforms themselves are decided in C09 and C12',
               'known finding: the wavelet is taken at the previous frequency']
FILT = 'key_201_2012'
C = 299792458.


def warmup(group):
    warm_dipole()


def survey(rng, nl=None):
    nl = nl or int(rng.choice([1, 2, 3]))
    m = gen.model(rng, nl=nl, thick=(.2, 3), res=(20, 5000), z0=0., air=False,
                  perm=False, mperm=bool(rng.random() < .3))
    m['epermH'] = list(map(float, gen.lu(rng, 1, 40, nl)))
    if rng.random() < .3:
        m['epermV'] = list(map(float, gen.lu(rng, 1, 40, nl)))
    zs, zr = (gen.zpoint(rng, m['depth'], span=2.) for _ in range(2))
    ns, nr = (int(rng.integers(1, 4)) for _ in range(2))
    x, y = gen.offsets(rng, nr, 1, 6)
    sx, sy = rng.uniform(-.4, .4, (2, ns))
    return m, [sx, sy, zs], [x, y, zr]


def transform(rng, cf):
    k = int(rng.integers(8))
    df = cf/float(rng.uniform(8, 30))
    n = int(4*cf/df*rng.uniform(.8, 1.3))
    if k < 4:
        a = {'dfreq': df, 'nfreq': n}
        if rng.random() < .5:
            a['ntot'] = int(n*rng.uniform(1, 3))
        if k == 3:
            a['pts_per_dec'] = int(rng.integers(15, 40))
        return 'fft', a
    if k == 4:
        return 'dlf', {'dlf': 'key_81_2009', 'pts_per_dec': [0, -1, 20][
            rng.integers(3)]}
    if k == 5:
        return 'fftlog', {'pts_per_dec': 8, 'add_dec': [-1, 1]}
    if k == 6:
        return 'qwe', {'maxint': 30, 'pts_per_dec': 12, 'nquad': 11}
    return 'dlf', {'dlf': 'key_201_2012', 'pts_per_dec': -1, 'kind': 'cos'}


def ricker(f, cf):
    a = -(f/cf)**2
    return a*np.exp(a)


def wave_case(t):
    import empymod
    rng = t.rng
    m, src, rec = survey(rng)
    cf = float(gen.lu(rng, 1e7, 1e9))
    ft, arg = transform(rng, cf)
    ab = int(rng.choice(gen.EE if rng.random() < .7 else gen.ABS_NZ))
    gain = [None, None, 0., 1., 2., 1.5, .5][rng.integers(7)]
    tt = np.sort(gen.lu(rng, .3/cf, 12/cf, int(rng.integers(1, 5))))
    if rng.random() < .2:
        tt = tt[::-1].copy()
    kw = {}
    if rng.random() < .3:
        kw['xdirect'] = None
    if rng.random() < .2:
        kw['loop'] = ['off', 'freq'][rng.integers(2)]
    form = int(rng.integers(3))   # gain: not given, None, or a value
    if gain is not None or form:
        kw['gain'] = gain
    t.case(src=src, rec=rec, cf=cf, ft=ft, ftarg=arg, ab=ab, t=tt, kw=kw, **m)
    h = {'ht': 'dlf', 'htarg': {'dlf': FILT, 'pts_per_dec': 0}}
    given = {'ft': ft, 'ftarg': arg, **h}
    if t.index % 20 == 0:   # Default methods
        kw.pop('loop', None)
        kw['xdirect'] = None
        ft, arg = 'fft', {'dfreq': cf/8, 'nfreq': 24}
        src, rec = ([p[0][:1], p[1][:1], p[2]] for p in (src, rec))
        h = {'ht': 'quad', 'htarg': {'rtol': 1e-3, 'a': 1e-3, 'b': 40.,
                                     'limit': 100, 'pts_per_dec': 40}}
        given = {'ftarg': arg, 'htarg': h['htarg']}
        t.count('defaults')
    m2 = dict(m)
    if rng.random() < .2 and len(m['res']) > 1:
        # A hook.
        q = gen.lu(rng, .5, 2, len(m['res']))
        m2['res'] = {'res': m['res'], 'q': q, 'func_eta': lambda i, p: tuple(
            p['eta'+k]*i['q'] for k in 'HV')}
    with captured() as out:
        got = np.asarray(empymod.gpr(src, rec, freqtime=tt, cf=cf, ab=ab,
                                     verb=0, **given, **kw, **m2))
    t.check(out.getvalue() == '', 'silence', out.getvalue())
    ns, nr = src[0].size, rec[0].size
    shp = tuple(k for k in (tt.size, nr, ns) if k > 1)
    t.check(got.shape == shp and got.dtype.kind == 'f', 'shape',
            (got.shape, got.dtype))
    got = got.reshape((tt.size, nr, ns))
    # Own
    x = {k: kw[k] for k in kw if k == 'xdirect'}
    _, f, ft2, arg2, _ = empymod.utils.check_time(tt, 0, ft, arg, 0, True)
    want, late, sc = (np.zeros(got.shape) for _ in range(3))
    for i in range(nr):
        for j in range(ns):
            with captured():
                EM = np.asarray(empymod.dipole(
                    [src[0][j], src[1][j], src[2]],
                    [rec[0][i], rec[1][i], rec[2]], freqtime=f, ab=ab, verb=0,
                    squeeze=False, **x, **h, **m2))[:, 0, 0]
            off = np.array([1.])
            ff = f if np.ndim(f) else f[None]

            def tr(w):
                v, _ = empymod.model.tem((EM*w)[:, None], off, ff, tt, 0, ft2,
                                         arg2)
                return v[:, 0].real
            want[:, i, j] = tr(ricker(ff, cf))
            late[:, i, j] = tr(np.r_[0, ricker(ff[:-1], cf)])
            sc[:, i, j] = np.abs(tr(ricker(ff, cf))).max()
            if ft == 'dlf':   # Summands
                sc[:, i, j] += np.abs(EM*ricker(ff, cf)).max()/tt
            else:
                sc[:, i, j] += np.abs(EM*ricker(ff, cf)).max()*cf
            t.count('single')
    if kw.get('gain') is not None:
        g = (1 + (tt*1e9)**kw['gain'])[:, None, None]
        want, late, sc = want*g, late*g, sc*g
        t.count('gain')
    else:
        t.count('no_gain')
    tol = 1e-9*sc + 1e-300
    if np.all(np.abs(got-want) <= tol):
        t.count('verdicts')
    elif np.all(np.abs(got-late) <= tol):
        t.count('verdicts')
        if not any(v['mechanism'] == 'wavelet-at-previous-frequency'
                   for v in t.violations):
            t.soft('wavelet-at-previous-frequency',
                   'Ricker spectrum taken at the previous frequency')
    else:
        t.close(got, want, 'wave', rtol=1e-9, scale=sc, atol=1e-300,
                msg=f'{ft} {arg} {kw}')
    t.count('wave')
    t.sig('wave', ft, sorted(arg), ns, nr, len(m['res']), kw.get('gain'), ab)


def arrival_case(t):
    """Travel times: direct wave in a full-space, reflection of a half-space
    of a contrast."""
    import empymod
    rng = t.rng
    ep = float(rng.uniform(2, 25))
    v = C/np.sqrt(ep)
    cf = float(gen.lu(rng, 5e7, 5e8))
    lam = v/cf
    refl = bool(t.index % 2)
    kw = {}
    if refl:
        z = float(rng.uniform(2.5, 4))*lam
        x = float(rng.uniform(.5, 2))*lam
        path = np.hypot(x, 2*z)
        r = 60*np.pi/np.sqrt(ep)*lam/float(rng.uniform(.25, .6))
        m = {'depth': [z], 'res': [r, r],
             'epermH': [ep, ep*float(rng.choice([3., .4]))]}
        src, rec = [0, 0, 0], [0, x, 0]
        kw['xdirect'] = None
    else:
        path = float(rng.uniform(4, 12))*lam
        a = rng.uniform(-.5, .5)
        m = {'depth': [], 'res': 1e6, 'epermH': ep}
        src, rec = [0, 0, 0], [0, path*np.cos(a), path*np.sin(a)]
        kw['xdirect'] = True
    T = path/v
    df = 1/(T*float(rng.uniform(3.6, 6)))
    n = int(np.ceil(4.5*cf/df))
    tt = np.linspace(.3*T, 1.5*T, 800)
    t.case(ep=ep, cf=cf, refl=refl, path=path, T=T, **m)
    with captured():
        got = np.asarray(empymod.gpr(
            src, rec, freqtime=tt, cf=cf, gain=0, ab=11, ht='dlf',
            htarg={'dlf': 'wer_2001_2018'}, ft='fft',
            ftarg={'dfreq': df, 'nfreq': n}, verb=0, **kw, **m))
    k = np.argmax(np.abs(got))
    t.check(abs(tt[k]-T) < .8/cf, 'arrival',
            f'peak at {tt[k]} instead of {T}; {refl}')
    # Nothing before the arrival (within the length of the wavelet)
    e = np.abs(got)[tt < T-2/cf]
    t.check(e.size == 0 or e.max() < .25*np.abs(got).max(), 'causality',
            f'{e.max(initial=0)/np.abs(got).max()}')
    t.count('arrival')
    t.sig('arrival', refl, int(ep/5), int(path/lam))


CASES = [('wave', wave_case, 160, 3000), ('arrival', arrival_case, 40, 600)]
