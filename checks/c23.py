"""C23: user hooks (material parameters, bandpass) are applied faithfully."""
import numpy as np

from vlib import gen, ref
from vlib.util import (DLF, bip, captured, dip, nat_scale, rtol_for,
                       warm_dipole)

RULE = ('random models, depth orders and own parameters: recording hooks '
        'check what they are given; results against the equivalent model, an '
        'independent solver given the values of the hook, and own Fourier '
        'sums of the filtered frequency response; all routines; distinct by '
        'routine, domain, layers, which hooks, order')
REQUIRED = {'identity': 100, 'records': 120, 'equivalent': 100,
            'dispersive': 80, 'bandpass': 80, 'time': 30, 'analytical': 40}
ASSUMPTIONS = ['a model with hooks is never taken for a full-space']
EPS0, MU0 = 1/(4e-7*np.pi*299792458**2), 4e-7*np.pi


def warmup(group):
    import empymod
    from empymod.scripts import tmtemod
    warm_dipole()
    tmtemod.dipole([0, 0, 10.], [100., 0, 20.], [0., 100.], [1., 2., 3.], 1.,
                   verb=0)
    empymod.dipole_k([0, 0, 10.], [100., 0, 20.], [0., 100.], [1., 2., 3.],
                     1., np.ones((1, 3)), verb=0)


def setup(rng, nl=None, **kw):
    nl = nl or int(rng.choice([1, 2, 3, 4]))
    m = gen.model(rng, nl=nl, air=False, **kw)
    lay = int(rng.integers(nl))
    zs, zr = (gen.zpoint(rng, m['depth'], layer=lay if rng.random() < .3
                         else None, on_if=0) for _ in range(2))
    return m, zs, zr


def reverse(m):
    """The same model, interfaces from the bottom up."""
    return {k: list(v)[::-1] for k, v in m.items()}


class Recorder:
    """Hooks that record their arguments; `fun(inp, p, which)` is their value.

    Plain functions: the dictionary is deep-copied, and with it the instance
    of a bound method."""

    def __init__(self, fun):
        seen = self.seen = []

        def eta(inp, p):
            seen.append(('eta', inp, dict(p)))
            return fun(inp, p, 'eta')

        def zeta(inp, p):
            seen.append(('zeta', inp, dict(p)))
            return fun(inp, p, 'zeta')

        self.eta, self.zeta = eta, zeta


ROUTINES = ['dipole', 'bipole', 'dipole_k', 'tmtemod', 'gpr', 'loop']


def run(name, src, rec, m, f, ab=11, **kw):
    """All routines at one frequency array; f as times where signal given."""
    import warnings

    import empymod
    from empymod.scripts import tmtemod
    with captured(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if name == 'dipole':
            return dip(src, rec, m, f, ab, **kw)
        if name in ('bipole', 'loop'):
            a, d = [(0, 0), (90, 0), (0, 90)][ab % 10-1], \
                [(0, 0), (90, 0), (0, 90)][ab//10-1]
            if name == 'loop':
                return np.asarray(empymod.loop(
                    [*src, *a], [*rec, *d], freqtime=f, verb=0, squeeze=False,
                    htarg={'dlf': DLF}, **kw, **m))
            return bip([*src, *a], [*rec, *d], m, f, **kw)
        if name == 'dipole_k':
            return np.array(empymod.dipole_k(
                src, rec, freq=f, wavenumber=np.array([1e-3, .02, .1]), ab=ab,
                verb=0, **m))
        if name == 'gpr':
            return np.asarray(empymod.gpr(
                src, rec, freqtime=np.array([5e-8, 2e-7]), cf=1e7, gain=0,
                ab=ab, ht='dlf', htarg={'dlf': DLF}, ft='fft',
                ftarg={'fmax': 3e7, 'df': 1e6, 'ntot': 64}, verb=0, **m))
        mm = {k: m[k] for k in ('depth', 'res', 'aniso') if k in m}
        mm['eperm'], mm['mperm'] = m.get('epermH'), m.get('mpermH')
        return np.array(tmtemod.dipole(src, rec, freqtime=f[0], verb=0, **mm))


def routine_setup(rng, name):
    """A survey the routine accepts."""
    m, zs, zr = setup(rng, nl=int(rng.integers(2, 5)) if name == 'tmtemod'
                      else None, vti_mu=False,
                      thick=(30, 300))
    if name == 'tmtemod':
        lay = gen.layer_of(m['depth'], zs)
        zr = gen.zpoint(rng, m['depth'], layer=lay, on_if=0)
        m.pop('epermV', None)
        m.pop('mpermV', None)
    x, y = gen.offsets(rng, 2, 30, 600)
    f = gen.lu(rng, 1e-1, 1e4, 2)
    ab = int(rng.choice(gen.EE))
    return m, zs, zr, x, y, f, ab


def equal_case(t):
    """Hooks that return what is there; that scale the conductivities."""
    rng = t.rng
    name = ROUTINES[t.index % len(ROUTINES)]
    m, zs, zr, x, y, f, ab = routine_setup(rng, name)
    nl = len(m['res'])
    kw = {}
    if name in ('dipole', 'bipole', 'loop') and rng.random() < .5:
        kw['xdirect'] = [True, None][rng.integers(2)]
        if kw['xdirect'] and gen.layer_of(m['depth'], zs) != gen.layer_of(
                m['depth'], zr):
            kw['xdirect'] = None
    which = [('func_eta',), ('func_zeta',), ('func_eta', 'func_zeta')][
        rng.integers(3)]
    own = gen.lu(rng, .1, 10, nl)
    other = rng.uniform(-3, 3, nl)
    t.case(routine=name, ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, which=which,
           own=own, other=other, kw=kw, **m)
    src, rec = [0, 0, zs], [x, y, zr]
    rev = rng.random() < .4 and nl > 2

    def hooked(mm, r):
        d = {'res': np.array(mm['res']), 'own': own, 'other': other}
        if rev:
            d = {k: v[::-1].copy() for k, v in d.items()}
            mm = reverse(mm)
        if 'func_eta' in which:
            d['func_eta'] = r.eta
        if 'func_zeta' in which:
            d['func_zeta'] = r.zeta
        return {**mm, 'res': d}

    def same(inp, p, w):
        return p[w+'H'], p[w+'V']

    r = Recorder(same)
    a = run(name, src, rec, m, f, ab, **kw)
    b = run(name, src, rec, hooked(m, r), f, ab, **kw)
    fs = nl == 1 or all(len(set(v)) == 1 for k, v in m.items()
                        if k != 'depth')
    if not fs:
        t.close(b, a, 'default-hook', rtol=1e-11, scale=np.abs(a),
                msg=name)
    elif name in ('dipole', 'bipole', 'loop'):
        sc = np.abs(a).max()
        t.close(b, a, 'default-hook', rtol=1e-6, scale=np.abs(a)+1e-6*sc,
                msg=name)
    t.count('identity')
    # What it is given
    t.check(len(r.seen) == len(which), 'hook-calls', len(r.seen))
    fm = gen.full(m)
    for w, inp, p in r.seen:
        t.check(np.array_equal(inp['own'], own) and
                np.array_equal(inp['other'], other) and
                np.array_equal(inp['res'], fm['res']), 'hook-parameters',
                (inp, own, rev))
        fr = np.atleast_1d(p['freq'])
        if name not in ('gpr',):
            t.check(np.array_equal(fr, np.atleast_1d(
                f if name != 'tmtemod' else f[0])), 'hook-frequencies',
                (fr, f))
        eH, eV, zH, zV = ref.material(fm, fr)
        for k, v in zip(('etaH', 'etaV', 'zetaH', 'zetaV'), (eH, eV, zH, zV)):
            if name == 'tmtemod' and k in ('etaV', 'zetaV') and \
                    False:
                continue
            t.close(p[k], v, 'hook-material', rtol=1e-9, msg=k)
        for k in ('aniso', 'epermH', 'mpermH'):
            t.check(np.allclose(p[k], fm[k], rtol=1e-14), 'hook-model', k)
        t.check(np.array_equal(p['depth'][1:], m['depth']), 'hook-depth',
                p['depth'])
        t.count('records')

    # Equivalent model: conductivities and permeabilities times own.
    def scaled(inp, p, w):
        if w == 'eta':
            e = EPS0*2j*np.pi*p['freq'][:, None]
            return (p['etaH']-e*p['epermH'])/inp['own']+e*p['epermH'], \
                (p['etaV']-e*p['epermV'])/inp['own']+e*p['epermV']
        return p['zetaH']*inp['own'], p['zetaV']*inp['own']

    c = run(name, src, rec, hooked(m, Recorder(scaled)), f, ab, **kw)
    m2 = dict(m)
    if 'func_eta' in which:
        m2['res'] = list(own*m['res'])
    if 'func_zeta' in which:
        for k in ('mpermH', 'mpermV'):
            m2[k] = list(own*fm[k])
        if name == 'tmtemod':
            m2.pop('mpermV')
    d = run(name, src, rec, m2, f, ab, **kw)
    if nl > 1 or name in ('dipole_k', 'gpr'):
        sc = np.abs(d)
        if name in ('dipole', 'bipole', 'loop'):
            loop = name == 'loop'
            nat = nat_scale(m2, f, zs, zr, ab+33*loop, np.hypot(x, y))
            if loop:
                nat = nat*(2*np.pi*f*MU0)[:, None]
            sc = sc + nat[:, :, None]
        t.close(c, d, 'equivalent-model', rtol=max(1e-8, 10*rtol_for(m2)),
                scale=sc + 1e-9*np.abs(d).max(), atol=1e-300, msg=name)
        # The hook makes a difference at all (not vacuous)
        t.count('equivalent')
    t.sig('equal', name, nl, which, rev, kw.get('xdirect', 0))


def dispersive(rng, nl):
    """Any complex material with positive real parts."""
    a = gen.lu(rng, .01, 10, (2, nl))
    b = rng.uniform(.1, 1, (2, nl))
    z = gen.lu(rng, .5, 3, (2, nl))
    q = rng.uniform(0, .5, (2, nl))

    def fun(inp, p, w):
        f = np.asarray(p['freq'])[:, None]
        if w == 'eta':
            return tuple(a[i]*(1+1j*b[i]*f/(f+100)) for i in range(2))
        return tuple(2j*np.pi*f*MU0*z[i]*(1-1j*q[i]*f/(f+10))
                     for i in range(2))
    return fun


def disp_case(t):
    rng = t.rng
    import empymod
    fl = getattr(empymod.filters.Hankel(), DLF)
    for _ in range(2):
        m, zs, zr = setup(rng)
        nl = len(m['res'])
        x, y = gen.offsets(rng, 2, 30, 600)
        f = gen.lu(rng, 1e-1, 1e4, 2)
        if rng.random() < .3:
            f = f[::-1].copy()
        ab = int(rng.choice(gen.ABS_NZ))
        fun = dispersive(rng, nl)
        which = [('func_eta',), ('func_zeta',), ('func_eta', 'func_zeta')][
            rng.integers(3)]
        r = Recorder(fun)
        d = {'res': np.array(m['res'])}
        if 'func_eta' in which:
            d['func_eta'] = r.eta
        if 'func_zeta' in which:
            d['func_zeta'] = r.zeta
        xd = bool(rng.random() < .7)
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, which=which, **m)
        got = dip([0, 0, zs], [x, y, zr], {**m, 'res': d}, f, ab,
                  xdirect=None if xd else False)[:, :, 0]
        mats = list(ref.material(gen.full(m), f))
        if 'func_eta' in which:
            mats[:2] = fun(None, {'freq': f}, 'eta')
        if 'func_zeta' in which:
            mats[2:] = fun(None, {'freq': f}, 'zeta')
        want, sc = solve(mats, m['depth'], zs, zr, ab, np.hypot(x, y),
                         np.arctan2(y, x), fl, 'none' if xd else 'full')
        t.close(got, want, 'dispersive', rtol=1e-8, scale=sc, atol=1e-300,
                msg=f'ab={ab} {which}')
        t.count('dispersive')
        t.sig('disp', nl, ab, which, xd)


def solve(mats, depth, zs, zr, ab, off, th, fl, direct):
    nf = mats[0].shape[0]
    out, sc = np.zeros((nf, off.size), complex), np.zeros((nf, off.size))
    for j in range(off.size):
        lam = fl.base/off[j]
        for i in range(nf):
            sp, mg = ref.spectrum(None, [q[i] for q in mats], depth, zs, zr,
                                  ab, lam, direct)
            g0, g1, g2 = (np.zeros(lam.size)+g for g in ref.to_bessel(
                sp, th[j]))
            q0, q1, q2 = (np.zeros(lam.size)+g for g in ref.bessel_scale(mg))
            out[i, j] = ((g0-g2)*lam) @ fl.j0 + (g1*lam+2*g2/off[j]) @ fl.j1
            sc[i, j] = (np.abs((q0+q2)*lam*fl.j0)
                        + np.abs((q1*lam+2*q2/off[j])*fl.j1)).sum()
    return (out/off/2/np.pi, sc/off/2/np.pi)


def band_case(t):
    """The function gets the response of all frequencies; its changes are in
    the result of either domain."""
    import empymod
    rng = t.rng
    name = str(rng.choice(['dipole', 'bipole']))
    m, zs, zr, x, y, _, ab = routine_setup(rng, name)
    n = int(rng.integers(1, 4))
    x, y = gen.offsets(rng, n, 30, 600)
    ns = int(rng.integers(1, 3))
    sx, sy = rng.uniform(-9, 9, (2, ns))
    f0 = float(gen.lu(rng, 1, 1e3))
    amp = complex(*rng.uniform(-2, 2, 2))
    sig = [None, None, 0, 1, -1][rng.integers(5)]
    time = sig is not None
    f = gen.lu(rng, .1, 1e4, 2)
    tt = gen.lu(rng, 1e-4, 1, 2)
    seen = []

    def h(fr):
        return 1/(1+1j*fr/f0) + amp*fr/(fr+f0)*.1

    def func(inp, p):
        seen.append((inp, np.array(p['freq']), p['EM'].copy()))
        p['EM'] *= h(p['freq'])[:, None]*inp['factor']

    bp = {'func': func, 'factor': float(rng.uniform(.5, 3))}
    hooks = rng.random() < .3
    mm = m
    fun = dispersive(rng, len(m['res']))
    if hooks:
        mm = {**m, 'res': {'res': np.array(m['res']),
                           'func_eta': Recorder(fun).eta}}
    kw = {}
    if time:
        kw = {'signal': sig, 'ft': 'dlf', 'ftarg': {
            'dlf': 'key_81_2009', 'pts_per_dec': 0, **(
                {'kind': str(rng.choice(['sin', 'cos']))} if sig == 0
                else {})}}
    t.case(routine=name, ab=ab, zs=zs, zr=zr, x=x, y=y, sx=sx, sy=sy, f0=f0,
           amp=amp, signal=sig, factor=bp['factor'], hook=hooks, **m)
    src, rec = [sx, sy, zs], [x, y, zr]
    if name == 'bipole' and ns > 1:
        a, d = [(0, 0), (90, 0), (0, 90)][ab % 10-1], \
            [(0, 0), (90, 0), (0, 90)][ab//10-1]

        def go(fr, **k):
            return bip([*src, *a], [*rec, *d], mm, fr, **k)
    else:
        def go(fr, **k):
            return run(name, src, rec, mm, fr, ab, **k)

    got = go(tt if time else f, bandpass=bp, **kw)
    t.check(len(seen) == 1 and seen[0][0] is bp, 'bandpass-calls', len(seen))
    fr, EM = seen[0][1:]
    if not time:
        t.check(np.array_equal(fr, f), 'bandpass-frequencies', (fr, f))
    base = go(fr)
    t.check(EM.shape == (fr.size, n*ns), 'bandpass-shape', EM.shape)
    t.close(EM.reshape((-1, n, ns), order='F'), base, 'bandpass-input',
            rtol=1e-12, scale=np.abs(base)+1e-13*np.abs(base).max())
    want = base*h(fr)[:, None, None]*bp['factor']
    sc = np.abs(want)
    if time:
        fl = empymod.filters.Fourier().key_81_2009
        w, sw = [], []
        kind = kw['ftarg'].get('kind', 'sin') if sig == 0 else (
            'cos' if sig == -1 else 'sin')
        for u in tt:
            om = fl.base/u
            k = [np.argmin(np.abs(np.log(fr*2*np.pi/o))) for o in om]
            t.check(np.allclose(fr[k]*2*np.pi, om, rtol=1e-9),
                    'bandpass-frequencies', 'time')
            v = want[k]
            if sig in (-1, 1):
                v = v/(2j*np.pi*fr[k])[:, None, None]
            # sin: -imag; cos: real
            if kind == 'sin':
                v, c = -v.imag, fl.sin
            else:
                v, c = v.real, fl.cos
            w.append(2/np.pi*np.tensordot(c, v, (0, 0))/u)
            sw.append(2/np.pi*np.tensordot(np.abs(c), np.abs(v), (0, 0))/u)
        want, sc = np.array(w), np.array(sw)
        if sig in (-1, 1):
            # Sign convention of the step responses (existing behaviour).
            s = 1 if np.sum(np.abs(got-want)) < np.sum(np.abs(got+want)) \
                else -1
            want = s*want
        t.count('time')
    t.close(got, want, 'bandpass', rtol=1e-10, scale=sc, atol=1e-300,
            msg=f'{name} {sig}')
    t.count('bandpass')
    t.sig('band', name, sig, hooks, n, ns, len(m['res']))


def analytical_case(t):
    """Hooks in the analytical solutions."""
    import empymod
    rng = t.rng
    res, an = float(gen.lu(rng, .3, 100)), float(gen.lu(rng, .6, 2))
    zs, zr = gen.lu(rng, 5, 100, 2)
    x, y = gen.offsets(rng, 2)
    f = gen.lu(rng, 1e-2, 1e3, 2)
    q = float(gen.lu(rng, .1, 10))
    sol = str(rng.choice(['fs', 'dfs', 'dhs', 'dsplit', 'dtetm']))
    ab = int(rng.choice(gen.EE if sol != 'fs' else gen.ABS_NZ))
    t.case(sol=sol, ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, res=res, aniso=an,
           factor=q)
    kw = dict(freqtime=f, solution=sol, ab=ab, aniso=an, verb=0,
              squeeze=False, epermH=0, epermV=0)
    seen = []

    def eta(inp, p):
        seen.append(p['freq'])
        return p['etaH']/inp['q'], p['etaV']/inp['q']

    def same(inp, p):
        return p['zetaH'], p['zetaV']

    d = {'res': res, 'q': q, 'func_eta': eta}
    if rng.random() < .5:
        d['func_zeta'] = same
    a = np.asarray(empymod.analytical([0, 0, zs], [x, y, zr], d, **kw))
    b = np.asarray(empymod.analytical([0, 0, zs], [x, y, zr], res*q, **kw))
    t.close(a, b, 'analytical', rtol=1e-9, scale=np.abs(b)+1e-9*np.abs(b).max(),
            msg=sol)
    t.check(len(seen) == 1 and np.array_equal(seen[0], f), 'hook-frequencies',
            seen)
    t.count('analytical')
    t.sig('ana', sol, ab)


def timehook_case(t):
    """Hooks in the time domain: equivalent model, all transforms."""
    rng = t.rng
    m, zs, zr, x, y, _, ab = routine_setup(rng, 'dipole')
    nl = len(m['res'])
    if nl == 1:
        return
    own = gen.lu(rng, .5, 2, nl)

    def eta(inp, p):
        e = EPS0*2j*np.pi*p['freq'][:, None]
        return tuple((p['eta'+k]-e*p['eperm'+k])/inp['own']+e*p['eperm'+k]
                     for k in 'HV')

    m1 = {**m, 'res': {'res': m['res'], 'own': own, 'func_eta': eta}}
    m2 = {**m, 'res': list(own*m['res'])}
    sig = int(rng.integers(-1, 2))
    ft, arg = [('dlf', {}), ('dlf', {'pts_per_dec': -1}),
               ('dlf', {'pts_per_dec': 20}), ('qwe', {'maxint': 40}),
               ('fftlog', {}), ('fft', {'dfreq': .5, 'nfreq': 128})][
                   rng.integers(6)]
    tt = gen.lu(rng, 1e-3, 1e-1, 2)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, t=tt, ft=ft, ftarg=arg, signal=sig,
           own=own, **m)
    name = str(rng.choice(['dipole', 'bipole']))
    kw = {'signal': sig, 'ft': ft, 'ftarg': arg}
    a = run(name, [0, 0, zs], [x, y, zr], m1, tt, ab, **kw)
    b = run(name, [0, 0, zs], [x, y, zr], m2, tt, ab, **kw)
    sc = np.abs(b).max()
    t.close(a, b, 'equivalent-model-time', rtol=1e-5,
            scale=np.abs(b)+.01*sc, msg=f'{ft} {arg}')
    t.count('time')
    t.sig('time', ft, str(arg), sig, name, nl)


CASES = [('equal', equal_case, 150, 3000), ('disp', disp_case, 60, 1200),
         ('band', band_case, 100, 1500),
         ('analytical', analytical_case, 60, 1000),
         ('time', timehook_case, 30, 500)]
