"""C29: numerical minima are honoured, reported, and resettable."""
import numpy as np

from vlib import gen
from vlib.util import DLF, bip, captured, dip, warm_dipole

RULE = ('values below, at, and above random minima in all routines, against '
        'the same call with the value of the minimum; random histories of '
        'setting and resetting against a model of the state and results '
        'predicted from pre-clamped input; zeros in every parameter; distinct '
        'by parameter, routine, history')
REQUIRED = {'clamped': 200, 'untouched': 40, 'warnings': 150, 'probes': 150,
            'finite': 150, 'reset': 20}
ASSUMPTIONS = ['permeabilities are positive (zero is no physical medium)',
               'coordinates of finite bipoles are rounded for minimum offsets '
               'which are powers of ten (documented)']
DEF = {'min_freq': 1e-20, 'min_time': 1e-20, 'min_off': 1e-3,
       'min_res': 1e-20, 'min_angle': 1e-10}
HT = {'ht': 'dlf', 'htarg': {'dlf': DLF, 'pts_per_dec': 0}}
FT = {'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009', 'pts_per_dec': -1}}


def warmup(group):
    import empymod
    warm_dipole()
    warm_dipole(True)
    empymod.dipole_k([0, 0, 10.], [100., 0, 20.], [0.], [1., 2.], 1.,
                     np.ones((1, 3)), verb=0)


def setmin(**kw):
    import empymod
    empymod.set_minimum(**kw)


def state():
    import empymod
    return empymod.get_minimum()


# ------------------------------------------------------------ single minima
def make_call(rng, what):
    """(call(values, verb), values, name in the warning)."""
    import empymod
    nl = int(rng.integers(1, 4))
    m = gen.model(rng, nl=nl, air=False, perm=False)
    lay = int(rng.integers(nl))
    zs, zr = (gen.zpoint(rng, m['depth'], layer=lay, on_if=0)
              for _ in range(2))
    x, y = gen.offsets(rng, 2, 50, 400)
    ab = int(rng.choice(gen.EE))
    f = gen.lu(rng, .1, 10, 2)
    routine = str(rng.choice(['dipole', 'bipole', 'analytical', 'dipole_k',
                              'loop']))
    if what == 'off' and routine in ('dipole_k',):
        routine = 'dipole'
    if what in ('time',) and routine == 'dipole_k':
        routine = 'bipole'
    if nl > 1 and routine == 'analytical':
        routine = 'dipole'
    a, d = [(0, 0), (90, 0), (0, 90)][ab % 10-1], \
        [(0, 0), (90, 0), (0, 90)][ab//10-1]

    def go(m, f, x, y, verb, **kw):
        if routine == 'dipole':
            return np.asarray(empymod.dipole(
                [0, 0, zs], [x, y, zr], freqtime=f, ab=ab, verb=verb, **HT,
                **kw, **m))
        if routine in ('bipole', 'loop'):
            fun = getattr(empymod, routine)
            return np.asarray(fun(
                [0, 0, zs, *a], [x, y, zr, *d], freqtime=f, verb=verb, **HT,
                **kw, **m))
        if routine == 'analytical':
            mm = {k: v for k, v in m.items() if k != 'depth'}
            kw.pop('ft', 0), kw.pop('ftarg', 0)
            return np.asarray(empymod.analytical(
                [0, 0, zs], [x, y, zr], freqtime=f, ab=ab, verb=verb,
                solution='dfs' if 'signal' in kw else 'fs', **{
                    **mm, **({'mpermH': None, 'mpermV': None} if 'signal' in
                             kw else {})}, **kw))
        return np.array(empymod.dipole_k(
            [0, 0, zs], [x, y, zr], freq=f, wavenumber=np.array([.001, .1]),
            ab=ab, verb=verb, **m))

    if what == 'freq':
        return routine, lambda v, verb: go(m, v, x, y, verb), gen.lu(
            rng, .1, 100, 3), 'Frequencies', 'Hz'
    if what == 'laplace':
        return routine, lambda v, verb: go(m, -v, x, y, verb), gen.lu(
            rng, .1, 100, 3), 'Laplace val', 'Hz'
    if what == 'time':
        return routine, lambda v, verb: go(m, v, x, y, verb, signal=int(
            rng.integers(0, 1)), **FT), gen.lu(rng, .01, 10, 3), 'Times', 's'
    if what == 'res':
        m.pop('aniso', None)
        return routine, lambda v, verb: go({**m, 'res': v}, f, x, y, verb), \
            gen.lu(rng, .1, 100, nl), 'Resistivities', 'Ohm.m'
    if what == 'aniso':
        r = gen.lu(rng, 300, 900, nl)   # None below the minimum
        return routine, lambda v, verb: go(
            {**m, 'res': r, 'aniso': np.sqrt(v/r)}, f, x, y, verb), gen.lu(
                rng, .1, 100, nl), 'Parameter aniso', ''
    ph = rng.uniform(-np.pi, np.pi, 3)
    return routine, lambda v, verb: go(
        m, f, v*np.cos(ph), v*np.sin(ph), verb), gen.lu(
            rng, 20, 500, 3), 'Offsets', 'm'


WHAT = ['freq', 'laplace', 'time', 'res', 'aniso', 'off']


def clamp_case(t):
    """The minimum of one parameter."""
    rng = t.rng
    what = WHAT[t.index % 6]
    routine, call, v, name, unit = make_call(rng, what)
    key = {'laplace': 'min_freq', 'aniso': 'min_res'}.get(what, 'min_'+what)
    s = np.sort(v)
    how = str(rng.choice(['some', 'all', 'none', 'equal', 'zero']))
    if how == 'some' and v.size > 1:
        mn = float(np.sqrt(s[0]*s[1]))
    elif how == 'none':
        mn = float(s[0]*.5)
    elif how == 'equal':
        mn = float(s[-1])
    elif how == 'zero':
        mn = float(s[0]*.5)
        v = v.copy()
        v[rng.integers(v.size)] = 1e-9 if what == 'off' else 0.
        if what == 'freq' and v.size == 1:
            v[0] = .1
    else:
        mn = float(s[-1]*2)
    if what == 'off' and how == 'equal':
        mn *= 1+1e-12   # Offsets are computed from coordinates
    t.case(what=what, how=how, minimum=mn, values=v, routine=routine)
    verb = int(rng.integers(0, 3))
    try:
        setmin(**{key: mn})
        with captured() as out:
            a = call(v.copy(), verb)
        setmin(**DEF)
        want_v = np.maximum(v, mn)
        with captured():
            b = call(want_v, 0)
        setmin(**{key: 0. if key != 'min_off' else 1e-9})
        with captured():
            c = call(want_v, 0)
    finally:
        setmin(**DEF)
    sc = np.abs(b).max()
    t.close(a, b, 'clamped-value', rtol=1e-9, scale=np.abs(b) + 1e-3*sc,
            atol=1e-300, msg=f'{what} {how}')
    t.count('clamped')
    t.close(c, b, 'minimum-affects-larger', rtol=1e-12,
            scale=np.abs(b)+1e-3*sc, atol=1e-300, msg=what)
    t.check(np.all(np.isfinite(a)), 'not-finite', what)
    if how == 'none':
        t.count('untouched')
    # Warning
    text = out.getvalue()
    line = f'* WARNING :: {name} < {mn} {unit}'
    below = bool(np.any(v < mn)) if what not in ('aniso',) else None
    if what == 'aniso':
        r = v/1.   # numerical round trip: sqrt and square
        below = True if np.any(r < mn*(1-1e-9)) else (
            False if np.all(r > mn*(1+1e-9)) else None)
    if below is not None:
        has = line in text
        t.check(has == (below and verb > 0), 'warning',
                f'{line}; verb={verb}, below={below}, got: {text}')
        t.count('warnings')
    if verb == 0:
        t.check(text == '', 'silence', text)
    for o in ('Frequencies', 'Times', 'Resistivities', 'Offsets',
              'Laplace val', 'Parameter aniso'):
        if o != name:
            t.check(f'WARNING :: {o}' not in text or (
                what == 'res' and o == 'Parameter aniso'), 'wrong-warning',
                (what, text))
    t.sig('clamp', what, how, routine, verb)


# ------------------------------------------------------------------ history
CHOICE = {'min_freq': [1e-20, 0., .7, 5.], 'min_time': [1e-20, 0., .05, .5],
          'min_off': [1e-3, 1e-6, 0., 1., 10., 100.],
          'min_res': [1e-20, 0., 2., 20.],
          'min_angle': [1e-10, 0., .05, .2, .6]}


def probes(rng):
    """Calls, as function of the minima, by themselves and by prediction."""
    res = gen.lu(rng, .5, 50, 3)
    an = gen.lu(rng, .6, 2, 3)
    dep = np.array([0., 80.])
    f = gen.lu(rng, .2, 20, 2)
    tt = gen.lu(rng, .01, 2, 2)
    ph = rng.uniform(-np.pi, np.pi, 2)
    off = gen.lu(rng, 2, 200, 2)
    ang = rng.uniform(5, 85, 4)*rng.choice([-1, 1], 4)
    c = rng.uniform(20, 60, 6)
    c[1], c[3] = c[0]+rng.uniform(20, 60), c[2]-rng.uniform(20, 60)
    c[4], c[5] = 95.123456789, 95.123456789
    c[:4] += 200.
    ab = int(rng.choice(gen.ABS_NZ))
    pts = 4

    def med(mn):
        r = np.maximum(res, mn['min_res'])
        rv = np.maximum(an**2*r, mn['min_res'])
        return {'depth': dep, 'res': r, 'aniso': np.sqrt(rv/r)}
    raw = {'depth': dep, 'res': res, 'aniso': an}

    def p_freq(mn):
        if mn is None:
            return dip([0, 0, 10.], [off*np.cos(ph), off*np.sin(ph), 95.],
                       raw, f, ab)
        o = np.maximum(off, mn['min_off'])
        return dip([0, 0, 10.], [o*np.cos(ph), o*np.sin(ph), 95.], med(mn),
                   np.maximum(f, mn['min_freq']), ab)

    def p_time(mn):
        if mn is None:
            return dip([0, 0, 10.], [300., 20., 95.], raw, tt, 11, signal=0,
                       **FT)
        import empymod
        # Frequencies of the transform are subject to their own minimum.
        _, fr, ft, fa, _ = empymod.utils.check_time(
            np.maximum(tt, mn['min_time']), 0, 'dlf', FT['ftarg'], 0, True)
        if np.any(fr < mn['min_freq']):
            return None
        return dip([0, 0, 10.], [max(300., mn['min_off']), 20., 95.],
                   med(mn), np.maximum(tt, mn['min_time']), 11, signal=0, **FT)

    def p_angle(mn):
        a1, d1, a2, d2 = ang
        if mn is None:
            return bip([0, 0, 10., a1, d1], [120., 30, 95., a2, d2], raw, f,
                       mrec=True)[:, :, 0]
        fr = np.maximum(f, mn['min_freq'])

        def vec(a, d):
            a, d = np.deg2rad([a, d])
            return [np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)]
        fs, fq = vec(a1, d1), vec(a2, d2)
        out = 0
        for i in range(3):
            for j in range(3):
                w = fs[j]*fq[i]
                if abs(w) < mn['min_angle']:
                    continue
                if (i, j) == (2, 2):
                    continue
                out = out + w*dip([0, 0, 10.], [120., 30, 95.], med(mn), fr,
                                  41+10*i+j)[:, :, 0]
        return np.zeros((2, 1)) + out

    def p_finite(mn):
        if mn is None:
            return bip([0, 0, 10., 20., 10.], list(c), raw, f,
                       recpts=pts)[:, :, 0]
        if mn['min_angle'] > 1e-3:
            return None
        g, w = np.polynomial.legendre.leggauss(pts)
        a = np.array([c[0], c[2], c[4]])
        d = np.array([c[1], c[3], c[5]]) - a
        az = np.rad2deg(np.arctan2(d[1], d[0]))
        out = 0
        for gi, wi in zip(g, w):
            q = a + d*(1+gi)/2
            if mn['min_off'] > 0:
                q = np.round(q, int(round(-np.log10(mn['min_off']))))
            out = out + wi/2*bip([0, 0, 10., 20., 10.], [*q, az, 0.],
                                 med(mn), np.maximum(f, mn['min_freq'])
                                 )[:, :, 0]
        return out

    return {'freq': p_freq, 'time': p_time, 'angle': p_angle,
            'finite': p_finite}


def history_case(t):
    rng = t.rng
    pr = probes(rng)
    n = int(rng.integers(3, 7)) if t.tier == 'quick' else int(
        rng.integers(4, 14))
    cur, steps = dict(DEF), []
    for _ in range(n):
        if rng.random() < .2:
            kw = dict(DEF)
        else:
            kw = {k: float(rng.choice(v)) for k, v in CHOICE.items()
                  if rng.random() < .4}
            if rng.random() < .3:
                kw[str(rng.choice(list(DEF)))] = None
        cur = {**cur, **{k: v for k, v in kw.items() if v is not None}}
        probe = [str(p) for p in rng.choice(list(pr), 2, replace=False)]
        steps.append((kw, dict(cur), probe))
    t.case(steps=[(s[0], s[2]) for s in steps])
    t.check(state() == DEF, 'initial', state())
    first = {k: p(None) for k, p in pr.items()}
    want = []
    for kw, mn, probe in steps:    # All with the defaults
        want.append([pr[p](mn) for p in probe])
    try:
        for (kw, mn, probe), w in zip(steps, want):
            setmin(**kw)
            t.check(state() == mn, 'state', (state(), mn))
            state()['min_freq'] = 77.   # A copy
            t.check(state() == mn, 'state-leaks', state())
            for p, wi in zip(probe, w):
                if wi is None:
                    continue
                got = pr[p](None)
                t.close(got, wi, f'history-{p}', rtol=1e-9, scale=np.abs(wi)
                        + 1e-6*np.abs(wi).max(), atol=1e-300,
                        msg=f'{p}: {mn}')
                t.count('probes')
            t.check(state() == mn, 'call-changes-minima', (state(), mn))
        setmin(**DEF)
        for k, p in pr.items():
            t.check(np.array_equal(p(None), first[k]), 'reset', k)
        t.count('reset')
    finally:
        setmin(**DEF)
    t.sig('history', len(steps), [sorted(s[0]) for s in steps])


# -------------------------------------------------------------------- zeros
def finite_case(t):
    """Zeros and tiny values, default minima."""
    import empymod
    from empymod.scripts import tmtemod
    rng = t.rng
    nl = int(rng.integers(1, 4))
    m = {q: np.array(v) for q, v in gen.full(gen.model(
        rng, nl=nl, air=False, thick=(20, 100))).items()}
    lay = int(rng.integers(nl))
    zs, zr = (gen.zpoint(rng, m['depth'], layer=lay, on_if=0)
              for _ in range(2))
    if rng.random() < .4:
        zr = zs
    x, y = gen.offsets(rng, 2, 20, 300)
    f = gen.lu(rng, .1, 10, 2)
    tt = gen.lu(rng, .01, 1, 2)
    ab = int(rng.choice(gen.ABS_NZ))
    what = ['freq', 'time', 'res', 'aniso', 'eperm', 'off', 'laplace'][
        t.index % 7]
    tiny = [0., 1e-30, 1e-21][rng.integers(3)]
    k = int(rng.integers(nl))
    kw = {}
    if what == 'freq':
        f[rng.integers(2)] = tiny
    elif what == 'laplace':
        f = -f
        f[rng.integers(2)] = -tiny
    elif what == 'time':
        tt[rng.integers(2)] = tiny
        kw = {'signal': int(rng.integers(-1, 2)), **FT}
    elif what == 'res':
        m['res'][k] = tiny
    elif what == 'aniso':
        m['aniso'][k] = tiny
    elif what == 'eperm':
        q = str(rng.choice(['epermH', 'epermV']))
        m[q][k] = -float(rng.choice([0., 1., 5.]))
    else:
        i = rng.integers(2)
        x[i], y[i] = tiny, 0.
    xd = [True, False, None][rng.integers(3)]
    rout = ['dipole', 'bipole', 'analytical', 'dipole_k', 'tmtemod'][
        rng.choice(5, p=[.4, .3, .1, .1, .1])]
    if what == 'time' and rout in ('dipole_k', 'tmtemod'):
        rout = 'dipole'
    if what == 'time' and rout == 'analytical':
        m['mpermH'] = m['mpermV'] = np.ones(nl)
    fr = tt if what == 'time' else f
    t.case(what=what, routine=rout, tiny=tiny, ab=ab, zs=zs, zr=zr, x=x, y=y,
           f=fr, kw=kw, xdirect=xd, **m)
    if rout == 'tmtemod' and (zr == zs or nl == 1):
        rout = 'dipole'
    with captured():
        if rout == 'dipole':
            r = dip([0, 0, zs], [x, y, zr], m, fr, ab, xdirect=xd, **kw)
        elif rout == 'bipole':
            r = bip([0, 0, zs, 20, 10.], [x, y, zr, -60., 5], m, fr,
                    xdirect=xd, msrc=bool(ab % 10 > 3), mrec=bool(ab > 40),
                    **kw)
        elif rout == 'dipole_k':
            r = np.array(empymod.dipole_k(
                [0, 0, zs], [x, y, zr], freq=fr, ab=ab, verb=0,
                wavenumber=np.array([.001, .1, 2]), **m))
        elif rout == 'tmtemod':
            mm = {q: m[q] for q in ('depth', 'res', 'aniso')}
            r = np.array(tmtemod.dipole(
                [0, 0, zs], [x, y, zr], freqtime=abs(fr[0]), verb=0, **mm))
        else:
            sol = 'dfs' if what == 'time' else 'fs'
            mm = {q: v[k] for q, v in m.items() if q != 'depth'}
            r = np.asarray(empymod.analytical(
                [0, 0, zs], [x, y, zr], freqtime=fr, verb=0, solution=sol,
                ab=ab if sol == 'fs' else int(rng.choice(gen.EE)), **mm,
                **({'signal': kw['signal']} if kw else {})))
    t.check(np.all(np.isfinite(r)), 'not-finite', lambda: f'{rout} {what} '
            f'{tiny}: {r}')
    t.count('finite')
    t.sig('finite', what, rout, tiny, ab, nl, zr == zs, xd)


CASES = [('clamp', clamp_case, 300, 5000), ('history', history_case, 60, 1000),
         ('finite', finite_case, 210, 5000)]
