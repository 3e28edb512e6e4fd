"""C30: a quadrature that does not converge is always reported."""
import numpy as np

from vlib import closed, gen
from vlib.util import captured, quad_log, warm_dipole

RULE = ('(a) series of known terms handed to qwe, the stopping criterion '
        'decided by an own epsilon algorithm in two precisions; (b) calls of '
        'several offsets, frequencies, sources, receivers against the calls '
        'of the single ones; (c) recorded outcomes of every QUADPACK call '
        'against the warning; (d) settings that cannot converge, in every '
        'routine; (e) without a warning, closed forms of a VTI full-space; '
        'distinct by method, number of failing values, routine, geometry')
REQUIRED = {'series_bad': 60, 'series_good': 60, 'series_mixed': 40,
            'multi_warn': 25, 'multi_some': 15, 'multi_quiet': 25,
            'certain': 60, 'accurate': 60}
ASSUMPTIONS = ['convergence is the criterion of the method itself (relative '
               'and absolute tolerance between successive results); values '
               'within 30 % of it are not judged',
               'a converged quadrature is only compared with the exact result '
               'if the offset is not small compared to the vertical distance '
               '(otherwise see the known findings)']
HTXT = 'Hankel-quadrature did not converge'
FTXT = 'Fourier-quadrature did not converge'


def warmup(group):
    warm_dipole()


# (a) qwe

def eps_seq(terms):
    """Extrapolated sums after each further term (own epsilon algorithm).
    terms: (n,), the first one is added at the end."""
    s = [terms.dtype.type(0)]
    for v in terms[1:]:
        s.append(s[-1] + v)
    out = {}
    e0 = s[:]               # column 0
    prev = [terms.dtype.type(0)]*(len(s)+1)
    cols = [e0]
    cur = e0
    for k in range(1, len(s)):
        new = []
        for n in range(len(s)-k):
            d = cur[n+1] - cur[n]
            new.append(np.inf if d == 0 else prev[n+1] + 1/d)
        prev, cur = cur, new
        cols.append(cur)
    for i in range(1, len(s)):
        # even column, using exactly terms up to i
        k = i if i % 2 == 0 else i-1
        out[i] = cols[k][i-k] + terms[0]
    return out


def judge(terms, rtol, atol):
    """('good', first possible index, last possible) | 'bad' | None."""
    first = last = None
    for dt in (np.float64, np.longdouble):
        with np.errstate(all='ignore'):
            x = eps_seq(terms.astype(dt))
        ok = clear = None
        for i in range(2, len(terms)):
            if not (np.isfinite(x[i]) and np.isfinite(x[i-1])):
                return None
            err = abs(x[i]-x[i-1])
            thr = rtol*abs(x[i]) + atol
            if err < 1.5*thr and ok is None:
                ok = i
            if err < thr/1.5:
                clear = i
                break
        if ok is not None and clear is None:
            return None
        first = ok if first is None else (
            None if ok is None else min(first, ok))
        if dt is np.float64:
            f1, c1, x1 = ok, clear, x
        else:
            if (f1 is None) != (ok is None):
                return None
            if ok is None:
                return ('bad', None, None, x1)
            last = max(c1, clear)
            return ('good', min(f1, ok), last, x1)


def series_case(t):
    from empymod import transform
    rng = t.rng
    n = int(rng.integers(1, 6))
    maxint = int(rng.integers(4, 30))
    rtol = float(gen.lu(rng, 1e-8, 1e-2))
    atol = float([0, 1e-12, 1e-3, 1e-1][rng.integers(4)])
    mode = int(rng.integers(3))     # all good, all bad, one of them bad
    rows = []
    k = np.arange(maxint)
    bad = int(rng.integers(n))
    for j in range(n):
        if mode == 1 or (mode == 2 and j == bad):
            r = rng.uniform(.5, 1.5, maxint)*(1+.3*rng.standard_normal(maxint))
            if rng.random() < .4:   # Converging slowly
                r = 1/(k+1.)**.5*(1+.2*rng.uniform(-1, 1, maxint))
        else:
            typ = rng.integers(3)
            p = rng.uniform(.3, 2)
            if typ == 0:
                r = (-1.)**k/(k+1.)**p
            elif typ == 1:
                r = (-1.)**k*np.exp(-p*k)
            else:
                r = (-1.)**k*np.exp(-p*k)*np.cos(.1*k)
        rows.append(r*10.**rng.uniform(-4, 4))
    inp = np.array(rows)
    w = gen.lu(rng, .1, 10, n)
    intervals = np.cumsum(np.ones((n, maxint+1)), 1)*2*w[:, None]
    t.case(inp=inp, rtol=rtol, atol=atol, maxint=maxint)
    J = [judge(inp[j]*w[j], rtol, atol) for j in range(n)]
    fun = bool(rng.random() < .4)
    if fun:
        # Kernels given as function of the interval.
        off = np.arange(n)+1.

        def kern(i, lambd, o, ang):
            return inp[(np.asarray(o)-1).astype(int), i].copy()
        EM, kc, conv = transform.qwe(rtol, atol, maxint, kern, intervals,
                                     np.ones((n, 3)), off, np.ones(n))
    else:
        EM, kc, conv = transform.qwe(rtol, atol, maxint, inp.copy(),
                                     intervals)
    nbad = sum(q is not None and q[0] == 'bad' for q in J)
    if nbad:
        t.check(not conv, 'qwe-silent',
                f'{nbad} of {n} did not converge, not reported')
        t.count('series_bad')
        if nbad < n:
            t.count('series_mixed')
        t.sig('bad', n, nbad, maxint//5, fun)
    elif all(q is not None and q[2] < maxint-1 for q in J):
        t.check(bool(conv), 'qwe-false-warning', 'all converged')
        t.count('series_good')
        t.sig('good', n, maxint//5, fun)
    # Result of the converged ones
    for j, q in enumerate(J):
        if q is not None and q[0] == 'good':
            cand = [q[3][i] for i in range(q[1], q[2]+1)]
            d = min(abs(EM[j]-c) for c in cand)
            t.check(d <= 1e-6*max(abs(c) for c in cand) + rtol*abs(EM[j])*.1
                    + atol, 'qwe-value', f'{EM[j]} {cand}')


# (b) one of several

def warned(out, txt):
    return txt in out.getvalue()


def multi_case(t):
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 5)), mperm=bool(
        rng.random() < .2), perm=bool(rng.random() < .2))
    what = ['off', 'freq', 'src', 'depths', 'pts', 'time', 'joint'][
        rng.integers(7)]
    rtol = float(gen.lu(rng, 1e-7, 1e-3))
    arg = {'rtol': rtol, 'atol': 0., 'nquad': int(rng.integers(15, 40)),
           'maxint': int(rng.integers(5, 25)), 'pts_per_dec': 0}
    n = int(rng.integers(2, 5))
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, n, 30, 10000)
    f = gen.lu(rng, .01, 100, n)
    kw = {'ht': 'qwe', 'xdirect': bool(rng.random() < .3)}
    if rng.random() < .4:
        kw['loop'] = ['off', 'freq'][rng.integers(2)]
    singles = []
    fun, sig, txt = empymod.dipole, {}, HTXT
    r0 = [x[0], y[0], zr]
    if what == 'off':
        ab = int(rng.choice(gen.ABS_NZ))
        multi = dict(src=[0, 0, zs], rec=[x, y, zr], freqtime=f[0], ab=ab)
        singles = [dict(multi, rec=[x[i], y[i], zr]) for i in range(n)]
    elif what == 'freq':
        ab = int(rng.choice(gen.ABS_NZ))
        multi = dict(src=[0, 0, zs], rec=r0, freqtime=f, ab=ab)
        singles = [dict(multi, freqtime=f[i]) for i in range(n)]
    elif what in ('src', 'joint'):
        fun = empymod.bipole
        az, di = rng.uniform(10, 80, 2)
        sx, sy = rng.uniform(-10, 10, (2, n))
        multi = dict(src=[sx, sy, zs, az, di], rec=[x, y, zr, 20, 30],
                     freqtime=f[0])
        singles = [dict(multi, src=[sx[i], sy[i], zs, az, di],
                        rec=[x[j], y[j], zr, 20, 30])
                   for i in range(n) for j in range(n)]
    elif what == 'depths':
        fun = empymod.bipole
        zz = np.array([gen.zpoint(rng, m['depth']) for _ in range(n)])
        sz = np.array([gen.zpoint(rng, m['depth']) for _ in range(n)])
        multi = dict(src=[np.zeros(n), np.zeros(n), sz, 30, 10],
                     rec=[x, y, zz, 20, 30], freqtime=f[0])
        singles = [dict(multi, src=[0, 0, sz[i], 30, 10],
                        rec=[x[j], y[j], zz[j], 20, 30])
                   for i in range(n) for j in range(n)]
    elif what == 'pts':
        fun = empymod.bipole
        L = float(rng.uniform(5, 60))
        multi = dict(src=[-L, L, 0, 1, zs, zs+1e-9], rec=[
            x[0], y[0], zr, 20, 30], freqtime=f[0], srcpts=3)
        g = np.r_[-np.sqrt(.6), 0, np.sqrt(.6)]
        a = np.rad2deg(np.arctan2(1, 2*L))
        singles = [dict(src=[L*q, .5+.5*q, zs, a, 0], rec=multi['rec'],
                        freqtime=f[0]) for q in g]
    else:
        fun, txt = empymod.bipole, FTXT
        sig = {'signal': int(rng.choice([0, 1, -1]))}
        farg = {'rtol': rtol, 'atol': 0., 'pts_per_dec': 12, 'nquad': 15,
                'maxint': int(rng.integers(5, 30)), 'diff_quad': 1e20}
        kw.update(ht='dlf', htarg={'dlf': 'key_101_2012', 'pts_per_dec': 0})
        tt = gen.lu(rng, .01, 10, 2)
        multi = dict(src=[0, 0, zs, 30, 10], rec=[x, y, zr, 20, 30],
                     freqtime=tt, ft='qwe')
        singles = [dict(multi, rec=[x[i], y[i], zr, 20, 30])
                   for i in range(n)]
        kw.pop('loop', None)
    t.case(what=what, multi=multi, arg=arg, kw=kw, **m)

    def run(inp, fac):
        key, a = ('ftarg', farg) if txt == FTXT else ('htarg', arg)
        with captured() as out, np.errstate(all='ignore'):
            fun(verb=1, **inp, **kw, **sig, **m,
                **{key: {**a, 'rtol': rtol*fac}})
        return warned(out, txt)
    got = run(multi, 1.)
    yes = [run(s, 1.3) for s in singles]
    if any(yes):
        t.check(got, 'value-silent',
                f'{sum(yes)} of {len(yes)} single calls do not converge, '
                'the call of all does not report')
        t.count('multi_warn')
        if not all(yes):
            t.count('multi_some')
    elif not any(run(s, 1/1.3) for s in singles):
        t.check(not got, 'value-false-warning',
                'all single calls converge, the call of all reports')
        t.count('multi_quiet')
    t.sig('multi', what, len(yes), sum(yes), len(m['res']))


# (c) QUADPACK

def quadpack_case(t):
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)), perm=False, mperm=False)
    n = int(rng.integers(1, 3))
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, n, 200, 8000)
    f = gen.lu(rng, .01, 10, int(rng.integers(1, 3)))
    lim = int([1, 5, 10, 20, 60, 150][rng.integers(6)])
    rtol = float(gen.lu(rng, 1e-10, 1e-2))
    if t.index == 0:
        # Always the same one.
        m = {'depth': [0.], 'res': [2.40507766612892, .2787008420229669]}
        x = np.array([1705.8398129074028, -1146.3264979005635])
        y = np.array([-4310.7589996575225, -2260.878932193842])
        n, zs, zr, lim = 2, 1.241, -4.902, 60
        f = np.array([.011318028659583564, .03432758112598794])
        rtol = 2.3772770819734724e-06
    which = ['quad', 'qwe', 'fourier'][rng.choice(3, p=[.5, .25, .25])]
    ab = int(rng.choice(gen.ABS_NZ))
    if t.index == 0:
        which, ab = 'quad', 21
    kw = {'xdirect': True if t.index == 0 or rng.random() < .5 else False, 'ab': ab}
    txt = HTXT
    if which == 'quad':
        kw.update(ht='quad', htarg={'rtol': rtol, 'atol': 0., 'limit': lim,
                                    'a': 1e-5, 'b': .1, 'pts_per_dec': 30})
    elif which == 'qwe':
        kw.update(ht='qwe', htarg={'rtol': rtol, 'atol': 0., 'limit': lim,
                                   'diff_quad': .01, 'pts_per_dec': 30,
                                   'nquad': 15, 'maxint': 20})
    else:
        txt = FTXT
        kw.update(ht='dlf', htarg={'dlf': 'key_101_2012', 'pts_per_dec': 0},
                  ft='qwe', ftarg={'rtol': rtol, 'atol': 0., 'limit': lim,
                                   'diff_quad': .01, 'pts_per_dec': 12,
                                   'nquad': 15, 'maxint': 20},
                  signal=int(rng.choice([0, 1])))
        f = gen.lu(rng, .1, 10, int(rng.integers(1, 3)))
    t.case(x=x, y=y, zs=zs, zr=zr, f=f, kw=kw, **m)
    with quad_log() as log, captured() as out, np.errstate(all='ignore'):
        empymod.dipole([0, 0, zs], [x, y, zr], freqtime=f, verb=1, **kw, **m)
    if not log:
        t.count('not_quad')
        return
    got = warned(out, txt)
    t.count('quad_calls', len(log))
    t.count('quad_failed', sum(log))
    if any(log) and not got:
        if which != 'fourier' and len(log) % 2 == 0 and not any(log[::2]):
            t.count('verdicts')
            t.soft('imaginary-not-converged',
                   f'{sum(log)} imaginary parts of {len(log)//2} not '
                   'converged, no warning')
            t.count('imag_silent')
            return
        t.fail('quad-silent', f'{sum(log)} of {len(log)} not converged')
    t.count('verdicts')
    if not any(log):
        t.check(not got or which != 'quad', 'quad-false-warning',
                'all converged')
    t.count('quadpack')
    t.sig('quadpack', which, n, len(log), sum(log), ab)


# (d) cannot converge

def certain_case(t):
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(2, 4)), perm=False, mperm=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    meth = ['qwe', 'qwe-spline', 'quad', 'fqwe', 'fquad'][rng.integers(5)]
    r = [float(rng.uniform(200, 900)), float(rng.uniform(200, 900)), zr]
    s = [0, 0, zs]
    q = {'qwe': dict(ht='qwe', htarg={'rtol': 1e-15, 'atol': 0.,
                                      'maxint': int(rng.integers(1, 5)),
                                      'nquad': 11}),
         'qwe-spline': dict(ht='qwe', htarg={
             'rtol': 1e-15, 'atol': 0., 'maxint': int(rng.integers(1, 5)),
             'nquad': 11, 'pts_per_dec': 20, 'diff_quad': 1e30}),
         'quad': dict(ht='quad', htarg={'rtol': 1e-12, 'atol': 0.,
                                        'limit': 1, 'a': 1e-5, 'b': .1,
                                        'pts_per_dec': 20}),
         'fqwe': dict(ft='qwe', ftarg={
             'rtol': 1e-15, 'atol': 0., 'maxint': int(rng.integers(1, 5)),
             'nquad': 11, 'pts_per_dec': 10, 'diff_quad': 1e30}),
         'fquad': dict(ft='qwe', ftarg={
             'rtol': 1e-12, 'atol': 0., 'limit': 1, 'maxint': 20,
             'nquad': 11, 'pts_per_dec': 10, 'diff_quad': 1e-3}),
         }[meth]
    txt = FTXT if meth[0] == 'f' else HTXT
    name = ['dipole', 'bipole', 'loop', 'gpr', 'ip_and_q'][rng.integers(5)]
    f = float(gen.lu(rng, .1, 10))
    kw = {'freqtime': f, 'xdirect': False}
    if meth[0] == 'f':
        kw.update(signal=0, ht='dlf', htarg={'dlf': 'key_101_2012',
                                             'pts_per_dec': 0})
        if name == 'ip_and_q':
            name = 'dipole'
    fun = getattr(empymod, name)
    if name == 'dipole':
        kw.update(src=s, rec=r, ab=int(rng.choice(gen.EE)))
    elif name == 'bipole':
        kw.update(src=[-5, 5, 0, 3, zs, zs+1], rec=r+[20, 30],
                  srcpts=int(rng.integers(1, 4)))
    elif name == 'loop':
        kw.update(src=s+[20, 30], rec=r+[50, 60])
    elif name == 'gpr':
        kw.pop('signal', None)
        kw.update(src=s, rec=r, cf=1e6, freqtime=1e-6)
        if meth[0] != 'f':
            kw.update(ft='fft', ftarg={'dfreq': 5e5, 'nfreq': 4})
    else:
        kw.update(src=s, rec=r, ab=int(rng.choice([44, 55, 66])))
        kw.pop('xdirect')
        kw['xdirect'] = False
    kw.update(q)
    t.case(name=name, meth=meth, kw=kw, **m)
    for verb in (0, 1, 2):
        with captured() as out, np.errstate(all='ignore'):
            v = np.asarray(fun(verb=verb, **kw, **m))
        if verb == 0:
            t.check(out.getvalue() == '', 'not-silent', out.getvalue())
        else:
            t.check(warned(out, txt), 'certain-silent',
                    f'{name} {meth}: no warning; {out.getvalue()!r}')
        t.check(np.isfinite(v).all() and (
            name == 'gpr' or np.abs(v).max() > 0), 'certain-value', v)
        t.count('certain')
    t.sig('certain', name, meth, v.size)


# (e) no warning, so accurate

def accuracy_case(t):
    import empymod
    rng = t.rng
    res = float(gen.lu(rng, .1, 1000))
    an = float(rng.uniform(1, 3)) if rng.random() < .5 else 1.
    f = float(gen.lu(rng, .01, 1000))
    dz = float(gen.lu(rng, 1, 1000))
    skin = 503*np.sqrt(res/f)
    dz = min(dz, 2*skin)
    n = int(rng.integers(1, 4))
    r = dz*gen.lu(rng, .5, 30, n)
    r = np.minimum(r, 6*skin)
    r = np.maximum(r, .5*dz)
    th = rng.uniform(0, 2*np.pi, n)
    ab = [11, 22, 33, 44, 55, 66][rng.integers(6)]
    meth = ['qwe', 'spline', 'quad'][rng.choice(3, p=[.6, .2, .2])]
    rtol = float(gen.lu(rng, 1e-10, 1e-3))
    if meth == 'quad':
        ht, arg, tol = 'quad', {'rtol': rtol, 'atol': 0., 'limit': 1000,
                                'a': 1e-4/r.max(), 'b': 45/dz,
                                'pts_per_dec': 100}, 3e-3
    elif meth == 'spline':
        ht, arg, tol = 'qwe', {'rtol': rtol, 'atol': 0., 'nquad': 31,
                               'maxint': 100, 'pts_per_dec': 100,
                               'limit': 1000}, 3e-3
    else:
        ht, arg, tol = 'qwe', {'rtol': rtol, 'atol': 0., 'nquad': 51,
                               'maxint': 100, 'pts_per_dec': 0}, 0
    tol = max(tol, rtol*30, 1e-5)
    t.case(res=res, an=an, f=f, dz=dz, r=r, th=th, ab=ab, ht=ht, arg=arg)
    with captured() as out, np.errstate(all='ignore'):
        got = np.atleast_1d(np.asarray(empymod.dipole(
            [0, 0, 0], [r*np.cos(th), r*np.sin(th), dz], [], res, f, ab=ab,
            aniso=an, ht=ht, htarg=arg, xdirect=False, verb=1)))
    if warned(out, HTXT):
        t.count('warned')
        return
    mu, e0 = 4e-7*np.pi, 8.8541878128e-12
    iw = 2j*np.pi*f
    eH = 1/res + iw*e0
    eV = 1/(res*an**2) + iw*e0
    zz = iw*mu
    c = ab % 10
    if c < 4:
        want, sc = closed.coplanar(eH, eV, zz, zz, c, r, dz, th)
    else:
        want, sc = closed.coplanar(zz, zz, eH, eV, c-3, r, dz, th)
    t.close(got, want, 'silent-inaccurate', rtol=tol, scale=np.abs(sc),
            msg=f'{meth} {rtol}')
    t.count('accurate')
    t.sig('accurate', meth, ab, n, int(np.log10(r[0]/dz)*3))


def steep_case(t):
    """Offset much smaller than the vertical distance: plain QWE."""
    import empymod
    r, dz, res, f = [(1., 500., 1., 1.), (.1, 100., 10., .1),
                     (.5, 100., 1., 1.)][t.index % 3]
    t.case(r=r, dz=dz, res=res, f=f)
    with captured() as out, np.errstate(all='ignore'):
        got = complex(empymod.dipole(
            [0, 0, 0], [r, 0, dz], [], res, f, ab=11, ht='qwe',
            xdirect=False, verb=1))
    eH = 1/res + 2j*np.pi*f*8.8541878128e-12
    iz = 2j*np.pi*f*4e-7*np.pi
    want, sc = closed.coplanar(eH, eH, iz, iz, 1, r, dz, 0.)
    t.count('verdicts')
    if not warned(out, HTXT) and abs(got-want) > .1*abs(want):
        t.soft('qwe-steep-decay-silent', f'{got} instead of {want}')
    t.count('steep')
    t.sig('steep', t.index)


CASES = [('series', series_case, 600, 12000),
         ('multi', multi_case, 160, 3000),
         ('quadpack', quadpack_case, 80, 1500),
         ('certain', certain_case, 60, 900),
         ('accuracy', accuracy_case, 150, 4000),
         ('steep', steep_case, 3, 3)]
