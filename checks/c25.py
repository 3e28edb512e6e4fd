"""C25: scaling, duality, static limit, attenuation."""
import numpy as np

from vlib import gen
from vlib.util import (bip, captured, dip, dipoles5, fine_coords, nat_scale,
                       rtol_for, time_scale, warm_dipole)

RULE = ('pairs of modelling runs: all lengths, resistivities, permittivities, '
        'permeabilities, frequencies (or times) scaled consistently; electric '
        'and magnetic material exchanged; frequencies towards zero; receivers '
        'moved away by skin depths; distinct by layers, combination, routine, '
        'domain')
REQUIRED = {'scaled': 300, 'scaled_bipole': 60, 'scaled_time': 60,
            'scaled_other': 60, 'dual': 200, 'static': 60, 'attenuated': 60,
            'strength': 30}
ASSUMPTIONS = ['scales for which no value falls below the numerical minima']


def warmup(group):
    warm_dipole()
    if group == 'lap':
        warm_dipole(True)


def factors(rng, two=None):
    """Factors of length, resistivity, frequency; and of eps, mu."""
    if two is None:
        two = rng.random() < .4
    if two:
        a, b, g = (2.**int(rng.integers(-4, 5)) for _ in range(3))
    else:
        a, b, g = (float(gen.lu(rng, .05, 20)) for _ in range(3))
    return a, b, g, 1/(b*g), b/(a*a*g)


def explicit(m):
    f = gen.full(m)
    return {k: [float(x) for x in v] for k, v in f.items()}


def scaled(m, a, b, c, d):
    s = {'depth': a, 'res': b, 'aniso': 1, 'epermH': c, 'epermV': c,
         'mpermH': d, 'mpermV': d}
    return {k: [x*s[k] for x in v] for k, v in m.items()}


def power(ab, a, b):
    """Factor of the field."""
    rec, src = ab//10 > 3, ab % 10 > 3
    if not rec and not src:
        return b/a**3
    if rec and src:
        return 1/(a*b)
    return 1/a**2


def depths(rng, m):
    zs = gen.zpoint(rng, m['depth'])
    zr = zs if rng.random() < .15 else gen.zpoint(rng, m['depth'])
    return zs, zr


def scale_case(t, lap=False):
    rng = t.rng
    for _ in range(3):
        m = explicit(gen.model(rng))
        zs, zr = depths(rng, m)
        x, y = gen.offsets(rng, 2)
        f = gen.lu(rng, 1e-2, 1e4, 2)
        ab = int(rng.choice(gen.ABS_NZ))
        a, b, g, c, d = factors(rng)
        xd = [False, True, None][rng.integers(3)]
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, a=a, b=b, g=g, xdirect=xd,
               **m)
        sg = -1 if lap else 1
        u = dip([0, 0, zs], [x, y, zr], m, sg*f, ab, xdirect=xd)[:, :, 0]
        v = dip([0, 0, a*zs], [a*x, a*y, a*zr], scaled(m, a, b, c, d),
                sg*f*g, ab, xdirect=xd)[:, :, 0]
        sc = nat_scale(m, f, zs, zr, ab, np.hypot(x, y), laplace=lap)
        p = power(ab, a, b)
        t.close(v/p, u, 'scaling', rtol=rtol_for(m), scale=sc+np.abs(u),
                atol=1e-300, msg=f'ab={ab}')
        t.count('scaled', 2)
        t.sig('scale', *gen.nl_sig(m, zs, zr, ab), lap, xd)


def scale_lap(t):
    scale_case(t, True)


def time_case(t):
    rng = t.rng
    m = explicit(gen.model(rng, perm=False, air=rng.random() < .2,
                           res=(.5, 100)))
    for k in ('epermH', 'epermV'):
        m[k] = [0.]*len(m['res'])
    zs, zr = depths(rng, m)
    x, y = gen.offsets(rng, 2, 50, 500)
    ab = int(rng.choice(gen.ABS_NZ))
    sig = int(rng.integers(-1, 2))
    tt = gen.lu(rng, .05, 20, 2)*4e-7*np.pi*np.max(x**2+y**2)/m['res'][-1]
    a, b, g, c, d = factors(rng)
    kw = {'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009', 'pts_per_dec': 0}}
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, t=tt, a=a, b=b, g=g, sig=sig, **m)
    u = dip([0, 0, zs], [x, y, zr], m, tt, ab, signal=sig, **kw)[:, :, 0]
    v = dip([0, 0, a*zs], [a*x, a*y, a*zr], scaled(m, a, b, c, d), tt/g, ab,
            signal=sig, **kw)[:, :, 0]
    p = power(ab, a, b)*(g if sig == 0 else 1)
    off = np.hypot(x, y)
    sc = time_scale(lambda f: nat_scale(m, f, zs, zr, ab, off), tt, sig)
    t.close(v/p, u, 'scaling-time', rtol=rtol_for(m), scale=sc+np.abs(u),
            atol=1e-300, msg=f'ab={ab} signal={sig}')
    t.count('scaled_time')
    t.sig('time', sig, ab, len(m['res']))


def bipole_case(t):
    """Finite rotated bipoles of all types: fluxes, currents, strength."""
    rng = t.rng
    m = explicit(gen.model(rng, res=(.5, 100)))
    pts = []
    fin = rng.random(2) < .6
    # Points of the quadrature must not be on an interface
    z = [gen.zpoint(rng, m['depth'], on_if=0 if fin[k] else .1)
         for k in range(2)]
    cen = np.array([[0, 0, z[0]], [*rng.choice([-1, 1], 2)
                                   * gen.lu(rng, 300, 800, 2), z[1]]])
    for k in range(2):
        v = rng.normal(size=3)
        if rng.random() < .3:
            v[2] = 0
        v *= gen.lu(rng, 5, 60)/np.linalg.norm(v)/2
        p, q = cen[k]-v, cen[k]+v
        pts.append([p[0], q[0], p[1], q[1], p[2], q[2]])
    ang = [[*cen[k], *rng.uniform(-80, 80, 2)] for k in range(2)]
    f = gen.lu(rng, 1e-2, 1e3, 1)
    msrc = [False, True, 'b'][rng.integers(3)]
    mrec = [False, True, 'j', 'b'][rng.integers(4)]
    st = float(rng.choice([0, gen.lu(rng, .1, 100)]))
    a, b, g, c, d = factors(rng)
    n = [3, 2]
    t.case(m=m, pts=pts, ang=ang, finite=fin, f=f, msrc=msrc, mrec=mrec,
           strength=st, a=a, b=b, g=g)

    def run(mm, q, fr):
        s, r = (np.array(pts[k])*q if fin[k] else
                np.r_[np.array(ang[k][:3])*q, ang[k][3:]] for k in range(2))
        return bip(list(s), list(r), mm, fr, msrc=msrc, mrec=mrec, strength=st,
                   srcpts=n[0] if fin[0] else 1, recpts=n[1] if fin[1] else 1,
                   )[:, 0, 0]

    with fine_coords():
        u, v = run(m, 1, f), run(scaled(m, a, b, c, d), a, f*g)
    rec, src = mrec in (True, 'b'), bool(msrc)
    p = power(11+30*rec+3*src, a, b)
    p *= (b/a**2 if mrec == 'b' else 1)*(b/a**2 if msrc == 'b' else 1)
    p *= (1/b if mrec == 'j' else 1)
    if st:    # Both lengths enter
        p *= a**(fin.sum())
    off = np.hypot(*cen[1][:2])
    from vlib.util import bip_scale
    sc = bip_scale(m, f, *z, off, src, rec)[:, 0]
    # The same in units of the result
    from vlib import ref
    eta, _, zeta, _ = ref.material(gen.full(m), f)
    if mrec == 'b':
        sc = sc*np.abs(zeta[:, gen.layer_of(m['depth'], z[1])])
    if msrc == 'b':
        sc = sc*np.abs(zeta[:, gen.layer_of(m['depth'], z[0])])
    if mrec == 'j':
        sc = sc*np.abs(eta).max()
    if st:
        sc = sc*st*60**fin.sum()
    t.close(v/p, u, 'scaling-bipole', rtol=100*rtol_for(m),
            scale=sc+np.abs(u), atol=1e-300)
    t.count('scaled_bipole')
    # Proportional to the strength
    if st:
        with fine_coords():
            st, old = 3*st, st
            w = run(m, 1, f)
        t.close(w, 3*u, 'strength', rtol=1e-10, scale=3*np.abs(u))
        t.count('strength')
        st = old
    t.sig('bip', msrc, mrec, st != 0, *fin.tolist(), len(m['res']))


def other_case(t):
    """Wavenumber domain, analytical half-space, TM/TE split."""
    import empymod
    from empymod.scripts import tmtemod
    rng = t.rng
    a, b, g, c, d = factors(rng)
    kind = str(rng.choice(['dipole_k', 'analytical', 'tmtemod']))
    f = gen.lu(rng, 1e-2, 1e3, 2)
    if kind == 'dipole_k':
        m = explicit(gen.model(rng))
        zs, zr = depths(rng, m)
        x, y = gen.offsets(rng, 1)
        ab = int(rng.choice(gen.EE))
        k = gen.lu(rng, 1e-5, 1e-1, 3)
        t.case(kind=kind, ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, k=k, a=a, b=b,
               g=g, **m)
        u = empymod.dipole_k([0, 0, zs], [x, y, zr], freq=f, wavenumber=k,
                             ab=ab, verb=0, **m)
        v = empymod.dipole_k([0, 0, a*zs], [a*x, a*y, a*zr], freq=f*g,
                             wavenumber=k/a, ab=ab, verb=0,
                             **scaled(m, a, b, c, d))
        # E(k) dk ~ E: spectrum has one power of length less
        p = power(ab, a, b)*a
        for i in range(2):
            # The J1 part of the horizontal pairs includes 1/offset
            q = p
            sc = np.abs(u[i])+1e-8*np.abs(np.abs(u[i]).max())
            t.close(v[i]/q, u[i], 'scaling-wavenumber', rtol=1e-6 +
                    1e2*rtol_for(m), scale=sc, atol=1e-300, msg=f'ab={ab} {i}')
    elif kind == 'analytical':
        res, an = float(gen.lu(rng, .3, 100)), float(gen.lu(rng, .6, 2))
        zs, zr = gen.lu(rng, 5, 100, 2)
        x, y = gen.offsets(rng, 2)
        ab = int(rng.choice(gen.EE))
        sol = str(rng.choice(['dfs', 'dhs', 'dsplit', 'dtetm']))
        # Diffusive: mu fixed, f follows from a and b
        g = b/a**2
        sig = [None, 0, 1, -1][rng.integers(4)]
        if sig is not None:
            f = gen.lu(rng, .05, 20, 2)*4e-7*np.pi*x**2/res + 1e-9
            f2 = f/g
            g = g if sig == 0 else 1
        else:
            f2, g = f*g, 1
        t.case(kind=kind, sol=sol, ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, a=a,
               b=b, res=res, aniso=an, signal=sig)
        kw = dict(solution=sol, signal=sig, ab=ab, aniso=an, verb=0,
                  squeeze=False)
        u = np.asarray(empymod.analytical([0, 0, zs], [x, y, zr], res, f,
                                          **kw))
        v = np.asarray(empymod.analytical([0, 0, a*zs], [a*x, a*y, a*zr],
                                          b*res, f2, **kw))
        p = b/a**3*g
        t0 = 0 if sig is None else (1/f[:, None, None] if sig == 0 else 1)
        stat = res/np.hypot(np.hypot(x, y), zs-zr)**3
        t.close(v/p, u, 'scaling-analytical', rtol=1e-6,
                scale=np.abs(u)+1e-6*np.abs(u).max(),
                atol=1e-300 + (0 if sig is None else 1e-4*stat[:, None]
                               * t0), msg=f'{sol} ab={ab}')
    else:
        nl = int(rng.integers(2, 5))
        m = explicit(gen.model(rng, nl=nl, res=(.5, 100), air=False,
                               thick=(50, 300)))
        lay = int(rng.integers(nl))
        zs, zr = (gen.zpoint(rng, m['depth'], layer=lay) for _ in range(2))
        x, y = gen.offsets(rng, 2, 50, 1000)
        t.case(kind=kind, zs=zs, zr=zr, x=x, y=y, f=f[:1], a=a, b=b, g=g, **m)

        def run(mm, q, fr):
            with captured():
                r = tmtemod.dipole(
                    [0, 0, q*zs], [q*x, q*y, q*zr], mm['depth'], mm['res'],
                    fr, aniso=mm['aniso'], eperm=mm['epermH'],
                    mperm=mm['mpermH'], verb=0)
            return np.array(r)
        u = run(m, 1, f[0])
        v = run(scaled(m, a, b, c, d), a, f[0]*g)
        t.close(v*a**3/b, u, 'scaling-split', rtol=1e-6,
                scale=np.abs(u)+1e-4*np.abs(u).max(), atol=1e-300)
    t.count('scaled_other')
    t.sig('other', kind)


def hooked(eta, zeta):
    """res-dict whose material is exactly the given one."""
    return {'res': np.ones(eta[0].shape[1]),
            'func_eta': lambda inp, p: eta, 'func_zeta': lambda inp, p: zeta}


def dual_case(t):
    rng = t.rng
    from vlib import ref
    for _ in range(3):
        nl = int(rng.integers(1, 5))
        m = explicit(gen.model(rng, nl=nl, air=False))
        zs, zr = depths(rng, m)
        x, y = gen.offsets(rng, 2, 30, 500)
        f = gen.lu(rng, 1, 1e4, 2)
        skin = 500.
        w = 2*np.pi*f[:, None]
        # Any material with positive real parts.
        e = gen.lu(rng, .01, 10, (2, nl))
        eta = [(e[i]*(1+1j*w/1e4*rng.uniform(.1, 1, nl))) for i in range(2)]
        e = gen.lu(rng, .3, 3, (2, nl))
        z = [e[i]*(.1*rng.uniform(0, 1, nl)*w+1j*w)*4e-7*np.pi
             for i in range(2)]
        del skin
        rec, src = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        o = ([0, 0, zs], [x, y, zr])
        t.case(zs=zs, zr=zr, x=x, y=y, f=f, rec=rec, src=src,
               eta=np.array(eta), zeta=np.array(z), depth=m['depth'])
        one = {'depth': m['depth'], 'res': hooked(eta, z)}
        two = {'depth': m['depth'], 'res': hooked(z, eta)}
        for kr, ks, sg in ((0, 0, 1), (0, 3, -1), (3, 0, -1), (3, 3, 1)):
            ab = 10*(rec+kr)+src+ks
            du = 10*(rec+3-kr)+src+3-ks
            if ab in (36, 63):
                continue
            u = dip(*o, one, f, ab)[:, :, 0]
            v = dip(*o, two, f, du)[:, :, 0]
            sc = np.abs(u)
            for i in range(2):
                mats = [k[i] for k in (*eta, *z)]
                for j in range(2):
                    sc[i, j] += scale_of(mats, m['depth'], zs, zr, ab,
                                         np.hypot(x[j], y[j]))
            t.close(sg*v, u, 'duality', rtol=1e-8, scale=sc, atol=1e-300,
                    msg=f'ab={ab}')
            t.count('dual')
            t.sig('dual', nl, gen.layer_of(m['depth'], zs),
                  gen.layer_of(m['depth'], zr), ab)
    del ref


def scale_of(mats, depth, zs, zr, ab, off):
    import empymod
    from vlib import ref
    from vlib.util import DLF
    fl = getattr(empymod.filters.Hankel(), DLF)
    lam = fl.base/off
    _, mg = ref.spectrum(None, mats, depth, zs, zr, ab, lam)
    q0, q1, q2 = (np.zeros(lam.size)+q for q in ref.bessel_scale(mg))
    return (np.abs((q0+q2)*lam*fl.j0).sum() + np.abs(
        (q1*lam+2*q2/off)*fl.j1).sum())/off/2/np.pi


def static_case(t):
    """Low-frequency limit of the electric field of an electric source, and of
    the magnetic field: real, independent of frequency, the same as for small
    Laplace parameters."""
    import empymod
    rng = t.rng
    m = gen.model(rng, perm=False, air=False, res=(.5, 100),
                  mperm=rng.random() < .5)
    zs, zr = depths(rng, m)
    x, y = gen.offsets(rng, 2, 50, 500)
    ab = int(rng.choice([k for k in gen.ABS_NZ if k % 10 < 4]))
    L2 = 500.**2*min(gen.full(m)['aniso'])**-2*25
    f = 1e-7*min(m['res'])/(2*np.pi*4e-7*np.pi*L2)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, **m)
    xd = bool(rng.integers(2))
    old = empymod.get_minimum()
    empymod.set_minimum(min_freq=1e-30)
    try:
        o = ([0, 0, zs], [x, y, zr], m)
        u = dip(*o, [f, f/10], ab, xdirect=xd)[:, :, 0]
        v = dip(*o, [-2*np.pi*f], ab, xdirect=xd)[:, :, 0]
    finally:
        empymod.set_minimum(**old)
    sc = nat_scale(m, [f], zs, zr, ab, np.hypot(x, y))[0]
    t.check(np.all(np.isfinite(u)), 'static-finite', u)
    t.close(u.imag, 0*u.real, 'static-real', rtol=1e-4, scale=np.abs(u),
            atol=1e-7*sc)
    t.close(u[1].real, u[0].real, 'static-limit', rtol=1e-4,
            scale=np.abs(u[0]), atol=1e-7*sc)
    t.close(v[0], u[0].real, 'static-laplace', rtol=1e-4, scale=np.abs(u[0]),
            atol=1e-7*sc)
    t.count('static')
    t.sig('static', ab, len(m['res']), xd)


def lossy_case(t):
    """Fields of a whole-space decay with the distance in skin depths."""
    rng = t.rng
    f = float(gen.lu(rng, .1, 1e5))
    ab = int(rng.choice(gen.EE + [44, 55, 66, 46, 64]))
    nsk = float(rng.uniform(2, 12))
    res = float(gen.lu(rng, .1, 100))
    sk = np.sqrt(res/(np.pi*f*4e-7*np.pi))
    m = {'depth': [], 'res': [res], 'epermH': [0.], 'epermV': [0.]}
    v = rng.normal(size=3)
    v /= np.linalg.norm(v)
    t.case(ab=ab, f=f, res=res, direction=v, skins=nsk)
    # Magnitudes over the distance: bounded by polynomial times decay.
    k = []
    for q in (nsk, nsk+3):
        k.append(np.abs(dip([0, 0, 0], [*(v[:2]*q*sk), v[2]*q*sk], m, [f],
                            ab, xdirect=True))[0, 0, 0])
    # (1+x+x^2)/x^3 with x=|k|r
    def p(x):
        x = x*np.sqrt(2)
        return (3+3*x+x*x)/x**3*np.exp(-x/np.sqrt(2))
    bound = p(nsk)*(res if ab < 40 else 1/(2*np.pi*f*4e-7*np.pi))
    bound = bound*(np.sqrt(2)/sk)**3/(4*np.pi)*1.1
    t.check(k[0] <= bound, 'attenuation', (k, bound))
    t.check(k[1] <= bound*p(nsk+3)/p(nsk), 'attenuation', (k, bound))
    t.sig('lossy', 'full', ab, int(nsk))
    t.count('attenuated')


CASES = [('scale', scale_case, 120, 2500), ('time', time_case, 80, 1200),
         ('bipole', bipole_case, 120, 2000), ('other', other_case, 120, 1500),
         ('dual', dual_case, 60, 1000), ('lossy', lossy_case, 100, 1500),
         ('scalelap', scale_lap, 60, 1000, 'lap'),
         ('static', static_case, 80, 1200, 'lap')]
