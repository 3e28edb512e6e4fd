"""C11: bipoles follow from the elementary dipoles."""
import numpy as np

from vlib import gen
from vlib.util import (bip, dip, bip_scale, fine_coords, captured,
                       warm_dipole)

RULE = ('random orientations (also multiples of 90 degrees, several turns), '
        'lengths, depths, integration points, strengths and types in random '
        'models against sums of dipole calls; distinct by orientation class, '
        'types, layers, integration points')
REQUIRED = {'rotated': 300, 'batch': 60, 'finite': 80, 'flux': 80,
            'current': 20, 'converged': 20, 'time_flux': 15, 'laplace': 30}
ASSUMPTIONS = ['points of finite bipoles in the sharp comparisons are not '
               'rounded (minimum offset 1e-9 m), with the default only to '
               'within the documented rounding']


def warmup(group):
    warm_dipole(group == 'lap')


def angle(rng, kind):
    s = float(rng.choice([0, 90, 180, 270, -90, -180, 360, 450, -270, 720]))
    if kind == 'axis':
        return s
    if kind == 'near':
        return s + float(rng.choice([1e-5, -1e-5, 1e-3, -1e-3]))
    return float(rng.uniform(-400, 400))


def orient(rng):
    ka, kd = (str(rng.choice(['axis', 'any', 'near'], p=[.45, .45, .1]))
              for _ in range(2))
    return angle(rng, ka), angle(rng, kd), ka+kd


def unit(azm, dp):
    a, d = np.deg2rad(azm), np.deg2rad(dp)
    return np.array([np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)])


def elementary(m, f, ps, pr, ms, mr, xd, lap=1):
    """Field tensor [receiver, source] of the point dipoles."""
    return np.array([[dip(ps, pr, m, lap*f, 10*(i+3*mr)+j+3*ms,
                          xdirect=xd)[:, 0, 0] for j in (1, 2, 3)]
                     for i in (1, 2, 3)])


def settings(rng, m, n=1):
    ms, mr = (bool(rng.random() < .5) for _ in range(2))
    xd = [False, True, None][int(rng.choice([0, 0, 1, 2]))]
    return ms, mr, xd, gen.lu(rng, .01, 1e3, n)


def rotated_case(t, lap=1):
    """Single pair of dipoles."""
    rng = t.rng
    m = gen.model(rng)
    ms, mr, xd, f = settings(rng, m, 2)
    ps = [*rng.uniform(-100, 100, 2), gen.zpoint(rng, m['depth'])]
    x, y = gen.offsets(rng, 1)
    pr = [float(x[0]), float(y[0]), gen.zpoint(rng, m['depth'])]
    E = elementary(m, f, ps, pr, ms, mr, xd, lap)
    sc = bip_scale(m, f, ps[2], pr[2], max(np.hypot(
        pr[0]-ps[0], pr[1]-ps[1]), 1e-3), ms, mr)[:, 0] + np.abs(E).sum((0, 1))
    for _ in range(4):
        a, d, ka = orient(rng)
        b, e, kb = orient(rng)
        st = float(rng.choice([0, 0, 1, -2.5, 40.]))
        t.case(src=[*ps, a, d], rec=[*pr, b, e], msrc=ms, mrec=mr, f=lap*f,
               strength=st, xdirect=xd, **m)
        v = bip([*ps, a, d], [*pr, b, e], m, lap*f, msrc=ms, mrec=mr,
                strength=st, xdirect=xd)[:, 0, 0]
        want = np.einsum('i,ijf,j->f', unit(b, e), E, unit(a, d))*(st or 1)
        # Factors below the minimum angle are taken as zero.
        t.close(v, want, 'rotated', rtol=2e-8 if 'near' in ka+kb else 1e-11,
                scale=sc*abs(st or 1), atol=1e-300,
                msg=f'{a, d} {b, e} {ms, mr}')
        if st == 0 and not ms and not mr and lap > 0 and rng.random() < .4:
            # Swapping ends: opposite polarity.
            w = bip([*ps, a+180, -d], [*pr, b, e], m, f, xdirect=xd)[:, 0, 0]
            t.close(w, -v, 'polarity', rtol=2e-8, scale=sc, atol=1e-300)
        t.count('rotated' if lap > 0 else 'laplace')
        t.sig('rotated', ka, kb, ms, mr, gen.nl_sig(m, ps[2], pr[2], 0), lap)


def laplace_case(t):
    rotated_case(t, -1)


def batch_case(t):
    """Many orientations at once: the set of components is a joint choice."""
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)))
    ms, mr, xd, f = settings(rng, m, 1)
    ns, nr = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    same = rng.random() < .6
    zs = np.full(ns, gen.zpoint(rng, m['depth']))
    zr = np.full(nr, gen.zpoint(rng, m['depth']))
    if not same:
        zs = np.array([gen.zpoint(rng, m['depth']) for _ in range(ns)])
    xs, ys = rng.uniform(-200, 200, (2, ns))
    xr, yr = gen.offsets(rng, nr, 300, 3000)
    os_ = [orient(rng) for _ in range(ns)]
    or_ = [orient(rng) for _ in range(nr)]
    for o in (os_, or_):
        # Sets with a common property.
        k = rng.integers(6)
        for i in range(len(o)):
            a, d, s = o[i]
            if k == 0:
                a, d = float(rng.choice([0, 180, 360])), 0.
            elif k == 1:
                a, d = float(rng.choice([90, -90, 270])), float(
                    rng.choice([0, 180]))
            elif k == 2:
                d = float(rng.choice([90, -90]))
            elif k == 3:
                a, d = float(rng.choice([0, 90])), float(rng.choice([0, 90]))
            o[i] = (a, d, s)
    src = [xs, ys, zs, [o[0] for o in os_], [o[1] for o in os_]]
    rec = [xr, yr, zr, [o[0] for o in or_], [o[1] for o in or_]]
    t.case(src=src, rec=rec, msrc=ms, mrec=mr, f=f, xdirect=xd, **m)
    v = bip(src, rec, m, f, msrc=ms, mrec=mr, xdirect=xd)[0]
    for s in range(ns):
        for r in range(nr):
            ps, pr = [xs[s], ys[s], zs[s]], [xr[r], yr[r], zr[r]]
            E = elementary(m, f, ps, pr, ms, mr, xd)[..., 0]
            sc = bip_scale(m, f, ps[2], pr[2], np.hypot(
                pr[0]-ps[0], pr[1]-ps[1]), ms, mr)[0, 0] + np.abs(E).sum()
            want = unit(*or_[r][:2]) @ E @ unit(*os_[s][:2])
            near = any('near' in o[2] for o in os_+or_)
            t.close(v[r, s], want, 'batch-rotated', rtol=3e-8 if near else 1e-11, scale=sc,
                    atol=1e-300, msg=f'src {s} rec {r}')
            t.count('batch')
    t.sig('batch', ns, nr, tuple(o[2] for o in os_), ms, mr)


def pole(rng, m):
    d = m['depth']
    lay = int(rng.integers(len(d)+1)) if rng.random() < .7 else None
    z0, z1 = gen.zpoint(rng, d, lay, on_if=0), gen.zpoint(rng, d, lay, on_if=0)
    k = str(rng.choice(['any', 'hor', 'ver', 'x', 'y']))
    dx, dy = rng.uniform(-150, 150, 2)
    if k == 'hor':
        z1 = z0
    elif k == 'ver':
        dx = dy = 0
        z1 = z0 + 10. if z1 == z0 else z1
    elif k == 'x':
        dy, z1 = 0., z0
    elif k == 'y':
        dx, z1 = 0., z0
    return np.array([dx, dy, z1-z0]), z0, k


def finite_case(t):
    """Length averages by Gauss-Legendre points, strength times length."""
    rng = t.rng
    m = gen.model(rng, air=bool(rng.random() < .2))
    ms, mr, xd, f = settings(rng, m, 1)
    if rng.random() < .3:
        # Different layers on the way: material differs.
        xd = False
    ends, pts, wts, u, lens = [], [], [], [], []
    npts = [int(rng.choice([1, 2, 3, 4, 5])) for _ in range(2)]
    kinds = []
    for k in range(2):
        if rng.random() < .75 or (k == 1 and not kinds[0] != 'dipole'):
            v, z0, kind = pole(rng, m)
            p0 = np.array([*(rng.uniform(-200, 200, 2) + [k*700, 0]), z0])
            ends.append([p0[0], p0[0]+v[0], p0[1], p0[1]+v[1], p0[2],
                         p0[2]+v[2]])
            n = npts[k] if npts[k] > 2 else 1
            g, w = np.polynomial.legendre.leggauss(n)
            pts.append([p0 + v*(1+q)/2 for q in g])
            wts.append(w/2)
            L = np.linalg.norm(v)
            u.append(v/L)
            lens.append(L)
        else:
            a, d, kind = orient(rng)
            kind = 'dipole'
            p = np.array([*(rng.uniform(-200, 200, 2) + [k*700, 0]),
                          gen.zpoint(rng, m['depth'])])
            p = np.round(p, 6)
            ends.append([*p, a, d])
            pts.append([p])
            wts.append([1.])
            u.append(unit(a, d))
            lens.append(1.)
        kinds.append(kind)
    st = float(rng.choice([0, 0, 1, -3., 25.]))
    t.case(src=ends[0], rec=ends[1], srcpts=npts[0], recpts=npts[1], msrc=ms,
           mrec=mr, f=f, strength=st, xdirect=xd, **m)
    kw = dict(msrc=ms, mrec=mr, srcpts=npts[0], recpts=npts[1], strength=st,
              xdirect=xd)
    want, sc = 0, 0
    with fine_coords():
        v = bip(ends[0], ends[1], m, f, **kw)[:, 0, 0]
        for p, w in zip(pts[0], wts[0]):
            for q, x in zip(pts[1], wts[1]):
                p, q = np.round(p, 9), np.round(q, 9)
                E = elementary(m, f, p, q, ms, mr, xd)
                want = want + w*x*np.einsum('i,ijf,j->f', u[1], E, u[0])
                # The dip of a finite pole is accurate to about 1e-8 only.
                sc = sc + w*x*(3e-8*np.abs(E).sum((0, 1)) + 3e-9*bip_scale(
                    m, f, p[2], q[2], np.hypot(*(p-q)[:2]), ms, mr)[:, 0])
    fact = st*lens[0]*lens[1] if st else 1.
    t.close(v, want*fact, 'finite', rtol=1, scale=sc*abs(fact), atol=1e-300,
            msg=f'{kinds} {kw}')
    # Default rounding of the points to mm.
    d = bip(ends[0], ends[1], m, f, **kw)[:, 0, 0]
    near = min(abs(p[2] - z) for pt in pts for p in pt
               for z in (*m['depth'], 1e9))
    if near > .01:
        R = min(np.linalg.norm(p-q) for p in pts[0] for q in pts[1])
        dz = min(abs(p[2]-q[2]) for p in pts[0] for q in pts[1])
        # Relative change of fields by a mm, in the transform by dz.
        if dz > 1 and R > 20:
            t.close(d, v, 'rounded', rtol=2e5, scale=sc*abs(fact)*(
                1+1/dz), msg=f'{kinds} {kw}')
    t.count('finite')
    t.sig('finite', *kinds, *npts, ms, mr, st != 0,
          gen.nl_sig(m, pts[0][0][2], pts[1][0][2], 0))


def converge_case(t):
    """More points converge to the length average."""
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)), air=False, perm=False)
    lay = int(rng.integers(len(m['res'])))
    z0, z1 = (gen.zpoint(rng, m['depth'], lay, on_if=0) for _ in range(2))
    v = np.array([*rng.uniform(-100, 100, 2), z1-z0])
    p0 = np.array([*rng.uniform(-50, 50, 2), z0])
    rec = [float(rng.uniform(500, 1500)), float(rng.uniform(500, 1500)),
           z0 + 1., *rng.uniform(-90, 90, 2)]
    f = gen.lu(rng, .05, 5, 1)
    src = [p0[0], p0[0]+v[0], p0[1], p0[1]+v[1], p0[2], p0[2]+v[2]]
    t.case(src=src, rec=rec, f=f, **m)
    with fine_coords():
        r = {n: bip(src, rec, m, f, srcpts=n, xdirect=True)[0, 0, 0]
             for n in (1, 5, 9, 13)}
        u = v/np.linalg.norm(v)
        a = np.rad2deg(np.arctan2(u[1], u[0]))
        d = np.rad2deg(np.arcsin(np.clip(u[2], -1, 1)))
        # Independent: midpoint rule.
        n = 60
        s = (np.arange(n)+.5)/n
        mid = np.mean([bip([*(p0+v*q), a, d], rec, m, f,
                           xdirect=True)[0, 0, 0] for q in s])
    size = np.max([np.abs(x) for x in r.values()])
    t.close(r[13], mid, 'length-average', rtol=5e-3, scale=size, msg=f'{r}')
    t.close(r[13], r[9], 'converges', rtol=2e-3, scale=size, msg=f'{r}')
    t.count('converged')
    t.sig('converge', gen.nl_sig(m, z0, z1, 0))


def flux_case(t, lap=1):
    """Types 'b' and 'j' differ by the material at the position."""
    rng = t.rng
    m = gen.model(rng, vti_mu=False)
    f0 = gen.full(m)
    f = gen.lu(rng, .01, 1e4, 2)
    s = 2j*np.pi*f if lap > 0 else 2*np.pi*f
    if lap < 0:
        f = -f
        s = -f
    nr = int(rng.choice([1, 3]))
    ns = int(rng.choice([1, 2]))
    zs = np.array([gen.zpoint(rng, m['depth']) for _ in range(ns)])
    zr = np.array([gen.zpoint(rng, m['depth']) for _ in range(nr)])
    if rng.random() < .5:
        zr[:] = zr[0]
    xs, ys = rng.uniform(-100, 100, (2, ns))
    xr, yr = gen.offsets(rng, nr, 300, 2000)
    src = [xs, ys, zs, rng.uniform(-180, 180, ns), rng.uniform(-90, 90, ns)]
    rec = [xr, yr, zr, rng.uniform(-180, 180, nr), rng.uniform(-90, 90, nr)]
    ty_s = [False, True, 'b'][int(rng.integers(3))]
    ty_r = ['b', 'j', 'b', True, 'loop'][int(rng.integers(5))]
    if ty_r is True and ty_s != 'b':
        ty_s = 'b'
    kw = {'xdirect': [False, True, None][int(rng.integers(3))],
          'strength': float(rng.choice([0, 2.]))}
    t.case(src=src, rec=rec, msrc=ty_s, mrec=ty_r, f=f, **m, **kw)
    v = bip(src, rec, m, f, msrc=ty_s, mrec=ty_r, **kw)
    w = bip(src, rec, m, f, msrc=bool(ty_s), mrec=ty_r not in (False, 'j'),
            **kw)
    mu0 = 4e-7*np.pi
    eps0 = 8.8541878128e-12
    fac = np.ones_like(w)
    lr = [gen.layer_of(m['depth'], z) for z in zr]
    ls = [gen.layer_of(m['depth'], z) for z in zs]
    if ty_r in ('b', 'loop'):
        fac = fac*s[:, None, None]*mu0*f0['mpermH'][lr][None, :, None]
        t.count('flux')
    if ty_r == 'j':
        fac = fac*(1/f0['res'][lr] + s[:, None]*eps0*f0['epermH'][lr]
                   )[:, :, None]
        t.count('current')
    if ty_s == 'b':
        fac = fac*s[:, None, None]*mu0*f0['mpermH'][ls][None, None, :]
        t.count('flux')
    t.close(v, w*fac, 'material-factor', rtol=1e-7, atol=1e-300,
            msg=f'{ty_s} {ty_r}')
    t.sig('flux', ty_s, ty_r, ns, nr, tuple(lr), lap)


def flux_laplace_case(t):
    flux_case(t, -1)


def finite_flux_case(t):
    """Finite flux/current poles crossing layers: factor at each point."""
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(2, 5)), vti_mu=False)
    f0 = gen.full(m)
    f = gen.lu(rng, .1, 1e3, 1)
    d = m['depth']
    i = int(rng.integers(len(d)))
    hi = (d[i+1] - d[i])*.9 if i+1 < len(d) else 40.
    lo = (d[i] - d[i-1])*.9 if i else 40.
    z0, z1 = d[i]-min(lo, 40), d[i]+min(hi, 35)
    n = int(rng.choice([3, 4, 6]))
    g, w = np.polynomial.legendre.leggauss(n)
    src = [0., 0., gen.zpoint(rng, d), 30., 20.]
    v = np.array([40., -30, z1-z0])
    p0 = np.array([400., 300, z0])
    L = np.linalg.norm(v)
    a = np.rad2deg(np.arctan2(v[1], v[0]))
    dp = np.rad2deg(np.arcsin(v[2]/L))
    ty = str(rng.choice(['b', 'j']))
    rev = ty == 'b' and rng.random() < .5
    rec = [p0[0], p0[0]+v[0], p0[1], p0[1]+v[1], z0, z1]
    t.case(src=src, rec=rec, type=ty, n=n, reversed=rev, **m)
    k = 'recpts'
    with fine_coords():
        if rev:
            x = bip(rec, src, m, f, msrc=ty, srcpts=n)[0, 0, 0]
        else:
            x = bip(src, rec, m, f, mrec=ty, **{k: n})[0, 0, 0]
        want, sc = 0, 0
        for q, wt in zip(g, w):
            p = p0 + v*(1+q)/2
            la = gen.layer_of(d, np.round(p[2], 9))
            if ty == 'b':
                fac = 2j*np.pi*f[0]*4e-7*np.pi*f0['mpermH'][la]
            else:
                fac = 1/f0['res'][la] + (
                    2j*np.pi*f[0]*8.8541878128e-12*f0['epermH'][la])
            pt = [*np.round(p, 9), a, dp]
            if rev:
                y = bip(pt, src, m, f, msrc=True)[0, 0, 0]
            else:
                y = bip(src, pt, m, f, mrec=ty == 'b')[0, 0, 0]
            want = want + wt/2*fac*y
            sc = sc + wt/2*abs(fac*y)
    t.close(x, want, 'factor-per-point', rtol=1e-6, scale=sc,
            msg=f'{ty} {n} {rev}')
    t.count('flux')
    t.sig('finite-flux', ty, rev, n, len(d), i)


def time_flux_case(t):
    """Flux in time: step of 'b' is mu times impulse of the field."""
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 5)), vti_mu=False, perm=False)
    zs, zr = gen.zpoint(rng, m['depth']), gen.zpoint(rng, m['depth'])
    mu = gen.full(m)['mpermH'][gen.layer_of(m['depth'], zr)]*4e-7*np.pi
    tt = gen.lu(rng, 1e-3, 1, 2)
    rec = [*rng.uniform(200, 600, 2), zr, 10., 45.]
    src = [0, 0, zs, 20., 30.]
    kw = dict(ft='dlf', ftarg={'dlf': 'key_81_2009', 'pts_per_dec': 0})
    a = bip(src, rec, m, tt, signal=1, mrec='b', **kw)
    b = bip(src, rec, m, tt, signal=0, mrec=True, **kw)
    t.case(src=src, rec=rec, times=tt, **m)
    # Same frequencies and coefficients.
    t.close(a, b*mu, 'time-flux', rtol=1e-7, scale=np.abs(b).max()*mu, atol=1e-300)
    t.count('time_flux')
    t.sig('time', gen.nl_sig(m, zs, zr, 0))


def warn_case(t):
    """Anisotropic material at a flux or current pole: warned about."""
    rng = t.rng
    m = gen.model(rng, nl=3, vti_mu=True, mperm=True, aniso=True, perm=True)
    ty = str(rng.choice(['b', 'j', 'src']))
    z = gen.zpoint(rng, m['depth'], on_if=0)
    la = gen.layer_of(m['depth'], z)
    iso = rng.random() < .5
    if iso:
        m['mpermV'][la] = m['mpermH'][la]
        m['aniso'][la] = 1.
        if 'epermV' in m:
            m['epermV'][la] = m['epermH'][la]
    o = [0, 0, gen.zpoint(rng, m['depth']), 0, 0]
    p = [500, 100, z, 20, 10]
    with captured() as out:
        if ty == 'src':
            bip(p, o, m, [1., 2.], msrc='b', verb=1)
        else:
            bip(o, p, m, [1., 2.], mrec=ty, verb=1)
    t.case(type=ty, z=z, iso=iso, **m)
    t.check(('WARNING' in out.getvalue()) == (not iso), 'warning',
            f'{ty} iso={iso}: {out.getvalue()!r}')
    t.count('warn')
    t.sig('warn', ty, iso, la)


CASES = [
    ('rotated', rotated_case, 110, 3000),
    ('batch', batch_case, 60, 1500),
    ('finite', finite_case, 100, 2500),
    ('converge', converge_case, 24, 500),
    ('flux', flux_case, 150, 3000),
    ('finite_flux', finite_flux_case, 40, 1000),
    ('time_flux', time_flux_case, 20, 400),
    ('warn', warn_case, 30, 300),
    ('laplace', laplace_case, 24, 600, 'lap'),
    ('flux_laplace', flux_laplace_case, 24, 600, 'lap'),
]
