"""C06: direct field: analytical, numerical, excluded."""
import numpy as np

from vlib import gen, ref
from vlib.util import (bip, dip, nat_scale, pairs_scale, rtol_for,
                       warmup)  # noqa: F401

RULE = ('random VTI full-spaces and layered models; Maxwell residuals of the '
        'analytical field by finite differences, numerical versus analytical '
        'direct field, total minus direct; distinct by component, layers, '
        'anisotropy')
REQUIRED = {'residual_points': 100, 'fs_vs_reference': 200, 'xdirect': 300,
            'none': 300}
ASSUMPTIONS = ['8th-order central differences, relative step 0.02']
FD = np.array([1/280, -4/105, 1/5, -4/5, 0, 4/5, -1/5, 4/105, -1/280])
EH = (1, 2, 3, 4, 5, 6)


def fs(m, src, x, y, z, freq, ab):
    import empymod
    return np.asarray(empymod.analytical(
        src, [x, y, z], m['res'], freq, ab=ab, verb=0, squeeze=False,
        **{k: v for k, v in m.items() if k not in ('res', 'depth')}))[:, :, 0]


def maxwell_case(t):
    """curl H = eta E, curl E = -zeta H away from the source."""
    rng = t.rng
    m = gen.model(rng, nl=1, res=(0.1, 1e4))
    f = gen.full(m)
    src = np.round(rng.uniform(-100, 100, 3), 2)
    # Point at distance r; k*r between static and several wave lengths.
    r = gen.lu(rng, 1, 1e3)
    v = rng.normal(size=3)
    if rng.random() < .2:
        v[rng.integers(3)] = 0.
    p = src + r*v/np.linalg.norm(v)
    if np.hypot(*(p-src)[:2]) < 0.15*r:
        p[0] = src[0] + 0.3*r
    # Frequency such that |k| r is in a chosen range.
    want = gen.lu(rng, 1e-3, 6)
    fr = np.logspace(-4, 9, 400)
    eH, eV, zH, zV = (q[:, 0] for q in ref.material(f, fr))
    kr = np.abs(np.sqrt(eH*zH))*r
    freq = np.array([fr[np.argmin(np.abs(np.log(kr/want)))]])
    eH, eV, zH, zV = (q[0, 0] for q in ref.material(f, freq))
    s = int(rng.integers(1, 7))
    t.case(src=src, point=p, comp=s, freq=freq, **m)
    h = 0.02*r/max(1, want/2)
    k = np.arange(-4, 5)*h
    d = {}
    val = {}
    for c in EH:
        ab = 10*c+s
        if ab in (36, 63):
            val[c] = 0j
            d[c] = np.zeros(3, complex)
            continue
        val[c] = fs(m, src, *p, freq, ab)[0, 0]
        g = []
        for ax in range(3):
            if ax < 2:
                q = [np.full(9, p[0]), np.full(9, p[1]), p[2]]
                q[ax] = p[ax]+k
                w = fs(m, src, *q, freq, ab)[0]
            else:
                w = np.array([fs(m, src, p[0], p[1], p[2]+kk, freq, ab)[0, 0]
                              for kk in k])
            g.append((FD*w).sum()/h)
        d[c] = np.array(g)
    E, H, dE, dH = ([q[c] for c in cc] for q, cc in (
        (val, (1, 2, 3)), (val, (4, 5, 6)), (d, (1, 2, 3)), (d, (4, 5, 6))))

    def curl(g):
        return np.array([g[2][1]-g[1][2], g[0][2]-g[2][0], g[1][0]-g[0][1]])

    eta, zeta = np.array([eH, eH, eV]), np.array([zH, zH, zV])
    nE = np.abs(eta*E).max() + max(np.abs(x).max() for x in dH)
    nH = np.abs(zeta*H).max() + max(np.abs(x).max() for x in dE)
    # Differences of values whose rounding error is eps*(r/rho)^2.
    t.close(curl(dH), eta*np.array(E), 'ampere', rtol=2e-6, scale=nE,
            atol=1e-300, msg=f'src {s}')
    t.close(curl(dE), -zeta*np.array(H), 'faraday', rtol=2e-6, scale=nH,
            atol=1e-300, msg=f'src {s}')
    t.count('residual_points')
    t.sig('mx', s, 'aniso' in m, 'epermV' in m, 'mpermV' in m, want > 1)


def reference_case(t):
    """Normalisation and all components against the reference."""
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=1)
    f = gen.full(m)
    zs = float(rng.uniform(-100, 100))
    dz = gen.lu(rng, 20, 300)*rng.choice([-1, 1])
    off = abs(dz)*gen.lu(rng, 0.3, 4)
    th = rng.uniform(-np.pi, np.pi)
    x, y = off*np.cos(th), off*np.sin(th)
    freq = gen.lu(rng, 1e-3, 1e2, 1)
    fl = empymod.filters.Hankel().wer_201_2018
    for ab in rng.choice(gen.ABS, 8, replace=False):
        ab = int(ab)
        t.case(ab=ab, zs=zs, zr=zs+dz, x=x, y=y, freq=freq, **m)
        a = fs(m, [0, 0, zs], x, y, zs+dz, freq, ab)
        if ab in (36, 63):
            t.check(np.all(a == 0), 'zero-combination', str(a))
            t.count('fs_vs_reference')
            continue
        r, sc = ref.dlf_field(f, freq, zs, zs+dz, ab, off, th, fl)
        t.close(a, r, 'analytical-vs-reference', rtol=2e-7, scale=np.abs(r),
                atol=1e-8*sc, msg=f'ab={ab}')
        t.count('fs_vs_reference')
        t.sig('fs', ab, 'aniso' in m, 'epermV' in m, 'mpermV' in m)


def xdirect_case(t):
    """Analytical versus wavenumber-domain direct field in layered models."""
    rng = t.rng
    for _ in range(4):
        m = gen.model(rng, air=False)
        d = m['depth']
        la = int(rng.integers(len(d)+1))
        zs = gen.zpoint(rng, d, la)
        zr = gen.zpoint(rng, d, la)
        if abs(zs-zr) < 2 or rng.random() < .25:
            zr = gen.zpoint(rng, d)
        dz = abs(zs-zr)
        if dz < 2:
            continue
        x, y = gen.offsets(rng, 2, dz*.3, dz*4)
        freq = gen.lu(rng, 1e-2, 1e2, 2)
        ab = int(rng.choice(gen.ABS_NZ))
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, **m)
        kw = dict(htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0})
        a = dip([0, 0, zs], [x, y, zr], m, freq, ab, xdirect=True, **kw)
        b = dip([0, 0, zs], [x, y, zr], m, freq, ab, xdirect=False, **kw)
        sc = nat_scale(m, freq, zs, zr, ab, np.hypot(x, y))[:, :, None]
        t.close(a, b, 'xdirect', rtol=1e-6, scale=np.abs(b), atol=1e-7*sc,
                msg=f'ab={ab}')
        t.count('xdirect')
        t.sig('xd', *gen.nl_sig(m, zs, zr, ab))


def none_case(t):
    """Excluded = total - direct in the same layer; total otherwise."""
    rng = t.rng
    for _ in range(6):
        m = gen.model(rng, nl=int(rng.choice([1, 2, 3, 4, 5])))
        d = m['depth']
        zs = gen.zpoint(rng, d)
        same = rng.random() < .6
        zr = gen.zpoint(rng, d, gen.layer_of(d, zs) if same else None)
        x, y = gen.offsets(rng, 2)
        freq = gen.lu(rng, 1e-2, 1e5, 2)
        ab = int(rng.choice(gen.ABS_NZ))
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, **m)
        o = ([0, 0, zs], [x, y, zr], m, freq, ab)
        tot, num, sec = (dip(*o, xdirect=q)[:, :, 0]
                         for q in (True, False, None))
        la, lr = gen.layer_of(d, zs), gen.layer_of(d, zr)
        sc = nat_scale(m, freq, zs, zr, ab, np.hypot(x, y))
        if la == lr:
            one = {k: ([v[la]] if k != 'depth' else []) for k, v in m.items()}
            dire = fs(one, [0, 0, zs], x, y, zr, freq, ab)
            t.close(sec, tot-dire, 'excluded-direct', rtol=rtol_for(m),
                    scale=np.abs(tot)+np.abs(dire)+sc, atol=1e-300,
                    msg=f'ab={ab}')
            # Same with the wavenumber-domain direct field of a full-space.
            full = dip([0, 0, zs], [x, y, zr], one, freq, ab)[:, :, 0]
            t.close(sec, num-full, 'excluded-direct-k', rtol=rtol_for(m),
                    scale=sc, atol=1e-300, msg=f'ab={ab}')
        else:
            for q, n in ((tot, 'True'), (num, 'False')):
                t.close(sec, q, 'excluded-other-layer', rtol=rtol_for(m),
                        scale=sc, atol=1e-300, msg=n)
        t.count('none')
        t.sig('none', *gen.nl_sig(m, zs, zr, ab))
    # bipole, rotated, same relation.
    ms, mr = (bool(rng.random() < .5) for _ in range(2))
    az, dp = rng.uniform(-180, 180, 2), rng.uniform(-90, 90, 2)
    s, r = [0, 0, zs, az[0], dp[0]], [x[0], y[0], zr, az[1], dp[1]]
    kw = dict(msrc=ms, mrec=mr)
    t.case(src=s, rec=r, freq=freq, kw=kw, **m)
    tot, num, sec = (bip(s, r, m, freq, xdirect=q, **kw)
                     for q in (True, False, None))
    if la == lr:
        dire = bip(s, r, one, freq, xdirect=True, **kw)
        full = bip(s, r, one, freq, xdirect=False, **kw)
        t.close(sec, tot-dire, 'excluded-direct-bipole', rtol=rtol_for(m),
                scale=np.abs(tot)+np.abs(dire))
        nsc = pairs_scale(m, freq, [[0, 0, zs]], [[x[0], y[0], zr]], ms, mr)
        t.close(sec, num-full, 'excluded-direct-bipole', rtol=rtol_for(m),
                scale=nsc.reshape(sec.shape)+np.abs(num)+np.abs(full))
    else:
        t.close(sec, tot, 'excluded-other-layer', rtol=rtol_for(m),
                scale=np.abs(tot))
        t.close(sec, num, 'excluded-other-layer', rtol=rtol_for(m),
                scale=np.abs(tot))
    t.count('none')


def axis_case(t):
    """Straight above/below the source the analytical field stays finite and
    equals its smooth continuation: the mean over opposite offsets differs
    from it to second order only, single values to first order."""
    rng = t.rng
    m = gen.model(rng, nl=1)
    f = gen.full(m)
    src = [0., 0., 0.]
    z = gen.lu(rng, 30, 300)*rng.choice([-1, 1])
    freq = gen.lu(rng, 1e-2, 1e3, 1)
    mats = ref.material(f, freq)
    th = rng.uniform(-np.pi, np.pi)
    e = 0.03
    ani = max(f['aniso'][0], 1/f['aniso'][0], 1)*5
    k = np.sqrt(max(abs(q[0, 0]) for q in mats[:2]) *
                max(abs(q[0, 0]) for q in mats[2:]))
    step = e*ani*(1/abs(z)+k)
    x, y = e*np.cos(th), e*np.sin(th)
    a, b, c = {}, {}, {}
    for ab in gen.ABS_NZ:
        a[ab] = fs(m, src, 0., 0., z, freq, ab)[0, 0]
        b[ab] = fs(m, src, x, y, z, freq, ab)[0, 0]
        c[ab] = fs(m, src, -x, -y, z, freq, ab)[0, 0]
    for br in (0, 30):
        for bs in (0, 3):
            keys = [q for q in gen.ABS_NZ
                    if (q//10 > 3) == (br > 0) and (q % 10 > 3) == (bs > 0)]
            sc = max(abs(b[q]) for q in keys)
            for q in keys:
                t.case(ab=q, z=z, freq=freq, **m)
                t.close(a[q], b[q], 'axis-continuation', rtol=10*step,
                        scale=sc, msg=f'ab={q}')
    t.count('axis')
    t.sig('axis', 'aniso' in m, 'mpermV' in m, 'epermV' in m)


CASES = [
    ('maxwell', maxwell_case, 240, 6000),
    ('reference', reference_case, 80, 2000),
    ('xdirect', xdirect_case, 200, 5000),
    ('none', none_case, 160, 4000),
    ('axis', axis_case, 24, 600),
]
