"""C10: batches equal the individually computed results."""
import numpy as np

from vlib import gen
from vlib.util import bip, dip, warmup, FT, pairs_scale  # noqa: F401

RULE = ('random numbers, depths (equal, different), forms (dipole, finite, '
        'broadcast) of sources and receivers, frequencies or times, loop and '
        'squeeze settings; each entry against its single call; distinct by '
        'arrangement')
REQUIRED = {'bipole': 100, 'dipole': 60, 'analytical': 30, 'entries': 1500,
            'loops': 60, 'case1': 15, 'case2': 10, 'case3': 10, 'case4': 10,
            'one_depth_batches': 10}
ASSUMPTIONS = ['standard digital filters (interpolated ones depend on the '
               'range of offsets by design; for those order and duplicates '
               'are varied)']


def points(rng, d, n, finite, same_z, spread=1500):
    """n sources or receivers: coordinates in input form."""
    x, y = rng.uniform(-spread, spread, (2, n))
    if same_z:
        z = np.full(n, gen.zpoint(rng, d))
    else:
        lay = int(rng.integers(len(d)+1)) if rng.random() < .3 else None
        z = np.array([gen.zpoint(rng, d, lay) for _ in range(n)])
        if n > 2 and rng.random() < .4:
            z[-1] = z[0]     # Some equal, some not
    if finite:
        dx, dy = rng.uniform(-60, 60, (2, n))
        dz = np.zeros(n) if rng.random() < .4 else rng.uniform(-15, 15, n)
        if same_z:
            dz[:] = dz[0]
        how = str(rng.choice(['any', 'x', 'y', 'z', 'all-x']))
        if how == 'x':
            dy[0], dz[0] = 0, dz[0]
        elif how == 'z' and not same_z:
            dx[:], dy[:], dz[:] = 0, 0, 20
        elif how == 'all-x':
            dy[:], dz[:] = 0, 0
        elif how == 'y':
            dx[0] = 0
        out = [x, x+dx, y, y+dy, z, z+dz]
    else:
        azm = rng.uniform(-180, 360, n)
        dp = rng.uniform(-90, 90, n)
        how = str(rng.choice(['any', 'hor', 'ver', 'axis', 'mixed']))
        if how == 'hor':
            dp[:] = 0
        elif how == 'ver':
            dp[:] = 90
        elif how == 'axis':
            azm[:], dp[:] = rng.choice([0, 90, 180]), 0
        elif how == 'mixed':
            azm[0], dp[0] = 0, 0
            dp[-1] = 90
        out = [x, y, z, azm, dp]
    # Broadcast: some coordinate the same for all.
    for i in range(len(out)):
        if n > 1 and rng.random() < .25 and (
                i not in (4, 5) if finite else i != 2):
            if finite:
                # Both ends of x or y
                j = i - i % 2
                out[j], out[j+1] = out[j][:1], out[j+1][:1]
                if out[j][0] == out[j+1][0]:
                    out[j+1] = out[j+1] + 5.
            else:
                out[i] = out[i][:1]
    if same_z:
        for i in ((4, 5) if finite else (2,)):
            if rng.random() < .6:
                out[i] = out[i][:1]
    if all(c.size == 1 for c in out):
        out[0] = np.full(n, out[0][0])
        if finite:
            out[1] = out[0] + 5.
    full = [np.broadcast_to(c, n) for c in out]
    # As given: scalars, lists, arrays
    given = [(float(c[0]) if rng.random() < .5 else list(c)) if c.size == 1
             else (list(map(float, c)) if rng.random() < .5 else c)
             for c in (np.asarray(q) for q in out)]
    return given, full, how


def one(full, i):
    return [float(c[i]) for c in full]


def centre(full, i):
    c = one(full, i)
    if len(c) == 5:
        return c[:3]
    return [(c[0]+c[1])/2, (c[2]+c[3])/2, (c[4]+c[5])/2]


def bipole_case(t):
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 6)))
    ns, nr = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    szs, szr = rng.random() < .5, rng.random() < .5
    fs, fr = rng.random() < .4, rng.random() < .4
    src, sfull, sh = points(rng, m['depth'], ns, fs, szs)
    rec, rfull, rh = points(rng, m['depth'], nr, fr, szr)
    kw = {'msrc': bool(rng.random() < .4), 'mrec': bool(rng.random() < .4)}
    loopsrc = 'mpermV' not in m and rng.random() < .15
    if loopsrc:
        kw['msrc' if rng.random() < .5 else 'mrec'] = 'b'
    elif kw['mrec'] is False and rng.random() < .1:
        kw['mrec'] = 'j'
    if fs:
        kw['srcpts'] = int(rng.choice([1, 3, 4]))
    if fr:
        kw['recpts'] = int(rng.choice([1, 3, 5]))
    if rng.random() < .3:
        kw['strength'] = float(gen.lu(rng, .1, 100))
    kw['xdirect'] = [False, True, None][int(rng.choice([0, 0, 1, 2]))]
    nf = int(rng.integers(1, 4))
    time = t.index % 6 == 0
    if time:
        nf = min(nf, 2)
    if time:
        # Without anything static or high-frequency.
        ft = gen.lu(rng, .01, 10, nf)
        for k in ('srcpts', 'recpts'):
            if kw.get(k, 1) > 3 or 'srcpts' in kw:
                kw.pop(k, None)
        kw.update(FT, signal=int(rng.choice([0, 1])))
        kw['ftarg'] = {'dlf': 'key_81_2009', 'pts_per_dec': 0}
        kw['xdirect'] = False
    else:
        ft = gen.lu(rng, .01, 100, nf)
    if rng.random() < .2 and nf > 1:
        ft[-1] = ft[0]
    kw['loop'] = [None, 'freq', 'off'][int(rng.integers(3))]
    t.case(src=src, rec=rec, freqtime=ft, **m, **kw)
    out = bip(src, rec, m, ft, **kw)
    t.check(out.shape == (nf, nr, ns), 'shape', out.shape)
    case = 1 + (nr != 1 and szr and nr > 1)*2 + (szs and ns > 1)
    t.count(f'case{case}')
    t.count('one_depth_batches', szr and szs and nr > 1 and ns > 1)

    single = np.empty_like(out)
    kw2 = {**kw, 'loop': None}
    for s in range(ns):
        for r in range(nr):
            single[:, r, s] = bip(one(sfull, s), one(rfull, r), m, ft,
                                  **kw2)[:, 0, 0]
            t.count('entries')
    if time:
        # All terms are of the size of the largest response, ...
        # as elements with factors of rounding errors can be included.
        scale = np.abs(single) + 1e2*np.abs(single).max(
            axis=(1, 2), keepdims=True)
        rtol = 1e-9
    else:
        ms = bool(kw['msrc'])
        mr = bool(kw['mrec']) and kw['mrec'] != 'j'
        scale = pairs_scale(m, ft, [centre(sfull, i) for i in range(ns)],
                            [centre(rfull, i) for i in range(nr)], ms, mr)
        f = 1.
        if kw.get('strength'):
            f = kw['strength']*100*100
        if 'b' in (kw['msrc'], kw['mrec']):
            f = f*(2*np.pi*ft*4e-7*np.pi*5)[:, None, None]
        if kw['mrec'] == 'j':
            f = f/min(m['res'])
        scale = scale*f + np.abs(single)
        rtol = 1e-9
    t.close(out, single, f'batch-{case}', rtol=rtol, scale=scale,
            atol=1e-300, msg=f'{ns}x{nr} {kw}')
    # Frequency by frequency.
    if nf > 1:
        j = int(rng.integers(nf))
        v = bip(src, rec, m, [ft[j]], **kw)
        t.close(v[0], single[j], 'frequency', rtol=rtol, scale=scale[j],
                atol=1e-300, msg=f'{kw}')
    # Squeezed.
    v = bip(src, rec, m, ft, **{**kw, 'squeeze': True})
    t.check(np.array_equal(v, np.squeeze(out)), 'squeeze', v.shape)
    t.count('bipole')
    t.sig('bipole', ns, nr, szs, szr, fs, fr, time, sh, rh, kw['loop'])


def dipole_case(t):
    """dipole: batches, order, duplicates, loops, transforms."""
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 6)))
    ns, nr, nf = (int(rng.integers(1, 6)) for _ in range(3))
    xs, ys = rng.uniform(-800, 800, (2, ns))
    xr, yr = rng.uniform(-2500, 2500, (2, nr))
    if nr > 2 and rng.random() < .3:
        xr[-1], yr[-1] = xr[0], yr[0]
    zs, zr = gen.zpoint(rng, m['depth']), gen.zpoint(rng, m['depth'])
    if rng.random() < .2:
        zr = zs
    ab = gen.ABS_NZ[t.index % len(gen.ABS_NZ)]
    xd = [False, True, None][int(rng.choice([0, 0, 1, 2]))]
    how = ['freq', 'freq', 'time', 'lagged'][t.index % 4]
    kw = {'xdirect': xd}
    ft = gen.lu(rng, .01, 100, nf)
    if how == 'time':
        kw.update(signal=int(rng.choice([-1, 0, 1])), xdirect=False, ft='dlf',
                  ftarg={'dlf': 'key_81_2009', 'pts_per_dec': 0})
    if how == 'lagged':
        kw['htarg'] = {'pts_per_dec': float(rng.choice([-1, 40]))}
    src, rec = [xs, ys, zs], [xr, yr, zr]
    t.case(src=src, rec=rec, freqtime=ft, ab=ab, how=how, **m, **kw)
    out = dip(src, rec, m, ft, ab, **kw)
    t.check(out.shape == (nf, nr, ns), 'shape', out.shape)
    off = np.hypot(xr[:, None]-xs, yr[:, None]-ys)
    if how == 'time':
        scale = np.abs(out) + 1e-3*np.abs(out).max(axis=(1, 2), keepdims=True)
    else:
        from vlib.util import nat_scale
        scale = nat_scale(m, ft, zs, zr, ab, off.ravel()).reshape(
            nf, nr, ns) + np.abs(out)
    tol = {'freq': 1e-11, 'time': 1e-7, 'lagged': 1e-10}[how]
    if how != 'lagged':
        for s in range(ns):
            for r in range(nr):
                v = dip([xs[s], ys[s], zs], [xr[r], yr[r], zr], m, ft, ab,
                        **kw)[:, 0, 0]
                t.close(out[:, r, s], v, f'batch-{how}', rtol=tol,
                        scale=scale[:, r, s], atol=1e-300,
                        msg=f'rec {r} src {s} {kw}')
                t.count('entries')
        j = int(rng.integers(nf))
        v = dip(src, rec, m, ft[j], ab, **kw)
        t.close(v[0], out[j], f'one-{how}', rtol=tol, scale=scale[j],
                atol=1e-300, msg=f'{kw}')
    # Order and duplicates.
    ps, pr, pf = (rng.permutation(n) for n in (ns, nr, nf))
    pr = np.r_[pr, pr[:1]]
    v = dip([xs[ps], ys[ps], zs], [xr[pr], yr[pr], zr], m, ft[pf], ab, **kw)
    t.close(v, out[np.ix_(pf, pr, ps)], f'order-{how}', rtol=tol,
            scale=scale[np.ix_(pf, pr, ps)], atol=1e-300, msg=f'{kw}')
    # Looping.
    for lp in ('freq', 'off'):
        v = dip(src, rec, m, ft, ab, loop=lp, **kw)
        t.close(v, out, f'loop-{how}', rtol=tol, scale=scale, atol=1e-300,
                msg=f'loop {lp} {kw}')
        t.count('loops')
    v = dip(src, rec, m, ft, ab, squeeze=True, **kw)
    t.check(np.array_equal(v, np.squeeze(out)), 'squeeze', v.shape)
    t.count('dipole')
    t.sig('dipole', ns, nr, nf, how, ab)


def analytical_case(t):
    import empymod
    rng = t.rng
    ns, nr, nf = (int(rng.integers(1, 5)) for _ in range(3))
    sol = str(rng.choice(['fs', 'dfs', 'dhs', 'dsplit', 'dtetm']))
    ab = int(rng.choice(gen.ABS_NZ if sol == 'fs' else gen.EE))
    signal = None
    if sol != 'fs' and rng.random() < .5:
        signal = int(rng.choice([-1, 0, 1]))
    xs, ys = rng.uniform(-300, 300, (2, ns))
    xr, yr = rng.uniform(-1500, 1500, (2, nr))
    zs, zr = float(gen.lu(rng, 1, 200)), float(gen.lu(rng, 1, 200))
    res = float(gen.lu(rng, .3, 100))
    aniso = float(gen.lu(rng, .5, 2))
    ft = gen.lu(rng, .05, 20, nf)
    kw = dict(solution=sol, signal=signal, ab=ab, aniso=aniso, verb=0)
    t.case(src=(xs, ys, zs), rec=(xr, yr, zr), res=res, freqtime=ft, **kw)

    def call(s, r, f, **k):
        o = empymod.analytical(s, r, res, f, **{**kw, 'squeeze': False, **k})
        # Three or five arrays in the case of the split solutions.
        return [np.asarray(q) for q in (o if sol[1:] in ('split', 'tetm')
                                        else [o])]

    out = call([xs, ys, zs], [xr, yr, zr], ft)
    for k, o in enumerate(out):
        t.check(o.shape == (nf, nr, ns), 'shape-analytical', o.shape)
        sc = np.max([np.abs(q) for q in out], axis=0)
        sc = np.maximum(sc, sc.max(axis=(1, 2), keepdims=True)*1e-8)
        for s in range(ns):
            for r in range(nr):
                v = call([xs[s], ys[s], zs], [xr[r], yr[r], zr], ft)[k]
                t.close(o[:, r, s], v[:, 0, 0], f'batch-{sol}', rtol=1e-9,
                        scale=sc[:, r, s], atol=1e-300, msg=f'{r},{s} {kw}')
                t.count('entries')
        j = int(rng.integers(nf))
        v = call([xs, ys, zs], [xr, yr, zr], ft[j])[k]
        t.close(v[0], o[j], f'one-{sol}', rtol=1e-9, scale=sc[j],
                atol=1e-300, msg=f'{kw}')
        v = call([xs, ys, zs], [xr, yr, zr], ft, squeeze=True)[k]
        t.check(np.array_equal(v, np.squeeze(o)), 'squeeze-analytical',
                v.shape)
    t.count('analytical')
    t.sig('analytical', sol, signal, ns, nr, nf, ab)


def deprecated_loop_case(t):
    """The deprecated routine is bipole with a loop source."""
    import warnings
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)), vti_mu=False)
    ns, nr = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    src, _, sh = points(rng, m['depth'], ns, False, False)
    fr = rng.random() < .3
    rec, _, rh = points(rng, m['depth'], nr, fr, False)
    f = gen.lu(rng, .1, 100, 2)
    kw = {'mrec': [True, False, 'b'][int(rng.integers(3))]}
    if fr:
        kw['recpts'] = int(rng.choice([1, 3]))
    if rng.random() < .5:
        kw['strength'] = float(gen.lu(rng, .1, 10))
    t.case(src=src, rec=rec, f=f, **m, **kw)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        a = np.asarray(empymod.loop(src, rec, freqtime=f, verb=0,
                                    squeeze=False, **m, **kw))
    t.check(any(issubclass(x.category, DeprecationWarning) for x in w),
            'deprecated', 'no warning')
    b = np.asarray(empymod.bipole(src, rec, freqtime=f, verb=0, msrc='b',
                                  squeeze=False, **m, **kw))
    t.close(a, b, 'loop-routine', rtol=1e-12, msg=f'{kw}')
    t.count('loop_routine')
    t.sig('loop', ns, nr, str(kw))


CASES = [
    ('bipole', bipole_case, 180, 4000),
    ('dipole', dipole_case, 136, 3000),
    ('analytical', analytical_case, 80, 2000),
    ('loop', deprecated_loop_case, 20, 200),
]
