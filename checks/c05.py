"""C05: depth conventions: order, infinite bounds, axis direction."""
import numpy as np

from vlib import gen
from vlib.util import (FT, bip, dip, fine_coords, nat_scale, pairs_scale,
                       rtol_for, warmup)  # noqa: F401

RULE = ('random models written in equivalent ways; distinct by number of '
        'layers, way of writing, entry point, components')
REQUIRED = {'forms': 400, 'axis_flips': 150, 'on_interface': 100,
            'hook_forms': 20}
PAR = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')
FORMS = ['inc', '-inf', '+inf', 'both', 'dec', 'dec+', 'dec-', 'decboth',
         'scalar', 'array', 'int']


def write(m, form, rng):
    """The same model, written differently; None if not applicable."""
    d = list(m['depth'])
    if form in ('inc', '-inf', '+inf', 'both', 'scalar', 'array', 'int'):
        if form in ('-inf', 'both'):
            d = [-np.inf, *d]
        if form in ('+inf', 'both'):
            d = [*d, np.inf]
        out = {**m, 'depth': d}
        if form == 'scalar':
            if len(d) != 1:
                return None
            out['depth'] = d[0]
        if form == 'array':
            out = {k: np.array(v) for k, v in out.items()}
        if form == 'int':
            if any(x != int(x) for x in d):
                return None
            out['depth'] = tuple(int(x) for x in d)
        return out
    if form in ('dec', 'dec-') and not d:
        return None
    if form == 'dec' and len(d) < 2:
        return None  # direction cannot be recognised
    d = d[::-1]
    if form in ('dec+', 'decboth'):
        d = [np.inf, *d]
    if form in ('dec-', 'decboth'):
        d = [*d, -np.inf]
    if len(d) < 2:
        return None
    return {**{k: v[::-1] for k, v in m.items()}, 'depth': d}


def mirror(m, rng):
    """The same model with z up."""
    d = [-x for x in m['depth']]
    if len(d) == 1:
        d = d + [-np.inf]
    elif rng.random() < .3 and d:
        d = d + [-np.inf]
    if rng.random() < .3 and d:
        d = [np.inf] + d
    return {**m, 'depth': d}


def flip_sign(ab):
    s = 1
    for c in (ab//10, ab % 10):
        s *= {3: -1, 4: -1, 5: -1}.get(c, 1)
    return s


def form_case(t):
    import empymod
    rng = t.rng
    m = gen.model(rng)
    if rng.random() < .3:
        m['depth'] = [float(np.round(x)) for x in m['depth']]
        if len(set(m['depth'])) < len(m['depth']):
            return
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 2)
    freq = gen.lu(rng, 1e-2, 1e4, 2)
    ab = int(rng.choice(gen.ABS_NZ))
    off = np.hypot(x, y)
    xd = rng.choice([True, False, None])
    ref = dip([0, 0, zs], [x, y, zr], m, freq, ab, xdirect=xd)
    sc = nat_scale(m, freq, zs, zr, ab, off)[:, :, None]
    kk = dict(ab=ab, verb=0)
    lam = gen.lu(rng, 1e-4, 1e-1, 4)
    refk = empymod.dipole_k([0, 0, zs], [x[0], y[0], zr], freq=freq,
                            wavenumber=lam, **kk, **m)
    az, dp = rng.uniform(-180, 180, 2), rng.uniform(-90, 90, 2)
    ms, mr = (bool(rng.random() < .5) for _ in range(2))
    bs = [0, 0, zs, az[0], dp[0]]
    br = [x[0], y[0], zr, az[1], dp[1]]
    refb = bip(bs, br, m, freq, msrc=ms, mrec=mr)
    for form in FORMS:
        w = write(m, form, rng)
        if w is None:
            continue
        t.case(form=form, ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, model=w,
               xdirect=xd)
        got = dip([0, 0, zs], [x, y, zr], w, freq, ab, xdirect=xd)
        t.close(got, ref, 'depth-form', rtol=rtol_for(m), scale=sc,
                atol=1e-300, msg=form)
        got = empymod.dipole_k([0, 0, zs], [x[0], y[0], zr], freq=freq,
                               wavenumber=lam, **kk, **w)
        for g, r in zip(got, refk):
            t.close(g, r, 'depth-form-k', rtol=rtol_for(m, 1e-9),
                    scale=np.abs(refk[0])+np.abs(refk[1]), msg=form)
        got = bip(bs, br, w, freq, msrc=ms, mrec=mr)
        t.close(got, refb, 'depth-form-bipole', rtol=rtol_for(m, 1e-10),
                scale=np.abs(refb), msg=form)
        t.count('forms')
        t.sig(form, len(m['res']), ab, xd, 'aniso' in m, 'epermH' in m,
              'mpermV' in m)


def flip_case(t):
    """z down versus z up (documented table of signs)."""
    rng = t.rng
    for _ in range(4):
        m = gen.model(rng)
        zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
        if m['depth'] and rng.random() < .3:   # Very close to an interface
            zs = rng.choice(m['depth'])+gen.lu(rng, 1e-6, 1e-2)*rng.choice(
                [-1, 1])
        x, y = gen.offsets(rng, 2)
        freq = gen.lu(rng, 1e-2, 1e4, 1)
        ab = int(rng.choice(gen.ABS))
        u = mirror(m, rng)
        if not m['depth']:
            u = m
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, model=m, up=u)
        a = dip([0, 0, zs], [x, y, zr], m, freq, ab)
        b = dip([0, 0, -zs], [x, y, -zr], u, freq, ab)
        sc = nat_scale(m, freq, zs, zr, ab, np.hypot(x, y))[:, :, None]
        t.close(b, flip_sign(ab)*a, 'axis-flip', rtol=rtol_for(m), scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        # Rotated / finite bipoles.
        ms, mr = (bool(rng.random() < .5) for _ in range(2))
        az, dp = rng.uniform(-180, 180, 2), rng.uniform(-90, 90, 2)
        mb = m
        src = [0, 0, zs, az[0], dp[0]]
        srcu = [0, 0, -zs, az[0], -dp[0]]
        fin = rng.random() < .5
        if fin:
            la = gen.layer_of(m['depth'], zr)
            z1 = round(gen.zpoint(rng, m['depth'], la, 0), 3)
            z0 = round(zr, 3)
            rec = [x[0], x[0]+20, y[0], y[0]-30, z0, z1]
            recu = [x[0], x[0]+20, y[0], y[0]-30, -z0, -z1]
        else:
            rec = [x[0], y[0], zr, az[1], dp[1]]
            recu = [x[0], y[0], -zr, az[1], -dp[1]]
        kw = dict(msrc=ms, mrec=mr, recpts=3)
        t.case(src=src, rec=rec, freq=freq, kw=kw, model=mb, up=u)
        with fine_coords():
            a = bip(src, rec, mb, freq, **kw)
            b = bip(srcu, recu, u, freq, **kw)
        sc = pairs_scale(m, freq, [[0, 0, zs]],
                         [[rec[0], rec[2] if fin else rec[1], zr]], ms, mr)
        t.close(b, (-1)**(ms+mr)*a, 'axis-flip-bipole',
                rtol=rtol_for(m, 3e-8), scale=np.maximum(sc, abs(a)))
        t.count('axis_flips')
        t.sig('flip', len(m['res']), ab, ms, mr, fin, len(u['depth']))


def interface_case(t):
    """On an interface = in the layer on the smaller-z side."""
    rng = t.rng
    for _ in range(4):
        m = gen.model(rng, nl=int(rng.integers(2, 6)), air=rng.random() < .2)
        up = rng.random() < .4
        d = m['depth']
        k, k2 = (int(q) for q in rng.integers(len(d), size=2))
        both = rng.random() < .3 and k != k2
        z1 = d[k]
        z2 = d[k2] if both else gen.zpoint(rng, d, on_if=0)
        x, y = gen.offsets(rng, 1)
        freq = gen.lu(rng, 1e-2, 1e4, 1)
        ab = int(rng.choice(gen.ABS_NZ))
        if up:
            w, z1, z2 = {**m, 'depth': [-q for q in d]}, -z1, -z2
            if len(d) == 1:
                w['depth'] = [w['depth'][0], -np.inf]
        else:
            w = m
        e = 1e-9
        t.case(ab=ab, on=z1, other=z2, up=up, x=x, y=y, freq=freq, model=w)
        o = [x, y]
        sc = nat_scale(m, freq, d[k]+(e if up else 0), -z2 if up else z2, ab,
                       np.hypot(x, y))[:, :, None]
        sc = sc+nat_scale(m, freq, -z2 if up else z2, d[k]+(e if up else 0),
                          ab, np.hypot(x, y))[:, :, None]
        a = dip([0, 0, z1], [*o, z2], w, freq, ab)
        b = dip([0, 0, z1-e], [*o, z2], w, freq, ab)
        t.close(b, a, 'source-on-interface', rtol=rtol_for(m, 1e-7),
                scale=sc, atol=1e-300, msg=f'ab={ab}')
        a = dip([0, 0, z2], [*o, z1], w, freq, ab)
        b = dip([0, 0, z2], [*o, z1-e], w, freq, ab)
        t.close(b, a, 'receiver-on-interface', rtol=rtol_for(m, 1e-7),
                scale=sc, atol=1e-300, msg=f'ab={ab}')
        t.count('on_interface')
        t.sig('on', len(d), k, up, ab, both)


def hook_case(t):
    """User hooks get the re-ordered model: Cole-Cole in either order."""
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(2, 5)), air=False)
    zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
    x, y = gen.offsets(rng, 1)
    n = len(m['res'])
    tau, c, mm = (rng.uniform(.1, .9, n) for _ in range(3))

    def func(inp, p):
        iw = np.outer(2j*np.pi*p['freq'], inp['tau'])**inp['c']
        rho = inp['res']*(1-inp['m']*(1-1/(1+iw)))
        return 1/rho + 1j*p['etaH'].imag, 1/rho + 1j*p['etaV'].imag

    freq = gen.lu(rng, 1e-1, 1e2, 2)
    ab = int(rng.choice(gen.ABS_NZ))
    res = {'res': np.array(m['res']), 'tau': tau, 'c': c, 'm': mm,
           'func_eta': func}
    ref = dip([0, 0, zs], [x, y, zr], {**m, 'res': res}, freq, ab)
    ts = rng.random() < .3
    if ts:
        times = np.array([.1, .5])
        reft = dip([0, 0, zs], [x, y, zr], {**m, 'res': res}, times, ab,
                   signal=0, **FT)
    for form in ('-inf', '+inf', 'both', 'dec', 'dec+', 'dec-', 'decboth'):
        w = write(m, form, rng)
        if w is None:
            continue
        r = res
        if form.startswith('dec'):
            r = {k: v if k == 'func_eta' else v[::-1] for k, v in res.items()}
        t.case(form=form, ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, model=w,
               tau=tau, c=c, m=mm)
        got = dip([0, 0, zs], [x, y, zr], {**w, 'res': r}, freq, ab)
        t.close(got, ref, 'hook-form', rtol=1e-9, scale=np.abs(ref),
                msg=form)
        if ts:
            got = dip([0, 0, zs], [x, y, zr], {**w, 'res': r}, times, ab,
                      signal=0, **FT)
            t.close(got, reft, 'hook-form', rtol=1e-9, scale=np.abs(reft),
                    msg=form)
        t.count('hook_forms')
        t.sig('hook', form, n, ab)


CASES = [
    ('form', form_case, 120, 3000),
    ('flip', flip_case, 120, 3000),
    ('interface', interface_case, 100, 3000),
    ('hook', hook_case, 40, 1000),
]
