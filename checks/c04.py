"""C04: fictitious layers and continuity across interfaces."""
import numpy as np

from vlib import gen, ref
from vlib.util import (FT, bip, dip, fine_coords, nat_scale, pairs_scale,
                       rtol_for, time_scale, warmup)  # noqa: F401

RULE = ('random models; equivalent models with inserted/appended/merged '
        'layers, homogeneous stacks, receivers on both sides of an '
        'interface; distinct by layer indices of source, receiver and '
        'insertions, and components')
REQUIRED = {'splits': 400, 'homogeneous': 50, 'continuity': 100,
            'bipole_splits': 60, 'onlyone': 200}
PAR = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def insert(m, z):
    """Insert a fictitious interface at z."""
    d = m['depth']
    k = int(np.sum(np.asarray(d) < z))
    out = {'depth': sorted([*d, z])}
    for p in PAR:
        if p in m:
            v = list(m[p])
            out[p] = v[:k] + [v[k], v[k]] + v[k+1:]
    return out


def new_depth(rng, m, special):
    """Depth of a new interface (not one that exists), at times special."""
    d = m['depth']
    for _ in range(50):
        if special and rng.random() < .35:
            z = float(rng.choice(special))
        elif d and rng.random() < .4:
            z = float(rng.choice([d[0]-gen.lu(rng, .5, 300),
                                  d[-1]+gen.lu(rng, .5, 300)]))
        elif len(d) > 1:
            z = float(rng.uniform(d[0], d[-1]))
        else:
            z = float(rng.uniform(-200, 400))
        if not d or np.min(np.abs(np.asarray(d)-z)) > 1e-3:
            return z
    return None


def split_case(t):
    rng = t.rng
    for _ in range(6):
        m = gen.model(rng)
        zs = gen.zpoint(rng, m['depth'])
        zr = zs if rng.random() < .1 else gen.zpoint(rng, m['depth'])
        x, y = gen.offsets(rng, 2)
        freq = gen.lu(rng, 1e-3, 1e5, 2)
        ab = int(rng.choice(gen.ABS_NZ))
        m2, where = m, []
        for _ in range(int(rng.choice([1, 2, 3, 6]))):
            z = new_depth(rng, m2, [zs, zr])
            if z is not None:
                m2 = insert(m2, z)
                where.append(z)
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, inserted=where, **m)
        a = dip([0, 0, zs], [x, y, zr], m, freq, ab)[:, :, 0]
        b = dip([0, 0, zs], [x, y, zr], m2, freq, ab)[:, :, 0]
        sc = nat_scale(m, freq, zs, zr, ab, np.hypot(x, y))
        t.close(b, a, 'fictitious-layer', rtol=rtol_for(m), scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        t.count('splits')
        t.sig(*gen.nl_sig(m2, zs, zr, ab), len(where), zs in where,
              zr in where)


def homogeneous_case(t):
    """A stack of equal layers is a full-space; also the analytical one."""
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=1)
    m2 = m
    for _ in range(int(rng.integers(1, 6))):
        m2 = insert(m2, new_depth(rng, m2, []))
    zs, zr = (gen.zpoint(rng, m2['depth']) for _ in range(2))
    if rng.random() < .1:
        zr = zs
    x, y = gen.offsets(rng, 2)
    freq = gen.lu(rng, 1e-3, 1e4, 2)
    for ab in rng.choice(gen.ABS_NZ, 6, replace=False):
        ab = int(ab)
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, **m2)
        a = dip([0, 0, zs], [x, y, zr], m, freq, ab)[:, :, 0]
        b = dip([0, 0, zs], [x, y, zr], m2, freq, ab)[:, :, 0]
        sc = nat_scale(m, freq, zs, zr, ab, np.hypot(x, y))
        t.close(b, a, 'homogeneous-stack', rtol=1e-8, scale=sc, atol=1e-300)
        # Only the direct field: nothing is reflected.
        c = dip([0, 0, zs], [x, y, zr], m2, freq, ab, xdirect=None)[:, :, 0]
        if gen.layer_of(m2['depth'], zs) == gen.layer_of(m2['depth'], zr):
            t.close(c, 0*c, 'no-reflection', rtol=1e-8, scale=sc,
                    atol=1e-300)
            d = dip([0, 0, zs], [x, y, zr], m2, freq, ab,
                    xdirect=True)[:, :, 0]
            fs = np.asarray(empymod.analytical(
                [0, 0, zs], [x, y, zr], m['res'], freq, ab=ab, verb=0,
                squeeze=False, **{k: v for k, v in m.items()
                                  if k not in ('res', 'depth')}))[:, :, 0]
            t.close(d, fs, 'stack-vs-analytical', rtol=1e-8,
                    scale=np.abs(fs)+sc)
        t.count('homogeneous')
        t.sig('hom', *gen.nl_sig(m2, zs, zr, ab))


def onlyone_case(t):
    """A layer which differs in one parameter only is no fictitious layer:
    secondary field against the independent solution."""
    import empymod
    from vlib.util import DLF
    fl = getattr(empymod.filters.Hankel(), DLF)
    rng = t.rng
    nl = int(rng.integers(2, 5))
    par = PAR[t.index % 6]
    z = np.cumsum(gen.lu(rng, 30, 150, nl-1))
    m = {'depth': [float(v) for v in z - z[int(rng.integers(nl-1))]],
         'res': [float(gen.lu(rng, 1, 100)*(3e3 if 'eperm' in par else 1))
                 ]*nl}
    for k in PAR[1:]:
        if k == par or rng.random() < .5:
            m[k] = [float(gen.lu(rng, 1, 3))]*nl
    lay = int(rng.integers(nl))
    odd = int(np.clip(lay+rng.choice([-1, 0, 1]), 0, nl-1))
    m[par][odd] *= float(rng.choice([.25, 4.]))
    for _ in range(50):
        zs, zr = (gen.zpoint(rng, m['depth'], lay, on_if=0, span=100)
                  for _ in range(2))
        if abs(zs-zr) > 15:
            break
    else:
        return
    x, y = gen.offsets(rng, 1, 60, 200, axis=0)
    f = m['res'][0]/(np.pi*4e-7*np.pi*gen.lu(rng, 20, 200)**2)
    if 'eperm' in par:
        f = 1/(m['res'][0]*2*np.pi*8.85e-12)*gen.lu(rng, .1, .8)
    for ab in rng.choice(gen.ABS_NZ, 12, replace=False):
        ab = int(ab)
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=f, par=par, **m)
        a = dip([0, 0, zs], [x, y, zr], m, [f], ab, xdirect=None)[:, :, 0]
        b, sc = ref.dlf_field(gen.full(m), [f], zs, zr, ab, np.hypot(x, y),
                              np.arctan2(y, x), fl, 'none')
        t.close(a, b, 'one-parameter-layer', rtol=rtol_for(m), scale=sc,
                atol=1e-300, msg=f'ab={ab} {par}')
        t.count('onlyone')
    t.sig('one', par, nl, lay, odd)


def continuity_case(t):
    rng = t.rng
    for _ in range(4):
        m = gen.model(rng, nl=int(rng.integers(2, 6)), air=rng.random() < .2)
        d = m['depth']
        k = int(rng.integers(len(d)))
        zs = gen.zpoint(rng, d, on_if=0)
        x, y = gen.offsets(rng, 1)
        freq = gen.lu(rng, 1e-2, 1e5, 1)
        ab = int(rng.choice(gen.ABS_NZ))
        t.case(ab=ab, zs=zs, interface=d[k], x=x, y=y, freq=freq, **m)
        up = dip([0, 0, zs], [x, y, d[k]], m, freq, ab)[0, 0, 0]
        dn = dip([0, 0, zs], [x, y, d[k]+1e-9], m, freq, ab)[0, 0, 0]
        # An infinitesimal step up stays in the upper layer.
        up2 = dip([0, 0, zs], [x, y, d[k]-1e-9], m, freq, ab)[0, 0, 0]
        f = gen.full(m)
        eH, eV, zH, zV = (q[0] for q in ref.material(f, freq))
        off = np.hypot(x, y)
        su = nat_scale(m, freq, zs, d[k], ab, off)[0, 0]
        sd = nat_scale(m, freq, zs, d[k]+1e-9, ab, off)[0, 0]
        fu, fd = {3: (eV[k], eV[k+1]), 6: (zV[k], zV[k+1])}.get(
            ab//10, (1, 1))
        tol = rtol_for(m, 1e-7)
        t.close(up2, up, 'upper-side', rtol=tol, scale=su, atol=1e-300)
        t.close(dn*fd, up*fu, 'continuity', rtol=tol,
                scale=abs(su*fu)+abs(sd*fd), atol=1e-300, msg=f'ab={ab}')
        t.count('continuity')
        t.sig('cont', len(d), k, gen.layer_of(d, zs), ab)


def bipole_case(t):
    """Finite bipoles crossing fictitious interfaces, all source types."""
    rng = t.rng
    m = gen.model(rng, air=False)
    freq = gen.lu(rng, 1e-2, 1e3, 1)
    ends = []
    for k in range(2):
        la = int(rng.integers(len(m['res'])))
        z = [round(gen.zpoint(rng, m['depth'], la, 0), 2) for _ in range(2)]
        p = np.round(rng.uniform(-100, 100, 4), 2) + [900*k, 900*k, 0, 0]
        ends.append([*p, *z])
    ms, mr = (rng.choice([False, True, 'b']) for _ in range(2))
    ms, mr = ({'True': True, 'False': False}.get(str(q), 'b')
              for q in (ms, mr))
    m2, where = m, []
    for e in ends:
        lo, hi = sorted(e[4:])
        if hi-lo > 0.1 and rng.random() < .8:
            z = float(rng.uniform(lo, hi))
            m2 = insert(m2, z)
            where.append(z)
    z = new_depth(rng, m2, [])
    m2 = insert(m2, z)
    kw = dict(msrc=ms, mrec=mr, srcpts=int(rng.integers(1, 6)),
              recpts=int(rng.integers(1, 5)))
    t.case(src=ends[0], rec=ends[1], inserted=[*where, z], freq=freq, **kw,
           **m)
    with fine_coords():
        a = bip(*ends, m, freq, **kw).ravel()
        b = bip(*ends, m2, freq, **kw).ravel()
    c = [[(e[0]+e[1])/2, (e[2]+e[3])/2, (e[4]+e[5])/2] for e in ends]
    sc = pairs_scale(m, freq, [c[0]], [c[1]], ms, mr).ravel()
    zt = 8e-7*np.pi**2*freq*max(m.get('mpermH', [1]))
    sc = sc*zt**((ms == 'b') + (mr == 'b'))
    t.close(b, a, 'bipole-fictitious-layer', rtol=rtol_for(m, 3e-8),
            scale=np.maximum(sc, np.abs(a)))
    t.count('bipole_splits')
    t.sig('bip', len(m['res']), len(m2['res']), ms, mr, len(where),
          kw['srcpts'], kw['recpts'])


def time_case(t):
    rng = t.rng
    m = gen.model(rng, air=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 1, 100, 1000)
    off = float(np.hypot(x, y)[0])
    times = 4e-7*np.pi*off**2/np.median(m['res'])*gen.lu(rng, 0.1, 10, 2)
    sig = int(rng.choice([-1, 0, 1]))
    ab = int(rng.choice(gen.ABS_NZ))
    z = new_depth(rng, m, [zs, zr])
    m2 = insert(m, z)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, times=times, signal=sig,
           inserted=z, **m)
    a = dip([0, 0, zs], [x, y, zr], m, times, ab, signal=sig, **FT)[:, 0, 0]
    b = dip([0, 0, zs], [x, y, zr], m2, times, ab, signal=sig, **FT)[:, 0, 0]
    sc = time_scale(lambda f: nat_scale(m, f, zs, zr, ab, off), times, sig)
    t.close(b, a, 'time-fictitious-layer', rtol=1e-8, scale=sc[:, 0])
    t.count('splits')
    t.sig('time', sig, ab)


CASES = [
    ('onlyone', onlyone_case, 60, 900),
    ('split', split_case, 240, 6000),
    ('homogeneous', homogeneous_case, 60, 1000),
    ('continuity', continuity_case, 120, 3000),
    ('bipole', bipole_case, 120, 3000),
    ('time', time_case, 16, 400),
]
