"""C02: reciprocity; exchange source and receiver."""
import numpy as np

from vlib import gen
from vlib.util import (FT, bip, dip, nat_scale, rtol_for, time_scale,
                       warmup)  # noqa: F401

RULE = ('random models; each pair of calls has source and receiver exchanged; '
        'distinct by layers, component pair, domain, bipole kind')
REQUIRED = {'dipole_pairs': 300, 'bipole_pairs': 100, 'time_pairs': 20}


def swap(ab):
    return ab % 10*10 + ab//10


def sign(ab):
    return 1 if (ab//10 > 3) == (ab % 10 > 3) else -1


def dipole_case(t):
    rng = t.rng
    for _ in range(8):
        m = gen.model(rng)
        zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
        p, q = np.round(rng.uniform(-1500, 1500, (2, 2)), 2)
        if rng.random() < .5:
            q = p + np.ravel(gen.offsets(rng, axis=.3))
        freq = gen.lu(rng, 1e-3, 1e5, 2)
        ab = int(rng.choice(gen.ABS))
        xd = bool(rng.random() < .3)
        t.case(ab=ab, zs=zs, zr=zr, p=p, q=q, freq=freq, xdirect=xd, **m)
        a = dip([*p, zs], [*q, zr], m, freq, ab, xdirect=xd)
        b = dip([*q, zr], [*p, zs], m, freq, swap(ab), xdirect=xd)
        sc = nat_scale(m, freq, zs, zr, ab, np.hypot(*(p-q)))
        t.close(a[:, 0, 0], sign(ab)*b[:, 0, 0], 'dipole-reciprocity',
                rtol=rtol_for(m, 1e-10), scale=sc[:, 0], atol=1e-300, msg=f'ab={ab}')
        t.count('dipole_pairs')
        t.sig(*gen.nl_sig(m, zs, zr, ab, xd))


def pole(rng, m, layer=None):
    """Random bipole within one layer; [x0, x1, y0, y1, z0, z1]."""
    d = m['depth']
    if layer is None:
        layer = int(rng.integers(len(d)+1))
    z0 = gen.zpoint(rng, d, layer, on_if=0)
    z1 = gen.zpoint(rng, d, layer, on_if=0)
    if rng.random() < .3:
        z1 = z0
    return z0, z1


def bipole_case(t):
    """Rotated dipoles and finite bipoles, mixed electric and magnetic."""
    rng = t.rng
    for _ in range(3):
        m = gen.model(rng, air=False)
        freq = gen.lu(rng, 1e-2, 1e4, 1)
        ends = []
        for k in range(2):
            c = np.round(rng.uniform(-200, 200, 2), 2) + [k*1000., 0]
            z0, z1 = pole(rng, m)
            if rng.random() < .5:
                az, dp = rng.uniform(-180, 180), rng.uniform(-90, 90)
                if rng.random() < .3:
                    az = rng.choice([0, 90, 180, -90, 45])
                if rng.random() < .3:
                    dp = rng.choice([0, 90, -90])
                ends.append([*c, z0, float(az), float(dp)])
            else:
                d = np.round(rng.uniform(-100, 100, 2), 2)
                ends.append([c[0], c[0]+d[0], c[1], c[1]+d[1],
                             round(z0, 3), round(z1, 3)])
        ms, mr = (bool(rng.random() < .5) for _ in range(2))
        ns, nr = (int(rng.choice([1, 3, 5])) for _ in range(2))
        st = float(rng.choice([0, 1, 7.5]))
        t.case(src=ends[0], rec=ends[1], msrc=ms, mrec=mr, srcpts=ns,
               recpts=nr, strength=st, freq=freq, **m)
        a = bip(ends[0], ends[1], m, freq, msrc=ms, mrec=mr, srcpts=ns,
                recpts=nr, strength=st).ravel()
        b = bip(ends[1], ends[0], m, freq, msrc=mr, mrec=ms, srcpts=nr,
                recpts=ns, strength=st).ravel()
        sg = 1 if ms == mr else -1
        # Scale: all components at the centres.
        cz = [e[2] if len(e) == 5 else (e[4]+e[5])/2 for e in ends]
        off = 1000.
        sc = sum(nat_scale(m, freq, cz[0], cz[1], 10*i+j+30*mr+3*ms, off)
                 for i in (1, 2, 3) for j in (1, 2, 3)).ravel()
        if st:
            for e in ends:
                if len(e) == 6:
                    sc = sc*np.linalg.norm([e[1]-e[0], e[3]-e[2], e[5]-e[4]])
            sc = sc*st
        t.close(a, sg*b, 'bipole-reciprocity', rtol=rtol_for(m), scale=np.maximum(sc, np.abs(b)),
                msg=f'ms={ms} mr={mr}')
        t.count('bipole_pairs')
        t.sig(len(m['res']), ms, mr, len(ends[0]), len(ends[1]), ns, nr)


def time_case(t):
    rng = t.rng
    m = gen.model(rng, air=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    p, q = np.round(rng.uniform(-1000, 1000, (2, 2)), 2)
    off = np.hypot(*(p-q))
    tau = 4e-7*np.pi*off**2/np.median(m['res'])
    times = tau*gen.lu(rng, 0.1, 10, 2)
    sig = int(rng.choice([-1, 0, 1]))
    ab = int(rng.choice(gen.ABS_NZ))
    t.case(ab=ab, zs=zs, zr=zr, p=p, q=q, times=times, signal=sig, **m)
    a = dip([*p, zs], [*q, zr], m, times, ab, signal=sig, **FT)[:, 0, 0]
    b = dip([*q, zr], [*p, zs], m, times, swap(ab), signal=sig,
            **FT)[:, 0, 0]
    sc = time_scale(lambda f: nat_scale(m, f, zs, zr, ab, off), times, sig)
    t.close(a, sign(ab)*b, 'time-reciprocity', rtol=1e-10, scale=sc[:, 0],
            msg=f'ab={ab}')
    t.count('time_pairs')
    t.sig('t', sig, ab)


CASES = [
    ('dipole', dipole_case, 300, 8000),
    ('bipole', bipole_case, 120, 3000),
    ('time', time_case, 40, 800),
]
