"""C03: invariance under translation, rotation and mirroring of the survey."""
import numpy as np

from vlib import gen
from vlib.util import (FT, bip, dip, dipoles5, fine_coords, nat_scale, pairs_scale,
                       rtol_for, time_scale, warmup)  # noqa: F401

RULE = ('random models and surveys; each case compares a survey with its '
        'translated, rotated or mirrored copy; distinct by motion, layers, '
        'components, quadrant and survey size')
REQUIRED = {'translated': 200, 'rotated': 200, 'mirrored': 100}


def shift_model(m, dz):
    return {**m, 'depth': [d+dz for d in m['depth']]}


def translate_case(t):
    rng = t.rng
    for _ in range(6):
        m = gen.model(rng)
        zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
        x, y = gen.offsets(rng, 3)
        freq = gen.lu(rng, 1e-3, 1e5, 2)
        ab = int(rng.choice(gen.ABS_NZ))
        dx, dy, dz = np.round(rng.uniform(-1, 1, 3)*[1e4, 1e4, 2e3], 1)
        xd = bool(rng.random() < .3)
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, shift=[dx, dy, dz],
               xdirect=xd, **m)
        a = dip([0, 0, zs], [x, y, zr], m, freq, ab, xdirect=xd)[:, :, 0]
        b = dip([dx, dy, zs+dz], [x+dx, y+dy, zr+dz], shift_model(m, dz),
                freq, ab, xdirect=xd)[:, :, 0]
        off = np.hypot(x, y)
        sc = nat_scale(m, freq, zs, zr, ab, off)
        # Shifted coordinates carry rounding of the order 1e-12 m.
        t.close(b, a, 'translation', rtol=rtol_for(m, 3e-8), scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        t.count('translated')
        t.sig('tr', *gen.nl_sig(m, zs, zr, ab))


def survey(rng, m, ns, nr, samez):
    def pts(n, c):
        z = gen.zpoint(rng, m['depth'], on_if=0)
        out = []
        for _ in range(n):
            if not samez:
                z = gen.zpoint(rng, m['depth'], on_if=0)
            az = rng.choice([0, 90, -90, 180, rng.uniform(-180, 180)])
            dp = rng.choice([0, 0, 90, rng.uniform(-90, 90)])
            out.append((*(c+rng.uniform(-200, 200, 2)), z, float(az),
                        float(dp)))
        return out
    c = np.array([rng.uniform(300, 1500), 0])
    p = rng.uniform(-np.pi, np.pi)
    c = np.array([c[0]*np.cos(p), c[0]*np.sin(p)])
    return pts(ns, np.zeros(2)), pts(nr, c)


def rotate_case(t):
    rng = t.rng
    for _ in range(3):
        m = gen.model(rng, air=False)
        ns, nr = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        src, rec = survey(rng, m, ns, nr, rng.random() < .5)
        ms, mr = (bool(rng.random() < .5) for _ in range(2))
        freq = gen.lu(rng, 1e-3, 1e4, 1)
        phi = float(rng.choice([90, 180, -90, rng.uniform(-180, 180)]))
        sh = rng.uniform(-1000, 1000, 2)
        t.case(src=src, rec=rec, phi=phi, msrc=ms, mrec=mr, freq=freq, **m)

        def rot(pts, mirror=False):
            c, s = np.cos(np.deg2rad(phi)), np.sin(np.deg2rad(phi))
            out = []
            for x, y, z, a, d in pts:
                if mirror:
                    y, a = -y, -a
                out.append((c*x-s*y+sh[0], s*x+c*y+sh[1], z, a+phi, d))
            return out

        kw = dict(msrc=ms, mrec=mr)
        a = bip(dipoles5(src), dipoles5(rec), m, freq, **kw)
        sc = pairs_scale(m, freq, src, rec, ms, mr)
        b = bip(dipoles5(rot(src)), dipoles5(rot(rec)), m, freq, **kw)
        t.close(b, a, 'rotation', rtol=rtol_for(m, 3e-8), scale=sc,
                msg=f'phi={phi}')
        t.count('rotated')
        # Mirror in the x-z plane (then rotated): axial vectors flip.
        c = bip(dipoles5(rot(src, True)), dipoles5(rot(rec, True)), m, freq,
                **kw)
        sg = (-1)**(ms+mr)
        t.close(c, sg*a, 'mirror', rtol=rtol_for(m, 3e-8), scale=sc)
        t.count('mirrored')
        t.sig('rot', ns, nr, ms, mr, phi % 90 == 0, len(m['res']))


def tensor_case(t):
    """Elementary components: rotated tensor equals tensor of rotated survey;
    exact statement for `dipole`, all quadrants and on the axes."""
    rng = t.rng
    m = gen.model(rng, air=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    freq = gen.lu(rng, 1e-3, 1e5, 1)
    r = gen.lu(rng, 50, 2000)
    k = int(rng.integers(4))
    base = rng.choice([0, np.pi/2, np.pi, -np.pi/2,
                       rng.uniform(0, np.pi/2) + k*np.pi/2])
    phi = rng.uniform(-np.pi, np.pi)
    br, bs = 30*int(rng.integers(2)), 3*int(rng.integers(2))
    xd = bool(rng.random() < .3)
    t.case(zs=zs, zr=zr, r=r, base=base, phi=phi, br=br, bs=bs, freq=freq,
           xdirect=xd, **m)

    def tensor(ang):
        p = [r*np.cos(ang), r*np.sin(ang), zr]
        return np.array([[dip([0, 0, zs], p, m, freq, 10*i+j+br+bs,
                              xdirect=xd)[0, 0, 0]
                          for j in (1, 2, 3)] for i in (1, 2, 3)])

    R = np.array([[np.cos(phi), -np.sin(phi), 0],
                  [np.sin(phi), np.cos(phi), 0], [0, 0, 1]])
    a, b = tensor(base), tensor(base+phi)
    sc = np.array([[nat_scale(m, freq, zs, zr, 10*i+j+br+bs, r)[0, 0]
                    for j in (1, 2, 3)] for i in (1, 2, 3)])
    # Scale of the rotated: horizontal components mix.
    aR = np.abs(R) + np.eye(3)
    sc = aR @ sc @ aR.T
    t.close(b, R @ a @ R.T, 'tensor-rotation', rtol=rtol_for(m, 3e-8),
            scale=sc, atol=1e-300)
    t.count('rotated')
    t.count('tensors')
    t.sig('tensor', gen.layer_of(m['depth'], zs), gen.layer_of(m['depth'], zr),
          br, bs, int(np.floor(base/(np.pi/2))), base % (np.pi/2) == 0)


def finite_case(t):
    """Finite bipoles: shift (whole millimetres) and rotation by 90 deg."""
    rng = t.rng
    m = gen.model(rng, air=False)
    freq = gen.lu(rng, 1e-2, 1e3, 1)
    z = []
    for _ in range(2):
        la = int(rng.integers(len(m['res'])))
        z.append([round(gen.zpoint(rng, m['depth'], la, 0), 3)
                  for _ in range(2)])
    s = np.round(rng.uniform(-150, 150, 4), 3)
    r = np.round(rng.uniform(-150, 150, 4), 3) + np.array([900, 900, 0, 0])
    # Stay away from interfaces by more than a millimetre.
    dz = float(np.round(rng.uniform(-500, 500), 0))
    dx, dy = np.round(rng.uniform(-500, 500, 2), 0)
    ms, mr = (bool(rng.random() < .5) for _ in range(2))
    src = [*s, *z[0]]
    rec = [*r, *z[1]]
    k = int(rng.integers(4))
    kw = dict(msrc=ms, mrec=mr, srcpts=3, recpts=2,
              strength=float(rng.choice([0, 2.])))
    t.case(src=src, rec=rec, k=k, shift=[dx, dy, dz], freq=freq, kw=kw, **m)

    def move(p):
        x, y = np.array(p[:2]), np.array(p[2:4])
        for _ in range(k):
            x, y = -y, x
        return [*(x+dx), *(y+dy), p[4]+dz, p[5]+dz]

    with fine_coords():
        a = bip(src, rec, m, freq, **kw).ravel()
        b = bip(move(src), move(rec), shift_model(m, dz), freq, **kw).ravel()
    # With the default rounding (mm) of the points on the bipole.
    c = bip(src, rec, m, freq, **kw).ravel()
    d = bip(move(src), move(rec), shift_model(m, dz), freq, **kw).ravel()
    cs = [(s[0]+s[1])/2, (s[2]+s[3])/2, sum(z[0])/2]
    cr = [(r[0]+r[1])/2, (r[2]+r[3])/2, sum(z[1])/2]
    sc = pairs_scale(m, freq, [cs], [cr], ms, mr).ravel()
    if kw['strength']:
        sc = sc*2*np.linalg.norm([s[1]-s[0], s[3]-s[2], z[0][1]-z[0][0]])
        sc = sc*np.linalg.norm([r[1]-r[0], r[3]-r[2], z[1][1]-z[1][0]])
    t.close(b, a, 'finite-motion', rtol=rtol_for(m, 3e-8),
            scale=np.maximum(sc, np.abs(a)))
    t.close(d, c, 'finite-motion-rounded', rtol=1e-4,
            scale=np.maximum(sc, np.abs(a)))
    t.count('translated')
    t.sig('finite', k, ms, mr, len(m['res']))


def time_case(t):
    rng = t.rng
    m = gen.model(rng, air=False)
    zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
    x, y = gen.offsets(rng, 1, 100, 1000)
    off = float(np.hypot(x, y)[0])
    times = 4e-7*np.pi*off**2/np.median(m['res'])*gen.lu(rng, 0.1, 10, 2)
    sig = int(rng.choice([-1, 0, 1]))
    ab = int(rng.choice(gen.ABS_NZ))
    dx, dy, dz = np.round(rng.uniform(-1, 1, 3)*[1e3, 1e3, 5e2], 1)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, times=times, signal=sig,
           shift=[dx, dy, dz], **m)
    a = dip([0, 0, zs], [x, y, zr], m, times, ab, signal=sig, **FT)[:, 0, 0]
    b = dip([dx, dy, zs+dz], [x+dx, y+dy, zr+dz], shift_model(m, dz), times,
            ab, signal=sig, **FT)[:, 0, 0]
    sc = time_scale(lambda f: nat_scale(m, f, zs, zr, ab, off), times, sig)
    t.close(b, a, 'time-translation', rtol=1e-8, scale=sc[:, 0])
    t.count('translated')
    t.sig('time', sig, ab)


CASES = [
    ('translate', translate_case, 240, 6000),
    ('rotate', rotate_case, 90, 2500),
    ('tensor', tensor_case, 120, 3000),
    ('finite', finite_case, 120, 3000),
    ('time', time_case, 24, 500),
]
