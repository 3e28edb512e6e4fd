"""C26: wavenumber-domain output against an independent spectrum, and
integrated to the field."""
import numpy as np

from vlib import gen, ref
from vlib.util import DLF, dip, rtol_for, warm_dipole

RULE = ('random models, depths, offsets, wavenumbers of one or two dimensions '
        'for all 36 combinations: both functions against an independent '
        'spectrum, integrated with a filter to the dipole field, and entry by '
        'entry against single calls; distinct by layers, combination, shapes')
REQUIRED = {'spectra': 400, 'transformed': 150, 'single': 80}
ASSUMPTIONS = ['rounding of the recursion: 1e-8 + 3e-15*contrast of the sum '
               'of the TM and TE magnitudes']


def warmup(group):
    if group == "lap":
        return
    import empymod
    warm_dipole()
    for sh in ((1, 3), (2, 3)):
        empymod.dipole_k([0, 0, 10.], [100., 0, 20.], [0., 100.],
                         [1., 2., 3.], 1., np.ones(sh), verb=0)


def setup(rng):
    m = gen.model(rng)
    zs = gen.zpoint(rng, m['depth'])
    zr = zs if rng.random() < .15 else gen.zpoint(rng, m['depth'])
    f = gen.lu(rng, 1e-2, 1e4, int(rng.integers(1, 4)))
    return m, zs, zr, f


def run(src, rec, m, f, k, ab):
    import empymod
    return empymod.dipole_k(src, rec, freq=f, wavenumber=k, ab=ab, verb=0, **m)


def expected(m, f, zs, zr, ab, off, th, k):
    """PJ0, PJ1 and scale for one offset; (nf, nk)."""
    mats = ref.material(gen.full(m), f)
    p0, p1, s0, s1 = (np.zeros((len(f), k.size), complex) for _ in range(4))
    for i in range(len(f)):
        sp, mg = ref.spectrum(None, [q[i] for q in mats], m['depth'], zs, zr,
                              ab, k)
        g0, g1, g2 = ref.to_bessel(sp, th)
        p0[i] = (g0-g2)*k/2/np.pi
        p1[i] = (g1*k+2*g2/off)/2/np.pi
        q0, q1, q2 = ref.bessel_scale(mg)
        s0[i] = (q0+q2)*k/2/np.pi
        s1[i] = (q1*k+2*q2/off)/2/np.pi
    return p0, p1, s0.real, s1.real


def spectrum_case(t):
    rng = t.rng
    for i in range(9):
        ab = gen.ABS[(9*t.index+i) % 36]
        m, zs, zr, f = setup(rng)
        n = int(rng.integers(1, 4))
        x, y = gen.offsets(rng, n)
        sx, sy = rng.uniform(-300, 300, 2)
        lo, hi = 1e-6, 3.
        k = gen.lu(rng, lo, hi, int(rng.integers(1, 9)))
        two = rng.random() < .3
        if two:
            n, x, y = 1, x[:1], y[:1]
            k = gen.lu(rng, lo, hi, (int(rng.integers(1, 4)),
                                     int(rng.integers(1, 5))))
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, k=k, **m)
        kc = k.copy()
        out = run([sx, sy, zs], [x+sx, y+sy, zr], m, f, k, ab)
        t.check(np.array_equal(k, kc), 'modified-input', k)
        shape = (f.size, *(k.shape if two else (n, k.size)))
        shp = tuple(v for v in shape if v != 1)
        t.check(out[0].shape == shp and out[1].shape == shp, 'shape',
                (out[0].shape, shp))
        p0, p1 = (np.reshape(v, (f.size, n, -1)) for v in out)
        for j in range(n):
            off, th = np.hypot(x[j], y[j]), np.arctan2(y[j], x[j])
            q0, q1, s0, s1 = expected(m, f, zs, zr, ab, off, th, k.ravel())
            rt = rtol_for(m)
            t.close(p0[:, j], q0, 'J0-spectrum', rtol=rt, scale=s0,
                    atol=1e-300, msg=f'ab={ab}')
            t.close(p1[:, j], q1, 'J1-spectrum', rtol=rt, scale=s1,
                    atol=1e-300, msg=f'ab={ab}')
        t.count('spectra', n)
        t.sig(*gen.nl_sig(m, zs, zr, ab), k.ndim, n, f.size)


def transform_case(t):
    """Integrated against the Bessel functions it is the dipole field."""
    import empymod
    rng = t.rng
    fl = getattr(empymod.filters.Hankel(), DLF)
    for _ in range(4):
        ab = int(rng.choice(gen.ABS))
        m, zs, zr, f = setup(rng)
        x, y = gen.offsets(rng, 1)
        off = float(np.hypot(x, y)[0])
        k = fl.base/off
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, **m)
        p0, p1 = (np.reshape(v, (f.size, -1)) for v in run(
            [0, 0, zs], [x, y, zr], m, f, k, ab))
        em = (p0 @ fl.j0 + p1 @ fl.j1)/off
        sc = (np.abs(p0) @ np.abs(fl.j0) + np.abs(p1) @ np.abs(fl.j1))/off
        d = dip([0, 0, zs], [x, y, zr], m, f, ab)[:, 0, 0]
        t.close(em, d, 'transformed', rtol=rtol_for(m, 1e-10), scale=sc, atol=1e-300,
                msg=f'ab={ab}')
        t.count('transformed')
        t.sig('tr', *gen.nl_sig(m, zs, zr, ab))


def single_case(t):
    """Several sources, receivers, frequencies: each as if alone."""
    rng = t.rng
    ab = int(rng.choice(gen.ABS))
    m, zs, zr, f = setup(rng)
    nr, ns = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    x, y = gen.offsets(rng, nr)
    sx, sy = rng.uniform(-20, 20, (2, ns))
    k = gen.lu(rng, 1e-6, 1, int(rng.integers(2, 6)))
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, sx=sx, sy=sy, f=f, k=k, **m)
    a = [np.reshape(v, (f.size, ns*nr, k.size)) for v in run(
        [sx, sy, zs], [x, y, zr], m, f, k, ab)]
    for _ in range(3):
        i, j, q, w = (int(rng.integers(v)) for v in (f.size, nr, ns, k.size))
        b = run([sx[q], sy[q], zs], [x[j], y[j], zr], m, f[i], k[[w]], ab)
        for c in range(2):
            t.close(a[c][i, q*nr+j, w], b[c][()], 'single', rtol=1e-13,
                    msg=f'ab={ab} {c}')
        t.count('single')
    t.sig('single', ab, nr, ns, f.size, len(m['res']))


def laplace_case(t):
    rng = t.rng
    ab = int(rng.choice(gen.ABS_NZ))
    m, zs, zr, f = setup(rng)
    x, y = gen.offsets(rng, 1)
    k = gen.lu(rng, 1e-6, 1, 5)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, s=f, k=k, **m)
    out = run([0, 0, zs], [x, y, zr], m, -f, k, ab)
    mats = ref.material(gen.full(m), f, laplace=True)
    off, th = np.hypot(x[0], y[0]), np.arctan2(y[0], x[0])
    for i in range(f.size):
        sp, mg = ref.spectrum(None, [q[i] for q in mats], m['depth'], zs, zr,
                              ab, k)
        g = ref.to_bessel(sp, th)
        q = ref.bessel_scale(mg)
        for c, want, s in ((0, (g[0]-g[2])*k, (q[0]+q[2])*k),
                           (1, g[1]*k+2*g[2]/off, q[1]*k+2*q[2]/off)):
            v = out[c].reshape(f.size, -1)[i]
            t.check(np.isrealobj(v), 'not-real', v)
            t.close(v, np.real(want)/2/np.pi+np.zeros(5), 'laplace-spectrum',
                    rtol=rtol_for(m), scale=s/2/np.pi, atol=1e-300,
                    msg=f'ab={ab}')
    t.count('laplace')
    t.sig('lap', ab, len(m['res']))


CASES = [('spectrum', spectrum_case, 100, 2000),
         ('transformed', transform_case, 80, 1500),
         ('single', single_case, 60, 1000),
         ('laplace', laplace_case, 40, 800, 'lap')]
