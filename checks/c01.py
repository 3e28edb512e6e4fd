"""C01: dipole fields versus an independent solution of Maxwell's equations."""
import numpy as np

from vlib import gen, ref
from vlib.util import DLF, contrast, dip, warmup  # noqa: F401

RULE = ('random VTI models/surveys from the seed; each compares the field of '
        'one source-receiver combination with a transmission-line reference; '
        'distinct by (layers, source layer, receiver layer, combination, same '
        'depth, anisotropy kinds)')
ASSUMPTIONS = ['rounding error of the recursion bounded by '
               '1e-8 + 3e-15*conductivity contrast of the natural scale']
REQUIRED = {'dlf_fields': 500, 'ab_seen': 300, 'quadrature_fields': 4}


def one(t, m, zs, zr, ab, x, y, freq, sx=0., sy=0., filt=DLF,
        base=1e-8):
    import empymod
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, src=[sx, sy], filt=filt,
           **m)
    off, th = np.hypot(x-sx, y-sy), np.arctan2(y-sy, x-sx)
    d = dip([sx, sy, zs], [x, y, zr], m, freq, ab,
            htarg={'dlf': filt, 'pts_per_dec': 0})[:, :, 0]
    fl = getattr(empymod.filters.Hankel(), filt)
    r, sc = ref.dlf_field(gen.full(m), freq, zs, zr, ab, off, th, fl)
    t.close(d, r, 'layered-field', rtol=base+3e-15*contrast(m, freq),
            scale=sc, atol=1e-300, msg=f'ab={ab}')
    t.count('dlf_fields', d.size)
    t.count('ab_seen')
    t.sig(*gen.nl_sig(m, zs, zr, ab))


def random_case(t):
    rng = t.rng
    for _ in range(6):
        m = gen.model(rng)
        zs = gen.zpoint(rng, m['depth'])
        zr = zs if rng.random() < .15 else gen.zpoint(rng, m['depth'])
        n = int(rng.integers(1, 4))
        x, y = gen.offsets(rng, n)
        sx, sy = np.round(rng.uniform(-500, 500, 2), 2)
        freq = gen.lu(rng, 1e-3, 1e4, int(rng.integers(1, 4)))
        ab = int(rng.choice(gen.ABS_NZ))
        filt = str(rng.choice([DLF, 'wer_201_2018', 'key_101_2009',
                               'kong_241_2007']))
        one(t, m, zs, zr, ab, x+sx, y+sy, freq, sx, sy, filt)


def layers_case(t):
    """Every (source layer, receiver layer) pair for one model; all ab."""
    rng = t.rng
    nl = int(rng.integers(2, 7))
    m = gen.model(rng, nl=nl, air=rng.random() < .2, aniso=True, perm=True,
                  mperm=True, vti_mu=True)
    m['epermV'] = list(map(float, gen.lu(rng, 1, 80, nl)))
    freq = gen.lu(rng, 1e-1, 1e6, 1)
    for ls in range(nl):
        for lr in range(nl):
            ab = int(rng.choice(gen.ABS_NZ))
            zs = gen.zpoint(rng, m['depth'], ls, on_if=.15)
            zr = gen.zpoint(rng, m['depth'], lr, on_if=.15)
            x, y = gen.offsets(rng, 1, 20, 1000, axis=0.)
            one(t, m, zs, zr, ab, x, y, freq)


def abs_case(t):
    """All 34 non-zero combinations for one geometry; 36/63 vanish."""
    rng = t.rng
    m = gen.model(rng, air=rng.random() < .2)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 1, 20, 2000, axis=0.05)
    freq = gen.lu(rng, 1e-2, 1e5, 1)
    for ab in gen.ABS_NZ:
        one(t, m, zs, zr, ab, x, y, freq)
    for ab in (36, 63):
        d = dip([0, 0, zs], [x, y, zr], m, freq, ab)
        t.check(np.all(d == 0), 'zero-combination', f'ab={ab}: {d}')
        t.count('dlf_fields')


def extreme_case(t):
    """Thin and thick layers, many layers, high contrasts, huge/tiny
    frequencies, very small and large offsets."""
    rng = t.rng
    nl = int(rng.choice([2, 3, 8, 15, 30]))
    m = gen.model(rng, nl=nl, thick=(0.01, 5e3), res=(1e-2, 1e5),
                  air=rng.random() < .2)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 2, 0.5, 3e4)
    freq = gen.lu(rng, 1e-6, 1e8, 2)
    one(t, m, zs, zr, int(rng.choice(gen.ABS_NZ)), x, y, freq, base=3e-6)


def _bessel_quad(fun, off, n):
    """Converged int_0^inf fun(lam) J_n(lam off) dlam: Gauss-Legendre between
    zeros of J_n, tail extrapolated with the epsilon algorithm (mean)."""
    from scipy import special
    gx, gw = np.polynomial.legendre.leggauss(24)
    z = special.jn_zeros(n, 400)/off
    first = np.r_[0, np.logspace(-6, 0, 25)*z[0]]
    edges = np.r_[first, z[1:]]
    a, b = edges[:-1, None], edges[1:, None]
    lam = (b-a)/2*gx + (b+a)/2
    w = (b-a)/2*gw
    v = fun(lam.ravel()).reshape(lam.shape)*special.jv(n, lam*off)*w
    parts = v.sum(1)
    s = np.cumsum(parts)[24:]
    # Repeated averaging of the alternating tail.
    s = s[-60:]
    while s.size > 8:
        s = (s[1:]+s[:-1])/2
    return s[-1], np.abs(parts).max()


def quadrature_case(t):
    """Independent converged quadrature: absolute accuracy of the field."""
    import empymod
    rng = t.rng
    for _ in range(20):
        m = gen.model(rng, air=False, res=(1, 200), perm=False, mperm=False)
        zs, zr = (gen.zpoint(rng, m['depth'], on_if=0) for _ in range(2))
        if abs(zs-zr) > 15:
            break
    else:
        return
    ab = int(rng.choice(gen.ABS_NZ))
    lo = max(40, 0.3*abs(zs-zr))
    x, y = gen.offsets(rng, 1, lo, 5*lo, axis=0)
    off, th = float(np.hypot(x, y)[0]), float(np.arctan2(y, x)[0])
    freq = gen.lu(rng, 1e-1, 20, 1)
    t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, freq=freq, **m)
    d = dip([0, 0, zs], [x, y, zr], m, freq, ab,
            htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0})[0, 0, 0]
    f = gen.full(m)
    mats = [q[0] for q in ref.material(f, freq)]
    tot = 0
    fl = empymod.filters.Hankel().wer_201_2018
    _, scale = ref.dlf_field(f, freq, zs, zr, ab, off, th, fl)
    scale = float(scale[0, 0])
    for n in range(3):
        def g(lam, n=n):
            sp, _ = ref.spectrum(f, mats, f['depth'], zs, zr, ab, lam)
            v = ref.to_bessel(sp, th)[n]
            return (v if np.ndim(v) else np.zeros(lam.size))*lam/(2*np.pi)
        tot = tot + _bessel_quad(g, off, n)[0]
    t.sample(ab=ab, empymod=d, quadrature=tot, scale=scale)
    t.close(d, tot, 'field-vs-quadrature', rtol=1e-7, scale=abs(tot),
            atol=1e-9*scale, msg=f'ab={ab}')
    t.count('quadrature_fields')
    t.sig('quad', *gen.nl_sig(m, zs, zr, ab))


CASES = [
    ('random', random_case, 800, 6000),
    ('layers', layers_case, 160, 1200),
    ('allab', abs_case, 120, 800),
    ('extreme', extreme_case, 500, 3000),
    ('quadrature', quadrature_case, 60, 400),
]
