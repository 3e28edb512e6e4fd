"""C20: TM/TE decomposition adds up to the total field."""
import numpy as np

from vlib import gen, ref
from vlib.util import captured, contrast, dip, warm_dipole

RULE = ('random models and depths in the same layer: ten parts against an '
        'independent transmission-line solution with one-way sources, against '
        'the total field, and against the shifted, rotated, scaled model; '
        'distinct by layers, layer of the survey, settings')
REQUIRED = {'parts': 900, 'sums': 120, 'shifted': 60, 'refused': 60}
ASSUMPTIONS = ['direct parts: conventional split (documented: corrections of '
               'the reflected parts only)']
FILT = 'key_201_2012'
NAMES = ['--', '-+', '+-', '++', 'direct']


def rt(m):
    return 2e-8 + min(1e-18*contrast(m), 1e-4)


def rs(m):
    return 1e-12 + min(1e-22*contrast(m), 1e-8)


def warmup(group):
    from empymod.scripts import tmtemod
    warm_dipole()
    tmtemod.dipole([0, 0, 10.], [100., 0, 20.], [0., 100.], [1., 2., 3.], 1.,
                   verb=0)


def make(rng, nl=None, nrec=None):
    nl = nl or int(rng.choice([2, 2, 3, 3, 4, 5]))
    m = gen.model(rng, nl=nl, perm=False, mperm=False, thick=(30, 400))
    if rng.random() < .4:
        m['epermH'] = [float(x) for x in gen.lu(rng, 1, 80, nl)]
    if rng.random() < .4:
        m['mpermH'] = [float(x) for x in gen.lu(rng, 1, 5, nl)]
    lay = int(rng.integers(nl))
    zs, zr = (gen.zpoint(rng, m['depth'], layer=lay) for _ in range(2))
    x, y = gen.offsets(rng, nrec or int(rng.integers(1, 4)), lo=50)
    f = float(gen.lu(rng, .01, 1e3))
    return m, lay, zs, zr, x, y, f


def split(src, rec, m, f, **kw):
    from empymod.scripts import tmtemod
    with captured():
        TM, TE = tmtemod.dipole(
            src, rec, m['depth'], m['res'], f, aniso=m.get('aniso'),
            eperm=m.get('epermH'), mperm=m.get('mpermH'), **{'verb': 0, **kw})
    return [np.asarray(v) for v in TM], [np.asarray(v) for v in TE]


def oneway(z, y, depth, zs, zr, down):
    """Amplitudes (up, down) at zr of the reflected waves for a source that
    sends out only the down- (or only the up-) going half of the field of a
    horizontal electric dipole."""
    ls = int(np.sum(np.asarray(depth) < zs))
    g = np.sqrt(z*y)
    g = np.where(g.real < 0, -g, g)[ls]
    n = z.shape[1]
    yc = g/z[ls]
    # is = -1 sends -1/(2 yc) both ways; one-way: vs = +- is/yc.
    i = -np.ones(n)/2
    v = i/yc if down else -i/yc
    V, Ii, Va, Ia = ref.line(z, y, depth, zs, zr, v, i, 'none')
    return (V-Ii/yc)/2, (V+Ii/yc)/2, Va


def reference(m, f, zs, zr, off, ang):
    """The ten parts by wave splitting; and a scale of each."""
    import libdlf
    fun = getattr(libdlf.hankel, FILT)
    v = fun()
    base, j0, j1 = v[0], v[1+fun.values.index('j0')], v[
        1+fun.values.index('j1')]
    fm = gen.full(m)
    fm['epermV'], fm['mpermV'] = fm['epermH'], fm['mpermH']
    eH, eV, zH, zV = (a[0][:, None] for a in ref.material(fm, f))
    lam = np.r_[1e-15/off, base/off]
    l2 = (lam**2)[None]
    ls = gen.layer_of(m['depth'], zs)
    out, sc = {}, {}
    for mode in ('TM', 'TE'):
        one = np.ones((1, lam.size))
        if mode == 'TM':
            z, y, sg = (l2/eV+zH)*one, eH*one, 1
        else:
            z, y, sg = zH*one, (eH+l2/zV)*one, -1
        parts = {}
        for down in (False, True):
            up_, dn_, mag = oneway(z, y, m['depth'], zs, zr, down)
            parts['-'+'-+'[down]] = (up_, mag)
            parts['+'+'-+'[down]] = (dn_, mag)
        g = np.sqrt(z*y)[ls]
        g = np.where(g.real < 0, -g, g)
        dr = -z[ls]/g/2*np.exp(-g*abs(zs-zr))
        parts['direct'] = (dr, np.abs(dr))
        for k, (p, mag) in parts.items():
            # cos^2 or sin^2 of the angle: g0 and g2 (factor (-i)^2)
            g0, g2 = p/2, -sg*p/2*np.cos(2*ang)
            w = slice(1, None)
            val = (((g0-g2)*lam)[w] @ j0 + (2*g2/off)[w] @ j1)/off
            if k != 'direct':        # Singularity at the origin
                val = val - 2*g2[0]/off**2
            out[mode+k] = val/2/np.pi
            mag = np.abs(p) + 1e-6*mag
            s = 2*np.abs(g2[0])/off + (mag*lam)[w] @ np.abs(j0) + (mag/off)[w] @ np.abs(j1)
            sc[mode+k] = s/off/2/np.pi
    every = 1e-5*sum(sc.values())
    return out, {k: v + every for k, v in sc.items()}


def k_parts(t):
    """Every part against the independent solution."""
    rng = t.rng
    m, lay, zs, zr, x, y, f = make(rng)
    t.case(m=m, zs=zs, zr=zr, x=x, y=y, f=f)
    t.sig('parts', len(m['res']), lay, np.sign(zr-zs), sorted(m))
    TM, TE = split([0, 0, zs], [x, y, zr], m, f)
    t.check(len(TM) == len(TE) == 5, 'number-of-parts', len(TM))
    for i in range(x.size):
        off, ang = np.hypot(x[i], y[i]), np.arctan2(y[i], x[i])
        want, sc = reference(m, f, zs, zr, off, ang)
        for mode, P in (('TM', TM), ('TE', TE)):
            for k, name in enumerate(NAMES):
                t.count('parts')
                t.close(P[k].reshape(-1)[i], want[mode+name],
                        f'part-{mode}{name}', rtol=rt(m),
                        scale=sc[mode+name])
    # Parts that cannot exist.
    nl = len(m['res'])
    for k, name in enumerate(NAMES[:4]):
        none = (lay == 0 and name != '-+') or (
            lay == nl-1 and name != '+-')
        if none:
            t.check(not np.any(TM[k]) and not np.any(TE[k]),
                    'impossible-part', name)


def total_scale(m, f, zs, zr, x, y):
    out = []
    for a, b in zip(np.ravel(x), np.ravel(y)):
        sc = reference(m, f, zs, zr, np.hypot(a, b), np.arctan2(b, a))[1]
        out.append(sum(sc.values()))
    return np.array(out)


def k_sum(t):
    """Sum of the parts is the field of the modeller."""
    rng = t.rng
    m, lay, zs, zr, x, y, f = make(rng)
    ns = int(rng.integers(1, 3))
    sx, sy = rng.uniform(-20, 20, ns), rng.uniform(-20, 20, ns)
    t.case(m=m, zs=zs, zr=zr, x=x, y=y, f=f, sx=sx, sy=sy)
    t.sig('sum', len(m['res']), lay, ns, x.size, np.sign(zr-zs))
    TM, TE = split([sx, sy, zs], [x, y, zr], m, f, verb=int(rng.integers(5)))
    want = dip([sx, sy, zs], [x, y, zr], m, f, 11,
               htarg={'dlf': FILT, 'pts_per_dec': 0})
    t.check(all(p.shape == np.squeeze(want).shape for p in TM+TE), 'shape',
            [p.shape for p in TM+TE])
    sc = np.array([total_scale(m, f, zs, zr, x-a, y-b)
                   for a, b in zip(sx, sy)]).T[None]
    t.close(sum(TM)+sum(TE), np.squeeze(want), 'sum-differs', rtol=rs(m),
            scale=np.squeeze(sc))
    t.count('sums')


def k_shift(t):
    """Shifted, turned around, and scaled models."""
    rng = t.rng
    m, lay, zs, zr, x, y, f = make(rng)
    dz = float(rng.choice([rng.uniform(-3000, 3000), rng.uniform(-10, 10)]))
    t.case(m=m, zs=zs, zr=zr, x=x, y=y, f=f, dz=dz)
    t.sig('shift', len(m['res']), lay, np.sign(dz))
    sc = total_scale(m, f, zs, zr, x, y)
    a = split([0, 0, zs], [x, y, zr], m, f)
    b = split([0, 0, zs+dz], [x, y, zr+dz],
              {**m, 'depth': [d+dz for d in m['depth']]}, f)
    for mode in (0, 1):
        for k in range(5):
            t.close(b[mode][k], a[mode][k], 'shift-changes-part', rtol=rs(m),
                    scale=np.squeeze(sc))
    # Upside down: up and down exchanged.
    mm = {k: (v[::-1] if k != 'depth' else [-d for d in v[::-1]])
          for k, v in m.items()}
    if gen.layer_of(mm['depth'], -zs) == gen.layer_of(mm['depth'], -zr) == \
            len(m['res'])-1-lay:
        c = split([0, 0, -zs], [x, y, -zr], mm, f)
        for mode in (0, 1):
            for k, q in enumerate([3, 2, 1, 0, 4]):
                t.close(c[mode][q], a[mode][k], 'mirror-changes-part',
                        rtol=rs(m), scale=np.squeeze(sc))
        t.count('mirrored')
    # By pi around the vertical axis: same.
    d = split([0, 0, zs], [-x, -y, zr], m, f)
    for mode in (0, 1):
        for k in range(5):
            t.close(d[mode][k], a[mode][k], 'turn-changes-part', rtol=rs(m),
                    scale=np.squeeze(sc))
    t.count('shifted')


def k_equiv(t):
    """Layers far away do not matter; identical ones neither."""
    rng = t.rng
    m, lay, zs, zr, x, y, f = make(rng)
    t.case(m=m, zs=zs, zr=zr, x=x, y=y, f=f)
    # Split another layer in two.
    others = [i for i in range(len(m['res'])) if i != lay]
    i = int(rng.choice(others))
    d = np.r_[-np.inf, m['depth'], np.inf]
    lo = d[i] if np.isfinite(d[i]) else d[i+1]-300
    hi = d[i+1] if np.isfinite(d[i+1]) else d[i]+300
    mm = {k: list(np.insert(v, i, v[i])) if k != 'depth' else sorted(
        list(v)+[float((lo+hi)/2)]) for k, v in m.items()}
    sc = total_scale(m, f, zs, zr, x, y)
    a = split([0, 0, zs], [x, y, zr], m, f)
    b = split([0, 0, zs], [x, y, zr], mm, f)
    for mode in (0, 1):
        for k in range(5):
            t.close(b[mode][k], a[mode][k], 'fictitious-layer', rtol=rs(m),
                    scale=np.squeeze(sc))
    t.sig('equiv', len(m['res']), lay, i)
    t.count('equivalent')


def k_refuse(t):
    """Limits of the routine are enforced."""
    rng = t.rng
    m, lay, zs, zr, x, y, f = make(rng)
    k = int(rng.integers(4))
    if k == 0:
        other = [i for i in range(len(m['res'])) if i != lay]
        zr = gen.zpoint(rng, m['depth'], layer=int(rng.choice(other)))
        want = 'same layer'
    elif k == 1:
        m = {'depth': [], 'res': [3.]}
        want = 'more than one layer'
    elif k == 2:
        f = [f, 2*f]
        want = 'only one frequency'
    else:
        m = {**m, 'res': m['res'][:-1]}
        want = 'must'
    t.case(m=m, zs=zs, zr=zr, f=f, k=k)
    try:
        split([0, 0, zs], [x, y, zr], m, f)
        t.fail('not-refused', want)
    except ValueError as e:
        if k != 3:
            t.check(want in str(e), 'unclear-refusal', e)
    t.count('refused')
    t.sig('refuse', k, len(m['res']))


CASES = [
    ('parts', k_parts, 110, 3000),
    ('sum', k_sum, 150, 4000),
    ('shift', k_shift, 90, 2500),
    ('equiv', k_equiv, 60, 1500),
    ('refuse', k_refuse, 80, 800),
]
