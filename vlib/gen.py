"""Seeded generators of models, surveys and settings.

All values come from rng only.  Models are kept within the documented domain:
positive values, at least a few mm layer thickness, finite coordinates.
"""
import numpy as np

ABS = [10*r + s for r in range(1, 7) for s in range(1, 7)]
ABS_NZ = [ab for ab in ABS if ab not in (36, 63)]
EE = [ab for ab in ABS if ab % 10 < 4 and ab//10 < 4]


def lu(rng, lo, hi, size=None):
    """Log-uniform."""
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def model(rng, nl=None, air=None, aniso=None, perm=None, mperm=None,
          z0=None, thick=(20, 400), res=(0.1, 500), vti_mu=None,
          reverse=False):
    """Return dict(depth, res, aniso, epermH, epermV, mpermH, mpermV)."""
    if nl is None:
        nl = int(rng.choice([1, 2, 3, 4, 5, 7], p=[.1, .2, .25, .2, .15, .1]))
    if z0 is None:
        z0 = float(rng.choice([0., rng.uniform(-300, 300)]))
    th = lu(rng, *thick, size=max(nl-2, 0))
    depth = np.round(z0 + np.r_[0, np.cumsum(th)], 3)[:nl-1]
    r = lu(rng, *res, size=nl)
    if air is None:
        air = rng.random() < 0.4
    if air and nl > 1:
        r[0] = lu(rng, 1e8, 1e14)
    m = {'depth': [float(d) for d in depth], 'res': [float(x) for x in r]}
    if aniso is None:
        aniso = rng.random() < 0.6
    if perm is None:
        perm = rng.random() < 0.5
    if mperm is None:
        mperm = rng.random() < 0.5
    if vti_mu is None:
        vti_mu = rng.random() < 0.5
    if aniso:
        m['aniso'] = list(map(float, lu(rng, 0.5, 3, nl)))
    if perm:
        m['epermH'] = list(map(float, lu(rng, 1, 80, nl)))
        if rng.random() < 0.6:
            m['epermV'] = list(map(float, lu(rng, 1, 80, nl)))
        if rng.random() < 0.2:   # Diffusive approximation
            for k in ('epermH', 'epermV'):
                if k in m:
                    m[k] = [0.]*nl
    if mperm:
        m['mpermH'] = list(map(float, lu(rng, 1, 5, nl)))
        if vti_mu:
            m['mpermV'] = list(map(float, lu(rng, 1, 5, nl)))
    if nl > 1 and not air and rng.random() < .12:
        # Layers which differ in one parameter only.
        keys = [k for k in m if k != 'depth' and len(set(m[k])) > 1]
        keep = str(rng.choice(keys))
        for k in keys:
            if k != keep:
                m[k] = [m[k][-1]]*nl
    return m


def full(m):
    """All six parameters explicit."""
    n = len(m['res'])
    one = np.ones(n)
    epH = np.asarray(m.get('epermH', one), float)
    epV = np.asarray(m.get('epermV', epH), float)
    muH = np.asarray(m.get('mpermH', one), float)
    muV = np.asarray(m.get('mpermV', muH), float)
    return {'depth': list(m['depth']), 'res': np.asarray(m['res'], float),
            'aniso': np.asarray(m.get('aniso', one), float), 'epermH': epH,
            'epermV': epV, 'mpermH': muH, 'mpermV': muV}


def layer_of(depth, z):
    """Index of the layer; interfaces belong to the upper layer."""
    return int(np.sum(np.asarray(depth, float) < z))


def zpoint(rng, depth, layer=None, on_if=0.1, span=150.):
    """A depth, in a random layer; at times exactly on an interface."""
    nl = len(depth)+1
    if layer is None:
        layer = int(rng.integers(nl))
    if nl == 1:
        return float(np.round(rng.uniform(-span, span), 2))
    if layer < nl-1 and rng.random() < on_if:
        return float(depth[layer])
    if rng.random() < on_if/2:   # Very close to an interface
        d = lu(rng, 1e-7, 1e-2)
        if layer > 0 and (layer == nl-1 or rng.random() < .5):
            return float(depth[layer-1]+d)
        return float(depth[layer]-d)
    if layer == 0:
        return float(np.round(depth[0] - lu(rng, 1, span), 3))
    if layer == nl-1:
        return float(np.round(depth[-1] + lu(rng, 1, span), 3))
    a, b = depth[layer-1], depth[layer]
    return float(a + (b-a)*rng.uniform(0.05, 0.95))


def offsets(rng, n=1, lo=30, hi=3000, axis=0.15):
    """n receiver positions (x, y) around the origin."""
    r = lu(rng, lo, hi, n)
    p = rng.uniform(-np.pi, np.pi, n)
    x, y = r*np.cos(p), r*np.sin(p)
    for i in range(n):
        u = rng.random()
        if u < axis:
            x[i], y[i] = (r[i]*rng.choice([-1, 1]), 0.)
        elif u < 2*axis:
            x[i], y[i] = (0., r[i]*rng.choice([-1, 1]))
        if u < 2*axis and rng.random() < .25:   # Nearly on the axis
            d = r[i]*lu(rng, 1e-8, 1e-3)*rng.choice([-1, 1])
            x[i], y[i] = (x[i], d) if y[i] == 0 else (d, y[i])
    return x, y


def nl_sig(m, zs, zr, ab, *more):
    ls, lr = layer_of(m['depth'], zs), layer_of(m['depth'], zr)
    return (len(m['res']), ls, lr, ab, zs == zr, 'aniso' in m, 'epermV' in m,
            'mpermV' in m) + tuple(more)
