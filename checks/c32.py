"""C32: amplitude and phase views are consistent with the complex data."""
import cmath
import copy
import math
import pickle

import numpy as np

from vlib import gen

RULE = ('random arrays (complex, real, integer; magnitudes over the whole '
        'range; zeros, signed zeros, infinities; 0 to 4 dimensions, memory '
        'layouts) and views, slices, arithmetic results of them, and results '
        'of the modelling calls: amplitude and phase of each element against '
        'scalar mathematics; distinct by kind, dimensions, options, view')
REQUIRED = {'elements': 4000, 'unwrapped': 200, 'modelled': 10, 'kept': 400}
ASSUMPTIONS = ['unwrapping runs along the last axis']


def warmup(group):
    from vlib.util import warm_dipole
    if group == 'm':
        warm_dipole()


def values(rng, n, kind):
    if kind == 'int':
        return rng.integers(-5, 6, n)
    mag = gen.lu(rng, *(1e-300, 1e300) if rng.random() < .2
                 else (1e-20, 1e3), size=n)
    if kind == 'real':
        v = mag*rng.choice([-1, 1], n)
    else:
        ph = rng.uniform(-np.pi, np.pi, n)
        if rng.random() < .5:   # slowly varying, as data are
            ph = np.cumsum(rng.uniform(-2.5, 2.5, n))
        v = mag*np.exp(1j*ph)
        if rng.random() < .3:   # on the axes, with signed zeros
            ax = rng.choice([1, -1, 1j, -1j], n)
            v = mag*ax
            v.real[v.real == 0] = rng.choice([0., -0.])
            v.imag[v.imag == 0] = rng.choice([0., -0.])
    v[rng.random(n) < .05] = 0
    if rng.random() < .1:
        v[rng.random(n) < .2] = rng.choice([np.inf, -np.inf])
    if rng.random() < .1:
        v[rng.random(n) < .1] = np.nan
    if rng.random() < .15:
        with np.errstate(all='ignore'):
            v = v.astype(np.complex64 if kind == 'complex' else np.float32)
    return v


def derive(rng, a):
    """A view, a slice, or an arithmetic result, with a name."""
    k = int(rng.integers(12))
    if k == 0 and a.ndim:
        return 'slice', a[::2]
    if k == 1 and a.ndim:
        return 'reversed', a[..., ::-1]
    if k == 2:
        return 'transposed', a.T
    if k == 3 and a.ndim:
        return 'ravel', a.ravel('F')
    if k == 4:
        return 'scaled', a*(-1.5)
    if k == 5:
        return 'sum', a + a.conj()*.5
    if k == 6 and a.size:
        return 'element', a[tuple(int(rng.integers(n)) for n in a.shape)
                            + (Ellipsis,)]
    if k == 7:
        return 'copy', copy.deepcopy(a)
    if k == 8:
        return 'pickled', pickle.loads(pickle.dumps(a))
    if k == 9 and a.ndim:
        return 'masked', a[np.abs(np.asarray(a)) > 0]
    if k == 10:
        return 'conj', np.conj(a)
    return 'itself', a


def judge(t, e, raw, view):
    """All amplitudes and phases of e; raw is a plain copy of the data."""
    low = raw.dtype in (np.float32, np.complex64)
    eps = 1e-6 if low else 1e-14
    with np.errstate(all='ignore'):
        amp = e.amp()
    t.check(np.shape(amp) == raw.shape, 'amplitude-shape', (amp, raw))
    flat = [complex(v) for v in raw.ravel()]
    # Not abs(), which can overflow.
    ref = np.array([math.hypot(v.real, v.imag) for v in flat]).reshape(
        raw.shape)
    ok = np.isfinite(ref) & ~np.isnan(raw.astype(complex))
    if low:
        ok &= (ref < 1e37) & (ref > 1e-37)
    A = np.asarray(amp, float)
    t.check(not np.iscomplexobj(np.asarray(amp)), 'amplitude-real', amp)
    if ok.any():
        t.close(A[ok], ref[ok], 'amplitude', eps, atol=0 if not low else 1e-38,
                msg=view)
        t.count('elements', ok.sum())
    t.check(np.array_equal(np.isinf(ref), np.isinf(A)) or low,
            'amplitude-infinite', (ref, A))
    for deg in (False, True):
        for lag in (True, False):
            base = np.array([cmath.phase(v) if lag else
                             cmath.phase(v.conjugate()) for v in flat],
                            float).reshape(raw.shape)
            good = ok & (ref > 0)
            for unwrap in (False, True):
                with np.errstate(all='ignore'):
                    pha = e.pha(deg=deg, unwrap=unwrap, lag=lag)
                t.check(np.shape(pha) == raw.shape, 'phase-shape',
                        (view, np.shape(pha), raw.shape))
                P = np.asarray(pha, float)*(np.pi/180 if deg else 1)
                opt = (view, deg, lag, unwrap)
                if not unwrap:
                    if good.any():
                        # +pi and -pi are the same phase.
                        d = np.abs(np.exp(1j*P[good])-np.exp(1j*base[good]))
                        t.close(d, 0*d, 'phase', 0, atol=50*eps, msg=opt)
                        t.check(np.all(np.abs(P[good]) < np.pi*(1+1e-6)),
                                'wrapped-range', opt)
                        re = ref[good]*np.exp(1j*P[good])
                        want = raw[good].astype(complex)
                        t.close(re, want if lag else want.conj(), 'reproduced',
                                100*eps, scale=ref[good], msg=opt)
                elif good.all() and raw.ndim and raw.size:
                    d = np.abs(np.exp(1j*P)-np.exp(1j*base))
                    t.close(d, 0*d, 'unwrapped-phase', 0,
                            atol=1e3*eps*(1+np.max(np.abs(P), initial=0)),
                            msg=opt)
                    if raw.shape[-1] > 1 and raw.size > 1:
                        s = np.abs(np.diff(P, axis=-1))
                        t.check(np.all(s < np.pi*(1+1e-6)), 'unwrapped-steps',
                                (opt, P))
                        # Starts where the wrapped phase starts.
                        f = np.abs(P[..., 0]-base[..., 0])
                        f = np.minimum(f, np.abs(f-2*np.pi))
                        t.check(np.all(f < 1e3*eps), 'unwrapped-start', opt)
                        t.count('unwrapped')
    # The default: radians, lag, unwrapped.
    with np.errstate(all='ignore'):
        t.check(np.array_equal(np.asarray(e.pha()), np.asarray(
            e.pha(deg=False, unwrap=True, lag=True)), equal_nan=True),
            'phase-defaults', view)


def same(a, b):
    return (a.dtype == b.dtype and a.shape == b.shape and
            np.ascontiguousarray(a).tobytes() ==
            np.ascontiguousarray(b).tobytes())


def array_case(t):
    from empymod.utils import EMArray
    rng = t.rng
    kind = str(rng.choice(['complex', 'complex', 'complex', 'real', 'int']))
    nd = int(rng.integers(0, 5))
    shape = tuple(int(x) for x in rng.choice([1, 2, 3, 5], nd))
    if rng.random() < .03:
        shape = (0,)
    n = int(np.prod(shape))
    v = values(rng, n, kind).reshape(shape)
    if rng.random() < .3 and nd > 1:
        v = np.asfortranarray(v)
    t.case(data=v.tolist(), kind=kind)
    keep = v.copy()
    e = EMArray(v)
    t.check(isinstance(e, EMArray) and same(np.asarray(e), keep), 'created',
            (e, keep))
    with np.errstate(all='ignore'):
        view, w = derive(rng, e)
    if not isinstance(w, np.ndarray):   # NumPy scalar: no array any more
        view, w = 'itself', e
    t.check(isinstance(w, EMArray), 'class', (view, type(w)))
    raw = np.array(np.asarray(w))
    judge(t, w, raw, view)
    t.check(same(np.asarray(w), raw) and same(np.asarray(e), keep) and
            same(v, keep), 'modified', view)
    t.count('kept')
    # Results are no views on the data.
    for r in (w.amp(), w.pha(unwrap=False), w.pha(deg=True)):
        t.check(not np.shares_memory(np.asarray(r), np.asarray(w)),
                'shared-memory', view)
    t.sig(kind, nd, view, str(v.dtype), bool(np.isfinite(v).all()))
    # Lists and scalars are fine as well.
    if nd == 1 and n:
        q = EMArray(list(v))
        judge(t, q, np.array(list(v)), 'list')


def model_case(t):
    import empymod
    from vlib.util import STD
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)))
    zs, zr = gen.zpoint(rng, m['depth']), gen.zpoint(rng, m['depth'])
    x, y = gen.offsets(rng, int(rng.integers(1, 5)))
    f = np.sort(gen.lu(rng, .01, 100, int(rng.integers(1, 5))))
    kw = {'verb': 0, 'squeeze': bool(rng.random() < .5), **STD, **m}
    kind = int(rng.integers(4))
    t.case(zs=zs, zr=zr, x=x, y=y, f=f, kind=kind, **m)
    if kind == 0:
        out = empymod.dipole([0, 0, zs], [x, y, zr], freqtime=f, ab=11, **kw)
    elif kind == 1:
        out = empymod.bipole([0, 0, zs, 20, 10], [x, y, zr, 30, 40],
                             freqtime=f, **kw)
    elif kind == 2:
        m = {k: v[:1] for k, v in m.items() if k != 'depth'}
        out = empymod.analytical([0, 0, zs], [x, y, zr], freqtime=f, verb=0,
                                 **m)
    else:
        out = empymod.dipole([0, 0, zs], [x, y, zr], freqtime=f, ab=11,
                             signal=0, ft='dlf', **kw)
    t.check(isinstance(out, empymod.utils.EMArray), 'class', type(out))
    raw = np.array(np.asarray(out))
    judge(t, out, raw, f'model-{kind}')
    t.check(same(np.asarray(out), raw), 'modified', kind)
    t.count('modelled')
    t.sig('model', kind, raw.ndim)


CASES = [('array', array_case, 600, 20000),
         ('model', model_case, 20, 400, 'm')]
