"""Helpers shared by the checks."""
import contextlib
import io
import warnings

import numpy as np

from vlib import gen

DLF = 'key_201_2009'
STD = {'htarg': {'dlf': DLF, 'pts_per_dec': 0}}


def warm_dipole(laplace=False):
    import empymod
    f = -1. if laplace else 1.
    empymod.dipole([0, 0, 10.], [[100., 200.], [0., 0.], 20.], [0., 100.],
                   [1., 2., 3.], f, verb=0, xdirect=False)


def warmup(group):
    warm_dipole(group == 'lap')


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def dip(src, rec, m, freqtime, ab, **kw):
    """empymod.dipole, full-dimensional output, silent."""
    import empymod
    kw = {'verb': 0, 'squeeze': False, 'xdirect': False, **STD, **kw}
    return np.asarray(empymod.dipole(src, rec, freqtime=freqtime, ab=ab,
                                     **kw, **m))


def bip(src, rec, m, freqtime, **kw):
    import empymod
    kw = {'verb': 0, 'squeeze': False, 'xdirect': False, **STD, **kw}
    return np.asarray(empymod.bipole(src, rec, freqtime=freqtime, **kw, **m))


def contrast(m, freqs=None):
    """Largest ratio of complex conductivities in the model, any frequency."""
    f = gen.full(m)
    c = np.r_[1/f['res'], 1/(f['res']*f['aniso']**2)]
    worst = c.max()/c.min()
    if freqs is not None:
        for fr in np.ravel(freqs):
            w = 2j*np.pi*abs(fr)*8.8541878128e-12
            q = np.abs(c + w*np.r_[f['epermH'], f['epermV']])
            worst = max(worst, q.max()/q.min())
    return float(worst)


def rtol_for(m, base=1e-8):
    """Rounding error of the layered recursion grows with the contrast."""
    return base + 3e-15*contrast(m)


@contextlib.contextmanager
def nowarn():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def nat_scale(m, freqs, zs, zr, ab, off, laplace=False):
    """Magnitude (nfreq, noff) of the summands of the Hankel DLF: the size
    rounding errors of any correct evaluation are proportional to."""
    import empymod
    from vlib import ref
    if ab in (36, 63):
        return np.zeros((np.size(freqs), np.size(off)))
    fl = getattr(empymod.filters.Hankel(), DLF)
    return ref.dlf_field(gen.full(m), freqs, zs, zr, ab, off,
                         np.zeros(np.size(off)), fl, laplace=laplace)[1]


def time_scale(fun, times, signal, filt='key_81_2009'):
    """Same for the sine/cosine DLF: `fun(freq)` gives (nfreq, n) scales."""
    import empymod
    fl = getattr(empymod.filters.Fourier(), filt)
    w = np.abs(fl.sin) if signal == 0 or signal is None else np.abs(fl.cos)
    w = np.maximum(np.abs(fl.sin), np.abs(fl.cos))
    out = []
    for t in np.ravel(times):
        om = fl.base/t
        f = fun(om/2/np.pi)
        if signal in (-1, 1):
            f = f/om[:, None]
        out.append((w[:, None]*f).sum(0)/t*2/np.pi)
    return np.array(out)


FT = {'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009', 'pts_per_dec': -1}}


def bip_scale(m, freqs, zs, zr, off, msrc=False, mrec=False):
    """Natural scale of a bipole-pair field: sum over the nine components."""
    return sum(nat_scale(m, freqs, zs, zr, 10*i+j+30*bool(mrec)+3*bool(msrc),
                         off) for i in (1, 2, 3) for j in (1, 2, 3))


def pairs_scale(m, freqs, src, rec, msrc=False, mrec=False):
    """(nfreq, nrec, nsrc) scales; src/rec lists of centre points (x, y, z)."""
    out = np.zeros((np.size(freqs), len(rec), len(src)))
    for j, s in enumerate(src):
        for i, r in enumerate(rec):
            off = max(np.hypot(r[0]-s[0], r[1]-s[1]), 1e-3)
            out[:, i, j] = bip_scale(m, freqs, s[2], r[2], off, msrc,
                                     mrec)[:, 0]
    return out


def dipoles5(pts):
    """List of (x, y, z, azm, dip) to the input form of bipole."""
    return [np.array(c) for c in zip(*pts)]


@contextlib.contextmanager
def fine_coords(val=1e-9):
    """Quadrature points of finite bipoles are rounded to the minimum offset
    (documented; 1 mm by default): use a finer one for sharp comparisons."""
    import empymod
    old = empymod.get_minimum()
    empymod.set_minimum(min_off=val)
    try:
        yield
    finally:
        empymod.set_minimum(**old)


@contextlib.contextmanager
def quad_log():
    """Outcome (not converged) of every call to QUADPACK."""
    import scipy.integrate
    real = scipy.integrate.quad
    log = []

    def spy(*a, **k):
        out = real(*a, **k)
        log.append(len(out) > 3)
        return out
    scipy.integrate.quad = spy
    try:
        yield log
    finally:
        scipy.integrate.quad = real
