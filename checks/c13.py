"""C13: calls have no memory, leave inputs alone, return own arrays."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from vlib import gen
from vlib.run import CaseTimeout
from vlib.util import captured, warm_dipole

RULE = ('random arguments for all public routines; snapshots of all arguments '
        'before and after; results alone in a fresh child process against '
        'results within random histories of succeeding and failing calls; '
        'results kept, overwritten and compared later; distinct by routine '
        'and its options, and by history')
REQUIRED = {'calls': 1500, 'inputs': 1000, 'alone': 200, 'history': 700,
            'failures': 60, 'kept': 400}
ASSUMPTIONS = ['numerical minima are changed only in C29']
FILT = {'dlf': 'key_101_2009', 'pts_per_dec': 0}


def warmup(group):
    import empymod
    from empymod.scripts import tmtemod
    warm_dipole()
    empymod.dipole([0, 0, 10.], [[100., 200.], [0., 0.], 20.], [0., 100.],
                   [1., 2., 3.], 1., verb=0, xdirect=None)
    tmtemod.dipole([0, 0, 10.], [100., 0, 20.], [0., 100.], [1., 2., 3.], 1.,
                   verb=0)


# ---------------------------------------------------------------- snapshots
def snap(x, seen=()):
    """Nested, comparable description of a value; objects by their content."""
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, x.tobytes(), x.flags.writeable)
    if isinstance(x, (np.generic,)):
        return ('num', x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, seen) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, snap(v, seen)) for k, v in x.items()))
    if callable(x) or isinstance(x, (str, bytes, bool, int, float, complex,
                                     type(None))):
        return repr(x)
    if id(x) in seen:
        return 'again'
    if hasattr(x, '__dict__'):
        return (type(x).__name__,
                tuple((k, snap(v, seen+(id(x),)))
                      for k, v in sorted(vars(x).items())))
    return repr(x)


def pure(x):
    """Plain content of a result (to be pickled)."""
    if isinstance(x, np.ndarray):
        return np.array(x).view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [pure(v) for v in x]
    if isinstance(x, dict):
        return {k: pure(v) for k, v in x.items()}
    if callable(x):
        return 'callable'
    if hasattr(x, '__dict__') and not isinstance(x, np.generic):
        return {k: pure(v) for k, v in vars(x).items()}
    return x


def same(a, b):
    """Equal up to rounding, structure and non-finite values included."""
    if isinstance(a, np.ndarray) or isinstance(a, np.generic):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in 'fc':
            return bool(np.all(a == b))
        if np.array_equal(a, b, equal_nan=True):
            return True
        ok = np.isfinite(a)
        if not np.array_equal(ok, np.isfinite(b)):
            return False
        d = np.abs(a[ok]-b[ok])
        return bool(np.all(d <= 1e-12*np.abs(a[ok]).max(initial=0)))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a:
        return b != b
    return type(a) is type(b) and a == b


def arrays(x, out=None):
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out)
    elif hasattr(x, '__dict__') and not callable(x):
        arrays(vars(x), out)
    return out


# ---------------------------------------------------------------- the calls
def as_given(rng, x):
    """List, tuple or array, as a user may provide it."""
    k = rng.integers(3)
    return [list, tuple, np.array][k](x)


def mod(rng, **kw):
    m = gen.model(rng, nl=int(rng.integers(1, 5)), **kw)
    # Reversed input makes no contiguous arrays: other compilation.
    return {k: as_given(rng, v) for k, v in m.items()}


def pts(rng, m, n):
    x, y = gen.offsets(rng, n)
    return [as_given(rng, x), as_given(rng, y),
            gen.zpoint(rng, list(m['depth']))]


def ht_arg(rng):
    import empymod
    k = int(rng.choice(5, p=[.4, .2, .25, .1, .05]))
    if k == 0:
        return {'ht': 'dlf', 'htarg': dict(FILT)}
    if k == 1:
        return {'ht': 'dlf', 'htarg': {
            'dlf': empymod.filters.Hankel().kong_61_2007b, 'pts_per_dec': 0}}
    if k == 2:
        return {'ht': 'dlf', 'htarg': {'dlf': 'key_51_2012',
                                       'pts_per_dec': -1}}
    if k == 3:
        return {'ht': 'qwe', 'htarg': {'rtol': 1e-6, 'maxint': 30,
                                       'pts_per_dec': 20}}
    return {'ht': 'quad', 'htarg': {'rtol': 1e-5, 'limit': 100, 'a': 1e-6,
                                    'b': .3, 'pts_per_dec': 20}}


def ft_arg(rng):
    k = int(rng.integers(5))
    return [{'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009', 'pts_per_dec': -1}},
            {'ft': 'dlf', 'ftarg': {'dlf': 'key_81_2009',
                                    'pts_per_dec': 10}},
            {'ft': 'qwe', 'ftarg': {'maxint': 30, 'pts_per_dec': 10,
                                    'nquad': 11}},
            {'ft': 'fftlog', 'ftarg': {'pts_per_dec': 6,
                                       'add_dec': np.array([-1, 1])}},
            {'ft': 'fft', 'ftarg': {'nfreq': 64, 'dfreq': .02,
                                    'pts_per_dec': 10}}][k]


def ftime(rng):
    if rng.random() < .5:
        return {'freqtime': as_given(rng, gen.lu(rng, .01, 100,
                                                 int(rng.integers(1, 4))))}
    out = {'freqtime': as_given(rng, gen.lu(rng, .01, 5, 2)),
           'signal': int(rng.choice([0, 0, 1, -1])), **ft_arg(rng)}
    if rng.random() < .3:
        out['signal'] = {'nodes': as_given(rng, [-1., 0, .5, 2]),
                         'amplitudes': as_given(rng, [0., 1, 1, 0]),
                         'signal': int(rng.choice([0, 1]))}
        out.update(ft='dlf', ftarg={'dlf': 'key_81_2009', 'pts_per_dec': -1})
    return out


def cheap(k):
    """QWE and QUAD only for a few frequencies."""
    if k.get('signal') is not None or k.get('srcpts', 1)*k.get(
            'recpts', 1) > 1:
        k.update(ht='dlf', htarg=dict(FILT))
    return k


def c_dipole(rng):
    import empymod
    m = mod(rng)
    return empymod.dipole, (), cheap(dict(
        src=pts(rng, m, int(rng.integers(1, 3))),
        rec=pts(rng, m, int(rng.integers(1, 3))), **m, **ftime(rng),
        **ht_arg(rng), ab=int(rng.choice(gen.ABS)),
        xdirect=bool(rng.integers(2)), loop=[None, 'off', 'freq'][
            int(rng.integers(3))], squeeze=bool(rng.integers(2)),
        verb=int(rng.integers(5))))


def c_hook(rng):
    import empymod
    f, a, k = c_dipole(rng)

    def eta(inp, p):
        h = p['etaH'].copy()
        h *= 1 + 1j*np.asarray(inp['extra'])
        return h, p['etaV'].copy()
    n = len(k['res'])
    k['res'] = {'res': k['res'], 'extra': as_given(rng, rng.uniform(0, .1, n)),
                'func_eta': eta}
    return f, a, k


def c_bipole(rng):
    import empymod
    m = mod(rng)
    end = [[*rng.uniform(-50, 50, 4), *(gen.zpoint(rng, list(m['depth']))
                                        for _ in range(2))] for _ in range(2)]
    dp = [*pts(rng, m, 2), as_given(rng, rng.uniform(0, 90, 2)), 20.]
    src = end[0] if rng.random() < .5 else dp
    rec = [e+500. if i < 2 else e for i, e in enumerate(end[1])]
    rec = rec if rng.random() < .3 else dp
    if rng.random() < .5:
        src = [np.atleast_1d(s) for s in src]
    return empymod.bipole, (), cheap(dict(
        src=src, rec=rec, **m, **ftime(rng), **ht_arg(rng),
        msrc=bool(rng.integers(2)), mrec=[True, False, 'b', 'j'][
            int(rng.integers(4))], srcpts=int(rng.integers(1, 5)),
        recpts=int(rng.integers(1, 4)), strength=float(rng.choice([0, 2.])),
        xdirect=bool(rng.integers(2)), verb=int(rng.integers(5))))


def c_loop(rng):
    import empymod
    m = mod(rng)
    return empymod.loop, (), cheap(dict(
        src=[*pts(rng, m, 2), 0., as_given(rng, [90., 20.])],
        rec=[*pts(rng, m, 2), as_given(rng, [0., 40.]), 90.], **m,
        **ftime(rng), **ht_arg(rng), verb=int(rng.integers(3)),
        mrec=[True, False, 'loop'][int(rng.integers(3))],
        strength=float(rng.choice([0, 3.]))))


def c_analytical(rng):
    import empymod
    sol = str(rng.choice(['fs', 'dfs', 'dhs', 'dsplit', 'dtetm']))
    k = dict(src=[0., 0, 10.], rec=[as_given(rng, [100., 200.]),
                                    as_given(rng, [20., 30.]), 20.],
             res=[3.] if rng.random() < .5 else 3., solution=sol,
             ab=int(rng.choice(gen.EE if sol[1] != 'f' and sol != 'fs'
                               else gen.ABS)),
             aniso=as_given(rng, [1.3]))
    if sol != 'fs' and rng.random() < .5:
        if sol == 'dfs':
            k['ab'] = int(rng.choice(gen.EE))
        k.update(freqtime=as_given(rng, [.1, 1.]),
                 signal=int(rng.choice([0, 1, -1])))
    elif sol == 'dfs':
        k.update(ab=11, freqtime=as_given(rng, [.1, 1.]))
    else:
        k.update(freqtime=as_given(rng, [.1, 1.]))
    if sol == 'fs':
        k.update(epermH=as_given(rng, [3.]), mpermV=as_given(rng, [2.]))
    return empymod.analytical, (), k


def c_gpr(rng):
    import empymod
    return empymod.gpr, (), dict(
        src=[0, 0, .2], rec=[as_given(rng, [1., 2.]), as_given(rng, [0, 0]),
                             .1], depth=[0., 1.],
        res=as_given(rng, [1e8, 200., 50]), freqtime=as_given(
            rng, [2e-8, 4e-8]), cf=1e8, gain=2.,
        epermH=as_given(rng, [1., 9, 5]), ht='dlf', htarg=dict(FILT),
        ft='fft', ftarg={'nfreq': 64, 'dfreq': 5e6}, verb=1)


def c_dipole_k(rng):
    import empymod
    m = mod(rng)
    return empymod.dipole_k, (), dict(
        src=pts(rng, m, 1), rec=pts(rng, m, 2), **m,
        freq=as_given(rng, [1., 2.]), wavenumber=gen.lu(rng, 1e-4, 1, 5),
        ab=int(rng.choice(gen.ABS)), verb=0)


def c_ipq(rng):
    import empymod
    m = mod(rng)
    return empymod.ip_and_q, (), dict(
        src=pts(rng, m, 1), rec=pts(rng, m, 2), **m, freqtime=[10., 100.],
        ab=int(rng.choice([44, 45, 66, 46, 64])), verb=0, scale=1e6,
        htarg=dict(FILT), ht='dlf')


def c_tmtemod(rng):
    from empymod.scripts import tmtemod
    d = as_given(rng, [0., 100., 300.])
    return tmtemod.dipole, (), dict(
        src=[0, 0, 150.], rec=[as_given(rng, [300., 400.]),
                               as_given(rng, [10., 20]), 200.], depth=d,
        res=as_given(rng, [1., 20, 3, 5]), freqtime=1.,
        aniso=as_given(rng, [1., 2, 1, 1]), verb=int(rng.integers(3)))


def inner(rng):
    """Checked input of the low level routines."""
    from empymod import utils
    m = gen.model(rng, nl=3)
    v = utils.check_model(m['depth'], m['res'], m.get('aniso'),
                          m.get('epermH'), m.get('epermV'), m.get('mpermH'),
                          m.get('mpermV'), True, 0)
    f, eH, eV, zH, zV = utils.check_frequency([1., 10.], *v[1:-1], 0)
    ab = int(rng.choice(gen.ABS_NZ))
    ab, ms, mr = utils.check_ab(ab, 0)
    depth = v[0]
    zs, zr = (np.array(gen.zpoint(rng, m['depth'])) for _ in range(2))
    ls, lr = (int(np.sum(depth[1:] < z)) for z in (zs, zr))
    off = np.array([100., 500.])
    return depth, eH, eV, zH, zV, f, ab, ms, mr, zs, zr, ls, lr, off


def c_hankel(rng):
    from empymod import transform, utils
    d, eH, eV, zH, zV, f, ab, ms, mr, zs, zr, ls, lr, off = inner(rng)
    h = ht_arg(rng)
    ht, ha = utils.check_hankel(h['ht'], h['htarg'], 0)
    ang = np.array([.3, .9])
    e = slice(0, 1)
    return getattr(transform, f'hankel_{ht}'), (
        zs, zr, ls, lr, off, ang, d, ab, eH[e], eV[e], zH[e], zV[e], False,
        ha, ms, mr), {}


def c_wavenumber(rng):
    from empymod import kernel
    d, eH, eV, zH, zV, f, ab, ms, mr, zs, zr, ls, lr, off = inner(rng)
    lam = gen.lu(rng, 1e-4, 1, (2, 7))
    fu = kernel.wavenumber
    if rng.random() < .4:
        fu = kernel.greenfct
    return fu, (zs, zr, ls, lr, d, eH, eV, zH, zV, lam, ab, False, ms, mr), {}


def c_fem(rng):
    from empymod import model, utils
    d, eH, eV, zH, zV, f, ab, ms, mr, zs, zr, ls, lr, off = inner(rng)
    ht, ha = utils.check_hankel('dlf', dict(FILT), 0)
    return model.fem, (ab, off, np.array([.2, .4]), zs, zr, ls, lr, d, f, eH,
                       eV, zH, zV, False, False, ht, ha, ms, mr,
                       bool(rng.integers(2)), False), {}


def c_full(rng):
    from empymod import kernel
    d, eH, eV, zH, zV, f, ab, ms, mr, zs, zr, ls, lr, off = inner(rng)
    return kernel.fullspace, (off, np.array([.3, 2.]), zs, zr, eH[:, ls],
                              eV[:, ls], zH[:, ls], zV[:, ls], ab, ms,
                              mr), {}


def c_half(rng):
    from empymod import kernel
    eH = np.array([[.3]])
    s = int(rng.choice([-1, 0, 1]))
    return kernel.halfspace, (np.array([200., 300.]), np.array([.2, .4]), 5.,
                              10., eH, eH*2, np.array([.1, 1.])[:, None],
                              int(rng.choice(gen.EE)), s), {
                                  'solution': str(rng.choice(
                                      ['dhs', 'dsplit', 'dtetm']))}


def c_fourier(rng):
    """Time-domain transforms with a spectrum."""
    from empymod import model, utils, transform
    s = int(rng.choice([-1, 0, 1]))
    k = ft_arg(rng)
    t, f, ft, fa, _ = utils.check_time([.1, .5], s, k['ft'], k['ftarg'], 0,
                                       new=True)
    F = 1/(1+2j*np.pi*f.ravel())
    if rng.random() < .5:
        return getattr(transform, f'fourier_{ft}'), (F, t, f, fa), {}
    return model.tem, (F[:, None]*np.ones(2), np.ones(2), f, t, s, ft,
                       fa), {}


def c_dlf(rng):
    from empymod import transform, filters
    fl = filters.Hankel().key_51_2012
    off = np.array([1., 3., 2.])
    ppd = int(rng.choice([0, -1, 10]))
    lam, _ = transform.get_dlf_points(fl, off, ppd)
    lam = np.atleast_2d(lam)
    PJ = tuple((lam*np.exp(-lam**2)+0j)[None] for _ in range(3))
    if rng.random() < .5:
        return transform.get_dlf_points, (fl, off, ppd), {}
    if ppd != 0:
        PJ = tuple(p[0] for p in PJ)
    if ppd == 0:
        PJ = tuple(p for p in PJ)
    return transform.dlf, (PJ, lam, off, fl, ppd), dict(
        kind=None, ang_fact=np.array([.3, .2, .1]), ab=11)


def c_qwe(rng):
    from empymod import transform
    x = np.r_[1e-20, np.arange(1, 21)*np.pi][None, :]*np.array([[1.], [2]])
    e = np.exp(-x[:, :-1])*(-1.)**np.arange(20)
    return transform.qwe, (1e-6, 1e-20, 20, e, x), {}


def c_quad(rng):
    from empymod import transform
    la = np.log(np.logspace(-4, 1, 50))
    sp = transform.iuSpline(la, np.exp(-np.exp(la))*np.exp(la))
    return transform.quad, (sp, sp, None, None, None, None, 11, 3., .4,
                            {'a': 1e-4, 'b': 5., 'epsabs': 1e-20,
                             'epsrel': 1e-5, 'limit': 50}), {}


def c_check(rng):
    """The checking routines, with all kinds of containers."""
    from empymod import utils
    m = mod(rng)
    k = int(rng.integers(9))
    if k == 0:
        return utils.check_model, (
            m['depth'], m['res'], m.get('aniso'), m.get('epermH'),
            m.get('epermV'), m.get('mpermH'), m.get('mpermV'), True, 0), {}
    if k == 1:
        v = utils.check_model(m['depth'], m['res'], *[None]*5, True, 0)
        return utils.check_frequency, (as_given(rng, [0., 1.]), *v[1:-1],
                                       0), {}
    if k == 2:
        h = ht_arg(rng)
        return utils.check_hankel, (h['ht'], h['htarg'], 0), {}
    if k == 3:
        f = ft_arg(rng)
        return utils.check_time, (as_given(rng, [0, 1.]), 0, f['ft'],
                                  f['ftarg'], 0), {'new': True}
    if k == 4:
        return utils.check_bipole, ([as_given(rng, [0., 1]), 2., 3,
                                     as_given(rng, [10., 20]), 5.], 'src',
                                    True, 0), {}
    if k == 5:
        return utils.check_dipole, (pts(rng, m, 2), 'rec', 0), {}
    if k == 6:
        return utils.check_waveform, (
            np.array([0., 1, 2]), as_given(rng, [-2., 0, 1]),
            as_given(rng, [0., 1, 0]), 0), {'signal': 1}
    if k == 7:
        return utils.get_off_ang, (
            [np.zeros(2), np.zeros(2), 1.], [np.array([0., 5, 2]),
                                             np.array([0., 2, 1]), 2.],
            2, 3, 0), {}
    return utils.get_layer_nr, ([0., 0., np.array([1., -5.])],
                                np.array([-np.inf, 0, 2.])), {}


def c_file(rng):
    """Files: written, read back, removed."""
    from empymod import io
    d = rng.normal(size=(2, 3, 2)) + 1j*rng.normal(size=(2, 3, 2))
    if rng.random() < .5:
        d = d.real.copy()
    e = str(rng.choice(['txt', 'json']))
    inp = {**mod(rng), 'src': [0, 0, np.float64(3.)], 'x': np.arange(3)}
    if rng.random() < .5:
        return _data_file, (d, e), {}
    assert io
    return _input_file, (inp,), {}


def _data_file(d, e):
    from empymod import io
    tmp = tempfile.mkdtemp(prefix='vempy')
    try:
        io.save_data(f'{tmp}/a.{e}', d, info='x')
        return io.load_data(f'{tmp}/a.{e}')
    finally:
        shutil.rmtree(tmp)


def _input_file(inp):
    from empymod import io
    tmp = tempfile.mkdtemp(prefix='vempy')
    try:
        io.save_input(f'{tmp}/a.json', inp)
        return io.load_input(f'{tmp}/a.json')
    finally:
        shutil.rmtree(tmp)


def c_filter(rng):
    """A filter by name; written and read."""
    from empymod import filters
    if rng.random() < .5:
        cls = [filters.Hankel, filters.Fourier][int(rng.integers(2))]
        return _get_filter, (cls, str(rng.choice(cls().available))), {}
    return _filter_file, (filters.Hankel().key_51_2012,
                          str(rng.choice(['a.b', 'x', 'j'])),
                          bool(rng.integers(2))), {}


def _get_filter(cls, name):
    return getattr(cls(), name)


def _filter_file(fl, name, comp):
    from empymod import filters
    tmp = tempfile.mkdtemp(prefix='vempy')
    try:
        fl = copy.copy(fl)
        fl.savename = name
        fl.tofile(tmp)
        g = filters.DigitalFilter('a', name, filter_coeff=['j0', 'j1'])
        g.fromfile(tmp)
        return g
    finally:
        shutil.rmtree(tmp)


def c_design(rng):
    from empymod.scripts import fdesign
    p = [fdesign.j0_1(), fdesign.j1_1(2.)][:int(rng.integers(1, 3))]
    return fdesign.design, (), dict(
        n=11, spacing=as_given(rng, (.2, .4, 3)), shift=as_given(
            rng, (-1, 0, 2)), fI=p if rng.random() < .7 else p[0],
        fC=[False, [fdesign.j0_3(3.)], p[0], fdesign.j0_2()][
            int(rng.integers(4))], r=np.logspace(0, 2, 30),
        full_output=True, finish=None, verb=0, plot=0)


def c_view(rng):
    from empymod import utils
    d = rng.normal(size=5) + 1j*rng.normal(size=5)
    return _views, (d, utils.EMArray(d)), {}


def _views(d, e):
    from empymod import utils
    u = utils.EMArray(d)
    return [u.amp(), u.pha(deg=True, unwrap=True), e.pha(lag=False),
            (e*2).amp(), e[1:3].pha(deg=True)]


CALLS = [c_dipole, c_dipole, c_dipole, c_hook, c_bipole, c_bipole, c_bipole,
         c_loop, c_analytical, c_gpr, c_dipole_k, c_ipq, c_tmtemod, c_hankel,
         c_wavenumber, c_fem, c_full, c_half, c_fourier, c_fourier, c_dlf,
         c_qwe, c_quad, c_check, c_check, c_file, c_filter, c_design, c_view]


# ----------------------------------------------------------------- failures
def spoil(rng, f, a, k):
    """Make a modelling call fail, early or in the middle."""
    k = dict(k)
    how = int(rng.integers(8))

    def boom(*args):
        raise RuntimeError('from the hook')
    if how == 0:
        k['ab'] = 77
    elif how == 1:
        k['res'] = [1., 2.]*7
    elif how == 2:
        k['freqtime'] = 'x'
    elif how == 3:
        k['unknown'] = 3
    elif how == 4:
        k['res'] = {'res': k['res'] if not isinstance(k['res'], dict)
                    else k['res']['res'], 'func_eta': boom}
    elif how == 5:
        k['src'] = [1, 2]
    elif how == 6:
        k.update(ht='dlf', htarg={'dlf': 'no_filter'})
    else:
        # In the middle of the calculation.
        k['res'] = {'res': k['res'] if not isinstance(k['res'], dict)
                    else k['res']['res'], 'func_zeta': lambda i, p: (
                        p['zetaH'][:, :0], p['zetaV'])}
        k['xdirect'] = False
        k['loop'] = 'off'
    return how, k


def run(f, a, k):
    """Result or error of a call, whatever it is."""
    with captured(), np.errstate(all='ignore'):
        try:
            return 'ok', f(*a, **k)
        except CaseTimeout:
            raise
        except Exception as e:
            return 'err', f'{type(e).__name__}: {e}'


def child(fun):
    """Value of fun() of a fresh child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as h:
                pickle.dump(fun(), h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def history_case(t):
    rng = t.rng
    n = 5
    calls = []
    for _ in range(n):
        make = CALLS[int(rng.integers(len(CALLS)))]
        calls.append((make.__name__, *make(rng)))
    t.case(history=[(c[0], c[2], c[3]) for c in calls])

    # Each one alone, without anything before it.
    alone = []
    for name, f, a, k in calls:
        def one():
            s, v = run(f, a, k)
            return s, pure(v) if s == 'ok' else v
        alone.append(child(one))
        t.count('alone')

    kept = []
    order = list(rng.integers(0, n, 2*n)) + list(range(n))
    for step, i in enumerate(order):
        name, f, a, k = calls[i]
        if rng.random() < .3 and name in ('c_dipole', 'c_bipole', 'c_loop',
                                          'c_hook', 'c_ipq'):
            how, bad = spoil(rng, f, a, k)
            before = snap((a, bad))
            s, v = run(f, a, bad)
            t.count('failures', s == 'err')
            t.count('calls')
            t.check(snap((a, bad)) == before, f'input-changed:{name}',
                    f'failing call ({how}), {v}')
            t.sig('fail', name, how, s)
        before = snap((a, k))
        s, v = run(f, a, k)
        t.count('calls')
        t.count('inputs')
        after = snap((a, k))
        if after != before:
            where = [kk for kk in k if snap(k[kk]) != dict(
                before[1][1][1])[kk]] or [i for i, x in enumerate(a) if snap(
                    x) != before[1][0][1][i]]
            t.fail(f'input-changed:{name}', f'{f.__name__}: {where}')
        want = alone[i]
        t.check(s == want[0] and same(pure(v) if s == 'ok' else v, want[1]),
                f'history:{name}',
                f'{f.__name__} step {step}, differs from the call alone: '
                f'{str(want)[:300]} {str((s, pure(v)))[:300]}')
        t.count('history')
        if s == 'ok':
            outs = [x for x in arrays(v) if x.size]
            ins = arrays([a, k])
            if name not in ('c_filter', 'c_view', 'c_check', 'c_fourier',
                            'c_dlf'):
                t.check(not any(np.shares_memory(x, y) for x in outs
                                for y in ins), f'shared:{name}',
                        f'{f.__name__}: result shares memory with its input')
            if rng.random() < .5 and name not in ('c_filter', 'c_check'):
                # Overwriting the result must have no consequences.
                for x in outs:
                    if x.flags.writeable and not any(
                            np.shares_memory(x, y) for y in ins):
                        x[...] = 7 if x.dtype.kind in 'iub' else np.nan
            else:
                kept.append((name, v, snap(v) if name != 'c_filter' else None))
        t.sig(name, f.__name__, s, str(sorted(k)), i)
    for name, v, before in kept:
        t.count('kept')
        if before is not None:
            t.check(snap(v) == before, f'result-changed:{name}',
                    'a returned result changed later')


def input_case(t):
    """Every routine: inputs untouched, called twice, same result."""
    rng = t.rng
    make = CALLS[t.index % len(CALLS)]
    f, a, k = make(rng)
    t.case(name=make.__name__, args=a, kwargs=k)
    keep = copy.deepcopy((a, k)) if make is not c_view else None
    before = snap((a, k))
    s, v = run(f, a, k)
    ok = snap((a, k)) == before
    t.check(ok, f'input-changed:{make.__name__}', f'{f.__name__}')
    t.check(s == 'ok', f'unexpected-error:{make.__name__}',
            f'{f.__name__}: {v}')
    first = copy.deepcopy(pure(v))
    s2, v2 = run(f, a, k)
    t.check(s == s2 and same(first, pure(v2)), f'repeat:{make.__name__}',
            f'{f.__name__}')
    if keep:
        # Another object with the same content.
        s3, v3 = run(f, *keep)
        t.check(s == s3 and same(first, pure(v3)), f'copy:{make.__name__}',
                f'{f.__name__}')
    t.count('calls', 3)
    t.count('inputs')
    t.sig(make.__name__, f.__name__, str(sorted(k)))


CASES = [('history', history_case, 60, 2000),
         ('input', input_case, 29*10, 29*200)]
