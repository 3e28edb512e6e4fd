"""C21: malformed input is rejected; all documented forms are equivalent."""
import copy
import numpy as np

from vlib import gen
from vlib.util import captured, warm_dipole

RULE = ('valid random calls of every routine, and (a) one or two random '
        'malformations of them: an error has to be raised; (b) the same '
        'content in another documented form: same result; distinct by '
        'routine, malformation or form, and layers')
REQUIRED = {'rejected': 700, 'kinds': 700, 'accepted': 350, 'base': 380}
ASSUMPTIONS = ['unknown keys of htarg and ftarg only warn (C22), known '
               'parameters of other routines as well, as documented',
               'None (read as not-a-number), not-a-number and negative physical parameters are outside '
               'the domain']


def warmup(group):
    warm_dipole()


FILT = {'dlf': 'key_101_2009', 'pts_per_dec': 0}


def hargs(rng):
    return dict(ht='dlf', htarg=dict(FILT))


def model(rng, nmin=1):
    m = gen.model(rng, nl=int(rng.integers(nmin, 6)), aniso=True, perm=True,
                  mperm=True)
    return {k: [float(q) for q in v] for k, v in m.items()}


def b_dipole(rng):
    import empymod
    m = model(rng)
    x, y = gen.offsets(rng, 3, 50, 5000)
    k = dict(src=[0., 0., gen.zpoint(rng, m['depth'])],
             rec=[x.tolist(), y.tolist(), gen.zpoint(rng, m['depth'])],
             freqtime=[1., 2.], ab=int(rng.choice(gen.ABS_NZ)), verb=0,
             xdirect=False, **hargs(rng), **m)
    if rng.random() < .3:
        k.update(signal=0, ft='dlf', ftarg={'dlf': 'key_81_2009',
                                            'pts_per_dec': -1})
    return empymod.dipole, k


def b_bipole(rng):
    import empymod
    f, k = b_dipole(rng)
    k.pop('ab')
    z = [gen.zpoint(rng, k['depth']) for _ in range(3)]
    if rng.random() < .5:
        k['rec'] = k['rec'] + [[10., 20., 40.], 30.]
    else:
        k['rec'] = [k['rec'][0], k['rec'][1], z, 25., [1., 2., 3.]]
    if rng.random() < .5:
        k['src'] = [0., 0., z[0], 20., 30.]
    else:
        k['src'] = [-10., 10., 1., 20., z[0], z[1]]
        k['srcpts'] = int(rng.integers(1, 4))
    k['msrc'] = bool(rng.integers(2))
    k['mrec'] = bool(rng.integers(2))
    return empymod.bipole, k


def b_analytical(rng):
    import empymod
    sol = ['fs', 'dfs', 'dhs', 'dsplit', 'dtetm'][rng.integers(5)]
    k = dict(src=[0., 0., 10.], rec=[[100., 200.], [30., 50.], 20.],
             res=float(gen.lu(rng, 1, 100)), freqtime=[1., 2.], solution=sol,
             aniso=1.5, ab=int(rng.choice([11, 12, 22, 33])), verb=0)
    if sol == 'fs':
        k.update(epermH=2., epermV=3., mpermH=1.5, mpermV=1.2,
                 ab=int(rng.choice(gen.ABS_NZ)))
    if sol in ('dhs', 'dsplit', 'dtetm'):
        if rng.random() < .5:
            k['signal'] = int(rng.integers(-1, 2))
    return empymod.analytical, k


def b_gpr(rng):
    import empymod
    m = {'depth': [0.], 'res': [1000., 200.], 'epermH': [1., 5.],
         'epermV': [1., 5.], 'aniso': [1., 1.], 'mpermH': [1., 1.],
         'mpermV': [1., 1.]}
    return empymod.gpr, dict(
        src=[0., 0., 1.], rec=[[1., 2.], [.5, .5], 1.], freqtime=[2e-8, 3e-8],
        cf=1e8, ab=11, verb=0, ft='fft', ftarg={'dfreq': 1e7, 'nfreq': 16},
        **m, **hargs(rng))


def b_dipole_k(rng):
    import empymod
    f, k = b_dipole(rng)
    for q in ('ht', 'htarg', 'ft', 'ftarg', 'signal', 'xdirect'):
        k.pop(q, None)
    k['freq'] = k.pop('freqtime')
    k['rec'] = [k['rec'][0][0], k['rec'][1][0], k['rec'][2]]
    k['wavenumber'] = np.array([.001, .01, .1])
    return empymod.dipole_k, k


def b_ipq(rng):
    import empymod
    f, k = b_dipole(rng)
    for q in ('signal', 'ft', 'ftarg'):
        k.pop(q, None)
    k['ab'] = int(rng.choice([44, 55, 66]))
    return empymod.ip_and_q, k


def b_tmtemod(rng):
    from empymod.scripts import tmtemod
    d = [0., 100., 300.]
    return tmtemod.dipole, dict(
        src=[0., 0., 150.], rec=[[300., 400.], [10., 20.], 200.], depth=d,
        res=[1., 20., 3., 5.], freqtime=[1.], aniso=[1., 2., 1., 1.],
        eperm=[1., 2., 1., 1.], mperm=[1., 1., 2., 1.], verb=0)


BASES = {'dipole': b_dipole, 'bipole': b_bipole, 'analytical': b_analytical,
         'gpr': b_gpr, 'dipole_k': b_dipole_k, 'ip_and_q': b_ipq,
         'tmtemod': b_tmtemod}
NAMES = ['dipole', 'dipole', 'dipole', 'bipole', 'bipole', 'bipole',
         'analytical', 'analytical', 'gpr', 'dipole_k', 'ip_and_q', 'tmtemod']
LAYER = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV', 'eperm',
         'mperm')


def put(x, i, v):
    """x with v as element i (nested)."""
    x = list(x) if isinstance(x, (list, tuple)) else [x]
    x[i % len(x)] = v
    return x


JUNK = ['deep', {'a': 1}, object(), [[1, 2], [3]], [1., 'x'], 1+2j]


# Malformations: function(name, k, rng) -> True if applied.
def m_layer_size(n, k, rng):
    key = [q for q in LAYER if q in k]
    key = key[rng.integers(len(key))]
    v = np.atleast_1d(k[key]).tolist()
    k[key] = v + v[:1] if rng.random() < .5 or len(v) == 1 else v[:-1]
    return True


def m_depth_size(n, k, rng):
    if not k.get('depth'):
        return False
    d = k['depth']
    k['depth'] = d + [d[-1]+10.] if rng.random() < .5 else d[:-1]
    return True


def m_depth_order(n, k, rng):
    if len(k.get('depth', [])) < 3:
        return False
    d = k['depth']
    i = int(rng.integers(1, len(d)-1))
    k['depth'] = d[:i-1] + [d[i], d[i-1]] + d[i+1:]
    return True


def m_junk_layer(n, k, rng):
    key = [q for q in LAYER + ('depth',) if q in k and (
        q != 'depth' or len(k[q]))]
    key = key[rng.integers(len(key))]
    j = JUNK[rng.integers(len(JUNK))]
    k[key] = j if rng.random() < .5 or np.ndim(k[key]) == 0 else put(
        k[key], int(rng.integers(5)), 'x')
    return True


def m_junk_survey(n, k, rng):
    s = ['src', 'rec'][rng.integers(2)]
    if rng.random() < .3:
        k[s] = ['abc', None, 3., {'a': 1}, []][rng.integers(5)]
    else:
        k[s] = put(k[s], int(rng.integers(6)), [
            'x', set(), ['a', 'b'], [[1, 2], [3]], {}][rng.integers(5)])
    return True


def m_survey_length(n, k, rng):
    s = ['src', 'rec'][rng.integers(2)]
    ok = (5, 6) if n == 'bipole' else (3, )
    m = int(rng.integers(0, 9))
    if m in ok:
        return False
    k[s] = (list(k[s])*3)[:m]
    return True


def m_coord_size(n, k, rng):
    """x and y (z) of different, non-unit sizes."""
    s = ['src', 'rec'][rng.integers(2)]
    i = int(rng.integers(2 if n != 'bipole' else len(k[s])))
    base = np.array([11., 22., 33., 44.])
    m = max(np.size(v) for v in k[s])
    new = base[:m+1] if m > 1 else base[:2]
    j = (i+1) % (2 if n != 'bipole' else len(k[s]))
    k[s] = put(put(k[s], i, (new+3).tolist()), j,
               np.arange(1., new.size+2).tolist())
    return True


def m_depths(n, k, rng):
    """Several depths where only one is possible."""
    if n == 'bipole':
        return False
    s = ['src', 'rec'][rng.integers(2)]
    k[s] = put(k[s], 2, [10., 20.])
    return True


def m_freq(n, k, rng):
    key = 'freq' if n == 'dipole_k' else 'freqtime'
    k[key] = ['abc', ['a', 'b'], {'a': 1}, [[1, 2], [3]], object(),
              [1., None, 'z']][rng.integers(6)]
    return True


def m_ab(n, k, rng):
    if 'ab' not in k:
        return False
    k['ab'] = [0, 7, 17, 70, 71, 111, -11, 37, 67, 'xx', None, '', [11, 12],
               1e5, {}][rng.integers(15)]
    return True


def m_signal(n, k, rng):
    if n in ('gpr', 'dipole_k', 'ip_and_q', 'tmtemod'):
        return False
    k['signal'] = [2, -2, .5, 'on', '1', [0], {'nodes': [0, 1]},
                   {'nodes': [0., 1.], 'amplitudes': [0., 1., 2.]},
                   {'nodes': ['a', 'b'], 'amplitudes': [0., 1.]},
                   {'nodes': [0., 1.], 'amplitudes': [0., 1.], 'wrong': 3},
                   ][rng.integers(10)]
    return True


def m_ht(n, k, rng):
    if 'ht' not in k:
        return False
    k['ht'] = ['dht', 'fht', 'hqwe', 'q', '', 'ad', 'quad ', 'dlf2', 'fft',
               None, 3][rng.integers(11)]
    return True


def m_ft(n, k, rng):
    if 'ft' not in k:
        return False
    k['ft'] = ['quad', 'f', '', 'ff', 'log', 'sincos', 'fqwe', None, 3,
               'ffht'][rng.integers(10)]
    return True


def m_filter(n, k, rng):
    key = ['htarg', 'ftarg'][rng.integers(2)]
    if key not in k or 'dlf' not in k[key]:
        key = 'htarg'
    if key not in k or 'dlf' not in k[key]:
        return False

    class Part:
        name = 'part'
        base = np.arange(1., 5)
    k[key] = {**k[key], 'dlf': ['key_201', '', 'nofilter', Part(), 3, None,
                                np.arange(5.)][rng.integers(7)]}
    return True


def m_targ(n, k, rng):
    """Non-numeric or non-scalar arguments of transforms."""
    key = [q for q in ('htarg', 'ftarg') if q in k]
    if not key:
        return False
    key = key[rng.integers(len(key))]
    j = ['abc', [1, 2], {}][rng.integers(3)]
    if 'dlf' in k[key]:
        k[key] = {**k[key], 'pts_per_dec': j}
    elif 'dfreq' in k[key]:
        k[key] = {**k[key], ['dfreq', 'nfreq', 'ntot'][rng.integers(3)]: j}
    if rng.random() < .3 and 'ht' in k:
        par = ['rtol', 'atol', 'nquad', 'maxint', 'pts_per_dec', 'diff_quad'][
            rng.integers(6)]
        k.update(ht='qwe', htarg={par: j})
    elif rng.random() < .3 and 'ht' in k:
        par = ['rtol', 'atol', 'limit', 'a', 'b', 'pts_per_dec'][
            rng.integers(6)]
        k.update(ht='quad', htarg={par: j})
    elif rng.random() < .3 and 'ft' in k:
        ft = ['qwe', 'fftlog', 'fft'][rng.integers(3)]
        par = {'qwe': ['rtol', 'atol', 'nquad', 'maxint', 'pts_per_dec',
                       'diff_quad'],
               'fftlog': ['pts_per_dec', 'q', 'add_dec'],
               'fft': ['dfreq', 'nfreq', 'ntot']}[ft]
        par = par[rng.integers(len(par))]
        if par == 'add_dec':
            j = [[1, 2, 3], 'abc', 1., ['a', 'b']][rng.integers(4)]
        k.update(ft=ft, ftarg={par: j})
    return True


def m_kwarg(n, k, rng):
    nm = ['Freqtime', 'sources', 'frequency', 'hta', 'verbose', 'xdir',
          'sigma', 'mu_r', 'abs', 'receiver', 'epermh', 'Res', 'htargs',
          'unknown'][rng.integers(14)]
    k[nm] = 1
    return True


def m_missing(n, k, rng):
    key = ['src', 'rec', 'res', 'freq' if n == 'dipole_k' else 'freqtime']
    if n not in ('analytical',):
        key.append('depth')
    if n == 'gpr':
        key.append('cf')
    if n == 'dipole_k':
        key.append('wavenumber')
    k.pop(key[rng.integers(len(key))])
    return True


def m_solution(n, k, rng):
    if n != 'analytical':
        return False
    w = int(rng.integers(5))
    if w == 0:
        k['solution'] = ['full', '', 'd', 'hs', 'tetm', None][rng.integers(6)]
    elif w == 1:
        k['solution'], k['ab'] = ['dfs', 'dhs', 'dsplit', 'dtetm'][
            rng.integers(4)], int(rng.choice([14, 41, 44, 66, 26]))
    elif w == 2:
        k['solution'], k['signal'] = 'fs', int(rng.integers(-1, 2))
    elif w == 3:
        k['res'] = [1., 2.]
    else:
        k['aniso'] = [1., 2.]
    return True


def m_point(n, k, rng):
    """A bipole without extent."""
    if n != 'bipole':
        return False
    k['src'] = [1., 1., 2., 2., 3., 3.] if rng.random() < .5 else [
        [1., 2.], [5., 2.], [1., 3.], [1., 3.], 4., 4.]
    return True


def m_ipq(n, k, rng):
    if n != 'ip_and_q':
        return False
    if rng.random() < .5:
        k['ab'] = int(rng.choice([11, 14, 41, 63, 36]))
    else:
        k['signal'] = int(rng.integers(-1, 2))
    return True


def m_hook(n, k, rng):
    """Functions for the conductivity which are none."""
    if n not in ('dipole', 'bipole'):
        return False
    k['res'] = [{'func_eta': lambda i, p: (p['etaH'], p['etaV'])},
                {'res': k['res'][:-1] + [1., 2.], 'x': [1.]},
                {'res': 'abc'}][rng.integers(3)]
    return True


def m_tm(n, k, rng):
    """Source and receiver have to be in the same layer, z down."""
    if n != 'tmtemod':
        return False
    k['rec'] = put(k['rec'], 2, [-50., 50., 400.][rng.integers(3)])
    return True


def m_waveform_freq(n, k, rng):
    """All times before the waveform."""
    if n not in ('dipole', 'bipole'):
        return False
    k.pop('ftarg', None)
    k.pop('ft', None)
    k.update(freqtime=[1.], signal={'nodes': [5., 6., 7.],
                                    'amplitudes': [0., 1., 0.]})
    return True


MUT = [v for q, v in sorted(globals().items()) if q.startswith('m_')]


def malformed_case(t):
    rng = t.rng
    nm = NAMES[t.index % len(NAMES)]
    fun, k = BASES[nm](rng)
    # The valid one.
    with captured(), np.errstate(all='ignore'):
        t.case(name=nm, kw={i: str(v)[:300] for i, v in k.items()})
        out = np.asarray(fun(**copy.deepcopy(k)))
    t.check(out.size > 0, 'valid-empty', nm)
    t.count('base')
    for j in range(4):
        how = []
        b = copy.deepcopy(k)
        for _ in range(1 if rng.random() < .8 else 2):
            for _ in range(50):
                mu = MUT[rng.integers(len(MUT))]
                try:
                    ok = mu.__name__ not in how and mu(nm, b, rng)
                except (KeyError, TypeError, ValueError, AttributeError,
                        IndexError, ZeroDivisionError):
                    ok = False   # Already malformed otherwise
                if ok:
                    how.append(mu.__name__)
                    break
        if not how:
            continue
        t.case(name=nm, how=how, kw={i: str(v)[:300] for i, v in b.items()})
        t.count('kinds')
        t.count('verdicts')
        try:
            with captured(), np.errstate(all='ignore'):
                got = fun(**b)
        except Exception as e:
            if type(e).__name__ in ('CaseTimeout',):
                raise
            t.count('rejected')
            t.sig('malformed', nm, how, type(e).__name__)
            continue
        t.soft('accepted:'+'+'.join(sorted(how)),
               f'{nm} {how} returned {str(got)[:200]}')


# ------------------------------------------------------------------- forms
def f_array(n, k, rng):
    """Lists, tuples, arrays, scalars of any kind."""
    for q in list(k):
        v = k[q]
        if q in ('src', 'rec'):
            v = [form(c, rng) for c in v]
            k[q] = tuple(v) if rng.random() < .5 else v
        elif q in LAYER + ('depth', 'freqtime', 'freq'):
            k[q] = form(v, rng)


def form(v, rng):
    a = np.asarray(v, dtype=float)
    w = int(rng.integers(8))
    if a.ndim == 0:
        return [float(a), a, np.float64(a), [float(a)], (float(a),),
                a[None], float(a), a.copy()][w]
    if w == 0:
        return a.tolist()
    if w == 1:
        return tuple(a.tolist())
    if w == 2:
        a = a.copy()
        a.flags.writeable = False
        return a
    if w == 3:
        return np.repeat(a, 2)[::2]
    if w == 4:
        return a[::-1].copy()[::-1]
    if w == 5:
        return [np.float64(q) for q in a]
    if w == 6 and a.size == 1:
        return float(a[0])
    if w == 7 and np.all(a == np.round(a)) and np.all(np.abs(a) < 1e9):
        return [int(q) for q in a]
    return a


def f_case(n, k, rng):
    for q in ('ht', 'ft'):
        if q in k:
            k[q] = [k[q].upper(), k[q].capitalize()][rng.integers(2)]


def f_filter(n, k, rng):
    import empymod
    for q, cl in (('htarg', 'Hankel'), ('ftarg', 'Fourier')):
        if q in k and isinstance(k[q].get('dlf'), str):
            k[q] = {**k[q], 'dlf': getattr(getattr(empymod.filters, cl)(),
                                           k[q]['dlf'])}


def f_default(n, k, rng):
    """Explicit defaults."""
    if n in ('dipole', 'bipole'):
        k.setdefault('loop', None)
        k.setdefault('signal', None)
        k.setdefault('squeeze', True)
        k['htarg'] = {**k['htarg'], 'pts_per_dec': [0, 0., np.int64(0)][
            rng.integers(3)]}
    if n == 'bipole':
        k.setdefault('srcpts', 1)
        k.setdefault('recpts', 1)
        k.setdefault('strength', 0)


def f_ab(n, k, rng):
    if 'ab' in k:
        k['ab'] = [str, float, np.int64, np.float64][rng.integers(4)](k['ab'])


def f_bool(n, k, rng):
    for q in ('msrc', 'mrec', 'xdirect'):
        if q in k and n != 'analytical':
            k[q] = [int, np.bool_][rng.integers(2)](k[q])


def f_inf(n, k, rng):
    """-inf as first, or +inf as last interface."""
    if 'depth' in k and n not in ('tmtemod', ):
        d = list(k['depth'])
        k['depth'] = [-np.inf] + d
        if rng.random() < .3 and len(d):
            k['depth'] += [np.inf]


def f_reverse(n, k, rng):
    """Interfaces from bottom to top (of the same coordinate system)."""
    # (The first layer has a meaning in ip_and_q.)
    if len(k.get('depth', [])) > 1 and n not in ('tmtemod', 'ip_and_q'):
        k['depth'] = k['depth'][::-1]
        for q in LAYER:
            if q in k:
                k[q] = k[q][::-1]


def f_expand(n, k, rng):
    """Coordinates repeated instead of given once."""
    for s in ('src', 'rec'):
        m = max(np.size(v) for v in k[s])
        if m > 1:
            i = int(rng.integers(2))
            if np.size(k[s][i]) == 1:
                k[s] = put(k[s], i, [float(np.ravel(k[s][i])[0])]*m)


def f_kind(n, k, rng):
    if 'ftarg' in k and 'dlf' in k['ftarg'] and k.get('signal') == 0:
        k['ftarg'] = {**k['ftarg'], 'kind': 'sin'}


FORMS = [v for q, v in sorted(globals().items()) if q.startswith('f_')]


def forms_case(t):
    rng = t.rng
    nm = NAMES[t.index % len(NAMES)]
    fun, k = BASES[nm](rng)
    if rng.random() < .3:
        # Integers allow more forms.
        for q in ('freqtime', 'freq'):
            if q in k and nm not in ('gpr', 'tmtemod'):
                k[q] = [1., 3.]
    t.case(name=nm, kw={i: str(v)[:300] for i, v in k.items()})
    with captured(), np.errstate(all='ignore'):
        want = np.asarray(fun(**copy.deepcopy(k)))
    t.count('base')
    for j in range(3):
        b = copy.deepcopy(k)
        how = [FORMS[i] for i in rng.choice(
            len(FORMS), int(rng.integers(1, 5)), replace=False)]
        how.sort(key=lambda q: q is f_array)
        if f_inf in how and f_reverse in how:
            how.remove(f_inf)
        for q in how:
            q(nm, b, rng)
        names = [q.__name__ for q in how]
        t.case(name=nm, how=names, kw={i: repr(v)[:300] for i, v in
                                       b.items()})
        with captured(), np.errstate(all='ignore'):
            got = np.asarray(fun(**b))
        t.close(got, want, 'form', rtol=1e-9,
                scale=np.abs(want).max(initial=0), msg=f'{nm} {names}')
        t.count('accepted')
        t.sig('form', nm, sorted(names))


CASES = [('malformed', malformed_case, 240, 5000),
         ('forms', forms_case, 156, 3000)]
