"""C16: saved data and inputs load back unchanged."""
import copy
import json
import os
import re

import numpy as np

from checks import c13
from vlib.util import captured, warm_dipole

RULE = ('random arrays (shape, real/complex, magnitudes, non-finite values) '
        'and modelling inputs, written, inspected with an own reader and read '
        'back; several files in random order; unusable requests with the '
        'directory monitored; distinct by format, kind of values, shape, '
        'settings')
REQUIRED = {'data': 400, 'values': 3000, 'inputs': 60, 'refused': 100,
            'meta': 400, 'formatted': 80}
ASSUMPTIONS = ['the payload of NaN values is not compared']
NAMES = ['out', 'a b', 'x.y', 'data', 'ünï', 'UP', 'a#b', 'a,b', '(1,2)',
         'n:1', 'v1.json', 'v1.txt', '-x', "it's"]
INFOS = [None, '', 'simple', 'with: colon', '# hash', 'data', 'shape: (1,)',
         'ünïcode µ', 'a, b (c)', '{"a": 1}', 'Generated with <x> "y"', '%d']
BAD = ['out', 'out.dat', 'out.JSON', 'out.npz', 'out.json.gz', 'outjson',
       'txt', 'out.json ', 'out.TXT', '.hidden', 'out.tx', 'out.text']


def warmup(group):
    if group == 'inp':
        c13.warmup(group)


def folder(t):
    d = os.path.join(os.environ['VWORK'], f'{t.kind}-{t.index}-{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    return d


def values(rng, shape, mode):
    n = int(np.prod(shape))
    sgn = rng.choice([-1, 1], n)
    if mode == 'plain':
        x = rng.standard_normal(n)
    elif mode == 'field':
        x = sgn*10**rng.uniform(-25, -8, n)
    elif mode == 'wide':
        x = sgn*10**rng.uniform(-307, 307, n)
    elif mode == 'tiny':
        x = sgn*10**rng.uniform(-323, -300, n)
    elif mode == 'round':
        x = sgn*rng.integers(0, 1000, n).astype(float)
    else:
        x = sgn*rng.choice([0., 1, 1e-12, np.pi, np.inf, np.nan, 1e300,
                            5e-324, np.finfo(float).max, .1, 1/3], n)
    return x.reshape(shape)


def identical(a, b):
    """Bitwise, besides NaN payloads; signs of zeros count."""
    def parts(x):
        return (x.real, x.imag) if np.iscomplexobj(x) else (x,)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    for x, y in zip(parts(a), parts(b)):
        n = np.isnan(x)
        if not np.array_equal(n, np.isnan(y)):
            return False
        if not np.array_equal(x[~n], y[~n]) or not np.array_equal(
                np.signbit(x[~n]), np.signbit(y[~n])):
            return False
    return True


def make(t):
    rng = t.rng
    shape = tuple(int(n) for n in rng.choice([1, 1, 2, 3, 5, 8], 3))
    mode = str(rng.choice(['plain', 'field', 'wide', 'tiny', 'round',
                           'special']))
    x = values(rng, shape, mode)
    if rng.random() < .6:
        c = np.empty(shape, complex)
        c.real, c.imag = x, values(rng, shape, mode)
        x = c
    if rng.random() < .3:        # Other memory layouts
        x = np.asfortranarray(x) if rng.random() < .5 else x[:, ::-1, :]
    if rng.random() < .4:
        from empymod import utils
        x = utils.EMArray(x)
    return x, mode


def own_reader(fname):
    """Meta information, read independently of empymod."""
    txt = open(fname, encoding='utf-8').read()
    if fname.endswith('.json'):
        d = json.loads(txt)
        return {k: d.get(k) for k in ('date', 'version', 'shape', 'dtype',
                                      'info')}
    meta = {}
    for line in txt.split('\n'):
        mt = re.match(r'# (date|version|shape|dtype|info):(.*)$', line)
        if mt and mt.group(1) not in meta:
            meta[mt.group(1)] = mt.group(2)[1:]
    return meta


def check_meta(t, fname, x, info):
    from empymod import utils
    m = own_reader(fname)
    t.count('meta')
    t.check(m.get('shape') == str(tuple(x.shape)), 'meta-shape', m)
    t.check(m.get('dtype') == str(x.dtype), 'meta-dtype', m)
    t.check((m.get('info') or '') == (info or ''), 'meta-info', m)
    t.check(utils.__version__ in (m.get('version') or ''), 'meta-version', m)
    t.check(re.search(r'\d\d:\d\d:\d\d 20\d\d', m.get('date') or ''),
            'meta-date', m)


def k_data(t):
    """Several files written, read back in random order."""
    import empymod
    rng = t.rng
    folder(t)
    jobs = []
    for n in range(int(rng.integers(2, 6))):
        x, mode = make(t)
        ext = str(rng.choice(['txt', 'json']))
        name = f'{rng.choice(NAMES)}{n if rng.random() < .9 else ""}.{ext}'
        fname = name if rng.random() < .5 else os.path.abspath(name)
        if rng.random() < .2:
            os.makedirs('my data', exist_ok=True)
            fname = os.path.join('my data', name)
        info = INFOS[int(rng.integers(len(INFOS)))]
        kw = {} if info is None else {'info': info}
        if ext == 'json' and rng.random() < .3:
            kw['indent'] = [None, 0, 1, 4][int(rng.integers(4))]
        if ext == 'json' and rng.random() < .2:
            kw['sort_keys'] = True
        if ext == 'txt' and rng.random() < .2:
            kw['footer'] = 'the end'
        keep = np.array(x)
        t.case(fname=fname, kw=kw, shape=x.shape, mode=mode,
               x=np.asarray(x).tolist() if x.size < 30 else mode)
        out = empymod.io.save_data(fname, x, **kw)
        t.check(out is None and identical(np.array(x), keep), 'data-changed',
                'by saving')
        check_meta(t, fname, x, info)
        jobs = [j for j in jobs if os.path.abspath(j[0]) !=
                os.path.abspath(fname)]
        jobs.append((fname, keep, kw, mode))
    for i in rng.permutation(len(jobs)):
        fname, x, kw, mode = jobs[i]
        t.case(fname=fname, kw=kw, shape=x.shape, mode=mode,
               x=x.tolist() if x.size < 30 else mode)
        for _ in range(1 + (rng.random() < .3)):
            y = empymod.io.load_data(fname)
            t.count('data')
            t.count('values', x.size)
            t.check(isinstance(y, empymod.utils.EMArray), 'no-EMArray',
                    type(y))
            t.check(identical(x, np.array(y)), 'data-differ',
                    f'saved {x.ravel()[:20]}, read {np.ravel(y)[:20]}')
        t.sig(fname[-4:], mode, x.dtype.kind, tuple(np.array(x.shape) == 1),
              sorted(kw))


def k_format(t):
    """Requested precision."""
    import empymod
    rng = t.rng
    folder(t)
    shape = tuple(int(n) for n in rng.integers(1, 5, 3))
    x = values(rng, shape, 'field')
    cplx = rng.random() < .6
    if cplx:
        x = x + 1j*values(rng, shape, 'field')
    p = int(rng.integers(2, 17))
    one = f'%.{p}e' + (f'%+.{p}ej' if cplx else '')
    k = int(rng.integers(3))
    if k == 0:
        kw = {'fmt': ', '.join([one]*shape[2])}
    elif k == 1 and not cplx:
        kw = {'fmt': one}
    else:
        kw = {'fmt': [one]*shape[2]}
    if rng.random() < .3:
        kw['footer'] = 'data'
    if rng.random() < .3:
        kw['info'] = 'data ' + str(rng.integers(9))
    t.case(kw=kw, x=x.tolist())
    empymod.io.save_data('o.txt', x, **kw)
    check_meta(t, 'o.txt', x, kw.get('info'))
    y = np.array(empymod.io.load_data('o.txt'))
    t.check(y.shape == x.shape and y.dtype == x.dtype, 'format-shape',
            (y.shape, y.dtype))
    for a, b in ((x.real, y.real), (x.imag, y.imag)):
        with np.errstate(divide='ignore'):
            tol = .501*10.**-p*10**np.floor(np.log10(np.abs(a)) + 1e-12)
        t.check(np.all(np.abs(a-b) <= tol + 3e-16*np.abs(a)), 'precision-not-kept',
                f'{one}: {a}, {b}')
        if p < 10 and a.any():
            t.check(not np.array_equal(a, b), 'precision-ignored', one)
    t.count('formatted')
    t.sig('fmt', p, k, cplx, sorted(kw))
    # JSON passes its arguments on.
    empymod.io.save_data('o.json', x, indent=None, separators=(',', ':'))
    txt = open('o.json').read()
    t.check('\n' not in txt and ': [' not in txt, 'json-arguments-ignored',
            txt[:200])
    t.check(identical(np.array(empymod.io.load_data('o.json')), x),
            'data-differ', 'compact json')


def content(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def k_refuse(t):
    """Unsupported requests: an error, nothing written, nothing changed."""
    import empymod
    rng = t.rng
    d = folder(t)
    x = values(rng, (2, 3, 1), 'plain')
    k = int(rng.integers(5))
    name = BAD[int(rng.integers(len(BAD)))]
    if rng.random() < .5:
        with open(name if k < 4 else 'out.txt', 'w') as f:
            f.write('precious')
    before = content(d)
    t.case(k=k, name=name)
    try:
        if k == 0:
            empymod.io.save_data(name, x)
        elif k == 1:
            empymod.io.save_input(name, {'src': [0, 0, 0]})
        elif k == 2:
            empymod.io.load_data(name)
        elif k == 3:
            empymod.io.load_input(name)
        else:
            shape = [(6,), (2, 3), (1, 2, 3, 1), ()][int(rng.integers(4))]
            name = f'out.{rng.choice(["txt", "json"])}'
            t.case(k=k, name=name, shape=shape)
            empymod.io.save_data(name, np.ones(shape))
        err = None
    except ValueError as e:
        err = str(e)
    t.check(err is not None, 'not-refused', name)
    want = 'dimensions' if k == 4 else 'extension'
    t.check(want in err, 'unclear-refusal', err)
    t.check(content(d) == before, 'files-touched',
            sorted(set(content(d)) ^ set(before)))
    t.count('refused')
    t.sig('refuse', k, name, len(before))


MAKERS = ['c_dipole', 'c_bipole', 'c_loop', 'c_analytical', 'c_gpr',
          'c_dipole_k', 'c_ipq']


def numpyfy(rng, x):
    """Same values in NumPy types."""
    if isinstance(x, dict):
        return {k: numpyfy(rng, v) for k, v in x.items()}
    if rng.random() < .4:
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x)
    if isinstance(x, float):
        return np.float64(x)
    return x


def plain(x):
    """Comparable content of an input."""
    import empymod
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, empymod.filters.DigitalFilter):
        return x.name
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return plain(x.tolist())
    return x


def k_input(t):
    """Modelling inputs: content, and result of the modelling."""
    import empymod
    rng = t.rng
    folder(t)
    which = str(rng.choice(MAKERS, p=[.3, .25, .15, .1, .05, .1, .05]))
    fun, _, kw = getattr(c13, which)(rng)
    if which in ('c_dipole', 'c_bipole') and rng.random() < .2:
        kw['depth'] = [-np.inf, *kw['depth'], np.inf]
    if rng.random() < .4:
        kw = {k: numpyfy(rng, v) if k in (
            'ab', 'verb', 'srcpts', 'recpts', 'strength', 'squeeze',
            'signal', 'htarg', 'ftarg', 'freqtime') else v
            for k, v in kw.items()}
        for k in ('ab', 'verb', 'signal'):       # Plain integers expected
            if k in kw and not isinstance(kw[k], dict):
                kw[k] = int(kw[k]) if kw[k] is not None else None
    if rng.random() < .3:
        kw['loop'] = None
        if fun in (empymod.dipole_k, empymod.analytical):
            kw.pop('loop')
    name = f'{NAMES[int(rng.integers(len(NAMES)))]}.json'
    t.case(fun=fun.__name__, **{k: repr(v) for k, v in kw.items()})
    before = c13.snap(kw)
    empymod.io.save_input(name, kw)
    t.check(c13.snap(kw) == before, 'input-changed', 'by saving')
    new = empymod.io.load_input(name)
    t.check(list(new) == list(kw), 'keys-differ', list(new))
    t.check(repr(plain(new)) == repr(plain(kw)), 'input-differ',
            f'{plain(new)} | {plain(kw)}')
    # And written again: same content.
    empymod.io.save_input('again.json', new)
    t.check(repr(empymod.io.load_input('again.json')) == repr(new),
            'input-differ', 'second generation')
    if which == 'c_dipole_k':                    # Documented as array
        new['wavenumber'] = np.array(new['wavenumber'])
    with captured():
        a = c13.pure(fun(**copy.deepcopy(kw)))
        b = c13.pure(fun(**new))
    t.check(c13.same(a, b), 'result-differ', f'{a} {b}')
    t.count('inputs')
    t.sig('input', which, name, sorted(kw))
    # Its result goes round, too.
    if which not in ('c_dipole_k', 'c_ipq', 'c_gpr') and a.ndim == 3:
        ext = str(rng.choice(['txt', 'json']))
        empymod.io.save_data('res.'+ext, a)
        t.check(identical(np.array(empymod.io.load_data('res.'+ext)), a),
                'data-differ', 'modelled')
    t.count('modelled')


def k_input_values(t):
    """Odd but storable input values."""
    import empymod
    rng = t.rng
    folder(t)
    odd = [None, True, False, 0, -1, 1e-300, 1e300, -0., np.inf, -np.inf, '',
           'str', 'ünï', 'a"b', "a'b", 'a\\b', 'a,', 'line\nbreak', [], {},
           (), [[]], [None], [1, 2.5], {'a': {'b': [1, {'c': None}]}},
           np.arange(3), np.ones((2, 2)), np.float32(.5), np.int32(3),
           np.bool_(True), np.array(2.), np.array([True, False]), '}', '{,}',
           [np.float64(1e-20), np.inf], np.pi, ',', 'x\n},']
    keys = ['src', 'rec', 'a b', 'ünï', '', 'x,', '}', 'q"q', 'depth']
    n = int(rng.integers(0, 8))
    data = {str(k): odd[int(rng.integers(len(odd)))]
            for k in rng.permutation(keys)[:n]}
    t.case(data=repr(data))
    empymod.io.save_input('v.json', data)
    new = empymod.io.load_input('v.json')
    t.check(list(new) == list(data), 'keys-differ', new)
    t.check(repr(plain(new)) == repr(plain(data)), 'input-differ',
            f'{new} | {data}')
    t.count('odd')
    t.sig('odd', sorted(data), [repr(v) for v in data.values()])


CASES = [
    ('data', k_data, 500, 20000),
    ('format', k_format, 150, 4000),
    ('refuse', k_refuse, 250, 3000),
    ('values', k_input_values, 400, 15000),
    ('input', k_input, 100, 1800, 'inp'),
]
