"""C22: printing never influences results; each level prints its part."""
import copy
import io
import contextlib
import re
import warnings

import numpy as np

from checks import c13
from vlib import gen
from vlib.util import captured

RULE = ('random calls of all routines with the verbosity levels 0 to 4: '
        'results compared bit by bit, standard streams recorded, the lines of '
        'each level searched in those of the next; calls built to warn; '
        'printed parameters parsed and compared with the given ones, the '
        'kernel count with the counted calls; distinct by routine, options, '
        'number of lines')
REQUIRED = {'level': 120, 'warn': 80, 'values': 80, 'parsed': 1500,
            'kcount': 20, 'design': 2}
ASSUMPTIONS = ['run times are removed before comparing']


def warmup(group):
    c13.warmup(group)


@contextlib.contextmanager
def streams():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), \
            warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield o, e


def lines(o, e):
    txt = o.getvalue() + e.getvalue()
    txt = re.sub(r'\d+:\d\d:\d\d(\.\d+)?', 'TIME', txt)
    txt = re.sub(r'0x[0-9a-f]+', 'ID', txt)
    return [li for li in txt.replace('\r', '\n').split('\n') if li.strip()]


def at_level(fun, a, k, verb):
    # The levels share no objects.
    a, k = copy.deepcopy((a, k))
    k['verb'] = verb
    with streams() as (o, e):
        try:
            out = fun(*a, **k)
            err = None
        except Exception as ex:
            out, err = None, ex
    return out, err, lines(o, e)


def same_bits(x, y):
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_bits(i, j)
                                        for i, j in zip(x, y))
    x, y = np.asarray(x), np.asarray(y)
    return (x.shape == y.shape and x.dtype == y.dtype
            and x.tobytes() == y.tobytes())


def missing(small, large):
    """First line of small not found, in order, in large."""
    it = iter(large)
    for li in small:
        if not any(li == x for x in it):
            return li
    return None


WARN = re.compile(r'^\s*(\* WARNING|=> desired|\s{8,}\S)')


def levels(t, name, fun, a, k, vmax=4):
    """All levels of one call; returns the lines."""
    res = [at_level(fun, a, k, v) for v in range(vmax+1)]
    for v, (out, err, li) in enumerate(res):
        if err is not None or res[0][1] is not None:
            t.check(type(err) is type(res[0][1]) and str(err) == str(
                res[0][1]), 'error-depends-on-verb',
                f'{name}: verb=0 {res[0][1]!r}, verb={v} {err!r}')
        else:
            t.check(same_bits(res[0][0], out), 'result-depends-on-verb',
                    f'{name}: verb=0 and verb={v}')
    t.check(not res[0][2], 'not-silent', f'{name}: {res[0][2][:5]}')
    bad = [li for li in res[1][2] if not WARN.match(li)]
    t.check(not bad, 'more-than-warnings', f'{name}: {bad[:5]}')
    for v in range(1, vmax):
        lo = missing(res[v][2], res[v+1][2])
        t.check(lo is None, 'level-loses-output',
                f'{name}: printed by verb={v} but not by verb={v+1}: {lo}')
    if res[0][1] is None and vmax == 4:
        t.check(res[3][2] and any('END' in li for li in res[2][2])
                or name in ('check',), 'level-prints-nothing', name)
    return [r[2] for r in res], res[0]


MAKERS = ['c_dipole', 'c_dipole', 'c_hook', 'c_bipole', 'c_bipole', 'c_loop',
          'c_analytical', 'c_gpr', 'c_dipole_k', 'c_ipq', 'c_tmtemod']


def level_case(t):
    rng = t.rng
    nm = MAKERS[t.index % len(MAKERS)]
    fun, a, k = getattr(c13, nm)(rng)
    k.pop('verb', None)
    if nm == 'c_bipole' and rng.random() < .5:
        typ = [np.bool_, int, bool][rng.integers(3)]
        for key in ('msrc', 'mrec'):
            if isinstance(k.get(key), bool):
                k[key] = typ(k[key])
    t.case(maker=nm, kw={i: str(v)[:200] for i, v in k.items()})
    li, out = levels(t, nm, fun, a, k)
    t.count('level')
    t.count('calls', 5)
    t.sig('level', nm, k.get('ab'), k.get('ht'), k.get('ft'), len(li[4]))


def design_case(t):
    rng = t.rng
    fun, a, k = c13.c_design(rng)
    k['plot'] = 0
    t.case(kw={i: str(v)[:200] for i, v in k.items()})
    from empymod.scripts import fdesign
    import empymod

    def des(**kw):
        fl, full = fdesign.design(**kw)
        return [fl.base] + [getattr(fl, n) for n in ('j0', 'j1', 'sin', 'cos')
                            if hasattr(fl, n)] + list(full[:2]) + [full[3]]
    assert empymod
    k['save'] = False
    levels(t, 'design', des, a, k, 2)
    t.count('design')
    t.sig('design', len(k['spacing']), t.index)


# ---------------------------------------------------------------- warnings
def warn_case(t):
    """Something is wrong: told at 1, silent at 0."""
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=int(rng.integers(1, 4)), perm=False, mperm=False)
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, 2, 100, 3000)
    k = dict(src=[0, 0, zs], rec=[x, y, zr], freqtime=1., **m)
    fun, a = empymod.dipole, ()
    kinds = ['min_off', 'min_res', 'min_freq', 'min_time', 'min_aniso',
             'htarg', 'ftarg', 'conv', 'kwargs', 'flux', 'current',
             'source-flux', 'ipq', 'bip-kwargs', 'min_off_bip']
    what = kinds[t.index % len(kinds)]
    word = 'WARNING'
    n = len(m['res'])
    if what == 'min_off':
        k['rec'] = [[0., 500], [0., 0], zr]
        k['src'] = [0, 0, zs]
        word = 'Offsets <'
    elif what == 'min_off_bip':
        fun = empymod.bipole
        k.update(src=[0, 0, zs, 0, 0], rec=[[0, 500.], [0, 0.], zr, 30, 0])
        word = 'Offsets <'
    elif what == 'min_res':
        r = list(k['res'])
        r[int(rng.integers(n))] = 1e-40
        k['res'] = r
        word = 'Resistivities <'
    elif what == 'min_aniso':
        k['aniso'] = [1e-40]*n
        word = 'aniso <'
    elif what == 'min_freq':
        k['freqtime'] = [1e-30, 1.]
        word = 'Frequencies <'
    elif what == 'min_time':
        k.update(freqtime=[1e-30, 1.], signal=0, ft='dlf',
                 ftarg={'pts_per_dec': -1})
        word = 'Times <'
    elif what == 'htarg':
        k['htarg'] = {'unknown_one': 3}
        word = 'htarg'
    elif what == 'ftarg':
        k.update(signal=int(rng.integers(-1, 2)), ftarg={'unknown_one': 3})
        word = 'ftarg'
    elif what == 'conv':
        k.update(ht='qwe', htarg={'rtol': 1e-14, 'maxint': 4, 'nquad': 11})
        word = 'did not converge'
    elif what == 'kwargs':
        k['srcpts'] = 3
        word = 'kwargs'
    elif what == 'bip-kwargs':
        fun = empymod.bipole
        k.update(src=[0, 0, zs, 0, 0], rec=[x, y, zr, 30, 0], gain=3)
        word = 'kwargs'
    elif what == 'ipq':
        fun = empymod.ip_and_q
        k.update(src=[0, 0, zs], rec=[x, y, zs+3.123], ab=46)
        word = 'experimental'
    else:
        fun = empymod.bipole
        k.update(src=[0, 0, zs, 0, 0], rec=[x, y, zr, 30, 0])
        if what == 'current':
            k.update(aniso=[2.]*n, mrec='j')
            word = 'e-current'
        else:
            k.update(mpermH=[2.]*n, mpermV=[1.]*n)
            k['mrec' if what == 'flux' else 'msrc'] = 'b'
            word = 'flux'
    t.case(what=what, kw=k)
    li, out = levels(t, what, fun, a, k)
    t.check(out[1] is None, 'raised', repr(out[1]))
    for v in (1, 2, 3, 4):
        t.check(any(word in x for x in li[v]), 'warning-missing',
                f'{what}: {word!r} not printed by verb={v}: {li[v][:5]}')
    t.count('warn')
    t.sig('warn', what, n)


# ---------------------------------------------------------------- values
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf|-inf'


def parse(out):
    """Blocks of printed 'name : values'; the following line is part of it."""
    items = []
    for li in out:
        if '::' in li or ' : ' not in li.replace(':  ', ' : '):
            continue
        nm, val = li.split(':', 1)
        nm = nm.strip(' >')
        if nm == '' and items:
            items[-1][2] = val.strip()
        else:
            items.append([nm, val.strip(), None])
    return items


def numbers(s):
    return np.array([float(v) for v in s.split()])


def compare(t, items, name, want, nth=0, verb=4, atol=1e-12):
    """Printed values of the n-th item with that name."""
    found = [i for i in items if re.sub(r'\s+', ' ', i[0]) == name]
    t.check(len(found) > nth, 'not-printed', f'{name} {nth}: {items}')
    _, short, full = found[nth]
    want = np.sort(np.atleast_1d(np.asarray(want, dtype=float)).ravel())
    if '[min-max; #]' in short:
        p = short.split('[min')[0].rsplit(':', 1)
        lo, hi = p[0].strip().split(' - ')
        t.check(int(float(p[1])) == want.size, 'printed-number',
                f'{name}: {short} for {want.size} values')
        t.close(np.array([float(lo), float(hi)]), want[[0, -1]],
                'printed-value', rtol=1e-5, atol=atol, msg=name)
        if verb > 3:
            t.check(full is not None, 'not-printed', f'{name}: only range')
            t.close(np.sort(numbers(full)), want, 'printed-value', rtol=1e-5,
                    scale=np.abs(want), atol=atol, msg=name)
    else:
        t.close(np.sort(numbers(short)), want, 'printed-value', rtol=1e-5,
                atol=atol, msg=name)
    t.count('parsed')


def values_case(t):
    import empymod
    rng = t.rng
    nl = int(rng.integers(1, 7))
    m = gen.model(rng, nl=nl, perm=bool(rng.random() < .5),
                  mperm=bool(rng.random() < .5))
    n = int(rng.integers(1, 7))
    zs, zr = (gen.zpoint(rng, m['depth']) for _ in range(2))
    x, y = gen.offsets(rng, n, 100, 5000)
    x, y = np.round(x, 3), np.round(y, 3)
    s = np.round(rng.uniform(-50, 50, 2), 3)
    td = bool(rng.random() < .4)
    ft = gen.lu(rng, .01, 10, int(rng.integers(1, 6)))
    k = dict(depth=m['depth'], res=m['res'], freqtime=ft,
             **{i: m[i] for i in m if i not in ('depth', 'res')})
    ht = int(rng.integers(3 if n*ft.size*nl > 6 or td else 5))
    filt = ['key_101_2012', 'wer_201_2018', 'kong_61_2007b'][rng.integers(3)]
    given = {}
    if ht < 3:
        ppd = [0, -1, int(rng.integers(10, 40))][ht]
        k.update(ht='dlf', htarg={'dlf': filt, 'pts_per_dec': ppd})
    elif ht == 3:
        given = {'rtol': float(gen.lu(rng, 1e-8, 1e-4)), 'atol': 1e-25,
                 'nquad': int(rng.integers(11, 51)),
                 'maxint': int(rng.integers(20, 60)),
                 'pts_per_dec': int(rng.choice([0, 20])),
                 'diff_quad': float(rng.integers(50, 200))}
        k.update(ht='qwe', htarg=given)
    else:
        given = {'rtol': float(gen.lu(rng, 1e-5, 1e-3)), 'atol': 1e-20,
                 'limit': int(rng.integers(50, 90)), 'a': 1e-6, 'b': .2,
                 'pts_per_dec': int(rng.integers(20, 40))}
        k.update(ht='quad', htarg=given)
    loop = None
    if ht == 0:
        loop = [None, 'off', 'freq'][rng.integers(3)]
        k['loop'] = loop
    fgiven = {}
    if td:
        sig = int(rng.integers(-1, 2))
        ftk = ['dlf', 'qwe', 'fftlog', 'fft'][rng.integers(4)]
        fgiven = {'dlf': {'dlf': 'key_101_2012', 'pts_per_dec': -1},
                  'qwe': {'rtol': 1e-6, 'atol': 1e-20, 'nquad': 15,
                          'maxint': 40, 'pts_per_dec': 11,
                          'diff_quad': 90.5},
                  'fftlog': {'pts_per_dec': 7, 'q': .1},
                  'fft': {'dfreq': .02, 'nfreq': 60, 'ntot': 128,
                          'pts_per_dec': 12}}[ftk]
        k.update(signal=sig, ft=ftk, ftarg=fgiven)
    verb = int(rng.integers(3, 5))
    mode = int(rng.integers(4))
    if nl == 1:
        k['xdirect'] = False
    if mode == 0:
        ab = int(rng.choice(gen.ABS_NZ))
        fun = empymod.dipole
        k.update(src=[s[0], s[1], zs], rec=[x, y, zr], ab=ab)
    elif mode == 1:
        az, di = np.round(rng.uniform(-90, 90, (2, n)), 2)
        fun = empymod.bipole
        k.update(src=[s[0], s[1], zs, 10., 20.], rec=[x, y, zr, az, di])
    elif mode == 2:
        fun = empymod.bipole
        L = np.round(rng.uniform(-80, 80, 3), 2)
        e = [s[0], s[0]+L[0], s[1], s[1]+L[1], zs, zs+L[2]]
        npts, st = int(rng.integers(1, 4)), float(rng.choice([0, 2.5]))
        k.update(src=e, rec=[x, y, zr, 30., 40.], srcpts=npts, strength=st)
    else:
        fun = empymod.dipole
        ab = int(rng.choice(gen.EE))
        sx, sy = np.round(rng.uniform(-50, 50, (2, n)), 3)
        k.update(src=[sx, sy, zs], rec=[x[:1], y[:1], zr], ab=ab)
    t.case(mode=mode, kw=k, verb=verb)
    # Count kernel calls.
    K = empymod.kernel.wavenumber
    cnt = [0]

    def spy(*a, **kw):
        cnt[0] += 1
        return K(*a, **kw)
    empymod.kernel.wavenumber = spy
    try:
        with streams() as (o, er):
            fun(verb=verb, **copy.deepcopy(k))
    finally:
        empymod.kernel.wavenumber = K
    out = lines(o, er)
    it = parse(out)
    f = gen.full(m)
    compare(t, it, 'depth [m]', m['depth'], verb=verb) if len(
        m['depth']) else None
    compare(t, it, 'res [Ohm.m]', m['res'], verb=verb)
    for key in ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'):
        compare(t, it, key+' [-]', f[key], verb=verb)
    if td:
        compare(t, it, 'time [s]', ft, verb=verb)
        compare(t, it, 'signal', sig, verb=verb)
    else:
        compare(t, it, 'frequency [Hz]', ft, verb=verb)
    for g, sec in ((given, 'Hankel'), (fgiven, 'Fourier')):
        pos = [i for i, q in enumerate(it) if q[0] == sec]
        if g:
            t.check(len(pos) == 1, 'not-printed', sec)
        for key in g:
            if key == 'dlf' or (key == 'pts_per_dec' and 'dlf' in g):
                continue
            sub = [q for q in it[pos[0]:pos[0]+9]]
            nm = key
            if key in ('a', 'b', 'limit') and g is given and ht == 3:
                nm += ' (quad)'
            compare(t, sub, nm, g[key], verb=verb)
    if ht < 3:
        flt = [q for q in it if q[0] == 'Filter']
        t.check(filt in [q[1] for q in flt], 'printed-filter',
                f'{filt}: {flt}')
        typ = [q for q in it if q[0] == 'DLF type']
        word = ['Standard', 'Lagged', 'Splined'][ht]
        # The one of the Hankel transform is the last one.
        t.check(word in typ[-1][1], 'printed-filter-type', (word, typ))
        if ht == 2:
            t.check(str(ppd) in typ[-1][1], 'printed-filter-type', (ppd, typ))
    if ht == 0:
        lo = [q for q in it if q[0] == 'Loop over'][0][1]
        word = {'off': 'Offsets', 'freq': 'Frequencies', None: 'None'}[loop]
        t.check(word in lo, 'printed-loop', (loop, lo))
    # Survey
    S = [q for q in it if q[0] == 'Source(s)']
    R = [q for q in it if q[0] == 'Receiver(s)']
    sr, rc = k['src'], k['rec']
    ns = np.size(sr[0]) if len(sr) < 6 else 1
    t.check(S[0][1].split()[0] == str(ns), 'printed-sources', S)
    t.check(R[0][1].split()[0] == str(np.size(rc[0])), 'printed-receivers', R)
    i0 = it.index(S[0])
    i1 = it.index(R[0])
    si, ri = it[i0:i1], it[i1:]
    for j, c in enumerate('xyz'):
        compare(t, ri, f'{c} [m]', rc[j], verb=verb)
        if mode != 2:
            compare(t, si, f'{c} [m]', sr[j], verb=verb)
        else:
            compare(t, si, f'{c}_c [m]', (sr[2*j]+sr[2*j+1])/2, verb=verb,
                    atol=1e-3)   # Dipoles are rounded
    if mode in (0, 3):
        compare(t, it, 'Input ab', ab, verb=verb)
    elif mode == 1:
        compare(t, ri, 'azimuth [°]', az, verb=verb)
        compare(t, ri, 'dip [°]', di, verb=verb)
        compare(t, si, 'azimuth [°]', 10, verb=verb)
        compare(t, si, 'dip [°]', 20, verb=verb)
    else:
        d = [sr[1]-sr[0], sr[3]-sr[2], sr[5]-sr[4]]
        compare(t, si, 'length [m]', np.sqrt(np.dot(d, d)), verb=verb)
        compare(t, si, 'strength[A]', st, verb=verb)
        ip = [q for q in si if q[0] == 'intpts'][0][1]
        t.check(ip.split()[0] == str(npts if npts > 2 else 1), 'printed-intpts', ip)
    # Kernel count
    end = [li for li in out if 'kernel call' in li]
    if cnt[0] and ht < 3:
        num = int(end[-1].split('::')[-1].split()[0])
        t.check(num == cnt[0], 'printed-kernel-count', f'{num} != {cnt[0]}')
        t.count('kcount')
    t.count('values')
    t.sig('values', mode, ht, td and ftk, n, nl, ft.size, verb)


CASES = [('level', level_case, 132, 2500), ('warn', warn_case, 90, 900),
         ('values', values_case, 120, 2500),
         ('design', design_case, 3, 40)]
assert captured
