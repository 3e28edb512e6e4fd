"""C27: in-phase and quadrature are the scaled secondary-primary ratio."""
import numpy as np

from vlib import closed, gen, ref
from vlib.util import DLF, captured, rtol_for, warm_dipole

RULE = ('random layered models, surveys and magnetic component pairs; against '
        'an independent layered solver over an independent closed form, the '
        'half-space formulas of Wait, and the documented definition; distinct '
        'by layers, pair, form of the input')
REQUIRED = {'ratio': 150, 'forms': 150, 'wait': 20, 'refused': 40}
ABS = [44, 45, 46, 54, 55, 56, 64, 65, 66]
KEYS = ['res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']


def warmup(group):
    warm_dipole()


def call(**kw):
    import empymod
    with captured():
        return empymod.ip_and_q(**{'verb': 0, 'ht': 'dlf',
                                   'htarg': {'dlf': DLF}, **kw})


def primary(m, f, ab, off, dz, th):
    eta = ref.material({k: v if k == 'depth' else v[:1] for k, v in
                        gen.full(m).items()}, f)
    eH, eV, zH, zV = (q[:, :1] for q in eta)
    return closed.coplanar(zH, zV, eH, eV, ab % 10-3, off[None], dz, th[None])


def ratio_case(t):
    import empymod
    rng = t.rng
    fl = getattr(empymod.filters.Hankel(), DLF)
    for _ in range(2):
        m = gen.model(rng)
        d = m['depth']
        zs, zr = (gen.zpoint(rng, d) for _ in range(2))
        if rng.random() < .6:   # As usual, both above or in the same layer
            lay = 0 if rng.random() < .6 else int(rng.integers(len(d)+1))
            zs = gen.zpoint(rng, d, layer=lay)
            zr = zs if rng.random() < .3 else gen.zpoint(rng, d, layer=lay)
        n = int(rng.integers(1, 4))
        x, y = gen.offsets(rng, n, 5, 1000)
        f = gen.lu(rng, 1e-1, 1e5, int(rng.integers(1, 3)))
        ab = int(rng.choice(ABS))
        scale = float(rng.choice([1e3, 1e6, 1, -2.5]))
        t.case(ab=ab, zs=zs, zr=zr, x=x, y=y, f=f, scale=scale, **m)
        off, th = np.hypot(x, y), np.arctan2(y, x)
        kw = {} if scale == 1e3 and rng.random() < .5 else {'scale': scale}
        I, Q = call(src=[0, 0, zs], rec=[x, y, zr], freqtime=f, ab=ab,
                    squeeze=False, **kw, **m)
        Hs, sc = ref.dlf_field(gen.full(m), f, zs, zr, ab, off, th, fl,
                               direct='none')
        Hp, ps = primary(m, f, ab, off, zr-zs, th)
        want, sc = scale*Hs/Hp, np.abs(scale*sc/Hp)
        rt = rtol_for(m)
        t.check(I.dtype.kind == Q.dtype.kind == 'f', 'type', (I.dtype,
                                                              Q.dtype))
        # Decayed primary field: what is left is rounding.
        keep = np.isfinite(want) & (np.abs(Hp) > 1e-4*ps)
        sc = sc + np.abs(want)*ps/np.abs(Hp)
        if not keep.all():
            t.count('vanished')
            continue
        t.close(I[:, :, 0], want.real, 'in-phase', rtol=rt, scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        t.close(Q[:, :, 0], want.imag, 'quadrature', rtol=rt, scale=sc,
                atol=1e-300, msg=f'ab={ab}')
        t.count('ratio')
        t.sig(*gen.nl_sig(m, zs, zr, ab))


def wait_case(t):
    """Coplanar loops on a half-space."""
    rng = t.rng
    res = float(gen.lu(rng, .5, 500))
    s = gen.lu(rng, 2, 100, 2)
    f = gen.lu(rng, 10, 1e5, 3)
    kind = int(rng.integers(2))
    z = -1e-4
    phi = float(rng.uniform(-np.pi, np.pi))
    # Horizontal coplanar: any direction; vertical: normal to the line.
    if kind == 0:
        ab, x, y = 66, s*np.cos(phi), s*np.sin(phi)
    elif rng.random() < .5:
        ab, x, y = 55, s, s*0
    else:
        ab, x, y = 44, s*0, s
    t.case(ab=ab, res=res, f=f, s=s)
    I, Q = call(src=[0, 0, z], rec=[x, y, z], depth=0, res=[1e14, res],
                freqtime=f, ab=ab, squeeze=False, epermH=[0, 0],
                epermV=[0, 0], scale=1)
    g = np.sqrt(8e-7*1j*np.pi**2*f/res)[:, None]*s
    if kind == 0:
        Z = 2/g**2*(9-(9+9*g+4*g**2+g**3)*np.exp(-g))
    else:
        Z = 2*(1-3/g**2+(3+3*g+g**2)*np.exp(-g)/g**2)
    # Cancellation of the formula for small induction numbers
    ok = np.abs(g) > .01
    got = (I+1j*Q)[:, :, 0]
    t.close(got[ok], (Z-1)[ok], 'wait', rtol=1e-3, scale=np.abs(Z-1)[ok] +
            2e-4, msg=f'ab={ab}') if ok.any() else None
    t.count('wait')
    t.sig('wait', ab, int(np.log10(res)))


def forms_case(t):
    """Documented definition, whatever the form of the input."""
    import empymod
    rng = t.rng
    m = gen.model(rng)
    d = m['depth']
    zs, zr = (gen.zpoint(rng, d) for _ in range(2))
    ns, nr = (int(rng.integers(1, 4)) for _ in range(2))
    x, y = gen.offsets(rng, nr, 20, 1000)
    sx, sy = rng.uniform(-9, 9, (2, ns))
    f = gen.lu(rng, 1, 1e4, int(rng.integers(1, 4)))
    ab = int(rng.choice(ABS))
    form = ['int', 'str', 'numpy', 'float'][t.index % 4]
    given = {'int': ab, 'str': str(ab), 'numpy': np.int64(ab),
             'float': float(ab)}[form]
    if rng.random() < .25 and len(d):   # Other direction of the layers
        m = {k: v[::-1] for k, v in m.items()}
    kw = {k: rng.choice([0, 1]) and np.array(v) if False else
          [list, tuple, np.array][rng.integers(3)](v) for k, v in m.items()}
    if len(d) == 0 and rng.random() < .5:
        kw = {k: v if k == 'depth' else v[0] for k, v in kw.items()}
    more = {}
    if rng.random() < .3:
        more['xdirect'] = [True, False, None][rng.integers(3)]
    if rng.random() < .3:
        more['signal'] = None
    if rng.random() < .3:
        more['loop'] = ['off', 'freq', None][rng.integers(3)]
    if rng.random() < .3:
        for k in KEYS[1:]:
            if k not in kw and rng.random() < .3:
                kw[k] = None
    sq = bool(rng.random() < .7)
    if not sq:
        more['squeeze'] = False
    verb = int(rng.integers(0, 4))
    t.case(ab=given, zs=zs, zr=zr, sx=sx, sy=sy, x=x, y=y, f=f, more=more,
           verb=verb, **kw)
    src, rec = [sx, sy, zs], [x, y, zr]
    with captured() as out:
        I, Q = empymod.ip_and_q(
            src=src, rec=rec, freqtime=f, ab=given, verb=verb, ht='dlf',
            htarg={'dlf': DLF}, **more, **kw)
        k2 = {'ht': 'dlf', 'htarg': {'dlf': DLF}, 'verb': 0,
              'squeeze': sq}
        Hs = empymod.dipole(src, rec, freqtime=f, ab=ab, xdirect=None, **k2,
                            **kw)
        first = {k: None if v is None else np.atleast_1d(v)[0]
                 for k, v in kw.items() if k != 'depth'}
        first['depth'] = []
        Hp = empymod.dipole(src, rec, freqtime=f, ab=ab % 10*11,
                            xdirect=True, **k2, **first)
    H = 1e3*np.asarray(Hs)/np.asarray(Hp)
    t.close(I, H.real, 'definition', rtol=1e-12, scale=np.abs(H),
            msg=f'ab={given!r}')
    t.close(Q, H.imag, 'definition', rtol=1e-12, scale=np.abs(H),
            msg=f'ab={given!r}')
    shp = (f.size, nr, ns)
    t.check(I.shape == (tuple(k for k in shp if k > 1) if sq else shp),
            'shape', I.shape)
    if verb == 0:
        t.check(out.getvalue() == '', 'silence', out.getvalue())
    t.count('forms')
    t.sig('forms', form, ab, len(d), ns, nr, f.size, sorted(more))


def refuse_case(t):
    """Electric or mixed pairs, time domain."""
    import empymod
    rng = t.rng
    m = gen.model(rng, nl=2)
    kw = dict(src=[0, 0, gen.zpoint(rng, m['depth'])],
              rec=[100., 20, gen.zpoint(rng, m['depth'])], freqtime=[1., 10],
              verb=0, **m)
    how = ['ab', 'signal', 'none', 'name'][t.index % 4]
    exc = ValueError
    if how == 'ab':
        ab = int(rng.choice([a for a in gen.ABS if a not in ABS]))
        kw['ab'] = ab if rng.random() < .7 else str(ab)
    elif how == 'signal':
        kw.update(ab=int(rng.choice(ABS)),
                  signal=[0, 1, -1][rng.integers(3)])
    elif how == 'name':
        kw.update(ab=44, unknown=1)
        exc = TypeError
    t.case(how=how, **{k: v for k, v in kw.items()})
    try:
        with captured():
            empymod.ip_and_q(**kw)
    except exc:
        pass
    else:
        t.fail('not-refused', f"{how}: {kw.get('ab')} {kw.get('signal')}")
    t.count('refused')
    t.sig('refuse', how, kw.get('ab'))


CASES = [('ratio', ratio_case, 120, 3000), ('wait', wait_case, 30, 500),
         ('forms', forms_case, 200, 4000), ('refuse', refuse_case, 48, 400)]
