"""C31: waveform responses are the convolution with the current."""
import numpy as np

from vlib import gen
from vlib.util import captured, warm_dipole

RULE = ('random continuous piecewise-linear waveforms and output times '
        '(before, at, between, after the nodes): polynomial kernels through '
        'the waveform function (quadrature exact) against the exact integral, '
        'with poisoned irrelevant times; modelled responses against own '
        'convolutions of step and impulse responses; linearity, shifts, '
        'inserted nodes, batches; distinct by numbers, positions, signal')
REQUIRED = {'exact': 1500, 'before': 100, 'within': 100, 'modelled': 36,
            'linear': 30, 'inserted': 30, 'shifted': 30, 'refused': 20}
ASSUMPTIONS = ['sign of the convolution as fixed by the existing tests (a '
               'ramp-up with the switch-on response is minus the '
               'switch-on response)', 'strictly increasing nodes']


def warmup(group):
    if group == 'm':
        warm_dipole()


def waveform(rng, n=None, scale=1., start=None):
    n = n or int(rng.integers(2, 9))
    nodes = np.cumsum(gen.lu(rng, .02, 1, n))*scale
    nodes = nodes - nodes[0] + (rng.uniform(-1, 1)*scale if start is None
                                else start)
    amp = rng.uniform(-2, 2, n)
    amp[rng.random(n) < .3] = 0
    for i in range(1, n):   # constant segments
        if rng.random() < .25:
            amp[i] = amp[i-1]
    if np.all(np.diff(amp) == 0):
        amp[-1] += 1
    return nodes, amp


def outtimes(rng, nodes, n):
    tt = []
    for _ in range(n):
        k = int(rng.integers(5))
        a, b = nodes[0], nodes[-1]
        if k == 0 and a > .01:
            tt.append(a*rng.uniform(.1, .99))
        elif k == 1:
            tt.append(rng.choice(nodes))
        elif k == 2:
            tt.append(rng.uniform(a, b))
        else:
            tt.append(b + gen.lu(rng, 1e-3, 1)*(b-a))
    tt = np.array([x for x in tt if x > 1e-3*(nodes[-1]-nodes[0])])
    last = nodes[-1] + .1*(nodes[-1]-nodes[0])
    if tt.size == 0 or not np.any(tt > nodes[1]):
        tt = np.r_[tt, max(last, .01)]
    return tt


def exact(nodes, amp, tt, k):
    """-int I'(t-s) s^k ds, and the sum of the absolute terms."""
    out, mag = np.zeros(tt.size), np.zeros(tt.size)
    for j, t in enumerate(tt):
        for i in range(len(nodes)-1):
            if t <= nodes[i]:
                continue
            sl = (amp[i+1]-amp[i])/(nodes[i+1]-nodes[i])
            ta, tb = t-nodes[i], max(t-nodes[i+1], 0.)
            v = sl*(ta**(k+1)-tb**(k+1))/(k+1)
            out[j] -= v
            mag[j] += abs(sl)*(ta**(k+1)+tb**(k+1))/(k+1)
    return out, mag


def poly_case(t):
    from empymod import utils
    rng = t.rng
    nodes, amp = waveform(rng, scale=float(gen.lu(rng, .01, 100)))
    tt = outtimes(rng, nodes, int(rng.integers(1, 8)))
    nq = int(rng.integers(1, 7))
    sig = int(rng.integers(-1, 2))
    if not np.any(tt > nodes[-1]):
        tt = np.r_[tt, max(nodes[-1], 0.)+.1*(nodes[-1]-nodes[0])]
    form = int(rng.integers(3))
    form = [np.array, list, tuple][form]
    kw = {}
    if nq != 3 or rng.random() < .5:
        kw['nquad'] = nq
    if sig or rng.random() < .5:
        kw['signal'] = sig
    if rng.random() < .3:
        rng.shuffle(tt)
    t.case(nodes=nodes, amplitudes=amp, times=tt, **kw)
    an, aa, at = form(nodes), form(amp), tt.copy()
    with captured():
        ct, s = utils.check_waveform(at, an, aa, verb=0, **kw)
    t.check(s['signal'] == sig, 'signal', s)
    t.check(np.all(ct > 0) and np.all(np.isfinite(ct)), 'computed-times', ct)
    t.check(np.array_equal(at, tt) and np.array_equal(an, nodes) and
            np.array_equal(aa, amp), 'modified-input', '')
    nr = int(rng.integers(1, 4))
    T = (nodes[-1]-nodes[0])
    fac = rng.uniform(-2, 2, nr)
    for k in range(2*nq):
        resp = (ct/T)[:, None]**k*fac
        # Values at times which no output needs must not matter.
        resp[ct < 1e-15*T] = 1e60
        with captured():
            em = s['apply_waveform'](resp)
        want, mag = exact(nodes/T, amp, tt/T, k)
        t.close(em, want[:, None]*fac, 'convolution', 1e-10,
                scale=mag[:, None]*np.abs(fac), msg=f'degree {k}')
        t.count('exact', em.size)
        b = tt <= nodes[0]
        t.check(np.all(em[b] == 0), 'before-start', (tt, em))
    t.count('before', np.sum(tt <= nodes[0]))
    t.count('within', np.sum((tt > nodes[0]) & (tt < nodes[-1])))
    t.sig(len(nodes), nq, sig, bool((tt <= nodes[0]).any()),
          bool((tt < nodes[-1]).any()), tt.size)


def setup(rng):
    m = gen.model(rng, nl=int(rng.integers(1, 4)), air=False, perm=False,
                  mperm=False, res=(.5, 20))
    nl = len(m['res'])
    zs = gen.zpoint(rng, m['depth'], layer=nl-1)
    zr = zs + gen.lu(rng, 20, 100)
    n = int(rng.choice([1, 1, 2]))
    x, y = gen.offsets(rng, n, 200, 600, axis=0)
    ab = int(rng.choice(gen.EE))
    R2 = np.max(x**2+y**2)
    tau = 4e-7*np.pi*R2/m['res'][-1]
    return m, zs, zr, x, y, ab, tau


def call(m, zs, zr, x, y, ab, tt, sig, **kw):
    import empymod
    kw = {'htarg': {'dlf': 'key_51_2012'}, 'ft': 'dlf',
          'ftarg': {'dlf': 'key_101_2012', 'pts_per_dec': 0}, 'verb': 0,
          'squeeze': False, 'xdirect': True, **kw}
    with captured():
        if kw.pop('entry', 'dipole') == 'dipole':
            out = empymod.dipole([0, 0, zs], [x, y, zr], freqtime=tt, ab=ab,
                                 signal=sig, **kw, **m)
        else:
            a, d = [(0, 0), (90, 0), (0, 90)][ab % 10-1], \
                [(0, 0), (90, 0), (0, 90)][ab//10-1]
            out = empymod.bipole([0, 0, zs, *a], [x, y, zr, *d], freqtime=tt,
                                 signal=sig, **kw, **m)
    return np.asarray(out)[:, :, 0]


def peak(arg, tau, sig):
    """Magnitude of the elementary response, at any time."""
    return np.abs(call(*arg, tau*np.logspace(-2, 1, 31), sig)).max()


def steps(arg, tt, nodes, amp, sig):
    """Own convolution; and its scale."""
    T = nodes[-1]-nodes[0]
    gx, gw = np.polynomial.legendre.leggauss(50)
    want, mag = [], []
    for u in tt:
        w = g = 0.
        for i in range(len(nodes)-1):
            sl = (amp[i+1]-amp[i])/(nodes[i+1]-nodes[i])
            ta, tb = u-nodes[i], max(u-nodes[i+1], 0.)
            if ta <= 1e-12*T or sl == 0:
                continue
            if sig == 0:    # integral of the impulse is the step response
                S = call(*arg, [ta] if tb < 1e-12*T else [ta, tb], 1)
                w = w - sl*(S[0] - (0 if tb < 1e-12*T else S[1]))
                g = g + abs(sl)*np.abs(S).max(0)
            else:
                s = (ta+tb)/2 + (ta-tb)/2*gx
                r = call(*arg, s, sig)
                w = w - sl*(ta-tb)/2*(gw @ r)
                g = g + abs(sl)*(ta-tb)/2*(gw @ np.abs(r))
        want.append(w+np.zeros(len(arg[3])))
        mag.append(g+np.zeros(len(arg[3])))
    return np.array(want), np.array(mag)


def model_case(t):
    rng = t.rng
    arg = setup(rng)
    tau = arg[-1]
    nodes, amp = waveform(rng, n=int(rng.integers(2, 5)), scale=3*tau)
    tt = outtimes(rng, nodes, int(rng.integers(1, 4)))
    if not np.any(tt > nodes[-1]):
        tt[-1] = max(nodes[-1], 0)+.1*tau
    sig = int(rng.integers(-1, 2))
    m, zs, zr, x, y, ab, _ = arg
    entry = str(rng.choice(['dipole', 'bipole']))
    t.case(zs=zs, zr=zr, x=x, y=y, ab=ab, nodes=nodes, amp=amp, times=tt,
           signal=sig, entry=entry, **m)
    got = call(*arg[:-1], tt, {'nodes': nodes, 'amplitudes': amp,
                               'signal': sig, 'nquad': 40}, entry=entry)
    want, mag = steps(arg[:-1], tt, nodes, amp, sig)
    act = np.array([max(min(u, nodes[-1])-nodes[0], 0) for u in tt])
    sl = np.abs(np.diff(amp)/np.diff(nodes)).max()
    floor = 1e-2*peak(arg[:-1], tau, sig)*sl*act
    t.close(got, want, 'modelled-convolution', 1e-3, scale=mag,
            atol=floor[:, None])
    t.check(np.all(got[tt <= nodes[0]] == 0), 'before-start', got)
    t.count('modelled')
    t.sig('model', sig, len(nodes), entry, ab)


def laws_case(t):
    """Linearity, inserted nodes, shifts, other output times."""
    rng = t.rng
    arg = setup(rng)
    tau = arg[-1]
    m, zs, zr, x, y, ab, _ = arg
    arg = arg[:-1]
    nodes, amp = waveform(rng, n=int(rng.integers(2, 6)), scale=3*tau)
    _, amp2 = waveform(rng, n=len(nodes))
    tt = outtimes(rng, nodes, int(rng.integers(1, 4)))
    if not np.any(tt > nodes[-1]):
        tt[-1] = max(nodes[-1], 0)+.1*tau
    sig = int(rng.integers(-1, 2))
    nq = int(rng.choice([2, 3, 5]))
    t.case(zs=zs, zr=zr, x=x, y=y, ab=ab, nodes=nodes, amp=amp, amp2=amp2,
           times=tt, signal=sig, nquad=nq, **m)

    def one(n, a, u=tt, q=nq):
        return call(*arg, u, {'nodes': n, 'amplitudes': a, 'signal': sig,
                              'nquad': q})

    a = one(nodes, amp)
    scale = np.abs(a).max()
    if scale == 0 or not np.isfinite(scale):
        return
    # Linear in the amplitudes; a constant current does not matter.
    c = float(rng.uniform(-3, 3))
    b = one(nodes, amp2)
    t.close(one(nodes, c*amp+amp2+1), c*a+b, 'linear', 1e-8,
            scale=abs(c)*scale+np.abs(b).max())
    t.count('linear')
    # Nodes on a segment.
    i = int(rng.integers(len(nodes)-1))
    w = rng.uniform(.1, .9)
    n2 = np.insert(nodes, i+1, nodes[i]+w*(nodes[i+1]-nodes[i]))
    a2 = np.insert(amp, i+1, amp[i]+w*(amp[i+1]-amp[i]))
    p, q = one(nodes, amp, q=20), one(n2, a2, q=20)
    sl = np.abs(np.diff(amp)/np.diff(nodes)).max()
    act = np.array([max(min(u, nodes[-1])-nodes[0], 0) for u in tt])
    t.close(q, p, 'inserted-node', 1e-2,
            scale=(peak(arg, tau, sig)*sl*act)[:, None]+0*p)
    t.count('inserted')
    # Constant parts before and after.
    D = nodes[-1]-nodes[0]
    n3, a3 = np.r_[nodes[0]-D, nodes, nodes[-1]+3*D], np.r_[
        amp[0], amp, amp[-1]]
    t.close(one(n3, a3), a, 'constant-parts', 1e-9, scale=scale)
    # Shift of everything in time.
    d = float(rng.uniform(0, 3))*D
    t.close(one(nodes+d, amp, u=tt+d), a, 'shifted', 1e-6, scale=scale)
    t.count('shifted')
    # Other output times do not matter, nor does their order.
    extra = np.r_[outtimes(rng, nodes, 2), tt.max()+tau]
    tm = np.r_[tt, extra]
    o = rng.permutation(tm.size)
    t.close(one(nodes, amp, u=tm[o]), np.r_[a, one(nodes, amp, u=extra)][o],
            'other-times', 1e-8, scale=np.abs(a).max() + np.abs(
                one(nodes, amp, u=extra)).max())
    t.sig('laws', sig, nq, len(nodes), tt.size)


def refuse_case(t):
    """No output time after the start; inconsistent waveforms."""
    import empymod
    rng = t.rng
    nodes, amp = waveform(rng, start=5.)
    tt = rng.uniform(.1, 4.9, 2)
    kw = {'src': [0, 0, 0], 'rec': [100, 0, 10], 'depth': [], 'res': 1.,
          'verb': 0, 'xdirect': True}
    t.case(nodes=nodes, amp=amp, times=tt)
    bad = {
        'before': (tt, dict(nodes=nodes, amplitudes=amp)),
        'lengths': (tt+9, dict(nodes=nodes, amplitudes=amp[:2]
                               if len(amp) > 2 else np.r_[amp, 1])),
        'signal': (tt+9, dict(nodes=nodes, amplitudes=amp,
                              signal=float(rng.choice([2, .5, -2])))),
        'key': (tt+9, dict(nodes=nodes, amplitudes=amp, node=1)),
        'missing': (tt+9, dict(nodes=nodes)),
    }
    for name, (u, w) in bad.items():
        try:
            with captured():
                r = empymod.dipole(freqtime=u, signal=w, **kw)
        except (ValueError, TypeError):
            t.count('refused')
            continue
        t.fail('not-refused', (name, r))
    t.sig('refused', len(nodes))


CASES = [('poly', poly_case, 300, 6000), ('refuse', refuse_case, 6, 60),
         ('model', model_case, 45, 900, 'm'),
         ('laws', laws_case, 30, 600, 'm')]
