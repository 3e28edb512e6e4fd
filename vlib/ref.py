"""Independent reference for the fields of point dipoles in a VTI stack.

Derived from Maxwell's equations only (curl H = eta E + J,
curl E = -zeta H - M), not from the formulas used by the code under test:
the fields are Fourier transformed horizontally, split into a TM line
(V = E_rho, I = H_phi) and a TE line (V = E_phi, I = -H_rho), each a
transmission line along z with a point source, and the line is solved as one
linear system for the up- and down-going amplitudes of *all* layers at once
(no reflection coefficient recursion).  Angular dependence is expanded
generically as trigonometric polynomial and integrated to Bessel functions.
"""
import numpy as np

EPS0 = 8.8541878128e-12
MU0 = 4e-7*np.pi


def material(m, freq, laplace=False):
    """eta/zeta H/V of shape (nfreq, nlayer)."""
    f = np.atleast_1d(np.asarray(freq, float))
    s = f if laplace else 2j*np.pi*f
    res, ani = m['res'], m['aniso']
    etaH = 1/res[None, :] + s[:, None]*m['epermH']*EPS0
    etaV = 1/(res*ani**2)[None, :] + s[:, None]*m['epermV']*EPS0
    zetaH = s[:, None]*m['mpermH']*MU0
    zetaV = s[:, None]*m['mpermV']*MU0
    return etaH, etaV, zetaH, zetaV


def line(z, y, depth, zs, zr, vs, is_, direct='full'):
    """Solve V' = -z I + vs d(z-zs), I' = -y V + is d(z-zs).

    z, y: (nlayer, n) series impedance, shunt admittance per unit length.
    vs, is_: (n,) jumps.  Returns V, I at zr (mean of both sides if zr == zs)
    and their magnitudes before any cancellation.  direct: 'full' or 'none' (subtract the field of the source
    in a homogeneous medium of the source layer, if zr is in that layer).
    """
    depth = np.asarray(depth, float)
    nl, n = z.shape
    gam = np.sqrt(z*y)
    gam = np.where(gam.real < 0, -gam, gam)
    yc = gam/z
    ls = int(np.sum(depth < zs))
    lr = int(np.sum(depth < zr))
    # Sub-layers: split the source layer at zs.
    lay = list(range(ls+1)) + list(range(ls, nl))
    ifs = np.r_[depth[:ls], zs, depth[ls:]]
    N = nl+1
    G = gam[lay]
    Y = yc[lay]
    top = np.r_[np.nan, ifs]
    bot = np.r_[ifs, np.nan]
    # Unknowns: d_k (down-going, referenced to top), u_k (up-, to bottom);
    # d_0 = 0 and u_{N-1} = 0.  Thickness factor e_k.
    E = np.ones((N, n), dtype=np.result_type(z, y, float))
    for k in range(1, N-1):
        E[k] = np.exp(-G[k]*(bot[k]-top[k]))
    A = np.zeros((n, 2*N-2, 2*N-2), dtype=E.dtype)
    b = np.zeros((n, 2*N-2), dtype=np.result_type(E, vs, is_))

    def di(k):
        return 2*k-1

    def ui(k):
        return 2*k
    for j in range(N-1):  # interface between sub-layer j and j+1
        rv, ri = 2*j, 2*j+1
        # V_{j+1} - V_j = jump ; I_{j+1} - I_j = jump
        # Rows for I are scaled with the larger admittance.
        sc = 1/np.maximum(np.abs(Y[j]), np.abs(Y[j+1]))
        A[:, rv, di(j+1)] += 1
        A[:, ri, di(j+1)] += Y[j+1]*sc
        if j+1 < N-1:
            A[:, rv, ui(j+1)] += E[j+1]
            A[:, ri, ui(j+1)] += -Y[j+1]*E[j+1]*sc
        A[:, rv, ui(j)] += -1
        A[:, ri, ui(j)] += Y[j]*sc
        if j > 0:
            A[:, rv, di(j)] += -E[j]
            A[:, ri, di(j)] += -Y[j]*E[j]*sc
        if j == ls:
            b[:, rv] = vs
            b[:, ri] = is_*sc
    x = np.linalg.solve(A, b[..., None])[..., 0]

    def at(k, zz):
        d = u = 0
        if k > 0:
            d = x[:, di(k)]*np.exp(-G[k]*(zz-top[k]))
        if k < N-1:
            u = x[:, ui(k)]*np.exp(-G[k]*(bot[k]-zz))
        V = d+u
        Ii = Y[k]*(d-u)
        return V, Ii, np.abs(d)+np.abs(u), np.abs(Y[k])*(np.abs(d)+np.abs(u))

    g, yy = gam[ls], yc[ls]
    if zr == zs:
        a1, a2 = at(ls, zr), at(ls+1, zr)
        V, Ii, Va, Ia = ((p+q)/2 for p, q in zip(a1, a2))
    else:
        k = lr if lr < ls or (lr == ls and zr < zs) else lr+1
        V, Ii, Va, Ia = at(k, zr)
    if direct == 'none' and lr == ls:
        # Homogeneous line: V+ = (vs + is/yc)/2 below, V- = (is/yc - vs)/2
        ex = np.exp(-g*abs(zr-zs))
        up, dn = (is_/yy - vs)/2, (is_/yy + vs)/2
        mg = (np.abs(up)+np.abs(dn))*np.abs(ex)
        Va, Ia = Va + mg, Ia + np.abs(yy)*mg
        if zr > zs:
            V, Ii = V - dn*ex, Ii - yy*dn*ex
        elif zr < zs:
            V, Ii = V - up*ex, Ii + yy*up*ex
        else:
            V, Ii = V-(up+dn)/2, Ii-(dn-up)*yy/2
    return V, Ii, Va, Ia


# Trigonometric polynomials in psi: dict {(n, 'c'|'s'): coefficient array}
def tmul(a, b):
    out = {}

    def add(k, v):
        n, t = k
        if n < 0:
            n, v = -n, (v if t == 'c' else -v)
        if n == 0 and t == 's':
            return
        out[(n, t)] = out.get((n, t), 0) + v
    for (n, s), x in a.items():
        for (m, t), w in b.items():
            p = x*w/2
            if s == 'c' and t == 'c':
                add((n-m, 'c'), p)
                add((n+m, 'c'), p)
            elif s == 's' and t == 's':
                add((n-m, 'c'), p)
                add((n+m, 'c'), -p)
            elif s == 's' and t == 'c':
                add((n+m, 's'), p)
                add((n-m, 's'), p)
            else:
                add((n+m, 's'), p)
                add((m-n, 's'), p)
    return out


# Projection of x/y onto rho/phi.
RHO = {1: {(1, 'c'): 1.}, 2: {(1, 's'): 1.}}
PHI = {1: {(1, 's'): -1.}, 2: {(1, 'c'): 1.}}


def spectrum(m, freq_mat, depth, zs, zr, ab, lam, direct='full'):
    """Angular spectrum coefficients {(n, t): array (n_lam)} of field `ab`,
    and the same as sum of the magnitudes of the TM and TE contributions.

    freq_mat: (etaH, etaV, zetaH, zetaV), each (nlayer,).
    """
    rec, src = ab//10, ab % 10
    eH, eV, zH, zV = (np.asarray(x)[:, None] for x in freq_mat)
    lam = np.asarray(lam, float)
    n = lam.size
    d = -1j*lam
    l2 = (lam**2)[None, :]
    one = np.ones(n)
    zero = np.zeros(n)
    ls = int(np.sum(np.asarray(depth, float) < zs))
    lr = int(np.sum(np.asarray(depth, float) < zr))
    out = {}
    mag_out = {}

    def acc(t, trec, m):
        for k, v in tmul(t, trec).items():
            out[k] = out.get(k, 0) + v
            mag_out[k] = mag_out.get(k, 0) + m

    for mode in ('TM', 'TE'):
        if mode == 'TM':
            z, y = l2/eV + zH, eH + 0*l2
        else:
            z, y = zH + 0*l2, eH + l2/zV
        z, y = z*np.ones((1, n)), y*np.ones((1, n))
        # Source: (angular dependence, v-jump, i-jump)
        k = (src-1) % 3 + 1
        if src < 4:      # electric
            if mode == 'TM':
                if k == 3:
                    s = ({(0, 'c'): 1.}, -d/eV[ls], zero)
                else:
                    s = (RHO[k], zero, -one)
            else:
                if k == 3:
                    continue
                s = (PHI[k], zero, -one)
        else:            # magnetic
            if mode == 'TM':
                if k == 3:
                    continue
                s = (PHI[k], -one, zero)
            else:
                if k == 3:
                    s = ({(0, 'c'): 1.}, zero, d/zV[ls])
                else:
                    s = (RHO[k], one, zero)
        # Receiver component available from this mode?
        q = (rec-1) % 3 + 1
        mag = rec > 3
        if q == 3 and ((mode == 'TM') == mag):
            continue
        V, Ii, Va, Ia = line(z, y, depth, zs, zr, s[1], s[2], direct)
        if q == 3:
            # TM: Ez = d*I/etaV ; TE: Hz = -d*V/zetaV
            val = d*Ii/eV[lr] if not mag else -d*V/zV[lr]
            tr = {(0, 'c'): val}
            mg = lam*(Ia/np.abs(eV[lr]) if not mag else Va/np.abs(zV[lr]))
        elif not mag:
            base = RHO[q] if mode == 'TM' else PHI[q]
            tr = {kk: c*V for kk, c in base.items()}
            mg = Va
        else:
            # TM: H_phi = I ; TE: H_rho = -I
            if mode == 'TM':
                tr = {kk: c*Ii for kk, c in PHI[q].items()}
                mg = Ia
            else:
                tr = {kk: -c*Ii for kk, c in RHO[q].items()}
                mg = Ia
        acc(s[0], tr, mg)
    return out, mag_out


def to_bessel(spec, theta):
    """Collapse angle: returns (g0, g1, g2) with
    f = 1/(2 pi) int lam [g0 J0 + g1 J1 + g2 J2] dlam."""
    g = [0, 0, 0]
    for (n, t), v in spec.items():
        a = np.cos(n*theta) if t == 'c' else np.sin(n*theta)
        g[n] = g[n] + v*a*(-1j)**n
    return g


def bessel_scale(mag):
    """Like to_bessel, but magnitudes without the angular factors."""
    g = [0, 0, 0]
    for (n, t), v in mag.items():
        g[n] = g[n] + v
    return g


def dlf_field(m, freqs, zs, zr, ab, off, theta, filt, direct='full',
              laplace=False):
    """Field with the digital linear filter `filt`; also a natural scale."""
    mats = material(m, freqs, laplace)
    nf = mats[0].shape[0]
    off = np.atleast_1d(off)
    theta = np.atleast_1d(theta)
    out = np.zeros((nf, off.size), complex)
    sc = np.zeros((nf, off.size))
    for j in range(off.size):
        lam = filt.base/off[j]
        for i in range(nf):
            sp, mg = spectrum(m, [x[i] for x in mats], m['depth'], zs, zr, ab,
                          lam, direct)
            g0, g1, g2 = to_bessel(sp, theta[j])
            # J2 = 2/(lam r) J1 - J0
            h0 = (g0 - g2)*lam
            h1 = g1*lam + 2*g2/off[j]
            q0, q1, q2 = bessel_scale(mg)
            s0 = np.abs((q0 + q2)*lam*filt.j0)
            s1 = np.abs((q1*lam + 2*q2/off[j])*filt.j1)
            o0 = h0*filt.j0 if np.ndim(h0) else np.zeros(lam.size)
            o1 = h1*filt.j1 if np.ndim(h1) else np.zeros(lam.size)
            out[i, j] = (o0.sum()+o1.sum())/off[j]/(2*np.pi)
            sc[i, j] = (s0.sum() + s1.sum())/off[j]/(2*np.pi)
    return out, sc
