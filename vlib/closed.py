"""Closed-form dipole fields in a homogeneous VTI full-space (own derivation
by Hankel-transform identities; complex128)."""
import numpy as np


def _mode(a2, k2, r, z):
    """For g = exp(-Gam|z|)/Gam, Gam^2 = a2*(k^2 + k2):
    I0 = int g J0 k dk, I1 = int g J1 dk, and the same with Gam^2 g."""
    a, k = np.sqrt(a2), np.sqrt(k2)
    R = np.sqrt(r**2 + a2*z**2 + 0j)
    az = a*abs(z)
    e = np.exp(-k*R)
    # d2/dz2 of exp(-kR)/(aR); d2/dz2 = a2 d/d(az)2
    d2 = e*((az**2*(3+3*k*R+k2*R**2) - R**2*(1+k*R))/R**5)
    I0, I0g = e/(a*R), a2*d2/a
    # I1 = (exp(-k az) - exp(-kR))/(r a k)
    x = k*(R - az)
    I1 = -np.exp(-k*az)*np.expm1(-x)/(r*a*k)
    # d2/dz2 of it
    de = e*(k2*az**2/R**2 - k*(R**2-az**2)/R**3)
    I1g = a2*(k2*np.exp(-k*az) - de)/(r*a*k)
    # Magnitude of what cancels between the two modes in I1 and I1g.
    s1 = np.abs(np.exp(-k*az))/np.abs(r*a*k)
    return I0, I1, I0g, I1g, s1, a2*np.abs(k2)*s1


def coplanar(eH, eV, zH, zV, comp, r, z, theta):
    """E field (comp 1, 2, 3 along itself) of an electric dipole along comp;
    with eta and zeta exchanged the H field of a magnetic one (44, 55, 66).
    Also the magnitude of the summands."""
    I0, I1, I0g, I1g, _, tsc = _mode(eH/eV, eV*zH, r, z)
    if comp == 3:
        # k^2 = Gam^2/a2 - k2
        out = eH/eV**2*(I0g*eV/eH - eV*zH*I0)/(4*np.pi)
        return out, np.abs(out)
    J0, J1, _, _, esc, _ = _mode(zH/zV, zV*eH, r, z)
    c, s = np.cos(theta)**2, np.sin(theta)**2
    if comp == 2:
        c, s = s, c
    # kx^2/k^2 -> c J0 + (s-c) J1/(kr);  ky^2/k^2 -> s J0 + (c-s) J1/(kr)
    tm = (c*I0g + (s-c)*I1g/r)/eH
    te = (s*J0 + (c-s)*J1/r)*zH
    sc = (np.abs(I0g)+tsc/r)/np.abs(eH) + (np.abs(J0)+esc/r)*np.abs(zH)
    return -(tm + te)/(4*np.pi), sc/(4*np.pi)
