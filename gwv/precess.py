"""Precessing waveforms: ell = 2 modes seen from a moving frame.

Written from the definition of the Wigner matrices, without the rotation
libraries that the code under test uses.
"""
import numpy as np

MS = (-2, -1, 0, 1, 2)


def wigner_d2(beta):
    """d^2_{m'm}(beta) as an array [..., m', m], m from -2 to 2."""
    b = np.asarray(beta, float)
    c, s = np.cos(b), np.sin(b)
    d = np.empty(b.shape + (5, 5))
    # standard table for (m', m)
    t = {
        (2, 2): (1 + c)**2 / 4, (2, 1): -s * (1 + c) / 2,
        (2, 0): np.sqrt(6) / 4 * s**2, (2, -1): -s * (1 - c) / 2,
        (2, -2): (1 - c)**2 / 4,
        (1, 1): (2 * c**2 + c - 1) / 2, (1, 0): -np.sqrt(1.5) * s * c,
        (1, -1): (-2 * c**2 + c + 1) / 2, (0, 0): (3 * c**2 - 1) / 2}
    for mp in MS:
        for m in MS:
            # d_{m'm} = (-1)^{m-m'} d_{mm'} = d_{-m,-m'}
            for (a, e, sg) in ((mp, m, 1), (m, mp, (-1) ** (m - mp)),
                               (-m, -mp, 1), (-mp, -m, (-1) ** (m - mp))):
                if (a, e) in t:
                    d[..., mp + 2, m + 2] = sg * t[(a, e)]
                    break
            else:
                raise AssertionError((mp, m))
    return d


def wigner_d(ell, beta):
    """d^ell_{m'm}(beta) as an array [..., m', m], from Wigner's sum."""
    b = np.asarray(beta, float)
    c, s = np.cos(b / 2), np.sin(b / 2)
    f = [1.0]
    for i in range(1, 2 * ell + 1):
        f.append(f[-1] * i)
    d = np.zeros(b.shape + (2 * ell + 1,) * 2)
    for p in range(-ell, ell + 1):
        for m in range(-ell, ell + 1):
            n = np.sqrt(f[ell + p] * f[ell - p] * f[ell + m] * f[ell - m])
            for k in range(max(0, m - p), min(ell + m, ell - p) + 1):
                d[..., p + ell, m + ell] += (
                    (-1) ** (p - m + k) * n
                    / (f[ell + m - k] * f[k] * f[p - m + k] * f[ell - p - k])
                    * c ** (2 * ell + m - p - 2 * k)
                    * s ** (p - m + 2 * k))
    return d


def rotate_all(modes, alpha, beta, gamma):
    """As `rotate`, of every ell there is."""
    n = len(next(iter(modes.values())))
    al, be, ga = (np.broadcast_to(np.asarray(x, float), (n,))
                  for x in (alpha, beta, gamma))
    out = {}
    for ell in sorted({k[0] for k in modes}):
        m = np.arange(-ell, ell + 1)
        h = np.array([modes[(ell, k)] for k in m], complex).T
        h = h * np.exp(-1j * np.outer(ga, m))
        h = np.einsum("tij,tj->ti", wigner_d(ell, be), h)
        h = h * np.exp(-1j * np.outer(al, m))
        out.update({(ell, int(k)): h[:, k + ell] for k in m})
    return out


def rotate(modes, alpha, beta, gamma):
    """h'_{m'} = sum_m D_{m'm} h_m for every sample."""
    n = len(next(iter(modes.values())))
    h = np.zeros((n, 5), complex)
    for (ell, m), v in modes.items():
        assert ell == 2
        h[:, m + 2] = v
    al, be, ga = (np.broadcast_to(np.asarray(x, float), (n,))
                  for x in (alpha, beta, gamma))
    m = np.array(MS)
    h = h * np.exp(-1j * np.outer(ga, m))
    h = np.einsum("tij,tj->ti", wigner_d2(be), h)
    h = h * np.exp(-1j * np.outer(al, m))
    return {(2, k): h[:, k + 2] for k in MS}


def aligned_modes(h22, small=0.0):
    """ell = 2 modes of an orbit in the x-y plane, all symmetric."""
    a, p = np.abs(h22), -np.unwrap(np.angle(h22))
    m = {(2, 2): h22, (2, -2): np.conj(h22),
         (2, 1): small * a * np.exp(-0.5j * p),
         (2, -1): -small * a * np.exp(0.5j * p),
         (2, 0): 0j * a}
    return m


def precession_angles(t, alpha0, rate, beta0, dbeta, brate):
    """Euler angles of a minimally rotating frame (gamma' = -alpha' cos b)."""
    beta = beta0 + dbeta * np.sin(brate * t)
    alpha = alpha0 + rate * t
    g = rate * np.cos(beta)
    dt = t[1] - t[0]
    gamma = -np.concatenate([[0], np.cumsum(0.5 * (g[1:] + g[:-1])) * dt])
    return alpha, beta, gamma
