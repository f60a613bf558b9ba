"""Synthetic eccentric inspirals with a closed-form answer.

A case is a plain JSON-able dict of parameters.  The waveform is a Kepler
orbit whose mean motion follows the leading-order chirp, whose eccentricity
decays as a power of the mean motion and whose pericenter advances:

    n(t)   = n0 (1 - t/T)^(-3/8)
    l(t)   = l0 + int n dt
    e(t)   = e0 (n/n0)^(-p)
    phi(t) = f(l, e) + k (n/n0)^(2/3) l

Because everything is closed form, the frequency of the (2, 2) mode at
pericenter/apocenter, hence e_gw(t), and the mean anomaly are known
independently of the code under test.
"""
import numpy as np

TWO_PI = 2 * np.pi


def kepler_E(l, e):
    """Solve Kepler's equation by Newton iteration (vectorised)."""
    m = np.mod(l, TWO_PI)
    E = m + e * np.sin(m) / np.maximum(1 - np.sin(m + e) + np.sin(m), 1e-3)
    E = np.where(np.isfinite(E), E, m)
    E = np.clip(E, 0, TWO_PI)
    for _ in range(60):
        d = (E - e * np.sin(E) - m) / (1 - e * np.cos(E))
        d = np.clip(d, -0.5, 0.5)
        E = E - d
        if np.max(np.abs(d)) < 1e-14:
            break
    return E + (l - m)


def true_anomaly(l, e):
    E = kepler_E(l, e)
    E0 = np.mod(E, TWO_PI)
    f = np.arctan2(np.sqrt(1 - e**2) * np.sin(E0), np.cos(E0) - e)
    f = np.mod(f, TWO_PI)
    # same branch as E: f and E agree at multiples of pi
    turns = E - E0
    # guard the 0 / 2 pi seam
    f = np.where((E0 > np.pi) & (f < 1e-6), f + TWO_PI, f)
    f = np.where((E0 < np.pi) & (f > TWO_PI - 1e-6), f - TWO_PI, f)
    return f + turns


class Synth:
    """Evaluate the closed-form model described by a parameter dict."""

    DEFAULTS = dict(
        e0=0.2, l0=1.0, n0=0.01, norb=20, ratio=3.0, p=19. / 18, k=0.03,
        phi0=0.0, amp=1.0, kind="kepler", ppo=60, merger=True, tshift=0.0)

    def __init__(self, case):
        c = dict(self.DEFAULTS)
        c.update({k: v for k, v in case.items() if k in self.DEFAULTS})
        self.c = c
        self.n0 = c["n0"]
        r = c["ratio"]
        self.n_end = self.n0 * r
        s = r ** (-8. / 3)
        self.T = TWO_PI * c["norb"] * 5. / 8 / (self.n0 * (1 - s**(5. / 8)))
        self.t_insp = self.T * (1 - s)
        self.dt = TWO_PI / self.n_end / c["ppo"]

    # ---- secular model (time measured from the start of the data) ----
    def n(self, t):
        return self.n0 * (1 - t / self.T) ** (-3. / 8)

    def l(self, t):
        return self.c["l0"] + self.n0 * self.T * 1.6 * (
            1 - (1 - t / self.T) ** 0.625)

    def e(self, t):
        return self.c["e0"] * (self.n(t) / self.n0) ** (-self.c["p"])

    def kadv(self, t):
        return self.c["k"] * (self.n(t) / self.n0) ** (2. / 3)

    def times(self):
        n_insp = int(np.floor(self.t_insp / self.dt))
        extra = int(2.5 * self.c["ppo"]) if self.c["merger"] else 0
        return np.arange(n_insp + extra) * self.dt

    def _freeze(self, t):
        """Secular quantities stop evolving after the inspiral ends."""
        return np.minimum(t, self.t_insp)

    def phase_amp(self, t, ecc=True):
        ti = self._freeze(t)
        n = self.n(ti)
        l = self.l(ti) + n * (t - ti)
        e = self.e(ti) if ecc else np.zeros_like(t)
        # decay the eccentricity through the "merger"
        if self.c["merger"]:
            e = e * np.exp(-((t - ti) * self.n_end / TWO_PI / 0.7) ** 2)
        f = true_anomaly(l, e)
        kl = self.kadv(ti) * (l - self.c["l0"])
        phi = f + kl + self.c["phi0"]
        x = 1 + e * np.cos(f)
        pref = (n / self.n0) ** (2. / 3) / (1 - e**2)
        if self.c["kind"] == "kepler":
            amp = pref * x**2
            phase = 2 * phi
        else:
            H = x + x**2 - (e * np.sin(f)) ** 2 + 2j * e * np.sin(f) * x
            amp = 0.5 * pref * np.abs(H)
            phase = 2 * phi - np.angle(H)
        if self.c["merger"]:
            tm = self.t_merger0()
            w = 0.45 * TWO_PI / self.n_end
            # peak is 3x anything before it
            B = 3 * self._amp_ceiling()
            amp = amp + B * np.exp(-((t - tm) / w) ** 2)
            amp = amp * np.where(t > tm, np.exp(
                -((t - tm) / (1.2 * w)) ** 2), 1.0)
        return phase, self.c["amp"] * amp

    def _amp_ceiling(self):
        e0 = self.c["e0"]
        return max((1 + e0) / (1 - e0) * (1 + e0 / 2) * 1.5,
                   2 * self.c["ratio"] ** (2. / 3))

    def t_merger0(self):
        return self.t_insp + 0.3 * TWO_PI / self.n_end

    # ---- data in the format of measure_eccentricity ----
    def data(self, rep="hlm", zeroecc=False):
        t = self.times()
        ph, am = self.phase_amp(t)
        d = {"t": t + self.c["tshift"]}
        if rep == "hlm":
            d["hlm"] = {(2, 2): am * np.exp(-1j * ph)}
        else:
            d["amplm"] = {(2, 2): am}
            d["phaselm"] = {(2, 2): ph}
        if zeroecc:
            # three orbits longer than the eccentric data at early times
            npre = int(3 * TWO_PI / self.n0 / self.dt)
            tz = np.concatenate([-np.arange(npre, 0, -1) * self.dt, t])
            phz, amz = self.phase_amp(tz, ecc=False)
            d["t_zeroecc"] = tz + self.c["tshift"]
            d["hlm_zeroecc"] = {(2, 2): amz * np.exp(-1j * phz)}
        return d

    # ---- closed-form truth ----
    def omega_extrema(self, t):
        """omega_22 at a pericenter/apocenter happening at time t."""
        n, e, k = self.n(t), self.e(t), self.kadv(t)
        eps = 1e-4 * TWO_PI / self.n0
        dl = self.l(t) - self.c["l0"]
        dk = self.c["k"] * (self.n(t + eps) ** (2. / 3)
                            - self.n(t - eps) ** (2. / 3)
                            ) / self.n0 ** (2. / 3) / (2 * eps) * dl
        fp = n * (1 + e) ** 2 / (1 - e**2) ** 1.5
        fa = n * (1 - e) ** 2 / (1 - e**2) ** 1.5
        if self.c["kind"] == "kepler":
            wp, wa = 2 * fp, 2 * fa
        else:
            wp, wa = fp * 4 / (2 + e), fa * 4 / (2 - e)
        return wp + 2 * (n * k + dk), wa + 2 * (n * k + dk)

    def truth_egw(self, t):
        wp, wa = self.omega_extrema(np.asarray(t, float))
        return egw_from_omegas(wp, wa)

    def anomaly_times(self, phase):
        """All times in the inspiral at which l = phase mod 2 pi."""
        l_lo, l_hi = self.l(0.0), self.l(self.t_insp)
        ks = np.arange(np.ceil((l_lo - phase) / TWO_PI),
                       np.floor((l_hi - phase) / TWO_PI) + 1)
        lt = phase + TWO_PI * ks
        u = 1 - (lt - self.c["l0"]) / (self.n0 * self.T * 1.6)
        return self.T * (1 - np.maximum(u, 0) ** 1.6)

    def truth_mean_anomaly(self, t):
        """Linear in time from 0 to 2 pi between true pericenters."""
        tp = self.anomaly_times(0.0)
        i = np.searchsorted(tp, t, side="right") - 1
        i = np.clip(i, 0, len(tp) - 2)
        return TWO_PI * (t - tp[i]) / (tp[i + 1] - tp[i])


def egw_from_omegas(wp, wa):
    """e_gw of arXiv:2302.11257, written independently of the code."""
    ew = (np.sqrt(wp) - np.sqrt(wa)) / (np.sqrt(wp) + np.sqrt(wa))
    psi = np.arctan2(1 - ew**2, 2 * ew)
    return np.cos(psi / 3) - np.sqrt(3) * np.sin(psi / 3)
