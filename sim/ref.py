"""Small executable reference models, written from the documentation and the
textbook physics, sharing no code with the package under test."""

import astropy.constants as ac
import astropy.units as u
import numpy as np

G = ac.G.to(u.R_sun**3 / u.M_sun / u.day**2).value
C = ac.c.to(u.R_sun / u.day).value
GCC = (1 * u.M_sun / u.R_sun**3).to(u.g / u.cm**3).value
AU = (1 * u.R_sun).to(u.au).value
MS = (1 * u.R_sun / u.day).to(u.m / u.s).value


# ---------------------------------------------------------------- Kepler
def kepler_E(M, e):
    """Eccentric anomaly, by bisection started Newton iteration."""
    M, e = np.broadcast_arrays(np.asarray(M, float), np.asarray(e, float))
    k = np.floor((M + np.pi) / (2 * np.pi))
    m = M - 2 * np.pi * k
    s = np.where(m < 0, -1.0, 1.0)
    m = np.abs(m)
    lo, hi = np.zeros_like(m), np.full_like(m, np.pi)
    E = np.where(e > 0.8, np.pi, m + e * np.sin(m))
    E = np.clip(E, lo, hi)
    for _ in range(100):
        f = E - e * np.sin(E) - m
        lo = np.where(f < 0, E, lo)
        hi = np.where(f > 0, E, hi)
        new = E - f / (1 - e * np.cos(E))
        bad = ~((new > lo) & (new < hi))
        new = np.where(bad, 0.5 * (lo + hi), new)
        if np.all(np.abs(new - E) <= 1e-15 * (1 + np.abs(E))):
            E = new
            break
        E = new
    return s * E + 2 * np.pi * k


def true_anomaly(M, e):
    E = kepler_E(M, e)
    k = np.floor((E + np.pi) / (2 * np.pi))
    return (
        2
        * np.arctan2(
            np.sqrt(1 + e) * np.sin(0.5 * E), np.sqrt(1 - e) * np.cos(0.5 * E)
        )
        + 0 * k
    )


class Orbit:
    """A star and any number of independent companions.

    All parameters are in the package's default units: days, R_sun, M_sun,
    g/cm^3, radians.  Scalars mean a single companion."""

    def __init__(
        self,
        period=None,
        a=None,
        t0=None,
        t_periastron=None,
        incl=None,
        b=None,
        duration=None,
        ecc=None,
        omega=None,
        Omega=None,
        m_planet=0.0,
        m_star=None,
        r_star=None,
        rho_star=None,
        ror=None,
        ttv=None,
    ):
        f = lambda x: None if x is None else np.asarray(x, float)  # noqa
        period, a, t0, t_periastron = f(period), f(a), f(t0), f(t_periastron)
        incl, b, duration, ecc = f(incl), f(b), f(duration), f(ecc)
        omega, Omega, mp = f(omega), f(Omega), f(m_planet)
        ms, rs, rho, ror = f(m_star), f(r_star), f(rho_star), f(ror)
        self.scalar = all(
            x is None or x.ndim == 0
            for x in (period, a, t0, t_periastron, incl, b, ecc, omega, Omega, mp)
        )
        self.daor = None
        if duration is not None and ecc is None:
            rs = f(1.0) if rs is None else rs
            k = 0.0 if ror is None else ror
            ph = np.pi * duration / period
            # the chord at +-duration/2 is where the centres are (1+k) apart:
            # (a/R)^2 sin^2(ph) + b^2 cos^2(ph) = (1+k)^2
            a = rs * np.sqrt((1 + k) ** 2 - b**2 * np.cos(ph) ** 2) / np.sin(ph)
            s_, c_ = np.sin(ph), np.cos(ph)
            # from the equation above
            self.daor = (
                (np.pi / period) * c_ * (b**2 - (a / rs) ** 2) / (s_ * a / rs)
            )
        if rs is None and (a is not None and period is not None):
            rs = f(1.0)
        if a is not None and period is not None:
            mt = 4 * np.pi**2 * a**3 / (G * period**2)
            ms = mt - mp
            rho = ms / (4 / 3 * np.pi * rs**3) * GCC
        else:
            if ms is None and rs is None:
                rs = f(1.0)
                if rho is None:
                    ms = f(1.0)
            if rho is None:
                rho = ms / (4 / 3 * np.pi * rs**3) * GCC
            elif ms is None:
                ms = rho / GCC * 4 / 3 * np.pi * rs**3
            elif rs is None:
                rs = (ms / (4 / 3 * np.pi * rho / GCC)) ** (1 / 3)
            if a is None:
                a = (G * (ms + mp) * (period / (2 * np.pi)) ** 2) ** (1 / 3)
            else:
                period = 2 * np.pi * np.sqrt(a**3 / (G * (ms + mp)))
        self.period, self.a = period, a
        self.m_star, self.r_star, self.rho_star, self.m_planet = ms, rs, rho, mp
        self.ecc, self.omega, self.Omega = ecc, omega, Omega
        self.circ = ecc is None
        e = f(0.0) if ecc is None else ecc
        # a circular orbit has no periastron; by convention it is at the node
        w = f(0.0) if ecc is None else omega
        self.e, self.w = e, w
        self.n = 2 * np.pi / period
        # transit is at true anomaly pi/2 - omega
        f0 = 0.5 * np.pi - w
        f0 = np.arctan2(np.sin(f0), np.cos(f0))
        E0 = 2 * np.arctan2(
            np.sqrt(1 - e) * np.sin(0.5 * f0), np.sqrt(1 + e) * np.cos(0.5 * f0)
        )
        self.M0 = E0 - e * np.sin(E0)
        # separation at transit / a
        self.r0 = (1 - e**2) / (1 + e * np.sin(w))
        if duration is not None and ecc is not None:
            # Winn (2010) eqs. 7, 14 and 16 for the duration between the
            # moments the planet's centre crosses the limb
            c2 = (
                np.sin(
                    np.pi
                    * duration
                    / period
                    * (1 + e * np.sin(w))
                    / np.sqrt(1 - e**2)
                )
                ** 2
            )
            aor = a / rs
            # (1-b^2) = aor^2 c2 sin^2 i  with  b = aor r0 cos i
            ci2 = (1 - aor**2 * c2) / (aor**2 * (self.r0**2 - c2))
            b = aor * self.r0 * np.sqrt(ci2)
        if b is not None:
            self.b = b
            self.cosi = b * rs / (a * self.r0)
            self.incl = np.arccos(self.cosi)
        elif incl is not None:
            self.incl = incl
            self.cosi = np.cos(incl)
            self.b = self.cosi * a * self.r0 / rs
        else:
            self.incl = 0.5 * np.pi + 0 * a
            self.cosi = 0 * a
            self.b = 0 * a
        self.sini = np.sqrt(1 - self.cosi**2)
        if incl is not None:
            self.sini = np.sin(incl)
        if t0 is None and t_periastron is None:
            t0 = 0 * period
        if t0 is None:
            self.t_periastron = t_periastron
            self.t0 = t_periastron + self.M0 / self.n
        else:
            self.t0 = t0
            self.t_periastron = t0 - self.M0 / self.n
        mt = ms + mp
        self.m_total = mt
        self.a_star, self.a_planet = a * mp / mt, -a * ms / mt
        self.cos_incl, self.sin_incl = self.cosi, self.sini
        self.K0 = self.n * a / mt / np.sqrt(1 - e**2)
        self.ttv = ttv
        self.npl = 1
        for x in (period, a, self.b, self.incl, e, w, mp, self.t0, ms):
            if x.ndim:
                self.npl = max(self.npl, x.shape[0])

    def jac(self, what):
        """Derivative of a derived parameter by the duration, for fixed
        period, radius and planet mass."""
        da = self.r_star * self.daor
        # the total mass goes like a**3
        if what == "a":
            return da
        if what == "a_star":
            return -2 * da * self.m_planet / self.m_total
        if what == "a_planet":
            return -da * (1 + 2 * self.m_planet / self.m_total)
        dm = 3 * self.m_total / self.a * da
        return dm / (4 / 3 * np.pi * self.r_star**3) * GCC

    # -- per planet vectors (npl,)
    def _v(self, x):
        return np.broadcast_to(np.asarray(x, float), (self.npl,))

    def since_transit(self, t):
        """Time since the reference transit, shape t.shape + (npl,)."""
        t = np.asarray(t, float)[..., None]
        if self.ttv is None:
            return t - self._v(self.t0)
        return np.concatenate(
            [t - self.ttv.nearest(j, t) for j in range(self.npl)], axis=-1
        )

    def _f(self, dt):
        return true_anomaly(
            self.n * dt + self.M0, np.broadcast_to(self.e, dt.shape)
        )

    def _rot(self, x, y, z):
        if self.Omega is None:
            return x, y, z
        c, s = np.cos(self.Omega), np.sin(self.Omega)
        return c * x - s * y, s * x + c * y, z

    def rel_dt(self, dt):
        """Planet minus star; +z towards the observer."""
        f = self._f(dt)
        r = self.a * (1 - self.e**2) / (1 + self.e * np.cos(f))
        th = self.w + f
        return self._rot(
            -r * np.cos(th),
            -r * np.sin(th) * self.cosi,
            r * np.sin(th) * self.sini,
        )

    def relvel_dt(self, dt):
        f = self._f(dt)
        k = self.n * self.a / np.sqrt(1 - self.e**2)
        th = self.w + f
        vx = -k * (-(np.sin(th) + self.e * np.sin(self.w)))
        vy = -k * (np.cos(th) + self.e * np.cos(self.w)) * self.cosi
        vz = k * (np.cos(th) + self.e * np.cos(self.w)) * self.sini
        return self._rot(vx, vy, vz)

    def relacc_dt(self, dt):
        x, y, z = self.rel_dt(dt)
        r2 = x**2 + y**2 + z**2
        g = -self.n**2 * self.a**3 / r2**1.5
        return g * x, g * y, g * z

    def scale(self, who):
        mt = self.m_star + self.m_planet
        if who == "planet":
            return self.m_star / mt
        if who == "star":
            return -self.m_planet / mt
        return 1.0

    def pos(self, who, t, parallax=None, light_delay=False):
        dt = self.since_transit(t)
        s = self.scale(who)
        if light_delay:
            # emission time: t_em = t + z(t_em)/c, z towards the observer
            d = np.zeros_like(dt)
            for _ in range(60):
                z = s * self.rel_dt(dt + d)[2]
                d = z / C
            dt = dt + d
        k = s
        if parallax is not None:
            k = k * parallax * AU
        return tuple(k * c for c in self.rel_dt(dt))

    def delay_tol(self, who, t, parallax=None):
        """Size of the neglected (third order) part of the delay."""
        dt = self.since_transit(t)
        s = np.abs(self.scale(who))
        z = s * np.abs(self.rel_dt(dt)[2])
        v = s * np.sqrt(sum(c**2 for c in self.relvel_dt(dt)))
        a = s * np.sqrt(sum(c**2 for c in self.relacc_dt(dt)))
        D = s * self.a * (1 + self.e) / C + 0 * z
        beta = s * self.n * self.a / np.sqrt(1 - self.e**2) * (1 + self.e) / C
        tol = 3 * v * D * beta**3 / (1 - self.e) ** 4 + 0 * a
        if parallax is not None:
            tol = tol * parallax * AU
        return tol

    def at_apoastron(self, t, light_delay=False):
        """Is any planet within 2.5e-5 of apoastron (in eccentric anomaly)?
        There the Kepler solver of exoplanet_core answers for apoastron."""
        f = self._f(self.since_transit(t))
        E = 2 * np.arctan2(
            np.sqrt(1 - self.e) * np.sin(0.5 * f),
            np.sqrt(1 + self.e) * np.cos(0.5 * f),
        )
        tol = 2.5e-5
        if light_delay:
            tol = tol + 1.2 * self.n * self.a * (1 + self.e) / C
        return bool(np.any(np.abs(np.abs(np.arctan2(np.sin(E), np.cos(E))) - np.pi) < tol))

    def vel(self, who, t):
        s = self.scale(who)
        return tuple(s * c for c in self.relvel_dt(self.since_transit(t)))

    def acc(self, who, t):
        s = self.scale(who)
        return tuple(s * c for c in self.relacc_dt(self.since_transit(t)))

    def rv(self, t, K=None, unit=MS):
        if K is not None:
            f = self._f(self.since_transit(t))
            # a circular orbit recedes fastest a quarter period after transit
            # of the convention used here: K cos(w+f) + K e cos(w)
            return K * (np.cos(self.w + f) + self.e * np.cos(self.w))
        # redshift positive: minus the star's velocity towards the observer
        return -unit * self.vel("star", t)[2]

    # -- transits
    def sep(self, t, light_delay=False):
        x, y, z = self.pos("rel", t, light_delay=light_delay)
        return np.sqrt(x**2 + y**2), z

    def transit_sets(self, t, r, texp=None, margin=1e-6, nsub=41):
        """(must, mustnot): timestamps surely (not) covered by a transit."""
        t = np.asarray(t, float)
        R = self.r_star + np.broadcast_to(np.asarray(r, float), (self.npl,))
        if texp is None:
            tt = t[:, None]
        else:
            h = 0.5 * np.broadcast_to(np.asarray(texp, float), t.shape)
            tt = t[:, None] + h[:, None] * np.linspace(-1, 1, nsub)
        s, z = self.sep(tt)
        inside = np.any((s < R - margin) & (z > 0), axis=(1, 2))
        if texp is None:
            near = np.any((s < R + margin) & (z > -margin), axis=(1, 2))
        else:
            # between subsamples the separation moves by at most v*dt
            v = np.sqrt(sum(c**2 for c in self.vel("rel", tt)))
            step = (2 * h / (nsub - 1))[:, None, None]
            near = np.any(
                (s < R + margin + v * step) & (z > -v * step - margin),
                axis=(1, 2),
            )
        return inside, ~near

    def all_transit(self, r):
        """Does every planet surely transit?"""
        k = np.asarray(r, float) / self.r_star
        return bool(np.all(np.abs(self.b) < (1 + k) * 0.999))


# ------------------------------------------------------------------ TTVs
class TTV:
    """Labelled transits: planet j has transits number 0..max; unlabelled
    numbers sit on the linear ephemeris."""

    def __init__(self, times, inds, t0, period):
        # times/inds: list of arrays; t0, period: linear ephemeris
        self.full = []
        for ti, ii, t, p in zip(times, inds, t0, period):
            full = t + p * np.arange(int(np.max(ii)) + 1)
            full[np.asarray(ii, int)] = ti
            self.full.append(full)

    def nearest(self, j, t):
        f = self.full[j]
        i = np.argmin(np.abs(np.asarray(t)[..., None] - f), axis=-1)
        return f[i]

    def ambiguous(self, j, t, tol=1e-9):
        f = self.full[j]
        mids = 0.5 * (f[1:] + f[:-1])
        if not len(mids):
            return np.zeros(np.shape(t), bool)
        return np.any(np.abs(np.asarray(t)[..., None] - mids) < tol, axis=-1)


def linfit(inds, times):
    inds = np.asarray(inds, float)
    A = np.vander(inds, 2)
    p, t0 = np.linalg.lstsq(A, np.asarray(times, float), rcond=None)[0]
    return t0, p


# --------------------------------------------------------- limb darkening
_X, _W = np.polynomial.legendre.leggauss(80)
_U = 0.5 * (_X + 1)
_UW = 0.5 * _W


def _intensity(rho, u1, u2):
    mu = np.sqrt(np.clip(1 - rho**2, 0, None))
    return 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2


def _ring_flux(lo, hi, u1, u2):
    """Integral of I over the full rings lo..hi, analytic (u1,u2 scalar)."""

    def F(rho):
        # int 2 pi rho I d rho, with m = sqrt(1-rho^2), rho d rho = -m dm
        m = np.sqrt(np.clip(1 - rho**2, 0, None))
        return -2 * np.pi * (
            (1 - u1 - u2) * m**2 / 2 + (u1 + 2 * u2) * m**3 / 3 - u2 * m**4 / 4
        )

    return F(hi) - F(lo)


def ld_flux(b, k, u1, u2):
    """Relative flux minus one of a disk of radius k at separation b in front
    of a quadratically limb darkened unit disk, by direct integration."""
    b, k = np.broadcast_arrays(
        np.abs(np.asarray(b, float)), np.abs(np.asarray(k, float))
    )
    shape = b.shape
    b, k = b.ravel(), k.ravel()
    tot = np.pi * (1 - u1 / 3 - u2 / 6)
    out = np.zeros(b.shape)
    sel = np.nonzero((b < 1 + k) & (k > 0) & np.isfinite(b) & np.isfinite(k))[0]
    if len(sel):
        bb, kk = b[sel], k[sel]
        blocked = np.zeros(len(sel))
        full = np.clip(kk - bb, 0, 1)
        blocked += _ring_flux(np.zeros_like(full), full, u1, u2)
        lo = np.clip(np.abs(kk - bb), 0, 1)
        hi = np.clip(bb + kk, 0, 1)
        arc = hi > lo
        L, H = lo[arc][:, None], hi[arc][:, None]
        B, K = bb[arc][:, None], kk[arc][:, None]
        # smooth both end points: rho = L + (H-L) sin^4-like substitution
        th = _U * 0.5 * np.pi
        s = np.sin(th) ** 2
        ds = 2 * np.sin(th) * np.cos(th) * 0.5 * np.pi
        # a second substitution makes the square roots analytic
        s2 = np.sin(0.5 * np.pi * s) ** 2
        ds2 = np.sin(0.5 * np.pi * s) * np.cos(0.5 * np.pi * s) * np.pi * ds
        rho = L + (H - L) * s2
        w = _UW * (H - L) * ds2
        den = 2 * rho * B
        with np.errstate(all="ignore"):
            ca = (rho**2 + B**2 - K**2) / den
        ca = np.where(den > 0, ca, -1.0)
        ang = np.arccos(np.clip(ca, -1, 1))
        blocked[arc] += np.sum(
            w * 2 * ang * rho * _intensity(rho, u1, u2), axis=1
        )
        out[sel] = -blocked / tot
    return out.reshape(shape)


def stencil(oversample, order):
    n = int(oversample)
    n += 1 - n % 2
    if order == 0:
        dt = (np.arange(n) + 0.5) / n - 0.5
        w = np.ones(n)
    else:
        dt = np.arange(n) / (n - 1) - 0.5 if n > 1 else np.zeros(1)
        if order == 1:
            w = np.ones(n)
            w[1:-1] = 2
        else:
            w = np.ones(n)
            w[1:-1:2] = 4
            w[2:-1:2] = 2
    return dt, w / w.sum()


def light_curve(
    coords, r_star, r, u1, u2, t, texp=None, oversample=7, order=0
):
    """coords(t) -> x, y, z with shape t.shape + (npl,)."""
    t = np.asarray(t, float)
    r = np.atleast_1d(np.asarray(r, float))
    if texp is None:
        tt, w = t[:, None], np.ones(1)
    else:
        dt, w = stencil(oversample, order)
        tt = t[:, None] + np.broadcast_to(
            np.asarray(texp, float), t.shape
        )[:, None] * dt
    x, y, z = coords(tt)
    x, y, z = (
        np.broadcast_to(c, tt.shape + (len(r),)) for c in (x, y, z)
    )
    b = np.sqrt(x**2 + y**2) / r_star
    f = ld_flux(b, r / r_star + 0 * b, u1, u2)
    f = np.where(z > 0, f, 0.0)
    return np.einsum("j,ijk->ik", w, f)


# -------------------------------------------------------- simple orbit
class Simple:
    def __init__(self, period, duration, t0=0.0, b=0.0, r_star=1.0, ror=0.0):
        g = lambda x: np.asarray(x, float)  # noqa
        self.period, self.duration, self.t0 = g(period), g(duration), g(t0)
        self.b, self.r_star, self.ror = g(b), g(r_star), g(ror)
        self.npl = int(np.broadcast(*(np.atleast_1d(x) for x in (
            self.period, self.duration, self.t0, self.b, self.ror))).size)
        self.speed = (
            2 * self.r_star * np.sqrt((1 + self.ror) ** 2 - self.b**2)
        ) / self.duration

    def dt(self, t):
        t = np.asarray(t, float)[..., None]
        x = np.broadcast_to(t - self.t0, t.shape[:-1] + (self.npl,))
        k = np.round(x / self.period)
        return x - k * self.period

    def pos(self, t):
        d = self.dt(t)
        return (
            self.speed * d,
            self.b * self.r_star + 0 * d,
            np.where(np.abs(d) < 0.5 * self.duration, 1.0, -1.0),
        )

    def edge(self, t, tol=1e-9):
        """Too close to a discontinuity to call."""
        d = self.dt(t)
        return np.any(
            (np.abs(np.abs(d) - 0.5 * self.duration) < tol)
            | (np.abs(np.abs(d) - 0.5 * self.period) < tol),
            axis=-1,
        )

    def in_transit(self, t, r=None, texp=None, tol=1e-9):
        d = np.abs(self.dt(t))
        if r is None:
            lim = 0.5 * self.duration + 0 * d
        else:
            with np.errstate(invalid="ignore"):
                lim = (
                    np.sqrt((r + self.r_star) ** 2 - (self.b * self.r_star) ** 2)
                    / self.speed
                    + 0 * d
                )
        if texp is not None:
            lim = lim + 0.5 * np.broadcast_to(texp, np.shape(t))[..., None]
        must = np.any(d < lim - tol, axis=-1)
        mustnot = ~np.any(d < lim + tol, axis=-1)
        return must, mustnot


# -------------------------------------------------------- interpolation
def interp_nd(points, values, coords, fill=None):
    points = [np.asarray(p, float) for p in points]
    values = np.asarray(values, float)
    coords = np.asarray(coords, float)
    nd = len(points)
    out = np.zeros(coords.shape[:-1] + values.shape[nd:])
    it = np.ndindex(*coords.shape[:-1])
    for ix in it:
        x = coords[ix]
        outside = False
        v = values
        for d in range(nd):
            g = points[d]
            if x[d] < g[0] or x[d] > g[-1]:
                outside = True
            i = 0
            while i < len(g) - 2 and x[d] > g[i + 1]:
                i += 1
            w = (x[d] - g[i]) / (g[i + 1] - g[i])
            v = v[i] * (1 - w) + v[i + 1] * w
        if outside and fill is not None:
            v = fill + 0 * v
        out[ix] = v
    return out
