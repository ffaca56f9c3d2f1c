"""Deterministic analytic atmospheres on arbitrary grids.  Nothing here is random: every field is a closed formula."""
import numpy as np

PLEVS = {
    "std": np.array([960., 850., 700., 500., 300., 200., 100., 50.]),
    "dense": np.array([1000., 925., 850., 700., 600., 500., 400., 300., 250., 200., 150., 100., 70., 50., 30.]),
    "deep": np.array([1000., 900., 800., 700., 600., 500., 400., 300., 200., 150., 100., 70., 50., 30., 20., 10., 7., 5., 3., 2., 1.]),
    "era5": np.array([1000., 975., 950., 925., 900., 875., 850., 825., 800., 775., 750., 700., 650., 600., 550., 500., 450., 400., 350., 300., 250., 225.,
                      200., 175., 150., 125., 100., 70., 50., 30., 20., 10., 7., 5., 3., 2., 1.]),
    "below": np.array([1080., 1020., 900., 750., 520., 410., 280., 170., 90., 40., 15.]),
    "off": np.array([1013., 900., 750., 520., 410., 280., 170., 90., 40.]),
}
CONSTS = {
    "earth": {},
    "alt": dict(scale_height=8000., cp=1100., dry_gas_constant=300., omega=6.0e-5, planet_radius=5.0e6),
    "mars": dict(scale_height=11000., cp=735., dry_gas_constant=192., omega=7.09e-5, planet_radius=3.39e6),
    "giant": dict(scale_height=27000., cp=12360., dry_gas_constant=3745., omega=1.76e-4, planet_radius=7.1e7),
    "slow": dict(scale_height=15000., cp=900., dry_gas_constant=189., omega=1.2e-5, planet_radius=6.05e6),
    "fast": dict(scale_height=5200., cp=1500., dry_gas_constant=420., omega=4.5e-4, planet_radius=1.2e6),
    "exact": dict(scale_height=7432.14, cp=1005.6789, dry_gas_constant=287.0531, omega=7.2921159e-5, planet_radius=6371008.7714),
    "alt2": dict(scale_height=6000., cp=950., dry_gas_constant=260., omega=9.0e-5, planet_radius=7.2e6),
}
DEFAULT = dict(scale_height=7000., cp=1004., dry_gas_constant=287., omega=7.29e-5, planet_radius=6.378e6)


def consts(name):
    d = dict(DEFAULT)
    d.update(CONSTS[name])
    return d


def odd_lat(n):
    return np.linspace(-90., 90., n)


def even_lat(n, kind=None):
    """Latitudes without the equator: cell centres by default, else other layouts in use."""
    if kind == "poles":         # evenly spaced from pole to pole
        return np.linspace(-90., 90., n)
    if kind == "gauss":         # roots of the Legendre polynomial
        return np.rad2deg(np.arcsin(np.polynomial.legendre.leggauss(n)[0]))
    if kind == "stretched":     # denser in the tropics
        s = np.linspace(-1., 1., n)
        return 89.2 * (0.75 * s + 0.25 * s ** 3)
    if kind == "lopsided":
        return np.linspace(-88.3, 89.1, n)
    return np.linspace(-90., 90., n + 1)[:-1] + 90. / n


def lon(n):
    return np.arange(n) * 360. / n


def evenly_plev(kmax, dz, h, z0=0.):
    return 1000. * np.exp(-(z0 + np.arange(kmax) * dz) / h)


def atmosphere(name, plev, ylat, xlon, h=7000., rr=287., cp=1004.):
    """(u, v, T) of shape [plev, ylat, xlon]."""
    z = (-h * np.log(plev / 1000.))[:, None, None] / 1000.   # km
    phi = np.deg2rad(ylat)[None, :, None]
    lam = np.deg2rad(xlon)[None, None, :]
    one = np.ones((plev.size, ylat.size, xlon.size))
    s, c = np.sin(phi), np.cos(phi)
    jet = 28. * np.exp(-((np.abs(s) - 0.62) / 0.28) ** 2) * (0.25 + z / 12.) * np.exp(-z / 30.) * (1 + 0.25 * s) - 4. * c ** 4
    # nearly neutral with little meridional contrast, as stable as the stratosphere, usual
    lapse, contrast = {"weak": (0.7, 0.1), "stable": (27., 1.)}.get(name, (4.1, 1.))
    th = 288. + lapse * z + 0.02 * z ** 2 - contrast * (26. + 0.6 * z) * s ** 2 * np.exp(-z / 14.) * (1 + 0.12 * s)
    if name == "kink":      # a tropopause and layers, which the smoothing of the mean profile acts on
        th = th + 11. * np.maximum(z - 11.5, 0.) + 2.5 * np.sin(1.1 * z) + 1.2 * np.sin(2.3 * z + 0.8)
        name = "wave"
    if name == "rest":
        u, v, theta = 0 * one, 0 * one, (288. + 4.1 * z) * one
    elif name == "zonal":
        u, v, theta = jet * one, 0 * one, th * one
    elif name == "tropical":   # vortices on the equator stronger than the planet's rotation at the poles (on slow planets)
        w = np.exp(-(s / 0.3) ** 2)
        u = jet * one + 25. * np.cos(2 * lam + 0.4) * w * (s + 0.1)
        v = 280. * np.sin(2 * lam + 0.9 + 0.05 * z) * w + 6. * np.cos(lam + s) * c
        theta = th * one + 2.5 * np.cos(2 * lam + 0.4) * w * (0.4 + s) + 1.1 * np.sin(lam + s) * c
    elif name == "polar":   # easterly vortices that reverse the absolute vorticity at both poles, and a wave
        x = (90. - np.abs(ylat)[None, :, None]) / 15.
        w = np.cos(2 * lam + 0.4 + 0.11 * z) * c ** 2
        u = jet * one - 190. * x * np.exp(-x ** 2) * (1 + 0.1 * s) * (1 + 0.02 * z) + 8. * w
        v = 7. * np.sin(2 * lam + 0.9) * c * (1 + 0.4 * s) + 2. * np.cos(3 * lam + s) * c
        theta = th * one + 2.5 * w * (0.4 + s) + 1.1 * np.sin(lam + s) * c
    elif name in ("wave", "strong", "storm", "wave2", "weak", "stable"):
        amp = {"strong": 3.2, "storm": 9., "wave2": 0.6}.get(name, 1.)
        ph = {"wave": 0.3, "strong": 0.9, "wave2": 1.7}.get(name, 0.8)
        w1 = np.cos(2 * lam + ph + 0.11 * z) * c ** 2 * (s + 0.35)
        w2 = np.sin(lam - 0.5 * ph + 2.3 * s) * c * (1 + 0.5 * s)
        w3 = np.cos(3 * lam + 1.3 * s + 0.07 * z) * c ** 3
        u = jet * one + amp * (9. * w1 + 6.3 * w2 - 5.1 * w3) * (0.4 + z / 20.)
        v = amp * (11. * np.sin(2 * lam + ph + 0.2 + 0.09 * z) * c ** 2 * (0.7 + 0.4 * s)
                   + 7.7 * np.cos(lam + 1.9 * s + 0.4) * c ** 2 + 4.3 * np.sin(3 * lam - 0.6 * ph) * c ** 3 * s)
        theta = th * one + amp * contrast * (3.1 * np.cos(2 * lam + ph - 0.5) * c ** 2 * np.exp(-z / 9.) + 1.7 * w2 - 1.1 * w3 * s)
    elif name == "rough":
        # incommensurate, grid-scale variation in every direction; no symmetry of any kind
        i = np.arange(xlon.size)[None, None, :]
        j = ylat[None, :, None] / 10.
        k = z
        g = lambda a, b, d, e: np.sin(a * (i + 1) * 1.7 + b * j + d * k + e) * c
        u = jet * one + 7. * g(1.1, 2.3, 0.31, 0.2) + 3. * g(2.9, 0.7, 0.17, 1.1)
        v = 6. * g(0.77, 1.9, 0.23, 2.2) + 5. * g(3.3, 3.1, 0.41, 0.4)
        theta = th * one + 2.2 * g(1.9, 1.3, 0.12, 0.9) + 1.3 * g(2.2, 2.7, 0.05, 3.)
    elif name == "break":
        # overturned contours: along a meridian the potential vorticity crosses its reference value several times
        i = np.arange(xlon.size)[None, None, :]
        j = ylat[None, :, None] / 10.
        g = lambda a, b, d, e: np.sin(a * (i + 1) * 1.7 + b * j + d * z + e) * c
        u = jet * one + 9. * g(1.1, 2.9, 0.31, 0.2) + 4. * g(2.9, 0.7, 0.17, 1.1)
        v = 10. * g(0.77, 1.9, 0.23, 2.2) + 8. * g(3.3, 3.1, 0.41, 0.4)
        theta = th * one + 26. * g(1.9, 4.3, 0.62, 0.9) + 2. * g(2.2, 2.7, 0.35, 3.)
    else:
        raise KeyError(name)
    t = theta * ((plev / 1000.) ** (rr / cp))[:, None, None]
    return u * one, v * one, t * one
