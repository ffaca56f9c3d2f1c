"""Reference model: float64, loop-free-of-cleverness numpy restatement of the documented definitions.

Arrays are in python order: 3-D fields are [level, latitude, longitude].  Nothing here imports falwa.
"""
import itertools
import numpy as np
from scipy.interpolate import UnivariateSpline

PI = np.pi


# ---------------------------------------------------------------- grids / interpolation
def linear_extrap(x, y, xq, axis):
    """Piecewise-linear interpolation of y(x) along `axis`, linear extrapolation beyond the ends."""
    x = np.asarray(x, float)
    y = np.moveaxis(np.asarray(y, float), axis, 0)
    if x[0] > x[-1]:
        x, y = x[::-1], y[::-1]
    xq = np.asarray(xq, float)
    i = np.clip(np.searchsorted(x, xq, side="right") - 1, 0, x.size - 2)
    w = (xq - x[i]) / (x[i + 1] - x[i])
    sh = (-1,) + (1,) * (y.ndim - 1)
    out = y[i] * (1 - w).reshape(sh) + y[i + 1] * w.reshape(sh)
    return np.moveaxis(out, 0, axis)


def analysis_lat(ylat):
    ylat = np.asarray(ylat, float)
    return ylat if (ylat == 0).sum() == 1 else np.linspace(-90., 90., ylat.size + 1)


def pseudoheight(plev, h):
    return -h * np.log(np.asarray(plev, float) / 1000.)


def potential_temperature(t, plev, rr, cp):
    return t * ((1000. / np.asarray(plev, float)) ** (rr / cp))[:, None, None]


def hemispheric_stability(theta, plev, ylat, h, nrow, z):
    """t0 and d(t0)/dz for (south, north): spline through the cos-weighted mean over the nrow polar-most rows."""
    zp = pseudoheight(plev, h)
    w = np.abs(np.cos(np.deg2rad(ylat)))
    zm = theta.mean(axis=-1)
    t_s = (zm[:, :nrow] * w[:nrow]).sum(1) / w[:nrow].sum()
    t_n = (zm[:, -nrow:] * w[-nrow:]).sum(1) / w[-nrow:].sum()
    out = []
    for t in (t_s, t_n):
        f = UnivariateSpline(zp, t)
        out.append((f(z), f.derivative()(z)))
    return out  # [(t0_s, stat_s), (t0_n, stat_n)]


# ---------------------------------------------------------------- PV
def avort_model(u, v, om, a, dlam):
    nlev, nlat, nlon = u.shape
    phi = np.linspace(-PI / 2, PI / 2, nlat)
    dphi = PI / (nlat - 1)
    c = np.cos(phi)
    out = np.zeros_like(u)
    dv = (np.roll(v, -1, 2) - np.roll(v, 1, 2))
    uc = u * c[None, :, None]
    inn = slice(1, nlat - 1)
    out[:, inn] = (2 * om * np.sin(phi[inn]))[None, :, None] \
        + dv[:, inn] / (2 * a * c[inn] * dlam)[None, :, None] \
        - (uc[:, 2:] - uc[:, :-2]) / (2 * a * c[inn] * dphi)[None, :, None]
    out[:, 0] = out[:, 1].mean(-1, keepdims=True)
    out[:, -1] = out[:, -2].mean(-1, keepdims=True)
    return out


def _stretch(theta, t0, stat, z, h):
    """e^{z/H} d/dz [ e^{-z/H} (theta - t0)/stat ] on interior levels (centred difference)."""
    g = np.exp(-z / h)[:, None, None] * (theta - t0[:, None, None]) / stat[:, None, None]
    return np.exp(z[1:-1] / h)[:, None, None] * (g[2:] - g[:-2]) / (z[2:] - z[:-2])[:, None, None]


def qgpv_nh18(u, v, theta, z, t0, stat, om, a, h, dlam):
    av = avort_model(u, v, om, a, dlam)
    pv = np.zeros_like(av)
    zm = av.mean(-1, keepdims=True)
    pv[1:-1] = av[1:-1] + zm[1:-1] * _stretch(theta, t0, stat, z, h)
    return pv, av


def qgpv_nhn22(u, v, theta, z, south, north, eq_row, om, a, h, dlam):
    """rows 0..eq_row use the southern profile, the rest the northern one."""
    av = avort_model(u, v, om, a, dlam)
    nlat = u.shape[1]
    f = 2 * om * np.sin(np.linspace(-PI / 2, PI / 2, nlat))
    pv = np.zeros_like(av)
    s = _stretch(theta, south[0], south[1], z, h)
    n = _stretch(theta, north[0], north[1], z, h)
    st = np.where((np.arange(nlat) <= eq_row)[None, :, None], s, n)
    pv[1:-1] = av[1:-1] + f[None, :, None] * st
    return pv, av


# ---------------------------------------------------------------- area analysis
def area_profile(q, npart, a, dphi, dlam, nd, tol=2e-4, max_groups=8, target=None):
    """Candidate (Q, C) profiles for nd latitudes equator..pole from the global map q[nlat, nlon].

    Q(phi): contour value enclosing (to one contour bin) the area poleward of phi;  C: area integral of q
    over that region.  Pixels whose bin cannot be decided in single precision are tried both ways, so a
    list of candidates is returned.  When more than max_groups values are undecided: None, or with a target profile
    the assignment that explains it best, found value by value (every value concerns only the rows near its contour).
    """
    nlat, nlon = q.shape
    phi = np.linspace(-PI / 2, PI / 2, nlat)
    area = (a * a * dphi * dlam * np.cos(phi))[:, None] * np.ones((1, nlon))
    qmax, qmin = q.max(), q.min()
    dq = (qmax - qmin) / (npart - 1)
    if not dq > 0:
        return None
    x = (qmax - q) / dq
    b = np.floor(x).astype(int)
    scale = max(abs(qmax), abs(qmin)) / dq * 1.2e-7 * 4 + npart * 1.2e-7 * 2
    eps = max(tol * 0, scale)
    near = np.abs(x - np.round(x)) <= eps
    near &= ~(q == qmax)          # x == 0 exactly
    near &= area > 1e-6 * area.max()
    groups = {}
    for (j, i) in np.argwhere(near):
        groups.setdefault(q[j, i], []).append((j, i))
    if len(groups) > max_groups and (target is None or len(groups) > 200):
        return None
    alat = 2 * PI * a * a * (1 - np.sin(dphi * np.arange(nd)))
    qn = qmax - dq * np.arange(npart)
    base = b.copy()
    base[q == qmax] = 0
    cands = []
    keys = list(groups)

    def profile(choice):
        bb = base.copy()
        for kkey, c in zip(keys, choice):
            for (j, i) in groups[kkey]:
                bb[j, i] = int(round(x[j, i])) - c
        bb = np.clip(bb, 0, npart - 1)
        an = np.bincount(bb.ravel(), area.ravel(), npart)
        cn = np.bincount(bb.ravel(), (area * q).ravel(), npart)
        aan = np.concatenate([[0.], np.cumsum(an[1:])])
        ccn = np.concatenate([[0.], np.cumsum(cn[1:])])
        qr = np.zeros(nd)
        cr = np.zeros(nd)
        for j in range(nd - 1):
            hit = np.nonzero((aan[:-1] <= alat[j]) & (aan[1:] > alat[j]))[0]
            if hit.size:
                n = hit[-1]
                w = (alat[j] - aan[n]) / (aan[n + 1] - aan[n])
                qr[j] = qn[n] * (1 - w) + qn[n + 1] * w
                cr[j] = ccn[n] * (1 - w) + ccn[n + 1] * w
        qr[-1] = qmax
        return qr, cr

    if len(keys) > max_groups:
        choice = [0] * len(keys)
        err = np.abs(profile(choice)[0] - target)[1:].sum()
        for g in range(len(keys)):
            other = choice[:g] + [1] + choice[g + 1:]
            e = np.abs(profile(other)[0] - target)[1:].sum()
            if e < err:
                choice, err = other, e
        return [profile(choice)]
    for choice in itertools.product((0, 1), repeat=len(keys)):
        qr, cr = profile(choice)
        # assignments that make no difference to any row are one and the same profile
        if not any(np.array_equal(qr, p) and np.array_equal(cr, r) for p, r in cands):
            cands.append((qr, cr))
    return cands


def area_slack(q, npart, a, dphi, dlam, nd):
    """How far single-precision rounding of areas can move each row of Q (equator..pole).

    Matters where a row falls into a contour bin that holds very little area, or next to empty bins."""
    nlat, nlon = q.shape
    area = (a * a * dphi * dlam * np.cos(np.linspace(-PI / 2, PI / 2, nlat)))[:, None] * np.ones((1, nlon))
    qmax, qmin = q.max(), q.min()
    dq = (qmax - qmin) / (npart - 1)
    if not dq > 0:
        return np.zeros(nd)
    b = np.clip(np.floor((qmax - q) / dq).astype(int), 0, npart - 1)
    aan = np.concatenate([[0.], np.cumsum(np.bincount(b.ravel(), area.ravel(), npart)[1:])])
    qn = qmax - dq * np.arange(npart)

    def value(x):
        n = np.clip(np.searchsorted(aan, x, side="right") - 1, 0, npart - 2)
        w = np.clip((x - aan[n]) / np.maximum(aan[n + 1] - aan[n], 1e-300), 0., 1.)
        return qn[n] * (1 - w) + qn[n + 1] * w
    full = 2 * PI * a * a
    x = full * (1 - np.sin(dphi * np.arange(nd)))
    err = 2.5e-7 * full + 1e-6 * x
    out = np.maximum(np.abs(value(x + err) - value(x)), np.abs(value(np.maximum(x - err, 0.)) - value(x)))
    out[-1] = 0.
    return out


def circulation_zonal_mean(qbar, a, dphi):
    """C̄(phi): area integral of the zonal-mean q poleward of phi (trapezoid), nd rows equator..pole."""
    nd = qbar.size
    c = np.zeros(nd)
    for j in range(nd - 2, -1, -1):
        c[j] = c[j + 1] + 0.5 * (qbar[j + 1] + qbar[j]) * a * dphi * 2 * PI * a * np.cos(dphi * (j + 0.5))
    return c


# ---------------------------------------------------------------- reference states
def _elliptic_coeffs(jj, k, z, stat, dphi, dz, om, a, h, rr, rkappa):
    """Coefficients at row jj (0 = equator) and level k of the reference-wind equation."""
    p0, pp, pm = jj * dphi, (jj + 0.5) * dphi, (jj - 0.5) * dphi
    zp, zm = 0.5 * (z[k + 1] + z[k]), 0.5 * (z[k - 1] + z[k])
    sp, sm = 0.5 * (stat[k + 1] + stat[k]), 0.5 * (stat[k - 1] + stat[k])
    fact = 4 * om * om * h * a * a * np.sin(p0) * dphi * dphi / (dz * dz * rr * np.cos(p0)) * np.exp(z[k] / h)
    A = 1 / (np.sin(pp) * np.cos(pp))
    B = 1 / (np.sin(pm) * np.cos(pm))
    C = fact * np.exp(-zp / h + rkappa * zp / h) / sp
    D = fact * np.exp(-zm / h + rkappa * zm / h) / sm
    return A, B, C, D


def tref_from_uref(u, tb, jb, dphi, dz, om, a, h, rr, rkappa, z0=0.):
    """Thermal-wind temperature with the given hemispheric mean tb(k); u[row, k] from row jb to the pole."""
    jd, kmax = u.shape
    t = np.zeros((jd, kmax))
    w = np.cos((np.arange(jd) + jb) * dphi)
    for k in range(1, kmax - 1):
        zz = z0 + dz * k
        for j in range(1, jd - 1):
            f = 2 * om * np.sin((j + jb) * dphi)
            uz = (u[j, k + 1] - u[j, k - 1]) / (2 * dz)
            t[j + 1, k] = t[j - 1, k] - 2 * dphi * f * uz * a * h * np.exp(rkappa * zz / h) / rr
        t[:, k] += tb[k] - (w * t[:, k]).sum() / w.sum()
    t[:, 0] = t[:, 1] - tb[1] + tb[0]
    t[:, -1] = t[:, -2] - tb[-2] + tb[-1]
    return t


def solve_nh18(qn, cref, cbar, ubar, tbar, tb, stat, nd, kmax, dphi, dz, om, a, h, rr, cp, z0=0.):
    """Direct dense solve of the NH18 reference-wind problem for one hemisphere.

    qn[row,k]: reference PV divided by the Coriolis parameter (row 0 = equator)."""
    rk = rr / cp
    z = z0 + dz * np.arange(kmax)
    nj = nd - 2
    nk = kmax - 2
    N = nj * nk
    M = np.zeros((N, N))
    R = np.zeros(N)
    idx = lambda j, k: (j - 1) * nk + (k - 1)
    left = np.zeros(kmax)
    for k in range(1, kmax - 1):
        left[k] = ubar[0, k] + (cref[0, k] - cbar[0, k]) / (2 * PI * a)
    uz = np.zeros(nd)
    for j in range(1, nd - 1):
        p = j * dphi
        uz[j] = dz * rr * np.cos(p) * np.exp(-z[kmax - 2] * rk / h) * (tbar[j + 1, kmax - 2] - tbar[j - 1, kmax - 2]) \
            / (2 * om * np.sin(p) * dphi * h * a)
    for j in range(1, nd - 1):
        for k in range(1, kmax - 1):
            A, B, C, D = _elliptic_coeffs(j, k, z, stat, dphi, dz, om, a, h, rr, rk)
            r = idx(j, k)
            R[r] = -om * a * dphi * (qn[j + 1, k] - qn[j - 1, k])
            M[r, r] -= A + B + C + D
            if j + 1 < nd - 1:
                M[r, idx(j + 1, k)] += A
            if j - 1 >= 1:
                M[r, idx(j - 1, k)] += B
            else:
                R[r] -= B * left[k]
            if k + 1 <= kmax - 2:
                M[r, idx(j, k + 1)] += C
            else:  # u(top) = u(top-2) - uz
                if kmax - 3 >= 1:
                    M[r, idx(j, kmax - 3)] += C
                R[r] += C * uz[j]
            if k - 1 >= 1:
                M[r, idx(j, k - 1)] += D
    x = np.linalg.solve(M, R)
    u = np.zeros((nd, kmax))
    for j in range(1, nd - 1):
        for k in range(1, kmax - 1):
            u[j, k] = x[idx(j, k)]
        u[j, kmax - 1] = u[j, kmax - 3] - uz[j]
    cosp = np.cos(dphi * np.arange(nd))
    u[1:-1] /= cosp[1:-1, None]
    u[0] = ubar[0]
    u[-1] = 2 * u[-2] - u[-3]
    t = tref_from_uref(u, tb, 0, dphi, dz, om, a, h, rr, rk, z0)
    return u, t


def solve_nhn22(qn, kref, tbar, tb, stat, nd, jb, kmax, dphi, dz, om, a, h, rr, cp, z0=0.):
    """Direct dense solve of the NHN22 problem on rows jb..pole.

    qn[row,k]: reference PV divided by sin(lat); kref[k]: Kelvin circulation at the boundary latitude."""
    rk = rr / cp
    z = z0 + dz * np.arange(kmax)
    jd = nd - jb
    nj = jd - 2
    nk = kmax - 2
    N = nj * nk
    M = np.zeros((N, N))
    R = np.zeros(N)
    idx = lambda j, k: (j - 1) * nk + (k - 1)
    cb = np.cos(jb * dphi)
    left = kref / (2 * PI * a) - om * a * cb ** 2
    top = np.zeros(jd)
    for j in range(1, jd - 1):
        p = (j + jb) * dphi
        jj = j + jb
        top[j] = -dz * rr * np.cos(p) * np.exp(-z[kmax - 2] * rk / h) * (tbar[jj + 1, kmax - 1] - tbar[jj - 1, kmax - 1]) \
            / (4 * om * np.sin(p) * dphi * h * a)
    for j in range(1, jd - 1):
        for k in range(1, kmax - 1):
            A, B, C, D = _elliptic_coeffs(j + jb, k, z, stat, dphi, dz, om, a, h, rr, rk)
            r = idx(j, k)
            R[r] = -0.5 * a * dphi * (qn[j + jb + 1, k] - qn[j + jb - 1, k])
            M[r, r] -= A + B + C + D
            if j + 1 < jd - 1:
                M[r, idx(j + 1, k)] += A
            if j - 1 >= 1:
                M[r, idx(j - 1, k)] += B
            else:
                R[r] -= B * left[k]
            if k + 1 <= kmax - 2:
                M[r, idx(j, k + 1)] += C
            else:  # u(top) = u(top-1) + top
                M[r, r] += C
                R[r] -= C * top[j]
            if k - 1 >= 1:
                M[r, idx(j, k - 1)] += D
    x = np.linalg.solve(M, R)
    u = np.zeros((jd, kmax))
    for j in range(1, jd - 1):
        for k in range(1, kmax - 1):
            u[j, k] = x[idx(j, k)]
        u[j, kmax - 1] = u[j, kmax - 2] + top[j]
    u[0, 1:-1] = left[1:-1]
    u[0, -1] = u[0, -2]
    cosp = np.cos((np.arange(jd) + jb) * dphi)
    u[:-1] /= cosp[:-1, None]
    u[-1] = 2 * u[-2] - u[-3]
    t = tref_from_uref(u, tb, jb, dphi, dz, om, a, h, rr, rk, z0)
    return u, t


# ---------------------------------------------------------------- LWA and fluxes (one hemisphere, equator..pole)
def lwa_hemisphere(pv, qref, ncforce, a, dphi, jb, qtol):
    """pv[k, nd, nlon], qref[k, nd].  Returns (cyclonic, anticyclonic, forcing, forcing_tol)."""
    kmax, nd, nlon = pv.shape
    c = np.cos(np.arange(nd) * dphi)
    aa = (a * dphi * c)[None, :, None]
    cyc = np.zeros((kmax, nd, nlon))
    ant = np.zeros_like(cyc)
    frc = np.zeros_like(cyc)
    ftol = np.zeros_like(cyc)
    rows = np.arange(nd)[None, :, None]
    for j in range(jb, nd - 1):
        qe = pv - qref[:, j][:, None, None]
        north = (qe <= 0) & (rows >= j)
        south = (qe > 0) & (rows < j)
        cyc[:, j] = (qe * aa * south).sum(1)
        ant[:, j] = (-qe * aa * north).sum(1)
        frc[:, j] = (ncforce * aa * (south.astype(float) - north)).sum(1)
        ftol[:, j] = (np.abs(ncforce * aa) * (np.abs(qe) <= qtol)).sum(1)
    for x in (cyc, ant, frc, ftol):
        x[0] = 0
        x[-1] = 0
    return cyc, ant, frc, ftol


def fluxes_hemisphere(pv, uu, vv, pt, forcing, qref, uref, tref, tg, jb, a, om, dz, h, rr, cp, pref, z0=0.):
    """One hemisphere equator..pole, all [level, row, lon] (uref/tref/qref [level, row]; rows below jb unused).

    Returns dict of layerwise terms [level, row, lon] and the low-level heat flux [row, lon]; only rows
    jb..pole-1 and interior levels are non-zero."""
    kmax, nd, nlon = pv.shape
    dphi = 0.5 * PI / (nd - 1)
    phi = np.arange(nd) * dphi
    c, s = np.cos(phi), np.sin(phi)
    z = z0 + dz * np.arange(kmax)
    cyc, ant, frc, ftol = lwa_hemisphere(pv, qref, forcing, a, dphi, jb, 0.0)
    F = {n: np.zeros((kmax, nd, nlon)) for n in ("ua1", "ua2", "ep1", "ep2", "ep3")}
    ep4 = np.zeros((nd, nlon))
    rows = np.arange(nd)[None, :, None]
    dtg = np.full(kmax, np.nan)
    dtg[1:-1] = (tg[2:] - tg[:-2]) / (2 * dz)
    lev = slice(1, kmax - 1)
    for j in range(jb, nd - 1):
        qe = pv - qref[:, j][:, None, None]
        ue = uu * c[j] - (uref[:, j][:, None] * c[None, :])[:, :, None]
        sel = ((qe > 0) & (rows < j)).astype(float) - ((qe <= 0) & (rows >= j))
        F["ua2"][lev, j] = (sel * qe * ue * a * dphi).sum(1)[lev]
        F["ua1"][lev, j] = (uref[:, j, None] * (cyc + ant)[:, j])[lev]
        ee = 0.5 * (vv[:, j] ** 2 - (uu[:, j] - uref[:, j, None]) ** 2)
        te = 0.5 * (pt[:, j] - tref[:, j, None]) ** 2 * (rr / h) * np.exp(-(rr / cp) * z / h)[:, None] / dtg[:, None]
        F["ep1"][lev, j] = ((ee - te) * c[j])[lev]
        mom = lambda r: ((uu[:, r] - uref[:, r, None]) * vv[:, r] * c[r] ** 2)[lev]
        F["ep2"][lev, j] = mom(j + 1)
        F["ep3"][lev, j] = mom(j - 1) if j > jb else mom(j)
        hf = lambda k: vv[k, j] * (pt[k, j] - tref[k, j])
        ep4[j] = 2 * om * s[j] * c[j] * dz / pref * (np.exp(-dz / h) * hf(1) / (tg[2] - tg[0]) + 0.5 * hf(0) / (tg[1] - tg[0]))
    F["astar1"], F["astar2"], F["ncforce"] = cyc, ant, frc
    return F, ep4


def prefactor(kmax, dz, h):
    return sum(np.exp(-k * dz / h) * dz for k in range(1, kmax - 1))


def vertical_average(x, dz, h, axis=0):
    """Density-weighted mean over interior levels (levels 1..kmax-2)."""
    x = np.moveaxis(np.asarray(x, float), axis, 0)
    kmax = x.shape[0]
    w = np.exp(-dz * np.arange(1, kmax - 1) / h) * dz
    return np.tensordot(w / w.sum(), x[1:-1], axes=(0, 0))


def z_derivative_of_prod(g, stat_s, stat_n, eq, dz, h, f):
    """f e^{z/H} d/dz[ e^{-z/H} g / static stability ]; centred inside, one-sided at both ends.
    Rows < eq use the southern profile, > eq the northern one, the equator their mean."""
    kmax, nlat = g.shape[:2]
    z = dz * np.arange(kmax)
    st = np.empty((kmax, nlat))
    st[:, :eq] = stat_s[:, None]
    st[:, eq] = 0.5 * (stat_s + stat_n)
    st[:, eq + 1:] = stat_n[:, None]
    x = np.exp(-z / h)[:, None, None] * g / st[:, :, None]
    d = np.empty_like(x)
    d[1:-1] = (x[2:] - x[:-2]) / (2 * dz)
    d[0] = (x[1] - x[0]) / dz
    d[-1] = (x[-1] - x[-2]) / dz
    return f[None, :, None] * np.exp(z / h)[:, None, None] * d
