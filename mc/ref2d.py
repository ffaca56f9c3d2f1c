"""Reference model of the two-dimensional (barotropic) diagnostics; plain loops over the definitions."""
import numpy as np


def contour_table(vort, area, n, a, eps=1e-9):
    """Contours Q_k, equivalent latitudes and cumulative (area, area*vort) of the region below each contour.

    None when a value lies so close to a contour that floating point decides its side."""
    vort = np.asarray(vort, float)
    lo, hi = vort.min(), vort.max()
    step = (hi - lo) / (n - 1)
    q = lo + step * np.arange(n)
    q[-1] = hi
    exact = (np.ldexp(step, 20) == np.round(np.ldexp(step, 20)))
    A = np.zeros(n)
    C = np.zeros(n)
    for k in range(n):
        near = np.abs(vort - q[k]) < eps * max(1e-30, hi - lo)
        if 0 < k < n - 1 and near.any() and not exact:
            return None
        m = vort < q[k]
        A[k] = area[m].sum()
        C[k] = (area * vort)[m].sum()
    mu = A / (2 * np.pi * a * a) - 1.
    return q, np.rad2deg(np.arcsin(np.clip(mu, -1., 1.))), A, C, mu


def interp_set(x, xp, fp):
    """(lo, hi) bounds of the piecewise-linear interpolant with constant extension; an interval only where x hits
    repeated abscissae (a jump)."""
    lo = np.empty(len(x))
    hi = np.empty(len(x))
    n = len(xp)
    for i, v in enumerate(x):
        hit = [k for k in range(n) if abs(xp[k] - v) < 1e-7]
        if hit:
            # x sits on a (possibly repeated) node
            vals = [fp[k] for k in hit]
            lo[i], hi[i] = min(vals), max(vals)
        elif v < xp[0]:
            lo[i] = hi[i] = fp[0]
        elif v > xp[-1]:
            lo[i] = hi[i] = fp[-1]
        else:
            j = max(k for k in range(n) if xp[k] < v)
            w = (v - xp[j]) / (xp[j + 1] - xp[j])
            lo[i] = hi[i] = fp[j] * (1 - w) + fp[j + 1] * w
    return lo, hi


def eqvlat(ylat, vort, area, n, a, eps=1e-9):
    """((Qlo, Qhi), table) of the equivalent-latitude relationship at ylat."""
    t = contour_table(vort, area, n, a, eps)
    if t is None:
        return None
    return interp_set(ylat, t[1], t[0]), t


def fawa(ylat, vort, area, table, a):
    """bounds of the finite-amplitude wave activity at ylat[1:]"""
    lo, hi = interp_set(ylat, table[1], table[3])
    nlat = vort.shape[0]
    vort = np.asarray(vort, float)
    qb = [sum(vort[j, i] * area[j, i] for i in range(vort.shape[1])) for j in range(nlat)]
    cbar = np.zeros(nlat)
    for j in range(nlat - 2, 0, -1):
        cbar[j] = cbar[j + 1] + 0.5 * (qb[j + 1] + qb[j])
    s = 2 * np.pi * a
    total = (vort * area).sum()
    return (total - cbar - hi)[1:] / s, (total - cbar - lo)[1:] / s


def bracket(vort, area, vgrad, table):
    """<...>_Q on the contours: mean of the area-weighted averages over the populated bins next to the contour; the last
    bin includes the largest value."""
    q = table[0]
    n = len(q)
    vort = np.asarray(vort, float)
    mean = {}
    for k in range(1, n):
        m = (vort >= q[k - 1]) & ((vort < q[k]) if k < n - 1 else (vort <= vort.max()))
        if area[m].sum() != 0:
            mean[k] = (area * vgrad)[m].sum() / area[m].sum()
    out = np.zeros(n)
    for k in range(n):
        v = [mean[b] for b in (k, k + 1) if b in mean]
        out[k] = sum(v) / len(v) if v else 0.
    return out


def lwa(vort, q, dmu, ncforce=None):
    """(anticyclonic, cyclonic, sigma): displacement integrals; the poleward-most row carries nothing."""
    nlat, nlon = vort.shape
    vort = np.asarray(vort, float)
    anti = np.zeros((nlat, nlon))
    cyc = np.zeros((nlat, nlon))
    sig = np.zeros((nlat, nlon))
    for j in range(nlat - 1):
        for m in range(nlat):
            e = vort[m] - q[j]
            if m > j:
                sel = e < 0
                anti[j] += np.where(sel, -e * dmu[m], 0.)
                if ncforce is not None:
                    sig[j] -= np.where(sel, ncforce[m] * dmu[m], 0.)
            else:
                sel = e > 0
                cyc[j] += np.where(sel, e * dmu[m], 0.)
                if ncforce is not None:
                    sig[j] += np.where(sel, ncforce[m] * dmu[m], 0.)
    return anti, cyc, sig
