"""Non-conservative forcing from heating rates, and the superseded reference-wind solver of the legacy package."""
import itertools
import warnings
import numpy as np
from .. import pipe, ref, fields
from ..core import close, raises
from .base import Prop, new
from . import twin
from .stages import Ctx, STATE, extreme, grid, even_grids, hemi_model, layouts, mx, star, to_hemi, NOTE

HEATS = ("profile", "full", "point")


def heating(kind, plev, ylat, xlon):
    k, j, i = np.meshgrid(np.arange(plev.size), np.arange(ylat.size), np.arange(xlon.size), indexing="ij")
    if kind == "profile":
        return 1e-5 * np.sin(0.9 * k + 0.3) * np.ones(k.shape)
    if kind == "full":
        return 1e-5 * (np.sin(1.1 * k + 0.4 * j) + 0.5 * np.cos(2.3 * i - 0.9 * j + 0.2 * k))
    z = np.zeros(k.shape)
    return z


class Forcing(Prop):
    id = "C22"
    title = "Heating becomes forcing by the stretching definition; its integral is linear"
    technique = ("exhaustive product of grids, classes and constants; heating-to-forcing map compared with its definition (including every unit impulse), "
                 "the forcing of wave activity compared with the displacement integral of the model over the published state, and checked for linearity and for both latitude conventions")
    level_note = NOTE
    assumptions = ("impulses at every (level, latitude) determine the linear map",)
    bound = {"quick": "2 classes x boundary rows {0,1} x odd/even latitudes x global/northern x interpolated/evenly spaced x 2 constant sets; 2 heating fields and all level x latitude impulses; heating of 10 sizes, formats and memory orders also over 147 configurations of every size, planet and latitude layout; displacement integral over the layer-flux grid of C17",
             "thorough": "2 classes x boundary rows {0,1,2,3} x 3 latitude counts x 3 vertical grids x odd/even x global/northern x interpolated/evenly spaced x 3 constant sets; the same heating grid; displacement integral over the thorough layer-flux grid of C17"}

    def cases(self, tier):
        t = tier != "quick"
        out = []
        for cls in ("NH18", "NHN22"):
            for jb in ((0,) if cls == "NH18" else ((0, 1, 2, 3) if t else (0, 1))):
                for nlat in ((9, 13, 17) if t else (11,)):
                    if nlat // 2 + 1 - jb < 4:
                        continue
                    for plev, kmax, dz in ((("std", 5, 2000.), ("off", 7, 2533.3333333333335), ("dense", 8, 2000.)) if t else (("std", 5, 2000.),)):
                        for const in (("earth", "alt", "alt2") if t else ("earth", "alt")):
                            for even, nh, evenly in itertools.product((False, True), repeat=3):
                                out.append(pipe.cfg(cls=cls, nlat=nlat - 1 if even else nlat, nlon=6, plev=plev, kmax=kmax, dz=dz, const=const,
                                                    even=even, nh=nh, evenly=evenly and (1300. if const == "alt" else True), jb=jb))
        for nlat, nlon, jb, kmax in ((31, 12, 4, 12), (21, 5, 0, 14)):
            for cls, nh in itertools.product(("NH18", "NHN22"), (False, True)):
                out.append(pipe.cfg(cls=cls, nlat=nlat, nlon=nlon, plev="dense", kmax=kmax, dz=1500., nh=nh, jb=jb if cls == "NHN22" else 0))
        both = (False, True)
        wide = star(("NH18", "NHN22"), both, both) + extreme(("NH18", "NHN22"), both, both) + layouts(("NH18", "NHN22"), both, ("poles", "gauss", "stretched", "lopsided"))
        out += [dict(c, heating=True) for c in wide]
        return out + [dict(c, integral=True) for c in grid(tier, nhs=(False, True)) + even_grids(tier, ("NH18", "NHN22"), (False, True))]

    def integral(self, c):
        """The forcing of wave activity against the displacement integral over the published state."""
        res = new()
        c = {k: v for k, v in c.items() if k != "integral"}
        if c["even"]:
            twin.owned(c, res, ("ncforce", "ncforce_baro"), STATE, ("interp", "ref", "baro", "layer"))
            return res
        ncf = pipe.ncforce_for(c, twin.shape3(c))
        x = Ctx(c, ("interp", "ref", "baro", "layer"), res, ncforce=ncf)
        o = x.o
        for hemi in x.hemis:
            F, _, d = hemi_model(x, hemi, ncf)
            rows = x.rows(hemi)
            w = F["ncforce"]
            # a parcel that ties with the reference value in single precision may or may not count as displaced
            tol = 2e-6 * mx(w) + ref.lwa_hemisphere(d["pv"], d["qref"], d["forcing"], x.a, x.dphi, x.jb, 5e-7 * mx(d["pv"]))[3]
            close(res, "integral-" + hemi, to_hemi(x, o["ncforce"], hemi)[:, rows], w[:, rows], tol[:, rows], "forcing of wave activity, hemisphere " + hemi)
            av = lambda q: ref.vertical_average(q, x.dz, x.h)
            close(res, "integral-column-" + hemi, to_hemi(x, o["ncforce_baro"], hemi, 0)[rows], av(w)[rows], av(tol)[rows] + 2e-6 * mx(av(w)),
                  "column forcing of wave activity, hemisphere " + hemi)
            res.trace(2)
            res.state(w)
        res.sample = c
        return res

    def evaluate(self, c):
        if c.get("integral"):
            return self.integral(c)
        only = c.get("heating")
        c = {k: v for k, v in c.items() if k != "heating"}
        res = new()
        xlon, ylat, plev, u, v, t = arrays = pipe.data(c)
        k = fields.consts(c["const"])
        h, om = k["scale_height"], k["omega"]
        f = pipe.make(c, arrays)
        f.interpolate_fields(return_named_tuple=False)
        if not only:
            f.compute_reference_states(return_named_tuple=False)
        res.step(3)
        z = ref.pseudoheight(plev, h) if c["evenly"] else c["dz"] * np.arange(c["kmax"])
        dz = z[1] - z[0]
        ana = ref.analysis_lat(ylat)
        th = ref.potential_temperature(t, plev, k["dry_gas_constant"], k["cp"])
        tha = ref.linear_extrap(ylat, th, ana, 1) if c["even"] else th
        nd = ana.size // 2 + 1
        (t0s, ss), (t0n, sn) = ref.hemispheric_stability(tha, plev, ana, h, nd - (c["jb"] if c["cls"] == "NHN22" else 0), z)
        if c["cls"] == "NH18":
            ss = sn = 0.5 * (ss + sn)
        stat = np.where(ylat[None, :] < 0, ss[:, None], sn[:, None])
        stat[:, np.abs(ylat) < 1e-12] = (0.5 * (ss + sn))[:, None]
        fcor = 2 * om * np.sin(np.deg2rad(ylat))
        rho = np.exp(-z / h)

        def model(hr):
            g = ref.linear_extrap(ref.pseudoheight(plev, h), hr, z, 0)
            x = rho[:, None, None] * g / stat[:, :, None]
            d = np.empty_like(x)
            d[1:-1] = (x[2:] - x[:-2]) / (2 * dz)
            d[0] = (x[1] - x[0]) / dz
            d[-1] = (x[-1] - x[-2]) / dz
            return d * fcor[None, :, None] / rho[:, None, None]

        # the same object answers one heating after another, in any number format and memory order
        for kind, size, fmt in (("profile", 1., "f8"), ("full", 1., "f8"), ("full", -3e4, "f8"), ("full", 1e-7, "f8"), ("full", 2e5, "f4"), ("profile", 3e6, "i4"),
                                ("full", 1., "F"), ("full", 1., "rev"), ("full", 1., "list"), ("full", 1., "f8")):
            hr = size * heating(kind, plev, ylat, xlon)
            if fmt == "F":
                hr = np.asfortranarray(hr)
            elif fmt == "rev":
                hr = hr[::-1, ::-1, ::-1].copy()[::-1, ::-1, ::-1]
            elif fmt in ("f4", "i4"):
                hr = hr.astype(fmt)
            keep = hr.copy()
            q = f.compute_ncforce_from_heating_rate(hr.tolist() if fmt == "list" else hr)
            w = model(hr.astype(float))
            close(res, "heating", q, w, 1e-9 * mx(w), "forcing from heating rate (%s x %g, %s)" % (kind, size, fmt))
            res.expect(np.array_equal(hr, keep), "input", "heating rate modified")
            res.step()
            res.trace()
            res.state(w)
        if only:
            res.sample = c
            return res
        for kk in range(plev.size):
            for j in range(ylat.size):
                hr = np.zeros((plev.size, ylat.size, xlon.size))
                hr[kk, j, (kk + j) % xlon.size] = 1e-5
                q = f.compute_ncforce_from_heating_rate(hr)
                w = model(hr)
                tol = 1e-9 * np.maximum(mx(w), 1e-30)
                close(res, "impulse", q, w, tol, "forcing of a unit heating at level %d row %d" % (kk, j))
                res.step()
                res.trace()
                res.state(kk, j, c["even"])
                if len(res.fails) > 4:
                    return res
        # wave activity forcing
        n = ylat.size
        F1 = model(heating("full", plev, ylat, xlon))
        F2 = pipe.ncforce_for(c, (z.size, n, xlon.size))

        def baro(F):
            f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=F)
            b = np.array(f.ncforce_baro, float)
            f.compute_layerwise_lwa_fluxes(ncforce=F)
            res.step(2)
            return b, np.array(f.layerwise_flux_terms_storage.ncforce, float)
        b0, s0 = baro(None)
        res.expect(np.all(b0 == 0) and np.all(s0 == 0), "absent", "forcing term without forcing is not zero")
        bz, sz = baro(np.zeros_like(F1))
        res.expect(np.all(bz == 0) and np.all(sz == 0), "zero", "zero forcing gives a non-zero term")
        b1, s1 = baro(F1)
        b2, s2 = baro(F2)
        sc = mx(F2) / mx(F1)
        b3, s3 = baro(2. * sc * F1 - 3. * F2)
        res.trace(5)
        close(res, "linear-baro", b3, 2 * sc * b1 - 3 * b2, 3e-6 * (2 * sc * mx(b1) + 3 * mx(b2)), "barotropic forcing of a combination")
        close(res, "linear-layer", s3, 2 * sc * s1 - 3 * s2, 3e-6 * (2 * sc * mx(s1) + 3 * mx(s2)), "layer forcing of a combination")
        res.expect(mx(b1) > 0 and np.abs(b1).max() > 0, "nonzero", "forcing term vanishes")
        for m in (1e9, 1e-9):       # far beyond and far below any forcing of the atmosphere
            bm, sm = baro(m * F2)
            close(res, "linear-baro", bm, m * b2, 3e-6 * m * mx(b2), "barotropic forcing, %g times as large" % m)
            close(res, "linear-layer", sm, m * s2, 3e-6 * m * mx(s2), "layer forcing, %g times as large" % m)
        res.trace(2)
        if c["even"]:
            ba, sa = baro(ref.linear_extrap(ylat, F2, ana, 1))
            close(res, "grid", ba, b2, 3e-6 * mx(b2), "forcing on the latitudes of the input and on the analysis latitudes (column)")
            close(res, "grid", sa, s2, 3e-6 * mx(s2), "forcing on the latitudes of the input and on the analysis latitudes (layer)")
            res.trace(2)
        res.sample = c
        return res


# ------------------------------------------------------------------------------------------ C33
def legacy_model(zmu, fawa, ylat, eph, dpt, zpt, b0, b1):
    """Dense float64 solution of the two boundary value problems as documented in the function."""
    om, a, r, hh, cp, dz = 7.29e-5, 6378000., 287., 7000., 1004., 1000.
    kap = r / cp
    kmax, nlat = fawa.shape
    J = nlat // 4
    dm = 1. / (J + 1)
    mu = np.arange(J + 2) * dm
    lat = np.degrees(np.arcsin(mu))
    li = lat[1:-1]
    cos = np.sqrt(1 - mu[1:-1] ** 2)
    f = 2 * om * mu[1:-1]
    row = lambda arr: np.array([[np.interp(y, ylat, arr[k]) for k in range(kmax)] for y in li])
    U, A, E = row(zmu), row(fawa), row(eph)
    pt = ref.linear_extrap(ylat, dpt, lat, 0)
    B0, B1 = ref.linear_extrap(ylat, b0, lat, 0), ref.linear_extrap(ylat, b1, lat, 0)
    q = np.vstack([np.zeros(kmax), -A / f[:, None], np.zeros(kmax)])
    rhs = q[:-2] + q[2:] - 2 * q[1:-1]
    lam = (dm / dz) ** 2
    out = {}
    for bc in ("noslip", "adiab"):
        n = J * kmax
        M, R = np.zeros((n, n)), np.zeros(n)
        ix = lambda j, k: j * kmax + k
        for j in range(J):
            for k in range(1, kmax - 1):
                up, dn = lam * E[j, k] * np.exp(-dz / (2 * hh)), lam * E[j, k - 1] * np.exp(dz / (2 * hh))
                M[ix(j, k), ix(j, k)] = -(2 + up + dn)
                M[ix(j, k), ix(j, k + 1)] = up
                M[ix(j, k), ix(j, k - 1)] = dn
                if j < J - 1:
                    M[ix(j, k), ix(j + 1, k)] = 1
                if j > 0:
                    M[ix(j, k), ix(j - 1, k)] = 1
                R[ix(j, k)] = rhs[j, k]
            M[ix(j, kmax - 1), ix(j, kmax - 1)] = 1
            M[ix(j, kmax - 1), ix(j, kmax - 3)] += -1
            R[ix(j, kmax - 1)] = -r * cos[j] ** 2 * np.exp(-kap * (kmax - 2.) / 7.) * (pt[j + 2] - pt[j]) * dz / (f[j] ** 2 * a * hh * dm)
            if bc == "noslip":
                M[ix(j, 0), ix(j, 0)] = 1
                R[ix(j, 0)] = U[j, 0] * cos[j] / f[j]
            else:
                M[ix(j, 0), ix(j, 0)] = -1
                M[ix(j, 0), ix(j, 2)] += 1
                d0 = B0[j] + B0[j + 2] - 2 * B0[j + 1]
                d1 = B1[j] + B1[j + 2] - 2 * B1[j + 1]
                R[ix(j, 0)] = -r * cos[j] ** 2 * 2 * dz / (f[j] ** 2 * a ** 2 * hh * dm ** 2) * (d1 * np.exp(-kap / 7.) + d0)
        x = np.linalg.solve(M, R).reshape(J, kmax)
        du = np.zeros((J + 2, kmax))
        du[1:-1] = x * f[:, None] / cos[:, None]
        T = np.zeros((J + 2, kmax))
        for k in range(1, kmax - 2):
            for j in range(2, J, 2):
                T[j, k] = T[j - 2, k] - 2 * om * mu[j] * a * hh * (dm / dz) / (r * cos[j - 1]) * (du[j - 1, k + 1] - du[j - 1, k - 1])
            T[:, k] = ref.linear_extrap(mu[::2], T[::2, k], mu, 0)
            T[:, k] -= T[:, k].mean()
        nn = (nlat + 1) // 2
        yy = ylat[-nn:]
        DU, DT, UR, TR = (np.zeros((kmax, nlat)) for _ in range(4))
        DU[:, -nn:] = ref.linear_extrap(lat, du, yy, 0).T
        DT[:, -nn:] = ref.linear_extrap(lat, T, yy, 0).T
        UR[:, -nn:] = zmu[:, -nn:] - DU[:, -nn:]
        TR[:, -nn:] = zpt[:, -nn:] * np.exp(-np.arange(kmax) / 7. * kap)[:, None] - DT[:, -nn:]
        out[bc] = (DU, UR, DT, TR)
    return out["noslip"] + out["adiab"], M


class Legacy(Prop):
    id = "C33"
    title = "The legacy reference-wind solver solves both documented boundary value problems"
    technique = "exhaustive product of grid sizes and inputs (smooth, each input alone, unit impulses), compared with a dense float64 solution of the discretised problems"
    level_note = "the coded mapping (sine-latitude grid of nlat//4 interior points, 1 km levels) is part of the model"
    assumptions = ("the problem is well posed for the inputs used (condition number checked)",)
    bound = {"quick": "3 latitude counts x 2 level counts x 8 inputs + impulses of two inputs; every latitude count 9-45, every level count 4-21 and 7 grids of up to 181 rows or 49 levels; 3 latitude ranges x 3 strengths of the vertical coupling x 4 number formats", "thorough": "8 latitude counts x 4 level counts x 8 inputs + all impulses; every latitude count 9-45, every level count 4-21 and 10 grids of up to 361 rows or 49 levels"}
    NAMES = ("du_noslip", "uref_noslip", "dT_noslip", "Tref_noslip", "du_adiabatic", "uref_adiabatic", "dT_adiabatic", "Tref_adiabatic")

    def cases(self, tier):
        nl, kl = ((17, 21, 24), (5, 6)) if tier == "quick" else ((13, 16, 17, 20, 21, 24, 25, 33), (4, 5, 6, 8))
        return [{"nlat": n, "kmax": k, "imp": i} for n in nl for k in kl for i in range(2 if tier == "quick" else 6)] \
            + [{"nlat": n, "kmax": k, "imp": None} for n, k in [(n, 7) for n in range(9, 46)] + [(19, k) for k in range(4, 22)]
               + [(61, 20), (91, 13), (73, 33), (121, 49), (121, 31), (180, 10), (181, 12)] + ([] if tier == "quick" else [(181, 49), (241, 31), (361, 15)])] \
            + [{"nlat": n, "kmax": k, "imp": None, "lat": lat, "eph": e, "fmt": f} for n, k in ((17, 6), (24, 5)) + (() if tier == "quick" else ((37, 9), (62, 14)))
               for lat, e, f in itertools.product(("poles", "cells", "band"), (1e-3, 1., 50.), ("f8", "f4", "fortran", "strided"))]

    def evaluate(self, case):
        res = new()
        from falwa.legacy.beta_version import solve_uref_both_bc
        n, kmax = case["nlat"], case["kmax"]
        ylat = np.linspace(-90, 90, n)
        if case.get("lat") == "cells":
            ylat = -90. + 180. * (np.arange(n) + 0.5) / n
        elif case.get("lat") == "band":
            ylat = np.linspace(-75., 84., n)
        k, j = np.meshgrid(np.arange(kmax), np.arange(n), indexing="ij")
        base = [10 * np.sin(0.2 * j + 0.3 * k) + 5, 50 * (1 + np.cos(0.4 * j - 0.2 * k)), 1e-4 * (2 + np.sin(0.3 * k + 0.1 * j)) * 1e2,
                30 * np.sin(0.25 * np.arange(n)), 280. + 5 * k - 0.4 * np.abs(j - n / 2), 1e6 * np.cos(0.3 * np.arange(n)), 1e6 * np.sin(0.2 * np.arange(n) + 0.4)]
        base[2] = base[2] * case.get("eph", 1.)
        if case.get("fmt", "f8") != "f8":       # other number formats and memory layouts
            def stored(b):
                if case["fmt"] == "strided":
                    w = np.full(tuple(2 * m for m in b.shape), 7e7)
                    w[tuple(slice(None, None, 2) for _ in b.shape)] = b
                    return w[tuple(slice(None, None, 2) for _ in b.shape)]
                return np.asfortranarray(b) if case["fmt"] == "fortran" else b.astype(case["fmt"])
            base = [stored(b) for b in base]
        rel = 1e-8 if case.get("fmt") != "f4" else 2e-3
        inputs = [("all", base), ("integers", [b if m == 2 else np.round(b).astype(int) for m, b in enumerate(base)])]
        for i in range(7):
            if i == 2:
                continue
            inputs.append(("only %d" % i, [b if (m == i or m == 2) else b * 0 for m, b in enumerate(base)]))
        which = [i for i in range(7) if i != 2][case["imp"] or 0]
        idx = [] if case["imp"] is None else list(np.ndindex(base[which].shape))
        if n * kmax > 900:
            inputs = inputs[:2]
        for p in idx:
            b = [x * 0 if m != 2 else x for m, x in enumerate(base)]
            b[which] = b[which].copy()
            b[which][p] = 1. if which not in (5, 6) else 1e6
            inputs.append(("impulse %d %s" % (which, p), b))
        if n < 46:
            self.extrapolation(case, ylat, base, res)
        for name, (zmu, fawa, eph, dpt, zpt, b0, b1) in inputs:
            keep = [x.copy() for x in (zmu, fawa, eph, dpt, zpt, b0, b1)]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = solve_uref_both_bc("t", zmu, fawa, ylat, eph, dpt, zpt, b0, b1)
            want, M = legacy_model(zmu, fawa, ylat, eph, dpt, zpt, b0, b1)
            res.step()
            res.trace()
            res.state(n, kmax, name)
            if not res.expect(len(out) == 8, "count", "%d results" % len(out)):
                return res
            for nm, g, w in zip(self.NAMES, out, want):
                close(res, nm, g, w, rel * mx(w) + 1e-12, "%s, input %s" % (nm, name))
            res.expect(all(np.array_equal(x, y) for x, y in zip(keep, (zmu, fawa, eph, dpt, zpt, b0, b1))), "input", "inputs modified")
            if len(res.fails) > 4:
                return res
        return res

    def extrapolation(self, case, ylat, base, res):
        """The helper extends piecewise linear interpolation linearly beyond both ends."""
        from scipy.interpolate import interp1d
        from falwa.legacy.beta_version import extrap1d, input_jk_output_index
        for y in (base[3], base[4][1], base[5]):
            for m in range(2, ylat.size + 1):
                x = ylat[:m]
                t = np.concatenate([x, (x[1:] + x[:-1]) / 2, [x[0] - 3., x[0] - 40., x[-1] + 0.5, x[-1] + 70.]])
                close(res, "extrapolation", extrap1d(interp1d(x, y[:m]))(t), ref.linear_extrap(x, y[:m], t, 0), (1e-9 if y.dtype != np.float32 else 1e-4) * mx(y), "extrapolation from %d points" % m)
                res.step()
        seen = {input_jk_output_index(j, k, case["kmax"]) for j in range(4) for k in range(case["kmax"])}
        res.expect(seen == set(range(4 * case["kmax"])), "index", "matrix index is not a bijection")
        res.trace()


PROPS = [Forcing(), Legacy()]
