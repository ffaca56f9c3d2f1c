"""Stand-alone operators: horizontal and vertical differences, hemispheric means, covariance maps.

All but the covariance and the stability quotient are linear in the field, so the set of unit impulses on a grid is a
complete set of inputs for that grid; superpositions confirm linearity."""
import importlib.util
import itertools
import os
import numpy as np
from .. import ref
from ..core import close
from .base import Prop, new
from .basis2d import ALTER, BUFFERS, named

NOTE = "complete impulse bases of every grid in the bound, plus every small field over a finite alphabet, on the real functions"


def lat_kinds(n):
    yield "globe", np.linspace(-90., 90., n)
    yield "offset", -90. + 180. * (np.arange(n) + .5) / n
    yield "north", np.linspace(0., 90., n)
    yield "band", np.linspace(20., 71., n)
    yield "descending", np.linspace(90., -90., n)
    yield "south", np.linspace(-81., -12., n)
    yield "polar", np.linspace(88.9, 89.96, n)        # circles of a few kilometres, poles excluded
    yield "needle", np.linspace(89.995, 89.99997, n)    # circles of a few metres, the last ones below the default tolerance


def impulses(nlat, nlon):
    """every unit impulse, one superposition, one integer-valued and one single-precision field"""
    for j in range(nlat):
        for i in range(nlon):
            e = np.zeros((nlat, nlon))
            e[j, i] = 1.
            yield e
    w = np.sin(1.7 * np.arange(nlat * nlon) + .3).reshape(nlat, nlon) + 0.4
    yield w
    top = w / np.abs(w).max()           # the whole range of the small number formats
    yield (32767 * top).astype(np.int16)
    yield (127 * top).astype(np.int8)
    yield (127 + 128 * top).astype(np.uint8)
    yield (60000 * top).astype(np.float16)
    yield (2147483647 * top).astype(np.int32)
    yield np.round(9 * w).astype(int)
    yield np.round(9 * w).astype(np.int16)
    yield w.astype(np.float32)
    yield np.asfortranarray(w)


def lots(shape, c):
    """a field without equal values of the shape, altered as the case says, in its number format, perhaps in an array
    that held another field before"""
    f = named(shape[0] * shape[1], shape[2], "vort").reshape(shape) if len(shape) == 3 else named(shape[0], shape[1], "vort")
    f = 1e4 * f
    if c.get("alter"):
        f = ALTER[c["alter"]](f.reshape(shape[0] if len(shape) == 2 else shape[0] * shape[1], -1)).reshape(shape)
    f = f.astype(c.get("fmt", "f8"))
    if c.get("reuse"):
        b = BUFFERS.setdefault((shape, f.dtype.str), np.empty_like(f))
        b[...] = f
        f = b
    return f


def zonal_model(f, cl, dl, a, tol):
    g = np.asarray(f, float)
    out = np.zeros(f.shape)
    for j in range(f.shape[0]):
        if abs(cl[j]) > tol:
            out[j] = -(np.roll(g[j], -1) - np.roll(g[j], 1)) / (2 * dl) / (a * cl[j])
    return out


def merid_model(f, cl, dp, a, tol):
    g = np.asarray(f, float)
    out = np.zeros(f.shape)
    nlat = f.shape[0]
    for j in range(nlat):
        if abs(cl[j]) > tol:
            lo, hi = max(j - 1, 0), min(j + 1, nlat - 1)
            out[j] = (g[hi] * cl[hi] - g[lo] * cl[lo]) / ((hi - lo) * dp) / (a * cl[j])
    return out


def curl_model(u, v, cl, dl, dp, a):
    gu, gv = np.asarray(u, float), np.asarray(v, float)
    out = np.zeros(u.shape)
    for j in range(1, u.shape[0] - 1):
        out[j] = ((np.roll(gv[j], -1) - np.roll(gv[j], 1)) / (2 * dl)
                  - (gu[j + 1] * cl[j + 1] - gu[j - 1] * cl[j - 1]) / (2 * dp)) / (a * cl[j])
    return out


class Horizontal(Prop):
    id = "C06"
    title = "Zonal convergence, meridional divergence and curl are spherical differences"
    technique = "exhaustive enumeration of impulse bases on every small grid, latitude layout, radius and pole tolerance"
    level_note = NOTE
    assumptions = ("linearity, which the superposition fields confirm, extends the impulse basis to every field",)
    bound = {"quick": "every grid from 3x3 to 7x8 points, 8 latitude layouts, 2 radii, 3 pole tolerances, all impulses and 10 superpositions in 9 number formats; grids of up to 361x720; every ordered pair of 16 calls in one process",
             "thorough": "every grid from 3x3 to 12x12 points, 8 latitude layouts, 3 radii, 3 pole tolerances, all impulses and 10 superpositions in 9 number formats; grids of up to 361x720; every ordered pair of 16 calls in one process"}

    def cases(self, tier):
        nl, nm = ((range(3, 8), range(3, 9)) if tier == "quick" else (range(3, 13), range(3, 13)))
        for nlat, nlon in itertools.product(nl, nm):
            yield dict(nlat=nlat, nlon=nlon, radii=[6.378e6, 1.] if tier == "quick" else [6.378e6, 1., 3.4e6])
        for nlat, nlon in ((73, 144), (181, 24), (20, 360), (181, 360), (361, 720)):        # practical sizes
            for kind, fmt in itertools.product(("globe", "offset", "descending"), ("f8", "f4", "i2")):
                yield dict(once=1, nlat=nlat, nlon=nlon, kind=kind, a=6.378e6, tol=None, fmt=fmt)
        for kind, reuse in itertools.product(("globe", "offset"), (False, True)):           # histories of calls
            base = dict(once=1, nlat=6, nlon=5, kind=kind, a=6.378e6, tol=None, reuse=reuse)
            yield dict(tour=[{}, dict(alter="point"), dict(alter="rows"), dict(alter="east"), dict(alter="scale"), dict(fmt="f4"), dict(fmt="i2"),
                             dict(nlon=6), dict(nlat=7), dict(a=2e6), dict(tol=0.35), dict(kind="polar"), dict(kind="north"), dict(bump="cos"),
                             dict(bump="dl"), dict(bump="dp")], common=base)

    def once(self, c):
        from falwa.utilities import zonal_convergence, meridional_divergence, curl_2d
        res = new()
        nlat, nlon, a = c["nlat"], c["nlon"], c["a"]
        lat = dict(lat_kinds(nlat))[c["kind"]]
        cl, dl, dp = np.cos(np.deg2rad(lat)), 2 * np.pi / nlon, np.deg2rad(lat[1] - lat[0])
        cl[1] *= 1.05 if c.get("bump") == "cos" else 1.
        dl *= 0.5 if c.get("bump") == "dl" else 1.
        dp *= 0.7 if c.get("bump") == "dp" else 1.
        f = lots((nlat, nlon), c)
        v = np.roll(f, 1, axis=0) * f.dtype.type(1) - f // 3
        kw = {} if c["tol"] is None else dict(tol=c["tol"])
        t = 1e-5 if c["tol"] is None else c["tol"]
        # differences of single-precision values are exact to one part in 2**24 of the values themselves
        e = (1e-6 if f.dtype != float else 1e-14) * np.abs(np.asarray(f, float)).max() / a
        row = np.array([1. / max(1e-12, abs(x)) for x in cl])[:, None]
        keep = f.copy(), v.copy(), cl.copy()
        for key, got, w, tol in (
                ("zonal", zonal_convergence(f, cl, dl, planet_radius=a, **kw), zonal_model(f, cl, dl, a, t), e / dl * row),
                ("meridional", meridional_divergence(f, cl, dp, planet_radius=a, **kw), merid_model(f, cl, dp, a, t), e / abs(dp) * row),
                ("curl", curl_2d(f, v, cl, dl, dp, planet_radius=a), curl_model(f, v, cl, dl, dp, a), 3 * (e / dl + e / abs(dp)) * row)):
            close(res, key, got, w, tol, key)
            res.step()
            res.trace()
        res.expect(all(np.array_equal(x, y) for x, y in zip(keep, (f, v, cl))), "mutated", "an input was modified")
        res.state(f, c["kind"], a, c["tol"])
        return res

    def evaluate(self, c):
        from falwa.utilities import zonal_convergence, meridional_divergence, curl_2d
        if c.get("once"):
            return self.once(c)
        res = new()
        nlat, nlon = c["nlat"], c["nlon"]
        dl = 2 * np.pi / nlon
        flds = list(impulses(nlat, nlon))
        zero = np.zeros((nlat, nlon))
        for kind, lat in lat_kinds(nlat):
            cl = np.cos(np.deg2rad(lat))
            dp = np.deg2rad(lat[1] - lat[0])
            for a in c["radii"]:
                for n, f in enumerate(flds):
                    small = (np.float32, np.float16, np.int16, np.int8, np.uint8)     # results in single precision
                    prec = 1e-5 if f.dtype in small else 1e-11
                    snap = f.copy()
                    tl = lambda w: prec * max(1e-30, np.abs(w).max())
                    for tol in (None, 1e-12, 0.35):
                        kw = {} if tol is None else dict(tol=tol)
                        t = 1e-5 if tol is None else tol
                        if np.any(np.abs(np.abs(cl) - t) < 1e-15):
                            continue
                        w = zonal_model(f, cl, dl, a, t)
                        close(res, "zonal", zonal_convergence(f, cl, dl, planet_radius=a, **kw), w, tl(w), "zonal convergence (%s)" % kind)
                        w = merid_model(f, cl, dp, a, t)
                        close(res, "meridional", meridional_divergence(f, cl, dp, planet_radius=a, **kw), w, tl(w), "meridional divergence (%s)" % kind)
                        res.step(2)
                        res.trace(2)
                    pairs = [(f, np.zeros_like(f)), (np.zeros_like(f), f), (f, f[::-1] * 2 if f.dtype == float else f[::-1] // 2)]
                    if n >= len(flds) - 10:            # winds of different number formats
                        pairs += [(f, flds[-1]), (flds[-1], f), (f, flds[-4] // 2), (flds[-4] // 2, f)]
                    for u, v in pairs:
                        w = curl_model(u, v, cl, dl, dp, a)
                        # single precision only where the meridional wind, or everything, is stored in it
                        low = v.dtype in small and u.dtype in small + (float,) or np.result_type(u, v, np.float32) == np.float32
                        tl = lambda w: (1e-5 if low else 1e-11) * max(1e-30, np.abs(w).max())
                        got = curl_2d(u, v, cl, dl, dp, planet_radius=a)
                        close(res, "curl", got, w, tl(w), "curl (%s)" % kind)
                        res.step()
                        res.trace()
                    res.expect(np.array_equal(f, snap), "mutated", "input field modified")
                    res.state(f, kind, a)
        # default radius
        f, lat = flds[-1], np.linspace(-90, 90, nlat)
        cl, dp = np.cos(np.deg2rad(lat)), np.pi / (nlat - 1)
        for key, got, w in (("zonal", zonal_convergence(f, cl, dl), zonal_model(f, cl, dl, 6.378e6, 1e-5)),
                            ("meridional", meridional_divergence(f, cl, dp), merid_model(f, cl, dp, 6.378e6, 1e-5)),
                            ("curl", curl_2d(f, zero, cl, dl, dp), curl_model(f, zero, cl, dl, dp, 6.378e6))):
            close(res, key + "-default-radius", got, w, 1e-11 * np.abs(w).max(), key)
        # global conservation: the area integral of a zonal convergence vanishes on every latitude circle
        for f in flds:
            if f.dtype == float:
                s = zonal_convergence(f, cl, dl).sum(1)
                res.expect(np.abs(s).max() <= 1e-12, "conservation", "zonal convergence does not sum to zero")
        res.sample = c
        return res


class Vertical(Prop):
    id = "C07"
    title = "Mean profile, static stability and stretching operators equal their definitions"
    technique = "exhaustive enumeration of impulse bases over every small grid, hemispheric extent and vertical spacing against reference models"
    level_note = NOTE
    assumptions = ("linearity in the field, confirmed by superpositions",)
    bound = {"quick": "3-6 levels (even and uneven, from the ground and from above it) x 4-7 latitudes x 2-3 longitudes x every hemispheric extent, all impulses; practical grids of up to 49 x 37 x 24, weak to inverted stratification, coordinates in 6 number formats; every ordered pair of 15 calls in one process",
             "thorough": "3-8 levels (even and uneven, from the ground and from above it) x 4-11 latitudes x 2-5 longitudes x every hemispheric extent, all impulses; practical grids of up to 49 x 121 x 240, weak to inverted stratification, coordinates in 6 number formats; every ordered pair of 15 calls in one process"}

    def cases(self, tier):
        ks, nl, nm = ((3, 4, 6), range(4, 8), (2, 3)) if tier == "quick" else ((3, 4, 5, 6, 8), range(4, 12), (2, 3, 5))
        for k, nlat, nlon, even in itertools.product(ks, nl, nm, (True, False)):
            for what in ("stability", "givenvort", "product"):
                if what == "product" and not even:
                    continue
                for base in ((0., 1200.) if what == "givenvort" else (0.,)):     # height of the lowest level
                    yield dict(k=k, nlat=nlat, nlon=nlon, even=even, what=what, base=base)
        big = ((49, 37, 24), (97, 12, 3), (5, 91, 8), (4, 10, 180)) + (() if tier == "quick" else ((49, 121, 240), (120, 24, 7)))
        for k, nlat, nlon in ((4, 4, 4), (6, 6, 6), (6, 4, 6), (4, 6, 6), (7, 7, 3), (5, 7, 7), (12, 12, 12)):      # coinciding sizes
            for what, even in itertools.product(("stability", "givenvort", "product"), (True, False)):
                if even or what != "product":
                    yield dict(k=k, nlat=nlat, nlon=nlon, even=even, what=what, fields=1)
        for k, nlat, nlon in ((5, 7, 2), (6, 6, 3)):          # heights and latitudes in other number formats
            for zf, lf in (("i4", "i1"), ("i2", "i2"), ("f8", "f4"), ("f8", "f2"), ("i8", "i4"), (">f8", ">f8")):
                for what in ("stability", "givenvort"):
                    yield dict(k=k, nlat=nlat, nlon=nlon, even=True, what=what, fields=1, zfmt=zf, lfmt=lf)
        for what in ("stability", "givenvort", "product"):
            for (k, nlat, nlon), even in itertools.product(big, (True,) if what == "product" else (True, False)):
                for fmt in ("f8", "f4"):
                    yield dict(k=k, nlat=nlat, nlon=nlon, even=even, what=what, fields=1, fmt=fmt)
            for scale in (1e-3, 40., -1.):             # weak, strong and inverted stratification
                if what != "stability":
                    yield dict(k=6, nlat=6, nlon=3, even=True, what=what, scale=scale)
            for even, reuse in itertools.product((True,) if what == "product" else (True, False), (False, True)):
                yield dict(tour=[{}, dict(alter="point"), dict(alter="rows"), dict(alter="east"), dict(alter="scale"), dict(fmt="f4"), dict(nlon=4), dict(nlat=7),
                                 dict(k=5), dict(scale=2.), dict(bump="z"), dict(bump="area"), dict(bump="mean"), dict(bump="stat"), dict(bump="lat")],
                           common=dict(k=4, nlat=6, nlon=3, even=even, what=what, fields=1, reuse=reuse, extents=[[None, None], [2, 3], [3, 1]]))

    def fields(self, c):
        k, nlat, nlon = c["k"], c["nlat"], c["nlon"]
        if c.get("fields"):
            f = 280. + lots((k, nlat, nlon), dict(c, fmt="f8", reuse=False)) * 10 + 12. * np.arange(k)[:, None, None]
            f = f.astype(c.get("fmt", "f8"))
            if c.get("reuse"):
                b = BUFFERS.setdefault((f.shape, f.dtype.str, "theta"), np.empty_like(f))
                b[...] = f
                f = b
            yield f
            return
        for idx in itertools.product(range(k), range(nlat), range(nlon)):
            e = np.zeros((k, nlat, nlon))
            e[idx] = 1.
            yield e
        n = k * nlat * nlon
        yield (290. + 10 * np.arange(k)[:, None, None] + 3 * np.sin(1.3 * np.arange(n)).reshape(k, nlat, nlon))
        yield np.round(290. + 10 * np.arange(k)[:, None, None] + 30 * np.sin(1.3 * np.arange(n)).reshape(k, nlat, nlon)).astype(int)

    def evaluate(self, c):
        res = new()
        k = c["k"]
        z = 1500. * np.arange(k) if c["even"] else 1500. * np.arange(k) + 330. * np.sin(np.arange(k) * 1.9)
        if c.get("bump") == "z":
            z[1] += 170. * (not c["even"])
            z = z * (1.3 if c["even"] else 1.)
        getattr(self, c["what"])(c, z + c.get("base", 0.), res)
        res.sample = c
        return res

    def stability(self, c, z, res):
        from falwa.utilities import static_stability
        k, nlat, nlon = c["k"], c["nlat"], c["nlon"]
        area = (1. + .3 * np.sin(2.1 * np.arange(nlat)))[:, None] * (1. + .2 * np.cos(np.arange(nlon)))
        ext = list(itertools.product([None] + list(range(1, nlat + 1)), repeat=2))      # None: left out
        if c.get("fields"):
            ext = c.get("extents") or [(None, None), (nlat // 3, nlat // 2), (nlat - 2, 1)]
        if c.get("bump") == "area":
            area[1, 0], area[2, 1] = area[2, 1], area[1, 0]
        amp = 1e-10 if c.get("fmt") != "f4" else 1e-5

        def der(p):
            d = np.empty(k)
            for m in range(k):
                lo, hi = max(m - 1, 0), min(m + 1, k - 1)
                d[m] = (p[hi] - p[lo]) / (z[hi] - z[lo])
            return d
        for th in self.fields(c):
            for s, n in ext:
                ss, nn = s or nlat // 2, n or nlat // 2
                am = area.mean(1)
                zm = np.asarray(th, float).mean(-1)
                # a full area matrix weighs every grid point by its own area; with a one-dimensional area every
                # point of a latitude circle weighs the same; a zonal mean stands for its whole circle
                rowa = np.repeat(am[:, None], nlon, axis=1)
                zfull = np.repeat(zm[:, :, None], nlon, axis=2)
                near = rowa * (1. + 5e-4 * np.cos(1.7 * np.arange(nlon)))      # an area that is almost zonally uniform
                for tt, aa, full, w8 in ((th, area, th, area), (th, am, th, rowa), (zm, am, zfull, rowa),
                                         (zm, area, zfull, area), (th, near, th, near))[:5 if np.count_nonzero(th) > 1 else 4]:
                    ts = np.array([(full[m, :ss] * w8[:ss]).sum() / w8[:ss].sum() for m in range(k)])
                    tn = np.array([(full[m, nlat - nn:] * w8[nlat - nn:]).sum() / w8[nlat - nn:].sum()
                                   for m in range(k)])
                    kw = {k_: e for k_, e in (("s_et", s), ("n_et", n)) if e is not None}
                    got = static_stability(z.astype(c.get("zfmt", "f8")), aa, tt, **kw)
                    res.step()
                    for name, g, w in zip(("t0_n", "t0_s", "stat_n", "stat_s"), got, (tn, ts, der(tn), der(ts))):
                        close(res, name, g, w, amp * (1 + np.abs(w).max()), "%s for extents %s" % (name, (s, n)))
                    res.trace()
            res.state(th)

    def givenvort(self, c, z, res):
        from falwa.utilities import compute_qgpv_givenvort
        k, nlat, nlon = c["k"], c["nlat"], c["nlon"]
        for lat in (np.linspace(-90., 90., nlat), np.linspace(-80., 88., nlat)):
            stored = lat
            if "lfmt" in c:
                stored = np.round(lat).astype(c["lfmt"])
                lat = stored.astype(float)
            for om, h in ((7.29e-5, None), (5e-5, 6000.)):
                hh = h or 7000.
                if c.get("bump") == "lat":
                    stored = lat = lat + 1.5 * np.sin(np.pi * np.arange(nlat) / (nlat - 1))
                av = 1e-4 * np.sin(np.arange(k * nlat * nlon) * 1.1).reshape(k, nlat, nlon)
                tn, ts = 300. + 2e-3 * z, 295. + 2.5e-3 * z
                sn, ss = 4e-3 + 1e-7 * z, 5e-3 - 1e-7 * z
                if c.get("bump") == "mean":
                    tn[1], ts[1] = tn[1] + 1., ts[1] - 0.5
                if c.get("bump") == "stat":
                    sn[1], ss[1] = sn[1] * 1.2, ss[1] * 0.9
                sn, ss = sn * c.get("scale", 1.), ss * c.get("scale", 1.)
                f = 2 * om * np.sin(np.deg2rad(lat))
                for th in self.fields(c):
                    for s in [None] + (list(range(1, nlat // 2 + 1)) if nlat < 12 else [nlat // 3]):
                        m = s or nlat // 2
                        g = np.zeros((k, nlat, nlon))
                        e = np.exp(-z / hh)[:, None, None]
                        g[:, :m] = (e * (th - ts[:, None, None]) / ss[:, None, None])[:, :m]
                        g[:, nlat - m:] = (e * (th - tn[:, None, None]) / sn[:, None, None])[:, nlat - m:]
                        d = np.zeros_like(g)
                        for q in range(k):
                            lo, hi = max(q - 1, 0), min(q + 1, k - 1)
                            d[q] = np.exp(z[q] / hh) * (g[hi] - g[lo]) / (z[hi] - z[lo])
                        kw = {} if h is None else dict(scale_height=h)
                        if s:
                            kw["nlat_s"] = s
                        # fill the allocator with junk so that uninitialised memory shows
                        junk = [np.full((k, nlat, nlon), np.nan) for _ in range(4)]
                        del junk
                        q, dz = compute_qgpv_givenvort(om, nlat, nlon, k, z.astype(c.get("zfmt", "f8")), stored, av, th, tn, ts, sn, ss, **kw)
                        res.step()
                        w = av + f[None, :, None] * d
                        # rows in neither domain carry no stretching
                        close(res, "stretching", dz, d, 1e-9 * np.abs(d).max(), "stretching, domain %s" % s)
                        close(res, "qgpv", q, w, 1e-9 * np.abs(w).max(), "QGPV, domain %s" % s)
                        res.trace(2)
                    res.state(th, lat)

    def product(self, c, z, res):
        from falwa.utilities import z_derivative_of_prod
        k, nlat, nlon = c["k"], c["nlat"], c["nlon"]
        odd = nlat % 2
        eq = nlat // 2 + 1          # 1-based equator index of the analysis grid
        sn, ss = 4e-3 + 1e-7 * z, 5e-3 - 1e-7 * z
        h = 7000.
        dec = np.exp(-z / h)
        dz = z[1] - z[0]
        if c.get("bump") == "stat":
            sn[1], ss[1] = sn[1] * 1.2, ss[1] * 0.9
        if c.get("bump") == "mean":
            dec[1] *= 1.1
        sn, ss = sn * c.get("scale", 1.), ss * c.get("scale", 1.)
        mult = 1e-4 * np.sin(1.9 * np.arange(k * nlat)).reshape(k, nlat)
        if c.get("bump") == "lat":
            mult[1] *= -0.8
        stat = np.empty((k, nlat))
        for j in range(nlat):
            stat[:, j] = ss if j < eq - 1 else (0.5 * (ss + sn) if odd and j == eq - 1 else sn)
        for g in self.fields(c):
            got = z_derivative_of_prod(stat_n=sn, stat_s=ss, kmax=k, equator_idx=eq, dz=dz, density_decay=dec, gfunc=g, multiplier=mult)
            res.step()
            t = dec[:, None, None] * g / stat[:, :, None]
            w = np.empty((k, nlat, nlon))
            for q in range(k):
                lo, hi = max(q - 1, 0), min(q + 1, k - 1)
                w[q] = mult[q][:, None] * (t[hi] - t[lo]) / ((hi - lo) * dz)
            close(res, "product", got, w, 1e-10 * np.abs(w).max() + 1e-30, "vertical derivative of the product")
            res.trace()
            res.state(g)


class Handle:
    """What an open file offers: a shape and element access by [time, lat, lon]."""
    def __init__(self, data):
        self.data = data
        self.shape, self.ndim, self.dtype, self.size = data.shape, data.ndim, data.dtype, data.size

    def __getitem__(self, key):
        return self.data[key]

    def __array__(self, dtype=None, copy=None):
        return np.array(self.data, dtype=dtype)

    def __len__(self):
        return self.shape[0]


class Covariance(Prop):
    id = "C08"
    title = "Covariance map is the sample covariance over time at every grid point"
    technique = "exhaustive enumeration of all pairs of short series over a finite alphabet and of impulse pairs on small maps"
    level_note = NOTE
    assumptions = ()
    bound = {"quick": "all pairs of series of length 2-3 over 3 values; impulse pairs on maps of up to 3x3 points and 2-4 times, in every pair of 8 number formats and layouts; series of 31-1000 times on maps of up to 46x90 points at 3 magnitudes; every ordered pair of 12 calls in one process",
             "thorough": "all pairs of series of length 2-4 over 3 values; impulse pairs on maps of up to 4x4 points and 2-5 times, in every pair of 8 number formats and layouts"}

    def cases(self, tier):
        for n in ((2, 3) if tier == "quick" else (2, 3, 4)):
            yield dict(what="series", n=n)
        for nt, nlat, nlon in itertools.product((2, 4) if tier == "quick" else (2, 3, 5), (1, 2, 3) if tier == "quick" else (1, 2, 3, 4),
                                                (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
            yield dict(what="maps", n=nt, nlat=nlat, nlon=nlon)
        for n, nlat, nlon in ((31, 4, 5), (40, 37, 6), (124, 9, 72), (1000, 3, 4), (366, 46, 90), (5, 5, 5), (7, 4, 7), (7, 7, 4), (4, 7, 7), (2, 2, 2), (300, 1, 300)) + (() if tier == "quick" else ((1460, 73, 144),)):
            for scale in (1., 1e-8, 1e8):
                for fmt in ("f8", "f4"):
                    yield dict(what="long", n=n, nlat=nlat, nlon=nlon, scale=scale, fmt=fmt)
        for reuse in (False, True):
            yield dict(tour=[{}, dict(alter="point"), dict(alter="rows"), dict(alter="east"), dict(alter="scale"), dict(fmt="f4"), dict(fmt="i2"), dict(nlon=4),
                             dict(nlat=7), dict(n=5), dict(swap=1), dict(same=1)], common=dict(what="long", n=4, nlat=6, nlon=3, scale=1., reuse=reuse))

    def evaluate(self, c):
        fn = load("stat_utils").calculate_covariance
        res = new()

        def model(a, b):
            n = a.shape[0]
            da, db = a - a.sum(0) / n, b - b.sum(0) / n
            return (da * db).sum(0) / (n - 1)
        n = c["n"]
        if c["what"] == "long":
            shape = n, c["nlat"], c["nlon"]
            a = lots(shape, dict(c, reuse=False))
            b = (np.asarray(lots(shape, dict(alter="east")) * 2 + 0.3 * np.roll(a, 1, axis=0), float)).astype(a.dtype)
            if c["scale"] != 1:
                a, b = (a * c["scale"]).astype(a.dtype), (b * c["scale"]).astype(a.dtype)
            if c.get("reuse"):
                buf = [BUFFERS.setdefault((shape, a.dtype.str, k), np.empty_like(a)) for k in "ab"]
                buf[0][...], buf[1][...] = a, b
                a, b = buf
            if c.get("swap"):
                a, b = b, a
            if c.get("same"):
                b = a
            fa, fb = np.asarray(a, float), np.asarray(b, float)
            keep = a.copy(), b.copy()
            # rounding of the products and sums, relative to the largest product
            tol = (1e-13 if a.dtype != np.float32 else 1e-6) * np.abs(fa).max() * np.abs(fb).max() * 4
            close(res, "long", fn(a, b), model(fa, fb), tol, "covariance of series of length %d" % n)
            res.expect(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), "mutated", "an input was modified")
            res.step()
            res.trace()
            res.state(a, b)
        elif c["what"] == "series":
            ser = np.array(list(itertools.product((-1., 0., 2.), repeat=n)))      # every series
            m = len(ser)
            # rows x columns = all pairs of series
            a = np.broadcast_to(ser.T[:, :, None], (n, m, m))
            b = np.broadcast_to(ser.T[:, None, :], (n, m, m))
            close(res, "pairs", fn(a, b), model(a, b), 1e-12, "covariance of every pair")
            res.step()
            res.trace(m * m)
            for s in ser:
                res.state(s)
        else:
            nlat, nlon = c["nlat"], c["nlon"]
            idx = list(itertools.product(range(n), range(nlat), range(nlon)))
            for p in idx:
                for q in idx:
                    a, b = np.zeros((n, nlat, nlon)), np.full((n, nlat, nlon), 0.5)
                    a[p] = 1.
                    b[q] = -2.
                    close(res, "maps", fn(a, b), model(a, b), 1e-13, "covariance map")
                    res.step()
                    res.trace()
                    res.state(p, q)
            # neighbours of very different magnitude, judged relative to their own
            w = np.sin(np.arange(n * nlat * nlon) * 1.3).reshape(n, nlat, nlon)
            for p in itertools.product((1e-9, 1., 1e9), repeat=min(3, nlon)):
                mag = np.resize(p, nlon) * np.logspace(0, -6, nlat)[:, None]
                want = model(w, w[::-1] ** 2)
                close(res, "magnitudes", fn(w * mag, w[::-1] ** 2 * mag) / mag ** 2, want, 1e-12, "covariance of columns of magnitudes %s" % (p,))
                res.step()
                res.trace()
                res.state("mag", p)
            close(res, "maps", fn(w, w[::-1] ** 2), model(w, w[::-1] ** 2), 1e-13, "covariance map")
            # missing values at one point leave the other points alone
            for j, i in itertools.product(range(nlat), range(nlon)):
                a = w.copy()
                a[0, j, i] = np.nan
                want, rest = model(w, w[::-1] ** 2), np.ones((nlat, nlon), bool)
                rest[j, i] = False
                close(res, "missing", fn(a, w[::-1] ** 2)[rest], want[rest], 1e-13, "covariance at the points without missing values")
                close(res, "missing", fn(w[::-1] ** 2, a)[rest], want[rest], 1e-13, "covariance at the points without missing values")
                res.step(2)
                res.trace(2)
                res.state("missing", j, i)
            # every pair of number formats and memory layouts, values far from zero, and file-like handles
            base = [np.round(100 * w), np.round(90 * w[::-1] ** 2) - 40.]
            forms = {"float64": lambda x: x, "int16": lambda x: x.astype(np.int16), "int32": lambda x: x.astype(np.int32),
                     "uint8": lambda x: (x + 128).astype(np.uint8), "float32": lambda x: (x / 7).astype(np.float32), "big": lambda x: x + 1e6,
                     "fortran": np.asfortranarray, "handle": Handle}
            for (na, fa), (nb, fb) in itertools.product(forms.items(), repeat=2):
                a, b = fa(base[0]), fb(base[1])
                snap = np.array(a[:]), np.array(b[:])
                want = model(snap[0].astype(float), snap[1].astype(float))
                got = fn(a, b)
                close(res, "format-%s-%s" % (na, nb), got, want, 1e-6 * max(1., np.abs(want).max()), "covariance of %s and %s series" % (na, nb))
                res.expect(np.array_equal(a[:], snap[0]) and np.array_equal(b[:], snap[1]), "mutated", "an input was modified")
                res.step()
                res.trace()
                res.state(na, nb)
        res.sample = c
        return res


_MODS = {}


def load(name):
    """Modules the project does not install are loaded from the copied sources by path."""
    if name not in _MODS:
        import falwa
        path = os.path.join(os.path.dirname(falwa.__file__), name + ".py")
        spec = importlib.util.spec_from_file_location("falwa_" + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _MODS[name] = m
    return _MODS[name]


PROPS = [Horizontal(), Vertical(), Covariance()]
