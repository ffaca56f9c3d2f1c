"""Properties that relate whole runs of the pipeline: input contract, mirror symmetry, hemispheric output,
longitude rotation, grids without the equator."""
import itertools
import re
import warnings
import numpy as np
from .. import pipe, ref, fields
from ..core import close, raises
from .base import Prop, new
from .stages import NOTE, ASSUME, extreme, layouts, mx, star
from .twin import GLOBAL3, Judge, STATS, decided, decided_even, lat_axis, odd_state, odd_twin, shape3

ALL = ("interp", "ref", "baro", "layer")
# evenly spaced levels start at the ground, above it, or below it
LOWEST = {"off": 1300., "dense": -400.}
VERT = (("std", 6, 2000.), ("off", 7, 2533.3333333333335))
VERT_T = VERT + (("dense", 8, 2000.), ("std", 5, 3000.), ("dense", 12, 1500.))


def space(tier, nlats=(9, 13), nlons=(6, 9), flds=("wave", "break"), nhs=(False,), evens=(False,), evenlys=(False, True), jbs=(1,),
          consts=("earth",), nlats_t=(9, 11, 13, 17), nlons_t=(6, 8, 9, 16), flds_t=("zonal", "wave", "wave2", "strong", "rough", "break"),
          jbs_t=(0, 1, 2, 3), consts_t=("earth", "alt", "alt2"), vert=None, vert_t=None):
    t = tier != "quick"
    out = []
    for cls in ("NH18", "NHN22"):
        for nlat in (nlats_t if t else nlats):
            for nlon in (nlons_t if t else nlons):
                for jb in ((jbs_t if t else jbs) if cls == "NHN22" else (0,)):
                    if nlat // 2 + 1 - jb < 4:
                        continue
                    for plev, kmax, dz in ((vert_t or VERT_T) if t else (vert or VERT)):
                        for fld in (flds_t if t else flds):
                            for k in (consts_t if t else consts):
                                for ev in evens:
                                    for nh in nhs:
                                        for ely in evenlys:
                                            out.append(pipe.cfg(cls=cls, nlat=nlat - 1 if ev else nlat, nlon=nlon, jb=jb, plev=plev, kmax=kmax,
                                                                dz=dz, field=fld, const=k, even=ev, nh=nh, evenly=ely and LOWEST.get(plev, True)))
    return out + wide(t, evens, nhs)


WIDE = "; 115 configurations that vary one axis at a time over a wide range (nlat 9-35, nlon 4-45, boundary rows 0-7, 4-33 levels, 5 planets, 8 atmospheres); grids of up to %s, of 361 rows and of 720 meridians; where grids lack the equator: cell centres, pole to pole, Gaussian and stretched latitudes"


def wide(thorough, evens, nhs):
    """One axis at a time, and grids of practical size."""
    out = star(("NH18", "NHN22"), evens, nhs) + extreme(("NH18", "NHN22"), evens, nhs)
    # very many rows, very many meridians
    for cls, ev, nh, (nlat, nlon) in itertools.product(("NH18", "NHN22"), evens, nhs, ((361, 5), (9, 720))):
        if cls == "NHN22" or nlat < 100:
            out.append(pipe.cfg(cls=cls, nlat=nlat - 1 if ev else nlat, nlon=nlon, jb=5 if nlat > 100 else 0, field="wave", even=ev, nh=nh, tol=1e-4))
    if True in evens:
        out += layouts(("NH18", "NHN22"), nhs)
    for nlat, nlon, plev, kmax, fld in ((31, 40, "dense", 20, "break"), (61, 72, "deep", 31, "rough")) + (((121, 240, "deep", 49, "rough"),) if thorough else ()):
        for cls, ev, nh in itertools.product(("NH18", "NHN22"), evens, nhs):
            out.append(pipe.cfg(cls=cls, nlat=nlat - 1 if ev else nlat, nlon=nlon, jb=5 if cls == "NHN22" else 0, plev=plev, kmax=kmax, dz=1000., field=fld,
                                even=ev, nh=nh))
    return out


# ------------------------------------------------------------------------------------------ C23
ODD = {"qgpv": -1, "v": -1, "qref": -1, "flux_vector_phi_baro": -1}
SWAP = {"ep2": ("ep3", -1), "ep3": ("ep2", -1), "stat_s": ("stat_n", 1), "stat_n": ("stat_s", 1)}


class Mirror(Prop):
    id = "C23"
    title = "Mirroring the atmosphere about the equator mirrors every output"
    technique = "exhaustive enumeration of configurations; each run twice (original and mirrored input), all outputs related by the parity map"
    level_note = NOTE
    assumptions = ASSUME
    bound = {"quick": "2 classes x boundary rows {0..3} x nlat {9,13,15} x nlon {6,9,16} x 2 vertical grids x interpolated/evenly spaced x odd/even latitudes x 3 atmospheres" + WIDE % "61x72x31",
             "thorough": "2 classes x boundary rows {0..3} x nlat {9,11,13,17} x nlon {6,8,9,16} x 5 vertical grids x interpolated/evenly spaced x odd/even latitudes x 5 atmospheres x 3 constant sets" + WIDE % "121x240x49"}

    def cases(self, tier):
        return space(tier, evens=(False, True), flds=("wave", "rough", "break"), nlats=(9, 13, 15), nlons=(6, 9, 16), jbs=(0, 1, 2, 3))

    def evaluate(self, c):
        res = new()
        xlon, ylat, plev, u, v, t = pipe.data(c)
        ncf = pipe.ncforce_for(c, shape3(c))
        f, o = pipe.run(c, ALL, arrays=(xlon, ylat, plev, u, v, t), ncforce=ncf, res=res)
        m, p = pipe.run(c, ALL, arrays=(xlon, ylat, plev, u[:, ::-1], -v[:, ::-1], t[:, ::-1]), ncforce=-ncf[:, ::-1], res=res)
        ana = ref.analysis_lat(ylat)
        back = lambda w: ref.linear_extrap(ylat, w, ana, 1) if c["even"] else w
        # decidedness of the area analysis on the analysis grid (approximate on even grids: same rows interpolated)
        dec = decided(c, o["qgpv"], o["u"], o["v"]) if not c["even"] else decided_even(c)
        if not dec:
            res.note("reference_states_skipped_ambiguous")
        rule = Judge(c, o if not c["even"] else odd_state(c))
        eq = c["nlat"] // 2
        drop = [eq - 1, eq] if c["even"] else [eq]
        # the equator row holds one reference wind; differences across it see that of the other hemisphere when the
        # boundary lies on the equator
        near = [eq - 2, eq + 1] if c["even"] else [eq - 1, eq + 1]
        for n in o:
            if n in STATS:
                other = SWAP.get(n, (n, 1))[0]
                close(res, n, p[other], o[n], 1e-9 * mx(o[n]), "mirrored " + n)
                continue
            if not dec and n not in GLOBAL3:
                continue
            src, sg = SWAP.get(n, (n, ODD.get(n, 1)))
            ax = 1 if n in pipe.STORE else lat_axis(n)
            a = sg * np.flip(p[src], ax)
            b = o[n]
            k = np.ones(b.shape[ax], bool)
            if n in pipe.STORE:
                k[b.shape[ax] // 2] = False
            elif n not in GLOBAL3:
                k[drop] = False
                if n in ("ep2", "ep3", "divergence_eddy_momentum_flux") and c["cls"] == "NHN22" and c["jb"] == 0:
                    k[near] = False
            skip = rule.skip(n, c["even"], False)
            a, b = np.where(skip, 0., a), np.where(skip, 0., b)
            a, b = np.compress(k, a, ax), np.compress(k, b, ax)
            close(res, n, a, b, rule.tol(n, b), "mirrored " + n)
            res.trace()
            res.state(b)
        res.sample = c
        return res


# ------------------------------------------------------------------------------------------ C34
class Even(Prop):
    id = "C34"
    title = "Grids without the equator give the analysis-grid results interpolated back"
    technique = "exhaustive enumeration of configurations; every output of the even-grid run compared with the odd-grid run on latitude-interpolated input"
    level_note = NOTE
    assumptions = ASSUME
    bound = {"quick": "2 classes x boundary rows {0..3} x global/hemispheric output x nlat {8,12,14} x nlon {6,9,16} x 2 vertical grids x interpolated/evenly spaced x 2 atmospheres" + WIDE % "61x72x31",
             "thorough": "2 classes x boundary rows {0..3} x global/hemispheric output x nlat {8,10,12,16} x nlon {6,8,9,16} x 5 vertical grids x interpolated/evenly spaced x 5 atmospheres x 3 constant sets" + WIDE % "121x240x49"}

    def cases(self, tier):
        return space(tier, evens=(True,), nhs=(False, True), nlats=(9, 13, 15), nlons=(6, 9, 16), jbs=(0, 1, 2, 3)) \
            + layouts(("NH18", "NHN22"), (False, True), ("lopsided",))

    def evaluate(self, c):
        res = new()
        xlon, ylat, plev, u, v, t = arrays = pipe.data(c)
        odd, oarr = odd_twin(c)
        ana = oarr[1]
        ncf = pipe.ncforce_for(c, shape3(c))
        f, o = pipe.run(c, ALL, arrays=arrays, ncforce=ncf, res=res)
        g, w = pipe.run(odd, ALL, arrays=oarr, ncforce=ncf, res=res)
        dec = decided_even(c)
        if not dec:
            res.note("reference_states_skipped_ambiguous")
        rule = Judge(odd, w)
        half = c["nlat"] // 2
        user, rows = (ylat[-half:], ana[-(half + 1):]) if c["nh"] else (ylat, ana)
        res.expect(np.array_equal(np.asarray(f.ylat), ylat), "ylat", "latitude attribute differs from the input")
        res.expect(np.array_equal(np.asarray(f.ylat_ref_states), user), "ylat_ref_states", "hemispheric latitude attribute")
        res.expect(f.get_latitude_dim() == ylat.size, "latitude-dim", "latitude dimension")
        for n in o:
            if n in STATS or n in pipe.STORE:
                want = w[n]
            elif n in GLOBAL3:
                want = ref.linear_extrap(ana, w[n], ylat, 1)
            else:
                want = ref.linear_extrap(rows, w[n], user, lat_axis(n))
            if not dec and n not in GLOBAL3 and n not in STATS:
                continue
            skip = rule.skip(n, True, c["nh"])
            close(res, n, np.where(skip, 0., o[n]), np.where(skip, 0., want), rule.tol(n, w[n]), n + " on the user's latitudes")
            res.trace()
            res.state(want)
        # LWA-only path
        f2, _ = pipe.run(c, ("interp", "ref"), arrays=arrays, res=res)
        f2.compute_lwa_only()
        res.step()
        if dec:
            for n, ax in (("lwa", 1), ("lwa_baro", 0), ("u_baro", 0)):
                want = ref.linear_extrap(rows, w[n], user, ax)
                close(res, "lwa-only-" + n, getattr(f2, n), want, max(rule.tol(n, w[n]), 2e-6 * mx(want)), n + " from the LWA-only path")
                res.trace()
        res.sample = c
        return res


# ------------------------------------------------------------------------------------------ C24
class NHOnly(Prop):
    id = "C24"
    title = "Northern-hemisphere-only output is the northern part of the global output"
    technique = "exhaustive enumeration of configurations; each run in both output modes on every computation path, outputs compared entry by entry"
    level_note = NOTE
    assumptions = ()
    bound = {"quick": "2 classes x boundary rows {0,1,3} x nlat {8,9,12,13} x nlon {6,9} x 2 vertical grids x interpolated/evenly spaced x 2 atmospheres x 2 constant sets" + WIDE % "61x72x31",
             "thorough": "2 classes x boundary rows {0..3} x nlat {8..17} x nlon {6,8,9,16} x 5 vertical grids x interpolated/evenly spaced x 5 atmospheres x 3 constant sets" + WIDE % "121x240x49"}

    def cases(self, tier):
        return space(tier, evens=(False, True), jbs=(0, 1, 3), consts=("earth", "alt"))

    def evaluate(self, c):
        res = new()
        arrays = pipe.data(c)
        xlon, ylat = arrays[:2]
        ncf = pipe.ncforce_for(c, shape3(c))
        f, o = pipe.run(c, ALL, arrays=arrays, ncforce=ncf, res=res)
        g, w = pipe.run(dict(c, nh=True), ALL, arrays=arrays, ncforce=ncf, res=res)
        # the LWA-only path; the deprecated per-call switch must not change anything
        f2, g2 = pipe.make(c, arrays), pipe.make(dict(c, nh=True), arrays)
        for q, first, mode in ((f2, o, False), (g2, w, True)):
            q.interpolate_fields(return_named_tuple=False)
            old = dict(northern_hemisphere_results_only=not mode)
            with warnings.catch_warnings(record=True) as said:
                warnings.simplefilter("always")
                q.compute_reference_states(return_named_tuple=False, **old)
                n1 = len(said)
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncf, **old)
                n2 = len(said) - n1
            if not mode:
                res.expect(n1 > 0 and n2 > 0, "deprecated-switch-warning", "no warning for the deprecated switch")
            again = dict(pipe.ref_obs(q), **pipe.baro_obs(q))
            again["lwa_from_baro"] = again.pop("lwa")
            for n in again:
                res.expect(np.array_equal(again[n], first[n], equal_nan=True), "deprecated-switch-" + n, "deprecated switch changed " + n)
            q.compute_lwa_only()
            res.step(4)
        for n in ("lwa", "lwa_baro", "u_baro"):
            o["only-" + n], w["only-" + n] = pipe.A(getattr(f2, n)), pipe.A(getattr(g2, n))
        half = c["nlat"] // 2 + (0 if c["even"] else 1)
        res.expect(f.northern_hemisphere_results_only is False and g.northern_hemisphere_results_only is True, "mode", "mode attribute")
        res.expect(np.array_equal(np.asarray(g.ylat_ref_states), ylat[-half:]), "latitudes", "latitudes of the hemispheric output")
        if c["cls"] == "NHN22":
            w["stat_n"] = w.pop("stat")
        for n in w:
            if n in STATS or n in GLOBAL3:
                close(res, n, w[n], o[n], 1e-9 * mx(o[n]), n + " (mode independent)")
            else:
                base = n.replace("only-", "")
                ax = 1 if n in pipe.STORE else lat_axis(base)
                cut = np.take(o[n], np.arange(o[n].shape[ax] - w[n].shape[ax], o[n].shape[ax]), ax)
                nrow = half + 1 if (c["even"] and n in pipe.STORE) else half
                res.expect(w[n].shape[ax] == nrow, n, "%s has %d rows, expected %d" % (n, w[n].shape[ax], nrow))
                # the shared equator row (or the row interpolated from it) is not compared
                # (differences across it neither: with the boundary on the equator the wind there is per hemisphere)
                s = np.arange(2 if n in ("ep3", "divergence_eddy_momentum_flux") and c["jb"] == 0 and c["cls"] == "NHN22" else 1, w[n].shape[ax])
                a, b = np.take(w[n], s, ax), np.take(cut, s, ax)
                close(res, n, a, b, 1e-6 * mx(b), n + " of the northern hemisphere")
            res.trace()
            res.state(o[n] if n in o else w[n])
        res.sample = c
        return res


# ------------------------------------------------------------------------------------------ C25
class Rotate(Prop):
    id = "C25"
    title = "Rotating the atmosphere in longitude rotates every output"
    technique = "exhaustive enumeration of configurations and of every longitude shift; outputs related by the shift"
    level_note = NOTE
    assumptions = ASSUME
    bound = {"quick": "2 classes x boundary rows {0,1,2} x nlat 9 x nlon {6,9} x every shift (longitudes kept, shifted by half a circle or rotated along) x 2 vertical grids x interpolated/evenly spaced x odd/even latitudes x 3 atmospheres" + WIDE % "61x72x31",
             "thorough": "2 classes x boundary rows {0..3} x nlat {9,13} x nlon {6,8,9,16} x every shift (longitudes kept, shifted by half a circle or rotated along) x 3 vertical grids x interpolated/evenly spaced x odd/even latitudes x 4 atmospheres" + WIDE % "121x240x49"}

    def cases(self, tier):
        return space(tier, nlats=(9,), evens=(False, True), flds=("wave", "rough", "break"), jbs=(0, 1, 2), nlats_t=(9, 13),
                     flds_t=("wave", "wave2", "strong", "rough", "break"), consts_t=("earth",), vert_t=VERT_T[:3])

    def evaluate(self, c):
        res = new()
        xlon, ylat, plev, u, v, t = pipe.data(c)
        ncf = pipe.ncforce_for(c, shape3(c))
        f, o = pipe.run(c, ALL, arrays=(xlon, ylat, plev, u, v, t), ncforce=ncf, res=res)
        dec = decided_even(c) if c["even"] else decided(c, o["qgpv"], o["u"], o["v"])
        if not dec:
            res.note("reference_states_skipped_ambiguous")
        rule = Judge(c, o if not c["even"] else odd_state(c))
        for r in range(1, c["nlon"]) if c["nlon"] < 17 else (1, 2, c["nlon"] // 2, c["nlon"] - 1):
            ro = lambda w: np.roll(w, r, -1)
            # the origin of the longitude coordinate is immaterial
            lon = (np.roll(xlon, -r), xlon, xlon - 180.)[r % 3]
            m, p = pipe.run(c, ALL, arrays=(lon, ylat, plev, ro(u), ro(v), ro(t)), ncforce=ro(ncf), res=res)
            for n in o:
                zonal = n in STATS or n in ("qref", "uref", "ptref")
                if not dec and n not in STATS + GLOBAL3:
                    continue
                w = o[n] if zonal else ro(o[n])
                skip = rule.skip(n, c["even"], False)
                close(res, n, np.where((skip if skip is False else np.roll(skip, r, -1)), 0., p[n]), np.where((skip if skip is False else np.roll(skip, r, -1)), 0., w), rule.tol(n, w),
                      "%s rotated by %d columns" % (n, r))
                res.trace()
                res.state(p[n])
        res.sample = c
        return res


# ------------------------------------------------------------------------------------------ C10
class Contract(Prop):
    id = "C10"
    title = "Inputs stay untouched, equal inputs give equal results, invalid ones are refused"
    technique = "exhaustive enumeration of input representations and of every single invalid perturbation, on every configuration"
    level_note = "every representation and every perturbation of the stated list is executed on the real classes"
    assumptions = ("representations outside the list (e.g. lazily loaded arrays) are covered through the dataset interface only",)
    bound = {"quick": "3 classes x odd/even latitudes x both vertical modes x 14 field representations, 19 coordinate formats + missing, extra and broadcastable dimensions, every +-1 shape perturbation, every adjacent swap and repetition of coordinate values, order reversal and level-count boundary; 8 further grids (to 37 x 48 points, 49 levels)",
             "thorough": "3 classes x odd/even latitudes x both vertical modes x 14 field representations, 19 coordinate formats + missing, extra and broadcastable dimensions, every +-2 shape perturbation, every adjacent swap and repetition of coordinate values, order reversal and level-count boundary, on 3 grids and 3 constant sets; 8 further grids (to 37 x 48 points, 49 levels)"}
    # coordinates in other number formats: name, position among the arguments, format
    FORMATS = [("%s:%s" % (n, dt), i, dt) for n, i, dts in (
        ("lat", 1, ("int8", "int16", "float16", "float32", ">f4", "masked", "strided")), ("plev", 2, ("int16", "uint16", "uint32", "float16", "float32", ">f8", "masked", "strided")),
        ("lon", 0, ("int16", "uint16", "float32", "masked"))) for dt in dts]
    REPR = ("masked", "masked_nan_free_some", "fortran", "strided", "readonly", "float32", "negative_stride", "big_endian", "masked_lat",
            "int_plev", "int_grid", "int_fields", "transposed_view", "swapped_mask", "masked_everywhere", "masked_integers")

    def cases(self, tier):
        out = []
        for cls in ("NH18", "NHN22", "QGField"):
            for ev in (False, True):
                for ely in (False, True):
                    for nlat, nlon in (((9, 6), (13, 8)) if tier == "quick" else ((9, 6), (13, 9), (11, 8))):
                        for k in (("earth",) if tier == "quick" else ("earth", "alt", "alt2")):
                            c = pipe.cfg(cls=cls, even=ev, evenly=ely, nlat=nlat - 1 if ev else nlat, nlon=nlon, const=k)
                            out.append(dict(c, what="repr"))
                            out.append(dict(c, what="errors", deep=tier != "quick"))
            # grids of practical size, other layouts, many levels
            for ch in (dict(nlat=37, nlon=48, kmax=15, dz=1500., plev="dense"), dict(nlat=36, nlon=30, even=True, lat="gauss", kmax=9), dict(nlat=20, nlon=7, even=True, lat="poles"),
                       dict(nlat=14, nlon=5, even=True, lat="lopsided", const="mars"), dict(nlat=9, nlon=6, evenly=True, kmax=49, dz=1000.), dict(nlat=10, nlon=6, even=True, evenly=True, kmax=49, dz=1000.),
                       dict(nlat=9, nlon=6, plev="era5", kmax=49, dz=900.), dict(nlat=9, nlon=5, const="alt2", plev="off")):
                for what in ("repr", "errors"):
                    if what == "repr" and (ch["nlat"] > 30 and cls == "QGField" or ch.get("kmax") == 49):
                        continue
                    out.append(dict(pipe.cfg(cls=cls, **dict(dict(jb=1 if cls == "NHN22" else 0), **ch)), what=what, deep=False))
        return out

    def evaluate(self, c):
        res = new()
        getattr(self, c["what"])(c, res)
        res.sample = c
        return res

    def repr(self, c, res):
        base = pipe.data(c)
        ncf = pipe.ncforce_for(c, shape3(c))
        f, o = pipe.run(c, ALL, arrays=base, ncforce=ncf, res=res)
        for kind in self.REPR:
            xlon, ylat, plev, u, v, t = [np.array(x) for x in base]
            n3 = ncf.copy()
            ref_o = o
            if kind == "float32":
                u, v, t = [x.astype(np.float32) for x in (u, v, t)]
                _, ref_o = pipe.run(c, ALL, arrays=(xlon, ylat, plev, *[x.astype(float) for x in (u, v, t)]), ncforce=n3, res=res)
            if kind == "masked_integers":
                _, ref_o = pipe.run(c, ALL, arrays=(xlon, ylat, plev, *[np.round(x) for x in (u, v, t)]), ncforce=n3, res=res)
            if kind == "int_fields":
                u, v, t = [np.round(x).astype(np.int32) for x in (u, v, t)]
                _, ref_o = pipe.run(c, ALL, arrays=(xlon, ylat, plev, *[x.astype(float) for x in (u, v, t)]), ncforce=n3, res=res)
            if kind == "int_grid":
                if not (np.array_equal(xlon, np.round(xlon)) and np.array_equal(ylat, np.round(ylat))):
                    continue
                xlon, ylat = xlon.astype(int), ylat.astype(int)
            conv = {
                "masked": lambda x: np.ma.masked_array(x), "masked_nan_free_some": lambda x: np.ma.masked_array(x, mask=x > np.median(x)),
                "masked_everywhere": lambda x: np.ma.masked_array(x, mask=True), "masked_integers": lambda x: np.ma.masked_array(np.round(x).astype(np.int16), mask=np.arange(x.size).reshape(x.shape) % 4 == 0),
                "swapped_mask": lambda x: np.ma.masked_array(x, mask=np.arange(x.size).reshape(x.shape) % 3 == 0),
                "fortran": np.asfortranarray, "strided": lambda x: np.repeat(x, 2, axis=-1)[..., ::2],
                "negative_stride": lambda x: np.ascontiguousarray(x[:, ::-1])[:, ::-1],
                "big_endian": lambda x: x.astype(">f8"),
                "transposed_view": lambda x: np.ascontiguousarray(x.T).T}.get(kind, lambda x: x)
            u, v, t = conv(u), conv(v), conv(t)
            if kind == "masked_lat":
                ylat = np.ma.masked_array(ylat)
            if kind == "int_plev":
                if c["evenly"] or not np.allclose(plev, np.round(plev)):
                    continue
                plev = np.round(plev).astype(int)
            if kind in ("fortran", "strided", "transposed_view"):
                n3 = conv(n3)
            arrs = [xlon, ylat, plev, u, v, t, n3]
            snap = [(np.array(np.ma.getdata(x)), np.array(np.ma.getmaskarray(x))) for x in arrs]
            if kind == "readonly":
                for x in arrs:
                    x.flags.writeable = False
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g, p = pipe.run(c, ALL, arrays=arrs[:6], ncforce=n3, res=res)
                g.compute_lwa_only()
            for n in ref_o:
                # identical numbers in, identical numbers out (up to the last digits of a different summation order)
                close(res, "%s-%s" % (kind, n), p[n], ref_o[n], 2e-6 * mx(ref_o[n]), "%s with %s input" % (n, kind))
                res.trace()
            for x, (d, m) in zip(arrs, snap):
                res.expect(np.array_equal(np.ma.getdata(x), d) and np.array_equal(np.ma.getmaskarray(x), m),
                           "mutated-" + kind, "an input array was modified by the computation")
            res.state(kind, c["cls"], c["even"], c["evenly"])

        for kind, i, dt in self.FORMATS:
            a, b = ([np.array(x) for x in base] for _ in range(2))
            if dt in ("masked", "strided"):
                b[i] = np.ma.masked_array(b[i]) if dt == "masked" else np.repeat(b[i], 3)[::3]
            else:
                b[i] = (np.round(b[i]) if "int" in dt else b[i]).astype(dt)
            a[i] = np.array(b[i], float)
            if (np.diff(a[i]) > 0).all() == (np.diff(a[i]) < 0).all() or c["even"] and i == 1 and 0 in a[i]:
                continue            # too coarse a format for this grid
            keep = np.array(b[i])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want = pipe.run(c, ALL, arrays=a, ncforce=ncf, res=res)[1]
                f, got = pipe.run(c, ALL, arrays=b, ncforce=ncf, res=res)
            for n in want:
                close(res, "%s-%s" % (kind, n), got[n], want[n], 1e-9 * mx(want[n]), "%s with coordinates as %s" % (n, kind))
                res.trace()
            for n, w in zip(("xlon", "ylat", "plev"), a):
                res.expect(np.array_equal(np.asarray(getattr(f, n), float), w), "coordinates-" + kind, "%s changed by the format %s" % (n, kind))
            res.expect(np.array_equal(np.asarray(b[i]), keep), "mutated-" + kind, "an input array was modified by the computation")
            res.state(kind, c["cls"], c["even"], c["evenly"])

    def errors(self, c, res):
        xlon, ylat, plev, u, v, t = pipe.data(c)
        mk = lambda *a, **kw: pipe.make(c, arrays=a, **kw)

        def refuse(key, types, *a, **kw):
            ok, e = raises(lambda: mk(*a, **kw), *types)
            res.expect(ok, key, "accepted: " + key)
            res.step()
            res.trace()
            res.state(key, c["cls"], c["even"], c["evenly"])
        # every single shape perturbation
        for name, idx in (("u", 3), ("v", 4), ("t", 5)):
            for ax in range(3):
                for d in ((-1, 1) if not c["deep"] else (-2, -1, 1, 2)):
                    a = [xlon, ylat, plev, u, v, t]
                    w = a[idx]
                    a[idx] = np.take(w, np.arange(w.shape[ax] + d) % w.shape[ax], ax)
                    if name == "t" and ax == 0:
                        refuse("shape-%s-%d%+d" % (name, ax, d), (TypeError, ValueError), *a)
                    else:
                        refuse("shape-%s-%d%+d" % (name, ax, d), (TypeError,), *a)
                for perm in ((0, 2, 1), (1, 0, 2), (2, 1, 0)):
                    a = [xlon, ylat, plev, u, v, t]
                    if a[idx].transpose(perm).shape == a[idx].shape:
                        continue
                    a[idx] = a[idx].transpose(perm)
                    refuse("transposed-%s" % name, (TypeError, ValueError), *a)
        # fewer or more dimensions, and sizes that would broadcast
        for name, idx in (("u", 3), ("v", 4), ("t", 5)):
            w = (u, v, t)[idx - 3]
            for k, bad in enumerate((w[0], w[:, 0], w[:, :, 0], w[0, 0], w[0, 0, 0], w[:1], w[:, :1], w[:, :, :1], w[:1, :1], w[:1, :1, :1], w[None], w[..., None], w[:, None], w[:, :, None],
                                     np.stack([w, w]), w.ravel(), w.reshape(w.shape[0], -1), w[None, :, 0], np.float64(3.))):
                a = [xlon, ylat, plev, u, v, t]
                a[idx] = np.asarray(bad)
                if a[idx].shape == w.shape:
                    continue
                refuse("dimensions-%s-%d" % (name, k), (TypeError, ValueError), *a)
        # order: reversal, every adjacent swap and every repeated value
        for i in range(ylat.size - 1):
            w = ylat.copy()
            w[[i, i + 1]] = w[[i + 1, i]]
            refuse("latitudes-swapped-at-%d" % i, (TypeError,), xlon, w, plev, u, v, t)
            w = ylat.copy()
            w[i] = w[i + 1]
            refuse("latitude-repeated-at-%d" % i, (TypeError,), xlon, w, plev, u, v, t)
        for i in range(plev.size - 1):
            w = plev.copy()
            w[[i, i + 1]] = w[[i + 1, i]]
            refuse("levels-swapped-at-%d" % i, (TypeError,), xlon, ylat, w, u, v, t)
            w = plev.copy()
            w[i + 1] = w[i]
            refuse("level-repeated-at-%d" % i, (TypeError,), xlon, ylat, w, u, v, t)
        refuse("ascending-pressure", (TypeError,), xlon, ylat, plev[::-1], u[::-1], v[::-1], t[::-1])
        refuse("descending-latitude", (TypeError,), xlon, ylat[::-1], plev, u[:, ::-1], v[:, ::-1], t[:, ::-1])
        if not c["even"]:
            for off in (0.5, -2., 1e-3, -1e-6, 1e-12):
                bad = ylat.copy()
                bad[bad == 0] = off
                refuse("odd-grid-without-equator", (TypeError,), xlon, bad, plev, u, v, t)
            two = ylat.copy()
            k = c["nlat"] // 2
            two[k + 1] = 0.
            refuse("two-equators", (TypeError,), xlon, two, plev, u, v, t)
        if not c["evenly"]:
            h = fields.consts(c["const"])["scale_height"]
            top = -h * np.log(plev[-1] / 1000.)
            # the limit follows the scale height in use, not only the one of the configuration
            for dz, other in itertools.product((500., 1000., 1500., 2000., 3000.), (None, 5500., 9000.)):
                top = -(other or h) * np.log(plev[-1] / 1000.)
                for kmax in range(4, int(top / dz) + 5):
                    if abs((kmax - 1) * dz - top) < 1e-6:
                        continue
                    kw = dict(kmax=kmax, dz=dz)
                    if other:
                        kw["scale_height"] = other
                    if (kmax - 1) * dz > top:
                        refuse("too-many-levels", (ValueError,), xlon, ylat, plev, u, v, t, **kw)
                        _, e = raises(lambda: mk(xlon, ylat, plev, u, v, t, **kw))
                        said = [int(x) for x in re.findall(r"(?<![\d.])\d+(?![\d.])", str(e))]
                        res.expect(kmax in said and int(top // dz) + 1 in said, "too-many-levels-message",
                                   "message %r does not name the valid number of levels %d" % (str(e), int(top // dz) + 1))
                    else:
                        f = mk(xlon, ylat, plev, u, v, t, **kw)
                        res.step()
                        res.expect(f.kmax == kmax and np.allclose(f.height, dz * np.arange(kmax)), "levels", "height grid for kmax=%d dz=%g" % (kmax, dz))
                        res.trace()
                        res.state("levels", kmax, dz, c["cls"])
            # spacings just beyond and just inside the reach of the data
            top = -h * np.log(plev[-1] / 1000.)
            for kmax in (4, 5, 7, 9, 12):
                refuse("levels-just-above-the-data", (ValueError,), xlon, ylat, plev, u, v, t, kmax=kmax, dz=top / (kmax - 1) * (1 + 1e-8))
                dz = top / (kmax - 1) * (1 - 1e-8)
                f = mk(xlon, ylat, plev, u, v, t, kmax=kmax, dz=dz)
                res.expect(f.kmax == kmax and f.dz == dz, "levels", "kmax=%d dz=%r taken as %r, %r" % (kmax, dz, f.kmax, f.dz))
        f = mk(xlon, ylat, plev, u, v, t)
        for n in ("scale_height", "cp", "dry_gas_constant", "omega", "planet_radius"):
            res.expect(getattr(f, n) == fields.consts(c["const"])[n], "constant-" + n, "%s = %r" % (n, getattr(f, n)))
        res.expect(np.array_equal(f.xlon, xlon) and np.array_equal(f.ylat, ylat) and np.array_equal(f.plev, plev), "coordinates", "coordinates changed")
        res.expect(f.nonconvergent_uref is False, "flag", "non-convergence flag of a new object")
        res.trace(2)


PROPS = [Contract(), Mirror(), NHOnly(), Rotate(), Even()]
