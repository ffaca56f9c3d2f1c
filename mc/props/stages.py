"""Pipeline stages checked one by one against the reference model.

Every stage is driven with what the implementation itself published for the previous stage, so one wrong
stage is reported by the property that owns it and does not cascade."""
import itertools
import numpy as np
from .. import pipe, ref
from ..core import close
from .base import Prop, new
from . import twin


def grid(tier, cls=("NH18", "NHN22"), evens=(False,), nhs=(False,), light=False):
    """The configuration space shared by the stage properties."""
    thorough = tier != "quick"
    out = []
    for c in cls:
        jbs = (0,) if c != "NHN22" else ((0, 1, 2, 3) if thorough else (0, 1, 2))
        for nlat in ((9, 11, 13, 17, 21) if thorough else (9, 13, 15)):
            for nlon in ((6, 8, 9, 16) if thorough else (6, 9, 16)):
                for jb in jbs:
                    if (nlat // 2 + 1) - jb < 4:
                        continue
                    for (plev, kmax, dz) in (((("std", 6, 2000.), ("std", 5, 3000.), ("dense", 8, 2000.), ("off", 7, 2533.3333333333335),
                                              ("dense", 12, 1500.)) if thorough else (("std", 6, 2000.), ("off", 7, 2533.3333333333335),
                                                                              ("dense", 8, 2000.)))):
                        for const in (("earth", "alt", "alt2") if thorough else ("earth", "alt")):
                            for fld in (("zonal", "wave", "wave2", "strong", "rough", "break") if thorough else ("wave", "rough", "break")):
                                for ev, nh in itertools.product(evens, nhs):
                                    # evenly spaced levels start at the ground, above it, or below it
                                    for evenly in (False, {"off": 1300., "dense": -400.}.get(plev, True)):
                                        out.append(pipe.cfg(cls=c, nlat=nlat - 1 if ev else nlat, nlon=nlon, jb=jb, plev=plev, kmax=kmax,
                                                            dz=dz, const=const, field=fld, even=ev, nh=nh, evenly=evenly))
    out += star(cls, evens, nhs) + extreme(cls, evens, nhs) + coincide(cls, evens, nhs)
    # grids of practical size and shape: wide, tall, deep, more levels than rows, far boundary rows
    big = [dict(nlat=9, nlon=20, plev="dense", kmax=11, dz=1500., field="rough"),
           dict(nlat=31, nlon=24, plev="dense", kmax=20, dz=1000., field="wave"),
           dict(nlat=31, nlon=40, plev="dense", kmax=20, dz=1000., field="break", const="alt"),
           dict(nlat=61, nlon=72, plev="deep", kmax=31, dz=1000., field="wave"),
           dict(nlat=11, nlon=7, plev="deep", kmax=24, dz=2000., field="wave"),
           # nearly neutral and very stable columns, other planets
           dict(nlat=13, nlon=8, field="weak"), dict(nlat=13, nlon=8, field="stable"),
           dict(nlat=13, nlon=8, field="wave", const="mars"), dict(nlat=13, nlon=8, field="wave", const="giant"),
           dict(nlat=13, nlon=8, field="stable", const="mars")]
    if thorough:
        big += [dict(nlat=91, nlon=120, plev="deep", kmax=40, dz=1200., field="break"),
                dict(nlat=121, nlon=90, plev="deep", kmax=48, dz=1000., field="wave")]
    # the grid of the reanalyses the library is used with, default levels
    full = [dict(nlat=121, nlon=240, plev="deep", kmax=49, dz=1000., field=fld) for fld in (("rough", "wave", "strong") if thorough else ("rough",))]
    if thorough:
        full += [dict(nlat=181, nlon=360, plev="deep", kmax=49, dz=1000., field="rough")]
    for b in full:
        for c in cls:
            for nh in nhs if thorough else nhs[:1]:
                out.append(pipe.cfg(cls=c, jb=5 if c == "NHN22" else 0, nh=nh, **b))
    for b in big:
        for c in cls:
            for nh in nhs:
                for ev in evens:
                    jb = 0 if c != "NHN22" else (1 if b["nlat"] < 20 else 5)
                    d = dict(b, nlat=b["nlat"] - 1) if ev else b
                    out.append(pipe.cfg(cls=c, jb=jb, nh=nh, even=ev, **d))
    return out


def star(cls, evens, nhs):
    """One axis at a time through a wide range of values, every other at its base value."""
    out = []
    base = dict(nlat=13, nlon=7, jb=1, plev="std", kmax=6, dz=2000., const="earth", field="wave2", evenly=False)
    axes = dict(nlat=list(range(9, 36, 2)), nlon=[4, 5] + list(range(8, 25)) + [32, 36, 45], const=list(pipe.fields.CONSTS),
                field=["zonal", "wave", "wave2", "strong", "rough", "break", "weak", "stable", "kink", "polar", "tropical"])
    pts = [dict(base, **{k: v}) for k, vs in axes.items() for v in vs]
    pts += [dict(base, nlat=21, jb=jb) for jb in range(8)]
    pts += [dict(base, nlat=21, jb=jb, field=fld) for jb in (5, 6, 7) for fld in ("storm", "rough")]
    pts += [dict(base, kmax=4, dz=dz, evenly=e) for dz, e in ((3000., True), (1500., 400.))]
    pts += [dict(base, plev="dense", kmax=k, dz=dz) for k, dz in itertools.product(range(4, 15), (1000., 1500., 1733.25)) if (k - 1) * dz <= 23900.]
    pts += [dict(base, plev="deep", kmax=k, dz=dz) for k, dz in ((16, 3000.), (17, 2500.), (30, 1600.), (33, 1000.), (25, 750.))]
    pts += [dict(base, plev=p, kmax=k, dz=dz, field=fld, **(dict(tol=1e-4) if k > 20 else {})) for p, k, dz in (("era5", 49, 1000.), ("era5", 24, 2000.), ("deep", 33, 1000.), ("dense", 12, 1500.))
            for fld in ("kink", "wave")]
    pts += [dict(base, kmax=k, dz=dz, evenly=e) for k, dz in ((5, 1000.), (7, 1500.), (9, 900.), (16, 1000.), (21, 2000.)) for e in (True, 250., -400., 3000.)]
    for c, ev, nh, p in itertools.product(cls, evens, nhs, pts):
        d = dict(p, cls=c, even=ev, nh=nh, jb=p["jb"] if c == "NHN22" else 0)
        if ev:
            d["nlat"] -= 1
        out.append(pipe.cfg(**d))
    return out


def extreme(cls, evens, nhs):
    """One size or parameter at a time far beyond its usual value."""
    base = dict(nlat=13, nlon=7, jb=1, plev="std", kmax=6, dz=2000., const="earth", field="wave2", evenly=False)
    pts = [dict(nlat=181, nlon=10, jb=5, plev="deep", kmax=10, dz=3500., rjac=0.999, tol=1e-4), dict(nlat=181, nlon=5, jb=19, rjac=0.999, tol=3e-5),
           dict(plev="deep", kmax=97, dz=480., tol=1e-3, rjac=0.99), dict(kmax=80, dz=500., evenly=True, tol=1e-3, rjac=0.99),
           dict(nlon=361), dict(nlon=480, nlat=9, jb=0), dict(nlat=61, nlon=5, jb=14, rjac=0.995),
           dict(plev="dense", kmax=30, dz=300., tol=1e-3, rjac=0.99), dict(kmax=9, dz=150., evenly=True), dict(kmax=5, dz=5500., plev="deep"),
           dict(plev="deep", kmax=106, dz=440., tol=2e-3, rjac=0.99), dict(nlat=241, nlon=4, jb=7, rjac=0.9995, tol=1e-4),
           dict(plev="below", kmax=9, dz=2500.), dict(field="storm"), dict(field="storm", const="giant", plev="deep"),
           dict(const="slow", field="storm"), dict(const="fast"), dict(const="fast", field="rough", nlat=21, jb=3),
           dict(rjac=0.3), dict(rjac=0.), dict(rjac=0.99, nlat=31), dict(tol=5e-6), dict(maxit=2 * 10 ** 9), dict(npart=300), dict(npart=1300, nlon=45), dict(field="polar", const="slow", nlat=21), dict(field="polar", nlat=21), dict(field="tropical", const="slow", nlat=21, jb=7)]
    out = []
    for c, ev, nh, p in itertools.product(cls, evens, nhs, pts):
        d = dict(base, **p)
        d.update(cls=c, even=ev, nh=nh, jb=d["jb"] if c == "NHN22" else 0)
        d["nlat"] -= ev
        out.append(pipe.cfg(**d))
    return out


def coincide(cls, evens, nhs):
    """Sizes that coincide: latitudes, rows of a hemisphere, longitudes, levels of the analysis and of the data, in every combination."""
    pts = [(9, 9, "off", 9, 2000.), (9, 9, "off", 6, 2500.), (9, 6, "off", 9, 2500.), (13, 9, "off", 9, 2000.), (9, 9, "std", 8, 2500.), (13, 8, "std", 8, 2500.),
           (15, 8, "std", 8, 2000.), (9, 8, "std", 8, 2500.), (9, 8, "std", 9, 2000.), (15, 8, "std", 6, 2000.), (13, 7, "std", 7, 2000.), (13, 6, "std", 7, 2500.),
           (13, 12, "std", 6, 2000.), (13, 13, "std", 6, 2500.), (13, 14, "std", 7, 2000.), (13, 26, "std", 6, 2000.), (11, 11, "below", 11, 2000.),
           (15, 15, "dense", 6, 2000.), (15, 7, "dense", 15, 1500.), (15, 15, "dense", 15, 1500.), (21, 21, "deep", 11, 2500.), (21, 11, "deep", 21, 2000.)]
    out = []
    for c, ev, nh, evenly, (nlat, nlon, plev, kmax, dz) in itertools.product(cls, evens, nhs, (False, True), pts):
        out.append(pipe.cfg(cls=c, even=ev, nh=nh, nlat=nlat - ev, nlon=nlon, jb=1 if c == "NHN22" else 0, plev=plev, kmax=kmax, dz=dz, field="wave2", evenly=evenly,
                            **(dict(tol=1e-4) if kmax > 14 else {})))
    return out


class Ctx:
    """Everything known about a run on a grid that contains the equator (analysis grid = user grid)."""
    def __init__(self, c, stages, res, ncforce=None, **over):
        self.c = c
        self.xlon, self.ylat, self.plev, self.u, self.v, self.t = pipe.data(c)
        k = self.k = pipe.fields.consts(c["const"])
        self.a, self.om, self.h = k["planet_radius"], k["omega"], k["scale_height"]
        self.rr, self.cp = k["dry_gas_constant"], k["cp"]
        self.f, self.o = pipe.run(c, stages, arrays=(self.xlon, self.ylat, self.plev, self.u, self.v, self.t), res=res,
                                  ncforce=ncforce, **over)
        self.kmax = self.plev.size if c["evenly"] else c["kmax"]
        self.z = ref.pseudoheight(self.plev, self.h) if c["evenly"] else c["dz"] * np.arange(c["kmax"])
        self.dz = (self.z[1] - self.z[0])
        self.nlat = self.ylat.size
        self.nd = self.nlat // 2 + 1
        self.jb = c["jb"] if c["cls"] == "NHN22" else 0
        self.dphi = np.pi / (self.nlat - 1)
        self.dlam = 2 * np.pi / self.xlon.size
        self.cos = np.cos(np.deg2rad(self.ylat))
        self.theta_in = ref.potential_temperature(self.t, self.plev, self.rr, self.cp)
        self.nh18 = c["cls"] != "NHN22"
        self.hemis = "n" if c["nh"] else "ns"
        if c["nh"]:
            # hemispheric output: the southern rows do not exist; NaN marks them in a global frame
            if not self.nh18 and "stat" in self.o:
                self.o["stat_n"] = self.o.pop("stat")
                self.o["stat_s"] = self.stability()[0][1]
            for n, arr in list(self.o.items()):
                if n not in ("qgpv", "u", "v", "theta", "stat", "stat_s", "stat_n"):
                    self.o[n] = self.pad(arr, 0 if n in pipe.BARO else 1)

    def pad(self, arr, axis):
        if not self.c["nh"]:
            return arr
        pad = [(0, 0)] * arr.ndim
        pad[axis] = (self.nlat - self.nd, 0)
        return np.pad(arr, pad, constant_values=np.nan)

    def rows(self, hemi):
        """The shared equator row of a global field carries the southern result."""
        return slice(1, None) if hemi == "n" and not self.c["nh"] else slice(0, None)

    def globe(self, *arrs, axis=1):
        """Restrict global-frame arrays to the rows that are published."""
        return [self.north(a, axis) for a in arrs] if self.c["nh"] else list(arrs)

    def stability(self):
        """(t0, stat) per hemisphere (south, north) as used by the class."""
        s, n = ref.hemispheric_stability(self.theta_in, self.plev, self.ylat, self.h, self.nd - self.jb, self.z)
        if self.nh18:
            m = (0.5 * (s[0] + n[0]), 0.5 * (s[1] + n[1]))
            return m, m
        return s, n

    def north(self, x, axis=1):
        return np.take(x, np.arange(self.nd - 1, self.nlat), axis=axis)

    def south(self, x, axis=1):
        """southern hemisphere seen from the equator to the pole"""
        return np.take(x, np.arange(self.nd - 1, -1, -1), axis=axis)


def mx(x):
    m = np.nanmax(np.abs(x)) if np.size(x) else 0.
    return m if m > 0 else 1.


NOTE = ("every configuration of the stated product is executed on a build of the current tree and compared with an "
        "independent float64 reference model; tolerances only absorb single precision")
ASSUME = ["single-precision rounding stays inside the stated tolerances",
          "analytic atmospheres on small grids exercise every row, level, hemisphere and boundary branch"]


class Stage(Prop):
    level_note = NOTE
    assumptions = ASSUME
    evens = (False,)
    nhs = (False, True)
    cls = ("NH18", "NHN22")
    bound = {
        "quick": "2 classes x boundary rows {0,1,2} x nlat {9,13,15} x nlon {6,9,16} x 3 vertical grids x {interpolated, evenly spaced from the ground / from another height} x 2 constant sets x 3 atmospheres, 136 configurations that vary one axis at a time over a wide range (nlat 9-35, nlon 4-45, boundary rows 0-7, 4-33 levels, 5 planets, 11 atmospheres, up to 37 pressure levels), and 11 grids of up to 121x240x49 points, nearly neutral and very stable columns and other planets included; 28 configurations with one size or parameter far beyond its usual value and 44 whose sizes coincide (latitudes, hemisphere rows, longitudes, levels) (241 rows, 480 longitudes, 106 levels, boundary row 19, layers of 150 m to 5.5 km, levels below the ground, winds of 250 m/s, polar and tropical vortices, slow and fast planets, 1300 contours); grids without the equator: nlat {8,12} x nlon {6,9} x boundary rows {0,2} x 2 vertical grids x 2 constant sets x 2 atmospheres and one of 30x24x20; pole-to-pole, Gaussian and lopsided latitudes of 8-32 rows",
        "thorough": "2 classes x boundary rows {0,1,2,3} x nlat {9,11,13,17,21} x nlon {6,8,9,16} x 5 vertical grids x {interpolated, evenly spaced from the ground / from another height} x 3 constant sets x 6 atmospheres, the same variations of one axis at a time, and 16 grids of up to 181x360x49 points, nearly neutral and very stable columns and other planets included; 28 configurations with one size or parameter far beyond its usual value and 44 whose sizes coincide (latitudes, hemisphere rows, longitudes, levels) (241 rows, 480 longitudes, 106 levels, boundary row 19, layers of 150 m to 5.5 km, levels below the ground, winds of 250 m/s, polar and tropical vortices, slow and fast planets, 1300 contours); grids without the equator: nlat {8,10,12,16} x nlon {6,9,16} x boundary rows {0,1,2,3} x 2 vertical grids x 2 constant sets x 4 atmospheres and two of up to 60x72x20; pole-to-pole, Gaussian and lopsided latitudes of 8-32 rows"}

    owned = ()         # outputs compared on grids without the equator as well
    before = ()        # what earlier stages hand over; differences there belong to other properties
    needs = ("interp", "ref", "baro", "layer")

    def cases(self, tier):
        out = grid(tier, cls=self.cls, evens=self.evens, nhs=self.nhs)
        if self.owned:
            out += even_grids(tier, self.cls, self.nhs)
        if self.owned or True in self.evens:
            out += layouts(self.cls, self.nhs, ("poles", "gauss", "lopsided"))
        return out

    def evaluate(self, c):
        if not (c["even"] and self.owned):
            return self.check(c)
        res = new()
        twin.owned(c, res, self.owned, self.before, self.needs)
        res.sample = c
        return res


def even_grids(tier, cls, nhs):
    """Grids without the equator: small ones, and two of practical size."""
    t = tier != "quick"
    out = []
    for c, nlat, nlon, fld in itertools.product(cls, (8, 10, 12, 16) if t else (8, 12), (6, 9, 16) if t else (6, 9),
                                                ("wave", "rough", "break", "strong") if t else ("wave", "break")):
        for jb in ((0, 1, 2, 3) if t else (0, 2)) if c == "NHN22" else (0,):
            if nlat // 2 + 1 - jb >= 4:
                for (plev, kmax, dz), nh, const in itertools.product((("std", 6, 2000.), ("off", 7, 2533.3333333333335)), nhs, ("earth", "alt")):
                    for evenly in (False, {"off": 1300.}.get(plev, True)):
                        out.append(pipe.cfg(cls=c, nlat=nlat, nlon=nlon, jb=jb, plev=plev, kmax=kmax, dz=dz, const=const, field=fld,
                                            even=True, nh=nh, evenly=evenly))
    for c, nh in itertools.product(cls, nhs):
        for nlat, nlon, jb in ((30, 24, 4),) + (((60, 72, 5),) if t else ()):
            out.append(pipe.cfg(cls=c, nlat=nlat, nlon=nlon, jb=jb if c == "NHN22" else 0, plev="dense", kmax=20, dz=1000., field="wave",
                                even=True, nh=nh))
    return out


def layouts(classes, nhs, lats=("poles", "gauss", "stretched")):
    """Other latitudes that do not contain the equator: even from pole to pole, Gaussian, stretched, lopsided."""
    return [pipe.cfg(cls=cls, nlat=nlat, nlon=7, jb=1 if cls == "NHN22" else 0, even=True, nh=nh, field=fld, lat=lat, evenly=ely)
            for lat, cls, nlat, nh, fld, ely in itertools.product(lats, classes, (8, 12, 18, 32), nhs, ("wave2", "rough"), (False, True))]


# ---------------------------------------------------------------- C11
class Interpolation(Stage):
    id = "C11"
    title = "Fields on the pseudoheight grid are the linear interpolation of the input"
    technique = "exhaustive enumeration of grid/level/constant/class configurations, each checked against an interpolation reference model"
    evens = (False, True)

    def check(self, c):
        res = new()
        xlon, ylat, plev, u, v, t = pipe.data(c)
        k = pipe.fields.consts(c["const"])
        f, o = pipe.run(c, ("interp",), arrays=(xlon, ylat, plev, u, v, t), res=res)
        h = k["scale_height"]
        ana = ref.analysis_lat(ylat)
        z = ref.pseudoheight(plev, h) if c["evenly"] else c["dz"] * np.arange(c["kmax"])
        th = ref.potential_temperature(t, plev, k["dry_gas_constant"], k["cp"])
        for name, fld, pub in (("u", u, o["u"]), ("v", v, o["v"]), ("theta", th, o["theta"])):
            w = fld
            if c["even"]:
                w = ref.linear_extrap(ylat, w, ana, 1)
            if not c["evenly"]:
                w = ref.linear_extrap(ref.pseudoheight(plev, h), w, z, 0)
            if c["even"]:
                w = ref.linear_extrap(ana, w, ylat, 1)
            close(res, name, pub, w, 1e-9 * mx(w), "interpolated " + name)
            res.trace()
            res.state(w)
        tha = ref.linear_extrap(ylat, th, ana, 1) if c["even"] else th
        nd = ana.size // 2 + 1
        s, n = ref.hemispheric_stability(tha, plev, ana, h, nd, z)
        if c["cls"] == "NH18":
            close(res, "stability", o["stat"], 0.5 * (s[1] + n[1]), 1e-9 * mx(s[1]), "static stability")
        else:
            s, n = ref.hemispheric_stability(tha, plev, ana, h, nd - c["jb"], z)
            if not c["nh"]:
                close(res, "stability_s", o["stat_s"], s[1], 1e-9 * mx(s[1]), "southern static stability")
            close(res, "stability_n", o["stat" if c["nh"] else "stat_n"], n[1], 1e-9 * mx(n[1]), "northern static stability")
        res.trace()
        close(res, "height", f.height, z, 1e-8, "height coordinate")
        close(res, "dz", f.dz, z[1] - z[0], 1e-8, "vertical spacing")
        res.expect(f.kmax == z.size, "kmax", "kmax %s for %d levels" % (f.kmax, z.size))
        res.sample = c
        return res


# ---------------------------------------------------------------- C12 / C13
INTERP = ("u", "v", "theta", "stat", "stat_s", "stat_n")
STATE = INTERP + ("qgpv",)


class QGPV(Stage):
    owned, before, needs = ("qgpv",), INTERP, ("interp",)

    def check(self, c):
        res = new()
        x = Ctx(c, ("interp",), res)
        o = x.o
        (t0s, _), (t0n, _) = x.stability()
        if x.nh18:
            pv, av = ref.qgpv_nh18(o["u"], o["v"], o["theta"], x.z, t0n, o["stat"], x.om, x.a, x.h, x.dlam)
        else:
            pv, av = ref.qgpv_nhn22(o["u"], o["v"], o["theta"], x.z, (t0s, o["stat_s"]), (t0n, o["stat_n"]), x.nd - 1,
                                    x.om, x.a, x.h, x.dlam)
        # rounding of the temperature is amplified by a weak stratification
        weak = min(np.abs(o[n]).min() for n in ("stat", "stat_s", "stat_n") if n in o)
        close(res, "qgpv", o["qgpv"], pv, 8e-6 * mx(pv) + 5e-7 * mx(o["theta"]) / (weak * x.dz) * 2 * x.om, "QGPV")
        res.state(pv)
        res.trace()
        res.sample = c
        return res


class QGPV18(QGPV):
    id, cls = "C12", ("NH18",)
    title = "NH18 QGPV: absolute vorticity plus zonal-mean-vorticity stretching everywhere"
    technique = "exhaustive enumeration of configurations; QGPV recomputed by a reference model from the published winds, temperature and stability"


class QGPV22(QGPV):
    id, cls = "C13", ("NHN22",)
    title = "NHN22 QGPV: absolute vorticity plus planetary stretching, hemispheric stability"
    technique = QGPV18.technique


# ---------------------------------------------------------------- C14
def pick(cands, actual, scale):
    best = None
    for qr, cr in cands:
        e = (np.abs(qr - actual) / scale)[1:].max()     # the equator row is fixed by antisymmetry
        if best is None or e < best[0]:
            best = (e, qr, cr)
    return best


class Qref(Stage):
    id = "C14"
    title = "Reference QGPV is the area-preserving meridional rearrangement of QGPV"
    technique = "exhaustive enumeration of configurations; area analysis recomputed by a reference model that branches over every bin assignment single precision leaves open"
    owned, before, needs = ("qref",), STATE, ("interp", "ref")

    def cases(self, tier):
        out = Stage.cases(self, tier)
        for c in grid("quick", cls=("NH18",)):
            for npart in ((5, 8, 40, 91) if tier == "quick" else (5, 8, 20, 40, 91, 181)):
                if c["field"] == "wave" and not c["evenly"]:
                    out.append(dict(c, npart=npart))
        return out

    def check(self, c):
        res = new()
        x = Ctx(c, ("interp", "ref"), res)
        q, pub = x.o["qgpv"], x.o["qref"]
        npart = (c["npart"] or x.nlat) if x.nh18 else x.nlat
        s = np.sin(np.deg2rad(x.ylat))
        for k in range(x.kmax):
            for hemi in x.hemis:
                lev = q[k] if hemi == "n" else -q[k][::-1]
                mine = x.north(pub[k], 0) if hemi == "n" else -x.south(pub[k], 0)
                if k in (0, x.kmax - 1):
                    close(res, "edge-level", mine, 0 * mine, 0., "Qref on an edge level %d" % k)
                    continue
                cands = ref.area_profile(lev, npart, x.a, x.dphi, x.dlam, x.nd, target=mine)
                if cands is None:
                    res.note("levels_skipped_ambiguous")
                    continue
                res.note("area_candidates", len(cands))
                res.state(lev)
                tol = 5e-5 * mx(lev) + ref.area_slack(lev, npart, x.a, x.dphi, x.dlam, x.nd)
                qr = pick(cands, mine, tol)[1].copy()
                qr[0] = 0.
                close(res, "qref-" + hemi, mine, qr, tol, "Qref hemisphere %s level %d" % (hemi, k))
                res.trace()
        res.sample = c
        return res


# ---------------------------------------------------------------- C15
def hemi_inputs(x, hemi):
    o = x.o
    pick_ = x.north if hemi == "n" else x.south
    sg = 1. if hemi == "n" else -1.
    q = o["qgpv"] if hemi == "n" else -o["qgpv"][:, ::-1]
    return pick_, sg, q


def circulations(x, q, qref_h, npart):
    """(list of cref, cbar) [row, level] of the rearranged and zonal-mean state; None when undecidable.

    Assignments of undecided pixels that explain the published Qref equally well are all returned."""
    ways = [[np.zeros(x.nd)] for _ in range(x.kmax)]
    cbar = np.zeros((x.nd, x.kmax))
    for k in range(1, x.kmax - 1):
        cands = ref.area_profile(q[k], npart, x.a, x.dphi, x.dlam, x.nd, target=qref_h[k])
        if cands is None:
            return None
        m = qref_h[k].copy()
        errs = [np.abs(qr[1:] - m[1:]).max() for qr, _ in cands]
        ways[k] = [cr for (_, cr), e in zip(cands, errs) if e <= min(errs) + 2e-6 * mx(q[k])]
        cbar[:, k] = ref.circulation_zonal_mean(q[k][x.nd - 1:].mean(-1), x.a, x.dphi)
    if np.prod([len(w) for w in ways]) > 16:
        return None
    return [np.array(w).T for w in itertools.product(*ways)], cbar


def over_sin(qref_h, x, factor):
    """[row, level] reference PV / sin(lat) (extrapolated at the equator)."""
    s = np.sin(x.dphi * np.arange(x.nd))
    qn = np.zeros((x.nd, x.kmax))
    qn[1:] = (qref_h.T[1:]) / (factor * s[1:, None])
    qn[0] = 2 * qn[1] - qn[2]
    return qn


class Ref18(Stage):
    id, cls = "C15", ("NH18",)
    title = "NH18 reference wind and temperature solve the elliptic boundary value problem"
    technique = "exhaustive enumeration of configurations; iterative solution compared with a direct dense solve of the documented discrete problem"

    owned, before, needs = ("uref", "ptref"), STATE, ("interp", "ref")

    def check(self, c):
        res = new()
        x = Ctx(c, ("interp", "ref"), res)
        o = x.o
        for hemi in x.hemis:
            rw = x.rows(hemi)
            pk, sg, q = hemi_inputs(x, hemi)
            qh = sg * pk(o["qref"])
            cc = circulations(x, q, qh, c["npart"] or x.nlat)
            if cc is None:
                res.note("hemispheres_skipped_ambiguous")
                continue
            ub, tb = pk(o["u"]).mean(-1).T, pk(o["theta"]).mean(-1).T
            w = np.cos(x.dphi * np.arange(x.nd))
            tm = (w[:, None] * tb).sum(0) / w.sum()
            mu, mt = pk(o["uref"]).T, pk(o["ptref"]).T
            u, t = min((ref.solve_nh18(over_sin(qh, x, 2 * x.om), cref, cc[1], ub, tb, tm, o["stat"], x.nd, x.kmax, x.dphi, x.dz,
                                       x.om, x.a, x.h, x.rr, x.cp, x.z[0]) for cref in cc[0]), key=lambda p: np.abs(p[0] - mu)[rw].max())
            # the requested convergence tolerance; more points, more sweeps
            loose = (c["tol"] / 1e-5) ** 1.5 * max(1., x.nd * x.kmax / 600.)
            # rounding of the mean temperature, differenced along fine rows for the wind at the top
            j = np.maximum(np.arange(x.nd), 1)
            shear = x.dz * x.rr * np.exp(-x.z[-2] * x.rr / x.cp / x.h) * 1.2e-7 * mx(tb[:, -2]) / (x.om * np.sin(j * x.dphi) * x.dphi * x.h * x.a)
            close(res, "uref-" + hemi, mu[rw], u[rw], loose * 2e-5 * mx(u) + shear[rw, None], "Uref [row from equator, level] hemisphere " + hemi)
            close(res, "ptref-" + hemi, mt[rw], t[rw], loose * (2e-4 * mx(t - t.mean(0)) + 2e-4), "PTref hemisphere " + hemi)
            # temperature follows from the published wind by thermal-wind balance
            t2 = ref.tref_from_uref(mu, tm, 0, x.dphi, x.dz, x.om, x.a, x.h, x.rr, x.rr / x.cp, x.z[0])
            close(res, "thermal-wind-" + hemi, mt[rw], t2[rw], 1e-3, "PTref vs thermal wind, hemisphere " + hemi)
            res.state(u)
            res.trace(2)
        res.sample = c
        return res


class Ref22(Stage):
    id, cls = "C16", ("NHN22",)
    title = "NHN22 reference wind and temperature solve the direct-inversion problem"
    technique = "exhaustive enumeration of configurations; block elimination compared with a direct dense solve of the documented discrete problem"

    owned, before, needs = ("uref", "ptref"), STATE, ("interp", "ref")

    def check(self, c):
        res = new()
        x = Ctx(c, ("interp", "ref"), res)
        o = x.o
        (t0s, _), (t0n, _) = x.stability()
        av = ref.avort_model(o["u"], o["v"], x.om, x.a, x.dlam)
        for hemi in x.hemis:
            rw = x.rows(hemi)
            pk, sg, q = hemi_inputs(x, hemi)
            qh = sg * pk(o["qref"])
            a_h = av if hemi == "n" else -av[:, ::-1]
            kref = [np.zeros(1)]
            combos = []
            for k in range(1, x.kmax - 1):
                cands = ref.area_profile(a_h[k], x.nlat, x.a, x.dphi, x.dlam, x.nd)
                combos.append(None if cands is None else sorted({float(cr[x.jb]) for _, cr in cands}))
            if any(z is None for z in combos):
                res.note("hemispheres_skipped_ambiguous")
                continue
            # the boundary wind is published: it selects the candidate circulation of every level
            mu, mt = pk(o["uref"]).T, pk(o["ptref"]).T
            cb = np.cos(x.jb * x.dphi)
            kr = np.zeros(x.kmax)
            for k in range(1, x.kmax - 1):
                if x.jb == 0 and rw.start:       # not published: usable only when decided
                    if len(combos[k - 1]) > 1:
                        kr = None
                        break
                    kr[k] = combos[k - 1][0]
                    continue
                want = [(cand, cand / (2 * np.pi * x.a * cb) - x.om * x.a * cb) for cand in combos[k - 1]]
                cand, ub = min(want, key=lambda p: abs(p[1] - mu[x.jb, k]))
                res.expect(abs(ub - mu[x.jb, k]) <= 2e-3 + 1e-5 * abs(x.om * x.a), "boundary-" + hemi,
                           "boundary wind %.6g, circulation gives %.6g (level %d)" % (mu[x.jb, k], ub, k))
                kr[k] = cand
            if kr is None:
                res.note("hemispheres_skipped_ambiguous")
                continue
            rw = rw if x.jb == 0 else slice(0, None)
            tb = pk(o["theta"]).mean(-1).T
            t0 = t0n if hemi == "n" else t0s
            st = o["stat_n"] if hemi == "n" else o["stat_s"]
            u, t = ref.solve_nhn22(over_sin(qh, x, 1.), kr, tb, t0, st, x.nd, x.jb, x.kmax, x.dphi, x.dz, x.om, x.a, x.h, x.rr, x.cp, x.z[0])
            close(res, "uref-" + hemi, mu[x.jb:][rw], u[rw], 1e-4 * mx(u), "Uref [row from boundary, level] hemisphere " + hemi)
            close(res, "ptref-" + hemi, mt[x.jb:][rw], t[rw], 2e-4 * mx(t - t.mean(0)) + 2e-4, "PTref hemisphere " + hemi)
            close(res, "outside-" + hemi, np.abs(mu[:x.jb]) + np.abs(mt[:x.jb]), np.zeros((x.jb, x.kmax)), 0., "reference state equatorward of the boundary")
            t2 = ref.tref_from_uref(mu[x.jb:], t0, x.jb, x.dphi, x.dz, x.om, x.a, x.h, x.rr, x.rr / x.cp, x.z[0])
            close(res, "thermal-wind-" + hemi, mt[x.jb:][rw], t2[rw], 1e-3, "PTref vs thermal wind, hemisphere " + hemi)
            res.state(u)
            res.trace(2)
        res.sample = c
        return res


# ---------------------------------------------------------------- C18..C21
def hemi_fields(x, hemi, ncf):
    o = x.o
    (t0s, _), (t0n, _) = x.stability()
    pk, sg, _ = hemi_inputs(x, hemi)
    return dict(pv=sg * pk(o["qgpv"]), uu=pk(o["u"]), vv=sg * pk(o["v"]), pt=pk(o["theta"]), forcing=pk(ncf),
                qref=sg * pk(o["qref"]), uref=pk(o["uref"]), tref=pk(o["ptref"]), tg=t0n if hemi == "n" else t0s)


def to_hemi(x, field, hemi, axis=1):
    return x.north(field, axis) if hemi == "n" else x.south(field, axis)


def hemi_model(x, hemi, ncf):
    """Flux model of one hemisphere, already in the signs the globe uses.  The row jb of uref is needed as is."""
    d = hemi_fields(x, hemi, ncf)
    # rows below the boundary hold no reference wind/temperature: the model never uses them
    F, ep4 = ref.fluxes_hemisphere(jb=x.jb, a=x.a, om=x.om, dz=x.dz, h=x.h, rr=x.rr, cp=x.cp,
                                   pref=ref.prefactor(x.kmax, x.dz, x.h), z0=x.z[0], **d)
    if hemi == "s":
        F["ep2"], F["ep3"] = -F["ep3"], -F["ep2"]
        F["ncforce"] = -F["ncforce"]
    return F, ep4, d


class LWA3D(Stage):
    id = "C18"
    title = "Three-dimensional local wave activity is the displacement integral on every path"
    technique = "exhaustive enumeration of configurations and of the three computation paths against the displacement-integral model"

    owned, before = ("lwa", "lwa_from_baro", "astar1", "astar2"), STATE

    def check(self, c):
        res = new()
        x = Ctx(c, ("interp", "ref", "baro", "layer"), res)
        f2, o2 = pipe.run(c, ("interp", "ref"), res=res)
        f2.compute_lwa_only()
        res.step()
        st = f2.layerwise_flux_terms_storage
        only, only1, only2 = [x.pad(a, 1) for a in (
            pipe.A(f2.lwa), *(np.swapaxes(pipe.A(getattr(st, n)), 0, 2) for n in ("astar1", "astar2")))]
        zero = np.zeros_like(x.o["qgpv"])
        for hemi in x.hemis:
            F, _, d = hemi_model(x, hemi, zero)
            cyc, ant = F["astar1"], F["astar2"]
            tot = cyc + ant
            tol = 2e-6 * mx(tot) + 2e-7 * mx(d["pv"]) * x.a * x.dphi
            rows = x.rows(hemi)
            for key, arr, want in (("layerwise", x.o["lwa"], tot), ("barotropic-path", x.o["lwa_from_baro"], tot), ("lwa-only", only, tot),
                                   ("cyclonic", x.o["astar1"], cyc), ("anticyclonic", x.o["astar2"], ant),
                                   ("cyclonic-only", only1, cyc), ("anticyclonic-only", only2, ant)):
                close(res, "%s-%s" % (key, hemi), to_hemi(x, arr, hemi)[:, rows], want[:, rows], tol, "LWA (%s) hemisphere %s" % (key, hemi))
                res.trace()
            res.state(tot)
        for key, a, b in (("lwa-baro-only", f2.lwa_baro, x.o["lwa_baro"]), ("u-baro-only", f2.u_baro, x.o["u_baro"])):
            a, b = x.globe(x.pad(pipe.A(a), 0), b, axis=0)
            close(res, key, a, b, 2e-6 * mx(b), "column mean from the LWA-only path")
            res.trace()
        low = x.globe(x.o["lwa"])[0]
        res.expect((low >= -1e-6 * mx(low)).all(), "negative", "negative LWA %g" % low.min())
        res.sample = c
        return res


class Fluxes(Stage):
    terms = ()

    def check(self, c):
        res = new()
        sh = (c["kmax"], c["nlat"], c["nlon"]) if not c["evenly"] else (pipe.grids(c)[2].size, c["nlat"], c["nlon"])
        ncf = pipe.ncforce_for(c, sh)
        x = Ctx(c, ("interp", "ref", "baro", "layer"), res, ncforce=ncf)
        for hemi in x.hemis:
            F, ep4, d = hemi_model(x, hemi, ncf)
            rows = x.rows(hemi)
            self.hemi(res, x, hemi, F, ep4, d, rows)
            res.state(F["ua2"], F["ep1"])
        self.globe(res, x)
        res.sample = c
        return res

    def globe(self, res, x):
        pass

    def get(self, x, name, hemi, rows, axis=1):
        a = to_hemi(x, x.o[name], hemi, axis)
        return a[:, rows] if axis == 1 else a[rows]


class ZonalFlux(Fluxes):
    id = "C19"
    title = "Zonal wave-activity fluxes equal their defining sums in layers and in the column"
    technique = "exhaustive enumeration of configurations; the three zonal flux terms recomputed layer by layer and averaged by the reference model"

    owned, before = ("ua1", "ua2", "ep1", "adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "flux_vector_lambda_baro", "convergence_zonal_advective_flux"), STATE

    def hemi(self, res, x, hemi, F, ep4, d, rows):
        ue_scale = mx(d["uu"]) + mx(d["uref"])
        for name, baro in (("ua1", "adv_flux_f1"), ("ua2", "adv_flux_f2"), ("ep1", "adv_flux_f3")):
            w = F[name]
            tol = 5e-6 * mx(w) + 2e-7 * mx(d["pv"]) * ue_scale * x.a * x.dphi if name != "ep1" else 3e-5 * mx(w)
            close(res, "%s-%s" % (name, hemi), self.get(x, name, hemi, rows), w[:, rows], tol, "%s hemisphere %s" % (name, hemi))
            close(res, "%s-%s" % (baro, hemi), self.get(x, baro, hemi, rows, 0), ref.vertical_average(w, x.dz, x.h)[rows], tol,
                  "%s hemisphere %s" % (baro, hemi))
            res.trace(2)

    def globe(self, res, x):
        o = x.o
        s, vec, conv, cos = x.globe(o["adv_flux_f1"] + o["adv_flux_f2"] + o["adv_flux_f3"], o["flux_vector_lambda_baro"],
                                    o["convergence_zonal_advective_flux"], x.cos, axis=0)
        close(res, "vector", vec, s, 1e-6 * mx(s), "zonal flux vector")
        w = np.zeros_like(s)
        inn = np.abs(cos) > 1e-5
        w[inn] = -(np.roll(s, -1, 1) - np.roll(s, 1, 1))[inn] / (2 * x.a * x.dlam * cos[inn, None])
        close(res, "convergence", conv, w, 2e-6 * mx(w), "zonal flux convergence")
        res.trace(2)


class MeridFlux(Fluxes):
    id = "C20"
    title = "Meridional momentum and heat flux terms equal their defining differences"
    technique = "exhaustive enumeration of configurations; eddy momentum flux, heat flux, stretching term and flux vector recomputed by the reference model"

    owned, before = ("ep2", "ep3", "divergence_eddy_momentum_flux", "meridional_heat_flux", "flux_vector_phi_baro", "stretch_term"), STATE

    def hemi(self, res, x, hemi, F, ep4, d, rows):
        for name in ("ep2", "ep3"):
            w = F[name]
            close(res, "%s-%s" % (name, hemi), self.get(x, name, hemi, rows), w[:, rows], 1e-5 * mx(w), "%s hemisphere %s" % (name, hemi))
            res.trace()
        cphi = np.cos(x.dphi * np.arange(x.nd))
        div = np.zeros_like(F["ep2"])
        div[:, :-1] = (F["ep2"] - F["ep3"])[:, :-1] / (2 * x.a * x.dphi * cphi[:-1])[None, :, None]
        w = ref.vertical_average(div, x.dz, x.h)
        close(res, "divergence-" + hemi, self.get(x, "divergence_eddy_momentum_flux", hemi, rows, 0), w[rows], 1e-5 * mx(w),
              "divergence of eddy momentum flux hemisphere " + hemi)
        close(res, "heat-" + hemi, self.get(x, "meridional_heat_flux", hemi, rows, 0), ep4[rows], 4e-5 * mx(ep4),
              "low-level heat flux hemisphere " + hemi)
        res.trace(2)

    def globe(self, res, x):
        o = x.o
        ue = o["u"] - o["uref"][:, :, None]
        w, got = x.globe(ref.vertical_average(-ue * o["v"] * x.cos[None, :, None], x.dz, x.h), o["flux_vector_phi_baro"], axis=0)
        close(res, "flux-vector-phi", got, w, 2e-6 * mx(w), "meridional flux vector")
        ss, sn = (o["stat"], o["stat"]) if x.nh18 else (o["stat_s"], o["stat_n"])
        g = o["v"] * (o["theta"] - o["ptref"][:, :, None]) * x.cos[None, :, None]
        f = 2 * x.om * np.sin(np.deg2rad(x.ylat))
        w, got = x.globe(-ref.z_derivative_of_prod(g, ss, sn, x.nd - 1, x.dz, x.h, f), o["stretch_term"])
        close(res, "stretch", got, w, 2e-6 * mx(w), "stretching term")
        res.trace(2)


class Baro(Stage):
    id = "C21"
    title = "Column quantities are the density-weighted means of their layerwise counterparts"
    technique = "exhaustive enumeration of configurations; every column quantity compared with the weighted mean of the published layer field"

    owned, before = ("u_baro", "lwa_baro", "ncforce_baro", "ncforce"), STATE

    def check(self, c):
        res = new()
        sh = (c["kmax"], c["nlat"], c["nlon"]) if not c["evenly"] else (pipe.grids(c)[2].size, c["nlat"], c["nlon"])
        ncf = pipe.ncforce_for(c, sh)
        x = Ctx(c, ("interp", "ref", "baro", "layer"), res, ncforce=ncf)
        o = x.o
        av = lambda q: ref.vertical_average(q, x.dz, x.h)
        close(res, "prefactor", x.f.prefactor, ref.prefactor(x.kmax, x.dz, x.h), 1e-9 * x.h, "normalisation")
        g0 = lambda q: x.globe(q, axis=0)[0]
        pairs = [("u_baro", o["u"]), ("lwa_baro", o["lwa"]), ("adv_flux_f1", o["ua1"]), ("adv_flux_f2", o["ua2"]), ("adv_flux_f3", o["ep1"]),
                 ("ncforce_baro", o["ncforce"])]
        for name, layer in pairs:
            w = g0(av(layer))
            close(res, name, g0(o[name]), w, 2e-6 * mx(w), name)
            res.state(w)
            res.trace()
        lw, lb, parts = x.globe(o["lwa"], o["lwa_from_baro"], o["astar1"] + o["astar2"])
        close(res, "lwa", lb, lw, 1e-6 * mx(lw), "LWA of the two paths")
        close(res, "partition", parts, lw, 1e-6 * mx(lw), "cyclonic + anticyclonic")
        f2, _ = pipe.run(c, ("interp", "ref"), res=res)
        f2.compute_lwa_only()
        res.step()
        for name, layer in (("u_baro", o["u"]), ("lwa_baro", o["lwa"])):
            w = g0(av(layer))
            close(res, name + "-only", g0(x.pad(pipe.A(getattr(f2, name)), 0)), w, 2e-6 * mx(w), name + " from the LWA-only path")
            res.trace()
        inn = slice(x.nd - 1 if c["nh"] else 1, -1)
        dv = av(o["ep2"] - o["ep3"])[inn] / (2 * x.a * x.dphi * x.cos[inn, None])
        close(res, "divergence", o["divergence_eddy_momentum_flux"][inn], dv, 3e-6 * mx(dv), "momentum-flux divergence vs layer terms")
        res.trace(2)
        res.sample = c
        return res


PROPS = [Interpolation(), QGPV18(), QGPV22(), Qref(), Ref18(), Ref22(), LWA3D(), ZonalFlux(), MeridFlux(), Baro()]
