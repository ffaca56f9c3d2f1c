"""The xarray layer, budgets, hemisphere mirroring and file extraction."""
import itertools
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np
from .. import pipe, ref, fields
from ..core import close, raises
from .base import Prop, new
from .stages import mx
from .twin import decided

PLEV_NAMES = ["plev", "lev", "level", "isobaricInhPa", "pressure_level"]
YLAT_NAMES = ["ylat", "lat", "latitude"]
XLON_NAMES = ["xlon", "lon", "longitude"]
TIME_NAMES = ["time", "date", "datetime", "valid_time"]


def xrmod():
    import xarray as xr
    return xr


def iface():
    import falwa.xarrayinterface as xi
    return xi


# ------------------------------------------------------------------------------------------ C27 / C29
EXTRA = {
    "none": (),
    "time1": (("time", 1),),
    "time3": (("time", 3),),
    "time2member2": (("time", 2), ("member", 2)),
    "member2time1level2": (("member", 2), ("time", 1), ("run", 2)),
}
# further shapes, combined with the rest of the space one at a time
MANY = {
    "time7": (("time", 7),),
    "time2member3": (("time", 2), ("member", 3)),
    "run1time1member1": (("run", 1), ("time", 1), ("member", 1)),
    "member3run2time2": (("member", 3), ("run", 2), ("time", 2)),
    "time31": (("time", 31),),
    "run2member2time2": (("run", 2), ("member", 2), ("time", 2)),
    "time20member13": (("time", 20), ("member", 13)),
}
# longitudes by other conventions
LONS = {"west": lambda x: x - 180., "late": lambda x: x + 360., "half": lambda x: x + 0.5 * (x[1] - x[0])}
EVERY = dict(EXTRA, **MANY)


def coord_of(name, n):
    xr = xrmod()
    if name == "time":
        # deliberately not sorted: nothing in the interface requires it
        base = np.array(["2005-01-23T00", "2005-01-21T06", "2005-02-01T12", "2004-12-31T18"], dtype="datetime64[ns]")
        return np.concatenate([base, base[0] + np.arange(1, 40) * np.timedelta64(13, "h")])[:n]
    if name == "member":
        return np.concatenate([[7, 3, 11, 1], np.arange(40, 12, -1)])[:n]
    return np.array(["b", "a", "d", "c"])[:n]


def members(c, extra):
    """Input arrays of every member in flattened order; all members are different atmospheres."""
    shape = tuple(n for _, n in extra)
    out = []
    for i in range(int(np.prod(shape, dtype=int))):
        xlon, ylat, plev, u, v, t = pipe.data(dict(c, field=("wave", "break", "strong", "wave2")[i % 4]))
        out.append((xlon, ylat, plev, u * (1 - 0.02 * i), v * (1 + 0.03 * i), t + 0.1 * i))
    return shape, out


def dataset(c, extra, flip_lat, flip_plev, names=("plev", "ylat", "xlon"), var=("u", "v", "t"), dtype=float, fortran=()):
    xr = xrmod()
    shape, mem = members(c, extra)
    xlon, ylat, plev = mem[0][:3]
    ds = {}
    sl = (slice(None), slice(None, None, -1) if flip_plev else slice(None), slice(None, None, -1) if flip_lat else slice(None), slice(None))
    coords = {n: coord_of(n, k) for n, k in extra}
    coords[names[0]] = plev[sl[1]]
    coords[names[1]] = ylat[sl[2]]
    coords[names[2]] = xlon
    for q, name in zip((3, 4, 5), var):
        arr = np.array([m[q] for m in mem])[sl].astype(dtype)
        arr = arr.reshape(shape + arr.shape[1:])
        if name in fortran:
            arr = np.asfortranarray(arr)
        ds[name] = xr.DataArray(arr, dims=tuple(n for n, _ in extra) + tuple(names), coords=coords, name=name, attrs={"units": "x"})
    return xr.Dataset(ds), mem


def qkw(c):
    kw = pipe.kwargs(c)
    return kw


EXPECT = {
    "interpolate_fields": ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"],
    "compute_reference_states": ["qref", "uref", "ptref"],
    "compute_lwa_and_barotropic_fluxes": ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
                                          "meridional_heat_flux", "lwa_baro", "u_baro", "ncforce_baro", "flux_vector_lambda_baro", "flux_vector_phi_baro", "lwa"],
    "compute_layerwise_lwa_fluxes": ["lwa", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"],
    "compute_lwa_only": ["lwa_baro", "u_baro", "lwa"],
}
XYZ, YZ, XY = ("height", "ylat", "xlon"), ("height", "ylat"), ("ylat", "xlon")


def core_dims(name):
    if name in ("static_stability", "static_stability_n", "static_stability_s"):
        return ("height",)
    if name in ("qref", "uref", "ptref"):
        return YZ
    if name in EXPECT["compute_lwa_and_barotropic_fluxes"] and name != "lwa":
        return XY
    return XYZ


class Members(Prop):
    id = "C27"
    title = "A dataset analysis equals the analysis of each member, whatever the orientation"
    technique = ("exhaustive product of extra dimensions, latitude/pressure orientation, class and options; every output variable of every call "
                 "compared member by member with the array interface")
    level_note = "the array interface is the oracle (decided by the other properties)"
    assumptions = ("extra dimensions carry coordinates",)
    bound = {"quick": "4 shapes of extra dimensions x 4 orientations x 2 classes x {global, northern} x {odd, even latitudes} x 2 memory and dimension layouts, all 5 calls and heating-rate forcing; inputs read lazily from files and computed lazily; every call stopped at every source line and repeated",
             "thorough": "5 shapes x 4 orientations x 3 classes x {global, northern} x {odd, even} x {interpolated, evenly spaced} x 2 input precisions x 2 memory and dimension layouts; every call stopped at every source line and repeated"}

    def cases(self, tier):
        t = tier != "quick"
        out = []
        for ex in (EXTRA if t else list(EXTRA)[:4]):
            for fl, fp in itertools.product((False, True), repeat=2):
                for cls in (("NH18", "NHN22", "QGField") if t else ("NH18", "NHN22")):
                    for nh in (False, True):
                        for even in (False, True):
                            for evenly in ((False, True) if t else (False,)):
                                for dt, mix in itertools.product(("float64", "float32") if t else ("float64",), (False, True)):
                                    out.append({"mix": mix, "ex": ex, "fl": fl, "fp": fp, "dt": dt, "c": pipe.cfg(
                                        cls=cls, nlat=10 if even else 11, nlon=6, kmax=5, even=even, nh=nh, evenly=evenly, jb=1 if cls == "NHN22" else 0)})
        # many members, and grids of other sizes and layouts
        for (fl, fp), cls, nh in itertools.product(itertools.product((False, True), repeat=2), ("NH18", "NHN22"), (False, True)):
            jb = 1 if cls == "NHN22" else 0
            for ex in MANY:
                if ex == "time31" and not t and (fl != fp or cls == "NHN22") or ex == "time20member13":
                    continue
                out.append({"mix": False, "ex": ex, "fl": fl, "fp": fp, "dt": "float64", "c": pipe.cfg(cls=cls, nlat=11, nlon=6, kmax=5, nh=nh, jb=jb)})
            for store, ex in (("file", "time3"), ("file", "time2member3"), ("dask", "time3"), ("dask", "none")):       # read lazily, computed lazily
                out.append({"mix": fl and cls == "NH18", "ex": ex, "fl": fl, "fp": fp, "dt": "float64" if not nh else "float32", "store": store,
                            "c": pipe.cfg(cls=cls, nlat=10 if fp else 11, nlon=6, kmax=5, even=fp, nh=nh, jb=jb)})
            for hdt in ("float32", ">f4", "float16") if t or not nh else ("float32",):         # heating rates and forcing in another precision than the winds
                out.append({"mix": False, "ex": "time3", "fl": fl, "fp": fp, "dt": "float64", "hdt": hdt, "c": pipe.cfg(cls=cls, nlat=11, nlon=6, kmax=5, nh=nh, jb=jb)})
            for nlat, nlon, plev, kmax, ex in ((7, 7, "std", 7, "time7"), (9, 9, "off", 9, "time3"), (9, 8, "std", 8, "none"), (8, 8, "std", 8, "time1"), (11, 6, "std", 6, "time2member3")):
                out.append({"mix": fl, "ex": ex, "fl": fl, "fp": fp, "dt": "float64", "c": pipe.cfg(cls=cls, nlat=nlat, nlon=nlon, plev=plev, kmax=kmax, dz=2400., even=nlat % 2 == 0, nh=nh, jb=jb if nlat > 7 else 0)})
            for cf in (("uint16", "int8", "int16"), ("int32", "int32", "int32"), ("float32", "float32", "float32"), ("float16", "float16", "float16"), (">f8", ">f4", ">i4")):
                out.append({"mix": False, "ex": "time1", "fl": fl, "fp": fp, "dt": "float64", "cf": list(cf), "c": pipe.cfg(cls=cls, nlat=13, nlon=6, kmax=5, nh=nh, jb=jb)})
            for nlat, nlon, lat, plev in ((6, 4, None, "std"), (7, 5, None, "off"), (8, 6, "lopsided", "std"), (12, 7, "gauss", "dense"), (14, 3, "stretched", "std"), (8, 4, "poles", "std")) + (
                    ((61, 36, None, "deep"), (46, 30, "gauss", "dense")) if t else ()):
                c = pipe.cfg(cls=cls, nlat=nlat, nlon=nlon, kmax=5, even=nlat % 2 == 0, nh=nh, jb=jb, plev=plev)
                if lat:
                    c["lat"] = lat
                out.append({"mix": False, "ex": "time3" if nlat < 40 else "none", "fl": fl, "fp": fp, "dt": "float64", "c": c})
        # calls that end part-way and are repeated
        for act, which, part in itertools.product(("qgdataset", "qgdataset22"), "ab" if t else "a", range(6)):
            out.append({"stop": act, "which": which, "part": part})
        return out

    def evaluate(self, case):
        if case.get("stop"):
            from .history import stopped_use
            res = new()
            stopped_use(res, case["stop"], case["which"], case["part"], 6)
            return res
        if case.get("store") != "file":
            return self._evaluate(case)
        tmp = tempfile.mkdtemp(prefix="mc_ds_")
        try:
            return self._evaluate(case, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def _evaluate(self, case, tmp=None):
        res = new()
        xi, xr = iface(), xrmod()
        c = case["c"]
        extra = EVERY[case["ex"]]

        def stored(x, name):
            """The same data as they come from a file or from a chain of deferred computations."""
            if case.get("store") == "dask":
                return x.chunk({n: 1 for n, _ in extra})
            if tmp is None:
                return x
            x.to_netcdf(os.path.join(tmp, name))
            return (xr.open_dataset if isinstance(x, xr.Dataset) else xr.open_dataarray)(os.path.join(tmp, name))
        # memory layouts that differ between the fields; forcings with the members last and in another order
        mixed = case["mix"]
        ds, mem = dataset(c, extra, case["fl"], case["fp"], dtype=case["dt"], fortran=("v",) if mixed else ())
        if "cf" in case:        # coordinates in other number formats
            ds = ds.assign_coords({n: ds[n].values.astype(f) for n, f in zip(("plev", "ylat", "xlon"), case["cf"])})
            x, y, p = (ds[n].values.astype(float) for n in ("xlon", "ylat", "plev"))
            mem = [(x, y[::-1] if case["fl"] else y, p[::-1] if case["fp"] else p) + m[3:] for m in mem]
        last = (lambda x: x.isel({n: slice(None, None, -1) for n, _ in extra}).transpose(..., *[n for n, _ in extra])) if mixed else (lambda x: x)
        ds, in_memory = stored(ds, "winds.nc"), ds
        before = ds.copy(deep=True)
        kw = qkw(c)
        q = xi.QGDataset(ds, qgfield=pipe.klass(c), qgfield_kwargs=kw)
        shape = tuple(n for _, n in extra)
        coords = [dict(zip([n for n, _ in extra], vals)) for vals in itertools.product(*[coord_of(n, k) for n, k in extra])]
        res.expect(len(q.fields) == len(mem), "members", "%d analyses for %d members" % (len(q.fields), len(mem)))
        fs = []
        for m in mem:
            m = m[:3] + tuple(a.astype(case["dt"]) for a in m[3:])
            fs.append(pipe.klass(c)(*m, **kw))
        # forcing that differs per member; heating rates in the orientation of the input
        kmax = fs[0].kmax
        # with an amplitude that half precision resolves
        amp, hdt = (1e-5, None) if "hdt" not in case else (1e-2, case["hdt"])
        rounded = lambda x: x if hdt is None else x.astype(hdt)
        heat_da = stored(rounded(amp * (in_memory["u"] / 30. + np.cos(in_memory["t"]))).rename("heating"), "heating.nc")
        outs = {}
        outs["interpolate_fields"] = q.interpolate_fields()
        nc_x = q.compute_ncforce_from_heating_rate(last(heat_da))
        ncs = []
        for f, m in zip(fs, mem):
            f.interpolate_fields(return_named_tuple=False)
            mm = [a.astype(case["dt"]) for a in m[3:]]
            ncs.append(f.compute_ncforce_from_heating_rate(rounded(amp * (mm[0] / 30. + np.cos(mm[2])))))
            f.compute_reference_states(return_named_tuple=False)
        outs["compute_reference_states"] = q.compute_reference_states()
        res.step(3 * len(fs) + 3)
        want = {}
        arr = nc_x.values.reshape((len(fs),) + nc_x.shape[len(extra):])
        for i, w in enumerate(ncs):
            close(res, "ncforce", arr[i], w, 1e-9 * mx(w), "forcing of member %d" % i)
        for i, f in enumerate(fs):
            want[i] = {n: getattr(f, n) for n in EXPECT["interpolate_fields"] + EXPECT["compute_reference_states"]}
            want[i]["static_stability"] = f.static_stability
        scale = xr.DataArray(1 + np.arange(len(fs)).reshape(shape), dims=[n for n, _ in extra], coords={n: coord_of(n, k) for n, k in extra})
        for with_nc in (False, True):
            nx = last(nc_x * scale) if with_nc else None
            for call in ("compute_lwa_only", "compute_lwa_and_barotropic_fluxes", "compute_layerwise_lwa_fluxes"):
                args = {} if call == "compute_lwa_only" else {"ncforce": nx}
                got = getattr(q, call)(**args)
                res.step()
                for i, f in enumerate(fs):
                    a = {} if call == "compute_lwa_only" else {"ncforce": ncs[i] * (1 + i) if with_nc else None}
                    if call == "compute_lwa_and_barotropic_fluxes":
                        a["return_named_tuple"] = False
                    getattr(f, call)(**a)
                    res.step()
                    for n in EXPECT[call]:
                        w = getattr(f, n)
                        g = got[n].values.reshape((len(fs),) + got[n].shape[len(extra):])[i]
                        close(res, n, g, w, 1e-9 * mx(w), "%s of member %d after %s" % (n, i, call))
                        # label-based access finds the same member
                        if coords[i]:
                            close(res, "label", got[n].sel(coords[i]).values, w, 1e-9 * mx(w), "%s at %s" % (n, coords[i]))
                        res.trace()
                    res.state(call, with_nc, i, got["lwa"].values.tobytes()[:4096])
        for call in ("interpolate_fields", "compute_reference_states"):
            for n in EXPECT[call]:
                g = outs[call][n].values.reshape((len(fs),) + outs[call][n].shape[len(extra):])
                for i in range(len(fs)):
                    close(res, n, g[i], want[i][n], 1e-9 * mx(want[i][n]), "%s of member %d" % (n, i))
                    if coords[i]:
                        close(res, "label", outs[call][n].sel(coords[i]).values, want[i][n], 1e-9 * mx(want[i][n]), "%s at %s" % (n, coords[i]))
                    res.trace()
        st = outs["interpolate_fields"]
        for i in range(len(fs)):
            w = want[i]["static_stability"]
            if isinstance(w, tuple):
                prs = (("static_stability_s", w[0]), ("static_stability_n", w[1]))
            else:
                prs = (("static_stability", w),)
            for n, ww in prs:
                if res.expect(n in st, n, "%s missing from the interpolated dataset" % n):
                    g = st[n].values.reshape((len(fs), -1))
                    close(res, n, g[i], ww, 1e-9 * mx(ww), "%s of member %d" % (n, i))
        res.expect(ds.identical(before), "input", "the input dataset was modified")
        ds.close()
        heat_da.close()
        res.sample = case
        return res


class Metadata(Prop):
    id = "C29"
    title = "Output datasets carry the right variables, dimensions, coordinates and settings"
    technique = "exhaustive product of extra dimensions, orientation, class, hemisphere and grid; every variable of every returned dataset checked against a label model"
    level_note = "label model written from the documentation of the interface"
    assumptions = ()
    bound = {"quick": "5 shapes of extra dimensions x 4 orientations x 2 classes x {global, northern} x {odd, even} x {interpolated, evenly spaced}",
             "thorough": "the same with 3 classes and 3 constant sets"}

    def cases(self, tier):
        out = []
        for ex in EXTRA:
            for fl, fp in itertools.product((False, True), repeat=2):
                for cls in (("NH18", "NHN22") if tier == "quick" else ("NH18", "NHN22", "QGField")):
                    for nh, even, evenly in itertools.product((False, True), repeat=3):
                        for const in (("alt",) if tier == "quick" else ("earth", "alt", "alt2")):
                            out.append({"ex": ex, "fl": fl, "fp": fp, "c": pipe.cfg(
                                cls=cls, nlat=10 if even else 11, nlon=6, kmax=5, even=even, nh=nh, evenly=evenly, const=const, jb=1 if cls == "NHN22" else 0,
                                npart=9, tol=2e-5, rjac=0.9, maxit=50000)})
        # other settings, sizes and coordinates that are no round numbers, one at a time
        for (fl, fp), cls, nh in itertools.product(itertools.product((False, True), repeat=2), ("NH18", "NHN22"), (False, True)):
            base = dict(cls=cls, nlat=11, nlon=6, kmax=5, nh=nh, const="alt", jb=1 if cls == "NHN22" else 0, npart=9, tol=2e-5, rjac=0.9, maxit=50000)
            for ch in (dict(npart=100), dict(npart=361), dict(npart=None), dict(maxit=123456), dict(maxit=2 ** 31 - 1), dict(tol=1e-3), dict(tol=1.25e-5), dict(rjac=0.), dict(rjac=0.9375),
                       dict(dz=1234.567), dict(dz=777.7, kmax=9), dict(kmax=11, dz=1500., tol=3e-5), dict(nlon=7), dict(nlon=11), dict(nlon=8, kmax=8), dict(nlat=9, nlon=9, kmax=9, plev="off"), dict(nlon=13, nlat=15), dict(nlat=8, even=True),
                       dict(nlat=12, even=True, lat="gauss"), dict(nlat=14, even=True, lat="lopsided"), dict(plev="era5"), dict(plev="off"),
                       dict(const="exact"), dict(xl="west"), dict(xl="late"), dict(xl="half"),
                       dict(evenly=True, dz=1234.567), dict(evenly=777.7, dz=1234.567), dict(evenly=1000. / 3), dict(dz=10000. / 7, kmax=6), dict(const="mars"), dict(const="giant", dz=6000.)):
                for ex in ("none", "time7" if "npart" in ch else "time2member3"):
                    out.append({"ex": ex, "fl": fl, "fp": fp, "xl": ch.get("xl"), "c": pipe.cfg(**dict(base, **{k: x for k, x in ch.items() if k != "xl"}))})
            if fl and fp and not nh:       # more members than small integers count
                out.append({"ex": "time20member13", "fl": fl, "fp": fp, "c": pipe.cfg(**dict(base, nlat=7, nlon=4, kmax=4, jb=0, dz=2500.))})
        return out

    def evaluate(self, case):
        res = new()
        xi, xr = iface(), xrmod()
        import falwa
        c = case["c"]
        extra = EVERY[case["ex"]]
        names = (PLEV_NAMES[1], YLAT_NAMES[1], XLON_NAMES[1])
        ds, mem = dataset(c, extra, case["fl"], case["fp"], names=names)
        if case.get("xl"):
            ds = ds.assign_coords({names[2]: LONS[case["xl"]](ds[names[2]].values)})
        for d, _ in extra:
            ds[d].attrs.update(long_name="label of " + d)
        q = xi.QGDataset(ds, qgfield=pipe.klass(c), qgfield_kwargs=qkw(c))
        k = fields.consts(c["const"])
        xlon, ylat, plev = mem[0][:3]
        if case.get("xl"):
            xlon = LONS[case["xl"]](xlon)
        h = k["scale_height"]
        z = ref.pseudoheight(plev, h) if c["evenly"] is not False else c["dz"] * np.arange(c["kmax"])
        dz = z[1] - z[0]
        prefac = sum(np.exp(-(z[i] - z[0]) / h) * dz for i in range(1, z.size - 1))
        attrs = dict(kmax=z.size, dz=dz, maxit=c["maxit"], tol=c["tol"], npart=c["npart"] or c["nlat"], rjac=c["rjac"], scale_height=h, cp=k["cp"], dry_gas_constant=k["dry_gas_constant"],
                     omega=k["omega"], planet_radius=k["planet_radius"], prefactor=prefac)
        hemi = ylat[ylat >= 0] if c["nh"] else ylat
        heat = ds["u"] * 1e-6
        outs = []
        outs.append(("interpolate_fields", q.interpolate_fields()))
        f3 = q.compute_ncforce_from_heating_rate(heat)
        for call in ("compute_reference_states", "compute_lwa_only", "compute_lwa_and_barotropic_fluxes", "compute_layerwise_lwa_fluxes"):
            outs.append((call, getattr(q, call)()))
        res.step(6)

        def one(da, n, where):
            res.trace()
            res.state(n, da.dims, da.shape)
            res.expect(da.name == n, "name", "%s: variable %s is named %s" % (where, n, da.name))
            dims = tuple(d for d, _ in extra) + core_dims(n)
            if not res.expect(da.dims == dims, "dims", "%s: %s has dimensions %s, expected %s" % (where, n, da.dims, dims)):
                return
            want = {d: coord_of(d, m) for d, m in extra}
            glob = n in EXPECT["interpolate_fields"] or n == "ncforce"
            want.update(height=z, ylat=ylat if glob else hemi, xlon=xlon)
            for d in dims:
                if not res.expect(d in da.coords, "coords", "%s: %s lacks the coordinate %s" % (where, n, d)):
                    continue
                g = da.coords[d].values
                ok = g.shape == want[d].shape and (np.all(g == want[d]) if g.dtype.kind not in "f" else np.allclose(g, want[d], rtol=1e-9, atol=1e-9))
                res.expect(ok, "coords", "%s: coordinate %s of %s is %s, expected %s" % (where, d, n, g[:6], want[d][:6]))
                if d in want and d not in core_dims(n):
                    res.expect(da.coords[d].attrs.get("long_name") == "label of " + d, "coord-attrs", "%s: coordinate %s of %s lost its description: %s" % (where, d, n, dict(da.coords[d].attrs)))

        for call, out in outs:
            want = list(EXPECT[call])
            if call == "interpolate_fields":
                want += ["static_stability_n", "static_stability_s"] if c["cls"] == "NHN22" and not c["nh"] else ["static_stability"]
            res.expect(set(want) == set(out.data_vars), "variables", "%s returned %s" % (call, sorted(out.data_vars)))
            for n in want:
                if n in out:
                    one(out[n], n, call)
            for n, v in attrs.items():
                g = out.attrs.get(n)
                res.expect(g is not None and abs(float(g) - v) <= 1e-9 * abs(v) + 1e-12 * dz * (n == "dz"), "attrs", "%s: attribute %s is %r, expected %r" % (call, n, g, v))
            res.expect(out.attrs.get("protocol") == pipe.klass(c).__name__, "attrs", "%s: protocol %r" % (call, out.attrs.get("protocol")))
            res.expect(falwa.__version__ in str(out.attrs.get("package")), "attrs", "%s: package %r" % (call, out.attrs.get("package")))
        one(f3, "ncforce", "compute_ncforce_from_heating_rate")
        # accessors return what the calls returned
        for call, out in outs:
            for n in EXPECT[call]:
                if n in out and n not in ("lwa", "lwa_baro", "u_baro"):
                    g = getattr(q, n)
                    res.expect(g.identical(out[n]) or (g.dims == out[n].dims and np.allclose(g.values, out[n].values, equal_nan=True)), "accessor", "accessor %s differs from the dataset" % n)
        # nothing is returned on request
        for call, _ in outs:
            res.expect(getattr(q, call)(return_dataset=False) is None, "no-dataset", "%s(return_dataset=False) returned something" % call)
        res.sample = case
        return res


# ------------------------------------------------------------------------------------------ C28
FORMS = ["ds", "arrays", "unnamed", "one name", "ds+v", "ds+t", "ds+v+t", "datasets", "ds+dsv"]


class Inputs(Prop):
    id = "C28"
    title = "Every documented way of passing winds and temperature selects those fields"
    technique = "exhaustive product of naming conventions, overrides and argument forms, selection compared with a lookup model; malformed inputs must be refused"
    level_note = "selection observed through the fields the analysis objects publish on an evenly spaced grid (no interpolation)"
    assumptions = ("data arrays are passed with the coordinate names of each convention",)
    bound = {"quick": "8 variable-name triples x 45 coordinate-name triples x 9 argument forms x {auto-detected, explicit with decoys}; 15 kinds of malformed input per form",
             "thorough": "the same (the space is finite and covered), two grid sizes"}

    def cases(self, tier):
        out = []
        for p in range(len(PLEV_NAMES) + 1):
            for y in range(len(YLAT_NAMES) + 1):
                for n in ((11,) if tier == "quick" else (11, 13)):
                    out.append({"p": p, "y": y, "n": n})
        out.append({"bad": 1, "n": 11})
        return out

    def _make(self, n, names, var, seed=0):
        c = pipe.cfg(cls="NH18", nlat=n, nlon=4, kmax=4, evenly=True, jb=0)
        ds, mem = dataset(c, (), False, False, names=names, var=var)
        if seed:
            ds = ds + 0.5 * seed
        return c, ds

    def evaluate(self, case):
        res = new()
        xi, xr = iface(), xrmod()
        if case.get("bad"):
            return self.bad(res, case["n"])
        p = (PLEV_NAMES + ["my_p"])[case["p"]]
        y = (YLAT_NAMES + ["my_y"])[case["y"]]
        for x in XLON_NAMES + ["my_x"]:
            for u, v, t in itertools.product(("u", "U", "ua"), ("v", "V", "va"), ("t", "T", "ta")):
                custom = {}
                for key, val, std in (("plev", p, "my_p"), ("ylat", y, "my_y"), ("xlon", x, "my_x"), ("u", u, "ua"), ("v", v, "va"), ("t", t, "ta")):
                    if val == std:
                        custom[key] = val
                # an explicit name has priority over every default; decoys with the default names are present then
                c, a = self._make(case["n"], (p, y, x), (u, v, t))
                _, b = self._make(case["n"], (p, y, x), (u, v, t), seed=1)
                _, d = self._make(case["n"], (p, y, x), (u, v, t), seed=2)
                for key, val in (("u", u), ("v", v), ("t", t)):
                    if key in custom:
                        for ds in (a, b, d):
                            ds[key] = ds[val] * 0 + 77.
                for form in FORMS:
                    if form == "ds":
                        args, want = (a,), (a[u], a[v], a[t])
                    elif form == "arrays":
                        args, want = (a[u], b[v], d[t]), (a[u], b[v], d[t])
                    elif form == "unnamed":
                        args = tuple(z.rename(None) for z in (a[u], b[v], d[t]))
                        want = (a[u], b[v], d[t])
                    elif form == "one name":
                        args = tuple(z.rename("field") for z in (a[u], b[v], d[t]))
                        want = (a[u], b[v], d[t])
                    elif form == "ds+v":
                        args, want = (a, b[v]), (a[u], b[v], a[t])
                    elif form == "ds+t":
                        args, want = (a, None, d[t]), (a[u], a[v], d[t])
                    elif form == "ds+v+t":
                        args, want = (a, b[v], d[t]), (a[u], b[v], d[t])
                    elif form == "datasets":
                        args, want = (a[[n for n in a if n != v and n != t]], b, d), (a[u], b[v], d[t])
                    else:
                        args, want = (a, b), (a[u], b[v], a[t])
                    try:
                        q = xi.QGDataset(*args, var_names=custom or None, qgfield_kwargs=dict(data_on_evenly_spaced_pseudoheight_grid=True))
                    except Exception as e:   # noqa
                        res.fail("refused", "form %s names %s: %s: %s" % (form, (p, y, x, u, v, t), type(e).__name__, e))
                        continue
                    res.step()
                    res.trace()
                    res.state(form, p, y, x, u, v, t)
                    f = q.fields[0]
                    plev = a[p].values
                    k = fields.DEFAULT
                    th = ref.potential_temperature(want[2].values, plev, k["dry_gas_constant"], k["cp"])
                    for n, got, w in (("u", f.u_field, want[0].values), ("v", f.v_field, want[1].values), ("t", f.theta_field, th)):
                        res.expect(np.allclose(got, w, rtol=1e-9, atol=1e-9), "select-" + n, "form %s, names %s: wrong field taken for %s" % (form, (p, y, x, u, v, t), n))
                    res.expect(np.allclose(f.ylat, a[y].values) and np.allclose(f.xlon, a[x].values) and np.allclose(f.plev, plev), "select-coords",
                               "form %s, names %s: wrong coordinates" % (form, (p, y, x)))
                if len(res.fails) > 8:
                    return res
        return res

    def bad(self, res, n):
        xi, xr = iface(), xrmod()
        c, a = self._make(n, ("plev", "ylat", "xlon"), ("u", "v", "t"))
        kw = dict(qgfield_kwargs=dict(data_on_evenly_spaced_pseudoheight_grid=True))
        ok = lambda *x, **k: xi.QGDataset(*x, **dict(kw, **k))
        u, v, t = a["u"], a["v"], a["t"]
        res.expect(ok(u, v, t) is not None, "reference", "reference input refused")
        shifted = lambda d: d.assign_coords(ylat=d["ylat"] * 0.5)
        time = lambda d, m: d.expand_dims(time=np.arange(m))
        menu = [
            ("no v", lambda: ok(u, None, t)), ("no t", lambda: ok(u, v)), ("no v in dataset", lambda: ok(a[["u", "t"]])),
            ("no t in dataset", lambda: ok(a[["u", "v"]])), ("no u in dataset", lambda: ok(a[["v", "t"]])),
            ("plain array", lambda: ok(u.values, v.values, t.values)), ("plain array v", lambda: ok(u, v.values, t)),
            ("unknown u", lambda: ok(a, var_names={"u": "zonal"})), ("unknown v", lambda: ok(a, var_names={"v": "zonal"})),
            ("unknown t", lambda: ok(a, var_names={"t": "zonal"})), ("unknown plev", lambda: ok(a, var_names={"plev": "zonal"})),
            ("unknown ylat", lambda: ok(a, var_names={"ylat": "zonal"})), ("unknown xlon", lambda: ok(a, var_names={"xlon": "zonal"})),
            ("undetectable plev", lambda: ok(a.rename(plev="pp"))), ("undetectable ylat", lambda: ok(a.rename(ylat="pp"))),
            ("undetectable xlon", lambda: ok(a.rename(xlon="pp"))),
            ("v on other latitudes", lambda: ok(u, shifted(v), t)), ("t on other latitudes", lambda: ok(u, v, shifted(t))),
            ("u on other latitudes", lambda: ok(shifted(u), v, t)),
            ("fewer latitudes in v", lambda: ok(u, v.isel(ylat=slice(1, None)), t)), ("fewer longitudes in t", lambda: ok(u, v, t.isel(xlon=slice(1, None)))),
            ("fewer levels in t", lambda: ok(u, v, t.isel(plev=slice(None, -1)))),
            ("scalar time differs", lambda: ok(u.assign_coords(time=1), v.assign_coords(time=2), t.assign_coords(time=1))),
            ("scalar time of t differs", lambda: ok(u.assign_coords(time=1), v.assign_coords(time=1), t.assign_coords(time=3))),
            ("auxiliary coordinate differs", lambda: ok(u.assign_coords(z=("plev", u.plev.values)), v.assign_coords(z=("plev", u.plev.values + 1)), t)),
            ("longitudes shifted", lambda: ok(u, v, t.assign_coords(xlon=t.xlon + 1.))), ("levels of v scaled", lambda: ok(u, v.assign_coords(plev=v.plev * 0.9), t)),
            ("time labels differ", lambda: ok(time(u, 2), time(v, 2), time(t, 2).assign_coords(time=[0, 5]))),
            ("members in another order", lambda: ok(time(u, 2), time(v, 2).isel(time=[1, 0]), time(t, 2))),
            ("members nested differently", lambda: ok(*[time(x, 2).expand_dims(m=[1, 2]).transpose(*((("m", "time") if k else ("time", "m")) + ("plev", "ylat", "xlon")))
                                                        for k, x in enumerate((u, v, t))])),
            ("times differ", lambda: ok(time(u, 2), time(v, 3), time(t, 2))), ("time only in u", lambda: ok(time(u, 2), v, t)),
            ("time only in t", lambda: ok(u, v, time(t, 2))), ("no member", lambda: ok(time(u, 1).isel(time=slice(0, 0)), time(v, 1).isel(time=slice(0, 0)), time(t, 1).isel(time=slice(0, 0)))),
        ]
        for perm in itertools.permutations(("plev", "ylat", "xlon")):
            if perm != ("plev", "ylat", "xlon"):
                menu.append(("order %s" % (perm,), lambda perm=perm: ok(u.transpose(*perm), v.transpose(*perm), t.transpose(*perm))))
                menu.append(("order of v %s" % (perm,), lambda perm=perm: ok(u, v.transpose(*perm), t)))
                menu.append(("order of t %s" % (perm,), lambda perm=perm: ok(u, v, t.transpose(*perm))))
        for name, fn in menu:
            r, e = raises(fn)
            res.step()
            res.trace()
            res.state("bad", name)
            res.expect(r, "accepted:" + name, "malformed input accepted: " + name)
        return res


# ------------------------------------------------------------------------------------------ C30
class Budget(Prop):
    id = "C30"
    title = "The integrated budget closes: change equals integrated terms plus the residual"
    technique = "exhaustive product of time axes, resolutions, dimension orders and naming conventions, compared with an explicit trapezoidal model"
    level_note = "time coordinates are datetimes, as the integration interval is reported as timestamps"
    assumptions = ()
    bound = {"quick": "every strictly monotonic time axis drawn from 5 instants with 2-4 points, both directions x 4 resolutions x 3 layouts, in memory, chunked in 3 ways and from a file; every other sequence of 1-4 out of 3 instants (unordered, repeated, single); 4 time names x explicit names x missing variables",
             "thorough": "7 instants with 2-6 points x 4 resolutions x 5 layouts, in memory, chunked in 3 ways and from a file; every other sequence of 1-5 out of 4 instants"}
    INST = [0, 3600, 21600, 21600.75, 90000, 90000 * 30, 90000 * 400]

    def cases(self, tier):
        n, mxl = (5, 4) if tier == "quick" else (7, 6)
        out = []
        for L in range(2, mxl + 1):
            for comb in itertools.combinations(range(n), L):
                for rev in (False, True):
                    out.append({"axis": list(comb)[::-1] if rev else list(comb), "layouts": 3 if tier == "quick" else 5})
        # any order, repeated instants, a single instant
        n, mxl = (3, 4) if tier == "quick" else (4, 5)
        for L in range(1, mxl + 1):
            for seq in itertools.product(range(n), repeat=L):
                if len(set(seq)) < L or list(seq) not in (sorted(seq), sorted(seq)[::-1]) or L == 1:
                    out.append({"axis": list(seq), "any": 1})
        out.append({"names": 1})
        return out

    NAMES = ["lwa_baro", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux"]
    OUT = ["delta_lwa", "integrated_convergence_zonal_advective_flux", "integrated_divergence_eddy_momentum_flux", "integrated_meridional_heat_flux", "residual"]

    def _ds(self, sec, unit, layout, tname, names):
        xr = xrmod()
        t = (np.datetime64("2010-06-01T00:00:00", "ms") + np.round(1000 * np.array(sec)).astype("timedelta64[ms]")).astype("datetime64[%s]" % unit)
        dims = [(tname, "ylat", "xlon"), ("ylat", tname, "xlon"), ("ylat", "xlon", tname), (tname, "member", "ylat", "xlon"), (tname,)][layout]
        size = {tname: len(sec), "ylat": 3, "xlon": 2, "member": 2}
        coords = {tname: t, "ylat": np.array([10., 20., 30.]), "xlon": np.array([0., 180.]), "member": np.array([4, 5])}
        coords = {k: v for k, v in coords.items() if k in dims}
        data = {}
        for i, n in enumerate(names):
            shape = tuple(size[d] for d in dims)
            idx = np.arange(np.prod(shape)).reshape(shape)
            data[n] = (dims, (np.sin(1.7 * idx + i) + 0.3 * i) * (1e-4 if i else 30.))
        data["other"] = (dims, np.ones(tuple(size[d] for d in dims)))
        if "ylat" in dims:      # further coordinates: an index of the rows, a forecast step along time, a scalar
            coords["row"] = ("ylat", np.arange(3))
            coords["expver"] = 1
        for n in TIME_NAMES[TIME_NAMES.index(tname) + 1:] if tname in TIME_NAMES else ():        # GRIB data have both time and valid_time
            coords[n] = (tname, t + np.arange(len(sec)) * np.timedelta64(7, "s"))
        return xr.Dataset(data, coords=coords, attrs={"dz": 1000., "keep": "me", "integration_start": "2001-01-01", "integration_stop": "2001-01-09", "integration_seconds": 1.}), t, dims

    def evaluate(self, case):
        res = new()
        xi = iface()
        if case.get("names"):
            return self.names(res)
        sec = [self.INST[i] for i in case["axis"]]
        for unit in ("ns",) if case.get("any") else ("ns", "us", "ms", "s"):
            if unit == "s" and any(x != int(x) for x in sec):
                continue
            for layout, hole in [(0, None), (2, None)] if case.get("any") else itertools.product(range(case["layouts"]), [None] + self.NAMES):
                ds, t, dims = self._ds(sec, unit, layout, "time", self.NAMES)
                if hole:         # one missing value stays the business of its grid point
                    ds[hole].values[tuple(1 if d != "time" else len(sec) // 2 for d in dims)] = np.nan
                keep = ds.copy(deep=True)
                out = xi.integrate_budget(ds)
                self.compare(res, ds, out, sec, t, dims, "time", self.NAMES, "axis %s unit %s layout %d%s" % (sec, unit, layout, " missing value in " + hole if hole else ""))
                res.expect(ds.identical(keep), "input", "input dataset modified")
                if hole or unit != "ns" or layout > 3:
                    continue
                # the same data as chains of deferred computations, and as they come from a file
                for ch in ({}, {d: 1 for d in dims}, {"time": 2}):
                    self.compare(res, ds, xi.integrate_budget(ds.chunk(ch)), sec, t, dims, "time", self.NAMES, "axis %s layout %d chunks %s" % (sec, layout, ch))
                if len(set(sec)) == len(sec):
                    tmp = tempfile.mkdtemp(prefix="falwa_mc_")
                    try:
                        ds.to_netcdf(os.path.join(tmp, "b.nc"))
                        with xrmod().open_dataset(os.path.join(tmp, "b.nc")) as lazy:
                            self.compare(res, ds, xi.integrate_budget(lazy), sec, t, dims, "time", self.NAMES, "axis %s layout %d from a file" % (sec, layout))
                    finally:
                        shutil.rmtree(tmp, ignore_errors=True)
        res.sample = case
        return res

    def compare(self, res, ds, out, sec, t, dims, tname, names, what):
        res.step()
        res.trace()
        res.state(what)
        ax = dims.index(tname)
        arr = [np.moveaxis(ds[n].values, ax, 0) for n in names]
        d = arr[0][-1] - arr[0][0]
        s = np.array(sec, float)
        integ = [sum((0.5 * (a[i] + a[i + 1]) * (s[i + 1] - s[i]) for i in range(len(s) - 1)), np.zeros_like(a[0])) for a in arr[1:]]
        want = [d] + integ + [d - sum(integ)]
        rest = tuple(x for x in dims if x != tname)
        for n, w in zip(self.OUT, want):
            if not res.expect(n in out, n, "%s: %s missing" % (what, n)):
                continue
            if res.expect(out[n].dims == rest, n, "%s: %s has dimensions %s" % (what, n, out[n].dims)):
                got = np.asarray(out[n].values, float)
                if res.expect(np.array_equal(np.isnan(got), np.isnan(w)), n, "%s: %s is missing at %d points, expected %d" % (what, n, np.isnan(got).sum(), np.isnan(w).sum())):
                    close(res, n, np.nan_to_num(got), np.nan_to_num(w), 1e-9 * (mx(d) + sum(mx(x) for x in integ)), what + ": " + n)
                for x in rest:
                    res.expect(x in out.coords and np.all(out[x].values == ds[x].values), "coords", "%s: coordinate %s" % (what, x))
        for x in ("row", "expver"):
            res.expect(x not in ds.coords or x in out.coords and np.all(out[x].values == ds[x].values), "coords", "%s: coordinate %s" % (what, x))
        res.expect(np.datetime64(out.attrs.get("integration_start")) == t[0], "start", "%s: integration_start %r" % (what, out.attrs.get("integration_start")))
        res.expect(np.datetime64(out.attrs.get("integration_stop")) == t[-1], "stop", "%s: integration_stop %r" % (what, out.attrs.get("integration_stop")))
        res.expect(abs(float(out.attrs.get("integration_seconds")) - (s[-1] - s[0])) < 1e-6, "seconds", "%s: integration_seconds %r, expected %r" % (
            what, out.attrs.get("integration_seconds"), s[-1] - s[0]))
        res.expect(out.attrs.get("dz") == 1000. and out.attrs.get("keep") == "me", "attrs", what + ": attributes of the input lost")

    def names(self, res):
        xi = iface()
        sec = [0, 3600, 21600]
        for tname in TIME_NAMES:
            ds, t, dims = self._ds(sec, "ns", 0, tname, self.NAMES)
            self.compare(res, ds, xi.integrate_budget(ds), sec, t, dims, tname, self.NAMES, "time called " + tname)
        # every subset of explicitly named variables, with decoys under the default names
        keys = ["time"] + self.NAMES
        for mask in itertools.product((False, True), repeat=5):
            vn = {k: "my_" + k for k, m in zip(keys, mask) if m}
            names = [vn.get(n, n) for n in self.NAMES]
            tname = vn.get("time", "time")
            ds, t, dims = self._ds(sec, "ns", 0, tname, names)
            for n in self.NAMES:
                if n in vn:
                    ds[n] = ds[vn[n]] * 0 + 5.
            self.compare(res, ds, xi.integrate_budget(ds, var_names=vn), sec, t, dims, tname, names, "explicit names %s" % sorted(vn))
        ds, t, dims = self._ds(sec, "ns", 0, "time", self.NAMES)
        for n in self.NAMES:
            r, e = raises(lambda: xi.integrate_budget(ds.drop_vars(n)), KeyError)
            res.step()
            res.expect(r, "missing", "missing %s not reported" % n)
            r, e = raises(lambda: xi.integrate_budget(ds, var_names={n: "absent"}), KeyError)
            res.expect(r, "missing", "wrong explicit name for %s not reported" % n)
        r, e = raises(lambda: xi.integrate_budget(ds.drop_vars(TIME_NAMES[1:]).rename(time="when")), KeyError)
        res.expect(r, "missing", "missing time not reported")
        return res


# ------------------------------------------------------------------------------------------ C31
class Mirroring(Prop):
    id = "C31"
    title = "A hemispheric dataset is completed to the globe by its mirror image"
    technique = "exhaustive product of hemisphere, orientation, row counts, dimension layouts and names, compared with an index model; mirrored analyses run end to end"
    level_note = "variables that depend on latitude; the rest is left to xarray's concatenation rules"
    assumptions = ()
    bound = {"quick": "2 hemispheres x 2 orientations x 2-6 rows (8-91 rows under one pair of names) x 4 layouts x 3 latitude names x 4 wind names, in memory or chunked in 3 ways, missing equator; 8 end-to-end analyses",
             "thorough": "2-12 rows (19-361 rows under one pair of names), 32 end-to-end analyses"}

    def cases(self, tier):
        out = [{"n": n} for n in range(2, 7 if tier == "quick" else 13)]
        # as many rows as reanalyses have, under one pair of names
        out += [{"n": n, "one": 1} for n in (8, 12, 19, 37, 46, 47, 61, 91) + (() if tier == "quick" else (121, 181, 361))]
        for south in (False, True):
            for desc in (False, True):
                for cls in ("NH18", "NHN22"):
                    for nlat in ((11,) if tier == "quick" else (9, 11, 13, 17)):
                        out.append({"run": 1, "south": south, "desc": desc, "c": pipe.cfg(cls=cls, nlat=nlat, nlon=6, kmax=5, npart=nlat + 1, jb=1 if cls == "NHN22" else 0)})
        return out

    def evaluate(self, case):
        res = new()
        xi, xr = iface(), xrmod()
        if case.get("run"):
            return self.endtoend(res, case)
        n = case["n"]
        step = 90. / (n - 1)
        for south, desc, yname, vname, layout in itertools.product((False, True), (False, True), YLAT_NAMES[1:2] if case.get("one") else YLAT_NAMES + ["phi"],
                                                                 ["v"] if case.get("one") else ["v", "V", "vv", None], range(4)):
            lat = np.arange(n) * step
            if south:
                lat = -lat
            lat = np.sort(lat)
            if desc:
                lat = lat[::-1]
            if layout == 3:
                lat = np.where(np.abs(lat) < 1e-9, 1e-6 if desc else -1e-6, lat)      # equator up to rounding
            dims = [("plev", yname, "xlon"), ("time", "plev", yname, "xlon"), (yname,), ("xlon", yname)][layout]
            size = {"plev": 2, "time": 2, "xlon": 3, yname: n}
            shape = tuple(size[d] for d in dims)
            idx = np.arange(np.prod(shape)).reshape(shape)
            data = {"u": (dims, np.sin(1.3 * idx)), "t": (dims, np.cos(0.7 * idx) + 250.), "w2": ((yname,), np.arange(n) + 1.)}
            if vname:
                data[vname] = (dims, np.sin(2.1 * idx + 1))
            coords = {yname: lat}
            for d in dims:
                if d != yname:
                    coords[d] = np.arange(size[d]) * 10
            ds = xr.Dataset(data, coords=coords, attrs={"a": 1})
            for k, name in enumerate(("u", vname)):         # missing values stay missing
                if name:
                    ds[name].values.flat[n // 2 + k * (n > 3)] = np.nan
            keep = ds.copy(deep=True)
            vn = {}
            if yname == "phi":
                vn["ylat"] = "phi"
            if vname == "vv":
                vn["v"] = "vv"
            what = "rows %d south %s descending %s %s %s layout %d" % (n, south, desc, yname, vname, layout)
            # as arrays, as chains of deferred computations in one piece or row by row
            lazy = (None, {}, {yname: 1}, {yname: 2})[(layout + 2 * south + desc + n) % 4]
            what += "" if lazy is None else " chunks %s" % lazy
            out = xi.hemisphere_to_globe(ds if lazy is None else ds.chunk(lazy), var_names=vn or None)
            res.step()
            res.trace()
            res.state(what)
            res.expect(ds.identical(keep), "input", what + ": input modified")
            glat = out[yname].values
            if not res.expect(glat.shape == (2 * n - 1,) and np.allclose(np.sort(glat), np.sort(np.concatenate([lat, -lat[np.abs(lat) > 1e-4]])), rtol=0, atol=1e-9), "latitudes", "%s: %s" % (what, glat)):
                continue
            dd = np.diff(glat)
            res.expect(np.all(dd > 0) or np.all(dd < 0), "order", "%s: latitudes not monotonic: %s" % (what, glat))
            res.expect(np.all(dd < 0) == desc, "order", "%s: orientation changed" % what)
            res.expect(set(out.data_vars) == set(ds.data_vars), "variables", what)
            res.expect(out.attrs.get("a") == 1, "attrs", what + ": attributes lost")
            for name in ds.data_vars:
                if not res.expect(out[name].dims == ds[name].dims, "dims", "%s: %s has dimensions %s" % (what, name, out[name].dims)):
                    continue
                got_v, given = (np.moveaxis(x[name].values, dims.index(yname) if yname in dims and x[name].ndim > 1 else 0, 0) for x in (out, ds))
                for i, y in enumerate(glat):
                    j = int(np.argmin(np.abs(lat - y)))
                    own = abs(lat[j] - y) < 1e-9
                    if not own:
                        j = int(np.argmin(np.abs(lat + y)))
                    w = given[j]
                    if not own and name == vname:
                        w = -w
                    g = got_v[i]
                    if not res.expect(np.allclose(g, w, rtol=0, atol=1e-14, equal_nan=True), "value", "%s: %s at latitude %g" % (what, name, y)):
                        break
                for d in dims:
                    if d != yname and d in ds[name].dims:
                        res.expect(np.all(out[d].values == ds[d].values), "coords", what)
            if layout == 0:
                no = ds.isel({yname: slice(1, None) if abs(lat[0]) < 1e-4 else slice(None, -1)})
                off = [ds.assign_coords({yname: lat + (-d if south else d)}) for d in (0.002, 0.01, 0.05, 0.25, 1.)]     # first row next to the equator
                for bad in [no] + off:
                    r, _ = raises(lambda: xi.hemisphere_to_globe(bad, var_names=vn or None))
                    res.expect(r, "no-equator", what + ": a dataset without the equator was accepted")
            if len(res.fails) > 8:
                break
        return res

    def endtoend(self, res, case):
        xi = iface()
        c = case["c"]
        ds, mem = dataset(c, (), case["desc"], False)
        ds["v"] = ds["v"].where(np.abs(ds["ylat"]) > 1e-6, 0.)
        half = ds.where(ds["ylat"] <= 1e-6, drop=True) if case["south"] else ds.where(ds["ylat"] >= -1e-6, drop=True)
        glob = xi.hemisphere_to_globe(half)
        outs = {}
        for nh in (False, True):
            q = xi.QGDataset(glob, qgfield=pipe.klass(c), qgfield_kwargs=qkw(dict(c, nh=nh)))
            q.interpolate_fields(return_dataset=False)
            q.compute_reference_states(return_dataset=False)
            outs[nh] = q.compute_lwa_and_barotropic_fluxes()
            q_global = q if not nh else q_global
            res.step(4)
        # the given hemisphere analysed within the original globe
        q0 = xi.QGDataset(ds, qgfield=pipe.klass(c), qgfield_kwargs=qkw(c))
        i0 = q0.interpolate_fields()
        fg = q_global.fields[0]
        dec = decided(c, np.asarray(fg.qgpv, float), np.asarray(fg.interpolated_u, float), np.asarray(fg.interpolated_v, float))
        if not dec:
            res.note("reference_states_skipped_ambiguous")
        for n in ("lwa", "lwa_baro", "u_baro"):
            if not dec and n != "u_baro":
                continue
            g = outs[False][n]
            north = g.sel(ylat=slice(1., None)).values
            south = g.sel(ylat=slice(None, -1.)).values
            ax = g.dims.index("ylat")
            tol = 3e-4 * mx(north)
            close(res, n, np.flip(south, ax), north, tol, "%s on both hemispheres" % n)
            close(res, n, outs[True][n].sel(ylat=slice(1., None)).values, north, tol, "%s of the northern-only analysis" % n)
            res.trace(2)
        res.state(outs[False]["lwa"].values)
        i1 = None
        qg = xi.QGDataset(glob, qgfield=pipe.klass(c), qgfield_kwargs=qkw(c))
        i1 = qg.interpolate_fields()
        sl = slice(None, -1.) if case["south"] else slice(1., None)
        for n in ("interpolated_u", "interpolated_v", "interpolated_theta"):
            close(res, n, i1[n].sel(ylat=sl).values, i0[n].sel(ylat=sl).values, 1e-9 * mx(i0[n].values), "%s on the given hemisphere" % n)
        return res


# ------------------------------------------------------------------------------------------ C09
def load_module(name):
    import importlib
    return importlib.import_module("falwa." + name)


class TimeSlice(Prop):
    id = "C09"
    title = "Extracting time slices writes exactly those snapshots, in the requested order"
    technique = "exhaustive enumeration of index lists up to length 4 over 3-4 times (negative and repeated included), file contents compared with a list model"
    level_note = "real files in a scratch directory"
    assumptions = ("files fit in memory",)
    bound = {"quick": "all index lists of length 1-4 over 3 times and 1-3 over 4 times, whole-range, strided, reversed and repeated lists over 1, 12 and 40 times x 4 file layouts (packed, unlimited, snapshots without observations) x {new, existing} output", "thorough": "all index lists of length 1-4 over 1-4 times and 1-3 over 5 times, the same long lists"}

    def cases(self, tier):
        out = []
        for nt in ((3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
            for layout in range(4):
                for first in ([None] + list(range(-nt, nt))):
                    out.append({"nt": nt, "layout": layout, "first": first, "len": 4 if nt < 4 and not layout or tier != "quick" and nt < 5 else 3})
        for nt in (1, 12, 40):          # long lists: whole ranges, strides, reversed, repeated
            for layout in range(4):
                out.append({"nt": nt, "layout": layout, "long": 1})
        return out

    def evaluate(self, case):
        res = new()
        xr = xrmod()
        mod = load_module("netcdf_utils")
        nt = case["nt"]
        d = tempfile.mkdtemp(prefix="mc_nc_")
        try:
            dims = [("time", "lat", "lon"), ("lev", "time", "lat"), ("time", "lat", "lon"), ("time", "lat", "lon")][case["layout"]]
            size = {"time": nt, "lat": 3, "lon": 2, "lev": 2}
            shape = tuple(size[x] for x in dims)
            idx = np.arange(np.prod(shape)).reshape(shape)
            t = np.datetime64("2011-01-01", "ns") + np.arange(nt) * np.timedelta64(6, "h")
            ds = xr.Dataset({"a": (dims, np.sin(idx * 1.1)), "b": (("time",), np.arange(nt) * 2.5), "c": (("lat",), np.arange(3.))},
                            coords={"time": t, "lat": [-30., 0., 30.]}, attrs={"title": "x"})
            src = os.path.join(d, "src.nc")
            if case["layout"] == 2:      # packed, with gaps and an unlimited dimension, as reanalyses are distributed
                ds["a"][nt // 2, 1, 0] = np.nan
                ds["b"] = ds["b"].astype("f4")
                ds["c"].attrs["units"] = "K"
                ds.to_netcdf(src, unlimited_dims=["time"], encoding={"a": dict(dtype="i2", scale_factor=1e-4, add_offset=0.1, _FillValue=-32767)})
                with xr.open_dataset(src) as packed:
                    ds = packed.load()
            else:
                if case["layout"] == 3:      # a snapshot without any observation, and one like its neighbour
                    ds["a"][nt // 2] = np.nan
                    ds["b"][nt // 2] = np.nan
                    ds["a"][-1] = ds["a"][0].values
                    ds["b"][-1] = ds["b"][0].values
                ds.to_netcdf(src)
            raw = open(src, "rb").read()
            if case.get("long"):
                r = list(range(nt))
                lists = [r, r[::-1], r[::2], r[::-3], r + r, [0] * 5 + r[-1:] * 4, [-1 - i for i in r], r[1:] + r[:1],
                         [r[i // 2] if i % 2 else -1 for i in r], [x for x in r for _ in range(2)]]
            elif case["first"] is None:
                lists = [None]
            else:
                lists = [[case["first"]] + list(r) for L in range(case["len"]) for r in itertools.product(range(-nt, nt), repeat=L)]
            for n, lst in enumerate(lists):
                out = os.path.join(d, "o%d.nc" % (n % 2))        # every second call overwrites an existing file
                if lst is None:
                    mod.extract_one_timeslice(src, out)
                    want = [0]
                else:
                    mod.extract_one_timeslice(nc_file=src, output_fname=out, timeslice=list(lst))
                    want = list(lst)
                res.step()
                res.trace()
                res.state(nt, case["layout"], want)
                with xr.open_dataset(out) as got:
                    got = got.load()
                w = ds.isel(time=want)
                what = "slices %s of %d" % (want, nt)
                res.expect(dict(got.sizes) == dict(w.sizes), "sizes", "%s: %s" % (what, dict(got.sizes)))
                for v in ("a", "b", "c"):
                    ok = v in got and got[v].dims == w[v].dims and got[v].shape == w[v].shape and np.array_equal(got[v].values, w[v].values, equal_nan=True)
                    ok = ok and got[v].attrs == w[v].attrs and got[v].dtype == w[v].dtype
                    res.expect(ok, "values", "%s: variable %s" % (what, v))
                res.expect(np.array_equal(got["time"].values, w["time"].values), "time", what + ": time stamps")
                res.expect(got.attrs.get("title") == "x", "attrs", what + ": attributes")
            res.expect(open(src, "rb").read() == raw, "source", "the source file was modified")
            for badidx in (nt, -nt - 1):
                r, _ = raises(lambda: mod.extract_one_timeslice(src, os.path.join(d, "bad.nc"), [badidx]))
                res.expect(r, "range", "index %d of %d times accepted" % (badidx, nt))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res


# ------------------------------------------------------------------------------------------ C35
class _Stub:
    """A stand-in for the optional gridfill package with its documented interface: Poisson relaxation of the masked points,
    periodic in `xdim` when `cyclic`."""
    calls = []

    @staticmethod
    def fill(grids, xdim, ydim, eps, relax=.6, itermax=100, initzonal=False, cyclic=False, verbose=False):
        _Stub.calls.append(dict(xdim=xdim, ydim=ydim, eps=eps, itermax=itermax, cyclic=cyclic))
        m = np.ma.getmaskarray(grids)
        x = np.moveaxis(np.array(np.ma.filled(grids, 0.), float), (ydim, xdim), (0, 1))
        k = np.moveaxis(m, (ydim, xdim), (0, 1))
        if (~k).any():
            x[k] = x[~k].mean()
        for _ in range(60):
            up = np.vstack([x[:1], x[:-1]])
            dn = np.vstack([x[1:], x[-1:]])
            if cyclic:
                lf, rt = np.roll(x, 1, 1), np.roll(x, -1, 1)
            else:
                lf, rt = np.hstack([x[:, :1], x[:, :-1]]), np.hstack([x[:, 1:], x[:, -1:]])
            new_ = 0.25 * (up + dn + lf + rt)
            x = np.where(k, new_, x)
        return np.moveaxis(x, (0, 1), (ydim, xdim)), np.array([True])


class GridFill(Prop):
    id = "C35"
    title = "Gap filling changes only missing points, all of them, periodic in longitude"
    technique = "every pattern of missing values on a small grid, through a stand-in for the optional solver package with its documented interface"
    level_note = "the relaxation solver itself is a third-party package that is not installed; the stand-in follows its documented contract"
    assumptions = ("gridfill.fill honours its documentation",)
    bound = {"quick": "all 4096 patterns of missing values on a 3 x 4 grid; every rectangle of gaps with corners among 6 rows and 6 columns on grids of 31 x 60, 46 x 144, 3 x 200 and 121 x 2 points", "thorough": "all 4096 patterns on 3 x 4, 4 x 3 and 2 x 6 grids; rectangles up to 181 x 360"}

    def cases(self, tier):
        out = [{"shape": s, "block": b} for s in (((3, 4),) if tier == "quick" else ((3, 4), (4, 3), (2, 6))) for b in range(8)]
        # practical sizes: one missing point anywhere, missing rows, columns and blocks
        for shape in ((31, 60), (46, 144), (3, 200), (121, 2)) + (() if tier == "quick" else ((91, 180), (181, 360))):
            for b in range(8):
                out.append({"shape": shape, "block": b, "large": 1})
        return out

    @staticmethod
    def patterns(case):
        ny, nx = case["shape"]
        if not case.get("large"):
            for bits in range(case["block"], 2 ** (ny * nx), 8):
                yield "%x" % bits, np.array([(bits >> i) & 1 for i in range(ny * nx)], bool).reshape(ny, nx)
            return
        n = 0
        js, is_ = sorted({0, 1, ny // 3, ny // 2, ny - 2, ny - 1}), sorted({0, 1, nx // 3, nx // 2, nx - 2, nx - 1})
        for j0, j1 in itertools.combinations_with_replacement(js, 2):
            for i0, i1 in itertools.combinations_with_replacement(is_, 2):
                n += 1
                if n % 8 == case["block"]:
                    m = np.zeros((ny, nx), bool)
                    m[j0:j1 + 1, i0:i1 + 1] = True
                    yield "rows %d-%d columns %d-%d" % (j0, j1, i0, i1), m

    def evaluate(self, case):
        res = new()
        import types
        stub = types.ModuleType("gridfill")
        stub.fill = _Stub.fill
        old = sys.modules.get("gridfill")
        sys.modules["gridfill"] = stub
        try:
            sys.modules.pop("falwa.preprocessing", None)
            mod = load_module("preprocessing")
            ny, nx = case["shape"]
            whole = np.sin(1.9 * np.arange(ny * nx) + 0.4).reshape(ny, nx) * 10
            whole[-1, -1] = 0.
            buf = np.empty((2 * ny, 2 * nx))
            for count, (bits, mask) in enumerate(self.patterns(case)):
                form = count % 5        # number formats, layouts, and one array that holds field after field
                base = whole if form != 1 else whole.astype("f4")
                f = np.where(mask, base.dtype.type(np.nan), base)
                if form == 2:
                    f = np.asfortranarray(f)
                elif form > 2:
                    part = buf[::2, ::2] if form == 3 else buf[:ny, nx:]
                    part[...] = f
                    f = part
                keep = f.copy()
                out = np.asarray(mod.gridfill_each_level(f))
                res.step()
                res.trace()
                res.state(bits, case["shape"])
                res.expect(np.array_equal(f, keep, equal_nan=True), "input", "input modified for pattern %s" % bits)
                if not res.expect(out.shape == f.shape, "shape", "pattern %s" % bits):
                    continue
                res.expect(np.array_equal(out[~mask], base[~mask]), "kept", "pattern %s: values that were present changed" % bits)
                if mask.all():
                    continue
                res.expect(not np.isnan(out).any(), "gaps", "pattern %s: gaps remain" % bits)
                if mask.any():
                    want, _ = _Stub.fill(np.ma.masked_invalid(keep), 1, 0, 0.01, cyclic=True)
                    close(res, "filled", out, want, 1e-9 if form != 1 else 1e-5, "pattern %s" % bits)
                if len(res.fails) > 5:
                    break
            _Stub.calls.clear()
            f = np.where(np.arange(ny * nx).reshape(ny, nx) == 1, np.nan, whole)
            for limit in (7, 1, 250, 5000, None):
                mod.gridfill_each_level(f, **({} if limit is None else dict(itermax=limit)))
                res.expect(_Stub.calls and _Stub.calls[-1]["itermax"] == (limit or 1000), "itermax", "iteration limit not passed on")
        finally:
            if old is None:
                sys.modules.pop("gridfill", None)
            else:
                sys.modules["gridfill"] = old
            sys.modules.pop("falwa.preprocessing", None)
        return res


PROPS = [Members(), Inputs(), Metadata(), Budget(), Mirroring(), TimeSlice(), GridFill()]
