"""The processing scripts that ship with the library, run as they are on small files: what they write is what the library gives for
each time step.  Their absolute input and output locations are redirected into a scratch directory."""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import types
import warnings
import numpy as np
from .base import Prop, new
from .xr import _Stub
from .. import build, fields

PLEV = 1000. * np.exp(-np.arange(26) * 2000. / 7000.)


def close(res, key, a, w, what, rtol=2e-6):
    a, w = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(a, float)), np.nan), np.asarray(w, float)
    if not res.expect(a.shape == w.shape, key, "%s: shape %s, expected %s" % (what, a.shape, w.shape)):
        return
    n = np.isnan(w)
    if not res.expect(np.array_equal(np.isnan(a), n), key, "%s: undefined points differ" % what):
        return
    s = np.max(np.abs(w[~n])) if (~n).any() else 0.
    d = np.max(np.abs(a[~n] - w[~n])) if (~n).any() else 0.
    res.expect(d <= rtol * s, key, "%s: largest difference %.3g of %.3g" % (what, d, s))


class Scripts(Prop):
    id = "C39"
    title = "Supplied processing scripts write what the library gives for every time step"
    technique = "exhaustive enumeration of input layouts; the unmodified scripts run on small files and every value they write is compared with direct executions of the library"
    level_note = "the real scripts run; file locations are redirected to a scratch directory, and the optional gap-filling package is a stand-in with its documented interface"
    assumptions = ("publication scripts of other environments (nhn_grl2022) are not covered", "gridfill.fill honours its documentation")
    bound = {"quick": "budget and heating scripts: 2 latitude x 2 level orders x 1-2 times, 5 times with one-point extremes, all their years; digest scripts: 4 months, 12 seasons; hybrid levels: 3 grids x 3 pressure columns x 2 level orders x 2 target orders x topography on and off, all 64 ground patterns of a 2 x 3 grid x 6 columns",
             "thorough": "as quick with 3 times, every month length and leap-year rule, all years of the digest"}

    def prepare(self, repo=None):
        self.repo = repo or build.REPO

    def cleanup(self):
        pass

    def cases(self, tier):
        t = tier != "quick"
        out = []
        for name in ("budget", "heating"):
            for a, b, n in itertools.product((0, 1), (0, 1), (1, 2, 3) if t else (1, 2)):
                out.append(dict(what="yearly", name=name, flip_lat=a, flip_lev=b, nt=n))
            out.append(dict(what="yearly", name=name, flip_lat=1, flip_lev=1, nt=5, gusts=1))
        for y, m in (((2023, 1), (2023, 2), (2023, 4), (2020, 2), (1900, 2), (2000, 2)) if t else ((2023, 2), (2023, 1), (2020, 2), (1900, 2))):
            out.append(dict(what="predigest", year=y, month=m))
        out.append(dict(what="digest", years=45 if t else 3))
        for g, p, a, b, s in itertools.product((0, 1, 2), (0, 1, 2), (0, 1), (0, 1), (False, True)):
            out.append(dict(what="hybrid", g=g, p=p, flip=a, lev=b, topo=s))
        out += [dict(what="patterns", flip=a, p=p) for a in (0, 1) for p in (0, 1, 2)]
        out += [dict(what="hybrid_file", var=v, p=p, flip=f) for v in ("U", "V", "T", "omit") for p in (0, 1, 2) for f in (0, 1)]
        out.append(dict(what="copying"))
        return out

    def evaluate(self, c):
        res = new()
        d = tempfile.mkdtemp(prefix="mcscript")
        cwd = os.getcwd()
        sys.modules.pop("falwa.preprocessing", None)
        old = sys.modules.get("gridfill")
        stub = types.ModuleType("gridfill")
        stub.fill = _Stub.fill
        sys.modules["gridfill"] = stub
        path = list(sys.path)
        try:
            os.chdir(d)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(self, c["what"])(c, d, res)
        finally:
            os.chdir(cwd)
            sys.path[:] = path
            if old is None:
                sys.modules.pop("gridfill", None)
            else:
                sys.modules["gridfill"] = old
            sys.modules.pop("falwa.preprocessing", None)
            sys.modules.pop("logruns", None)
            shutil.rmtree(d, ignore_errors=True)
        res.sample = c
        return res

    def script(self, rel, name="__main__", argv=()):
        """Run (or load) a script of the repository."""
        path = os.path.join(getattr(self, "repo", build.REPO), "scripts", rel)
        env = {"__name__": name, "__file__": path}
        old = sys.argv
        sys.argv = [path] + list(argv)
        sys.path.append(os.path.join(os.path.dirname(path), "module"))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                exec(compile(open(path).read(), path, "exec"), env)
        finally:
            sys.argv = old
        return env

    @contextlib.contextmanager
    def datasets(self, locate):
        import netCDF4
        real = netCDF4.Dataset
        netCDF4.Dataset = lambda p, *a, **kw: real(locate(os.fspath(p)), *a, **kw)
        try:
            yield real
        finally:
            netCDF4.Dataset = real

    def atmosphere(self, seed, t, ylat, xlon):
        u, v, tt = fields.atmosphere(("wave", "strong", "wave2")[(seed + t) % 3], PLEV, ylat, xlon)
        return (1 + 0.02 * seed) * u, (1 - 0.03 * t) * v, tt + 0.3 * seed + 0.2 * t

    def write(self, real, path, ylat, xlon, names, arrays, flips, times):
        """One file with the given variables; latitude and levels reversed on request."""
        f = real(path, "w")
        la, lo, le = names
        sl = slice(None, None, -1)
        for n, k in ((le, PLEV.size), (la, ylat.size), (lo, xlon.size), ("time", len(times))):
            f.createDimension(n, k)
        for n, x in ((le, PLEV[sl] if flips[1] else PLEV), (la, ylat[sl] if flips[0] else ylat), (lo, xlon)):
            f.createVariable(n, "f8", (n,))[:] = x
        tv = f.createVariable("time", "i8", ("time",))
        tv.units, tv.calendar = "hours since 1900-01-01", "gregorian"
        tv[:] = times
        for n, a in arrays.items():
            a = a[:, sl] if flips[1] else a
            a = a[:, :, sl] if flips[0] else a
            f.createVariable(n, "f8", ("time", le, la, lo))[:] = a
        f.close()

    # ---------------------------------------------------------------------------------- budget and heating
    def yearly(self, c, d, res):
        from falwa.oopinterface import QGFieldNHN22
        ylat, xlon = fields.odd_lat(21), fields.lon(6)
        nt = c["nt"]
        flips = (c["flip_lat"], c["flip_lev"])
        heat = c["name"] == "heating"
        src = os.path.join(d, "src")
        os.mkdir(src)
        want = {}
        times = [7 + 6 * t for t in range(nt)]

        def locate(p):
            if p.startswith("/") or p.startswith(".."):
                name, year = os.path.basename(p).split(".")[:2]
                return os.path.join(src, "%s_%d.nc" % (name, int(year.split("_")[0]) % 3))
            return os.path.join(d, p)
        with self.datasets(locate) as real:
            for s in range(3):
                a = [self.atmosphere(s, t, ylat, xlon) for t in range(nt)]
                a = [np.stack([x[k] for x in a]) for k in range(3)]
                if c.get("gusts"):            # one-point extremes above the analysed domain's ground
                    a[0][:, 9, 4, 2] += 210.
                    a[1][:, 8, 15, 3] -= 150.
                    a[2][:, 20, 6, 1] += 30.
                q = 1e-5 * np.sin(0.3 * a[2] + 0.1 * a[0])
                for n, x in zip("UVT", a):
                    self.write(real, os.path.join(src, "%s_%d.nc" % (n, s)), ylat, xlon, ("lat", "lon", "level"), {n: x}, flips, [t + s for t in times])
                self.write(real, os.path.join(src, "DTDTMST_%d.nc" % s), ylat, xlon, ("lat", "lon", "level"), {"DTDTMST": q}, flips, times)
                for t in range(nt):
                    f = QGFieldNHN22(xlon, ylat, PLEV, a[0][t], a[1][t], a[2][t], eq_boundary_index=5)
                    i = f.interpolate_fields()
                    r = f.compute_reference_states()
                    if heat:
                        f.compute_layerwise_lwa_fluxes(ncforce=f.compute_ncforce_from_heating_rate(heating_rate=q[t]))
                        want[s, t] = {"ncforce_3D": np.swapaxes(np.array(f.layerwise_flux_terms_storage.ncforce), 0, 2)}
                    else:
                        o = f.compute_lwa_and_barotropic_fluxes()
                        want[s, t] = dict(zip(("qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"), i[:4]))
                        want[s, t].update(qref=r[0], uref=r[1], ptref=r[2], adv_flux_conv=o.convergence_zonal_advective_flux)
                        want[s, t].update({n: getattr(o, n) for n in ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "divergence_eddy_momentum_flux",
                                                                      "meridional_heat_flux", "lwa_baro", "u_baro", "lwa")})
                    want[s, t] = {n: np.array(x, float) for n, x in want[s, t].items()}
            self.script("lubis_et_al_2025/" + ("cal_ncforce_loop.py" if heat else "cal_lwa_budget_NHN22.py"))
            years = range(1980, 2021 if heat else 2022)
            outs = sorted(n for n in os.listdir(d) if n.endswith(".nc"))
            res.expect(outs == sorted(("ncforce_3D.%d.nc" if heat else "output.%d.nc") % y for y in years), "files", "files written: %s ..." % outs[:3])
            for y in years:
                p = os.path.join(d, ("ncforce_3D.%d.nc" if heat else "output.%d.nc") % y)
                if not os.path.exists(p):
                    continue
                g = real(p)
                s = y % 3
                close(res, "latitude", g.variables["latitude"][:], ylat, "latitudes of %d" % y)
                close(res, "longitude", g.variables["longitude"][:], xlon, "longitudes of %d" % y)
                close(res, "levelist", g.variables["levelist"][:], 1000 * np.exp(-np.arange(49) / 7.), "levels of %d" % y)
                close(res, "time", g.variables["time"][:], [t + s for t in times], "times of %d" % y)
                res.expect(g.variables["time"].units == "hours since 1900-01-01" and g.variables["time"].calendar == "gregorian", "time", "time units")
                for t in range(nt):
                    for n, w in want[s, t].items():
                        close(res, n, g.variables[n][t], w, "%s of %d, time %d" % (n, y, t))
                    res.step(5)
                    res.trace()
                    res.state(c["name"], flips, nt, y, t)
                g.close()
                if len(res.fails) > 10:
                    break

    # ---------------------------------------------------------------------------------- digests
    def predigest(self, c, d, res):
        import calendar
        import json
        from falwa.oopinterface import QGFieldNH18
        ylat, xlon = fields.odd_lat(37), fields.lon(6)
        n = calendar.monthrange(c["year"], c["month"])[1] * 4
        json.dump({"vol1": "/in/", "vol2": "/late/"}, open(os.path.join(d, "path.json"), "w"))
        inp = {"/in/%d/%d_%02d_%s.nc" % (c["year"], c["year"], c["month"], v): os.path.join(d, "in_%s.nc" % v) for v in "uvt"}
        made = []

        def locate(p):
            if p in inp:
                return inp[p]
            made.append(p)
            return os.path.join(d, os.path.basename(p))
        with self.datasets(locate) as real:
            base = [self.atmosphere(s, t, ylat, xlon) for s, t in itertools.product(range(3), range(4))]
            for k, v in enumerate("uvt"):
                self.write(real, os.path.join(d, "in_%s.nc" % v), ylat, xlon, ("latitude", "longitude", "level"),
                           {v: np.stack([base[t % 12][k] for t in range(n)])}, (1, 1), [7 + 6 * t for t in range(n)])
            want = []
            for u, v, tt in base:
                f = QGFieldNH18(xlon, ylat, PLEV, u, v, tt)
                f.interpolate_fields()
                f.compute_reference_states()
                f.compute_lwa_and_barotropic_fluxes()
                want.append(dict(lwa_baro=np.array(f.lwa_baro), u_baro=np.array(f.u_baro), fawa=np.array(f.lwa).mean(axis=-1), uref=np.array(f.uref),
                                 ubar=np.array(f.interpolated_u).mean(axis=-1)))
            self.script("mdtf_predigest_data/predigest_data.py", argv=[str(c["year"]), str(c["month"])])
            name = "output_%d_%02d.nc" % (c["year"], c["month"])
            if not res.expect([os.path.basename(p) for p in made] == [name], "files", "files written: %s" % made):
                return
            g = real(os.path.join(d, name))
            close(res, "latitude", g.variables["latitude"][:], ylat, "latitudes")
            close(res, "longitude", g.variables["longitude"][:], xlon, "longitudes")
            close(res, "height", np.ma.filled(np.ma.asarray(g.variables["height"][:], float), np.nan), f.height, "heights")
            close(res, "time", np.ma.filled(np.ma.asarray(g.variables["time"][:], float), np.nan), 7 + 6 * np.arange(n), "times")
            res.expect(g.variables["time"].units == "hours since 1900-01-01" and g.variables["time"].calendar == "gregorian", "time", "time units")
            for t in range(n):
                for v, w in want[t % 12].items():
                    close(res, v, g.variables[v][t], w, "%s at time %d" % (v, t))
                res.step(4)
                res.trace()
                res.state(c["year"], c["month"], t)
                if len(res.fails) > 10:
                    break
            res.expect(g.dimensions["time"].size == n, "times", "%d times" % g.dimensions["time"].size)
            g.close()

    def digest(self, c, d, res):
        import xarray as xr
        ylat, xlon = np.linspace(-90., 90., 5), np.arange(0., 360., 90.)
        asked = []

        def month(y, m):
            k, j, i = np.meshgrid(np.arange(3), np.arange(5), np.arange(4), indexing="ij")
            z = np.meshgrid(np.arange(3), np.arange(49), np.arange(5), indexing="ij")
            w = {"lwa_baro": (("time", "latitude", "longitude"), 30 + 5 * np.sin(1.1 * k * m + j + 0.3 * i * y)),
                 "u_baro": (("time", "latitude", "longitude"), 10 * np.cos(0.7 * k + 1.3 * j * m - 0.1 * i + y)),
                 "uref": (("time", "height", "latitude"), 10 + z[0] * m + 0.1 * z[1] - z[2]),
                 "ubar": (("time", "height", "latitude"), 11 + z[0] - 0.2 * z[1] * m + z[2] * (y % 7))}
            return xr.Dataset(w, {"latitude": ylat, "longitude": xlon})
        real = xr.open_mfdataset, xr.Dataset.to_netcdf

        def opened(files, **kw):
            asked.append(list(files))
            ym = [tuple(int(x) for x in os.path.basename(p)[:-3].split("_")[1:]) for p in files]
            return xr.concat([month(*q) for q in ym], "time")
        out = {}
        xr.open_mfdataset = opened
        xr.Dataset.to_netcdf = lambda ds, path, *a, **kw: out.__setitem__(os.path.basename(path), ds.load())
        try:
            self.script("mdtf_predigest_data/plot_from_predigest.py")
        finally:
            xr.open_mfdataset, xr.Dataset.to_netcdf = real
        seasons = {"DJF": (1, 2, 12), "MAM": (3, 4, 5), "JJA": (6, 7, 8), "SON": (9, 10, 11)}
        res.expect(sorted(out) == sorted("ERA5_%d_%s_predigest_dataset.nc" % (y, s) for y in range(1979, 2024) for s in seasons), "files", "files: %s" % sorted(out)[:3])
        for y in range(1979, 1979 + c["years"]):
            for s, ms in seasons.items():
                g = out.get("ERA5_%d_%s_predigest_dataset.nc" % (y, s))
                if g is None:
                    continue
                w = xr.concat([month(y, m) for m in ms], "time")
                a, b = w["lwa_baro"].values, w["u_baro"].values
                cov = ((a - a.mean(0)) * (b - b.mean(0))).sum(0) / (a.shape[0] - 1)
                alt = cov * (a.shape[0] - 1) / a.shape[0]
                got = g["lwa_u_covariance"].values
                res.expect(np.allclose(got, cov, rtol=1e-9) or np.allclose(got, alt, rtol=1e-9), "covariance", "covariance of %s %d" % (s, y))
                for n in ("lwa_baro", "u_baro", "uref", "ubar"):
                    close(res, n, g[n].values, w[n].values.mean(0), "%s of %s %d" % (n, s, y), 1e-9)
                    res.expect(g[n].dims == w[n].dims[1:], n, "dimensions %s" % (g[n].dims,))
                close(res, "delta_u", g["delta_u"].values, (w["ubar"] - w["uref"]).values.mean(0), "delta_u of %s %d" % (s, y), 1e-9)
                close(res, "latitude", g["latitude"].values, ylat, "latitude")
                close(res, "longitude", g["longitude"].values, xlon, "longitude")
                close(res, "height", g["height"].values, 1000. * np.arange(49), "height")
                res.step()
                res.trace()
                res.state("digest", y, s)

    # ---------------------------------------------------------------------------------- hybrid levels
    def patterns(self, c, d, res):
        """Every assignment of high and low ground to the columns of a small grid."""
        for k in range(64):
            self.hybrid(dict(g=2, p=c["p"], flip=c["flip"], lev=k % 2, topo=True, ground=k), d, res)

    def hybrid_data(self, g, p, flip, ground=None):
        import xarray as xr
        nt, nl, ny, nx = ((2, 6, 3, 4), (1, 9, 4, 5), (3, 4, 2, 3))[g]
        s = np.linspace(0.02, 1., nl + 1)
        b = s ** 2 if p else s
        a = s - b if p != 2 else 0.6 * (s - b)
        if flip:
            a, b = a[::-1], b[::-1]
        t, j, i = np.meshgrid(np.arange(nt), np.arange(ny), np.arange(nx), indexing="ij")
        ps = 1e5 * (1 - 0.12 * (1 + np.sin(1.7 * i + 0.9 * j + 0.4 * t)))
        if p == 2:
            ps = np.where((i + j + t) % 4 == 0, 6e4, ps)
        if ground is not None:
            ps = np.where(np.array([ground >> n & 1 for n in range(ny * nx)]).reshape(1, ny, nx), 6.5e4, 1.02e5) - 2e3 * t
        k = np.arange(nl)[None, :, None, None]
        x = 20 * np.sin(0.7 * k + 1.1 * i[:, None] + 0.4 * j[:, None] + t[:, None]) + 3. * k
        dims = ("time", "lev", "lat", "lon")
        ds = xr.Dataset({"U": (dims, x, {"units": "m/s", "long_name": "wind"}), "V": (dims, -x), "hyai": ("ilev", a), "hybi": ("ilev", b),
                         "PS": (("time", "lat", "lon"), ps, {"units": "Pa"}), "P0": ((), 1e5), "bnds": (("time", "nbnd"), np.zeros((nt, 2)))},
                        {"time": ("time", 6. * np.arange(nt), {"units": "hours since 2000-01-01"}), "lev": np.arange(nl), "ilev": np.arange(nl + 1),
                         "lat": ("lat", np.linspace(-60., 60., ny), {"units": "degrees_north"}), "lon": ("lon", np.arange(nx) * 360. / nx, {"units": "degrees_east"})},
                        attrs={"source": "model"})
        return ds

    def hybrid(self, c, d, res):
        m = self.script("pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py", "loaded")
        ds = self.hybrid_data(c["g"], c["p"], c["flip"], c.get("ground"))
        lev = np.array([40., 180., 333., 500., 700., 850., 925., 1000.])
        lev = lev[::-1] if c["lev"] else lev
        x = ds["U"].values.copy()
        keep = x.copy(), ds["PS"].values.copy(), lev.copy()
        log = []
        got, topo, back = m["vertical_interpolation_to_pressure"](ds=ds, variable=x, save_topography=c["topo"], logging_method=log.append, new_lev=lev, var="U")
        res.step()
        res.state(c)
        nt, nl, ny, nx = x.shape
        want = np.full((nt, lev.size, ny, nx), np.nan)
        edge = np.zeros(want.shape, bool)
        for t, j, i in itertools.product(range(nt), range(ny), range(nx)):
            p = (ds["hyai"].values * 1e5 + ds["hybi"].values * ds["PS"].values[t, j, i]) / 100.
            p = 0.5 * (p[1:] + p[:-1])
            o = np.argsort(p)
            want[t, :, j, i] = np.interp(lev, p[o], x[t, o, j, i], left=np.nan, right=np.nan)
            edge[t, :, j, i] = np.min(np.abs(lev[:, None] - p[None, :]), axis=1) < 1e-9
        res.expect(np.array_equal(x, keep[0]) and np.array_equal(ds["PS"].values, keep[1]) and np.array_equal(lev, keep[2]), "input", "inputs modified")
        res.expect(np.array_equal(back, lev), "levels", "levels returned")
        if not res.expect(got.shape == want.shape, "shape", "shape %s" % (got.shape,)):
            return
        have = ~np.isnan(want) & ~edge
        res.expect(np.allclose(got[have], want[have], rtol=1e-12, atol=1e-10), "interpolated", "interpolated values")
        filled = want.copy()
        for t, k in itertools.product(range(nt), range(lev.size)):
            gap = np.isnan(want[t, k])
            if gap.any() and not gap.all():
                filled[t, k], _ = _Stub.fill(np.ma.masked_invalid(want[t, k]), 1, 0, 0.01, cyclic=True)
        sel = ~np.isnan(filled) & ~edge.any(axis=(2, 3), keepdims=True)
        res.expect(np.allclose(got[sel], filled[sel], rtol=1e-10, atol=1e-8), "filled", "values below the surface")
        res.note("filled_points", int((np.isnan(want) & ~np.isnan(filled)).sum()))
        if c["topo"]:
            ok = topo is not None and topo.shape == want.shape
            if res.expect(ok, "topography", "no topography"):
                res.expect(np.array_equal(np.isnan(topo), np.isnan(want)) and np.all(topo[~np.isnan(topo)] == 1), "topography", "marks of points below the surface")
        else:
            res.expect(topo is None, "topography", "topography nobody asked for")
        res.trace()

    def hybrid_file(self, c, d, res):
        """The script as it is run from the command line: file in, file out."""
        import logging
        import xarray as xr
        ds = self.hybrid_data(0, c["p"], c["flip"])
        ds["T"] = ds["U"] * 0.5 + 250.
        os.mkdir("NorESM_data_sample")
        ds.to_netcdf("NorESM_data_sample/cesm_10tslices.nc")
        handlers = list(logging.root.handlers)
        try:
            m = self.script("pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py",
                            argv=[] if c["var"] == "omit" else [c["var"]])
        finally:
            for h in list(logging.root.handlers):
                if h not in handlers:
                    logging.root.removeHandler(h)
                    h.close()
            logging.root.handlers[:] = handlers
        res.step()
        res.trace()
        res.state(c)
        v = "U" if c["var"] == "omit" else c["var"]
        if not res.expect(os.path.exists("%s_poisson_filled" % v), "file", "no output file: %s" % os.listdir(d)):
            return
        with xr.open_dataset("%s_poisson_filled" % v) as g:
            g.load()
        with contextlib.redirect_stdout(io.StringIO()):
            want, topo, lev = m["vertical_interpolation_to_pressure"](ds=ds, variable=ds[v].values, save_topography=True, logging_method=lambda *a: None,
                                                                      new_lev=g["plev"].values.astype(float), var=v)
        era = [1000, 975, 950, 925, 900, 875, 850, 825, 800, 775, 750, 725, 700, 650, 600, 550, 500, 450, 400, 350,
               300, 250, 225, 200, 175, 150, 125, 100, 70, 50, 30, 20, 10, 7, 5, 3]
        res.expect(np.array_equal(g["plev"].values, era[::-1]), "levels", "pressure levels")
        close(res, "file-values", g[v].values, want, "%s in the file" % v, 1e-12)
        res.expect(g[v].dims == ("time", "plev", "lat", "lon"), "file-dims", "dimensions %s" % (g[v].dims,))
        res.expect(("topo" in g) == (v == "U"), "file-topography", "topography saved: %s" % ("topo" in g))
        if "topo" in g:
            close(res, "file-topography", g["topo"].values, topo, "topography in the file", 1e-12)
        close(res, "file-PS", g["PS"].values, ds["PS"].values, "surface pressure", 1e-12)
        for n in ("lat", "lon", "time"):
            res.expect(np.array_equal(np.asarray(g[n].values), np.asarray(xr.decode_cf(ds)[n].values)), "file-coords", "coordinate %s" % n)
        res.expect(g[v].attrs.get("units") == ds[v].attrs.get("units"), "file-attributes", "attributes of %s: %s" % (v, g[v].attrs))

    def copying(self, c, d, res):
        import copy
        import xarray as xr
        m = self.script("pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py", "loaded")
        for g, name, lev in itertools.product((0, 1, 2), ("plev", "level"), (np.array([100., 500., 850.]), np.array([1000., 250.]))):
            ds = self.hybrid_data(g, 1, 0)
            keep = ds.copy(deep=True)
            out, dims = m["similar_xarray_dataset"](ds, lev, name)
            res.step()
            res.expect(list(dims) == ["time", name, "lat", "lon"], "dims", "dimensions %s" % (dims,))
            for n in ("time", "lat", "lon"):
                res.expect(np.array_equal(out[n].values, ds[n].values) and out[n].attrs == ds[n].attrs, "coords", "coordinate %s" % n)
            res.expect(np.array_equal(out[name].values, lev) and out[name].attrs.get("units") == "hPa", "coords", "levels")
            res.expect(out["PS"].identical(keep["PS"]) if set(out["PS"].coords) == set(keep["PS"].coords) else np.array_equal(out["PS"].values, keep["PS"].values), "PS", "surface pressure")
            res.expect(out.attrs == keep.attrs, "attrs", "attributes")
            res.expect(not set(out.dims) & {"lev", "ilev", "nbnd"}, "dims", "old levels kept: %s" % (tuple(out.dims),))
            res.expect(ds.identical(keep), "source", "source dataset modified")
            nt, ny, nx = ds.sizes["time"], ds.sizes["lat"], ds.sizes["lon"]
            for k, (var, attrs) in enumerate((("U", None), ("U", {}), ("V", {"units": "kt"}), ("topo", {}))):
                data = np.arange(nt * lev.size * ny * nx, dtype=float).reshape(nt, lev.size, ny, nx) + k
                given = copy.deepcopy(attrs)
                o2 = m["update_new_variable_to_pressure"](var, data, ds, out.copy(deep=True), default_attrs=attrs, new_coordinate_system=dims)
                res.step()
                res.trace()
                res.state(g, name, lev.size, k)
                v = o2[var]
                res.expect(v.dims == tuple(dims) and np.array_equal(v.values, data), "variable", "%s on the new levels" % var)
                base = dict(ds[var].attrs if attrs is None else given)
                base["description"] = "%s interpolated from model levels to pressure coords in hPa" % var
                res.expect(dict(v.attrs) == base, "variable-attributes", "attributes of %s: %s, expected %s" % (var, dict(v.attrs), base))
                res.expect(attrs == given, "attributes-argument", "attributes passed in were modified: %s" % attrs)
                res.expect(ds.identical(keep), "source", "source dataset modified by adding %s" % var)


PROPS = [Scripts()]
