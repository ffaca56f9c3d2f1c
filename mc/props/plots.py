"""Plot utilities: what is actually drawn (contour sets, levels, colour maps, figures, files) for every option combination and
every short sequence of plots.  Coastlines (which need downloads) and file writing are replaced by stand-ins that record."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from .base import Prop, new

DRAW = ("two", "map", "snapshot", "latlon", "height")


class Recorder:
    """Everything drawn while active, per figure; restores matplotlib afterwards."""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        from cartopy.mpl.geoaxes import GeoAxes
        self.plt, self.sets, self.saved, self.shown, self.points = plt, [], [], [], []
        self.depth = 0
        self.old = []
        me = self

        def patch(cls, name, fn):
            me.old.append((cls, name, cls.__dict__.get(name)))
            setattr(cls, name, fn)

        def contourf(orig):
            def run(ax, *a, **kw):
                me.depth += 1
                try:
                    cs = orig(ax, *a, **kw)
                finally:
                    me.depth -= 1
                if me.depth == 0:
                    me.sets.append(dict(ax=ax, fig=ax.figure, x=np.array(a[0], float), y=np.array(a[1], float), z=np.array(a[2], float),
                                        levels=np.array(cs.levels, float), cmap=cs.get_cmap().name))
                return cs
            return run

        def scatter(orig):
            def run(ax, *a, **kw):
                me.depth += 1
                try:
                    out = orig(ax, *a, **kw)
                finally:
                    me.depth -= 1
                if me.depth == 0:
                    me.points.append((ax, np.array(a[0], float), np.array(a[1], float)))
                return out
            return run
        for cls in (Axes, GeoAxes):
            patch(cls, "contourf", contourf(cls.contourf))
            patch(cls, "scatter", scatter(cls.scatter))
        patch(GeoAxes, "coastlines", lambda ax, *a, **kw: None)
        patch(Figure, "tight_layout", lambda fig, *a, **kw: None)
        patch(Figure, "savefig", lambda fig, fname, *a, **kw: me.saved.append((fig, os.fspath(fname))))
        self.show = plt.show

        def show(*a, **kw):         # windows are gone when an interactive backend returns from showing them
            me.shown.append(list(map(plt.figure, plt.get_fignums())))
            plt.close("all")
        plt.show = show
        plt.close("all")
        return self

    def __exit__(self, *exc):
        self.plt.show = self.show
        for cls, name, fn in reversed(self.old):
            if fn is None:
                delattr(cls, name)
            else:
                setattr(cls, name, fn)
        self.plt.close("all")


def grid(k):
    if k == 2:      # as large and as regular as reanalyses
        return np.arange(0., 360., 2.), np.linspace(-90., 90., 121)
    x = np.arange(0., 360., 30.) if k == 0 else np.linspace(0., 360., 9)
    y = np.linspace(-90., 90., 7) if k == 0 else np.linspace(-60., 80., 8)
    return x, y


def pair(k, x, y):
    yy, xx = np.meshgrid(np.deg2rad(y), np.deg2rad(x), indexing="ij")
    a = np.sin(2 * xx) * np.cos(yy) + 0.3 * yy
    b = np.cos(xx + 0.4) * np.cos(yy) - 0.2 * yy
    if k == 1:
        a, b = a - 4., b - 4.3
    elif k == 2:
        a, b = 5. + a, 4.5 + 1e-3 * b
    return a, b


def ref_levels(x, y, z, n=None):
    from matplotlib.figure import Figure
    ax = Figure().subplots()
    return np.array((ax.contourf(x, y, z) if n is None else ax.contourf(x, y, z, n)).levels, float)


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12 * (np.max(np.abs(b)) if b.size else 1.))


def coords_ok(s, x, y):
    if s["x"].ndim == 2:
        return same(s["x"], np.broadcast_to(x, s["z"].shape)) and same(s["y"], np.broadcast_to(np.asarray(y)[:, None], s["z"].shape))
    return same(s["x"], x) and same(s["y"], y)


class Plots(Prop):
    id = "C38"
    title = "Plots show the given fields, scales, titles and files, each on its own figure"
    technique = "exhaustive enumeration of option combinations and of every sequence of plots up to a length, judged on the figure objects the real functions draw"
    level_note = "the real functions draw with the real plotting library; coastlines and file writing are stand-ins that record the call"
    assumptions = ("rendering of a contour set to pixels is the plotting library's business",)
    bound = {"quick": "2 comparisons x 6 difference scales x 3 file choices x 2 colour maps x 3 field pairs (x 2 grids off the map); 3 other plots x every option; every sequence of 2 plots out of 5",
             "thorough": "as quick, x 2 grids on the map, and every sequence of 3 plots out of 5"}

    def cases(self, tier):
        out = []
        for fn in ("compare_two_fields", "compare_two_fields_on_map"):
            for d in ("omit", 0.01, 0.5, 1, 2.5, None):
                for kp in (0, 1, 2):
                    for kg in (0, 1):
                        if tier == "quick" and fn.endswith("map") and kg != kp % 2:
                            continue
                        out.append(dict(what="two", fn=fn, diff=d, kp=kp, kg=kg))
        for eq in (True, False):
            for lev in ("omit", 1, 2, 7, 61):
                for kg in (0, 1) if lev in ("omit", 7) else (0,):
                    for lab in ((kg,) if tier == "quick" else (0, 1)):
                        out.append(dict(what="latlon", eq=eq, lev=lev, kg=kg, lab=lab))
                out.append(dict(what="height", eq=eq, lev=lev))
        for fn, d in (("compare_two_fields", "omit"), ("compare_two_fields", None)) + ((("compare_two_fields_on_map", 0.5),) if tier != "quick" else ()):
            out.append(dict(what="two", fn=fn, diff=d, kp=1, kg=2))
        out.append(dict(what="latlon", eq=True, lev="omit", kg=2, lab=0))
        out.append(dict(what="snapshot"))
        out.append(dict(what="legacy"))
        for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
            for first in DRAW:
                out.append(dict(what="sequence", n=n, first=first))
        return out

    def evaluate(self, c):
        os.environ.setdefault("MPLBACKEND", "Agg")
        d = tempfile.mkdtemp(prefix="mcplot")
        cwd = os.getcwd()
        os.environ["MPLCONFIGDIR"] = d
        res = new()
        try:
            os.chdir(d)
            import falwa.plot_utils as pu
            getattr(self, c["what"])(pu, c, d, res)
            res.expect(sorted(os.listdir(d)) == [x for x in sorted(os.listdir(d)) if x.endswith(".nc") or x.startswith("fontlist")],
                       "files", "unexpected files %s" % os.listdir(d))
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        res.sample = c
        return res

    def check_saved(self, res, r, fig, path, key):
        want = [] if path is None else [(fig, path)]
        res.expect(len(r.saved) == len(want) and all(a is b and p == q for (a, p), (b, q) in zip(r.saved, want)), key + "-file",
                   "files saved: %s, expected %s" % ([p for _, p in r.saved], [p for _, p in want]))

    def two(self, pu, c, d, res):
        fn = getattr(pu, c["fn"])
        kp, kg = c["kp"], c["kg"]
        for save, cm, size in itertools.product(("omit", None, "given"), ("omit", "jet"), ("omit", (9, 3))):
            if kp and size != "omit":
                continue
            x, y = grid(kg)
            a, b = pair(kp, x, y)
            keep = a.copy(), b.copy()
            kw = {}
            path = "default.png"
            if save != "omit":
                path = kw["savefig_fname"] = None if save is None else os.path.join(d, "own.pdf")
            if c["diff"] != "omit":
                kw["diff_factor"] = c["diff"]
            if cm != "omit":
                kw["cmap"] = cm
            if size != "omit":
                kw["figsize"] = size
            with Recorder() as r:
                fn(a, b, "first", "second", x, y, "main title", **kw)
                res.step()
                res.trace()
                res.state(c["fn"], str(kw), kp, kg)
                figs = list({id(s["fig"]): s["fig"] for s in r.sets}.values())
                if not res.expect(len(figs) == 1 and len(r.sets) == 3, "panels", "%d figures, %d panels" % (len(figs), len(r.sets))):
                    continue
                fig = figs[0]
                sets = sorted(r.sets, key=lambda s: s["ax"].get_position().x0)
                lo, hi = min(a.min(), b.min()), max(a.max(), b.max())
                f = 0.01 if c["diff"] == "omit" else c["diff"]
                dif = np.abs(a - b)
                want = [("first", a, np.linspace(lo, hi, 31)), ("second", b, np.linspace(lo, hi, 31)),
                        (None, dif, np.linspace(0, f * max(abs(lo), abs(hi)), 31) if f else ref_levels(x, y, dif))]
                for k, (s, (ti, z, lev)) in enumerate(zip(sets, want)):
                    res.expect(same(s["z"], z), "panel-%d-field" % k, "panel %d does not show the expected field" % k)
                    res.expect(coords_ok(s, x, y), "panel-%d-coordinates" % k, "coordinates of panel %d" % k)
                    res.expect(same(s["levels"], lev), "panel-%d-levels" % k, "levels of panel %d: %s, expected %s" % (k, s["levels"][[0, -1]], lev[[0, -1]]))
                    res.expect(s["cmap"] == ("rainbow" if cm == "omit" else cm), "panel-%d-cmap" % k, "colour map %s" % s["cmap"])
                    res.expect(ti is None or s["ax"].get_title() == ti, "panel-%d-title" % k, "title %r" % s["ax"].get_title())
                res.expect(len(fig.axes) == 6, "colorbars", "%d axes" % len(fig.axes))
                res.expect("main title" in fig.get_suptitle(), "title", "title %r" % fig.get_suptitle())
                res.expect(tuple(fig.get_size_inches()) == ((15, 4) if size == "omit" else size), "size", "figure size")
                res.expect(len(r.shown) == 1 and fig in r.shown[0], "shown", "figure shown %d times" % len(r.shown))
                self.check_saved(res, r, fig, path, "two")
            res.expect(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), "mutated", "fields modified")

    def one_panel(self, res, r, x, y, z, lev, cm, key):
        figs = list({id(s["fig"]): s["fig"] for s in r.sets}.values())
        res.step()
        res.trace()
        if not res.expect(len(figs) == 1 and len(r.sets) == 1, key + "-panels", "%d figures, %d panels" % (len(figs), len(r.sets))):
            return None, None
        s = r.sets[0]
        res.expect(same(s["z"], z), key + "-field", "the plot does not show the given field")
        res.expect(coords_ok(s, x, y), key + "-coordinates", "coordinates of the plot")
        want = ref_levels(x, y, z, 30 if lev == "omit" else lev)
        res.expect(same(s["levels"], want), key + "-levels", "levels %s, expected %s" % (s["levels"], want))
        res.expect(s["cmap"] == cm, key + "-cmap", "colour map %s" % s["cmap"])
        return figs[0], s["ax"]

    def latlon(self, pu, c, d, res):
        from matplotlib.colors import to_rgba
        kg, lab = c["kg"], c["lab"]
        for save, kl, wid in list(itertools.product(("omit", None, "given"), (0, 1), ("omit", 5))) + [("omit", 2, "omit")]:
            x, y = grid(kg)
            z = pair(0, x, y)[0]
            lon, lat = np.arange(0., 361., 90.), np.arange(-60., 61., 30.)
            land = [(np.array([], int), np.array([], int)), (np.array([1, 4, 5]), np.array([2, 0, 6])), (np.array([3]), np.array([4]))][kl]
            kw = {} if c["lev"] == "omit" else dict(num_level=c["lev"])
            path = "figure.png"
            if save != "omit":
                path = kw["save_path"] = None if save is None else os.path.join(d, "map 1.b.png")
            init = dict(exclude_equator=c["eq"])
            if wid != "omit":
                init["white_space_width"] = wid
            if lab:
                init.update(x_axis_title="east", y_axis_title="north")
            with Recorder() as r:
                p = pu.LatLonMapPlotter((7, 5), "head", x, y, land[0], land[1], lon, lat, **init)
                p.plot_and_save_variable(z, "jet", "var", **kw)
                res.state("latlon", str(kw), str(init), kg, kl)
                fig, ax = self.one_panel(res, r, x, y, z, c["lev"], "jet", "latlon")
                if fig is None:
                    continue
                res.expect(ax.get_title() == "head\nvar", "latlon-title", "title %r" % ax.get_title())
                res.expect((ax.get_xlabel(), ax.get_ylabel()) == (("east", "north") if lab else ("Longitude[deg]", "Latitude[deg]")), "latlon-labels", "labels")
                eq = [ln for ln in ax.lines if np.all(np.asarray(ln.get_ydata(), float) == 0) and to_rgba(ln.get_color()) == (1., 1., 1., 1.)]
                res.expect(len(eq) == (1 if c["eq"] else 0), "latlon-equator", "%d white lines on the equator" % len(eq))
                if eq and c["eq"]:
                    res.expect(eq[0].get_linewidth() == (20 if wid == "omit" else wid), "latlon-equator", "line width %g" % eq[0].get_linewidth())
                pts = [q for q in r.points if q[0] is ax]
                px = np.concatenate([q[1] for q in pts]) if pts else np.zeros(0)
                py = np.concatenate([q[2] for q in pts]) if pts else np.zeros(0)
                res.expect(same(px, x[land[0]]) and same(py, y[land[1]]), "latlon-land", "masked points")
                res.expect(tuple(fig.get_size_inches()) == (7, 5), "latlon-size", "figure size")
                res.expect(same(ax.get_yticks(), lat), "latlon-ticks", "latitude ticks")
                res.expect(len(r.shown) == 1, "latlon-shown", "shown %d times" % len(r.shown))
                self.check_saved(res, r, fig, path, "latlon")

    def height(self, pu, c, d, res):
        from matplotlib.colors import to_rgba
        menu = [x + (0,) for x in itertools.product(("omit", 5), (False, True), ((-80, 80), (0, 60)))]
        for wid, lab, lim, ky in menu + [("omit", False, (70, -35), 0), (5, False, (-20.5, 0), 0)] + [("omit", False, (-10, 90), k) for k in (1, 2, 3)]:
            # the whole globe, one hemisphere, from north to south, an uneven band
            y = [np.linspace(-90., 90., 9), np.linspace(0., 90., 9), np.linspace(90., -90., 9), np.array([-35., -20., -5., 1., 4., 30., 41., 60., 88.])][ky]
            h = np.arange(0., 20001., 2500.)[:8]
            z = np.cos(np.deg2rad(y))[None, :] * h[:, None] - y[None, :] * 10.
            kw = {} if c["lev"] == "omit" else dict(num_level=c["lev"])
            init = dict(exclude_equator=c["eq"])
            if wid != "omit":
                init["white_space_width"] = wid
            if lab:
                init.update(x_axis_title="lat", y_axis_title="hgt")
            path = os.path.join(d, "Height 2.c.png")
            with Recorder() as r:
                p = pu.HeightLatPlotter((6, 4), "head", y, h, lim, **init)
                p.plot_and_save_variable(z, "jet", "var", path, **kw)
                res.state("height", str(kw), str(init), lim)
                fig, ax = self.one_panel(res, r, y, h, z, c["lev"], "jet", "height")
                if fig is None:
                    continue
                res.expect(ax.get_title() == "head\nvar", "height-title", "title %r" % ax.get_title())
                res.expect((ax.get_xlabel(), ax.get_ylabel()) == (("lat", "hgt") if lab else ("Latitude[deg]", "Pseudoheight[m]")), "height-labels", "labels")
                eq = [ln for ln in ax.lines if np.all(np.asarray(ln.get_xdata(), float) == 0) and to_rgba(ln.get_color()) == (1., 1., 1., 1.)]
                res.expect(len(eq) == (1 if c["eq"] else 0) and all(q.get_linewidth() == (20 if wid == "omit" else wid) for q in eq),
                           "height-equator", "%d white lines on the equator" % len(eq))
                res.expect(tuple(ax.get_xlim()) == lim, "height-xlim", "limits %s" % (ax.get_xlim(),))
                res.expect(tuple(fig.get_size_inches()) == (6, 4), "height-size", "figure size")
                self.check_saved(res, r, fig, path, "height")

    def file(self, d, lat="latitude", lon="longitude", nt=12, at=0):
        import xarray as xr
        x, y = grid(0)
        z = np.stack([pair(0, x, y)[0] * (1 + 0.3 * t) + 0.1 * t for t in range(nt)])
        path = os.path.join(d, "in_%s_%d_%d.nc" % (lat, nt, at))
        if not os.path.exists(path):
            dims = [lat, lon]
            dims.insert(at, "time")
            xr.Dataset({"w": (dims, np.moveaxis(z, 0, at)), "other": (dims, np.moveaxis(-z[:, ::-1], 0, at))},
                       {"time": np.arange(nt), lat: y, lon: x}).to_netcdf(path, engine="scipy")
        return path, x, y, z

    def snapshot(self, pu, c, d, res):
        for names, var, step, zax, at in itertools.product((None, ("lat", "lon")), ("w", "other"), ("omit",) + tuple(range(12)) + (-1,), ("omit", 1), (0, 1, 2)):
            path, x, y, z = self.file(d, *(names or ()), at=at)
            z = z if var == "w" else -z[:, ::-1]
            kw = dict(latitude_name=names[0], longitude_name=names[1]) if names else {}
            if step != "omit":
                kw["tstep"] = step
            if zax != "omit":
                kw["zonal_axis"] = zax
            with Recorder() as r:
                pu.plot_lon_lat_field(path, var, **kw)
                res.step()
                res.trace()
                res.state("snapshot", str(kw), var, at)
                if not res.expect(len(r.sets) == 1, "snapshot-panels", "%d panels" % len(r.sets)):
                    continue
                s = r.sets[0]
                res.expect(same(s["z"], z[10 if step == "omit" else step]), "snapshot-field", "time step %s of %s is not shown (time is dimension %d)" % (step, var, at))
                res.expect(coords_ok(s, x, y), "snapshot-coordinates", "coordinates")
                res.expect(len(r.shown) == 1 and not r.saved, "snapshot-shown", "shown %d times" % len(r.shown))

    def legacy(self, pu, c, d, res):
        import warnings
        from falwa.legacy.beta_version import solve_uref_both_bc
        for n, kmax in ((17, 6), (24, 5)):
            ylat = np.linspace(-90., 90., n)
            k, j = np.meshgrid(np.arange(kmax), np.arange(n), indexing="ij")
            inp = [10 * np.sin(0.2 * j + 0.3 * k) + 5, 50 * (1 + np.cos(0.4 * j - 0.2 * k)), ylat, 1e-2 * (2 + np.sin(0.3 * k + 0.1 * j)),
                   30 * np.sin(0.25 * np.arange(n)), 280. + 5 * k - 0.4 * np.abs(j - n / 2), 1e6 * np.cos(0.3 * np.arange(n)), 1e6 * np.sin(0.2 * np.arange(n) + 0.4)]
            with warnings.catch_warnings(), Recorder() as r:
                warnings.simplefilter("ignore")
                want = solve_uref_both_bc("stamp", *inp)
                res.expect(not r.sets and not r.shown, "legacy-unasked", "plots nobody asked for")
                got = solve_uref_both_bc("stamp", *inp, plot_all_ref_quan=True)
                res.step(2)
                res.trace()
                res.state("legacy", n, kmax)
                res.expect(all(np.array_equal(a, b) for a, b in zip(want, got)), "legacy-results", "plotting changes the results")
                half = (n + 1) // 2
                for a in want:
                    hit = [s for s in r.sets if same(s["z"], a[:-2, -half:]) and coords_ok(s, ylat[-half:], np.arange(kmax - 2))]
                    res.expect(len(hit) >= 1, "legacy-panel", "a result is not plotted")
                res.expect(len(r.sets) == 8 and len(r.shown) == 2, "legacy-panels", "%d panels, %d shown" % (len(r.sets), len(r.shown)))

    def draw(self, pu, d, kind, k):
        x, y = grid(0)
        a, b = pair(k % 3, x, y)
        if kind == "two":
            pu.compare_two_fields(a, b, "a%d" % k, "b", x, y, "t", savefig_fname=os.path.join(d, "S x%d" % k))
            return [a, b, np.abs(a - b)], "S x%d" % k
        if kind == "map":
            pu.compare_two_fields_on_map(a, b, "a%d" % k, "b", x, y, "t", savefig_fname=os.path.join(d, "S x%d" % k))
            return [a, b, np.abs(a - b)], "S x%d" % k
        if kind == "snapshot":
            path, _, _, z = self.file(d)
            pu.plot_lon_lat_field(path, "w", tstep=k)
            return [z[k]], None
        if kind == "latlon":
            pu.LatLonMapPlotter((7, 5), "head", x, y, np.array([1]), np.array([1]), np.arange(0., 361., 90.), np.arange(-60., 61., 30.)
                                ).plot_and_save_variable(a, "jet", "v%d" % k, save_path=os.path.join(d, "S x%d" % k))
            return [a], "S x%d" % k
        pu.HeightLatPlotter((6, 4), "head", x, y, (0, 360)).plot_and_save_variable(b, "jet", "v%d" % k, os.path.join(d, "S x%d" % k))
        return [b], "S x%d" % k

    def sequence(self, pu, c, d, res):
        for rest in itertools.product(DRAW, repeat=c["n"] - 1):
            seq = (c["first"],) + rest
            with Recorder() as r:
                seen = set()
                for k, kind in enumerate(seq):
                    before = {id(f): len(f.axes) for f in seen}
                    n, ns = len(r.sets), len(r.saved)
                    want, path = self.draw(pu, d, kind, k)
                    res.step()
                    got = r.sets[n:]
                    figs = {s["fig"] for s in got}
                    res.expect(len(figs) == 1 and not figs & seen, "own-figure", "%s after %s is drawn on %d figures, %d of them old" % (kind, seq[:k], len(figs), len(figs & seen)))
                    got.sort(key=lambda s: s["ax"].get_position().x0)
                    res.expect(len(got) == len(want) and all(same(s["z"], w) for s, w in zip(got, want)), "fields", "%s after %s shows other fields" % (kind, seq[:k]))
                    res.expect(all(len(f.axes) == before[id(f)] for f in seen), "earlier-figures", "%s changed the figure of an earlier plot" % kind)
                    sv = r.saved[ns:]
                    res.expect([os.path.basename(p) for _, p in sv] == ([] if path is None else [path]) and all(f in figs for f, _ in sv), "saved",
                               "%s after %s saved %s" % (kind, seq[:k], [p for _, p in sv]))
                    seen |= figs
                    res.state(seq[:k + 1])
                res.trace()


PROPS = [Plots()]
