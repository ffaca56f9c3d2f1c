"""Optional arguments: leaving one out is passing its documented default, and arguments may be given by position (in the documented
order) or by name.  Every public callable x every subset of omitted arguments up to a size x every positional prefix."""
import contextlib
import io
import itertools
import warnings
import os
import shutil
import tempfile
import numpy as np
from .base import Prop, new
from .. import fields, pipe

R = 6.378e6


def plane(nlat=12, nlon=8):
    ylat = np.linspace(-90., 90., nlat)
    i, j = np.arange(nlon)[None, :], np.arange(nlat)[:, None]
    vort = 3. * np.sin(np.deg2rad(ylat))[:, None] + 1.2 * np.sin(1.3 * i + 0.8 * j) + 0.2 * np.cos(2.9 * i * j)
    area = 2 * np.pi * R ** 2 * np.cos(np.deg2rad(ylat))[:, None] * np.pi / (nlat - 1) / nlon * np.ones((nlat, nlon))
    dmu = R * np.cos(np.deg2rad(ylat)) * np.pi / (nlat - 1)
    other = np.cos(0.7 * i - 0.4 * j) + 0.3 * np.sin(1.1 * j)
    return ylat, vort, area, dmu, other


def observe(x):
    if x is None:
        return ["None"]
    if isinstance(x, str):
        return [x]
    if isinstance(x, dict):
        return [o for k in sorted(x) for o in [k] + observe(x[k])]
    if isinstance(x, (tuple, list)):
        return [o for y in x for o in observe(y)]
    return [np.array(x, float)]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
            continue
        if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        if not np.array_equal(np.isinf(x), np.isinf(y)):
            return False
        f = np.isfinite(x)
        if f.any() and np.max(np.abs(x[f] - y[f])) > 1e-11 * np.max(np.abs(y[f])):
            return False
    return True


class Spec:
    """required: [(name, value)]; optional: [(name, documented default, another value)], both in the documented order."""

    def __init__(self, call, required, optional, light=True):
        self.call, self.required, self.optional, self.light = call, required, optional, light


def functions():
    from falwa import basis, wrapper, utilities
    from falwa.barotropic_field import BarotropicField
    ylat, vort, area, dmu, other = plane()
    nlat, nlon = vort.shape
    qref = np.sort(vort.mean(axis=1))
    r2 = ("planet_radius", 6.378e6, 6.5e6)
    base = [("ylat", ylat), ("vort", vort), ("area", area)]
    s = {}
    s["eqvlat_fawa"] = Spec(basis.eqvlat_fawa, base + [("n_points", 9)], [r2, ("output_fawa", True, False)])
    s["eqvlat_vgrad"] = Spec(basis.eqvlat_vgrad, base + [("n_points", 9)], [r2, ("vgrad", None, other)])
    s["lwa"] = Spec(basis.lwa, [("nlon", nlon), ("nlat", nlat), ("vort", vort), ("q_part", qref), ("dmu", dmu)],
                    [("return_partitioned_lwa", False, True), ("ncforce", None, other)])
    s["barotropic_eqlat_lwa"] = Spec(wrapper.barotropic_eqlat_lwa, base + [("dmu", dmu), ("n_points", 10)], [r2, ("return_partitioned_lwa", False, True)])
    s["barotropic_eqlat_lwa/None"] = Spec(wrapper.barotropic_eqlat_lwa, base + [("dmu", dmu), ("n_points", None)], [r2, ("return_partitioned_lwa", False, True)])
    s["barotropic_input_qref"] = Spec(wrapper.barotropic_input_qref_to_compute_lwa, [("ylat", ylat), ("qref", qref), ("vort", vort), ("area", area), ("dmu", dmu)], [r2])
    for ns in (6, 5):     # n_points follows nlat_s when left out
        h = [("nlat_s", 6, 5), ("n_points", lambda kw: kw["nlat_s"], 7)]
        t = "" if ns == 6 else "/own"
        fix = [("nlat_s", 5)] if ns == 5 else []
        opt = h if ns == 6 else [("n_points", 5, 7)]

        def req(names, fix=fix):
            return names + fix
        s["eqvlat_hemispheric" + t] = Spec(wrapper.eqvlat_hemispheric, req(base), opt + [r2])
        s["eqvlat_bracket_hemispheric" + t] = Spec(wrapper.eqvlat_bracket_hemispheric, req(base), opt + [r2, ("vgrad", None, other)])
        s["qgpv_eqlat_lwa" + t] = Spec(wrapper.qgpv_eqlat_lwa, req(base + [("dmu", dmu)]), opt + [r2])
        s["qgpv_eqlat_lwa_ncforce" + t] = Spec(wrapper.qgpv_eqlat_lwa_ncforce,
                                               req([("ylat", ylat), ("vort", vort), ("ncforce", other), ("area", area), ("dmu", dmu)]), opt + [r2])
        s["qgpv_eqlat_lwa_options" + t] = Spec(wrapper.qgpv_eqlat_lwa_options, req(base + [("dmu", dmu)]),
                                               opt + [("vgrad", None, other), ("ncforce", None, other), r2])
        s["theta_lwa" + t] = Spec(wrapper.theta_lwa, req([("ylat", ylat), ("theta", vort), ("area", area), ("dmu", dmu)]), opt + [r2])
    s["qgpv_input_qref"] = Spec(wrapper.qgpv_input_qref_to_compute_lwa, [("ylat", ylat), ("qref", qref), ("vort", vort), ("area", area), ("dmu", dmu)],
                                [("nlat_s", 6, 5), r2])
    z = np.arange(7) * 1500.
    th = 290. + 0.004 * z[:, None, None] + other[None] * (1 + 0.1 * np.arange(7))[:, None, None]
    s["static_stability"] = Spec(utilities.static_stability, [("height", z), ("area", area + R ** 2 * 1e-3), ("theta", th)], [("s_et", 6, 4), ("n_et", 6, 5)])
    t0 = th.mean(axis=(1, 2))
    av = 1e-4 * vort[None] * (1 + 0.05 * np.arange(7))[:, None, None]
    s["compute_qgpv_givenvort"] = Spec(utilities.compute_qgpv_givenvort,
                                       [("omega", 7.29e-5), ("nlat", nlat), ("nlon", nlon), ("kmax", 7), ("unih", z), ("ylat", ylat), ("avort", av), ("potential_temp", th),
                                        ("t0_cn", t0), ("t0_cs", t0 + 0.3), ("stat_cn", np.gradient(t0, z)), ("stat_cs", np.gradient(t0, z) * 1.1)],
                                       [("nlat_s", 6, 5), ("scale_height", 7000., 8000.)])
    clat = np.cos(np.deg2rad(ylat))
    clat[1] = 2e-5
    clat[-2] = 0.5e-5
    dl, dp = 2 * np.pi / nlon, np.pi / (nlat - 1)
    tl = ("tol", 1e-5, 1e-4)
    s["zonal_convergence"] = Spec(utilities.zonal_convergence, [("field", vort), ("clat", clat), ("dlambda", dl)], [r2, tl])
    s["meridional_divergence"] = Spec(utilities.meridional_divergence, [("field", vort), ("clat", clat), ("dphi", dp)], [r2, tl])
    s["curl_2d"] = Spec(utilities.curl_2d, [("ufield", vort), ("vfield", other), ("clat", np.cos(np.deg2rad(ylat))), ("dlambda", dl), ("dphi", dp)], [r2])

    def baro(*a, **kw):
        f = BarotropicField(*a, **kw)
        return f.equivalent_latitudes, f.lwa, f.planet_radius, f.n_partitions, f.area, f.dphi
    xlon = np.arange(nlon) * 360. / nlon
    s["BarotropicField"] = Spec(baro, [("xlon", xlon), ("ylat", ylat), ("pv_field", vort)],
                                [("area", lambda kw: area / R ** 2 * kw.get("planet_radius", R) ** 2, area * 0.98),
                                 ("dphi", np.pi / (nlat - 1) * np.ones(nlat), 0.97 * np.pi / (nlat - 1) * np.ones(nlat)),
                                 ("n_partitions", nlat, 7), r2, ("return_partitioned_lwa", False, True)])
    # the default area is computed with the spacing in force
    s["BarotropicField"].optional[0] = ("area", lambda kw: (2 * np.pi * kw.get("planet_radius", R) ** 2 * np.cos(np.deg2rad(ylat))[:, None]
                                                            * np.asarray(kw.get("dphi", np.pi / (nlat - 1) * np.ones(nlat)))[:, None] / nlon * np.ones((nlat, nlon))), area * 0.98)

    def legacy(*a, **kw):
        from falwa.legacy.beta_version import solve_uref_both_bc
        return solve_uref_both_bc(*a, **kw)
    n, km = 13, 6
    k, j = np.meshgrid(np.arange(km), np.arange(n), indexing="ij")
    s["solve_uref_both_bc"] = Spec(legacy, [("tstamp", "now"), ("zmum", 10 * np.sin(0.2 * j + 0.3 * k) + 5), ("FAWA_cos", 50 * (1 + np.cos(0.4 * j - 0.2 * k))),
                                            ("ylat", np.linspace(-90., 90., n)), ("ephalf2", 1e-2 * (2 + np.sin(0.3 * k + 0.1 * j))), ("Delta_PT", 30 * np.sin(0.25 * np.arange(n))),
                                            ("zm_PT", 280. + 5 * k - 0.4 * np.abs(j - n / 2)), ("Input_B0", 1e6 * np.cos(0.3 * np.arange(n))), ("Input_B1", 1e6 * np.sin(0.2 * np.arange(n) + 0.4))],
                                   [("use_real_Data", True, None), ("plot_all_ref_quan", False, None)])
    return s


FIELD_NAMES = ("xlon", "ylat", "plev", "u_field", "v_field", "t_field")
ATTRS = ("kmax", "maxit", "dz", "npart", "tol", "rjac", "scale_height", "cp", "dry_gas_constant", "omega", "planet_radius",
         "northern_hemisphere_results_only", "eq_boundary_index", "nlat", "nlon")


def field_spec(cls, evenly=False):
    import falwa.oopinterface as oi
    klass = getattr(oi, cls)
    xlon, ylat = fields.lon(6), fields.odd_lat(37)
    h = 7000.
    plev = 1000. * np.exp(-np.arange(26) * 2000. / h)     # up to 50 km: the default column (49 levels of 1000 m) fits
    u, v, t = fields.atmosphere("wave", plev, ylat, xlon)
    req = list(zip(FIELD_NAMES, (xlon, ylat, plev, u, v, t)))
    # documented order; the other values shrink the column so that every setting still fits the data
    opt = [("kmax", 49, 20), ("maxit", 100000, 90000), ("dz", 1000., 990.), ("npart", 37, 31), ("tol", 1e-5, 2e-5), ("rjac", 0.95, 0.9),
           ("scale_height", 7000., 7100.), ("cp", 1004., 1010.), ("dry_gas_constant", 287., 289.), ("omega", 7.29e-5, 7.0e-5),
           ("planet_radius", 6.378e6, 6.2e6), ("northern_hemisphere_results_only", False, True)]
    if cls == "QGFieldNHN22":
        opt += [("eq_boundary_index", 5, 3), ("data_on_evenly_spaced_pseudoheight_grid", False, True)]
    else:
        opt += [("data_on_evenly_spaced_pseudoheight_grid", False, True), ("raise_error_for_nonconvergence", True, False)]

    def call(*a, **kw):
        stage = "made"
        out = []
        f = klass(*a, **kw)
        for n in ATTRS:
            out.append(np.array(float(getattr(f, n)) if hasattr(f, n) else -1.))
        try:
            f.interpolate_fields(return_named_tuple=False)
            out += list(pipe.interp_obs(f).values())
            stage = "interpolated"
            f.compute_reference_states(return_named_tuple=False)
            stage = "referenced"
            out += list(pipe.ref_obs(f).values())
            f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
            stage = "done"
            out += list(pipe.baro_obs(f).values())
        except ValueError as e:
            out.append(stage + ":" + type(e).__name__)
        return out
    s = Spec(call, req, opt, light=False)
    return s


class Defaults(Prop):
    id = "C37"
    title = "Left-out arguments take documented defaults; position and name are equivalent"
    technique = "exhaustive enumeration of argument subsets and call forms of every public callable, comparing executions of the real code"
    level_note = "each call form is executed on the real code and compared with the call that names every argument"
    assumptions = ("documented defaults are those of the docstrings and published signatures of 2.3.3",)
    bound = {"quick": "27 functions: every subset of omitted optional arguments of each of 2 base settings, every positional prefix; 3 field classes (49 levels x 37 latitudes x 6 longitudes): every single omission from 2 bases, all omitted, 5 positional prefixes; settings of objects of 64 latitude counts (5 to 721); size-following defaults of 10 functions on grids of 4-17 x 1-17 points; file slices",
             "thorough": "as quick, with all 2^14 subsets of omitted constructor arguments (from non-default settings), every pair from two other bases, and every positional prefix of the field classes"}

    def cases(self, tier):
        out = [dict(what="functions", name=n) for n in NAMES]
        for cls in ("QGFieldNH18", "QGField", "QGFieldNHN22"):
            opt = 14
            out += [dict(what="field", cls=cls, base=b, omit=[i]) for b in (0, 1) for i in range(opt)]
            out.append(dict(what="field", cls=cls, base=0, omit=list(range(opt))))
            out.append(dict(what="field", cls=cls, base=2, omit=[13]))      # an iteration that does not converge
            pre = (1, 4, 8, 13, 14) if tier == "quick" else range(1, opt + 1)
            out += [dict(what="prefix", cls=cls, k=k) for k in pre]
            if tier != "quick":
                out += [dict(what="field", cls=cls, base=b, omit=list(p)) for b in (0, 2) for p in itertools.combinations(range(opt), 2)]
                out += [dict(what="subsets", cls=cls, base=1, high=h) for h in range(128)]
        out += [dict(what="sizes", cls=cls) for cls in ("QGFieldNH18", "QGField", "QGFieldNHN22")]
        out += [dict(what="grids", nlat=n) for n in (range(4, 18) if tier == "quick" else list(range(4, 42)) + [61, 73, 91, 121])]
        out.append(dict(what="files"))
        out += [dict(what="methods", cls=c) for c in ("QGFieldNH18", "QGFieldNHN22")]
        return out

    def evaluate(self, c):
        res = new()
        getattr(self, c["what"])(c, res)
        res.sample = c
        return res

    def resolve(self, optional, base, omit):
        """(call with the arguments in `omit` left out, the same call spelled out)."""
        short, full = {}, {}
        for i, (n, d, o) in enumerate(optional):
            if i in omit:
                continue
            v = o if base and o is not None else d
            if not callable(v):
                short[n] = full[n] = v
        for i, (n, d, o) in enumerate(optional):
            if i in omit or n not in full:
                v = o if (base and o is not None and i not in omit) else d
                v = v(full) if callable(v) else v
                full[n] = v
                if i not in omit:
                    short[n] = v
        return short, full

    def functions(self, c, res):
        sp = functions()[c["name"]]
        req = dict(sp.required)
        opt = sp.optional
        for base in (0, 1):
            cache = {}
            for m in range(1, len(opt) + 1):
                for omit in itertools.combinations(range(len(opt)), m):
                    if sp.call.__name__ == "legacy" and base:
                        continue
                    short, full = self.resolve(opt, base, omit)
                    got = observe(sp.call(**req, **short))
                    key = tuple((n, full[n].tobytes() if hasattr(full[n], "tobytes") else full[n]) for n in sorted(full))
                    if key not in cache:
                        cache[key] = observe(sp.call(**req, **full))
                    want = cache[key]
                    res.step(2)
                    res.trace()
                    res.state(c["name"], base, omit)
                    res.expect(same(got, want), "%s:default:%s" % (c["name"], [opt[i][0] for i in omit]),
                               "%s without %s differs from passing the documented defaults" % (c["name"], [opt[i][0] for i in omit]))
            # positional forms
            short, full = self.resolve(opt, base, ())
            names = [n for n, _ in sp.required if n in req] + [n for n, _, _ in opt]
            allv = dict(req, **full)
            want = observe(sp.call(**allv))
            for k in range(1, len(names) + 1):
                got = observe(sp.call(*[allv[n] for n in names[:k]], **{n: allv[n] for n in names[k:]}))
                res.step(2)
                res.trace()
                res.state(c["name"], base, "prefix", k)
                res.expect(same(got, want), "%s:position:%s" % (c["name"], names[k - 1]), "%s with the first %d arguments by position differs from naming them" % (c["name"], k))

    def one(self, call, a, kw):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return call(*a, **kw)
            except (ValueError, TypeError) as e:
                return ["refused:" + type(e).__name__]

    def field(self, c, res):
        sp = field_spec(c["cls"])
        short, full = self.resolve(sp.optional, int(c["base"] == 1), c["omit"])
        if c["base"] == 2:
            short["maxit"] = full["maxit"] = 20
        if c["base"] == 1 and len(c["omit"]) < 14 and not set(c["omit"]) & {i for i, o in enumerate(sp.optional) if o[0].startswith("data_on")}:
            # two variants: data on their own levels (other settings of the column matter), and evenly spaced data
            short["data_on_evenly_spaced_pseudoheight_grid"] = full["data_on_evenly_spaced_pseudoheight_grid"] = False
        got = self.one(sp.call, (), dict(sp.required, **short))
        want = self.one(sp.call, (), dict(sp.required, **full))
        res.step(8)
        res.trace()
        res.state(c["cls"], c["base"], c["omit"])
        res.note("refused", int(len(want) == 1))
        res.note("stopped", int(isinstance(want[-1], str)))
        if len(got) > 1:       # the settings the object holds are those given or, left out, documented
            for n, g in zip(ATTRS, got):
                res.expect(n not in full or float(g) in (-1., float(full[n])), "%s:setting:%s" % (c["cls"], n),
                           "%s holds %s = %s, expected %s" % (c["cls"], n, g, full.get(n)))
        res.expect(same(got, want), "%s:default:%s" % (c["cls"], [sp.optional[i][0] for i in c["omit"]]),
                   "%s without %s differs from passing the documented defaults" % (c["cls"], [sp.optional[i][0] for i in c["omit"]]))

    def sizes(self, c, res):
        """Defaults on every size of grid: the settings held by objects of all sizes, other settings given or not."""
        import falwa.oopinterface as oi
        plev = 1000. * np.exp(-np.arange(14) * 4000. / 7000.)
        for nlat in sorted(set(range(5, 42)) | {45, 46, 60, 61, 64, 72, 73, 90, 91, 94, 96, 120, 121, 128, 144, 145, 160, 161, 180, 181, 192, 241, 256, 257, 320, 361, 721}):
            ylat = fields.odd_lat(nlat) if nlat % 2 else fields.even_lat(nlat)
            for nlon in ((4, 7, 360) if nlat == 37 else (4,)):
                z = np.zeros((plev.size, nlat, nlon))
                for given in ({}, dict(maxit=777), dict(tol=3e-4, rjac=0.8), dict(dz=500.), dict(omega=1e-4, planet_radius=3e6), dict(northern_hemisphere_results_only=True)):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        f = getattr(oi, c["cls"])(fields.lon(nlon), ylat, plev, z, z, z + 250., **given)
                    want = dict(dict(kmax=49, maxit=100000, dz=1000., tol=1e-5, rjac=0.95, scale_height=7000., cp=1004., dry_gas_constant=287., omega=7.29e-5,
                                     planet_radius=6.378e6, northern_hemisphere_results_only=False, eq_boundary_index=5 if c["cls"].endswith("22") else 0), **given)
                    res.step()
                    res.trace()
                    res.state(c["cls"], nlat, nlon, tuple(given))
                    for n, w in want.items():
                        g = float(getattr(f, n))
                        res.expect(g == float(w), "%s:setting:%s" % (c["cls"], n), "%d latitudes, given %s: %s = %s, expected %s" % (nlat, given, n, g, w))
                    # as many partitions as latitudes: those given, or those of the analysis
                    res.expect(f.npart in (nlat, nlat + 1 - nlat % 2), "%s:setting:npart" % c["cls"], "%d latitudes: %s partitions" % (nlat, f.npart))

    def grids(self, c, res):
        """Defaults that follow the size of the grid: left out, or spelled out, on every small grid."""
        from falwa import basis, wrapper, utilities
        nlat = c["nlat"]
        for nlon in (1, 2, 3, 4, 5, 7, nlat):
            ylat, vort, area, dmu, other = plane(nlat, nlon)
            half, r = nlat // 2, 6.378e6
            z = np.arange(4) * 1500.
            th = 290. + 0.004 * z[:, None, None] + other[None] * (1 + 0.1 * np.arange(4))[:, None, None]
            t0, av = th.mean(axis=(1, 2)), 1e-4 * vort[None] * (1 + 0.05 * np.arange(4))[:, None, None]
            b, d = (ylat, vort, area), (ylat, vort, area, dmu)
            hemi = dict(nlat_s=half, n_points=half, planet_radius=r)
            calls = [
                (wrapper.barotropic_eqlat_lwa, d + (None,), dict(planet_radius=r), None),
                (wrapper.barotropic_eqlat_lwa, d + (nlat,), dict(planet_radius=r), "of one partition per latitude"),
                (wrapper.eqvlat_hemispheric, b, hemi, None), (wrapper.eqvlat_bracket_hemispheric, b, dict(hemi, vgrad=None), None),
                (wrapper.qgpv_eqlat_lwa, d, hemi, None), (wrapper.qgpv_eqlat_lwa_options, d, dict(hemi, vgrad=None, ncforce=None), None),
                (wrapper.qgpv_eqlat_lwa_ncforce, (ylat, vort, other, area, dmu), hemi, None), (wrapper.theta_lwa, d, hemi, None),
                (wrapper.qgpv_input_qref_to_compute_lwa, (ylat, np.sort(vort.mean(1)), vort, area, dmu), dict(nlat_s=half, planet_radius=r), None),
                (utilities.static_stability, (z, area + 1., th), dict(s_et=half, n_et=half), None),
                (utilities.compute_qgpv_givenvort, (7.29e-5, nlat, nlon, 4, z, ylat, av, th, t0, t0 + 0.3, np.gradient(t0, z), np.gradient(t0, z) * 1.1),
                 dict(nlat_s=half, scale_height=7000.), None),
            ]
            first = None
            for fn, args, full, alias in calls:
                want = self.one(fn, args, full)
                for m in range(len(full) + 1):
                    for omit in itertools.combinations(full, m):
                        got = self.one(fn, args, {n: v for n, v in full.items() if n not in omit})
                        res.step()
                        res.trace()
                        res.state(fn.__name__, nlat, nlon, omit)
                        res.expect(same(observe(got), observe(want)), "%s:grid" % fn.__name__,
                                   "%s on %d x %d without %s differs from passing the documented defaults" % (fn.__name__, nlat, nlon, list(omit)))
                if fn is wrapper.barotropic_eqlat_lwa:
                    first = first or want
                    res.expect(same(observe(first), observe(want)), "barotropic_eqlat_lwa:points", "%d x %d: no number of points is not one per latitude" % (nlat, nlon))

    def subsets(self, c, res):
        for low in range(128):
            bits = c["high"] * 128 + low
            if bits:
                self.field(dict(cls=c["cls"], base=1, omit=[i for i in range(14) if bits >> i & 1]), res)

    def prefix(self, c, res):
        sp = field_spec(c["cls"])
        for even in (False, True):
            _, full = self.resolve(sp.optional, 1, ())
            full["data_on_evenly_spaced_pseudoheight_grid"] = even
            names = [n for n, _ in sp.required] + [n for n, _, _ in sp.optional]
            allv = dict(sp.required, **full)
            k = len(sp.required) + c["k"]
            want = self.one(sp.call, (), allv)
            got = self.one(sp.call, [allv[n] for n in names[:k]], {n: allv[n] for n in names[k:]})
            res.step(8)
            res.trace()
            res.state(c["cls"], "prefix", k, even)
            res.note("refused", int(len(want) == 1))
            res.expect(same(got, want), "%s:position:%s" % (c["cls"], names[k - 1]), "%s with %d arguments by position differs from naming them" % (c["cls"], k))

    def methods(self, c, res):
        """Method options: named tuples are returned unless refused, and asking for them changes nothing."""
        cf = pipe.cfg(cls="NH18" if c["cls"].endswith("18") else "NHN22", nlat=13)
        nc = pipe.ncforce_for(cf, (cf["kmax"], cf["nlat"], cf["nlon"]))
        base = None
        for flags in itertools.product(("omit", True, False, "pos"), repeat=3):
            for force in ("omit", None, "given"):
                f = pipe.make(cf)
                steps = [(f.interpolate_fields, flags[0], {}), (f.compute_reference_states, flags[1], {}),
                         (f.compute_lwa_and_barotropic_fluxes, flags[2], {} if force == "omit" else dict(ncforce=None if force is None else nc))]
                for fn, fl, kw in steps:
                    out = fn(**kw) if fl == "omit" else fn(False, **kw) if fl == "pos" else fn(return_named_tuple=fl, **kw)
                    res.step()
                    res.expect((out is not None) == (fl in ("omit", True)), "returned:" + fn.__name__, "%s returns %s with return_named_tuple %s" % (fn.__name__, type(out), fl))
                o = list(pipe.ref_obs(f).values()) + list(pipe.interp_obs(f).values()) + [v for n, v in pipe.baro_obs(f).items() if n != "ncforce_baro"]
                base = base or o
                res.trace()
                res.state(c["cls"], flags, force)
                res.expect(same(o, base), "options", "results differ with options %s %s" % (flags, force))
                g = np.asarray(f.ncforce_baro, float)
                res.expect(np.any(g != 0) == (force == "given"), "forcing", "column forcing with ncforce %s" % force)

    def files(self, c, res):
        import xarray as xr
        from falwa import netcdf_utils as m
        d = tempfile.mkdtemp(prefix="mcfile")
        try:
            x = np.arange(5.)
            for dims in (("time", "x"), ("x", "time"), ("lev", "time", "x")):
                shape = [dict(time=4, x=5, lev=2)[n] for n in dims]
                ds = xr.Dataset({"a": (dims, np.arange(np.prod(shape), dtype=float).reshape(shape) ** 1.1, {"units": "m"}), "b": (("x",), x ** 2)},
                                {"time": np.arange(4) * 6, "x": x})
                src = os.path.join(d, "in.nc")
                ds.to_netcdf(src, engine="scipy")
                for ts in ("omit", [0], [2], [3, 1], [], [0, 1, 2, 3], [-1]):
                    dst = os.path.join(d, "out.nc")
                    with contextlib.redirect_stdout(io.StringIO()):
                        m.extract_one_timeslice(src, dst) if ts == "omit" else m.extract_one_timeslice(src, dst, timeslice=ts)
                    res.step()
                    res.trace()
                    res.state(dims, str(ts))
                    with xr.open_dataset(dst) as got:
                        want = ds.isel(time=[0] if ts == "omit" else ts)
                        res.expect(got.load().equals(want) and got["a"].attrs == want["a"].attrs, "slice", "slices %s of %s" % (ts, dims))
                    with xr.open_dataset(src) as again:
                        res.expect(again.load().equals(ds), "source", "the source file changed")
                    os.unlink(dst)
                os.unlink(src)
        finally:
            shutil.rmtree(d, ignore_errors=True)


NAMES = ["eqvlat_fawa", "eqvlat_vgrad", "lwa", "barotropic_eqlat_lwa", "barotropic_eqlat_lwa/None", "barotropic_input_qref"] + [
    n + t for n in ("eqvlat_hemispheric", "eqvlat_bracket_hemispheric", "qgpv_eqlat_lwa", "qgpv_eqlat_lwa_ncforce", "qgpv_eqlat_lwa_options", "theta_lwa")
    for t in ("", "/own")] + ["qgpv_input_qref", "static_stability", "compute_qgpv_givenvort", "zonal_convergence", "meridional_divergence", "curl_2d",
                              "BarotropicField", "solve_uref_both_bc"]
PROPS = [Defaults()]
