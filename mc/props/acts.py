"""Complete uses of the parts of the package other than the three-dimensional analysis object, each as a short program of
calls on its own data; C32 interleaves and preempts them."""
import numpy as np
import xarray as xr
from .. import fields, pipe
from .basis2d import named

SIZES = ((7, 6), (9, 8))
LENGTH = {"barotropic_field": 3, "barotropic_field_parts": 3, "qgdataset": 4, "qgdataset22": 4}
SAME = {"a": (0, 0), "b": (1, 1), "c": (0, 2)}       # size and data of a use: "a" and "c" agree in size


def _plane(size, d, name="vort"):
    nlat, nlon = SIZES[size]
    ylat = np.linspace(-90., 90., nlat)
    f = named(nlat, nlon, name)
    f = np.roll(f, d, 1) * (1. + 0.3 * d) + (0.2 * d * np.abs(f).max() if d else 0.)
    a = 6.378e6 * (1. + 0.1 * d)
    dphi = np.pi / (nlat - 1)
    area = 2 * np.pi * a ** 2 * np.cos(np.deg2rad(ylat))[:, None] * dphi / nlon * np.ones((nlat, nlon))
    dmu = a * np.cos(np.deg2rad(ylat)) * dphi
    g = np.roll(named(nlat, nlon, "theta"), 1 + d, 1) * 1e-9 * (1 + d)
    return ylat, f, area, dmu, a, g, nlat, nlon


def _flat(r, out, name):
    if r is None:
        return
    if isinstance(r, (tuple, list)):
        for i, x in enumerate(r):
            _flat(x, out, "%s.%d" % (name, i))
    elif isinstance(r, xr.Dataset):
        for n in list(r.data_vars) + list(r.coords):
            out["%s.%s" % (name, n)] = np.array(r[n].values)
            out["%s.%s.dims" % (name, n)] = np.array([str(x) for x in r[n].dims])
        out[name + ".attrs"] = np.array(sorted("%s=%s" % kv for kv in r.attrs.items()))
    else:
        out[name] = np.array(r)


def _members(c, d):
    xlon, ylat, plev, u, v, t = pipe.data(pipe.cfg(**c))
    return xr.Dataset({n: (("time", "plev", "lat", "lon"), np.stack([x * (1. + 0.02 * d), np.roll(x, 1 + d, -1)]))
                       for n, x in (("u", u), ("v", v), ("t", t))},
                      coords={"time": [3 + d, 5 + 2 * d], "plev": plev, "lat": ylat, "lon": xlon})


def program(act, which):
    """The calls of one use, as functions without arguments in the order they are to be made; each returns what it shows."""
    import falwa.basis as basis
    import falwa.wrapper as wrapper
    import falwa.utilities as ut
    import falwa.xarrayinterface as xi
    import falwa.oopinterface as oi
    from falwa.barotropic_field import BarotropicField
    from falwa.stat_utils import calculate_covariance
    size, d = SAME[which]
    ylat, f, area, dmu, a, g, nlat, nlon = _plane(size, d)
    one = None
    if act == "eqvlat_fawa":
        one = lambda: basis.eqvlat_fawa(ylat, f, area, nlat + d, planet_radius=a, output_fawa=True)
    elif act == "eqvlat_vgrad":
        one = lambda: basis.eqvlat_vgrad(ylat, f, area, nlat + d, planet_radius=a, vgrad=g)
    elif act == "lwa":
        q = np.sort(f.mean(axis=1))
        one = lambda: basis.lwa(nlon, nlat, f, q, dmu, return_partitioned_lwa=bool(d), ncforce=g)
    elif act == "barotropic_eqlat_lwa":
        one = lambda: wrapper.barotropic_eqlat_lwa(ylat, f, area, dmu, nlat, planet_radius=a, return_partitioned_lwa=not d)
    elif act == "barotropic_input_qref":
        one = lambda: wrapper.barotropic_input_qref_to_compute_lwa(ylat, np.sort(f.mean(axis=1)), f, area, dmu, planet_radius=a)
    elif act == "eqvlat_hemispheric":
        one = lambda: wrapper.eqvlat_hemispheric(ylat, f, area, planet_radius=a)
    elif act == "eqvlat_bracket":
        one = lambda: wrapper.eqvlat_bracket_hemispheric(ylat, f, area, planet_radius=a, vgrad=g)
    elif act == "qgpv_eqlat_lwa":
        one = lambda: wrapper.qgpv_eqlat_lwa(ylat, f, area, dmu, planet_radius=a)
    elif act == "qgpv_ncforce":
        one = lambda: wrapper.qgpv_eqlat_lwa_ncforce(ylat, f, g, area, dmu, planet_radius=a)
    elif act == "qgpv_options":
        one = lambda: sorted(wrapper.qgpv_eqlat_lwa_options(ylat, f, area, dmu, vgrad=g, ncforce=2 * g, planet_radius=a).items())
    elif act == "qgpv_input_qref":
        one = lambda: wrapper.qgpv_input_qref_to_compute_lwa(ylat, np.sort(f.mean(axis=1)), f, area, dmu, planet_radius=a)
    elif act == "theta_lwa":
        th = 300. - 20. * np.sin(np.deg2rad(ylat))[:, None] ** 2 + 1e5 * f
        one = lambda: wrapper.theta_lwa(ylat, th, area, dmu, planet_radius=a)
    elif act == "static_stability":
        z = np.arange(5) * 1000. * (1 + d)
        th = np.stack([290. + 0.004 * h + 1e5 * f * (1 + h / 9e3) for h in z])
        one = lambda: ut.static_stability(z, area, th)
    elif act == "qgpv_givenvort":
        z = np.arange(5) * 1000. * (1 + d)
        th = np.stack([290. + 0.004 * h + 1e5 * f * (1 + h / 9e3) for h in z])
        av = np.stack([f * (1 + h / 2e4) for h in z])
        t0 = th.mean(axis=(1, 2))
        one = lambda: ut.compute_qgpv_givenvort(7.29e-5, nlat, nlon, 5, z, ylat, av, th, t0, t0 + 1., np.full(5, 0.004), np.full(5, 0.005))
    elif act == "operators":
        cl = np.cos(np.deg2rad(ylat))
        one = lambda: (ut.zonal_convergence(f, cl, 2 * np.pi / nlon, planet_radius=a), ut.meridional_divergence(f, cl, np.pi / (nlat - 1), planet_radius=a),
                       ut.curl_2d(f, g, cl, 2 * np.pi / nlon, np.pi / (nlat - 1), planet_radius=a)[1:-1])
    elif act == "z_derivative":
        z = np.arange(4.)
        one = lambda: ut.z_derivative_of_prod(stat_n=0.004 + z, stat_s=0.006 + z, kmax=4, equator_idx=nlat // 2 + 1, dz=500., density_decay=np.exp(-z / 7),
                                              gfunc=np.stack([f * (1 + h) for h in z]), multiplier=np.outer(np.exp(z / 7), ylat))
    elif act == "covariance":
        w = np.stack([np.roll(f, i, 0) for i in range(4)])
        one = lambda: calculate_covariance(w, np.stack([np.roll(g, i, 1) for i in range(4)]))
    elif act == "integrate_budget":
        names = ("lwa_baro", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux")
        ds = xr.Dataset({n: (("time", "lat", "lon"), np.stack([f * (i + j + 1) + i * i * g for i in range(3)])) for j, n in enumerate(names)},
                        coords={"time": np.datetime64("2001-03-04T00", "ns") + np.arange(3) * np.timedelta64(6 + d, "h"), "lat": ylat, "lon": np.arange(nlon) * 1.}, attrs={"kmax": 5 + d})
        one = lambda: xi.integrate_budget(ds)
    elif act == "hemisphere_to_globe":
        ds = xr.Dataset({"u": (("lat", "lon"), f[nlat // 2:]), "v": (("lat", "lon"), g[nlat // 2:])}, coords={"lat": ylat[nlat // 2:], "lon": np.arange(nlon) * 1.}, attrs={"k": d})
        one = lambda: xi.hemisphere_to_globe(ds)
    elif act in ("barotropic_field", "barotropic_field_parts"):
        box = {}
        parts = act.endswith("parts")

        def build():
            box["o"] = BarotropicField(np.arange(nlon) * 360. / nlon, ylat, f, n_partitions=nlat + d, planet_radius=a, return_partitioned_lwa=parts)
            return box["o"].area, box["o"].dphi
        return [build, lambda: box["o"].equivalent_latitudes, lambda: (box["o"].lwa, box["o"].equivalent_latitudes)]
    elif act in ("qgdataset", "qgdataset22"):
        box = {}
        c = {"nlat": (9, 11)[size], "nlon": (8, 6)[size], "kmax": (6, 5)[size]}
        ds = _members(c, d)
        kw = {"kmax": c["kmax"], "dz": 2000., "northern_hemisphere_results_only": bool(size)}
        cls = oi.QGFieldNHN22 if act.endswith("22") else oi.QGFieldNH18
        if act.endswith("22"):
            kw["eq_boundary_index"] = 1

        def start():
            box["o"] = xi.QGDataset(ds, qgfield=cls, qgfield_kwargs=kw)
            return box["o"].interpolate_fields()
        return [start, lambda: box["o"].compute_reference_states(), lambda: box["o"].compute_lwa_and_barotropic_fluxes(),
                lambda: (box["o"].compute_layerwise_lwa_fluxes(), box["o"].qgpv.to_dataset(name="q"))]
    return [one]


NAMES = ("eqvlat_fawa", "eqvlat_vgrad", "lwa", "barotropic_eqlat_lwa", "barotropic_input_qref", "eqvlat_hemispheric", "eqvlat_bracket", "qgpv_eqlat_lwa",
         "qgpv_ncforce", "qgpv_options", "qgpv_input_qref", "theta_lwa", "static_stability", "qgpv_givenvort", "operators", "z_derivative", "covariance",
         "integrate_budget", "hemisphere_to_globe", "barotropic_field", "barotropic_field_parts", "qgdataset", "qgdataset22")


def show(r):
    out = {}
    _flat(r, out, "result")
    return out


def whole(act, which):
    """All results of an undisturbed use."""
    return [show(call()) for call in program(act, which)]
