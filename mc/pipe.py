"""Runs the implementation through its public API for one configuration and collects what a user can observe."""
import functools
import json
import numpy as np
from . import fields


def cfg(**kw):
    d = dict(cls="NH18", nlat=9, nlon=8, plev="std", kmax=6, dz=2000., even=False, evenly=False, nh=False, jb=1,
             npart=None, const="earth", field="wave", maxit=100000, tol=1e-5, rjac=0.95)
    d.update(kw)
    if d["kmax"] >= 12 and "tol" not in kw:
        d["tol"] = 3e-5    # the default sits at the single-precision floor of the iteration on such columns
    return d


def lowest(c):
    """Pseudoheight of the lowest analysis level: `evenly` is False, True (from the ground up) or that height."""
    return 0. if isinstance(c["evenly"], bool) else float(c["evenly"])


def grids(c):
    k = fields.consts(c["const"])
    ylat = fields.even_lat(c["nlat"], c.get("lat")) if c["even"] else fields.odd_lat(c["nlat"])
    xlon = fields.lon(c["nlon"])
    plev = fields.evenly_plev(c["kmax"], c["dz"], k["scale_height"], lowest(c)) if c["evenly"] else fields.PLEVS[c["plev"]]
    return xlon, ylat, plev, k


def data(c):
    xlon, ylat, plev, k = grids(c)
    u, v, t = fields.atmosphere(c["field"], plev, ylat, xlon, k["scale_height"], k["dry_gas_constant"], k["cp"])
    return xlon, ylat, plev, u, v, t


def klass(c):
    import falwa.oopinterface as oi
    return {"NH18": oi.QGFieldNH18, "NHN22": oi.QGFieldNHN22, "QGField": oi.QGField}[c["cls"]]


def kwargs(c):
    k = fields.consts(c["const"])
    kw = dict(kmax=c["kmax"], maxit=c["maxit"], dz=c["dz"], npart=c["npart"], tol=c["tol"], rjac=c["rjac"],
              northern_hemisphere_results_only=c["nh"], data_on_evenly_spaced_pseudoheight_grid=bool(c["evenly"]))
    if not isinstance(c["evenly"], bool):
        del kw["dz"], kw["kmax"]          # both follow from the data
    if c["const"] != "earth":
        kw.update(k)
    if c["cls"] == "NHN22":
        kw["eq_boundary_index"] = c["jb"]
    return kw


def make(c, arrays=None, **over):
    xlon, ylat, plev, u, v, t = arrays if arrays is not None else data(c)
    kw = kwargs(c)
    kw.update(over)
    return klass(c)(xlon, ylat, plev, u, v, t, **kw)


BARO = ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
        "meridional_heat_flux", "flux_vector_lambda_baro", "flux_vector_phi_baro", "lwa_baro", "u_baro", "ncforce_baro"]
LAYER = ["ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term", "lwa"]
STORE = ["astar1", "astar2", "ncforce"]


def A(x):
    return np.array(x, dtype=float)


def interp_obs(f):
    st = f.static_stability
    o = {"qgpv": A(f.qgpv), "u": A(f.interpolated_u), "v": A(f.interpolated_v), "theta": A(f.interpolated_theta)}
    if isinstance(st, tuple):
        o["stat_s"], o["stat_n"] = A(st[0]), A(st[1])
    else:
        o["stat"] = A(st)
    return o


def ref_obs(f):
    return {"qref": A(f.qref), "uref": A(f.uref), "ptref": A(f.ptref)}


def baro_obs(f):
    return {n: A(getattr(f, n)) for n in BARO + ["lwa"]}


def layer_obs(f):
    o = {n: A(getattr(f, n)) for n in LAYER}
    s = f.layerwise_flux_terms_storage
    for n in STORE:
        o[n] = np.swapaxes(A(getattr(s, n)), 0, 2)   # analysis grid, python order
    return o


def ncforce_for(c, shape):
    """A deterministic non-conservative forcing on the regular grid."""
    k, j, i = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
    return 1e-10 * (np.sin(1.3 * i + 0.7 * j + 0.4 * k + 0.2) + 0.3 * np.cos(2.1 * j - 0.6 * i))


def run(c, stages=("interp", "ref", "baro", "layer"), arrays=None, ncforce=None, res=None, **over):
    """Full pipeline in the documented order; returns (field, observations)."""
    f = make(c, arrays, **over)
    o = {}
    n = 1
    if "interp" in stages:
        f.interpolate_fields(return_named_tuple=False)
        n += 1
        o.update(interp_obs(f))
    if "ref" in stages:
        f.compute_reference_states(return_named_tuple=False)
        n += 1
        o.update(ref_obs(f))
    if "baro" in stages:
        f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncforce)
        n += 1
        b = baro_obs(f)
        o["lwa_from_baro"] = b.pop("lwa")
        o.update(b)
    if "layer" in stages:
        f.compute_layerwise_lwa_fluxes(ncforce=ncforce)
        n += 1
        o.update(layer_obs(f))
    if res is not None:
        res.step(n)
    return f, o


def product(**axes):
    """Every combination of the given axis values, as configurations."""
    import itertools
    names = list(axes)
    for vals in itertools.product(*[axes[n] for n in names]):
        d = dict(zip(names, vals))
        if d.get("cls", "NH18") != "NHN22" and "jb" in d:
            if d["jb"] != axes["jb"][0]:
                continue
            d["jb"] = 0
        yield cfg(**d)


def key(c):
    return json.dumps(c, sort_keys=True)
