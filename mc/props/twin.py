"""Grids without the equator: the run on the odd analysis grid with latitude-interpolated input that they must agree with."""
import numpy as np
from .. import pipe, ref, fields
from ..core import close


def shape3(c):
    xlon, ylat, plev, _ = pipe.grids(c)
    n = fields_odd(c)
    return (plev.size if c["evenly"] else c["kmax"], n, xlon.size)


def fields_odd(c):
    return c["nlat"] + 1 if c["even"] else c["nlat"]


def decided(c, q, u, v):
    """True when no bin assignment of the area analysis is left open by single precision (analysis grid, global)."""
    nlat, nlon = q.shape[1:]
    k = fields.consts(c["const"])
    a, om = k["planet_radius"], k["omega"]
    dphi, dlam, nd = np.pi / (nlat - 1), 2 * np.pi / nlon, nlat // 2 + 1
    flds = [q]
    if c["cls"] == "NHN22":
        flds.append(ref.avort_model(u, v, om, a, dlam))
    for f in flds:
        for lev in range(1, q.shape[0] - 1):
            for w in (f[lev], -f[lev][::-1]):
                cand = ref.area_profile(w, c["npart"] or nlat, a, dphi, dlam, nd)
                if cand is None or len(cand) != 1:
                    return False
    return True


GLOBAL3 = ("qgpv", "u", "v", "theta")
STATS = ("stat", "stat_s", "stat_n")


def lat_axis(name):
    return 0 if name in pipe.BARO else 1


def decided_even(c):
    odd, arrays = odd_twin(c)
    f, o = pipe.run(odd, ("interp",), arrays=arrays)
    return decided(odd, o["qgpv"], o["u"], o["v"])


def odd_state(c):
    """Outputs of the reference-state stage of the twin run."""
    odd, arrays = odd_twin(c)
    return pipe.run(odd, ("interp", "ref"), arrays=arrays)[1]


def odd_twin(c):
    """The configuration on the odd analysis grid with latitude-interpolated input (temperature via theta)."""
    xlon, ylat, plev, u, v, t = pipe.data(c)
    ana = ref.analysis_lat(ylat)
    k = fields.consts(c["const"])
    th = ref.potential_temperature(t, plev, k["dry_gas_constant"], k["cp"])
    fac = (th / t)
    iv = lambda w: ref.linear_extrap(ylat, w, ana, 1)
    tt = iv(th) / fac[:, :1, :1]
    return dict(c, even=False, nlat=ana.size), (xlon, ana, plev, iv(u), iv(v), tt)


def scale(x):
    m = np.nanmax(np.abs(x)) if np.size(x) else 0.
    return m if m > 0 else 1.


WAVE_ACTIVITY = ("lwa", "lwa_from_baro", "lwa_baro", "astar1", "astar2")


ZONAL_FLUX = ("ua1", "ua2", "adv_flux_f1", "adv_flux_f2", "flux_vector_lambda_baro")


class Judge:
    """Tolerances and exceptions when two runs of one configuration are compared (o: the outputs of the odd-grid run).

    A pixel whose potential vorticity ties with its reference value in single precision may count on either side: its
    forcing enters the forcing integral or not, while everything else is continuous there."""
    def __init__(self, c, o):
        self.c = c
        k = fields.consts(c["const"])
        q, nlat = o["qgpv"], o["qgpv"].shape[1]
        self.lwa_slack = 2e-6 * scale(q) * k["planet_radius"] * np.pi / (nlat - 1)
        # rounding of potential vorticity, carried by the wind into the zonal fluxes and their convergence
        self.flux_slack = 0.25 * self.lwa_slack * (scale(o["u"]) + (scale(o["uref"]) if "uref" in o else 0.))
        ylat = pipe.grids(c)[1]
        self.conv_slack = self.flux_slack / (k["planet_radius"] * 2 * np.pi / q.shape[2] * np.cos(np.deg2rad(ylat[np.abs(ylat) < 89.9])).min())
        # rounding of temperature: through the shear at the top into the reference wind, through layers into the stretching
        noise = 1.2e-7 * scale(o["theta"])
        dphi, h = np.pi / (nlat - 1), k["scale_height"]
        z = ref.pseudoheight(pipe.grids(c)[2], h) if c["evenly"] else c["dz"] * np.arange(c["kmax"])
        kappa = k["dry_gas_constant"] / k["cp"]
        self.wind_slack = (z[1] - z[0]) * k["dry_gas_constant"] * np.exp(-z[-2] * kappa / h) * noise / (k["omega"] * np.sin(dphi) * dphi * h * k["planet_radius"])
        stat = min(np.abs(o[n]).min() for n in ("stat", "stat_s", "stat_n") if n in o)
        self.stretch_slack = 0.5 * k["omega"] * scale(o["v"]) * noise / (stat * (z[1] - z[0]))
        if c["cls"] != "NHN22":        # an iteration stopped early leaves more of it
            self.stretch_slack *= max(1., c["tol"] / 1e-5) ** 0.75
        self.forcing = None
        if "qref" in o:
            nd = nlat // 2 + 1
            qref = o["qref"] if o["qref"].shape[1] == nlat else np.pad(o["qref"], ((0, 0), (nlat - nd, 0)), constant_values=np.inf)
            m = np.zeros(q.shape, bool)
            for half in (slice(0, nd), slice(nd - 1, None)):
                m[:, half] |= (np.abs(q[:, half, None, :] - qref[:, None, half, None]) <= 4e-6 * scale(q)).any(1)
            m[[0, -1]] = False
            self.forcing = m

    def tol(self, n, w):
        if n in ("u", "v", "theta", "u_baro"):     # double precision throughout
            return 1e-9 * scale(w)
        t = 3e-5 * scale(w) * max(1., self.c["nlat"] / 60.)      # fine rows amplify rounding of the zonal mean
        if n == "uref":
            t += self.wind_slack
        if n == "stretch_term":
            t += self.stretch_slack
        if n == "ptref":
            t += 2e-3
        return t + (self.lwa_slack if n in WAVE_ACTIVITY else self.flux_slack if n in ZONAL_FLUX else
                    self.conv_slack if n == "convergence_zonal_advective_flux" else 0.)

    def skip(self, n, even, nh):
        """Entries of the forcing that are left open, in the published orientation."""
        m = self.forcing
        if m is None or n not in ("ncforce", "ncforce_baro"):
            return False
        rows = m.shape[1]
        if n == "ncforce":
            return m[:, rows // 2:] if nh else m
        m = m.any(0)
        if even:
            if self.c.get("lat"):
                m = m | np.pad(m, ((1, 0), (0, 0)))[:-1] | np.pad(m, ((0, 1), (0, 0)))[1:]
            m = m[:-1] | m[1:]
        return m[m.shape[0] // 2:] if nh else m


def owned(c, res, names, before, stages):
    """Compare `names` of the run on the even grid with the twin run; `before` are the outputs of earlier stages: when
    those already disagree the error belongs to another property."""
    xlon, ylat, plev, u, v, t = arrays = pipe.data(c)
    odd, oarr = odd_twin(c)
    ana = oarr[1]
    ncf = pipe.ncforce_for(c, shape3(c))
    f, o = pipe.run(c, stages, arrays=arrays, ncforce=ncf, res=res)
    g, w = pipe.run(odd, stages, arrays=oarr, ncforce=ncf, res=res)
    half = c["nlat"] // 2
    user, rows = (ylat[-half:], ana[-(half + 1):]) if c["nh"] else (ylat, ana)

    def want(n):
        if n in STATS or n in pipe.STORE:
            return w[n]
        if n in GLOBAL3:
            return ref.linear_extrap(ana, w[n], ylat, 1)
        return ref.linear_extrap(rows, w[n], user, lat_axis(n))

    rule = Judge(odd, w)
    tol = lambda n: rule.tol(n, w[n])
    for n in before:
        if n in o and not (o[n].shape == want(n).shape and np.abs(o[n] - want(n)).max() <= tol(n)):
            res.note("earlier_stage_differs")
            return
    if not decided(odd, w["qgpv"], w["u"], w["v"]):
        res.note("reference_states_skipped_ambiguous")
        return
    for n in names:
        skip = rule.skip(n, True, c["nh"])
        close(res, "even-" + n, np.where(skip, 0., o[n]), np.where(skip, 0., want(n)), tol(n), n + " on the user's latitudes")
        res.trace()
        res.state(want(n))
