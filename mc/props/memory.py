"""No result depends on memory the computation does not own or has not written."""
import ctypes
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from .. import build, pipe
from .base import Prop, new
from .stages import mx, star
from . import acts

POISON_C = r"""
#include <string.h>
#include <malloc.h>
__attribute__((noinline)) int poison_stack(int byte, int mode) {
    volatile char buf[1536 * 1024];
    if (mode == 2) { volatile float *f = (volatile float *)buf; for (unsigned i = 0; i < sizeof(buf) / 4; i++) f[i] = 1.0e30f; }
    else memset((void *)buf, byte, sizeof(buf));
    __asm__ __volatile__("" ::: "memory");
    return buf[byte & 63];
}
int perturb(int byte) { return mallopt(M_PERTURB, byte); }
"""
CHECKED = ("-O1", "-fcheck=bounds,do,pointer", "-finit-real=nan", "-finit-integer=-123456", "-g0")
MODES = ["plain", "zero", "ones", "huge", "bounds"]


def dirty_numpy(mode):
    """numpy.empty and numpy.empty_like hand out memory filled with the pattern of the environment (small arrays come from
    numpy's own pool, which the allocator setting does not reach)."""
    def fill(a):
        if a.dtype.kind == "O" or not a.size:
            return a
        if mode == "huge" and a.dtype.kind in "fc":
            a[...] = 1.0e30
        else:
            np.asarray(a).view(np.ndarray)[...] = np.frombuffer(bytes([0 if mode == "zero" else 0xff]) * a.dtype.itemsize, a.dtype)[0]
        return a
    e, el = np.empty, np.empty_like

    def empty(*a, **k):
        return fill(e(*a, **k))

    def empty_like(*a, **k):
        return fill(el(*a, **k))
    np.empty, np.empty_like = empty, empty_like


def obs_kernels(res_dict, c, poison):
    """The whole pipeline; the stack is refilled before every call."""
    def p():
        if poison:
            poison()
    p()
    arrays = pipe.data(c)
    f = pipe.make(c, arrays)
    p()
    f.interpolate_fields(return_named_tuple=False)
    res_dict.update(pipe.interp_obs(f))
    p()
    f.compute_reference_states(return_named_tuple=False)
    res_dict.update(pipe.ref_obs(f))
    n = c["nlat"] + 1 if c["even"] else c["nlat"]
    kmax = arrays[2].size if c["evenly"] else c["kmax"]
    ncf = pipe.ncforce_for(c, (kmax, n, c["nlon"]))
    p()
    f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncf)
    res_dict.update({"b_" + k: v for k, v in pipe.baro_obs(f).items()})
    p()
    f.compute_layerwise_lwa_fluxes(ncforce=ncf)
    res_dict.update({"l_" + k: v for k, v in pipe.layer_obs(f).items()})
    p()
    f.compute_lwa_only()
    for k in ("lwa", "lwa_baro", "u_baro"):
        res_dict["o_" + k] = pipe.A(getattr(f, k))
    s = f.layerwise_flux_terms_storage
    res_dict["o_astar1"], res_dict["o_astar2"] = pipe.A(s.astar1), pipe.A(s.astar2)
    p()
    res_dict["heat"] = pipe.A(f.compute_ncforce_from_heating_rate(1e-6 * arrays[3]))


def obs_barotropic(d, c, poison):
    from falwa import basis, wrapper, utilities
    from falwa.barotropic_field import BarotropicField
    nlat, nlon = c["nlat"], c["nlon"]
    ylat = np.linspace(-90, 90, nlat)
    xlon = np.arange(nlon) * 360. / nlon
    clat = np.abs(np.cos(np.deg2rad(ylat)))
    dphi = np.pi / (nlat - 1)
    area = 2 * np.pi * 6.378e6 ** 2 / nlon * dphi * clat[:, None] * np.ones((nlat, nlon))
    j, i = np.meshgrid(np.arange(nlat), np.arange(nlon), indexing="ij")
    vort = 1e-4 * np.sin(np.deg2rad(ylat))[:, None] + 3e-5 * np.sin(1.7 * i + 0.9 * j)
    dmu = dphi * clat
    nc = np.cos(1.1 * i - 0.4 * j)
    S = nlat // 2 + 1

    def put(name, out):
        outs = out if isinstance(out, (tuple, list)) else (out,)
        for m, x in enumerate(outs):
            if x is not None:
                d["%s/%d" % (name, m)] = np.array(x, float)
        if poison:
            poison()
    put("eqvlat", basis.eqvlat_fawa(ylat, vort, area, nlat))
    put("vgrad", basis.eqvlat_vgrad(ylat, vort, area, nlat, vgrad=nc + 2.))
    q = basis.eqvlat_fawa(ylat, vort, area, nlat)[0]
    put("lwa", basis.lwa(nlon, nlat, vort, q, dmu, return_partitioned_lwa=True))
    put("lwanc", basis.lwa(nlon, nlat, vort, q, dmu, ncforce=nc))
    put("w1", wrapper.barotropic_eqlat_lwa(ylat, vort, area, dmu, nlat))
    put("w2", wrapper.eqvlat_hemispheric(ylat, vort, area))
    put("w3", wrapper.eqvlat_bracket_hemispheric(ylat, vort, area, vgrad=nc + 2.))
    put("w4", wrapper.qgpv_eqlat_lwa(ylat, vort, area, dmu))
    put("w5", wrapper.qgpv_eqlat_lwa_ncforce(ylat, vort, nc, area, dmu))
    put("w6", wrapper.qgpv_input_qref_to_compute_lwa(ylat, q, vort, area, dmu))
    put("w7", wrapper.theta_lwa(ylat, 300. - 20 * np.abs(vort) * 1e4, area, dmu))
    put("w8", wrapper.barotropic_input_qref_to_compute_lwa(ylat, q, vort, area, dmu))
    ot = wrapper.qgpv_eqlat_lwa_options(ylat, vort, area, dmu, vgrad=nc + 2., ncforce=nc)
    for k in sorted(ot):
        put("opt_" + k, ot[k])
    b = BarotropicField(xlon, ylat, vort)
    put("bf", (b.equivalent_latitudes, b.lwa))
    put("zc", utilities.zonal_convergence(nc, clat, 2 * np.pi / nlon))
    put("md", utilities.meridional_divergence(nc, clat, dphi))
    put("curl", utilities.curl_2d(nc, vort * 1e5, clat, 2 * np.pi / nlon, dphi))
    kmax = 5
    z = np.arange(kmax) * 1000.
    th = 280. + 4e-3 * z[:, None, None] + 5 * nc[None]
    put("ss", utilities.static_stability(z, area, th))
    t0c, t0n, st_s, st_n = (utilities.static_stability(z, area, th) + (None,) * 4)[:4]
    av = np.ones((kmax, 1, 1)) * vort[None]
    put("qg", utilities.compute_qgpv_givenvort(7.29e-5, nlat, nlon, kmax, z, ylat, av, th, t0c, t0n, st_s, st_n))
    from falwa import stat_utils
    put("cov", stat_utils.calculate_covariance(np.array([nc, nc ** 2, vort]), np.array([nc, 1 + nc, nc * vort])))


class Memory(Prop):
    id = "C36"
    title = "No result depends on memory outside the arrays or on uninitialised storage"
    technique = ("exhaustive product of configurations x memory environments: every configuration executed with the allocator and the stack filled with each "
                 "pattern and on a bounds-checked build of the kernels with poisoned locals; all outputs must agree")
    level_note = "the environment menu is {as found, 0x00, 0xff, huge floats} for heap and stack, and gfortran's checked build"
    assumptions = ("memory served by fresh system pages is zero in every environment except the checked build",)
    bound = {"quick": "2 classes x boundary rows {0,1,2} x nlat {9,11} x nlon {5,6} x even/odd x global/northern x 5 environments; 39 configurations of other sizes, planets, vertical grids and atmospheres; barotropic functions on 4 grids; 23 complete uses of the other parts of the package",
             "thorough": "2 classes x boundary rows {0..4} x nlat {9,11,13,17,21} x nlon {5,6,8,9} x kmax {4,5,7} x even/odd x global/northern x 5 environments; 115 configurations that vary one axis at a time x 2 kinds of analysis; barotropic functions on 20 grids; 23 complete uses of the other parts of the package x 3 data sets"}

    def prepare(self, repo=None):
        self.root = build.build(fflags=CHECKED, repo=repo)
        src = os.path.join(self.root, "poison.c")
        open(src, "w").write(POISON_C)
        self.lib = os.path.join(self.root, "libpoison.so")
        subprocess.run([build.CC, "-O1", "-shared", "-fPIC", src, "-o", self.lib], check=True)

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def cases(self, tier):
        t = tier != "quick"
        out = []
        for nlat in ((9, 11, 13, 17, 21) if t else (9, 11)):
            for nlon in ((5, 6, 8, 9) if t else (5, 6)):
                out.append({"kind": "barotropic", "c": {"nlat": nlat, "nlon": nlon}})
                for cls in ("NH18", "NHN22"):
                    for jb in ((0,) if cls == "NH18" else ((0, 1, 2, 3, 4) if t else (0, 1, 2))):
                        if nlat // 2 + 1 - jb < 3:
                            continue
                        for kmax in ((4, 5, 7) if t else (5,)):
                            for even, nh in itertools.product((False, True), repeat=2):
                                out.append({"kind": "pipeline", "c": pipe.cfg(cls=cls, nlat=nlat - 1 if even else nlat, nlon=nlon, kmax=kmax, even=even, nh=nh, jb=jb, field="break")})
        # other sizes, planets, vertical grids and atmospheres, each with one of the eight kinds of analysis in turn
        kinds = list(itertools.product(("NH18", "NHN22"), (False, True), (False, True)))
        n = len(star(("NH18",), (False,), (False,)))
        for i in range(n):
            for j in range(8):
                if (j - i) % 4 == 0 if t else i % 3 == 0 and j == (i // 3) % 8:
                    cls, ev, nh = kinds[j]
                    out.append({"kind": "pipeline", "c": star((cls,), (ev,), (nh,))[i]})
        for act in acts.NAMES:
            for w in sorted(acts.SAME) if t else "b":
                out.append({"kind": "use", "c": [act, w]})
        return out

    def _child(self, case, mode, tmp):
        out = os.path.join(tmp, mode)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                err = os.open(out + ".err", os.O_WRONLY | os.O_CREAT)
                os.dup2(err, 2)
                lib = ctypes.CDLL(self.lib)
                poison = None
                if mode == "bounds":
                    build.activate(self.root)
                if mode != "plain":
                    dirty_numpy(mode)
                if mode in ("zero", "ones", "huge"):
                    byte, how = {"zero": (0x100, 0), "ones": (0x100 - 0xff, 0), "huge": (0x91, 2)}[mode]
                    # M_PERTURB fills fresh blocks with the complement of the byte
                    lib.perturb(0xff if mode == "zero" else byte & 0xff)
                    fill = 0 if mode == "zero" else 0xff
                    poison = lambda: lib.poison_stack(fill, how)
                d = {}
                if case["kind"] == "pipeline":
                    obs_kernels(d, case["c"], poison)
                elif case["kind"] == "use":
                    for i, call in enumerate(acts.program(*case["c"])):
                        if poison:
                            poison()
                        d.update({"use/%d/%s" % (i, k): x.astype(float) for k, x in acts.show(call()).items() if x.dtype.kind in "fiub"})
                else:
                    obs_barotropic(d, case["c"], poison)
                with open(out, "wb") as fh:
                    pickle.dump(d, fh)
                code = 0
            except BaseException as e:   # noqa
                os.write(2, ("%s: %s" % (type(e).__name__, e)).encode())
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            msg = open(out + ".err", errors="replace").read()[-300:] if os.path.exists(out + ".err") else ""
            return None, "ended with status %s: %s" % (st, msg.replace("\n", " "))
        return pickle.load(open(out, "rb")), None

    def evaluate(self, case):
        res = new()
        tmp = tempfile.mkdtemp(prefix="mc_mem_")
        try:
            base = None
            for mode in MODES:
                d, err = self._child(case, mode, tmp)
                res.step()
                if not res.expect(err is None, "abort-" + mode, "environment %s: %s" % (mode, err)):
                    continue
                if base is None:
                    base = d
                    continue
                tol = 2e-4 if mode == "bounds" else 1e-9     # another optimisation level re-associates sums
                for n in base:
                    a, b = d.get(n), base[n]
                    res.trace()
                    if not res.expect(a is not None and a.shape == b.shape, n, "environment %s: %s" % (mode, n)):
                        continue
                    with np.errstate(all="ignore"):
                        bad = ~(np.abs(a - b) <= tol * mx(b[np.isfinite(b)])) & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
                    if mode == "bounds" and n not in ("qgpv", "u", "v", "theta", "stat", "stat_s", "stat_n"):
                        bad = np.isnan(a) != np.isnan(b)     # contour ties may fall the other way at another optimisation level
                    if bad.any():
                        w = tuple(int(x) for x in np.argwhere(bad)[0])
                        res.fail(n, "environment %s changes %s at %s: %r instead of %r" % (mode, n, w, a[w], b[w]))
                res.state(mode, repr(case))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return res


PROPS = [Memory()]
