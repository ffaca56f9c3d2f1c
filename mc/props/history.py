"""Histories: every reachable state of one analysis object under any sequence of public calls, non-convergence, and
interleavings of independent analyses (operation level and source-line level)."""
import copy
import itertools
import math
import os
import pickle
import sys
import tempfile
import threading
import warnings
import numpy as np
from .. import pipe, fields
from ..core import close, raises
from .base import Prop, new
from .stages import mx, star
from . import acts

RT = 1e-6       # the same computation repeated; leaves room for re-association only


def snap(x, seen=None, depth=0):
    """Recursive dump of the complete mutable state of an object (sound key for merging states: everything that a
    later call can read is included)."""
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (int, float, bool, str, bytes, type(None), np.generic)):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return tuple(snap(y, seen, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple((str(k), snap(x[k], seen, depth + 1)) for k in sorted(x, key=str))
    if id(x) in seen or depth > 8:
        return "..."
    seen.add(id(x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, snap(vars(x), seen, depth + 1))
    return type(x).__name__


def observe(f):
    """Everything readable; a getter that refuses is recorded as None."""
    o = {}
    for n, fn in (("interp", pipe.interp_obs), ("ref", pipe.ref_obs), ("baro", pipe.baro_obs), ("layer", pipe.layer_obs)):
        try:
            o.update(fn(f))
        except Exception:   # noqa
            o[n] = None
    return o


ATTR = {"u": "interpolated_u", "v": "interpolated_v", "theta": "interpolated_theta"}


def held(f, names):
    """The very arrays the attributes hand out, with their values."""
    out = {}
    for n in names:
        if n in pipe.STORE or n in ("stat", "stat_s", "stat_n"):
            continue
        try:
            x = getattr(f, ATTR.get(n, n))
        except Exception:   # noqa
            continue
        out[n] = (x, np.array(x))
    return out


INTERP = ("qgpv", "u", "v", "theta", "stat", "stat_s", "stat_n")
REF = ("qref", "uref", "ptref")
LWA = ("lwa", "lwa_baro", "u_baro")
BARO_ONLY = tuple(n for n in pipe.BARO if n not in LWA)
LAYER_ONLY = tuple(n for n in pipe.LAYER + pipe.STORE if n not in LWA)
WRITES = {"I": INTERP, "R": REF, "B": BARO_ONLY + LWA, "F": BARO_ONLY + LWA, "L": LAYER_ONLY + ("lwa",), "M": LAYER_ONLY + ("lwa",),
          "G": BARO_ONLY + LWA, "N": LAYER_ONLY + ("lwa",),
          "O": LWA + ("astar1", "astar2"), "H": (), "T": INTERP + REF + BARO_ONLY + LWA}
NEEDS = {"I": None, "R": "I", "B": "R", "F": "R", "L": "R", "M": "R", "O": "R", "H": "I", "T": None, "G": "R", "N": "R"}


def apply_op(f, op, c, ncf=None, heat=None):
    if op == "I":
        f.interpolate_fields(return_named_tuple=False)
    elif op == "R":
        f.compute_reference_states(return_named_tuple=False)
    elif op == "B":
        f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    elif op == "F":
        f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncf)
    elif op == "L":
        f.compute_layerwise_lwa_fluxes()
    elif op == "M":
        f.compute_layerwise_lwa_fluxes(ncforce=ncf)
    elif op == "G":         # another forcing
        f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=other(ncf))
    elif op == "N":
        f.compute_layerwise_lwa_fluxes(ncforce=other(ncf))
    elif op == "O":
        f.compute_lwa_only()
    elif op == "H":
        return f.compute_ncforce_from_heating_rate(heat)
    else:
        raise KeyError(op)


def other(ncf):
    return -0.4 * ncf[:, :, ::-1] + 0.1 * np.abs(ncf).max()


def setup(c):
    arrays = pipe.data(c)
    n = c["nlat"] + 1 if c["even"] else c["nlat"]
    kmax = arrays[2].size if c["evenly"] else c["kmax"]
    ncf = pipe.ncforce_for(c, (kmax, n, c["nlon"]))
    heat = 1e-5 * (arrays[3] / 30. + np.cos(arrays[5]))
    return arrays, ncf, heat


def canonical(c, ops="BFLMO"):
    """Observations of the minimal history of each operation: I, R, op."""
    arrays, ncf, heat = setup(c)
    can = {}
    for op in ops:
        f = pipe.make(c, arrays)
        apply_op(f, "I", c)
        can["I"] = pipe.interp_obs(f)
        if op == "H":
            can["H"] = apply_op(f, "H", c, ncf, heat)
            continue
        apply_op(f, "R", c)
        can["R"] = pipe.ref_obs(f)
        apply_op(f, op, c, ncf)
        can[op] = observe(f)
    return can


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(a - b) <= RT * mx(b)) & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
    return not bad.any()


TUPLES = (("interpolate_fields", ("qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability"),
           ("QGPV", "U", "V", "Theta", "Static_stability")),
          ("compute_reference_states", ("qref", "uref", "ptref"), ("Qref", "Uref", "PTref")),
          ("compute_lwa_and_barotropic_fluxes",
           ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
            "meridional_heat_flux", "lwa_baro", "u_baro", "lwa"), None))


def named_tuples(res, c, arrays):
    """The named tuple each call returns carries the values of the attributes, in the documented order and under the documented names."""
    f = pipe.make(c, arrays)
    for meth, attrs, names in TUPLES + TUPLES[::-1] + TUPLES[1:]:        # also when it repeats an earlier call
        tup = getattr(f, meth)()
        res.step()
        names = names or attrs
        if not res.expect(tup is not None and len(tup) == len(attrs), "tuple", "%s returns %s" % (meth, "None" if tup is None else "%d values" % len(tup))):
            continue
        for i, (a, n) in enumerate(zip(attrs, names)):
            want = getattr(f, a)
            for got, how in ((tup[i], "position %d" % i), (getattr(tup, n, None), "name %s" % n)):
                if a == "static_stability":
                    if isinstance(got, tuple) and not isinstance(want, tuple):
                        got = got[1]      # (south, north): the attribute is the northern profile of northern-only objects
                    got, want2 = np.asarray(got), np.asarray(want)
                else:
                    want2 = want
                res.expect(got is not None and same(got, want2), "tuple", "%s: %s differs from the attribute %s" % (meth, how, a))


def package():
    import falwa
    return os.path.dirname(os.path.abspath(falwa.__file__))


def drive(call, hook):
    """Run the call, announcing every source line of the package before it is executed."""
    n, pkg = [0], package()

    def local(frame, event, arg):
        if event == "line":
            i = n[0]
            n[0] += 1
            hook(i, frame)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(pkg):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        call()
    finally:
        sys.settrace(old)
    return n[0]


def first(pts):
    """Positions at which each scheduling point occurs for the first time."""
    seen, out = set(), []
    for i, x in enumerate(pts):
        if x not in seen:
            seen.add(x)
            out.append(i)
    return out


class Interrupted(BaseException):
    """What ends a call part-way: not an error of the code under test."""


def malformed(ncf, heat):
    """Calls that cannot be carried out, whatever came before."""
    for n, f in (("one more level", lambda x: np.concatenate([x, x[:1]])), ("one longitude less", lambda x: x[:, :, 1:]), ("axes reversed", lambda x: np.swapaxes(x, 0, 2)),
                 ("two dimensions", lambda x: x[0]), ("text", lambda x: np.full(x.shape, "x"))):
        yield "fluxes, forcing with " + n, lambda g, f=f: g.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=f(ncf))
        yield "layerwise, forcing with " + n, lambda g, f=f: g.compute_layerwise_lwa_fluxes(ncforce=f(ncf))
        yield "heating with " + n, lambda g, f=f: g.compute_ncforce_from_heating_rate(f(heat))


def stop(call, k):
    """Run the call up to its point k and end it there; False if it does not come so far."""
    def hook(i, frame):
        if i == k:
            raise Interrupted()
    try:
        drive(call, hook)
    except Interrupted:
        return True
    return False


def stopped_use(res, act, which, part=0, parts=1):
    """A use whose calls end part-way, each at every source line it executes, and are then repeated on the same object."""
    want = acts.whole(act, which)
    for at in range(acts.LENGTH.get(act, 1)):
        for _ in range(2):
            points = []
            prog = acts.program(act, which)
            for call in prog[:at]:
                call()
            drive(prog[at], lambda i, fr: points.append((os.path.basename(fr.f_code.co_filename), fr.f_lineno)))
        for k in first(points)[part::parts]:
            prog = acts.program(act, which)
            got = [call() for call in prog[:at]]
            if not stop(prog[at], k):
                res.note("points_not_reached")
            got = [acts.show(r) for r in got + [call() for call in prog[at:]]]
            res.step(2)
            res.trace()
            res.state(act, which, at, k, "stop")
            for i, (g, w) in enumerate(zip(got, want)):
                for n in w:
                    ok = n in g and (same(g[n], w[n]) if w[n].dtype.kind in "fci" else np.array_equal(g[n], w[n]))
                    res.expect(ok, "stopped-" + act, "call %d stopped at %s:%d and repeated: %s of call %d differs from the undisturbed run" % (at, *points[k], n, i))
            if len(res.fails) > 3:
                return


class StateMachine(Prop):
    id = "C26"
    title = "After any history of calls each result is what the last defining call gives"
    technique = ("explicit-state search to closure: every public call applied in every reachable state of the real object (complete "
                 "concrete state as key), compared with a history model")
    level_note = ("the search ends when no call leads to a new concrete state, so within one configuration the histories are unbounded in length; "
                  "configurations are a finite list")
    assumptions = ("values compared with the minimal history interpolate, reference states, call (their correctness is decided by C11-C22)",)
    bound = {"quick": "closure of {interpolate, reference states, fluxes without and with two forcings, layerwise likewise, LWA only, heating-rate forcing} "
                      "for 8 configurations and 13 of other sizes, planets, vertical grids and atmospheres; refused calls with 15 kinds of malformed arguments; each of 6 calls stopped at every source line and repeated at once or after the others, 2 configurations", "thorough": "the same closure for 40 configurations and 115 that vary one axis at a time; malformed arguments; each of 6 calls stopped at the first and last passage of every source line and repeated at once and after the others, 6 configurations"}

    def cases(self, tier):
        out = []
        for cls in ("NH18", "NHN22"):
            for nh in (False, True):
                for even in (False, True):
                    for nlat, nlon in (((11, 6),) if tier == "quick" else ((9, 6), (11, 8), (13, 7))):
                        for fld in (("wave",) if tier == "quick" else ("wave", "rough")):
                            out.append(pipe.cfg(cls=cls, nlat=nlat - 1 if even else nlat, nlon=nlon, even=even, nh=nh, field=fld, kmax=5,
                                                jb=1 if cls == "NHN22" else 0))
        if tier != "quick":
            out += [pipe.cfg(cls=cls, nlat=11, nlon=6, evenly=True, kmax=6, jb=jb) for cls, jb in (("NH18", 0), ("NHN22", 0), ("NHN22", 2), ("QGField", 0))]
            out += [pipe.cfg(cls=cls, nlat=11, nlon=6, const="alt", nh=nh, kmax=6, jb=jb) for cls, jb in (("NH18", 0), ("NHN22", 2)) for nh in (False, True)]
        # sizes, planets, vertical grids and atmospheres, each with one of the eight kinds of analysis in turn
        kinds = list(itertools.product(("NH18", "NHN22"), (False, True), (False, True)))
        n = len(star(("NH18",), (False,), (False,)))
        for i in range(n):
            for j in range(8):
                if (j - i) % 8 == 0 if tier != "quick" else i % 9 == 1 and j == (i // 9) % 8:
                    cls, ev, nh = kinds[j]
                    out.append(star((cls,), (ev,), (nh,))[i])
        # every call stopped at every source line, then repeated
        for c in [pipe.cfg(cls="NH18", nlat=10, nlon=6, even=True, kmax=5), pipe.cfg(cls="NHN22", nlat=11, nlon=6, kmax=5, jb=1)] + (
                [] if tier == "quick" else [pipe.cfg(cls="NH18", nlat=11, nlon=6, nh=True, kmax=5), pipe.cfg(cls="NHN22", nlat=10, nlon=6, even=True, nh=True, kmax=5, jb=2),
                                            pipe.cfg(cls="NH18", nlat=11, nlon=6, evenly=True, kmax=6), pipe.cfg(cls="NHN22", nlat=12, nlon=7, even=True, kmax=6, jb=0, const="alt")]):
            for op in self.CHAIN:
                for part in range(4):
                    out.append(dict(c, stop=op, part=part, deep=tier != "quick"))
        return out

    CHAIN = "IRHFMO"

    def stopped(self, c, res):
        """One call ends part-way (interrupt, memory error); it is then repeated, at once or after calls that do not depend on it."""
        op, part, deep = c["stop"], c["part"], c["deep"]
        c = {k: x for k, x in c.items() if k not in ("stop", "part", "deep")}
        arrays, ncf, heat = setup(c)
        at = self.CHAIN.index(op)
        start = pipe.make(c, arrays)
        for o in self.CHAIN[:at]:
            apply_op(start, o, c, ncf, heat)
        rest = self.CHAIN[at + 1:] if at < 2 else "".join(o for o in self.CHAIN[2:] if o != op)

        def run(f, ops, out):
            for o in ops:
                r = apply_op(f, o, c, ncf, heat)
                if r is not None:
                    out["heating"] = r
            out.update(observe(f))
            return out
        want = run(copy.deepcopy(start), op + rest, {})
        for _ in range(2):      # the first run may fill caches of the code under test
            points = []
            drive(lambda f=copy.deepcopy(start): apply_op(f, op, c, ncf, heat), lambda i, fr: points.append((os.path.basename(fr.f_code.co_filename), fr.f_lineno)))
        last = [len(points) - 1 - i for i in first(points[::-1])] if deep else []
        for n, k in enumerate(sorted(set(first(points) + last))):
            if n % 4 != part:
                continue
            for late in (0, 1) if at >= 2 and deep else (n // 4 % 2 if at >= 2 else 0,):
                f = copy.deepcopy(start)
                if not stop(lambda: apply_op(f, op, c, ncf, heat), k):
                    res.note("points_not_reached")
                got = run(f, rest + op if late else op + rest, {})
                res.step(2 + len(rest))
                res.trace()
                res.state("stopped", pipe.key(c), op, k, late)
                for m in want:
                    if want[m] is None:
                        continue
                    res.expect(got.get(m) is not None and same(got[m], want[m]), "stopped-" + m, "%s stopped at %s:%d and repeated %s: %s differs from the undisturbed run" % (
                        op, *points[k], "after the other calls" if late else "at once", m))
                if len(res.fails) > 3:
                    return res
        return res

    def evaluate(self, c):
        res = new()
        if c.get("stop"):
            return self.stopped(c, res)
        ops = "IRBFGLMNOH" if not c["nh"] else "IRBFGLMOH"
        arrays, ncf, heat = setup(c)
        can = canonical(c, "H" + ops[2:-1])
        res.step(16)
        named_tuples(res, c, arrays)
        start = pipe.make(c, arrays)
        # model state: done (set of "I","R"), writers {observable: set of ops that may have produced the value; last one for exclusive ones}
        frontier = [(start, frozenset(), {}, "")]
        seen = set()
        nodes = 0
        while frontier and len(res.fails) < 5:
            f, done, writers, hist = frontier.pop(0)
            if nodes % 7 < 2:       # calls with malformed arguments, in the first states and in a part of all others
                before = observe(f)
                for what, call in malformed(ncf, heat):
                    g = copy.deepcopy(f)
                    try:
                        call(g)
                        res.note("malformed_accepted")
                        continue
                    except Exception:   # noqa
                        pass
                    res.step()
                    after = observe(g)
                    for n in before:
                        ok = after.get(n) is None if before[n] is None else after.get(n) is not None and same(after[n], before[n])
                        res.expect(ok, "malformed-effect", "history %s: the refused call (%s) changed %s" % (hist, what, n))
            for op in ops:
                g = copy.deepcopy(f)
                before = observe(g)
                need = NEEDS[op]
                ok = need is None or need in done
                res.step()
                h = hist + op
                mine = held(g, writers)
                try:
                    out = apply_op(g, op, c, ncf, heat)
                    err = None
                except Exception as e:   # noqa
                    err = e
                after = observe(g)
                res.trace()
                for n, (x, old) in mine.items():
                    res.expect(same(x, old), "held-" + n, "history %s: the array of %s read before the last call was overwritten" % (h, n))
                d2, w2 = done, writers
                if not ok:
                    if op == "H":
                        res.expect(err is not None, "guard-H", "history %s: heating-rate forcing before interpolation did not fail" % h)
                    else:
                        res.expect(isinstance(err, ValueError), "guard-%s" % op, "history %s: call before its prerequisites: %r instead of a ValueError" % (h, err))
                    for n in after:
                        if after[n] is None or before.get(n) is None:
                            res.expect(after[n] is None and before.get(n) is None, "guard-effect", "history %s: refused call made %s appear" % (h, n))
                        else:
                            res.expect(same(after[n], before[n]), "guard-effect", "history %s: refused call changed %s" % (h, n))
                else:
                    if not res.expect(err is None, "refused-%s" % op, "history %s: %s: %s" % (h, type(err).__name__, err)):
                        continue
                    if op in "IR":
                        d2 = done | {op}
                    w2 = dict(writers)
                    for n in WRITES[op]:
                        # an observable that several operations produce may legitimately keep an earlier, equal value
                        w2[n] = w2.get(n, frozenset()) | {op} if n in LWA or n in ("astar1", "astar2") else frozenset(op)
                    if op == "H":
                        res.expect(same(out, can["H"]), "heating", "history %s: heating-rate forcing differs from the first computation" % h)
                    for n, ws in w2.items():
                        if not any(n in can[w] for w in ws):
                            continue
                        if not res.expect(n in after and after[n] is not None, "gone-%s" % n, "history %s: %s can no longer be read" % (h, n)):
                            continue
                        hit = any(n in can[w] and same(after[n], can[w][n]) for w in ws)
                        res.expect(hit, "value-%s" % n, "history %s: %s is not the result of %s" % (h, n, "/".join(sorted(ws))))
                    for n in before:
                        if n not in w2 and before[n] is not None and n in after:
                            res.expect(same(after[n], before[n]), "frame-%s" % n, "history %s: %s changed" % (h, n))
                key = hash((snap(g), d2, tuple(sorted((k, tuple(sorted(v))) for k, v in w2.items()))))
                if key not in seen:
                    seen.add(key)
                    res.state(key, pipe.key(c))
                    nodes += 1
                    if nodes > 6000:
                        res.note("search_truncated")
                        return res
                    frontier.append((g, d2, w2, h))
        res.note("reachable_states", nodes)
        res.sample = {"config": c, "reachable_states": nodes, "operations": ops}
        return res


# ------------------------------------------------------------------------------------------ C17
class NonConvergence(Prop):
    id = "C17"
    title = "A reference wind that did not converge is reported and never used"
    technique = ("explicit-state search to closure over {interpolate, iteration limits, reference states, fluxes, layerwise, LWA only} on the real object; "
                 "convergence oracle from hemisphere-only runs at every iteration limit up to the bound")
    level_note = "iteration limits enumerated around the exact number of sweeps each hemisphere needs"
    assumptions = ("reaching the iteration limit in the last sweep counts as non-convergence, as the solver reports it",)
    bound = {"quick": "2 atmospheres x raise/warn x hemispheric/global x even/odd x iteration limits {1, at and around each hemisphere's need, large}, closure over call histories; 23 configurations of other sizes, planets, vertical grids and atmospheres",
             "thorough": "5 atmospheres x 3 grids x raise/warn x hemispheric/global x odd/even, same limits; 115 configurations that vary one axis at a time"}

    def cases(self, tier):
        t = tier != "quick"
        out = []
        for nlat, nlon, kmax in (((11, 6, 5),) if not t else ((11, 6, 5), (13, 8, 6), (17, 6, 7))):
            for fld in (("wave", "break") if not t else ("zonal", "wave", "wave2", "strong", "rough", "break")):
                for even in (False, True):
                    for nh in (False, True):
                        for rais in (False, True):
                            for flip in ((False, True) if not nh or t else (False,)):      # so that either hemisphere is the harder one
                                out.append({"c": pipe.cfg(cls="NH18", nlat=nlat - 1 if even else nlat, nlon=nlon, kmax=kmax, even=even, nh=nh, field=fld, jb=0),
                                            "raise": rais, "flip": flip})
        # other sizes, planets, vertical grids and atmospheres, each with one of the sixteen kinds of analysis in turn
        kinds = list(itertools.product((False, True), repeat=4))
        n = len(star(("NH18",), (False,), (False,)))
        for i in range(n):
            if t or i % 5 == 2:
                ev, nh, rais, flip = kinds[(i if t else i // 5 * 7) % 16]
                out.append({"c": star(("NH18",), (ev,), (nh,))[i], "raise": rais, "flip": flip})
        return out

    @staticmethod
    def _need(c, arrays, res):
        """Smallest iteration limit at which the northern-only analysis reports convergence."""
        cn = dict(c, nh=True)
        f = pipe.make(cn, arrays, raise_error_for_nonconvergence=False)
        f.interpolate_fields(return_named_tuple=False)

        def conv(m):
            f.maxit = m
            f.compute_reference_states(return_named_tuple=False)
            res.step()
            return not f.nonconvergent_uref
        lo, hi = 0, 1
        while not conv(hi):
            lo, hi = hi, hi * 2
            if hi > 200000:
                return None
        while hi - lo > 1:
            m = (lo + hi) // 2
            if conv(m):
                hi = m
            else:
                lo = m
        return hi

    def evaluate(self, case):
        res = new()
        c, rais = case["c"], case["raise"]
        xlon, ylat, plev, u, v, t = arrays = pipe.data(c)
        mirror = (xlon, ylat, plev, u[:, ::-1], -v[:, ::-1], t[:, ::-1])
        if case.get("flip"):
            arrays, mirror = mirror, arrays
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nn = self._need(c, arrays, res)
            ns = self._need(c, mirror, res)
        if not res.expect(nn is not None and ns is not None, "never", "no convergence for any iteration limit"):
            return res
        lims = sorted({1, 2, max(1, nn - 1), nn, max(1, ns - 1), ns, max(nn, ns) + 50})
        # observation of a converged analysis
        ref = {}
        f = pipe.make(c, arrays, maxit=lims[-1])
        for op in "IRBLO":
            apply_op(f, op, c)
            ref[op] = {"I": pipe.interp_obs, "R": pipe.ref_obs}.get(op, observe)(f)
        ref["qref"] = f.qref

        nh_only, even = c["nh"], int(c["even"])

        def expect_nc(m):
            return m < nn or (not c["nh"] and m < ns)
        # closure: model state (flag, refs usable, lwa-only usable)
        g0 = pipe.make(c, arrays, raise_error_for_nonconvergence=not not rais)
        apply_op(g0, "I", c)
        frontier = [(g0, "none", "I")]      # status: none | good | bad (Uref unusable, Qref complete) | broken (raised part-way)
        seen = set()
        n = 0
        alphabet = [("R", m) for m in lims] + [("B", 0), ("L", 0), ("O", 0), ("I", 0)]
        while frontier and len(res.fails) < 5:
            f, status, hist = frontier.pop(0)
            for op, m in alphabet:
                g = copy.deepcopy(f)
                h = "%s,%s%s" % (hist, op, m or "")
                before = observe(g)
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    try:
                        if op == "R":
                            g.maxit = m
                        apply_op(g, op, c)
                        err = None
                    except Exception as e:   # noqa
                        err = e
                res.step()
                res.trace()
                st = status
                if op == "R":
                    nc = expect_nc(m)
                    res.expect(bool(g.nonconvergent_uref) == nc, "flag", "history %s: nonconvergent_uref is %r, sweeps needed N %d S %d, limit %d" % (h, g.nonconvergent_uref, nn, ns, m))
                    if nc:
                        if rais:
                            res.expect(isinstance(err, ValueError), "raise", "history %s: expected a ValueError, got %r" % (h, err))
                            st = "broken"
                        else:
                            res.expect(err is None, "warn", "history %s: raised %r although only a warning was asked for" % (h, err))
                            res.expect(len(caught) > 0, "warn", "history %s: no warning issued" % h)
                            st = "bad"
                            ur = np.array(g.uref)
                            half = ur.shape[1] // 2 + (0 if nh_only else ur.shape[1] % 2)
                            north, south = (ur[:, 1 - even:], None) if nh_only else (ur[:, half:], ur[:, :ur.shape[1] - half])
                            for part, need in ((north, nn), (south, ns)):
                                if part is not None and m < need - 1:      # at need - 1 the solve converged in its last sweep
                                    # next to the equator of an even grid the boundary wind of the equator row enters
                                    part = part if not even else (part[:, 1:] if part is north else part[:, :-1])
                                    res.expect(not part.any(), "failed-wind", "history %s: wind of the failed solve is published" % h)
                            res.expect(same(g.qref, ref["qref"]), "qref", "history %s: Qref depends on the convergence of Uref" % h)
                    else:
                        res.expect(err is None, "converged", "history %s: %r although every hemisphere converges within the limit" % (h, err))
                        st = "good"
                        for k in REF:
                            close(res, "value-" + k, pipe.ref_obs(g)[k], ref["R"][k], 1e-5 * mx(ref["R"][k]), "history %s: %s" % (h, k))
                elif op in "BL":
                    if status == "good":
                        res.expect(err is None, "usable", "history %s: %r" % (h, err))
                        if err is None:
                            after = observe(g)
                            for k in WRITES[op]:
                                close(res, "value-" + k, after[k], ref[op][k], 1e-5 * mx(ref[op][k]), "history %s: %s" % (h, k))
                    else:
                        res.expect(isinstance(err, ValueError), "guard", "history %s: %r instead of a refusal" % (h, err))
                        after = observe(g)
                        for k in after:
                            res.expect((after[k] is None and before[k] is None) or same(after[k], before[k]), "guard-effect", "history %s: refused call changed %s" % (h, k))
                elif op == "O":
                    if status == "none":
                        res.expect(isinstance(err, ValueError), "guard-O", "history %s: %r instead of a refusal" % (h, err))
                    elif status in ("good", "bad"):
                        if res.expect(err is None, "lwa-only", "history %s: %r" % (h, err)):
                            after = observe(g)
                            for k in LWA:
                                close(res, "value-" + k, after[k], ref["O"][k], 1e-5 * mx(ref["O"][k]), "history %s: %s" % (h, k))
                else:
                    res.expect(err is None, "interp", "history %s: %r" % (h, err))
                key = (hash(snap(g)), st)
                if key not in seen:
                    seen.add(key)
                    res.state(key[0], st, pipe.key(c), rais)
                    n += 1
                    if n > 3000:
                        res.note("search_truncated")
                        return res
                    frontier.append((g, st, h))
        res.note("reachable_states", n)
        res.sample = {"config": c, "sweeps_needed": [nn, ns], "limits": lims, "reachable_states": n}
        return res


# ------------------------------------------------------------------------------------------ C32
def pair(n):
    A = dict(kmax=5, plev="std", nlat=11, nlon=6)
    B = dict(kmax=6, plev="off", nlat=9, nlon=8)
    table = {
        "same": (pipe.cfg(cls="NH18", jb=0, field="wave", **A), pipe.cfg(cls="NH18", jb=0, field="rough", **A)),
        "sizes": (pipe.cfg(cls="NH18", jb=0, field="wave", **A), pipe.cfg(cls="NH18", jb=0, field="strong", const="alt", **B)),
        "classes": (pipe.cfg(cls="NHN22", jb=1, field="wave", **A), pipe.cfg(cls="NH18", jb=0, field="rough", **A)),
        "nhn22": (pipe.cfg(cls="NHN22", jb=1, field="wave", **A), pipe.cfg(cls="NHN22", jb=0, field="strong", const="alt", **B)),
        "nhn22same": (pipe.cfg(cls="NHN22", jb=1, field="wave", **A), pipe.cfg(cls="NHN22", jb=1, field="rough", **A)),
        "nh": (pipe.cfg(cls="NH18", jb=0, field="wave", nh=True, **A), pipe.cfg(cls="NHN22", jb=1, field="rough", **A)),
        # the same grids, other physical constants
        "consts": (pipe.cfg(cls="NH18", jb=0, field="wave", **A), pipe.cfg(cls="NH18", jb=0, field="wave", const="alt", **A)),
        "consts22": (pipe.cfg(cls="NHN22", jb=1, field="wave", const="alt2", **A), pipe.cfg(cls="NHN22", jb=1, field="wave", **A)),
        "even": (pipe.cfg(cls="NHN22", jb=1, field="wave", even=True, **dict(A, nlat=10)), pipe.cfg(cls="NHN22", jb=1, field="rough", nh=True, **A)),
    }
    return table[n]


PAIRS = ["same", "sizes", "classes", "nhn22", "nhn22same", "nh", "even", "consts", "consts22"]
# the same atmosphere on the same grids, one setting different (only the calls are interleaved)
_A = dict(kmax=5, plev="std", nlat=11, nlon=6, field="wave", cls="NHN22", jb=1)
_S = dict(_A, cls="NH18", jb=0)
SETTINGS = {
    "npart": (dict(_S), dict(_S, npart=7)), "tol": (dict(_S), dict(_S, tol=1e-3)), "rjac": (dict(_S), dict(_S, rjac=0.6)), "maxit": (dict(_S, maxit=40000), dict(_S)),
    "jb": (dict(_A), dict(_A, jb=2)), "hemisphere": (dict(_A), dict(_A, nh=True)), "dz": (dict(_A), dict(_A, dz=900.)), "levels": (dict(_A), dict(_A, kmax=6)),
    "class": (dict(_A), dict(_S)), "even": (dict(_A, nlat=10, even=True), dict(_A)), "evenly": (dict(_A, evenly=True), dict(_A)),
    "poles": (dict(_A, nlat=10, even=True), dict(_A, nlat=10, even=True, lat="gauss")), "winds": (dict(_A), dict(_A, field="strong")),
    "giant": (dict(_S, const="giant", dz=6000., kmax=4), dict(_S, dz=6000., kmax=4)),
}


def two(n):
    return tuple(pipe.cfg(**c) for c in SETTINGS[n]) if n in SETTINGS else pair(n)


# what the two analyses do: with and without forcing, activity only, heating
PROGRAMS = (("IRFM", "IRFM"), ("IRBL", "IRFM"), ("IRFM", "IRBL"), ("IROB", "IRML"), ("IRLF", "IROG"), ("IRHM", "IRNB"))


def alone(fn, *args):
    """fn(*args) in a forked process, so that nothing it leaves behind in this one can influence later runs."""
    fd = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            pickle.dump(fn(*args), fd)
            fd.flush()
            code = 0
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if st:
        return None
    fd.seek(0)
    return pickle.load(fd)


def full(c, prog):
    """Sequential reference run: observations after the whole program."""
    f = pipe.make(c)
    arrays, ncf, heat = setup(c)
    extra = []
    for op in prog:
        r = apply_op(f, op, c, ncf, heat)
        if r is not None:
            extra.append(r)
    return dict(observe(f), heating_forcing=np.array(extra) if extra else None)


def duel(call_a, call_b, k, m):
    """Two threads: the first call runs up to its point k, the second one up to its point m, then the first ends and after it the second.
    Returns the exceptions that escaped; calls that do not come to their point simply run through."""
    a_turn, b_turn = threading.Event(), threading.Event()
    errs = []

    def hook_a(i, frame):
        if i == k:
            b_turn.set()
            a_turn.wait(120)

    def hook_b(i, frame):
        if i == m:
            b_turn.clear()
            a_turn.set()
            b_turn.wait(120)

    def run_a():
        try:
            drive(call_a, hook_a)
        except BaseException as e:   # noqa
            errs.append(e)
        finally:
            b_turn.set()

    def run_b():
        b_turn.wait(120)
        try:
            drive(call_b, hook_b)
        except BaseException as e:   # noqa
            errs.append(e)
        finally:
            a_turn.set()
    ts = [threading.Thread(target=run_a), threading.Thread(target=run_b)]
    for th in ts:
        th.start()
    for th in ts:
        th.join()
    return errs


class Interleaving(Prop):
    id = "C32"
    title = "Independent analyses do not influence each other however their calls interleave"
    technique = ("exhaustive schedules: all interleavings of the calls of two objects, every single preemption at every source line of the "
                 "package (the other object's call runs there), and every pair of preemptions at distinct source lines of two suspended calls, on the real code under a controlled scheduler")
    level_note = ("line-level preemption bound 2; switches inside compiled kernels are impossible because the interpreter lock is held there")
    assumptions = ("the other object's calls run on their own arrays",)
    bound = {"quick": "70 call interleavings x 9 pairs of analyses x 6 pairs of programs and 14 pairs that differ in one setting x 2 pairs of programs (construction orders alternate); every package source line executed by each of 4 calls x 4 preempting calls x 4 pairs; "
                      "two suspended calls: every first-executed line of one x every fourth of the other, 4 call pairs of one pair; 23 complete uses of the other parts of the package (two-dimensional functions and objects, operators, datasets): each preempted at the first and last passage of every package source line by itself and two others, calls of multi-call uses interleaved in all orders, and two suspended calls of each use with itself at up to 300 pairs of lines; calls given up at every first-executed line before or during another analysis",
             "thorough": "70 call interleavings x both construction orders x 23 pairs x 6 pairs of programs; every package source line executed by each of 4 calls x 5 preempting programs "
                         "(the fifth constructs a new object) x 9 pairs; two suspended calls: every first-executed line x every first-executed line, 16 call pairs x 2 pairs; the 23 uses of other parts each preempted by each, and two suspended calls of each with itself and three others at up to 3000 pairs of lines; calls given up at every line before or during another analysis"}
    OPS = "IRFM"

    def prepare(self, repo=None):
        """The undisturbed runs: each in a process that has run nothing else."""
        self.alone = {}
        for n in PAIRS + sorted(SETTINGS):
            for i, c in enumerate(two(n)):
                for prog in {pg[i] for pg in PROGRAMS}:
                    if (pipe.key(c), prog) not in self.alone:
                        self.alone[pipe.key(c), prog] = alone(full, c, prog)
        for act, w in itertools.product(acts.NAMES, sorted(acts.SAME)):
            self.alone[act, w] = alone(acts.whole, act, w)

    def cleanup(self):
        pass

    def cases(self, tier):
        t = tier != "quick"
        names = PAIRS
        out = []
        for n in (names if t else ["nhn22same", "sizes", "nh", "consts"]):
            for opa in self.OPS:
                for opb in ("CIRFM" if t else "IRFM"):
                    out.append({"kind": "lines", "pair": n, "a": opa, "b": opb})
        for n in (("nhn22same", "classes") if t else ("nhn22same",)):
            for opa in self.OPS:
                for opb in (self.OPS if t else opa):
                    for part in range(8 if t else 4):
                        out.append({"kind": "two", "pair": n, "a": opa, "b": opb, "part": part, "parts": 8 if t else 4, "stride": 1 if t else 4})
        for n in (names if t else ("nhn22same", "classes")):
            for opa in self.OPS:
                for part in range(4):
                    out.append({"kind": "stop", "pair": n, "a": opa, "part": part})
        for m, n in enumerate(names + sorted(SETTINGS)):
            for i, p in itertools.product(range(len(PROGRAMS)), range(2)):
                if t or (m + i + p) % 2 == 0 and (n in names or (m + i) % 3 == 0):
                    out.append({"kind": "calls", "pair": n, "part": p, "prog": i})
        for i, a in enumerate(acts.NAMES):
            big = a.startswith("qgdataset")
            for j, b in enumerate(acts.NAMES):
                if t or (j - i) % len(acts.NAMES) < 3:
                    for wb in ("bc" if t or i == j else "b"):
                        for call in range(acts.LENGTH.get(a, 1)):
                            for part in range(4 if big else 1):
                                if t or part == 0:
                                    out.append({"kind": "uses", "a": a, "b": b, "wb": wb, "call": call, "part": part, "parts": 4 if big else 1})
                if i == j or t and (j - i) % len(acts.NAMES) < 4:
                    for call, part in itertools.product(range(acts.LENGTH.get(a, 1)), range(4 if big else 1)):
                        if t or part == 0:
                            out.append({"kind": "usestop", "a": a, "b": b, "wb": "b" if i == j else "c", "call": call, "part": part, "parts": 4 if big else 1})
                if i == j or t and acts.LENGTH.get(b, 1) == acts.LENGTH.get(a, 1) and (j - i) % len(acts.NAMES) < 4:
                    for call in range(acts.LENGTH.get(a, 1)):
                        out.append({"kind": "usetwo", "a": a, "b": b, "wb": "b", "call": call, "most": (24 if big else 300) if not t else (200 if big else 3000)})
                if acts.LENGTH.get(a, 1) == acts.LENGTH.get(b, 1) > 1:
                    for wb in "bc":
                        out.append({"kind": "usecalls", "a": a, "b": b, "wb": wb})
        return out

    def _uses(self, case, res):
        """Two complete uses of any other part of the package: whole calls interleaved, or the second one run inside a call of the first."""
        a, b = (case["a"], "a"), (case["b"], case["wb"])
        wa, wb = self.alone[a], self.alone[b]
        if not res.expect(wa is not None and wb is not None, "alone", "the undisturbed run of %s or %s fails" % (a[0], b[0])):
            return res

        def check(where, got, want, who):
            for i, (g, w) in enumerate(zip(got, want)):
                for n in w:
                    same_ = n in g and (same(g[n], w[n]) if w[n].dtype.kind in "fci" else np.array_equal(g[n], w[n]))
                    res.expect(same_, "use-%s" % who, "%s: %s of %s (call %d) differs from the undisturbed run" % (where, n, who, i))
        if case["kind"] == "usecalls":
            na, nb = len(wa), len(wb)
            for pos in itertools.combinations(range(na + nb), na):
                pa, pb = acts.program(*a), acts.program(*b)
                ra, rb, sched = [], [], ""
                for i in range(na + nb):
                    mine = i in pos
                    (ra if mine else rb).append((pa if mine else pb).pop(0)())
                    sched += "a" if mine else "b"
                res.step(na + nb)
                res.trace()
                res.state(a, b, sched)
                # looked at only now, so that later calls can have disturbed what earlier ones returned
                check("schedule " + sched, [acts.show(r) for r in ra], wa, a[0])
                check("schedule " + sched, [acts.show(r) for r in rb], wb, b[0])
                if len(res.fails) > 3:
                    break
            return res

        def recorded(use, at):
            for _ in range(2):      # the first run may fill caches of the code under test
                points = []
                prog = acts.program(*use)
                for call in prog[:at]:
                    call()
                drive(prog[at], lambda i, fr: points.append((os.path.basename(fr.f_code.co_filename), fr.f_lineno)))
            return points

        points = recorded(a, case["call"])
        if case["kind"] == "usetwo":
            pts_b = recorded(b, case["call"])
            ks, ms = first(points), first(pts_b)
            # an evenly spread part of all pairs of points
            stride = -(-len(ks) * len(ms) // case["most"])
            while math.gcd(stride, len(ms)) > 1:
                stride += 1
            for k, m in list(itertools.product(ks, ms))[::stride]:
                pa, pb = acts.program(*a), acts.program(*b)
                ra, rb = [[call() for call in pg[:case["call"]]] for pg in (pa, pb)]
                errs = duel(lambda: ra.append(pa[case["call"]]()), lambda: rb.append(pb[case["call"]]()), k, m)
                res.step(2)
                res.trace()
                res.state(a, b, case["call"], k, m, "two")
                if errs:
                    raise errs[0]
                ra += [call() for call in pa[case["call"] + 1:]]
                rb += [call() for call in pb[case["call"] + 1:]]
                where = "%s suspended at %s:%d, then %s suspended at %s:%d" % (a[0], *points[k], b[0], *pts_b[m])
                check(where, [acts.show(r) for r in ra], wa, a[0])
                check(where, [acts.show(r) for r in rb], wb, b[0])
                res.note("use_double_preemptions")
                if len(res.fails) > 3:
                    break
            return res
        last = [len(points) - 1 - i for i in first(points[::-1])]
        ks = sorted(set(first(points) + last))[case["part"]::case["parts"]]
        if case["kind"] == "usestop":       # the first use ends part-way and is given up; another one starts afresh
            for k in ks:
                pa = acts.program(*a)
                for call in pa[:case["call"]]:
                    call()
                if not stop(pa[case["call"]], k):
                    res.note("points_not_reached")
                    continue
                rb = [call() for call in acts.program(*b)]
                res.step(2)
                res.trace()
                res.state(a, b, case["call"], k, "stop")
                check("%s given up at %s:%d before %s" % (a[0], points[k][0], points[k][1], b[0]), [acts.show(r) for r in rb], wb, b[0])
                if len(res.fails) > 3:
                    break
            return res
        for k in ks:
            pa, pb, rb = acts.program(*a), acts.program(*b), []

            def hook(i, frame, k=k):
                if i == k:
                    old = sys.gettrace()
                    sys.settrace(None)
                    rb.extend(call() for call in pb)
                    sys.settrace(old)
            ra = [call() for call in pa[:case["call"]]]
            drive(lambda: ra.append(pa[case["call"]]()), hook)
            ra += [call() for call in pa[case["call"] + 1:]]
            res.step(2)
            res.trace()
            res.state(a, b, case["call"], k)
            if not rb:
                res.note("points_not_reached")
                continue
            where = "%s preempted at %s:%d by %s" % (a[0], points[k][0], points[k][1], b[0])
            check(where, [acts.show(r) for r in ra], wa, a[0])
            check(where, [acts.show(r) for r in rb], wb, b[0])
            if len(res.fails) > 3:
                break
        res.note("use_preemptions", len(ks))
        return res

    def _check(self, res, what, got, want):
        for n in want:
            if want[n] is None:
                continue
            res.expect(got.get(n) is not None and same(got[n], want[n]), "value-%s" % n, "%s: %s differs from the undisturbed run" % (what, n))

    def evaluate(self, case):
        res = new()
        if case["kind"].startswith("use"):
            return self._uses(case, res)
        ca, cb = two(case["pair"])
        sa, sb = setup(ca), setup(cb)
        pa, pb = PROGRAMS[case.get("prog", 0)]
        wa, wb = self.alone[pipe.key(ca), pa], self.alone[pipe.key(cb), pb]
        if not res.expect(wa is not None and wb is not None, "alone", "the undisturbed run of one of the two analyses fails"):
            return res
        if case["kind"] == "calls":
            for pos in itertools.combinations(range(8), 4):
                if case["part"]:
                    fb, fa = pipe.make(cb, sb[0]), pipe.make(ca, sa[0])
                else:
                    fa, fb = pipe.make(ca, sa[0]), pipe.make(cb, sb[0])
                ia, ib = iter(pa), iter(pb)
                sched = ""
                ha, hb = [], []
                for i in range(8):
                    if i in pos:
                        op = next(ia)
                        r, to = apply_op(fa, op, ca, sa[1], sa[2]), ha
                        sched += "a" + op
                    else:
                        op = next(ib)
                        r, to = apply_op(fb, op, cb, sb[1], sb[2]), hb
                        sched += "b" + op
                    if r is not None:
                        to.append(r)
                    res.state(case["pair"], sched)
                res.step(8)
                res.trace()
                self._check(res, "schedule %s, first" % sched, dict(observe(fa), heating_forcing=np.array(ha)), wa)
                self._check(res, "schedule %s, second" % sched, dict(observe(fb), heating_forcing=np.array(hb)), wb)
                if len(res.fails) > 3:
                    break
            return res
        if case["kind"] == "stop":      # the first analysis is given up part-way; the second, begun before or after that, is undisturbed
            opa = case["a"]
            fa0 = pipe.make(ca, sa[0])
            for op in self.OPS[:self.OPS.index(opa)]:
                apply_op(fa0, op, ca, sa[1], sa[2])
            for _ in range(2):
                points = []
                f = copy.deepcopy(fa0)
                drive(lambda: apply_op(f, opa, ca, sa[1], sa[2]), lambda i, fr: points.append((os.path.basename(fr.f_code.co_filename), fr.f_lineno)))
            for n, k in enumerate(first(points)):
                if n % 4 != case["part"]:
                    continue
                done = n // 4 % (len(pb) + 1)
                fb, hb = pipe.make(cb, sb[0]) if done else None, []
                for op in pb[:done]:
                    hb.append(apply_op(fb, op, cb, sb[1], sb[2]))
                f = copy.deepcopy(fa0)
                if not stop(lambda: apply_op(f, opa, ca, sa[1], sa[2]), k):
                    res.note("points_not_reached")
                fb = fb if done else pipe.make(cb, sb[0])
                for op in pb[done:]:
                    hb.append(apply_op(fb, op, cb, sb[1], sb[2]))
                res.step(2)
                res.trace()
                res.state(case["pair"], opa, k, done, "stop")
                self._check(res, "%s given up at %s:%d after %d calls of the other analysis" % (opa, *points[k], done),
                            dict(observe(fb), heating_forcing=np.array([h for h in hb if h is not None])), wb)
                if len(res.fails) > 3:
                    break
            return res
        opa, opb = case["a"], case["b"]
        ia = self.OPS.index(opa)

        def prepared():
            fa = pipe.make(ca, sa[0])
            for op in self.OPS[:ia]:
                apply_op(fa, op, ca, sa[1], sa[2])
            if opb == "C":
                return fa, None
            fb = pipe.make(cb, sb[0])
            for op in self.OPS[:self.OPS.index(opb)]:
                apply_op(fb, op, cb, sb[1], sb[2])
            return fa, fb

        def run_b(fb):
            if opb == "C":      # a whole construction and interpolation
                fb = pipe.make(cb, sb[0])
                apply_op(fb, "I", cb)
                return fb
            apply_op(fb, opb, cb, sb[1], sb[2])
            return fb

        fa0, fb0 = prepared()

        def recorded(f0, op, c, s):
            """The scheduling points of this call (recorded twice: the first run may fill caches of the code under test)."""
            for _ in range(2):
                points = []
                f = copy.deepcopy(f0)
                drive(lambda: apply_op(f, op, c, s[1], s[2]), lambda i, fr: points.append((os.path.basename(fr.f_code.co_filename), fr.f_lineno)))
            return points

        points = recorded(fa0, opa, ca, sa)
        rest_b = self.OPS[1:] if opb == "C" else self.OPS[self.OPS.index(opb) + 1:]

        def finish(fa, fb, where):
            for op in self.OPS[ia + 1:]:
                apply_op(fa, op, ca, sa[1], sa[2])
            for op in rest_b:
                apply_op(fb, op, cb, sb[1], sb[2])
            self._check(res, where + ", preempted", observe(fa), wa)
            self._check(res, where + ", other", observe(fb), wb)

        if case["kind"] == "two":
            pb_ = recorded(fb0, opb, cb, sb)
            ks, ms = first(points)[case["part"]::case["parts"]], first(pb_)[case["part"] % case["stride"]::case["stride"]]
            for k, m in itertools.product(ks, ms):
                fa, fb = copy.deepcopy(fa0), copy.deepcopy(fb0)
                errs = duel(lambda: apply_op(fa, opa, ca, sa[1], sa[2]), lambda: apply_op(fb, opb, cb, sb[1], sb[2]), k, m)
                where = "%s suspended at %s:%d, then %s suspended at %s:%d" % (opa, *points[k], opb, *pb_[m])
                res.step(2)
                res.trace()
                res.state(case["pair"], opa, opb, k, m)
                if errs:
                    raise errs[0]
                finish(fa, fb, where)
                if len(res.fails) > 3:
                    break
            res.note("double_preemptions", len(ks) * len(ms))
            return res
        total = len(points)
        for k in range(total):
            fa, fb = copy.deepcopy(fa0), copy.deepcopy(fb0)
            box = {}

            def hook(i, frame, k=k):
                if i == k:
                    box["fb"] = run_b(fb)
            drive(lambda: apply_op(fa, opa, ca, sa[1], sa[2]), hook)
            res.step(2)
            res.trace()
            where = "%s preempted at %s:%d by %s" % (opa, points[k][0], points[k][1], opb)
            res.state(case["pair"], opa, opb, k)
            if box.get("fb") is None:       # the code under test took a shorter way this time
                res.note("points_not_reached")
                break
            finish(fa, box["fb"], where)
            if len(res.fails) > 3:
                break
        res.note("scheduling_points", total)
        return res


PROPS = [StateMachine(), NonConvergence(), Interleaving()]
