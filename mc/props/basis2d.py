"""Two-dimensional diagnostics (basis, wrapper, barotropic_field): every field over small alphabets on small grids."""
import itertools
import numpy as np
from .. import ref2d
from ..core import close
from .base import Prop, new

SYM = {2: (-1., 2.), 3: (-1.5, 0.25, 2.), 4: (-2., -0.5, 0.5, 1.5), 5: (-2., -1., 0., 0.5, 3.)}
NOTE = ("all fields over the stated alphabet on the stated grids are executed; contour sides that floating point "
        "would decide are either exactly representable or skipped and counted")


def chunks(nlat, nlon, nsym, fixed=2, **kw):
    """Split the set of all nsym**(nlat*nlon) fields by their first cells."""
    cells = nlat * nlon
    fixed = min(fixed, cells)
    for pre in itertools.product(range(nsym), repeat=fixed):
        yield dict(nlat=nlat, nlon=nlon, nsym=nsym, pre=list(pre), **kw)


# fields of practical size and magnitude: name -> number formats they are given in
NAMED = {"vort": ("f8", "f4", "fortran", "big-endian", "strided", "read-only"), "theta": ("f8", "f4", "read-only"), "spike": ("f8", "strided"),
         "classes": ("f8", "i4", "i8", "f4", "i2"), "tiny": ("f8", "f4"), "huge": ("f8", "big-endian"), "positive": ("f8",), "negative": ("f8", "f4")}


def named(nlat, nlon, name):
    """A field of the given kind (float64); no two values are equal except in "classes"."""
    y = np.linspace(-0.49 * np.pi, 0.49 * np.pi, nlat)[:, None]
    x = (np.arange(nlon) * 2 * np.pi / nlon)[None]
    g = np.sin(12.9898 * np.arange(nlat * nlon) + 0.7).reshape(nlat, nlon)
    v = np.sin(y) + 0.35 * np.cos(y) ** 2 * np.sin(3 * x + 4 * y + 0.3) + 0.2 * np.cos(y) * np.cos(2 * x - 3 * y) + 0.02 * g
    if name == "vort":
        return 1.4584e-4 * v
    if name == "tiny":
        return 1e-11 * v
    if name == "huge":
        return 3e9 * v + 1e9
    if name == "positive":      # the extreme nearest to zero lies just off it
        return (v - v.min()) * 1e-4 + 1e-8
    if name == "negative":
        return (v - v.max()) * 1e-4 - 1e-8
    if name == "theta":
        return 305. - 42. * np.sin(y) ** 2 + 11. * v
    if name == "spike":     # nearly all points share the lowest bin, two the others
        w = 1e-3 * v
        w[nlat // 3, nlon // 2] = 2.
        w[2 * nlat // 3, 0] = -1.7
        return w
    return np.clip(np.floor(2.5 * v + 0.1) + 2., 0., 4.)


def formatted(v, fmt):
    if fmt == "fortran":
        return np.asfortranarray(v)
    if fmt == "big-endian":
        return v.astype(">f8")
    if fmt == "strided":
        w = np.full((2 * v.shape[0], 3 * v.shape[1]), 7e7)
        w[::2, 1::3] = v
        return w[::2, 1::3]
    w = v.astype({"read-only": "f8"}.get(fmt, fmt))
    if fmt == "read-only":
        w.setflags(write=False)
    return w


def practical(tier, big=True, **kw):
    """Cases of practical size: every kind of field in every number format on tall, wide and large grids."""
    for nlat, nlon in ((24, 7), (13, 40), (15, 15), (37, 72)) + (((91, 120), (121, 240)) if tier != "quick" else ()):
        for name, fmts in NAMED.items():
            for fmt in fmts if nlat < 60 else fmts[:2]:
                yield dict(nlat=nlat, nlon=nlon, nsym=0, named=name, fmt=fmt, **kw)
    if big:
        for name in ("vort",) if tier == "quick" else ("vort", "theta", "negative"):
            yield dict(nlat=181, nlon=360, nsym=0, named=name, fmt="f8", **kw)


def history(variants, nlat=7, nlon=5, **kw):
    """Histories of calls: the same shapes, extremes and sums with other contents, in fresh arrays and in one that is
    overwritten, alternating with other arguments."""
    for reuse in (False, True):
        base = [dict(named="vort"), dict(named="vort", alter="point"), dict(named="vort", alter="rows"), dict(named="vort", alter="east"),
                dict(named="vort", alter="scale"), dict(named="vort", fmt="f4"), dict(named="theta"), dict(named="vort", nlon=nlon + 1)]
        yield dict(tour=base + [dict(dict(named="vort"), **v) for v in variants],
                   common=dict(dict(nlat=nlat, nlon=nlon, nsym=0, fmt="f8", reuse=reuse), **kw))


def companions(vg):
    """The field that goes along with the vorticity: generic, vanishing at places, tiny, huge, whole numbers."""
    k = np.arange(vg.size).reshape(vg.shape)
    return (("a generic field", vg), ("a field with zeros", vg * (k % 3 != 1) * np.where(k % 2, 1., -1.)), ("a field of one point", 1. * (k == vg.size // 2)),
            ("a tiny field", 1e-22 * vg), ("a huge field", 1e14 * vg), ("integers", (k * 7) % 5 - 2))


ALTER = {"point": lambda v: put(put(v, (1, 1), 0.7 * v[1, 1] + 0.3 * v[2, 0]), (-2, 1), 0.6 * v[-2, 1] + 0.4 * v[-3, 0]),
         "rows": lambda v: v[[0, 2, 1] + list(range(3, len(v) - 3)) + [-2, -3, -1]],
         "east": lambda v: v[:, ::-1].copy(), "scale": lambda v: 1.001 * v}
BUFFERS = {}


def put(v, at, x):
    v[at] = x
    return v


class Untouched:
    """The caller's arrays, to be compared with themselves later."""
    def __init__(self, **arrays):
        self.arrays = {k: (a, np.array(a)) for k, a in arrays.items() if a is not None}

    def check(self, res, after):
        for k, (a, b) in self.arrays.items():
            res.expect(np.array_equal(a, b), "mutation", "input %s was modified by %s" % (k, after))


def rel(c):
    """relative accuracy the number format of the field allows"""
    return 3e-6 if c.get("fmt") == "f4" else 1e-7


def table_eps(c):
    return 1e-6 if c.get("fmt") == "f4" else 1e-9


def all_fields(c, scale=1.):
    if c.get("named"):
        v = formatted(ALTER.get(c.get("alter"), lambda x: x)(named(c["nlat"], c["nlon"], c["named"])), c["fmt"])
        if c.get("reuse"):      # the same array object with new contents
            b = BUFFERS.setdefault((v.shape, v.dtype.str), np.empty_like(v))
            b[...] = v
            v = b
        yield v
        return
    sym = np.array(SYM[c["nsym"]]) * scale
    cells = c["nlat"] * c["nlon"]
    for rest in itertools.product(range(c["nsym"]), repeat=cells - len(c["pre"])):
        yield sym[list(c["pre"]) + list(rest)].reshape(c["nlat"], c["nlon"])


def geometry(nlat, nlon, kind, a, bump=None):
    """(ylat, area, dmu), one of them with an inner element changed if so wanted."""
    ylat, area, dmu = _geometry(nlat, nlon, kind, a)
    if bump == "area":
        total = area.sum()
        area[1:] *= 1. + 0.3 * np.sin(2.2 * np.arange(nlon * (nlat - 1)) + 1.).reshape(nlat - 1, nlon)
        area[1:] *= (total - area[0].sum()) / area[1:].sum()     # same sum, same corner
    elif bump == "ylat":
        ylat[1] += 0.2 * (ylat[2] - ylat[1])
        ylat[-2] += 0.2 * (ylat[-1] - ylat[-2])
    elif bump == "dmu":
        dmu[1] *= 1.3
        dmu[-2] *= 1.2
    return ylat, area, dmu


BUMPS = [dict(bump="area"), dict(bump="ylat"), dict(bump="dmu")]


def _geometry(nlat, nlon, kind, a):
    """(ylat, area, dmu): a full-globe pole-to-pole grid, an offset grid, or an irregular one."""
    if kind == "poles":
        ylat = np.linspace(-90., 90., nlat)
        w = np.abs(np.cos(np.deg2rad(ylat)))
        dphi = np.pi / (nlat - 1)
        area = 2 * np.pi * a * a * (w * dphi)[:, None] / nlon * np.ones((nlat, nlon))
    elif kind == "cells":
        edge = np.linspace(-90., 90., nlat + 1)
        ylat = 0.5 * (edge[1:] + edge[:-1])
        band = 2 * np.pi * a * a * np.diff(np.sin(np.deg2rad(edge)))
        area = band[:, None] / nlon * np.ones((nlat, nlon))
        w, dphi = np.cos(np.deg2rad(ylat)), np.pi / nlat
    elif kind == "full":    # polar rows without area; the rest sums to the sphere, give or take rounding
        ylat = np.linspace(-90., 90., nlat)
        w = np.abs(np.cos(np.deg2rad(ylat)))
        w[0] = w[-1] = 0.
        dphi = np.pi / (nlat - 1)
        area = 4 * np.pi * a * a * (1. + 1e-15) * w[:, None] / (w.sum() * nlon) * np.ones((nlat, nlon))
    elif kind == "south":   # the southern hemisphere, up to and including the equator
        ylat = np.linspace(-90., 0., nlat)
        w = np.abs(np.cos(np.deg2rad(ylat)))
        dphi = 0.5 * np.pi / (nlat - 1)
        area = 2 * np.pi * a * a * (w * dphi)[:, None] / nlon * np.ones((nlat, nlon))
    else:   # irregular: unequal areas everywhere, total below the sphere
        ylat = -75. + 140. * (np.arange(nlat) / max(1, nlat - 1)) ** 1.3
        g = 1. + 0.37 * np.sin(1.7 * np.arange(nlat * nlon) + 0.3).reshape(nlat, nlon)
        area = 4 * np.pi * a * a * 0.9 * g / g.sum()
        w, dphi = np.cos(np.deg2rad(ylat)), np.pi / nlat
    dmu = a * w * dphi * (1. + 0.05 * np.arange(nlat))
    return ylat, area, dmu


def within(res, key, actual, lo, hi, tol, what):
    res.hold(key, actual)
    a = np.asarray(actual, float)
    if a.shape != np.shape(lo):
        res.fail(key, "%s: shape %s, expected %s" % (what, a.shape, np.shape(lo)))
        return
    bad = ~((a >= lo - tol) & (a <= hi + tol))
    if bad.any():
        k = tuple(int(v) for v in np.argwhere(bad)[0])
        res.fail(key, "%s at %s: got %.9g, expected [%.9g, %.9g]" % (what, k, a[k], np.asarray(lo)[k], np.asarray(hi)[k]))


class Basis(Prop):
    level_note = NOTE
    assumptions = ("fields over small alphabets on small grids reach every branch of the contour counting",)
    bound = {"quick": "grids up to 8 cells with alphabets of 2-5 values, 5 geometries, several contour counts, 2 planet radii; 8 kinds of fields of every magnitude and sign in up to 6 number formats on grids of up to 37 x 72 and on 181 x 360; every ordered pair of 11-16 calls in one process",
             "thorough": "grids up to 10 cells with alphabets of 2-5 values, 5 geometries, more contour counts, 2 planet radii; 8 kinds of fields of every magnitude and sign in up to 6 number formats on grids of up to 121 x 240 and on 181 x 360; every ordered pair of 11-16 calls in one process"}
    grids_quick = ((3, 2, 3), (4, 1, 5), (4, 2, 2))
    grids_thorough = ((3, 2, 5), (4, 2, 3), (5, 1, 5), (5, 2, 2), (3, 3, 3), (2, 3, 4), (4, 1, 5))
    npts = {"quick": (2, 3, 5, 9), "thorough": (2, 3, 4, 5, 7, 9, 16)}

    def cases(self, tier):
        for (nlat, nlon, ns) in (self.grids_quick if tier == "quick" else self.grids_thorough):
            for kind in ("poles", "cells", "irregular") + (("full", "south") if nlat > 2 else ()):
                for a in ((6.378e6, 2.0e6) if kind == "poles" or tier != "quick" else (6.378e6,)):
                    yield from chunks(nlat, nlon, ns, 1, kind=kind, a=a, npts=list(self.npts[tier]))
        for kind in ("poles", "irregular", "south"):
            for npts in ((3, 9), (24, 50), (150,)) if kind != "south" else ((3, 24),):
                yield from practical(tier, kind=kind, a=6.378e6, npts=npts, big=len(npts) == 1)
            yield dict(nlat=24, nlon=7, nsym=0, named="vort", fmt="f8", kind=kind, a=6.378e6, npts=[361, 721])
            if kind == "poles":
                yield dict(nlat=13, nlon=5, nsym=0, named="vort", fmt="f8", kind=kind, a=6.378e6, npts=[33001])
            yield from history(BUMPS + [dict(bump="vg"), dict(a=3e6), dict(npts=[3]), dict(npts=[11])], kind=kind, a=6.378e6, npts=[7])


class Equivalent(Basis):
    id = "C01"
    title = "Equivalent-latitude profile Q(y) encloses the area of each contour"
    technique = "exhaustive enumeration of all small fields over a finite alphabet against a set-counting reference model"

    def evaluate(self, c):
        from falwa import basis
        res = new()
        ylat, area, dmu = geometry(c["nlat"], c["nlon"], c["kind"], c["a"], c.get("bump"))
        for v in all_fields(c):
            if v.min() == v.max():
                continue
            for n in c["npts"]:
                m = ref2d.eqvlat(ylat, v, area, n, c["a"], table_eps(c))
                if m is None:
                    res.note("skipped_undecided")
                    continue
                (lo, hi), t = m
                snap = v.copy(), area.copy(), ylat.copy()
                q1, f0 = basis.eqvlat_fawa(ylat, v, area, n, planet_radius=c["a"], output_fawa=False)
                q2, _ = basis.eqvlat_fawa(ylat, v, area, n, planet_radius=c["a"])
                q3, b = basis.eqvlat_vgrad(ylat, v, area, n, planet_radius=c["a"])
                res.step(3)
                tol = rel(c) * float(np.ptp(v)) + (1e-7 * np.abs(v).max() if c.get("fmt") == "f4" else 0.)
                within(res, "fawa-path", q1, lo, hi, tol, "Q(y)")
                within(res, "default-path", q2, lo, hi, tol, "Q(y)")
                within(res, "vgrad-path", q3, lo, hi, tol, "Q(y)")
                res.expect(f0 is None and b is None, "optional", "unrequested output is not None")
                res.expect(np.array_equal(snap[0], v) and np.array_equal(snap[1], area) and np.array_equal(snap[2], ylat),
                           "mutation", "an input array was modified")
                res.trace(3)
                res.state(v, n)
        res.sample = c
        return res


class Fawa(Basis):
    id = "C02"
    title = "Finite-amplitude wave activity and contour-bin means follow their definitions"
    technique = Equivalent.technique

    def evaluate(self, c):
        from falwa import basis
        res = new()
        ylat, area, dmu = geometry(c["nlat"], c["nlon"], c["kind"], c["a"], c.get("bump"))
        cells = c["nlat"] * c["nlon"]
        vg = (0.7 + np.sin(2.3 * np.arange(cells) + 0.4)).reshape(c["nlat"], c["nlon"])
        if c.get("bump") == "vg":
            vg[1:-1] += 0.3 * vg[1:-1] ** 2
        for v in all_fields(c):
            if v.min() == v.max():
                continue
            for n in c["npts"]:
                m = ref2d.eqvlat(ylat, v, area, n, c["a"], table_eps(c))
                if m is None:
                    res.note("skipped_undecided")
                    continue
                _, t = m
                keep = Untouched(ylat=ylat, vort=v, area=area, vgrad=vg)
                q, f = basis.eqvlat_fawa(ylat, v, area, n, planet_radius=c["a"])
                lo, hi = ref2d.fawa(ylat, v, area, t, c["a"])
                within(res, "fawa", f, lo, hi, rel(c) * np.abs(v).max() * c["a"], "FAWA")
                for what, g in companions(vg):
                    q, b = basis.eqvlat_vgrad(ylat, v, area, n, planet_radius=c["a"], vgrad=g)
                    lo, hi = ref2d.interp_set(ylat, t[1], ref2d.bracket(v, area, np.asarray(g, float), t))
                    within(res, "bracket", b, lo, hi, 1e-7 * float(np.abs(g).max()), "<vgrad>_Q of " + what)
                _, b = basis.eqvlat_vgrad(ylat, v, area, n, planet_radius=c["a"], vgrad=0. * vg + 2.5)
                res.expect(c["kind"] == "full" or np.allclose(b, 2.5, rtol=0, atol=1e-9), "bracket-uniform", "mean of a uniform field of 2.5 is %s" % b)
                keep.check(res, "the contour analysis")
                res.step(3)
                res.trace(3)
                res.state(v, n)
        res.sample = c
        return res


class Lwa2D(Prop):
    id = "C03"
    title = "Barotropic local wave activity is the displacement integral in two signed parts"
    technique = "exhaustive enumeration of all small fields and reference profiles over finite alphabets against the displacement-integral model"
    level_note = NOTE
    assumptions = Basis.assumptions
    bound = {"quick": "all fields and all reference profiles over alphabets of 2-4 values on grids of up to 6 rows x 2 columns; 8 kinds of fields of every magnitude and sign in up to 6 number formats on grids of up to 37 x 72 and on 181 x 360; every ordered pair of 11-16 calls in one process",
             "thorough": "all fields and all reference profiles over alphabets of 2-5 values on grids of up to 6 rows x 3 columns; 8 kinds of fields of every magnitude and sign in up to 6 number formats on grids of up to 121 x 240 and on 181 x 360; every ordered pair of 11-16 calls in one process"}

    def cases(self, tier):
        spec = ((3, 1, 4, 4), (4, 1, 3, 3), (3, 2, 3, 3), (2, 2, 4, 4), (5, 1, 2, 3)) if tier == "quick" else \
            ((3, 1, 5, 5), (4, 1, 4, 4), (3, 2, 3, 5), (4, 2, 2, 3), (5, 1, 3, 3), (6, 1, 2, 3), (2, 3, 4, 4), (3, 3, 2, 3))
        for nlat, nlon, ns, nq in spec:
            for c in chunks(nlat, nlon, ns, 2, nq=nq):
                yield c
        yield from practical(tier)
        yield from history([dict(bump="dmu"), dict(bump="nc"), dict(bump="q")])

    @staticmethod
    def profiles(v):
        """zonal means, sorted values, a constant and a reversed profile"""
        w = np.asarray(v, float)
        r = np.sort(w.ravel())[::-(-w.size // w.shape[0])][:w.shape[0]]
        r = np.resize(r, w.shape[0])
        yield tuple(w.mean(axis=1))
        yield tuple(r)
        yield tuple(r[::-1])
        yield (float(np.median(w)),) * w.shape[0]

    def evaluate(self, c):
        from falwa import basis
        from falwa import wrapper
        res = new()
        nlat, nlon = c["nlat"], c["nlon"]
        dmu = (3. + np.sin(1.9 * np.arange(nlat))) * (1e5 if c.get("named") else 1.)
        nc = (np.cos(1.1 * np.arange(nlat * nlon)) + 0.2).reshape(nlat, nlon)
        if c.get("bump") == "dmu":
            dmu[1] *= 1.2
        if c.get("bump") == "nc":
            nc[2] *= -0.5
        # profiles over the same values (ties) and between them
        vals = [] if c.get("named") else sorted(set(SYM[c["nsym"]]) | set(SYM[c["nq"]]))[:c["nq"] + 1]
        ylat = np.linspace(-80, 80, nlat)
        for v in all_fields(c):
            tol = 1e-11 * np.abs(v).max() * dmu.sum() if c.get("named") else 1e-10
            for qp in self.profiles(v) if c.get("named") else itertools.product(vals, repeat=nlat):
                q = np.array(qp)
                if c.get("bump") == "q":
                    q[1] = 0.5 * (q[1] + q[2])
                anti, cyc, sig = ref2d.lwa(v, q, dmu, nc)
                keep = Untouched(vort=v, profile=q, dmu=dmu, ncforce=nc)
                tot, s0 = basis.lwa(nlon, nlat, v, q, dmu)
                part, s1 = basis.lwa(nlon, nlat, v, q, dmu, return_partitioned_lwa=True, ncforce=nc)
                res.step(2)
                close(res, "total", tot, anti + cyc, tol, "LWA")
                close(res, "anticyclonic", part[0], anti, tol, "anticyclonic LWA")
                close(res, "cyclonic", part[1], cyc, tol, "cyclonic LWA")
                close(res, "sigma", s1, sig, 1e-11 * dmu.sum() + 1e-10, "non-conservative term")
                res.expect(s0 is None, "optional", "non-conservative term without forcing is not None")
                keep.check(res, "lwa")
                res.expect((part >= -1e-2 * tol).all(), "negative", "negative wave activity")
                res.trace(3)
                res.state(v, q)
                w = wrapper.barotropic_input_qref_to_compute_lwa(ylat, q, v, None, dmu)
                res.step()
                close(res, "wrapper", w, anti + cyc, tol, "LWA for a prescribed reference profile")
                res.trace()
        res.sample = c
        return res


class Hemispheric(Prop):
    id = "C04"
    title = "Hemispheric wrappers analyse each hemisphere in its own orientation and sign"
    technique = "exhaustive enumeration of all small fields and wrapper options against the reference model applied hemisphere by hemisphere"
    level_note = NOTE
    assumptions = Basis.assumptions
    bound = {"quick": "all fields over alphabets of 2-3 values on grids of 4-6 rows, 5 hemispheric extents/contour counts, every wrapper and option; 8 kinds of fields of every magnitude and sign in up to 6 number formats on grids of up to 37 x 72 and on 181 x 360; every ordered pair of 11-16 calls in one process",
             "thorough": "all fields over alphabets of 2-4 values on grids of 4-7 rows, 7 hemispheric extents/contour counts, every wrapper and option; 8 kinds of fields of every magnitude and sign in up to 6 number formats on grids of up to 121 x 240 and on 181 x 360; every ordered pair of 11-16 calls in one process"}

    def cases(self, tier):
        spec = ((4, 1, 5), (5, 1, 3), (6, 1, 2), (4, 2, 2)) if tier == "quick" else \
            ((4, 1, 5), (5, 1, 5), (6, 1, 3), (7, 1, 2), (4, 2, 3), (5, 2, 2))
        opts = [(None, None), (None, 3), (2, None), (2, 5)] + ([(3, 4), (3, None), (None, 9)] if tier != "quick" else [(3, 5)])
        for nlat, nlon, ns in spec + (((6, 1, 3),) if tier == "quick" else ()):
            for nlat_s, n in (opts if (nlat, ns) != (6, 3) or tier != "quick" else [(None, 5)]):     # bins between the extremes are filled
                if nlat_s and nlat_s > nlat:
                    continue
                for kind in ("poles", "irregular"):
                    for a in ((6.378e6, 3e6) if tier != "quick" or kind == "poles" else (6.378e6,)):
                        yield from chunks(nlat, nlon, ns, 1, nlat_s=nlat_s, n=n, a=a, kind=kind)
        for kind in ("poles", "irregular"):
            for nlat_s, n in ((None, None), (5, 11)):
                yield from practical(tier, nlat_s=nlat_s, n=n, a=6.378e6, kind=kind)
            yield from history(BUMPS + [dict(a=3e6), dict(n=9), dict(nlat_s=2), dict(bump="nc"), dict(bump="vg")], nlat_s=3, n=5, a=6.378e6, kind=kind)

    def evaluate(self, c):
        from falwa import wrapper as w
        res = new()
        nlat, nlon, a = c["nlat"], c["nlon"], c["a"]
        ylat, area, dmu = geometry(nlat, nlon, c["kind"], a, c.get("bump"))
        s = c["nlat_s"] or nlat // 2
        n = c["n"] or s
        cells = nlat * nlon
        nc = (np.cos(1.1 * np.arange(cells)) + 0.2).reshape(nlat, nlon)
        vg = (2.7 + np.sin(2.3 * np.arange(cells) + 0.4)).reshape(nlat, nlon)
        if c.get("bump") == "nc":
            nc[1] *= -0.5
            nc[-2] *= 1.5
        if c.get("bump") == "vg":
            vg[1:-1] += 0.3
        kw = dict(planet_radius=a)
        if c["nlat_s"]:
            kw["nlat_s"] = c["nlat_s"]
        if c["n"]:
            kw["n_points"] = c["n"]
        if n < 2:
            return res
        latn, arean = -ylat[::-1][:s], area[::-1][:s]      # the northern hemisphere seen from its own pole
        eps = table_eps(c)
        for v in all_fields(c):
            S, N = v[:s], -v[::-1][:s]
            if S.min() == S.max() or N.min() == N.max():
                continue
            ms, mn = (ref2d.eqvlat(ylat[:s], S, area[:s], n, a, eps), ref2d.eqvlat(latn, N, arean, n, a, eps))
            mt = ref2d.eqvlat(latn, v[::-1][:s], arean, n, a, eps)
            if ms is None or mn is None or mt is None:
                res.note("skipped_undecided")
                continue
            res.state(v, s, n)
            tol = rel(c) * float(np.ptp(v)) + (1e-7 * np.abs(v).max() if c.get("fmt") == "f4" else 0.)
            amp = float(np.abs(v).max()) if c.get("named") else 1.
            keep = Untouched(ylat=ylat, vort=v, area=area, dmu=dmu, vgrad=vg, ncforce=nc)

            def prof(q, north, sign, what):
                q = np.asarray(q, float)
                if not res.expect(q.shape == (nlat,), what, "shape %s" % (q.shape,)):
                    return
                within(res, what + "-south", q[:s] if 2 * s <= nlat else q[:nlat - s], ms[0][0] if 2 * s <= nlat else ms[0][0][:nlat - s],
                       ms[0][1] if 2 * s <= nlat else ms[0][1][:nlat - s], tol, what)
                lo, hi = north[0][0][::-1], north[0][1][::-1]
                if sign < 0:
                    lo, hi = -hi, -lo
                within(res, what + "-north", q[-s:], lo, hi, tol, what)
                if 2 * s < nlat:
                    within(res, what + "-between", q[s:nlat - s], 0 * q[s:nlat - s], 0 * q[s:nlat - s], 0., what)
                res.trace()

            def bracket(b, g, key):
                k = min(s, nlat - s)        # rows in both domains are northern
                for part, m, f, gg, yl, ar in (("south", ms, S, g[:s], ylat[:s], area[:s]), ("north", mn, N, -g[::-1][:s], latn, arean)):
                    lo, hi = ref2d.interp_set(yl, m[1][1], ref2d.bracket(f, ar, gg, m[1]))
                    if part == "south":
                        within(res, key + part, b[:k], lo[:k], hi[:k], 1e-7, "<vgrad>_Q")
                    else:
                        within(res, key + part, -b[-s:][::-1], lo, hi, 1e-7, "<vgrad>_Q")
                    res.trace()

            def waves(q, lw, what, sig=None, up=1):
                """given the returned profile, the wave activity of both hemispheres"""
                want = np.zeros((nlat, nlon))
                wsig = np.zeros((nlat, nlon))
                x = ref2d.lwa(v[:s], q[:s], dmu[:s], nc[:s])       # rows in both domains are northern
                want[:s], wsig[:s] = x[0] + x[1], x[2]
                x = ref2d.lwa(up * v[-s:], up * q[-s:], dmu[-s:], nc[-s:])     # up = -1: the reference decreases northward
                want[-s:], wsig[-s:] = x[0] + x[1], x[2]
                close(res, what, lw, want, 1e-9 * a * amp, what)
                if sig is not None:
                    # a pixel that ties with the interpolated profile value may fall on either side
                    tt = np.full((nlat, nlon), 1e-9 * a * amp)
                    for sl in (slice(0, s), slice(nlat - s, nlat)):
                        tie = np.abs(v[sl][None] - q[sl][:, None, None]) < 1e-9 * amp
                        tt[sl] += (tie * np.abs(nc[sl] * dmu[sl][:, None])[None]).sum(axis=1)
                    close(res, what + "-sigma", sig, wsig, tt, what + " non-conservative term")
                res.trace()

            prof(w.eqvlat_hemispheric(ylat, v, area, **kw), mn, -1, "eqvlat_hemispheric")
            for g in (None, vg, companions(vg)[1][1]):
                q, b = w.eqvlat_bracket_hemispheric(ylat, v, area, vgrad=g, **kw)
                res.step()
                prof(q, mn, -1, "eqvlat_bracket")
                if g is None:
                    res.expect(b is None, "bracket-none", "bracket without gradient input is not None")
                else:
                    bracket(b, g, "bracket-")
            q, lw = w.qgpv_eqlat_lwa(ylat, v, area, dmu, **kw)
            prof(q, mn, -1, "qgpv_eqlat_lwa")
            waves(q, lw, "qgpv_eqlat_lwa-lwa")
            q, lw, sg = w.qgpv_eqlat_lwa_ncforce(ylat, v, nc, area, dmu, **kw)
            prof(q, mn, -1, "ncforce")
            waves(q, lw, "ncforce-lwa", sg)
            kk = {k: x for k, x in kw.items() if k != "n_points"}
            for qq in (q, 0.5 * q + 0.1):
                waves(qq, w.qgpv_input_qref_to_compute_lwa(ylat, qq, v, area, dmu, **kk), "input_qref")
            q, lw = w.theta_lwa(ylat, v, area, dmu, **kw)
            prof(q, mt, 1, "theta_lwa")
            waves(q, lw, "theta_lwa-lwa", up=-1)
            for g in (None, vg):
                for f in (None, nc):
                    d = w.qgpv_eqlat_lwa_options(ylat, v, area, dmu, vgrad=g, ncforce=f, **kw)
                    res.step()
                    res.expect(set(d) == {"qref", "lwa_result"} | ({"brac_result"} if g is not None else set())
                               | ({"capsigma"} if f is not None else set()), "options-keys", "keys %s" % sorted(d))
                    prof(d["qref"], mn, -1, "options")
                    waves(d["qref"], d["lwa_result"], "options-lwa", d.get("capsigma"))
                    if g is not None:
                        bracket(d["brac_result"], g, "options-bracket-")
            keep.check(res, "the wrappers")
            res.step(6)
        res.sample = c
        return res


class Barotropic(Prop):
    id = "C05"
    title = "Barotropic field object follows the definitions for all options and read orders"
    technique = "exhaustive enumeration of all small fields, constructor options and getter sequences against the reference model"
    level_note = NOTE
    assumptions = Basis.assumptions
    bound = {"quick": "all fields over alphabets of 2-4 values on grids up to 6 cells, 3 uniform latitude ranges, all option combinations, all getter sequences of length 3; 8 kinds of fields of every magnitude and sign in up to 6 number formats (latitudes also) on grids of up to 37 x 72 and on 181 x 360; every ordered pair of 11-16 calls in one process; construction and reads stopped at every source line and repeated",
             "thorough": "all fields over alphabets of 2-5 values on grids up to 8 cells, 3 uniform latitude ranges, all option combinations, all getter sequences of length 4; 8 kinds of fields of every magnitude and sign in up to 6 number formats (latitudes also) on grids of up to 121 x 240 and on 181 x 360; every ordered pair of 11-16 calls in one process; construction and reads stopped at every source line and repeated"}

    def cases(self, tier):
        for act, which in itertools.product(("barotropic_field", "barotropic_field_parts"), "abc"):
            yield dict(stop=act, which=which)
        spec = ((3, 1, 4), (3, 2, 2), (4, 1, 3)) if tier == "quick" else ((3, 1, 5), (3, 2, 3), (4, 1, 4), (5, 1, 3), (4, 2, 2))
        for nlat, nlon, ns in spec:
            for n in ((None, 2, 5) if tier == "quick" else (None, 2, 3, 5, 9)):
                for a in (6.378e6, 2e6):
                    for own in (0, 1, 2, 3) if n != 2 else (0, 3):
                        for grid in ("poles", "cells", "band"):
                            yield from chunks(nlat, nlon, ns, 1, n=n, a=a, own=own, grid=grid, depth=3 if tier == "quick" else 4)
        for own, grid, n in ((0, "poles", None), (1, "cells", 60), (2, "band", 7), (3, "poles", None)):
            yield from practical(tier, n=n, a=6.378e6, own=own, grid=grid, depth=2, big=False)
            yield from history([dict(a=3e6), dict(n=9), dict(own=3 - own), dict(grid="band", own=own), dict(grid="cells"), dict(bump="area"), dict(bump="dphi")],
                               n=n, a=6.378e6, own=own, grid=grid, depth=1)
        yield dict(nlat=181, nlon=360, nsym=0, named="vort", fmt="f8", n=None, a=6.378e6, own=0, grid="poles", depth=1)
        for nlat in (19, 37, 61):        # latitudes in other number formats
            for lf in ("i1", "i2", "i8", "f2", "f4", ">f4"):
                for own in (0, 1, 2):
                    yield dict(nlat=nlat, nlon=7, nsym=0, named="vort", fmt="f8", n=None, a=6.378e6, own=own, grid="poles", lfmt=lf, depth=1)

    def evaluate(self, c):
        from falwa.barotropic_field import BarotropicField
        from falwa import wrapper
        res = new()
        if c.get("stop"):
            from .history import stopped_use
            stopped_use(res, c["stop"], c["which"])
            return res
        nlat, nlon, a = c["nlat"], c["nlon"], c["a"]
        ylat = {"poles": np.linspace(-90., 90., nlat), "cells": -90. + 180. * (np.arange(nlat) + 0.5) / nlat,
                "band": np.linspace(-60., 75., nlat)}[c["grid"]]      # uniform rows: from pole to pole, cell centres, part of the globe
        if c.get("lfmt"):
            ylat = ylat.astype(c["lfmt"]).astype(float)
        xlon = np.arange(nlon) * 360. / nlon
        step = np.deg2rad(ylat[1] - ylat[0])
        dphi = step * np.ones(nlat) if not c["own"] & 2 else step * (0.9 - (0.06 if nlat < 9 else 0.3 / nlat) * np.arange(nlat))
        if c.get("bump") == "dphi":
            dphi[1] *= 1.1
        cl = np.abs(np.cos(np.deg2rad(ylat)))
        area = 2 * np.pi * a * a * (np.cos(np.deg2rad(ylat)) * dphi)[:, None] / nlon * np.ones((nlat, nlon))
        if c["own"] & 1:
            area = geometry(nlat, nlon, "irregular", a)[1]
        kw = dict(planet_radius=a, n_partitions=c["n"])
        if c["own"] & 1:
            kw["area"] = area
        if c["own"] & 2 or c.get("bump") == "dphi":
            kw["dphi"] = dphi
        if c.get("bump") == "area":
            area = area.copy()
            area[1:-1] *= 1. + 0.2 * np.sin(2.2 * np.arange(nlon * (nlat - 2)) + 1.).reshape(nlat - 2, nlon)
            area /= max(1., area.sum() / (4 * np.pi * a * a))
            kw["area"] = area
        n = c["n"] or nlat
        for v in all_fields(c):
            if v.min() == v.max():
                continue
            m = ref2d.eqvlat(ylat, v, area, n, a, table_eps(c))
            if m is None:
                res.note("skipped_undecided")
                continue
            (lo, hi), t = m
            tol = rel(c) * float(np.ptp(v)) + (1e-7 * np.abs(v).max() if c.get("fmt") == "f4" else 0.)
            amp = float(np.abs(v).max()) if c.get("named") else 1.
            keep = Untouched(xlon=xlon, ylat=ylat, pv_field=v, area=area, dphi=dphi)
            for part in (False, True):
                for seq in itertools.product("ql", repeat=c["depth"]):
                    b = BarotropicField(xlon, ylat.astype(c.get("lfmt", "f8")), v, return_partitioned_lwa=part, **kw)
                    # another object that is alive at the same time must not matter
                    other = BarotropicField(xlon[::-1], 0.5 * ylat, 3. - 2. * v[::-1], return_partitioned_lwa=not part, planet_radius=2 * a, n_partitions=4)
                    for op in seq:
                        other.lwa if op == "q" else other.equivalent_latitudes
                        res.step()
                        if op == "q":
                            within(res, "profile", b.equivalent_latitudes, lo, hi, tol, "Q(y) after %s" % "".join(seq))
                        else:
                            anti, cyc, _ = ref2d.lwa(v, np.asarray(b.equivalent_latitudes), a * cl * dphi)
                            want = np.array([anti, cyc]) if part else anti + cyc
                            close(res, "lwa", b.lwa, want, 1e-9 * a * amp, "LWA after %s" % "".join(seq))
                        res.trace()
                        res.state(v, c["own"], n, part, op)
                q, lw = wrapper.barotropic_eqlat_lwa(ylat, v, area, a * cl * dphi, c["n"], planet_radius=a, return_partitioned_lwa=part)
                res.step()
                within(res, "wrapper-profile", q, lo, hi, tol, "Q(y)")
                anti, cyc, _ = ref2d.lwa(v, np.asarray(q), a * cl * dphi)
                close(res, "wrapper-lwa", lw, np.array([anti, cyc]) if part else anti + cyc, 1e-9 * a * amp, "LWA")
                res.trace(2)
            keep.check(res, "the field object")
        res.sample = c
        return res


PROPS = [Equivalent(), Fawa(), Lwa2D(), Hemispheric(), Barotropic()]
