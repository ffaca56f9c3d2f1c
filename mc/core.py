"""Exploration driver: enumerates the cases of a property, executes every one of them against a fresh build of
/repo in worker processes, compares with the oracle, and writes the evidence file.

A property is a class with
    id, title, technique, level_note, assumptions, bound (text)
    cases(tier)    -> iterable of JSON-able dicts: the *whole* bounded space, no sampling
    evaluate(case) -> Result
"""
import hashlib
import json
import os
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_TIMEOUT = 400.0


class Result:
    holding = False

    def __init__(self):
        self.states = set()      # canonical hashes of distinct states visited
        self.transitions = 0     # public operations executed on the implementation
        self.traces = 0          # executions whose observations were compared with the model
        self.fails = []          # [{key, what}]
        self.notes = {}          # counters by name
        self.sample = None
        self.held = [] if Result.holding else None     # in a history: outputs of earlier calls with copies of them

    def hold(self, key, out):
        if self.held is not None and hasattr(out, "copy"):
            self.held.append((str(key), out, out.copy()))

    def state(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if hasattr(p, "tobytes"):
                h.update(repr((getattr(p, "shape", None), str(getattr(p, "dtype", "")))).encode())
                h.update(p.tobytes())
            else:
                h.update(repr(p).encode())
            h.update(b"|")
        self.states.add(h.hexdigest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def fail(self, key, what):
        if len(self.fails) < 40:
            self.fails.append({"key": str(key), "what": str(what)[:600]})
        else:
            self.note("further_failures")

    def expect(self, cond, key, what):
        if not cond:
            self.fail(key, what)
        return bool(cond)

    def pack(self):
        return {"states": sorted(self.states), "transitions": self.transitions, "traces": self.traces,
                "fails": self.fails, "notes": self.notes, "sample": self.sample}


def close(res, key, actual, want, tol, what="", where=None):
    """|actual - want| <= tol elementwise (tol scalar or array, may be +inf where undetermined)."""
    import numpy as np
    res.hold(key, actual)
    a = np.asarray(actual, dtype=float)
    w = np.asarray(want, dtype=float)
    if a.shape != w.shape:
        res.fail(key, "%s shape %s, expected %s" % (what, a.shape, w.shape))
        return False
    t = np.broadcast_to(np.asarray(tol, dtype=float), w.shape)
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(a - w) <= t)
    bad &= ~np.isposinf(t)
    if where is not None:
        bad &= where
    if bad.any():
        k = np.argwhere(bad)[0]
        k = tuple(int(x) for x in k)
        res.fail(key, "%s at %s: got %.9g, expected %.9g (tolerance %.3g); %d of %d entries differ" % (
            what, k, a[k], w[k], t[k], int(bad.sum()), bad.size))
        return False
    return True


def raises(fn, *types):
    """(True, exception) if fn() raises one of `types` (default Exception)."""
    try:
        fn()
    except (types or (Exception,)) as e:   # noqa
        return True, e
    return False, None


# ------------------------------------------------------------------ worker side
def _worker(prop, tier, rfd, wfd, seed):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    rf = os.fdopen(rfd, "rb", buffering=0)
    buf = b""
    while True:
        while b"\n" not in buf:
            d = rf.read(65536)
            if not d:
                os._exit(0)
            buf += d
        line, buf = buf.split(b"\n", 1)
        msg = json.loads(line)
        os.environ["VERIF_SEED"] = str(seed)
        res = Result()
        try:
            r = prop.execute(msg["case"])
            res = r if r is not None else res
        except BaseException as e:  # an escaping exception is an observation too
            tb = traceback.format_exc(limit=-4)
            res.fail("exception:%s" % type(e).__name__, "%s: %s | %s" % (type(e).__name__, e, tb[-400:]))
        out = json.dumps({"i": msg["i"], "r": res.pack()}).encode() + b"\n"
        os.write(wfd, b"")
        mv = memoryview(out)
        while mv:
            n = os.write(wfd, mv)
            mv = mv[n:]


class _Proc:
    def __init__(self, prop, tier, seed):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _worker(prop, tier, r1, w2, seed)
            finally:
                os._exit(70)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r, self.buf = pid, w1, r2, b""
        self.job = None
        self.t0 = 0

    def send(self, i, case):
        self.job = i
        self.t0 = time.time()
        os.write(self.w, json.dumps({"i": i, "case": case}).encode() + b"\n")

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.reap()

    def reap(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            return os.waitpid(self.pid, 0)[1]
        except OSError:
            return None


def explore(prop, tier, seed, nproc=None, stop_after=200):
    """Run every case; returns the aggregated dict."""
    cases = list(prop.cases(tier))
    nproc = min(nproc or min(8, os.cpu_count() or 1), max(1, len(cases)))
    agg = {"cases": len(cases), "states": set(), "transitions": 0, "traces": 0, "fails": [], "notes": {}, "samples": []}
    done = 0
    nxt = 0
    procs = []
    try:
        for _ in range(nproc):
            procs.append(_Proc(prop, tier, seed))
        for p in procs:
            if nxt < len(cases):
                p.send(nxt, cases[nxt])
                nxt += 1
        while done < len(cases):
            live = [p for p in procs if p.job is not None]
            ready, _, _ = select.select([p.r for p in live], [], [], 1.0)
            for p in list(live):
                res = None
                if p.r in ready:
                    d = os.read(p.r, 1 << 20)
                    if not d:   # died
                        st = p.reap()
                        res = {"fails": [{"key": "process-died", "what": "worker ended (status %s) while executing the case" % st}]}
                        procs.remove(p)
                        job = p.job
                        p = _Proc(prop, tier, seed)
                        procs.append(p)
                        p.job = job
                    else:
                        p.buf += d
                        if b"\n" in p.buf:
                            line, p.buf = p.buf.split(b"\n", 1)
                            res = json.loads(line)["r"]
                elif time.time() - p.t0 > CASE_TIMEOUT:
                    p.kill()
                    procs.remove(p)
                    job = p.job
                    p = _Proc(prop, tier, seed)
                    procs.append(p)
                    p.job = job
                    res = {"fails": [{"key": "no-termination", "what": "no result after %d s" % CASE_TIMEOUT}]}
                if res is None:
                    continue
                done += 1
                case = cases[p.job]
                agg["states"].update(res.get("states", ()))
                agg["transitions"] += res.get("transitions", 0)
                agg["traces"] += res.get("traces", 0)
                for k, v in res.get("notes", {}).items():
                    agg["notes"][k] = agg["notes"].get(k, 0) + v
                for f in res.get("fails", ()):
                    agg["fails"].append((case, f))
                if len(agg["samples"]) < 6 and (p.job % max(1, len(cases) // 6) == 0):
                    agg["samples"].append(res.get("sample") or case)
                p.job = None
                if nxt < len(cases) and len(agg["fails"]) < stop_after:
                    p.send(nxt, cases[nxt])
                    nxt += 1
                elif len(agg["fails"]) >= stop_after:
                    done += len(cases) - nxt
                    agg["truncated"] = True
                    nxt = len(cases)
    finally:
        for p in procs:
            p.kill()
    return agg


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].split(None, 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ""
    return out


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    agg = explore(prop, tier, seed)
    known = load_known().get(prop.id, {})
    hit, viol = {}, []
    for case, f in agg["fails"]:
        if f["key"] in known:
            hit.setdefault(f["key"], 0)
            hit[f["key"]] += 1
        else:
            viol.append((case, f))
    rdir = os.path.join(EVID, "replay")
    paths = []
    os.makedirs(EVID, exist_ok=True)
    for n, (case, f) in enumerate(viol[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop.id, n))
        json.dump({"property": prop.id, "case": case, "fail": f}, open(path, "w"), indent=1)
        paths.append(path)
    cov = {"states": len(agg["states"]), "transitions": agg["transitions"],
           "traces_validated_against_impl": agg["traces"], "exhaustive": not agg.get("truncated", False),
           "cases": agg["cases"], "bound": prop.bound[tier] if isinstance(prop.bound, dict) else prop.bound,
           "samples": agg["samples"] or [{"none": True}]}
    if agg["notes"]:
        cov["counters"] = agg["notes"]
    if hit:
        cov["known_findings_seen"] = hit
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(prop.assumptions), "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    tmp = os.path.join(EVID, ".%s.%d" % (prop.id, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop.id + ".json"))
    print("%s %s: %d cases, %d states, %d transitions, %d traces validated, %.1f s" % (
        prop.id, tier, agg["cases"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (prop.id, known[k], k, hit[k]))
    if viol:
        for (case, f), path in zip(viol, paths):
            print("  failing case: %s" % json.dumps(case)[:300])
            print("    [%s] %s" % (f["key"], f["what"]))
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
        if len(viol) > len(paths):
            print("  ... %d failures in total" % len(viol))
        return 1
    return 0
