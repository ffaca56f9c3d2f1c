"""Entry point:  run.py <PROPERTY-ID>... [--tier quick|thorough]   |   run.py --setup   |   run.py --replay FILE"""
import argparse
import importlib
import os
import pkgutil
import shutil
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from mc import build, core  # noqa: E402


def load_props():
    import mc.props as pkg
    out = {}
    for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
        mod = importlib.import_module("mc.props." + m)
        for p in getattr(mod, "PROPS", ()):
            out[p.id] = p
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--repo", default=None, help="development only: another working tree")
    a = ap.parse_args()
    if a.list:
        props = load_props()
        for k in sorted(props):
            print(k, props[k].title)
        return 0
    import logging
    logging.disable(logging.CRITICAL)
    root = build.build(repo=a.repo)
    try:
        build.activate(root)
        props = load_props()
        if a.setup:
            for p in props.values():
                if hasattr(p, "prepare"):
                    p.prepare(a.repo)
                    p.cleanup()
            print("setup: built %d kernels, %d properties" % (len(build.kernel_names(a.repo or build.REPO)), len(props)))
            return 0
        if a.replay:
            import json
            d = json.load(open(a.replay))
            pr = props[d["property"]]
            if hasattr(pr, "prepare"):
                pr.prepare(a.repo)
            r = pr.execute(d["case"])
            if hasattr(pr, "cleanup"):
                pr.cleanup()
            for f in r.fails:
                print("[%s] %s" % (f["key"], f["what"]))
            print("%d failures" % len(r.fails))
            return 1 if r.fails else 0
        todo = sorted(props) if a.props == ["all"] else a.props
        rc = 0
        for p in todo:
            if hasattr(props[p], "prepare"):
                props[p].prepare(a.repo)
            try:
                rc = max(rc, core.run(props[p], a.tier))
            finally:
                if hasattr(props[p], "cleanup"):
                    props[p].cleanup()
        return rc
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)
