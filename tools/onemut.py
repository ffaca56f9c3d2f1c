"""Development tool: run quick checks in order on another tree, stop at the first that reports.  Last line: KILLED Cxx key | SURVIVED | INVALID"""
import os
import shutil
import sys
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging
logging.disable(logging.CRITICAL)
from mc import build, core, run  # noqa
core.CASE_TIMEOUT = 200.
tree, ids = sys.argv[1], sys.argv[2:]
try:
    root = build.build(repo=tree)
except build.BuildError as e:
    print("INVALID build")
    sys.exit()
try:
    try:
        build.activate(root)
    except BaseException as e:
        print("INVALID import %s" % e)
        sys.exit()
    props = run.load_props()
    for i in ids:
        p = props[i]
        if hasattr(p, "prepare"):
            try:
                p.prepare(tree)
            except build.BuildError:
                continue
        agg = core.explore(p, "quick", 1, nproc=int(os.environ.get("MUT_NPROC", "8")), stop_after=1)
        if hasattr(p, "cleanup"):
            p.cleanup()
        if agg["fails"]:
            f = agg["fails"][0][1]
            print("KILLED %s %s %s" % (i, f["key"], f["what"].replace("\n", " ")[:120]))
            break
    else:
        print("SURVIVED")
finally:
    shutil.rmtree(root, ignore_errors=True)
