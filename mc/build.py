"""Build the package under test from /repo's *working tree*, outside /repo.

The Python sources are copied and every Fortran kernel is wrapped and compiled with the
same commands and flags as the project's own meson build (f2py --lower, gfortran/gcc -O3).
Nothing is read from /opt/falwa-build or from the editable install.

Compiled kernels may be reused from a cache keyed by the sha256 of (source text, flags,
numpy version); the cache is an accelerator only and its absence changes nothing.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("FALWA_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
FC = "/usr/bin/gfortran"
CC = "/usr/bin/gcc"
DEFAULT_KERNELS = [
    "compute_flux_dirinv", "compute_lwa_only_nhn22", "compute_qgpv_direct_inv", "compute_qgpv",
    "compute_qref_and_fawa_first", "compute_reference_states", "matrix_after_inversion",
    "matrix_b4_inversion", "upward_sweep"]


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def kernel_names(repo):
    """Kernels listed in the project's own build description (fall back to the known list)."""
    try:
        text = open(os.path.join(repo, "src/falwa/f90_modules/meson.build")).read()
        m = re.search(r"f90_basenames\s*=\s*\[(.*?)\]", text, re.S)
        names = re.findall(r"'([A-Za-z0-9_]+)'", m.group(1))
        if names:
            return names
    except Exception:
        pass
    return list(DEFAULT_KERNELS)


def _build_kernel(repo, name, outdir, fflags):
    import numpy
    import numpy.f2py
    src = os.path.join(repo, "src/falwa/f90_modules", name + ".f90")
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    so = os.path.join(outdir, name + ext)
    key = hashlib.sha256()
    key.update(open(src, "rb").read())
    key.update(repr((name, fflags, numpy.__version__, sys.version)).encode())
    cached = os.path.join(CACHE, key.hexdigest() + ext)
    if os.path.exists(cached):
        shutil.copyfile(cached, so)
        return
    work = tempfile.mkdtemp(prefix="k_" + name + "_", dir=outdir)
    local = os.path.join(work, name + ".f90")
    shutil.copyfile(src, local)
    _run([PY, "-m", "numpy.f2py", local, "-m", name, "--build-dir", work, "--lower"], work)
    inc = ["-I" + work, "-I" + numpy.get_include(), "-I" + numpy.f2py.get_include(),
           "-I" + sysconfig.get_path("include")]
    fobj = os.path.join(numpy.f2py.get_include(), "fortranobject.c")
    objs = []
    for s, cc in ((os.path.join(work, name + "module.c"), CC), (fobj, CC),
                  (os.path.join(work, name + "-f2pywrappers.f"), FC),
                  (os.path.join(work, name + "-f2pywrappers2.f90"), FC), (local, FC)):
        if not os.path.exists(s):
            continue
        o = os.path.join(work, os.path.basename(s) + ".o")
        flags = list(fflags) if s == local else ["-O1"] if cc == CC else ["-O3"]
        _run([cc, *inc, "-fvisibility=hidden", "-DNDEBUG", "-fPIC", "-w", *flags, "-c", s, "-o", o], work)
        objs.append(o)
    _run([FC, "-shared", "-fPIC", "-o", so, *objs], work)
    shutil.rmtree(work)
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = cached + ".%d" % os.getpid()
        shutil.copyfile(so, tmp)
        os.replace(tmp, cached)
    except OSError:
        pass


def build(fflags=("-O3",), repo=None):
    """Return a fresh scratch directory holding an importable `falwa` package."""
    repo = repo or REPO
    root = tempfile.mkdtemp(prefix="falwa_mc_")
    pkg = os.path.join(root, "falwa")
    os.mkdir(pkg)
    srcdir = os.path.join(repo, "src/falwa")
    for base, dirs, files in os.walk(srcdir):
        dirs[:] = [d for d in dirs if d not in ("__pycache__", "f90_modules")]
        rel = os.path.relpath(base, srcdir)
        dst = os.path.normpath(os.path.join(pkg, rel))
        os.makedirs(dst, exist_ok=True)
        for f in files:
            if f.endswith(".py"):
                shutil.copyfile(os.path.join(base, f), os.path.join(dst, f))
    try:
        with cf.ThreadPoolExecutor(max_workers=9) as ex:
            list(ex.map(lambda n: _build_kernel(repo, n, pkg, tuple(fflags)), kernel_names(repo)))
    except BaseException:
        shutil.rmtree(root, ignore_errors=True)
        raise
    return root


def activate(root):
    """Make `import falwa` resolve to the scratch build (never to the editable install)."""
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [f for f in sys.meta_path if "mesonpy" not in type(f).__module__.lower()
                        and "editable" not in type(f).__module__.lower()
                        and "MesonpyMetaFinder" not in type(f).__name__]
    for m in [m for m in sys.modules if m == "falwa" or m.startswith("falwa.")]:
        del sys.modules[m]
    sys.path.insert(0, root)
    import falwa
    assert os.path.dirname(os.path.dirname(os.path.abspath(falwa.__file__))) == os.path.abspath(root), falwa.__file__
    return falwa
