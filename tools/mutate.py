"""Development tool: systematic single-token mutants of the package; reports the ones no quick check notices.
   python tools/mutate.py OUT.jsonl [--files a,b] [--stride n] [--offset k] [--jobs j]"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
S = "src/falwa/"
ORDER = {
    "basis.py": "C01 C02 C03 C04 C05 C36", "wrapper.py": "C04 C03 C05 C01 C36", "utilities.py": "C06 C07 C11 C20 C36",
    "barotropic_field.py": "C05 C36", "stat_utils.py": "C08", "netcdf_utils.py": "C09", "preprocessing.py": "C35",
    "xarrayinterface.py": "C27 C28 C29 C30 C31 C32", "legacy/beta_version.py": "C33",
    "data_storage.py": "C24 C26 C18 C21 C16 C17 C34 C10 C32 C27 C36",
    "oopinterface.py": "C11 C12 C13 C14 C16 C15 C18 C19 C20 C21 C22 C34 C24 C26 C17 C10 C23 C25 C32 C29 C36 C28 C27",
    "f90_modules": "C12 C13 C14 C15 C16 C18 C19 C20 C21 C22 C36 C34 C24 C23 C25 C17 C10",
}


def order(f):
    for k, v in ORDER.items():
        if f.endswith(k):
            return v.split()
    return ORDER["f90_modules"].split()


def py_mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def rep(a, b, new):
        return (raw[:a] + new.encode() + raw[b:]).decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    annot = set()
    for n in ast.walk(tree):
        for fld in ("annotation", "returns"):
            a = getattr(n, fld, None)
            if isinstance(a, ast.AST):
                annot.update(ast.walk(a))
    OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*")}
    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}
    out = []
    for n in ast.walk(tree):
        if n in annot:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = raw[a:b].decode()
            o, w = OPS[type(n.op)]
            if o in mid:
                i = mid.index(o)
                out.append((n.lineno, "op %s->%s" % (o, w), rep(a, b, mid[:i] + w + mid[i + len(o):])))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            mid = raw[a:b].decode()
            o, w = CMP[type(n.ops[0])]
            out.append((n.lineno, "cmp %s->%s" % (o, w), rep(a, b, mid.replace(o, w, 1))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = pos(n.lineno, n.col_offset), pos(n.operand.lineno, n.operand.col_offset)
            out.append((n.lineno, "drop unary", rep(a, b, "")))
        elif isinstance(n, ast.Constant) and n not in docs and type(n.value) in (int, float):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            out.append((n.lineno, "const %r+1" % n.value, rep(a, b, repr(n.value + 1))))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            out.append((n.lineno, "bool", rep(a, b, repr(not n.value))))
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            a, b = pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset)
            out.append((n.lineno, "negate if", rep(a, b, "not (" + raw[a:b].decode() + ")")))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            out.append((n.lineno, "delete statement", rep(a, b, "pass")))
        elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
            name = n.attr if isinstance(n, ast.Attribute) else n.id
            for x, y in (("_nhem", "_shem"), ("_shem", "_nhem"), ("_n", "_s"), ("_s", "_n"), ("nlat", "nlon"), ("nlon", "nlat"), ("dphi", "dlambda"),
                         ("ylat", "ylat_no_equator"), ("dlambda", "dphi"), ("_lat", "_lon")):
                if name.endswith(x):
                    new = name[:-len(x)] + y
                    b = pos(n.end_lineno, n.end_col_offset)
                    out.append((n.lineno, "name %s->%s" % (name, new), rep(b - len(name.encode()), b, new)))
                    break
    return out


def f_mutants(src):
    lines = src.split("\n")
    out = []
    for i, ln in enumerate(lines):
        code = ln.split("!")[0]
        low = code.strip().lower()
        if not low or low.startswith(("subroutine", "end", "integer", "real", "use", "implicit", "write", "call", "&")) or "intent" in low or "::" in low:
            if not low.startswith("&"):
                continue

        def put(new, d):
            if new != code:
                out.append((i + 1, d, "\n".join(lines[:i] + [new + ln[len(code):]] + lines[i + 1:])))
        pats = [(r"(?<=[\w\)\s\.])\+(?=[\w\(\s])", "-"), (r"(?<=[\w\)\s])-(?=[\w\(\s])", "+"), (r"\*(?!\*)(?<!\*\*)", "/"), (r"/(?!/)", "*"),
                (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\.lt\.|<(?!=)", "<="), (r"\.gt\.|>(?!=)", ">="), (r"\.le\.|<=", "<"), (r"\.ge\.|>=", ">"),
                (r"\b2\.", "1."), (r"\b0\.5\b", "1."), (r"\bdphi\b", "dlam"), (r"\bdlambda\b", "dphi"), (r"\bdz\b", "(2.*dz)"), (r"\bjd\b", "(jd-1)"), (r"\bkmax\b", "(kmax-1)"),
                (r"\bnlon\b", "(nlon-1)"), (r"\bnlat\b", "(nlat-1)"), (r"\bj\+1\b", "j"), (r"\bj-1\b", "j"), (r"\bk\+1\b", "k"), (r"\bk-1\b", "k"), (r"\bi\+1\b", "i"), (r"\bi-1\b", "i"),
                (r"\bjb\b", "(jb+1)"), (r"\buref\b", "0.*uref"), (r"\b1\b", "2")]
        for p, w in pats:
            for m in re.finditer(p, code):
                put(code[:m.start()] + w + code[m.end():], "%s->%s@%d" % (m.group(0), w, m.start()))
        if re.match(r"^[a-z_]\w*(\(.*?\))?\s*=", low) and not low.startswith("do "):
            put(re.match(r"\s*", code).group(0) + "continue", "delete statement")
    return out


def worker(args):
    f, line, desc, new, nproc = args
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(tmp, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(tmp, f), "w").write(new)
        env = dict(os.environ, VERIF_EVIDENCE=os.path.join(tmp, "ev"), MUT_NPROC=str(nproc))
        try:
            p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "tools/onemut.py"), tmp] + order(f), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            last = p.stdout.strip().splitlines()[-1:] or ["?"]
            return f, line, desc, last[0][:300]
        except subprocess.TimeoutExpired:
            return f, line, desc, "TIMEOUT"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    files = []
    for base, _, fs in os.walk(os.path.join(REPO, S)):
        for x in sorted(fs):
            p = os.path.relpath(os.path.join(base, x), REPO)
            if x.endswith((".py", ".f90")) and "__pycache__" not in p and x not in ("__init__.py", "constant.py", "plot_utils.py", "interpolate_fields_direct_inv.f90"):
                if not a.files or any(p.endswith(q) for q in a.files.split(",")):
                    files.append(p)
    todo = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        ms = sorted(set((py_mutants if f.endswith(".py") else f_mutants)(src)), key=lambda m: (m[0], m[1]))
        print(f, len(ms), flush=True)
        todo += [(f, *m, max(1, 8 // a.jobs)) for m in ms]
    todo = todo[a.offset::a.stride]
    print(len(todo), "mutants", flush=True)
    if a.count:
        return
    done = set()
    if os.path.exists(a.out):
        for ln in open(a.out):
            d = json.loads(ln)
            done.add((d["f"], d["line"], d["desc"]))
    with open(a.out, "a") as out, cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(worker, [t for t in todo if (t[0], t[1], t[2]) not in done]):
            out.write(json.dumps(dict(zip(("f", "line", "desc", "res"), r))) + "\n")
            out.flush()


main()
