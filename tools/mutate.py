"""Systematic first-order mutants of the repository's sources, and which checks kill them.

mutate.py list FILE...                 number of mutants per file
mutate.py run OUT.jsonl WORKERS FILE[:k/n]... [-- C05 C10 ...]
Each mutant lives in a scratch copy of /repo; it is kept only if the stable tests pass with it."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT = {
    "decoder_top.py": "C01 C02 C03 C04 C10 C11 C20 C24", "utilities/bits.py": "C05 C07 C10 C01",
    "utilities/CRC24Q.py": "C01 C03", "utilities/RTCM_utilities.py": "C08 C09 C11 C15",
    "sub_decoders/RTCM_MSM.py": "C07 C08 C09 C10 C17", "sub_decoders/RTCM_BASE.py": "C06 C10 C17",
    "sub_decoders/RTCM_EPH.py": "C05 C10 C17", "printers/margo_printer.py": "C13 C14 C15 C19 C21 C20 C23 C24",
    "printers/json_printer.py": "C12 C11 C19 C21 C20 C23 C24", "printer_top.py": "C11 C12 C16 C20 C21 C23",
    "converter_top.py": "C11 C16 C20", "controls.py": "C19", "run_conversion.py": "C18 C22 C20 C21 C23 C02 C03 C19",
    "logger.py": "C18 C20 C21", "gnss_types/data_class_methods.py": "C25 C06",
    "gnss_types/observables.py": "C07 C08 C12 C17 C25", "gnss_types/base_station.py": "C06 C17 C25",
    "gnss_types/ephemeris.py": "C05 C17 C25",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.LShift: ast.RShift,
       ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.Pow: ast.Mult}


def quiet(node):
    """Texts for people: not behaviour."""
    if isinstance(node, ast.Call):
        f = node.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        base = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else ""
        return base == "logger" and n not in ("init_2CH", "deinit", "progress") or n == "print" and not base
    return isinstance(node, ast.JoinedStr) or isinstance(node, ast.Raise)


def mutants(src):
    """Yield (line, description, new source)."""
    tree = ast.parse(src)
    sites = []

    def walk(node, inside):
        if quiet(node):
            return
        for fld, val in ast.iter_fields(node):
            if fld in ("annotation", "returns", "type_comment", "decorator_list"):
                continue
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        yield node, fld, i, x
                        yield from walk(x, inside)
            elif isinstance(val, ast.AST):
                yield node, fld, None, val
                yield from walk(val, inside)

    sites = list(walk(tree, False))

    def out(node, fld, i, new):
        lst = getattr(node, fld)
        if i is None:
            setattr(node, fld, new)
        else:
            old, lst[i] = lst[i], new
        try:
            s = ast.unparse(ast.fix_missing_locations(tree))
        finally:
            if i is None:
                setattr(node, fld, lst)
            else:
                lst[i] = old
        return s

    for node, fld, i, x in sites:
        line = getattr(x, "lineno", 0)
        if isinstance(x, ast.Compare):
            for k, op in enumerate(x.ops):
                y = copy.deepcopy(x)
                y.ops[k] = CMP[type(op)]()
                yield line, f"{ast.unparse(x)} -> {ast.unparse(y)}", out(node, fld, i, y)
        elif isinstance(x, ast.BoolOp):
            y = copy.deepcopy(x)
            y.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield line, f"{ast.unparse(x)} -> {ast.unparse(y)}", out(node, fld, i, y)
            for k in range(len(x.values)):
                y = copy.deepcopy(x)
                del y.values[k]
                if len(y.values) == 1:
                    y = y.values[0]
                yield line, f"{ast.unparse(x)} -> {ast.unparse(y)}", out(node, fld, i, y)
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)) and not isinstance(x.operand, ast.Constant):
            yield line, f"{ast.unparse(x)} -> {ast.unparse(x.operand)}", out(node, fld, i, x.operand)
        elif isinstance(x, ast.BinOp):
            y = copy.deepcopy(x)
            y.op = BIN.get(type(x.op), ast.Add)()
            yield line, f"{ast.unparse(x)} -> {ast.unparse(y)}", out(node, fld, i, y)
        elif isinstance(x, ast.Constant) and type(x.value) in (int, float) and fld != "slice":
            for v in {x.value + 1, x.value - 1} if isinstance(x.value, int) else {x.value * 1.0001}:
                yield line, f"constant {x.value} -> {v}", out(node, fld, i, ast.Constant(v))
        elif isinstance(x, ast.Constant) and isinstance(x.value, bool):
            yield line, f"constant {x.value} -> {not x.value}", out(node, fld, i, ast.Constant(not x.value))
        elif isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) and x.value and \
                not isinstance(node, ast.Expr) and len(x.value) < 25:
            z = b"" if isinstance(x.value, bytes) else ""
            yield line, f"constant {x.value!r} -> {z!r}", out(node, fld, i, ast.Constant(z))
        elif isinstance(x, ast.IfExp):
            for y in (x.body, x.orelse):
                yield line, f"{ast.unparse(x)} -> {ast.unparse(y)}", out(node, fld, i, y)
        elif isinstance(x, (ast.Continue, ast.Break)):
            yield line, f"{ast.unparse(x)} -> pass", out(node, fld, i, ast.Pass())
            y = ast.Break() if isinstance(x, ast.Continue) else ast.Continue()
            yield line, f"{ast.unparse(x)} -> {ast.unparse(y)}", out(node, fld, i, y)
        elif isinstance(x, (ast.Assign, ast.AugAssign)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and \
                not quiet(x.value):
            yield line, f"{ast.unparse(x)[:80]} -> pass", out(node, fld, i, ast.Pass())
        elif isinstance(x, ast.If):
            for v in (True, False):
                y = copy.copy(x)
                y.test = ast.Constant(v)
                yield line, f"if {ast.unparse(x.test)[:60]} -> if {v}", out(node, fld, i, y)
        elif isinstance(x, ast.ExceptHandler) and x.type is not None:
            y = copy.copy(x)
            y.type = ast.Name("ZeroDivisionError", ast.Load())
            yield line, f"except {ast.unparse(x.type)} -> never", out(node, fld, i, y)


TEST = r'''
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 LANG=C.UTF-8 PYTHONPATH=/opt/vp/plugin
cd "$1" && timeout 60 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider -p bool_results --rootdir="$1" --timeout=20 . >/dev/null 2>&1 &&
timeout 60 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider -p bool_results --rootdir="$1" tests/base_data_test_samples.py::test_compare_method >/dev/null 2>&1
'''


LIMIT = os.environ.get("MUT_LIMIT", "90")


def run(cmd, env):
    """In its own session, so that workers left behind by a time-out are ended too."""
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    out, err = p.communicate()
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def one(args):
    f, k, line, what, src, checks = args
    d = tempfile.mkdtemp(prefix="mut", dir="/dev/shm")
    rec = {"file": f, "n": k, "line": line, "what": what}
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git", "DOCs", "__pycache__"))
        with open(os.path.join(repo, f), "w") as h:
            h.write(src)
        if run(["bash", "-c", TEST, "x", repo], os.environ).returncode:
            rec["result"] = "tests"
            return rec
        if checks == ["none"]:
            rec["result"] = "survived"
            return rec
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_PROCS="2",
                   PYTHONDONTWRITEBYTECODE="1")
        vd = os.path.join(d, "verif")
        shutil.copytree(ROOT, vd, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replay", "__pycache__"))
        odd = []
        for c in checks:
            try:
                r = run(["timeout", "-k", "5", LIMIT, sys.executable, os.path.join(vd, "check.py"), c], env)
            except subprocess.TimeoutExpired:
                odd.append(c + ":timeout")
                continue
            if r.returncode in (124, 137):
                odd.append(c + ":timeout")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                rec["result"], rec["by"] = "killed", c
                return rec
            if r.returncode:
                odd.append(f"{c}:{r.returncode} {r.stderr[-300:]}")
        rec["result"] = "survived"
        if odd:
            rec["odd"] = odd
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or DEFAULT:
            print(f, len(list(mutants(open(os.path.join(REPO, f)).read()))))
        return
    out, workers = sys.argv[2], int(sys.argv[3])
    fs, checks = sys.argv[4:], None
    if "--" in fs:
        i = fs.index("--")
        fs, checks = fs[:i], fs[i + 1:]
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["n"]) for r in map(json.loads, open(out))}
    only = None
    if os.environ.get("MUT_ONLY"):      # a former run: take its survivors
        only = {(r["file"], r["n"]) for r in map(json.loads, open(os.environ["MUT_ONLY"])) if r["result"] == "survived"}
    jobs = []
    for f in fs:
        f, _, part = f.partition(":")
        a, b = (int(x) for x in part.split("/")) if part else (0, 1)
        for k, (line, what, src) in enumerate(mutants(open(os.path.join(REPO, f)).read())):
            if k % b == a and (f, k) not in done and (only is None or (f, k) in only):
                jobs.append((f, k, line, what, src, checks or DEFAULT[f].split()))
    print(len(jobs), "mutants", flush=True)
    n = {}
    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as h:
        for r in (f.result() for f in cf.as_completed([ex.submit(one, j) for j in jobs])):
            n[r["result"]] = n.get(r["result"], 0) + 1
            h.write(json.dumps(r) + "\n")
            h.flush()
    print(n)


if __name__ == "__main__":
    main()
