"""Mutation campaign: python3 tools/mutate.py OUTDIR [-j N] [pattern]

Makes small syntactic changes to the functions under contract in a scratch copy
of the repository and runs the contracts of the properties concerned; what no
contract notices is run against the unit tests.  Reports the survivors;
deciding whether one is equivalent is left to the reader.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.index import CONCRETE, PROPS  # noqa: E402

PY = "/opt/venv/bin/python"
FILES = {
    "core/events_container.py": "C04",
    "core/container.py": "C04",
    "core/processor.py": "C01 C02 C03 C13 C05 C11",
    "core/movable.py": "C12 C05 C22",
    "core/locatable.py": "C12 C21",
    "core/log.py": "C21",
    "model/shift_amount_activity.py": "C01 C02 C03 C11 C13 C05",
    "model/move_activity.py": "C12 C11 C05",
    "model/basic_activity.py": "C05",
    "model/sequential_activity.py": "C06",
    "model/parallel_activity.py": "C07",
    "model/while_activity.py": "C08",
    "model/helpers.py": "C16",
    "model/base_activities.py": "C09 C10 C20 C16 C06 C07 C11 C14",
    "plugins/delay.py": "C14",
    "plugins/weather.py": "C15",
    "io.py": "C19 C25",
    "plot/log_dataframe.py": "C25",
    "plot/vessel_planning.py": "C25",
    "plot/step_chart.py": "C25",
    "critical_path/dependencies_from_simpy_step.py": "C18 C23",
    "critical_path/simulation_graph.py": "C17",
    "critical_path/base_cp.py": "C17 C26",
    "critical_path/dependencies_from_recorded_activities.py": "C24",
}
ONLY = {"plot/vessel_planning.py": {"get_segments", "get_gantt_chart"}, "critical_path/base_cp.py": {"_make_recorded_activities_df", "combine_logs", "get_log_dataframe_activity", "reshape_log", "add_unique_activity", "get_recorded_activity_df", "get_critical_path_df", "_set_critical_path_df", "__compute_critical_path", "_remove_duplicate_activities"}}
SKIP = {"set_parameters", "__repr__", "log", "log_entry_v0", "log_entry", "pairwise", "order_geometry", "move_over_route"}


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.out = []
        self.fn = []

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def add(self, node, what, f):
        if self.fn:
            self.out.append((node, self.fn[-1], what, f))

    def visit_Compare(self, n):
        m = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
             ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for o in m.get(type(n.ops[0]), []):
            self.add(n, f"{type(n.ops[0]).__name__}->{o.__name__}", lambda x, o=o: x.ops.__setitem__(0, o()))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Div}
        o = m.get(type(n.op))
        if o:
            self.add(n, f"{type(n.op).__name__}->{o.__name__}", lambda x, o=o: setattr(x, "op", o()))
            self.add(n, "left only", "left")
            self.add(n, "right only", "right")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ast.Or if isinstance(n.op, ast.And) else ast.And
        self.add(n, "and<->or", lambda x, o=o: setattr(x, "op", o()))
        for i in range(len(n.values)):
            self.add(n, f"drop operand {i}", lambda x, i=i: x.values.pop(i) if len(x.values) > 2 else x.values.__setitem__(i, x.values[1 - i]))
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, "flip", lambda x: setattr(x, "value", not x.value))
        elif isinstance(n.value, (int, float)):
            self.add(n, "+1", lambda x: setattr(x, "value", x.value + 1))
            if n.value not in (0,):
                self.add(n, "-1", lambda x: setattr(x, "value", x.value - 1))
        elif n.value == "default":
            self.add(n, "str", lambda x: setattr(x, "value", "default2"))

    def visit_UnaryOp(self, n):
        self.add(n, "drop unary", "operand")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n, "if True", lambda x: setattr(x, "test", ast.Constant(True)))
        self.add(n, "if False", lambda x: setattr(x, "test", ast.Constant(False)))
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "ifexp body", "body")
        self.add(n, "ifexp else", "orelse")
        self.generic_visit(n)

    def visit_Call(self, n):
        if not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call)) and not (
            isinstance(n.func, ast.Name) and n.func.id in ("super", "isinstance", "hasattr")
        ):
            for i, k in enumerate(n.keywords):
                self.add(n, f"drop keyword {k.arg}", lambda x, i=i: x.keywords.pop(i))
            if len(n.args) > 1:
                for i in range(len(n.args) - 1):
                    self.add(n, f"swap args {i}", lambda x, i=i: x.args.__setitem__(slice(i, i + 2), [x.args[i + 1], x.args[i]]))
                self.add(n, "drop last arg", lambda x: x.args.pop())
        self.generic_visit(n)

    def visit_arguments(self, n):
        pass

    def visit_For(self, n):
        self.add(n, "skip first", lambda x: setattr(x, "iter", ast.parse(f"list({ast.unparse(x.iter)})[1:]").body[0].value))
        self.add(n, "skip last", lambda x: setattr(x, "iter", ast.parse(f"list({ast.unparse(x.iter)})[:-1]").body[0].value))
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "->break", "BREAK")

    def visit_Break(self, n):
        self.add(n, "->continue", "CONTINUE")

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            l = getattr(n, f, None)
            if isinstance(l, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for i, s in enumerate(l):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
                    ):
                        self.add(s, "delete statement", "PASS")
        super().generic_visit(n)


def mutants(path, src, only):
    tree = ast.parse(src)
    v = Sites()
    v.visit(tree)
    nodes = list(ast.walk(tree))
    idx = {id(n): i for i, n in enumerate(nodes)}
    for node, fn, what, f in v.out:
        if fn in SKIP or (only and fn not in only):
            continue
        t = copy.deepcopy(tree)
        ns = list(ast.walk(t))
        x = ns[idx[id(node)]]
        if f in ("PASS", "BREAK", "CONTINUE") or isinstance(f, str):
            new = {"PASS": ast.Pass(), "BREAK": ast.Break(), "CONTINUE": ast.Continue()}.get(f) or getattr(x, f)
            for p in ns:
                for k, val in ast.iter_fields(p):
                    if val is x:
                        setattr(p, k, new)
                    elif isinstance(val, list):
                        for i, y in enumerate(val):
                            if y is x:
                                val[i] = new
        else:
            f(x)
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            compile(s, path, "exec")
        except Exception:  # noqa: BLE001
            continue
        if s != ast.unparse(tree):
            yield dict(file=path, fn=fn, line=node.lineno, what=what, text=ast.unparse(node)[:120]), s


def contracts_of(props):
    out = {}
    for p in props.split():
        for m, k in PROPS[p]["contracts"]:
            if k not in CONCRETE:
                out[k] = m
    return out


def slow(k):
    return ("shift" in k) + ("phase" in k) + (k in ("C03/shift", "C05/shift", "C04/events-two", "C19/level"))


def run(job):
    m, src, out, w = job
    W = f"{out}/w{w.get()}"
    n = W.rsplit("w", 1)[1]
    try:
        return run1(m, src, W)
    finally:
        w.put(int(n))


def run1(m, src, W):
    f = f"{W}/src/openclsim/{m['file']}"
    orig = open(f).read()
    try:
        open(f, "w").write(src)
        env = dict(os.environ, PYTHONPATH=W + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PROJ_NETWORK="OFF",
                   MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYDED_REPO=W)
        notes = []
        for k, mod in sorted(contracts_of(FILES[m["file"]]).items(), key=lambda kv: slow(kv[0])):
            o = f"{W}/.out.json"
            try:
                subprocess.run([PY, "-m", "pyded.worker", "sym", k, "--mod", mod, "--budget", "200", "--out", o], cwd=V, env=env,
                               capture_output=True, timeout=400)
                r = json.load(open(o))
            except Exception as e:  # noqa: BLE001
                notes.append(f"{k}: {e!r}"[:200])
                continue
            if r.get("failures"):
                return dict(m, verdict="caught", by=k, how=r["failures"][0]["name"], notes=notes)
            if r["status"] != "ok" or r.get("exceptions") or r["undecided"] or not r["completed"]:
                why = r.get("reason") or (r["exceptions"][0]["detail"][-160:] if r.get("exceptions") else str(r["undecided"][:1]))
                subprocess.run([PY, "-m", "pyded.worker", "search", k, "--mod", mod, "-n", "1500", "--seconds", "30", "--out", o], cwd=V, env=env,
                               capture_output=True, timeout=400)
                c = json.load(open(o))
                for b in c.get("bad", []):
                    if b["outcome"] == "fail":
                        return dict(m, verdict="caught", by=k, how="search: " + b["failures"][0][0], notes=notes)
                    if b["outcome"] == "exception":
                        return dict(m, verdict="caught", by=k, how="search exception: " + b["tb"].strip().splitlines()[-1][:150], notes=notes)
                notes.append(f"{k}: {why}"[:200])
        try:
            r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "-o", "addopts=", "--timeout=60",
                                "--disable-warnings"], cwd=W, env=env, capture_output=True, text=True, timeout=200)
            if r.returncode:
                return dict(m, verdict="tests")
        except subprocess.TimeoutExpired:
            return dict(m, verdict="tests")
        return dict(m, verdict="SURVIVED", notes=notes)
    finally:
        open(f, "w").write(orig)


def main():
    out = sys.argv[1]
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    pat = re.compile(sys.argv[-1] if len(sys.argv) % 2 == 1 else ".")
    os.makedirs(out, exist_ok=True)
    import queue

    w = queue.Queue()
    for i in range(j):
        shutil.rmtree(f"{out}/w{i}", ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", f"{out}/w{i}"], check=True)
        w.put(i)
    jobs = []
    for f in FILES:
        if pat.search(f):
            src = open(f"/repo/src/openclsim/{f}").read()
            jobs += [(m, s, out, w) for m, s in mutants(f, src, ONLY.get(f))]
    print(len(jobs), "mutants", flush=True)
    n = {}
    with cf.ThreadPoolExecutor(j) as ex, open(f"{out}/results.jsonl", "a") as o:
        for r in ex.map(run, jobs):
            n[r["verdict"]] = n.get(r["verdict"], 0) + 1
            o.write(json.dumps(r) + "\n")
            o.flush()
    print(n)


if __name__ == "__main__":
    main()
