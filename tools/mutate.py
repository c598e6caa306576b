"""Mutation testing of the checks (a tool, not a check).
  mutate.py list OUT.json [FILE ...]         all mutants of the core sources
  mutate.py tests IN.json OUT.json           keeps those which pass the stable tests
  mutate.py checks IN.json OUT.jsonl         runs checks (1 process each, 8 mutants at a time) on each until one catches it
Works on scratch copies under /tmp/mut only."""
import ast, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_W", "/tmp/mut")
PKG = "ama_xiv_combat_sim/"
S = PKG + "simulator/"
FILES = {
    S + "calcs/compute_damage_utils.py": "C02 C03 C05 C04 C18",
    S + "calcs/stat_fns.py": "C01 C02 C06",
    S + "damage_simulator.py": "C05 C04 C20 C21 C18",
    S + "processed_stats.py": "C01 C02 C13",
    S + "stats.py": "C01 C02",
    S + "utils.py": "C12 C22 C06 C07 C01 C09",
    S + "rotation_import_utils/csv_utils.py": "C19",
    S + "skills/create_skill_library.py": "C17 C26 C24",
    S + "skills/skill.py": "C12 C26 C15 C27 C17 C18",
    S + "skills/skill_library.py": "C26 C27 C17",
    S + "skills/skill_modifier.py": "C12 C16 C07 C22",
    S + "specs/channeling_spec.py": "C23 C27",
    S + "specs/damage_spec.py": "C02 C05 C17 C22 C27",
    S + "specs/follow_up.py": "C07 C08 C27",
    S + "specs/job_resource_settings.py": "C11 C27",
    S + "specs/job_resource_spec.py": "C11 C27",
    S + "specs/status_effect_spec.py": "C09 C27",
    S + "specs/timing_spec.py": "C07 C06 C27",
    S + "timeline_builders/damage_builder.py": "C09 C15 C10 C11 C16 C22 C05 C18",
    S + "timeline_builders/rotation_builder.py": "C07 C06 C08 C13 C14 C25 C16 C15 C22 C19 C09 C11 C27 C18",
    S + "timeline_builders/snapshot_and_application_events.py": "C07 C25 C13 C08 C16",
    S + "trackers/channeling_tracker.py": "C23 C13",
    S + "trackers/combo_tracker.py": "C10",
    S + "trackers/damage_tracker.py": "C05 C04 C20 C21",
    S + "trackers/job_resource_tracker.py": "C11",
    S + "trackers/status_effect_tracker.py": "C09",
    S + "trackers/status_effects.py": "C09",
    S + "game_data/specific_skills.py": "C17",
    S + "game_data/generic_job_class.py": "C17",
    S + "game_data/get_job_class_fns.py": "C01 C17",
    S + "game_data/job_class_fns.py": "C01 C17 C02",
    S + "game_data/game_consts.py": "C01 C02",
    PKG + "kill_time_estimator/kill_time_estimator.py": "C20",
    PKG + "rotation_analysis/rotation_analysis_utils.py": "C21",
    PKG + "example_rotations/example_rotation_utils.py": "C24",
    PKG + "example_rotations/specific_rotations.py": "C24",
    PKG + "example_rotations/get_example_rotations.py": "C24",
    PKG + "example_rotations/add_rotation_to_rotation_library.py": "C24",
}
ALL = ["C%02d" % i for i in range(1, 60) if os.path.exists(f"{V}/pbt/checks/c{i:02d}.py")]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = span(n)
        return b[i:j].decode()

    out = []

    def rep(n, new, kind):
        i, j = span(n)
        out.append(dict(file=path, line=n.lineno, kind=kind, i=i, j=j, old=b[i:j].decode(), new=new))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert,)) or (isinstance(n, ast.FunctionDef) and n.name in ("__str__", "_print_q")):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n)); skip.add(id(n.value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print":
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                skip.add(id(c))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                rep(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.Compare):
            parts = [text(n.left)] + [text(c) for c in n.comparators]
            sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
            for k in range(len(n.ops)):
                s = parts[0]
                for m, op in enumerate(n.ops):
                    s += f" {CMP[type(op)] if m == k else sym[type(op)]} {parts[m + 1]}"
                rep(n, s, "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
            if isinstance(n.op, (ast.Add, ast.Mult)):
                rep(n, f"({text(n.left)})", "binleft")
                rep(n, f"({text(n.right)})", "binright")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            rep(n, "(" + f" {o} ".join(f"({text(v)})" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                o2 = "and" if o == "or" else "or"
                rep(n, "(" + f" {o2} ".join(f"({text(v)})" for m, v in enumerate(n.values) if m != k) + ")", "booldrop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({text(n.operand)})", "not")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, str(n.value + 1), "const")
            if n.value not in (0,):
                rep(n, f"({n.value - 1})", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value == "":
            rep(n, '"x"', "const")
        elif isinstance(n, ast.Constant) and n.value is None:
            rep(n, "0", "const")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "iftrue")
            rep(n.test, "False", "iffalse")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({text(n.body)})", "ifexp")
            rep(n, f"({text(n.orelse)})", "ifexp")
        elif isinstance(n, ast.While):
            rep(n.test, f"False", "while")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ("np.floor", "math.floor", "copy.deepcopy", "copy.copy", "sorted", "abs", "list", "set", "np.ceil", "round", "int", "tuple") and len(n.args) >= 1:
                rep(n, f"({text(n.args[0])})", "unwrap")
            if f in ("min", "max", "np.minimum", "np.maximum", "any", "all"):
                m = {"min": "max", "max": "min", "any": "all", "all": "any", "np.minimum": "np.maximum", "np.maximum": "np.minimum"}[f]
                rep(n.func, m, "minmax")
            for k in n.keywords:
                if k.arg:
                    i, j = span(k)
                    # drop the keyword with its comma
                    e = j
                    while e < len(b) and b[e:e + 1] in b" \n":
                        e += 1
                    if b[e:e + 1] == b",":
                        e += 1
                    out.append(dict(file=path, line=k.lineno, kind="kwdrop", i=i, j=e, old=b[i:e].decode(), new=""))
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                last = n.args[-1]
                prev = n.args[-2]
                out.append(dict(file=path, line=last.lineno, kind="argdrop", i=span(prev)[1], j=span(last)[1], old=text(last), new=""))
                if text(n.args[0]) != text(n.args[1]):
                    pass
        elif isinstance(n, ast.Break):
            rep(n, "continue", "flow")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "flow")
            rep(n, "pass", "flow")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, text(n.value), "slice")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ("primary", "secondary"):
            rep(n, f"{text(n.value)}." + ("secondary" if n.attr == "primary" else "primary"), "attr")
        if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant)):
            rep(n, "pass", "stmtdel")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n, "return None", "retnone")
    # compiles and differs
    res, seen = [], set()
    for m in out:
        new = (b[:m["i"]] + m["new"].encode() + b[m["j"]:])
        if new in seen or new == b:
            continue
        seen.add(new)
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        res.append(m)
    return res


def setup(k):
    d = f"{W}/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f"cp -a /repo {d}/repo && rm -rf {d}/repo/.git", shell=True, check=True)
    for s in ("test.sh",):
        t = open("/opt/vp/" + s).read().replace("/opt/vp/reports", "@R@").replace("/repo", d + "/repo").replace("@R@", d + "/xml")
        open(f"{d}/{s}", "w").write(t.replace("pytest -q", "pytest -q --maxfail=3"))
    subprocess.run(f"mkdir -p {d}/verif && cp -a {V}/pbt {V}/golden {V}/known_findings.json {d}/verif/", shell=True, check=True)
    return d


class Mutated:
    def __init__(self, d, m):
        self.p = f"{d}/repo/{m['file']}"
        self.m = m

    def __enter__(self):
        self.orig = open(self.p, "rb").read()
        m = self.m
        open(self.p, "wb").write(self.orig[:m["i"]] + m["new"].encode() + self.orig[m["j"]:])

    def __exit__(self, *a):
        open(self.p, "wb").write(self.orig)


def pool(items, fn, n=int(os.environ.get("MUT_N", "8"))):
    q = queue.Queue()
    for k in range(n):
        q.put(setup(k))

    def job(it):
        d = q.get()
        try:
            return fn(d, it)
        finally:
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        yield from ex.map(job, items)
    shutil.rmtree(W, ignore_errors=True)


def run_tests(d, m):
    with Mutated(d, m):
        env = dict(os.environ, PYTHONPATH=f"{d}/repo:/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        try:
            r = subprocess.run(["bash", f"{d}/test.sh", f"{d}/out.json"], cwd=d, env=env, capture_output=True, text=True, timeout=200)
            out = json.load(open(f"{d}/out.json"))
        except Exception:
            return m, False
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        return m, base <= set(out.get("passed", []))


def run_checks(d, m):
    with Mutated(d, m):
        env = dict(os.environ, PYTHONPATH=f"{d}/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_PROCS="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_SEED="1", VERIF_TIER="quick",
                   VERIF_BUDGET="300", VERIF_SHRINK="0", VERIF_SCALE=os.environ.get("MUT_SCALE", "1"))
        order = FILES[m["file"]].split()
        if os.environ.get("MUT_ALL"):
            order = [c for c in ALL if c not in order]
        log = []
        for c in order:
            t = time.time()
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pbt.main", c], cwd=f"{d}/verif", env=env, capture_output=True,
                                   text=True, timeout=900)
                rc, o = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                rc, o = 124, ""
            log.append((c, rc, round(time.time() - t)))
            if rc == 1:
                return m, c, [l for l in o.split("\n") if l.startswith("suite")][:1], log
            if rc not in (0, 1):
                log.append(o[-600:])
        return m, None, [], log


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        res = []
        for f in FILES:
            if len(sys.argv) > 3 and not any(x in f for x in sys.argv[3:]):
                continue
            if not os.path.exists("/repo/" + f):
                print("no", f); continue
            ms = mutants(f, open("/repo/" + f).read())
            print(f, len(ms))
            res += ms
        json.dump(res, open(sys.argv[2], "w"))
        print(len(res))
    elif cmd == "tests":
        ms = json.load(open(sys.argv[2]))
        keep, n = [], 0
        for m, ok in pool(ms, run_tests):
            n += 1
            if ok:
                keep.append(m)
            if n % 50 == 0:
                print(n, len(ms), len(keep), flush=True)
                json.dump(keep, open(sys.argv[3], "w"))
        json.dump(keep, open(sys.argv[3], "w"))
        print(len(keep), "of", len(ms), "pass the tests")
    elif cmd == "checks":
        ms = json.load(open(sys.argv[2]))
        with open(sys.argv[3], "a") as out:
            for m, c, msg, log in pool(ms, run_checks):
                out.write(json.dumps(dict(m=m, caught=c, msg=msg, log=log)) + "\n")
                out.flush()


main()
