"""Random small changes of the anchored files: which ones does no check notice?
   python3 dev/mutate.py OUT.jsonl [-n PER_FILE] [-w WORKERS] [-s SEED] [FILE or PROPERTY...]
Each changed copy is given to the checks of the properties anchored in the file; survivors are given to the stable tests; what survives both is printed."""
import ast, argparse, concurrent.futures, json, os, random, resource, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("HACHOIR_REPO", "/repo")
PY = "/opt/venv/bin/python"


def anchors():
    out = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        for f in p["anchors"]["files"]:
            out.setdefault(f, []).append(p["id"])
    return out


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.out, self.src, self.func = [], src, []

    def add(self, node, new, what):
        if self.func:
            self.out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, ".".join(self.func), what))

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ("PARSER_TAGS",) for t in s.targets):
                continue
            self.visit(s)
        self.func.pop()

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            self.add(n, "%s %s %s" % (self.seg(n.left), swap[type(n.ops[0])], self.seg(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join("(%s)" % self.seg(v) for v in n.values) + ")", "boolop")
        self.add(n, "(%s)" % self.seg(n.values[0]), "drop operand")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "//", ast.Div: "*"}
        if type(n.op) in swap and not isinstance(n.left, ast.Constant) or type(n.op) in swap and isinstance(getattr(n.left, "value", 0), int):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                self.add(n, "(%s) %s (%s)" % (self.seg(n.left), swap[type(n.op)], self.seg(n.right)), "arith")
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "const+1")
            if n.value > 0:
                self.add(n, str(n.value - 1), "const-1")
        elif isinstance(n.value, bytes) and n.value:
            self.add(n, repr(n.value[:-1] + bytes([n.value[-1] ^ 1])), "bytes")

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, "(%s)" % self.seg(n.operand), "not")
        self.generic_visit(n)

    def visit_If(self, n):
        if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
            self.add(n.test, "(not (%s))" % self.seg(n.test), "negate")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.func and isinstance(n.targets[0], (ast.Attribute,)):
            self.add(n, "pass", "drop assign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop augassign")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.add(n, "pass", "drop call")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "drop raise")

    def visit_Call(self, n):
        # not the messages
        name = n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if name in ("warning", "error", "info", "__doc__"):
            return
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, "pass", "drop break")

    def visit_Continue(self, n):
        self.add(n, "pass", "drop continue")


def apply(src, m):
    lines = src.split("\n")
    l1, c1, l2, c2, new = m[:5]
    b = [x.encode() for x in lines]
    before, after = b[l1 - 1][:c1], b[l2 - 1][c2:]
    b[l1 - 1:l2] = [before + new.encode() + after]
    return b"\n".join(b).decode()


def run(cmd, cwd, env, timeout):
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, ""


def worker_dirs(w):
    d = "/tmp/mut/w%s" % w
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", SRC, d + "/repo"])
        subprocess.check_call(["cp", "-a", HERE, d + "/verif"])
    return d


BASE = None


def tests(repo):
    rc, out = run([PY, "-bb", "-m", "pytest", "-q", "-W", "error", "-W", "ignore::pytest.PytestCollectionWarning", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "vp_hachoir", "--timeout=200", "tests"], repo,
                  {"PYTHONPATH": repo + ":/opt/vp/support", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1", "SLOW_TESTS": "1", "LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}, 300)
    failed = sorted(x.split(" - ")[0] for x in out.split("\n") if x.startswith(("FAILED", "ERROR")))
    return failed or rc


def one(args):
    w, f, m, props, jobs = args
    d = worker_dirs(w)
    repo = d + "/repo"
    path = os.path.join(repo, f)
    src = open(os.path.join(SRC, f)).read()
    new = apply(src, m)
    try:
        compile(new, f, "exec")
    except SyntaxError:
        return None
    open(path, "w").write(new)
    caught, codes = None, {}
    t = time.time()
    try:
        for p in props:
            rc, out = run(["./run", p], d + "/verif", {"HACHOIR_REPO": repo, "VERIF_JOBS": str(jobs), "VERIF_TIER": "quick", "VERIF_SEED": "1", "MC_STOP": "1"}, 400)
            codes[p] = rc
            if rc == 1 and "VIOLATION property=%s" % p in out:
                caught = p
                break
        res = {"file": f, "line": m[0], "func": m[5], "what": m[6], "old": src.split("\n")[m[0] - 1].strip(), "new": new.split("\n")[m[0] - 1].strip(), "caught": caught, "codes": codes, "t": round(time.time() - t)}
        if not caught:
            res["tests"] = tests(repo)
            if BASE is not None and isinstance(res["tests"], list):
                res["tests"] = [x for x in res["tests"] if x not in BASE]
    finally:
        open(path, "w").write(src)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=10)
    ap.add_argument("-w", type=int, default=4)
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("--only")
    ap.add_argument("what", nargs="*")
    a = ap.parse_args()
    anc = anchors()
    rnd = random.Random(a.s)
    todo = []
    for f, props in sorted(anc.items()):
        if a.what and f not in a.what and not set(props) & set(a.what):
            continue
        if not f.endswith(".py") or not os.path.exists(os.path.join(SRC, f)):
            continue
        ps = [p for p in props if not a.what or f in a.what or p in a.what] if a.only else props
        src = open(os.path.join(SRC, f)).read()
        fi = Finder(src)
        fi.visit(ast.parse(src))
        ms = fi.out
        rnd.shuffle(ms)
        todo += [(f, m, ps) for m in ms[:a.n]]
    rnd.shuffle(todo)
    print(len(todo), "changes", flush=True)
    free = list(range(a.w))
    global BASE
    BASE = tests(worker_dirs(0) + "/repo")
    print("failing without a change:", BASE, flush=True)
    out = open(a.out, "a")
    import threading
    lock = threading.Lock()

    def go(t):
        with lock:
            w = free.pop()
        try:
            r = one((w,) + t + (a.j,))
        except Exception as e:
            r = {"error": repr(e), "file": t[0]}
        with lock:
            free.append(w)
            if r:
                out.write(json.dumps(r) + "\n")
                out.flush()
    with concurrent.futures.ThreadPoolExecutor(a.w) as ex:
        list(ex.map(go, todo))


if __name__ == "__main__":
    main()
