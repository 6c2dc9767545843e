"""mutation campaign (development aid, not a check):  mutate.py gen OUT.jsonl N SEED   |   mutate.py run LIST.jsonl LOG.jsonl JOBS
every mutant is applied to a scratch copy; those that pass the tests go through the quick oracles and then the prover"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC, PY = "src/pymiediff", "/opt/venv/bin/python"
SKIP = {"D1n_torch", "D3n_torch", "Ql_torch", "psi_torch_logdir", "xi_torch_logdir", "plot_epsilon", "plot_refractive_index", "__repr__", "num_center_diff", "funct_grad_checker", "patch_torchgdm_autodiff", "list_available_materials", "detach_tensor"}
FILES = {"special.py": 1.0, "multishell.py": 1.6, "main.py": .8, "helper/helper.py": 1.0, "helper/tg.py": .8, "materials/mat.py": 1.0}


def sites(tree):
    """(description, mutated node path) alternatives"""
    out = []

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if c.name in SKIP: continue
                f = fn + "." + c.name if fn else c.name
            if isinstance(c, ast.If) and isinstance(c.test, ast.Compare) and getattr(c.test.left, "id", "") == "__name__": continue
            if fn: alts(c, f)
            walk(c, f)

    def add(n, fn, d, new): out.append((fn, getattr(n, "lineno", 0), d, n, new))

    def alts(n, fn):
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}.get(type(n.op), [])
            for o in sw: add(n, fn, "%s->%s" % (type(n.op).__name__, o.__name__), ast.BinOp(n.left, o(), n.right))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                add(n, fn, "drop right", n.left)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
            if sw: add(n, fn, "cmp", ast.Compare(n.left, [sw()], n.comparators))
        elif isinstance(n, ast.BoolOp):
            add(n, fn, "and<->or", ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)); add(n, fn, "first only", n.values[0]); add(n, fn, "last only", n.values[-1])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): add(n, fn, "drop unary", n.operand)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): add(n, fn, "flip", ast.Constant(not v))
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                for w in {v + 1, v - 1} if isinstance(v, int) else {v * 1.5, -v}: add(n, fn, "%r->%r" % (v, w), ast.Constant(w))
        elif isinstance(n, ast.Attribute) and n.attr in ("real", "imag"): add(n, fn, "re/im", ast.Attribute(n.value, "imag" if n.attr == "real" else "real", n.ctx))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in ("conj", "clone", "abs", "contiguous", "to", "squeeze", "detach") or (a in ("conj", "abs", "sqrt", "real", "imag", "atleast_1d") and n.args):
                    add(n, fn, "drop " + a, n.args[0] if getattr(n.func.value, "id", "") == "torch" and n.args else n.func.value)
                for x, y in (("sin", "cos"), ("cos", "sin"), ("min", "max"), ("max", "min"), ("zeros_like", "ones_like"), ("ceil", "floor"), ("expand", "reshape"), ("permute", "reshape"), ("minimum", "maximum"), ("maximum", "minimum"), ("any", "all"), ("all", "any")):
                    if a == x: add(n, fn, "%s->%s" % (x, y), ast.Call(ast.Attribute(n.func.value, y, ast.Load()), n.args, n.keywords))
            for k in n.keywords:
                if k.arg: add(n, fn, "drop kw " + k.arg, ast.Call(n.func, n.args, [q for q in n.keywords if q is not k]))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args): add(n, fn, "swap args", ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords))
            if n.args and isinstance(n.args[0], (ast.Name, ast.Attribute)): add(n, fn, "detach arg", ast.Call(n.func, [ast.Call(ast.Attribute(n.args[0], "detach", ast.Load()), [], [])] + n.args[1:], n.keywords))
        elif isinstance(n, ast.Slice):
            for f_, w in (("lower", 1), ("upper", 1)):
                b = getattr(n, f_)
                if b is not None and not isinstance(b, ast.Constant): add(n, fn, "slice " + f_, ast.Slice(**{**dict(lower=n.lower, upper=n.upper, step=n.step), f_: ast.BinOp(b, ast.Add(), ast.Constant(w))}))
        elif isinstance(n, ast.AugAssign):
            add(n, fn, "plain assign", ast.Assign([n.target], n.value, lineno=0)); add(n, fn, "drop aug", ast.Pass())
        elif isinstance(n, ast.If): add(n, fn, "if True", ast.If(ast.Constant(True), n.body, n.orelse)); add(n, fn, "if False", ast.If(ast.Constant(False), n.body, n.orelse))
        elif isinstance(n, (ast.Raise, ast.Assert)): add(n, fn, "drop check", ast.Pass())
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, fn, "drop call", ast.Pass())
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript): add(n, fn, "drop store", ast.Pass())
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in (("r_c", "r_s"), ("eps_c", "eps_s"), ("n_c", "n_s"), ("a_n", "b_n"), ("E", "H"), ("x", "y"), ("sin_t", "cos_t"), ("n_layers", "n_max"), ("psi", "chi"), ("D1", "D3")):
                if n.id in (x, y): add(n, fn, "rename", ast.Name(y if n.id == x else x, n.ctx))
    walk(tree, "")
    return out


class Swap(ast.NodeTransformer):
    def __init__(self, a, b): self.a, self.b = a, b
    def visit(self, n):
        if n is self.a: return ast.copy_location(self.b, n)
        return self.generic_visit(n)


def segment(src, n):
    L = src.splitlines(keepends=True)
    off = lambda ln, c: sum(len(x.encode()) for x in L[:ln - 1]) + c
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def gen(out, N, seed):
    rng, all_ = random.Random(seed), []
    for f, wgt in FILES.items():
        src = open(os.path.join("/repo", SRC, f)).read()
        ss = sites(ast.parse(src))
        by = {}
        for s in ss: by.setdefault(s[0], []).append(s)
        for fn, lst in by.items():
            for s in lst: all_.append((wgt / len(lst) ** .45, f, s, src))
    pick = set()
    while len(pick) < min(N, len(all_)): pick.add(rng.choices(range(len(all_)), [a[0] for a in all_])[0])
    with open(out, "w") as o:
        for k in sorted(pick, key=lambda _: rng.random()):
            _, f, (fn, ln, d, node, new), src = all_[k]
            a, b = segment(src, node)
            n2 = ast.fix_missing_locations(copy.deepcopy(new))
            try: txt = ast.unparse(n2)
            except Exception: continue
            bs = src.encode()
            if isinstance(new, ast.expr): txt = "(" + txt + ")"
            elif "\n" in txt: txt = txt.replace("\n", "\n" + " " * node.col_offset)
            m = bs[:a] + txt.encode() + bs[b:]
            try: compile(m, f, "exec")
            except SyntaxError: continue
            o.write(json.dumps(dict(id=k, file=f, fn=fn, line=ln, what=d, old=bs[a:b].decode()[:300], new=txt[:300], a=a, b=b, txt=txt)) + "\n")


PROPS = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]


def one(m, w):
    d = "/tmp/mut/w%d" % w
    p = os.path.join(d, SRC, m["file"])
    src = open(os.path.join("/tmp/mut/base", m["file"]), "rb").read()
    if src[m["a"]:m["b"]].decode()[:300] != m["old"]: return dict(id=m["id"], verdict="moved")
    open(p, "wb").write(src[:m["a"]] + m["txt"].encode() + src[m["b"]:])
    env = dict(os.environ, PYTHONPATH=d + "/src", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", VERIF_REPO=d)
    r = dict(m); r.pop("txt"); t0 = time.time()
    try:
        try: t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore", "tests"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200).returncode
        except subprocess.TimeoutExpired: t = -1
        if t: return dict(r, verdict="killed by tests", t=time.time() - t0)
        if os.environ.get("MUT_ORACLE", "1") == "1":
            for q in PROPS:
                o = "/tmp/mut/o%d.json" % w
                if os.path.exists(o): os.remove(o)
                try: subprocess.run([PY, "oracle.py", "run", q, "quick", "1", o], cwd=V + "/oracles", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                except subprocess.TimeoutExpired: return dict(r, verdict="oracle timeout " + q, t=time.time() - t0)
                try: fs = json.load(open(o))["fails"]
                except Exception: fs = [dict(case="?", message="no result")]
                if fs: return dict(r, verdict="oracle", prop=q, case=fs[0]["case"], message=fs[0]["message"][:200], t=time.time() - t0)
        env["VERIF_JOBS"] = "1"
        x = subprocess.run(["python3-vt", "run.py", "--first", "*"], cwd=V + "/contracts", env=env, capture_output=True, text=True, timeout=1500)
        L = x.stdout.splitlines()
        k = next((i for i, s in enumerate(L) if "FAILED" in s), None)
        if k is not None:
            u = next((L[i] for i in range(k, -1, -1) if not L[i].startswith(" ")), "")
            return dict(r, verdict="prover only", unit=u[:60], message=" | ".join(L[k:k + 3])[:300], t=time.time() - t0)
        if x.returncode: return dict(r, verdict="prover error", message=x.stderr[-300:], t=time.time() - t0)
        return dict(r, verdict="SURVIVED", t=time.time() - t0)
    except Exception as e: return dict(r, verdict="error", message=repr(e)[:300])
    finally: open(p, "wb").write(src)


def run(lst, log, jobs):
    ms = [json.loads(l) for l in open(lst)]
    done = {json.loads(l)["id"] for l in open(log)} if os.path.exists(log) else set()
    ms = [m for m in ms if m["id"] not in done]
    shutil.rmtree("/tmp/mut", ignore_errors=True); os.makedirs("/tmp/mut")
    free = list(range(jobs))
    for w in free: shutil.copytree("/repo", "/tmp/mut/w%d" % w, ignore=shutil.ignore_patterns(".git", "doc"))
    shutil.copytree(os.path.join("/repo", SRC), "/tmp/mut/base")
    import threading
    lock = threading.Lock()

    def job(m):
        with lock: w = free.pop()
        try: r = one(m, w)
        finally:
            with lock: free.append(w)
        with lock: open(log, "a").write(json.dumps(r) + "\n")
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(job, ms))


if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else: run(sys.argv[2], sys.argv[3], int(sys.argv[4]))
