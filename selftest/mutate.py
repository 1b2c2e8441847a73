"""Self-test of the analyses: plant many small behaviour-changing edits / behaviour-preserving
rewrites in syntax trees (in memory) and count which ones the comparison refutes."""
import ast, copy, random, sys, os, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from e2sa.front import Project, Class
from e2sa.observe import observe, targets
from e2sa import compare as C

OPAQUE = ("indexes_from_labels",)


# ------------------------------------------------------------------ mutations
def mutations(fn, rng):
    """yield (description, thunk) ; thunk mutates a deepcopy given by path"""
    out = []
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    msgs = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            msgs |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.Assert) and n.msg is not None:
            msgs |= set(map(id, ast.walk(n.msg)))
        if isinstance(n, (ast.arg,)) and n.annotation is not None:
            msgs |= set(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.AnnAssign):
            msgs |= set(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super":
            msgs |= set(map(id, ast.walk(n)))
    for d in fn.decorator_list:
        msgs |= set(map(id, ast.walk(d)))
    if fn.returns is not None:
        msgs |= set(map(id, ast.walk(fn.returns)))
    for i, n in enumerate(nodes):
        if n is doc or id(n) in msgs:
            continue
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, "bool", n))
            elif isinstance(n.value, (int, float)):
                out.append((i, "const+1", n))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((i, "cmp", n))
        elif isinstance(n, ast.BinOp):
            out.append((i, "binop", n))
            if isinstance(n.op, (ast.Mod, ast.Add, ast.Sub, ast.Mult)):
                out.append((i, "dropright", n))
        elif isinstance(n, ast.Call):
            if n.keywords:
                out.append((i, "dropkw", n))
            if len(n.args) >= 2:
                out.append((i, "swapargs", n))
        elif isinstance(n, ast.UnaryOp):
            out.append((i, "dropunary", n))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "boolop", n))
        elif isinstance(n, ast.If):
            out.append((i, "negif", n))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            alt = {"in_type": "out_type", "out_type": "in_type", "cos": "sin", "sin": "cos", "max": "min", "min": "max", "mean": "sum",
                   "in_repr": "out_repr", "out_repr": "in_repr", "change_of_basis": "change_of_basis_inv", "change_of_basis_inv": "change_of_basis",
                   "floor": "ceil", "ceil": "floor", "stride": "padding", "zeros": "ones", "running_var": "running_mean"}
            if n.attr in alt:
                out.append((i, "attr:" + alt[n.attr], n))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in ("self", "np", "torch") and len(names) > 2:
            out.append((i, "var", n))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            pass
    # statement deletion
    for i, n in enumerate(nodes):
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assert, ast.AugAssign, ast.Expr, ast.Assign, ast.If, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Name, ast.Tuple)):
                            continue
                        out.append((i, f"del:{fld}:{j}", n))
    rng.shuffle(out)
    return out, names


def apply(fn, i, kind, rng, names):
    fn = copy.deepcopy(fn)
    nodes = list(ast.walk(fn))
    n = nodes[i]
    parent = {}
    for p in nodes:
        for f, v in ast.iter_fields(p):
            if isinstance(v, ast.AST):
                parent[v] = (p, f, None)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        parent[x] = (p, f, k)

    def replace(old, new):
        p, f, k = parent[old]
        ast.copy_location(new, old)
        if k is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[k] = new
    if kind == "bool":
        n.value = not n.value
    elif kind == "const+1":
        n.value = n.value + 1 if rng.random() < .6 else (n.value - 1 if n.value else 1)
    elif kind == "cmp":
        alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops[0] = alt[type(n.ops[0])]()
    elif kind == "binop":
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
        t = alt.get(type(n.op))
        if t is None:
            return None, None
        n.op = t()
    elif kind == "dropright":
        replace(n, n.left)
    elif kind == "dropkw":
        del n.keywords[rng.randrange(len(n.keywords))]
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "dropunary":
        replace(n, n.operand)
    elif kind == "boolop":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "negif":
        n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
    elif kind.startswith("attr:"):
        n.attr = kind[5:]
    elif kind == "var":
        loc = {x.arg for x in fn.args.args + fn.args.kwonlyargs} | {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if n.id not in loc:
            return None, None
        o = [x for x in names if x != n.id and x in loc and x != "self"]
        if not o:
            return None, None
        n.id = rng.choice(o)
    elif kind.startswith("del:"):
        _, fld, j = kind.split(":")
        b = getattr(n, fld)
        del b[int(j)]
        if not b:
            b.append(ast.Pass())
    ast.fix_missing_locations(fn)
    where = getattr(n, "lineno", fn.lineno)
    return fn, where


# ------------------------------------------------------------------ driver
STATE = {}


def prepare(root="/repo"):
    P = Project(root)
    ref = {}
    by_func = {}
    for q, t in targets(P):
        ref[q] = None
        STATE.setdefault("t", {})[q] = t
    STATE["P"] = P
    STATE["root"] = root
    return P


def observe_one(q):
    return observe(STATE["P"], STATE["t"][q], opaque=OPAQUE)


def prepare_all():
    ref = {}
    by = {}
    for q in STATE["t"]:
        o = observe_one(q)
        ref[q] = o
        for f in o.inlined:
            by.setdefault(f, []).append(q)
    STATE["ref"], STATE["by"] = ref, by


def overlay_with(fn_old, fn_new, module):
    """tree of `module` with the function replaced"""
    tree = module.tree

    class R(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            if n is fn_old:
                return fn_new
            return self.generic_visit(n)
    # shallow: rebuild only along the path
    import copy as cp
    new = cp.copy(tree)
    new.body = []
    for s in tree.body:
        if s is fn_old:
            new.body.append(fn_new)
        elif isinstance(s, ast.ClassDef) and any(x is fn_old for x in s.body):
            c = cp.copy(s)
            c.body = [fn_new if x is fn_old else x for x in s.body]
            new.body.append(c)
        elif isinstance(s, (ast.If, ast.Try)) and any(x is fn_old for x in ast.walk(s)):
            c = cp.deepcopy(s)
            return None
        else:
            new.body.append(s)
    return new


def check(module, tree, fq, limit=12):
    P2 = clone_project(STATE["P"], module, tree)
    T2 = dict(targets_of(P2, STATE["by"].get(fq, [])))
    hard, soft = [], []
    qs = STATE["by"].get(fq, [])
    own = [q for q in qs if q.endswith(fq)] + [q for q in qs if not q.endswith(fq)]
    for q in own[:limit]:
        if q not in T2:
            continue
        o = observe(P2, T2[q], opaque=OPAQUE)
        if q == fq and o.status == "ok" and STATE["ref"][q].status == "ok" and not C.compare(STATE["ref"][q], o, public_only=False):
            break                 # equal by itself, hence in every context
        for f in C.compare(STATE["ref"][q], o):
            (hard if f.hard else soft).append((q, f))
        if hard:
            break
    return hard, soft


def clone_project(P, module, tree):
    import copy as cp
    from e2sa.front import Module
    Q = Project.__new__(Project)
    Q.root, Q.overlay, Q.errors = P.root, {}, []
    Q.modules = {}
    for k, m in P.modules.items():
        t = tree if m is module else m.tree
        Q.modules[k] = Module(k, m.path, t, m.is_pkg)
    for m in Q.modules.values():
        Q._bind(m)
    Q.classes = {}
    for m in Q.modules.values():
        for k, b in m.bindings.items():
            if b[0] == "class":
                Q.classes[b[1].qual] = b[1]
    return Q


def targets_of(P, names):
    names = set(names)
    for q, t in targets(P):
        if q in names:
            yield q, t


def one(job):
    fq, i, kind, seed = job
    rng = random.Random(seed)
    fn = STATE["f"][fq]
    muts_names = sorted({n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
    new, where = apply(fn.node, i, kind, rng, muts_names)
    if new is None:
        return None
    if ast.dump(new) == ast.dump(fn.node):
        return None
    tree = overlay_with(fn.node, new, fn.module)
    if tree is None:
        return None
    t0 = time.time()
    import signal
    def onalarm(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(60)
    try:
        hard, soft = check(fn.module, tree, fq)
    except TimeoutError:
        return (fq, kind, where, "TIMEOUT", "", 60, "")
    except Exception as e:
        return (fq, kind, where, "CRASH", repr(e)[:200], time.time() - t0, "")
    old, nw = ast.unparse(fn.node).splitlines(), ast.unparse(new).splitlines()
    import difflib
    d = [x for x in difflib.unified_diff(old, nw, n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("+++", "---")]
    res = "hard" if hard else ("soft" if soft else "silent")
    f = (hard or soft or [("", "")])[0]
    return (fq, kind, where, res, f"{f[0]} {f[1]}"[:400], time.time() - t0, " | ".join(x.strip() for x in d)[:260])


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--match", default="")
    ap.add_argument("--per", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--show", default="silent,soft,CRASH")
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    P = prepare(a.root)
    import re
    allf = {f.qual: f for f in P.all_functions()}
    want = {q: f for q, f in allf.items() if re.search(a.match, q)}
    # only targets that can inline wanted functions
    t0 = time.time()
    prepare_all()
    print("reference", round(time.time() - t0, 1), "s", file=sys.stderr)
    STATE["f"] = allf
    rng = random.Random(a.seed)
    jobs = []
    for q, f in want.items():
        if f.name in ("__repr__", "__str__", "extra_repr", "draw_state", "check_equivariance") or "test" in f.name:
            continue
        m, names = mutations(f.node, rng)
        for (i, kind, n) in m[:a.per]:
            jobs.append((q, i, kind, rng.randrange(10**9)))
    stat = {}
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(one, jobs):
            if r is None:
                continue
            stat[r[3]] = stat.get(r[3], 0) + 1
            if r[3] in a.show.split(","):
                print(f"[{r[3]}] {r[0]}:{r[2]} {r[1]} :: {r[6]}\n        {r[4]}")
    print(stat, round(time.time() - t0, 1))


if __name__ == "__main__":
    main()
