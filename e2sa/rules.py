"""whole-program rules"""
import ast, builtins, os, symtable
from .terms import *
from . import terms as TM

VIEWS = {"view", "view_as", "reshape", "transpose", "permute", "expand", "expand_as", "squeeze", "unsqueeze", "narrow", "detach", "flatten", "ravel", "swapaxes", "t", "select", "unfold", "diagonal", "numpy", "values", "items"}


def run(pid, K):
    f = globals().get("rule_" + pid)
    if f is None:
        return {"findings": [], "rules": []}
    return f(K)


# ------------------------------------------------------------------ P27: roots of mutated objects
def roots(t, out=None, depth=0):
    """parameters the (view-like) term aliases"""
    if out is None:
        out = set()
    if depth > 40:
        return out
    o = t.op
    if o == "sym":
        if t.a[0] != "self":
            out.add(t.a[0])
    elif o == "attr" and t.a[1] in ("shape", "size", "dtype", "device", "name"):
        pass
    elif o in ("index", "view", "store", "attr", "getattrd", "dstore"):
        roots(t.a[0], out, depth + 1)
    elif o == "mcall" and (t.a[1] in VIEWS or (t.a[1].endswith("_") and not t.a[1].startswith("_"))):
        roots(t.a[0], out, depth + 1)
    elif o in ("ite", "if"):
        for x in t.a[1:]:
            roots(x, out, depth + 1)
    elif o in ("listop", "dval") and isinstance(t.a[0], T):
        roots(t.a[0], out, depth + 1)
    elif o == "listop":
        roots(t.a[1], out, depth + 1)
    return out


def cstr(x):
    """string value of a name in a term"""
    if isinstance(x, str):
        return x
    if isinstance(x, T) and x.op == "const" and x.a[0] == "str":
        return x.a[1]
    return None


def body(t):
    while t.op == "each":
        t = t.a[2]
    return t


def mutated(o):
    """parameter -> (operation, location) for objects owned by the caller which the call modifies"""
    out = {}
    for kind, t, e in o.effects:
        if kind not in ("mutate", "augname", "setattr"):
            continue
        b = body(t)
        if b.op != "eff":
            continue
        x = b.a[1]
        if kind == "augname" and len(x.a) > 3 and x.a[3] is FALSE:
            continue
        if kind == "setattr":
            nm = cstr(x.a[1])
            if nm is None or nm.startswith("_"):
                continue
        for p in roots(x.a[0]):
            out.setdefault(p, (str(x.a[1]) if kind != "setattr" else "attribute " + str(nm), getattr(e, "loc", "?"), b.a[2]))
    return out


# ------------------------------------------------------------------ P28: random sources
RNG = {"rand", "randn", "randint", "random", "rand_like", "randn_like", "randperm", "normal", "normal_", "uniform", "uniform_", "bernoulli", "bernoulli_", "multinomial", "shuffle", "permutation", "choice", "choices", "sample", "random_sample", "standard_normal", "rvs", "dropout", "dropout2d", "dropout3d", "alpha_dropout", "feature_dropout", "exponential_", "geometric_", "cauchy_", "log_normal_", "random_", "orthogonal_", "xavier_uniform_", "kaiming_uniform_", "xavier_normal_", "kaiming_normal_"}


def is_rng(t):
    if t.op == "call" and isinstance(t.a[0], str):
        n = t.a[0].split(".")
        if n[-1] in RNG and (n[0] in ("numpy", "torch", "random", "scipy") or n[0] == "np"):
            if n[-1] in ("normal", "choice", "sample", "permutation", "random", "shuffle", "uniform") and not (n[0] == "torch" or "random" in n):
                return None
            return t.a[0]
    if t.op == "mcall" and t.a[1] in RNG and t.a[1].endswith("_"):
        return "." + t.a[1]
    return None


def obs_all(o):
    if o.ret is not None:
        yield o.ret
    yield from o.attrs.values()
    for _, t, _ in o.effects:
        yield t


def random_ops(o):
    out = set()
    for t in obs_all(o):
        for x in walk(t):
            r = is_rng(x)
            if r:
                out.add(r)
    return tuple(sorted(out))


# ------------------------------------------------------------------ P30: internal errors
def internal(o):
    """names and calls that cannot be resolved, reached by the entry point: description -> location"""
    out = {}
    for t in obs_all(o):
        for x in walk(t):
            if x.op == "undefname":
                out.setdefault(("undefined name", str(x.a[0])), "")
    for f, _, g in o.fails:
        for x in walk(f):
            if x.op == "undefname":
                out.setdefault(("undefined name", str(x.a[0])), "")
    for k, t, e in o.effects:
        if k == "badcall":
            b = body(t)
            if truth(b.a[2]) is not False:
                out.setdefault(("call does not match the signature of", str(b.a[1].a[0])), getattr(e, "loc", ""))
    return out


def lost_attributes(o):
    """attributes of the receiver which are read but assigned nowhere: name -> True"""
    out = {}
    seen = set()
    for t in list(obs_all(o)) + [f for f, _, _ in o.fails]:
        for x in walk(t, seen):
            if x.op == "attr" and x.a[0].op == "sym" and x.a[0].a[0] == "self" and isinstance(x.a[1], str):
                out[x.a[1]] = True
            elif x.op == "undef" and cstr(x.a[0]):
                out[cstr(x.a[0])] = True
    return out


# ------------------------------------------------------------------ aspects decided per entry point
def private(n):
    t = n.rsplit(".", 1)[1]
    return t.startswith("_") and not t.startswith("__")


def syms(ts):
    out, seen = set(), set()
    for t in ts:
        for x in walk(t, seen):
            if x.op == "sym":
                out.add(x.a[0])
    return out


def everything(o):
    yield from obs_all(o)
    for f, _, _ in o.fails:
        yield f


def aspect_mutates(K, name, r, c):
    """no object owned by the caller is modified (beyond those the reviewed contract names: output buffers, in-place options)"""
    if private(name):
        return []
    out = []
    a, b = mutated(r), mutated(c)
    for p in sorted(set(b) - set(a)):
        if p not in c.params and p not in r.params and name.endswith("__init__"):
            continue
        op, loc, cond = b[p]
        out.append((True, f"argument `{p}` is modified", str(loc), f"operation {op} when {show(cond)[:200]}"))
    if not name.endswith("__init__"):
        for k, v in c.attrs.items():
            if k in r.attrs or k not in r.base or k not in c.base:
                continue
            if r.base[k] is not c.base[k] or r.base[k] is NONE:
                continue
            if v is c.base[k] or v.op in ("ref",):
                continue
            out.append((True, f"attribute `{k}` of the object is modified", "", show(v)[:200]))
    return out


TRAINING = mk("attr", mk("sym", "self"), "training")


def eval_ops(o):
    """random sources that remain in the returned value when the module is in evaluation mode"""
    if o.ret is None:
        return set()
    t = subst(o.ret, {TRAINING: FALSE})
    out = set()
    for x in walk(t):
        r = is_rng(x)
        if r and "dropout" in r:
            if any(getattr(k, "op", None) == "kw" and k.a[0] == "training" and k.a[1] is FALSE for k in walk(x)):
                continue
        if r:
            out.add(r)
    return out


def aspect_rng(K, name, r, c):
    if name.endswith("check_equivariance") or private(name):
        return []
    out = []
    if name.endswith(".forward"):
        a, b = eval_ops(r), eval_ops(c)
        if not a:
            out += [(True, "random source used in evaluation mode", "", x) for x in sorted(b)]
    a, b = set(random_ops(r)), set(random_ops(c))
    if not a and not out:
        out += [(True, "random source used", "", x) for x in sorted(b)]
    return out


def aspect_internal(K, name, r, c):
    a, b = internal(r), internal(c)
    out = [(True, f"{k[0]} `{k[1]}`", str(b[k]), "") for k in sorted(set(b) - set(a))]
    return out


REG = ("buffer", "param", "module", "delattr")


def aspect_registered(K, name, r, c):
    import copy
    from . import compare as C
    r2, c2 = copy.copy(r), copy.copy(c)
    r2.effects = [e for e in r.effects if e[0] in REG]
    c2.effects = [e for e in c.effects if e[0] in REG]
    out = [(f.hard, f.what, str(f.loc), f.detail) for f in C.compare(r2, c2, what=("effects",))]
    # parameters assigned as attributes
    for k in sorted(set(r.attrs)):
        v, w = r.attrs[k], c.attrs.get(k)
        if is_param(v) and (w is None or not is_param(w)) and not any(x.op == "ite" for x in walk(w if w is not None else NONE)):
            if w is not None or not registered_somewhere(c, k):
                out.append((True, f"attribute {k}", "", "no longer a torch Parameter"))
    return out


def is_param(v):
    return v.op == "call" and isinstance(v.a[0], str) and v.a[0].endswith("nn.Parameter")


def registered_somewhere(o, k):
    return any(e[0] in REG and any(cstr(x) == k for x in walk(e[1]) if x.op == "const") for e in o.effects)


NOT_OPTION = {"self", "in_type", "out_type", "input", "type", "tensor", "other", "element", "points", "x", "input_shape", "out", "g", "a", "b", "idx", "mask"}


def aspect_options(K, name, r, c):
    """every option that influenced the entry point still does, and where it was used its value is used"""
    from . import compare as C
    out = []
    if private(name):
        return out
    cp = (set(c.params) | set(c.ctor_params)) - NOT_OPTION
    a, b = syms(everything(r)), syms(everything(c))
    for p in sorted(a - b):
        if p in cp:
            out.append((True, f"option `{p}` has no influence any more", "", ""))
    for f in C.compare(r, c):
        if not f.hard:
            continue
        lost = set()
        for m in f.ms:
            if m.hard and isinstance(m.ref, T) and isinstance(m.cur, T) and m.ref.op in ("sym", "attr", "index", "ite", "num", "const", "kw"):
                lost |= (syms([m.ref]) - syms([m.cur])) & cp
        if not lost and f.pair:
            lost = (syms([f.pair[0]]) - syms([f.pair[1]])) & cp
        for p in sorted(lost):
            out.append((True, f"option `{p}` is not used in {f.what}", str(f.loc), f.detail))
    return out


# ------------------------------------------------------------------ P10: memo tables
INJ = {"tupleof", "listof", "sorted", "str", "repr", "items", "frozenset", "setof", "arr", "fmt", "dkeys", "list", "tuple", "dict", "kv", "kw", "kws", "hash", "id", "bytes", "tobytes", "array", "dstore", "store"}


def cover(t, out, depth=0):
    """subterms determined by the value of t"""
    if t in out or depth > 30:
        return
    out.add(t)
    o = t.op
    if o in ("tuple", "list", "dict", "kv", "kw", "kws", "tupleof", "listof", "setof", "arr", "star", "concat"):
        for x in t.a:
            if isinstance(x, T):
                cover(x, out, depth + 1)
    elif o in ("dstore", "store"):
        for x in t.a:
            if isinstance(x, T):
                cover(x, out, depth + 1)
    elif o == "fmt":
        prev = True
        xs = list(t.a)
        for i, x in enumerate(xs):
            lit = not isinstance(x, T) or x.op == "const"
            if not lit:
                nb = (i > 0 and isinstance(xs[i - 1], T) and xs[i - 1].op != "const") or (i + 1 < len(xs) and isinstance(xs[i + 1], T) and xs[i + 1].op != "const")
                if not nb:
                    cover(x, out, depth + 1)
    elif o == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1] in INJ:
        for x in t.a[1:]:
            if isinstance(x, T):
                cover(x, out, depth + 1)
    elif o == "mcall" and t.a[1] in ("items", "tobytes", "copy", "tolist", "keys", "lower"):
        cover(t.a[0], out, depth + 1)
    elif o == "attr" and t.a[1] in ("name", "__name__", "id"):
        cover(t.a[0], out, depth + 1)
    elif o == "ite":
        for x in t.a[1:]:
            cover(x, out, depth + 1)
    elif o in ("sorted", "items", "ditems", "dictof", "listof", "frozenset", "str", "repr"):
        for x in t.a:
            if isinstance(x, T):
                cover(x, out, depth + 1)


def path_of(t):
    n = t
    while n.op in ("attr",):
        n = n.a[0]
    return n.op == "sym"


def atoms(v, det, skip):
    """access paths the value depends on that are not determined"""
    out, seen, stack = set(), set(), [v]
    while stack:
        t = stack.pop()
        if t in seen or t in det:
            continue
        seen.add(t)
        if t.op in ("sym", "attr") and path_of(t):
            r = t
            while r.op == "attr":
                r = r.a[0]
                if r in det:
                    break
            else:
                if r.a[0] not in skip and r.a[0] != "pi" and not str(r.a[0]).startswith("λ"):
                    out.add(show(t))
            continue
        for x in t.a:
            if isinstance(x, T):
                stack.append(x)
            elif isinstance(x, tuple):
                stack += [y for y in x if isinstance(y, T)]
    return out


def memo_map(o):
    out = {}
    for table, key, val, e in o.memos:
        det = set()
        cover(key, det)
        skip = {"self"} | set(o.ctor_params)
        out.setdefault(table, []).append((atoms(val, det, skip), key, val, e))
    return out


def aspect_memo(K, name, r, c):
    out = []
    a, b = memo_map(r), memo_map(c)
    for table in sorted(set(a) & set(b)):
        old = set().union(*[x[0] for x in a[table]])
        for unc, key, val, e in b[table]:
            new = {x for x in unc if x not in old and not any(x.startswith(y + ".") for y in old)}
            if new:
                out.append((True, f"key of table `{table}` does not determine the stored value", str(getattr(e, "loc", "")), f"the value depends on {sorted(new)}, key {show(key)[:200]}"))
    return out


ASPECTS = {"memo": aspect_memo, "mutates": aspect_mutates, "rng": aspect_rng, "internal": aspect_internal, "registered": aspect_registered, "options": aspect_options}


# ------------------------------------------------------------------ P28: process-wide state
SETTERS = {
    "numpy": {"set_printoptions", "seterr", "seterrcall", "setbufsize", "set_string_function", "random.seed", "random.set_state"},
    "random": {"seed", "setstate"},
    "torch": {"manual_seed", "seed", "set_rng_state", "set_default_dtype", "set_default_tensor_type", "set_default_device", "set_num_threads", "set_num_interop_threads", "set_printoptions",
              "use_deterministic_algorithms", "set_deterministic", "set_flush_denormal", "set_float32_matmul_precision", "set_warn_always", "set_grad_enabled",
              "cuda.manual_seed", "cuda.manual_seed_all", "cuda.set_device", "cuda.set_rng_state", "random.manual_seed", "autograd.set_detect_anomaly", "autograd.set_grad_enabled", "autograd.grad_mode.set_grad_enabled"},
    "warnings": {"filterwarnings", "simplefilter", "resetwarnings"},
    "sys": {"setrecursionlimit", "settrace", "setprofile", "setswitchinterval"},
    "os": {"chdir", "putenv", "unsetenv", "umask", "environ.update", "environ.setdefault", "environ.pop", "environ.clear", "nice"},
    "locale": {"setlocale"}, "gc": {"disable", "enable", "set_threshold", "freeze"}, "logging": {"basicConfig", "disable"},
    "matplotlib": {"use", "rc", "rcdefaults", "style.use"}, "decimal": {"setcontext"}, "signal": {"signal"}, "socket": {"setdefaulttimeout"},
    "multiprocessing": {"set_start_method"}, "builtins": set(), "pickle": set(),
}
RESTORERS = {"warnings.filterwarnings": "warnings.catch_warnings", "warnings.simplefilter": "warnings.catch_warnings", "warnings.resetwarnings": "warnings.catch_warnings",
             "torch.set_rng_state": "torch.random.fork_rng", "torch.manual_seed": "torch.random.fork_rng", "torch.random.manual_seed": "torch.random.fork_rng"}
PREFIX = {"random.fork_rng"}


def dotted(node, al):
    """external dotted name of an expression, through the import aliases"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name) or node.id not in al:
        return None
    return ".".join([al[node.id]] + parts[::-1])


def aliases(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def setter(d):
    if d is None:
        return False
    top, _, rest = d.partition(".")
    return rest in SETTERS.get(top, ())


def process_wide(P):
    """(module, function, line, construct, restored) for every write to process-wide state"""
    out = []
    for mn, m in P.modules.items():
        al = aliases(m.tree)
        saved = saved_names(m.tree, al)

        def rec(n, fn, ctx):
            # ctx: (kinds protected by an enclosing with / try-finally)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{fn}.{n.name}" if fn else n.name
                for d in n.decorator_list:
                    rec(d, fn, ctx)
                block(n.body, q, ())
                return
            if isinstance(n, ast.ClassDef):
                block(n.body, f"{fn}.{n.name}" if fn else n.name, ())
                return
            if isinstance(n, ast.Try):
                prot = ctx + tuple(restores(n.finalbody, al))
                block(n.body, fn, prot)
                for h in n.handlers:
                    block(h.body, fn, prot)
                block(n.orelse, fn, prot)
                block(n.finalbody, fn, ctx + ("*finally",))
                return
            if isinstance(n, (ast.With, ast.AsyncWith)):
                prot = ctx
                for it in n.items:
                    c = it.context_expr
                    d = dotted(c.func if isinstance(c, ast.Call) else c, al)
                    if d:
                        prot = prot + ("with:" + d,)
                        if isinstance(c, ast.Call):
                            for x in list(c.args) + [k.value for k in c.keywords]:
                                rec(x, fn, ctx)
                    else:
                        rec(c, fn, ctx)
                block(n.body, fn, prot)
                return
            if isinstance(n, ast.Call):
                d = dotted(n.func, al)
                if setter(d):
                    ok = d in ctx or ("with:" + RESTORERS.get(d, "?")) in ctx or ("with:torch.random.fork_rng" in ctx and "seed" in d) or "*finally" in ctx or restoring_call(n, saved)
                    out.append((mn, fn, n.lineno, d, ok))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Subscript):
                        d = dotted(t.value, al)
                        if d in ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "sys.modules"):
                            out.append((mn, fn, n.lineno, d, d in ctx or "*finally" in ctx))
                    elif isinstance(t, ast.Attribute):
                        d = dotted(t, al)
                        if d and d.split(".")[0] in ("sys", "os", "torch", "numpy", "warnings", "random", "builtins", "scipy", "logging"):
                            v = getattr(n, "value", None)
                            rest = isinstance(v, ast.Name) and saved.get(v.id) == d or v is not None and dotted(v, al) in (d, d.replace("sys.std", "sys.__std") + "__")
                            out.append((mn, fn, n.lineno, d, rest or d in ctx or "*finally" in ctx))
            for c in ast.iter_child_nodes(n):
                rec(c, fn, ctx)

        def block(stmts, fn, ctx):
            for i, s in enumerate(stmts):
                # `set; try: ... finally: restore` directly after protects as well
                prot = ctx
                for nx in stmts[i + 1:]:
                    if isinstance(nx, ast.Try):
                        prot = prot + tuple(restores(nx.finalbody, al))
                        break
                    if not isinstance(nx, (ast.Assign, ast.Expr, ast.AnnAssign)):
                        break
                rec(s, fn, prot)
        block(m.tree.body, "", ())
    return out


def saved_names(tree, al):
    """local names that hold a previously read process-wide value"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            prs = zip(t.elts, v.elts) if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) else [(t, v)]
            for a, b in prs:
                if isinstance(a, ast.Name):
                    d = dotted(b, al)
                    if d:
                        out[a.id] = d
                    elif isinstance(b, ast.Call):
                        d = dotted(b.func, al)
                        if d and (".get_" in d or d.endswith(("geterr", "getstate", "getrecursionlimit", "get_state", "getcwd", "getlocale")) or setter(d)):
                            out[a.id] = d
    return out


def restoring_call(n, saved):
    for x in list(n.args) + [k.value for k in n.keywords]:
        if isinstance(x, ast.Starred):
            x = x.value
        if isinstance(x, ast.Name) and x.id in saved:
            return True
    return False


def restores(stmts, al):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                d = dotted(n.func, al)
                if setter(d):
                    yield d
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    d = dotted(t.value if isinstance(t, ast.Subscript) else t, al)
                    if d:
                        yield d


POSITIVE_28 = """
import numpy as np, sys
def f():
    np.set_printoptions(precision=2)
def g():
    old = sys.stdout
    sys.stdout = open('x')
    try:
        h()
    finally:
        sys.stdout = old
"""


class _Mod:
    def __init__(self, src):
        self.tree = ast.parse(src)


class _Prj:
    def __init__(self, src):
        self.modules = {"example": _Mod(src)}


def rule_P28(K):
    pos = [(x[3], x[4]) for x in process_wide(_Prj(POSITIVE_28))]
    assert ("numpy.set_printoptions", False) in pos and all(ok for d, ok in pos if d == "sys.stdout"), pos
    fs, sites = [], process_wide(K.CURP)
    for mn, fn, line, d, ok in sites:
        if not ok:
            fs.append({"rule": "process-wide state", "where": f"{mn}.{fn}" if fn else mn, "file": f"{os.path.relpath(K.CURP.modules[mn].path, K.CURP.root)}:{line}", "what": f"{d} is changed and not restored on every exit", "loc": "", "detail": ""})
    return {"findings": fs, "rules": ["process-wide state: every call to a process-wide setter and every assignment to an attribute of sys/os/torch/numpy/warnings is undone on all exits (context manager or try/finally)",
                                      "random source: no entry point gains a use of a random source it does not have by contract (dropout in training, initialisers, equivariance self-tests)"],
            "holds": len(sites) - len(fs) + len(K.CURP.modules), "entry_points": len(K.CURP.modules), "details": [f"{a}.{b}:{c} {d} restored={e}" for a, b, c, d, e in sites]}


# ------------------------------------------------------------------ P30: names
def unresolved(P):
    """(module, function, name) read as a global but defined nowhere"""
    out = []
    for mn, m in P.modules.items():
        try:
            src = open(m.path).read()
            st = symtable.symtable(src, m.path, "exec")
        except SyntaxError:
            continue
        top = {s.get_name() for s in st.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        gl = set()

        def glob(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    gl.add(s.get_name())
            for c in t.get_children():
                glob(c)
        glob(st)
        stars = bool(m.stars)
        ext = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))

        def rec(t, q):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                if (s.is_global() or t is st) and not (t is st and s.is_assigned()):
                    n = s.get_name()
                    if n in top or n in gl or hasattr(builtins, n) or n in ("__file__", "__name__", "__class__", "__path__", "__doc__", "__all__", "__package__"):
                        continue
                    if ext and P.resolve(m, n) is not None:
                        continue
                    if ext and not all_internal(m):
                        continue
                    out.append((mn, q, n))
            for c in t.get_children():
                rec(c, f"{q}.{c.get_name()}" if q else c.get_name())
        rec(st, "")
    return out


def all_internal(m):
    return all(n.level or (n.module or "").split(".")[0] == "e2cnn" for n in ast.walk(m.tree) if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names))


def rule_P30(K):
    a = {(x[0], x[2]) for x in unresolved(K.REFP)}
    sites = unresolved(K.CURP)
    fs = [{"rule": "names", "where": f"{mn}.{q}" if q else mn, "file": os.path.relpath(K.CURP.modules[mn].path, K.CURP.root), "what": f"name `{n}` is not defined", "loc": "", "detail": ""} for mn, q, n in sites if (mn, n) not in a]
    return {"findings": fs, "rules": ["names: every global name read by a function is bound in its module, imported, or built in", "attributes and calls: every attribute read on the receiver is assigned by its constructor or class, every call matches a signature (on the abstract interpretation of each constructor followed by each method)"],
            "holds": len(K.CURP.modules) - len(fs), "entry_points": len(K.CURP.modules), "details": [f"unresolved in the reference: {sorted(a)}"]}
