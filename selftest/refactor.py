"""Self-test: behaviour-preserving rewrites (in memory) must give no hard finding."""
import ast, copy, random, sys, os, time, multiprocessing as mp, builtins, re, difflib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import mutate as M
from mutate import STATE, prepare, prepare_all, overlay_with, check
from e2sa.front import Project

BUILT = set(dir(builtins))


def N(s):
    return ast.parse(s).body


def E(s):
    return ast.parse(s, mode="eval").body


def name(s, st=False):
    return ast.Name(s, ast.Store() if st else ast.Load())


def stored(n):
    r = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            r.add(x.id)
    return r


def loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def comp_vars(n):
    r = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                r |= stored(g.target)
        if isinstance(x, ast.Lambda):
            r |= {a.arg for a in x.args.args}
    return r


def blocks(fn):
    inner = {id(x) for y in ast.walk(fn) if isinstance(y, (ast.FunctionDef, ast.Lambda)) and y is not fn for x in ast.walk(y)}
    for n in ast.walk(fn):
        if id(n) in inner:
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def locals_of(fn):
    args = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        args.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        args.add(fn.args.kwarg.arg)
    return args, stored(fn) - args


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def pure(e):
    """no visible effects (over-approximation by syntax)"""
    return not has(e, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)


def eager_subexprs(e):
    """sub-expressions evaluated first and unconditionally, in a context without effects before them"""
    out = []

    def go(x, top):
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
            if not top:
                out.append(x)
            if isinstance(x, ast.IfExp):
                go(x.test, False)
            if isinstance(x, ast.BoolOp):
                go(x.values[0], False)
            return
        if isinstance(x, ast.Compare) and len(x.ops) > 1:
            return
        if not top and isinstance(x, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Compare, ast.UnaryOp, ast.Tuple, ast.List)):
            if not isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                return
            out.append(x)
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.keyword):
                go(c.value, False)
            elif isinstance(c, ast.Starred):
                go(c.value, False)
            elif isinstance(c, ast.expr):
                if isinstance(x, ast.Call) and c is x.func:
                    # keep method callee together; descend into receiver
                    if isinstance(c, ast.Attribute):
                        if isinstance(c.value, ast.Name):
                            continue
                        go(c.value, False)
                    continue
                go(c, False)
    go(e, True)
    return [x for x in out if not has(x, ast.Yield, ast.YieldFrom) and not is_super(x) and not has(x, ast.Starred) and not any(isinstance(y, ast.Slice) for y in ast.iter_child_nodes(x) if isinstance(x, ast.Tuple))]


def is_super(x):
    return any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for y in ast.walk(x))


def replace_in(root, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is old:
                return new
            return super().generic_visit(n)
    return R().visit(root)


CNT = [0]


def fresh(rng, base="tmp"):
    CNT[0] += 1
    return f"{base}_{CNT[0]}"


# every transformation: (fn deepcopy, rng, ctx) -> list of extra module functions/methods or None if not applicable
def t_rename(fn, rng, ctx):
    args, loc = locals_of(fn)
    gl = {y for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
    inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    loc -= gl | inner
    loc -= {a.arg for x in ast.walk(fn) if isinstance(x, ast.Lambda) for a in x.args.args + x.args.kwonlyargs}
    if not loc:
        return None
    m = {v: f"{v}_r" if rng.random() < .5 else f"a_{v}" for v in loc}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        if isinstance(x, ast.arg) and x.arg in m:
            return None
        if isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]
    return []


def t_temp(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.AugAssign, ast.AnnAssign)) and s.value is not None:
                if isinstance(s, ast.AugAssign):
                    continue
                for e in eager_subexprs(s.value):
                    c.append((b, i, s, e))
            elif isinstance(s, ast.If):
                for e in eager_subexprs(s.test) + ([s.test] if not isinstance(s.test, ast.Name) else []):
                    c.append((b, i, s, e))
            elif isinstance(s, ast.For):
                c.append((b, i, s, s.iter))
            elif isinstance(s, ast.Assert):
                for e in eager_subexprs(s.test):
                    c.append((b, i, s, e))
    if not c:
        return None
    b, i, s, e = rng.choice(c)
    if isinstance(s, ast.If) and any(s in o for p, bb in blocks(fn) for o in [getattr(p, "orelse", [])] if isinstance(p, ast.If) and len(o) == 1):
        return None     # elif: the temp moves the evaluation into the else block (fine), but keep it simple
    v = fresh(rng)
    asg = ast.Assign([name(v, True)], copy.deepcopy(e))
    new = replace_in(s, e, name(v))
    b[i:i + 1] = [asg, new]
    return []


def t_retvar(fn, rng, ctx):
    c = [(b, i, s) for p, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None]
    if not c:
        return None
    b, i, s = rng.choice(c)
    b[i:i + 1] = [ast.Assign([name("result_q", True)], s.value), ast.Return(name("result_q"))]
    return []


def t_invif(fn, rng, ctx):
    c = [s for s in ast.walk(fn) if isinstance(s, ast.If) and s.orelse]
    if not c:
        return None
    s = rng.choice(c)
    s.test, s.body, s.orelse = negate(s.test), s.orelse, s.body
    return []


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        alt = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
               ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
        return ast.Compare(t.left, [alt[type(t.ops[0])]()], t.comparators)
    if isinstance(t, ast.BoolOp):
        return ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [negate(v) for v in t.values])
    return ast.UnaryOp(ast.Not(), t)


def terminates(b):
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and terminates(s.body) and terminates(s.orelse)
    return False


def t_early(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If):
                if s.orelse and terminates(s.body):
                    c.append((b, i, s, "unelse"))
                if not s.orelse and terminates(s.body) and i + 1 < len(b):
                    c.append((b, i, s, "else"))
                if p is fn and i == len(b) - 1 and not s.orelse and not terminates(s.body) and not has(fn, ast.Yield):
                    c.append((b, i, s, "guard"))
    if not c:
        return None
    b, i, s, k = rng.choice(c)
    if k == "unelse":
        b[i + 1:i + 1] = s.orelse
        s.orelse = []
    elif k == "else":
        s.orelse = b[i + 1:]
        del b[i + 1:]
    else:
        b[i:i + 1] = [ast.If(negate(s.test), [ast.Return(None)], [])] + s.body
    return []


def t_continue(fn, rng, ctx):
    c = []
    for f in ast.walk(fn):
        if isinstance(f, ast.For) and isinstance(f.body[-1], ast.If) and not f.body[-1].orelse:
            c.append(f)
    if not c:
        return None
    f = rng.choice(c)
    s = f.body[-1]
    f.body[-1:] = [ast.If(negate(s.test), [ast.Continue()], [])] + s.body
    return []


def simple_effects(s):
    """(reads, writes) for statements that only touch locals through pure-looking expressions"""
    if isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in s.targets):
        if has(s.value, ast.Yield, ast.YieldFrom):
            return None
        if has(s.value, ast.Call):
            return None
        return loaded(s), stored(s)
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and not has(s.value, ast.Call):
        t = s.targets[0]
        if isinstance(t.value, ast.Name) and t.value.id == "self":
            attrs = {"self." + x.attr for x in ast.walk(s.value) if isinstance(x, ast.Attribute)}
            return loaded(s.value) | attrs, {"self." + t.attr}
    return None


def t_swap(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = simple_effects(b[i]), simple_effects(b[i + 1])
            if x and y and not (x[1] & (y[0] | y[1])) and not (y[1] & x[0]):
                if any(isinstance(z, ast.Attribute) for z in ast.walk(b[i])) and any(w.startswith("self.") for w in y[1]):
                    ra = {"self." + z.attr for z in ast.walk(b[i]) if isinstance(z, ast.Attribute)}
                    if ra & y[1]:
                        continue
                if any(isinstance(z, ast.Attribute) for z in ast.walk(b[i + 1])) and any(w.startswith("self.") for w in x[1]):
                    ra = {"self." + z.attr for z in ast.walk(b[i + 1]) if isinstance(z, ast.Attribute)}
                    if ra & x[1]:
                        continue
                c.append((b, i))
    if not c:
        return None
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return []


def t_assert(fn, rng, ctx):
    c = [(b, i, s) for p, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Assert)]
    if not c:
        return None
    b, i, s = rng.choice(c)
    call = ast.Call(name("AssertionError"), [s.msg] if s.msg else [], [])
    b[i] = ast.If(negate(s.test), [ast.Raise(call, None)], [])
    return []


def t_cmpflip(fn, rng, ctx):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq))]
    if not c:
        return None
    x = rng.choice(c)
    alt = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    x.left, x.comparators, x.ops = x.comparators[0], [x.left], [alt[type(x.ops[0])]()]
    return []


def t_loop2comp(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i in range(len(b) - 1):
            a, f = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts \
                    and isinstance(f, ast.For) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Call) \
                    and isinstance(f.body[0].value.func, ast.Attribute) and f.body[0].value.func.attr == "append" and isinstance(f.body[0].value.func.value, ast.Name) \
                    and f.body[0].value.func.value.id == a.targets[0].id:
                c.append((b, i, a, f))
    if not c:
        return None
    b, i, a, f = rng.choice(c)
    a.value = ast.ListComp(f.body[0].value.args[0], [ast.comprehension(f.target, f.iter, [], 0)])
    del b[i + 1]
    return []


def t_comp2loop(fn, rng, ctx):
    """x = [e for ...] anywhere in an eager position -> explicit loop"""
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None:
                es = eager_subexprs(s.value) + [s.value]
            elif isinstance(s, ast.Assert):
                es = eager_subexprs(s.test)
            else:
                continue
            for e in es:
                if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
                    c.append((b, i, s, e))
                elif isinstance(e, ast.GeneratorExp):
                    c.append((b, i, s, e))
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sum", "list", "tuple", "set", "all", "any", "max", "min") and len(e.args) == 1 \
                        and isinstance(e.args[0], ast.GeneratorExp):
                    c.append((b, i, s, e))
    if not c:
        return None
    b, i, s, e = rng.choice(c)
    v = fresh(rng, "acc")
    comp = e.args[0] if isinstance(e, ast.Call) else e
    # comprehension variables must not clash with other names
    args, loc = locals_of(fn)
    cv = set()
    for g in comp.generators:
        cv |= stored(g.target)
    outside = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name)]
    inside = [x.id for x in ast.walk(comp) if isinstance(x, ast.Name)]
    m = {q: q + "_l" for q in cv}
    for x in ast.walk(comp):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
    if isinstance(e, ast.Call) and e.func.id == "sum":
        init, upd = ast.Constant(0), [ast.AugAssign(name(v, True), ast.Add(), comp.elt)]
    elif isinstance(e, ast.Call) and e.func.id in ("all", "any"):
        init = ast.Constant(e.func.id == "all")
        t = comp.elt if e.func.id == "any" else negate(comp.elt)
        upd = [ast.If(t, [ast.Assign([name(v, True)], ast.Constant(e.func.id == "any"))] + ([ast.Break()] if len(comp.generators) == 1 and rng.random() < .6 else []), [])]
    elif isinstance(e, ast.DictComp):
        init, upd = ast.Dict([], []), [ast.Assign([ast.Subscript(name(v), comp.key, ast.Store())], comp.value)]
    elif isinstance(e, ast.SetComp) or (isinstance(e, ast.Call) and e.func.id == "set"):
        init, upd = E("set()"), [ast.Expr(ast.Call(ast.Attribute(name(v), "add", ast.Load()), [comp.elt], []))]
    else:
        init, upd = ast.List([], ast.Load()), [ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [comp.elt], []))]
    body = upd
    for g in reversed(comp.generators):
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    use = name(v)
    if isinstance(e, ast.Call) and e.func.id in ("list",):
        use = name(v)
    elif isinstance(e, ast.Call) and e.func.id in ("tuple", "max", "min"):
        use = ast.Call(name(e.func.id), [name(v)], [])
    new = replace_in(s, e, use)
    b[i:i + 1] = [ast.Assign([name(v, True)], init)] + body + [new]
    return []


def t_forindex(fn, rng, ctx):
    """for x in xs -> for i in range(len(xs)) ; only when xs is a plain local list / attribute that is subscriptable"""
    c = []
    for p, b in blocks(fn):
        for i, f in enumerate(b):
            if isinstance(f, ast.For) and not f.orelse:
                it = f.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(f.target, ast.Tuple) and len(it.args) == 1 \
                        and isinstance(it.args[0], (ast.Attribute, ast.Name)):
                    c.append((b, i, f, "enum"))
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and isinstance(f.target, ast.Name) and not has(f, ast.Continue, ast.Break) and not any(f.target.id in stored(q) for q in f.body):
                    c.append((b, i, f, "while"))
                if isinstance(it, ast.Attribute) and it.attr in ("representations", "in_repr", "out_repr"):
                    c.append((b, i, f, "index"))
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(f.target, ast.Tuple):
                    c.append((b, i, f, "items"))
    if not c:
        return None
    b, i, f, k = rng.choice(c)
    v = fresh(rng, "j")
    if k == "enum":
        ix, x = f.target.elts
        seq = f.iter.args[0]
        if rng.random() < .5:
            f.iter = ast.Call(name("range"), [ast.Call(name("len"), [seq], [])], [])
            f.target = ix
            f.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(seq), to_load(ix), ast.Load())))
        else:
            # manual counter
            if has(f, ast.Continue):
                return None
            f.target, f.iter = x, seq
            f.body.append(ast.AugAssign(ix, ast.Add(), ast.Constant(1)))
            b.insert(i, ast.Assign([copy.deepcopy(ix)], ast.Constant(0)))
    elif k == "while":
        n = f.iter.args[0]
        w = fresh(rng, "n")
        b[i:i + 1] = [ast.Assign([name(w, True)], n), ast.Assign([f.target], ast.Constant(0)),
                      ast.While(ast.Compare(to_load(f.target), [ast.Lt()], [name(w)]), f.body + [ast.AugAssign(copy.deepcopy(f.target), ast.Add(), ast.Constant(1))], [])]
    elif k == "index":
        f.body.insert(0, ast.Assign([f.target], ast.Subscript(copy.deepcopy(f.iter), name(v), ast.Load())))
        f.target, f.iter = name(v, True), ast.Call(name("range"), [ast.Call(name("len"), [f.iter], [])], [])
    elif k == "items":
        kk, vv = f.target.elts
        if not isinstance(kk, ast.Name):
            return None
        d = f.iter.func.value
        if not isinstance(d, (ast.Name, ast.Attribute)):
            return None
        f.target, f.iter = kk, d
        f.body.insert(0, ast.Assign([vv], ast.Subscript(copy.deepcopy(d), to_load(kk), ast.Load())))
    return []


def to_load(x):
    x = copy.deepcopy(x)
    for y in ast.walk(x):
        if hasattr(y, "ctx"):
            y.ctx = ast.Load()
    return x


def t_unaug(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and \
                    (isinstance(s.value, ast.Constant) or (isinstance(s.value, ast.Attribute) and s.value.attr == "size")):
                c.append((b, i, s))
    if not c:
        return None
    b, i, s = rng.choice(c)
    b[i] = ast.Assign([s.target], ast.BinOp(to_load(s.target), s.op, s.value))
    return []


def t_ifexp(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                c.append((b, i, s, "stmt"))
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and len(s.body[0].targets) == 1 and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                c.append((b, i, s, "expr"))
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) \
                    and s.body[0].value is not None and s.orelse[0].value is not None:
                c.append((b, i, s, "ret"))
    if not c:
        return None
    b, i, s, k = rng.choice(c)
    if k == "stmt":
        v = s.value
        b[i] = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
    elif k == "expr":
        b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    else:
        b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    return []


def t_nestif(fn, rng, ctx):
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                c.append((b, i, s, "merge"))
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                c.append((b, i, s, "nest"))
            if isinstance(s, ast.Assert) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                c.append((b, i, s, "asserts"))
    if not c:
        return None
    b, i, s, k = rng.choice(c)
    if k == "merge":
        s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
        s.body = s.body[0].body
    elif k == "nest":
        v = s.test.values
        s.body = [ast.If(v[-1], s.body, [])]
        s.test = v[0] if len(v) == 2 else ast.BoolOp(ast.And(), v[:-1])
    else:
        b[i:i + 1] = [ast.Assert(v, copy.deepcopy(s.msg)) for v in s.test.values]
    return []


def free_names(nodes, fn):
    args, loc = locals_of(fn)
    cv = set()
    for n in nodes:
        cv |= comp_vars(n)
    ld = set()
    for n in nodes:
        ld |= loaded(n)
    return sorted((ld & (args | loc)))


def t_helper_expr(fn, rng, ctx):
    """move an expression into a new function or private method"""
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None:
                for e in eager_subexprs(s.value) + [s.value]:
                    if isinstance(e, (ast.Name, ast.Constant)) or is_super(e):
                        continue
                    if has(e, ast.Yield, ast.YieldFrom):
                        continue
                    c.append((s, e))
            elif isinstance(s, (ast.If, ast.Assert)):
                c.append((s, s.test))
    if not c:
        return None
    s, e = rng.choice(c)
    if isinstance(e, ast.Name):
        return None
    if is_super(e):
        return None
    cv = comp_vars(e)
    fv = [x for x in free_names([e], fn) if x not in cv]
    if any(x in cv for x in free_names([e], fn)):
        return None
    inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    if inner & loaded(e) or "__class__" in loaded(e):
        return None
    nm = fresh(rng, "_helper")
    meth = "self" in fv and ctx["cls"] and rng.random() < .6
    args = [x for x in fv if not (meth and x == "self")]
    kw = rng.random() < .3 and not meth
    if meth:
        call = ast.Call(ast.Attribute(name("self"), nm, ast.Load()), [name(x) for x in args], [])
    elif kw:
        call = ast.Call(name(nm), [], [ast.keyword(x, name(x)) for x in args])
    else:
        call = ast.Call(name(nm), [name(x) for x in args], [])
    body = [ast.Return(copy.deepcopy(e))]
    f = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in (["self"] if meth else []) + args], None, [], [], None, []), body, [], None, None)
    f.type_params = []
    if isinstance(s, ast.Assign) or isinstance(s, ast.Return) or isinstance(s, ast.Expr):
        replace_in(s, e, call)
    else:
        s.test = call
    return [("method" if meth else "func", f)]


def t_helper_block(fn, rng, ctx):
    """move consecutive statements into a new function returning the names used later"""
    c = []
    args, loc = locals_of(fn)
    inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    for p, b in blocks(fn):
        if p is not fn:
            continue
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 6) + 1):
                seg = b[i:j]
                if any(has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef) for s in seg):
                    break
                if any(is_super(s) for s in seg) or any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in seg):
                    break
                if any(isinstance(x, (ast.Break, ast.Continue)) for s in seg for x in ast.walk(s)) and not all(isinstance(s, (ast.For, ast.While, ast.Assign)) for s in seg):
                    continue
                if any(isinstance(x, ast.Delete) for s in seg for x in ast.walk(s)):
                    continue
                c.append((b, i, j))
    if not c:
        return None
    rng.shuffle(c)
    for b, i, j in c[:20]:
        seg, rest, before = b[i:j], b[j:], b[:i]
        st = set()
        for s in seg:
            st |= stored(s)
        # definitely assigned: only simple assignments at segment top level
        definite = set()
        for s in seg:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    definite |= stored(t)
        cvs = set()
        for s in fn.body:
            cvs |= comp_vars(s)
        used_later = set()
        for s in rest:
            used_later |= loaded(s)
        if st & used_later & cvs or inner & {x for q in rest for x in loaded(q)} and st:
            continue
        out = sorted(st & used_later)
        prev = set(args)
        for s in before:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    prev |= stored(t)
        if any(o not in definite and o not in prev for o in out):
            continue
        if inner & {x for s in seg for x in loaded(s)}:
            continue
        fv = [x for x in free_names(seg, fn) if x not in cvs]
        if any(x in cvs for x in free_names(seg, fn) if x in (args | {y for s in fn.body for y in (stored(s) if not comp_vars(s) else set())})):
            continue
        # inputs: loaded names that exist before the segment
        maybe = set(args)
        for s in before:
            maybe |= stored(s)
        ins = [x for x in fv if x in maybe]
        ins += [o for o in out if o not in definite and o not in ins]
        # names possibly unbound before
        if any(x not in prev for x in ins):
            continue
        if len(out) > 3 or len(ins) > 8:
            continue
        nm = fresh(rng, "_block")
        meth = "self" in ins and ctx["cls"] and rng.random() < .7
        a = [x for x in ins if not (meth and x == "self")]
        body = [copy.deepcopy(s) for s in seg]
        if len(out) == 1:
            body.append(ast.Return(name(out[0])))
        elif out:
            body.append(ast.Return(ast.Tuple([name(o) for o in out], ast.Load())))
        f = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in (["self"] if meth else []) + a], None, [], [], None, []), body, [], None, None)
        f.type_params = []
        call = ast.Call(ast.Attribute(name("self"), nm, ast.Load()) if meth else name(nm), [name(x) for x in a], [])
        if not out:
            s = ast.Expr(call)
        elif len(out) == 1:
            s = ast.Assign([name(out[0], True)], call)
        else:
            s = ast.Assign([ast.Tuple([name(o, True) for o in out], ast.Store())], call)
        b[i:j] = [s]
        return [("method" if meth else "func", f)]
    return None


def t_alias_self(fn, rng, ctx):
    """t = self.attr at the start, for attributes only read in the function"""
    reads, writes = {}, set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            if isinstance(x.ctx, ast.Load):
                reads.setdefault(x.attr, []).append(x)
            else:
                writes.add(x.attr)
    calls = {x.func.attr for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
    if fn.name == "__init__" or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(fn)):
        return None
    c = [a for a in reads if a not in writes and a not in calls and len(reads[a]) >= 1 and not has(fn, ast.Delete)]
    if not c or is_super(fn):
        return None
    a = rng.choice(c)
    # evaluate only if the first statement already reads it unconditionally
    k = 0
    while k < len(fn.body) and isinstance(fn.body[k], ast.Expr) and isinstance(fn.body[k].value, ast.Constant):
        k += 1
    if k >= len(fn.body) or not any(x in list(ast.walk(fn.body[k])) for x in reads[a]) or isinstance(fn.body[k], (ast.If, ast.For, ast.Try, ast.With)):
        return None
    for x in reads[a]:
        replace_in(fn, x, name("al_" + a))
    fn.body.insert(k, ast.Assign([name("al_" + a, True)], ast.Attribute(name("self"), a, ast.Load())))
    return []


def t_demorgan(fn, rng, ctx):
    c = [x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.Assert)) and isinstance(x.test, ast.BoolOp)]
    if not c:
        return None
    x = rng.choice(c)
    x.test = ast.UnaryOp(ast.Not(), negate(x.test))
    return []


def t_tuple(fn, rng, ctx):
    """merge two consecutive independent assignments into a tuple assignment / split"""
    c = []
    for p, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) \
                    and not (stored(s) & loaded(s)):
                c.append((b, i, "split"))
            if i + 1 < len(b):
                t = b[i + 1]
                if all(isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) for q in (s, t)) and s.targets[0].id not in loaded(t.value) \
                        and s.targets[0].id != t.targets[0].id:
                    c.append((b, i, "merge"))
    if not c:
        return None
    b, i, k = rng.choice(c)
    if k == "split":
        s = b[i]
        b[i:i + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
    else:
        s, t = b[i], b[i + 1]
        b[i:i + 2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))]
    return []


def t_arith(fn, rng, ctx):
    """commute / reassociate products and sums of names and attributes on the right-hand side"""
    c = [x for x in ast.walk(fn) if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Mult)) and
         all(isinstance(y, (ast.Name, ast.Attribute, ast.Constant)) and not (isinstance(y, ast.Constant) and isinstance(y.value, str)) for y in (x.left, x.right))]
    c = [x for x in c if isinstance(x.op, ast.Mult) or any(isinstance(y, ast.Constant) for y in (x.left, x.right)) ]
    if not c:
        return None
    x = rng.choice(c)
    x.left, x.right = x.right, x.left
    return []


ALL = [t_rename, t_temp, t_retvar, t_invif, t_early, t_continue, t_swap, t_assert, t_cmpflip, t_loop2comp, t_comp2loop, t_forindex, t_unaug, t_ifexp, t_nestif,
       t_helper_expr, t_helper_block, t_alias_self, t_demorgan, t_tuple, t_arith]


def overlay(fn_old, fn_new, module, extra):
    tree = overlay_with(fn_old, fn_new, module)
    if tree is None:
        return None
    import copy as cp
    for kind, f in extra:
        ast.fix_missing_locations(f)
        for x in ast.walk(f):
            if hasattr(x, "lineno"):
                pass
        if kind == "func":
            k = 0
            for k, s in enumerate(tree.body):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    break
            tree.body.insert(k, f)
        else:
            for k, s in enumerate(tree.body):
                if isinstance(s, ast.ClassDef) and any(x is fn_new for x in s.body):
                    c = cp.copy(s)
                    c.body = list(s.body) + [f]
                    tree.body[k] = c
    return tree


def one(job):
    fq, kinds, seed = job
    rng = random.Random(seed)
    F = STATE["f"][fq]
    fn = copy.deepcopy(F.node)
    if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
        ctx = {"cls": None}
    else:
        ctx = {"cls": F.cls}
    extra, done = [], []
    for k in kinds:
        try:
            r = globals()[k](fn, rng, ctx)
        except Exception as e:
            return (fq, k, "TRANSFORM", repr(e), 0, "")
        if r is not None:
            extra += r
            done.append(k)
            ast.fix_missing_locations(fn)
    if not done:
        return None
    ast.fix_missing_locations(fn)
    new = ast.parse(ast.unparse(fn)).body[0]
    extra = [(k, ast.parse(ast.unparse(ast.fix_missing_locations(f))).body[0]) for k, f in extra]
    tree = overlay(F.node, new, F.module, extra)
    if tree is None:
        return None
    t0 = time.time()
    import signal
    def onalarm(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(60)
    try:
        hard, soft = check(F.module, tree, fq, limit=8)
    except TimeoutError:
        return (fq, "+".join(done), "TIMEOUT", "", 60, "")
    except Exception as e:
        import traceback
        return (fq, "+".join(done), "CRASH", traceback.format_exc()[-400:], time.time() - t0, "")
    old = ast.unparse(F.node).splitlines()
    nw = [x for _, f in extra for x in ast.unparse(f).splitlines()] + ast.unparse(new).splitlines()
    d = [x for x in difflib.unified_diff(old, nw, n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("+++", "---")]
    res = "hard" if hard else ("soft" if soft else "ok")
    f = (hard or soft or [("", "")])[0]
    return (fq, "+".join(done), res, f"{f[0]} {f[1]}"[:600], time.time() - t0, " | ".join(x for x in d)[:1500])


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--match", default="")
    ap.add_argument("--per", type=int, default=3)
    ap.add_argument("--n", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--show", default="hard,soft,CRASH,TRANSFORM")
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    P = prepare(a.root)
    allf = {f.qual: f for f in P.all_functions()}
    want = {q: f for q, f in allf.items() if re.search(a.match, q)}
    t0 = time.time()
    prepare_all()
    print("reference", round(time.time() - t0, 1), "s", file=sys.stderr)
    STATE["f"] = allf
    rng = random.Random(a.seed)
    kinds = [f.__name__ for f in ALL if not a.only or re.search(a.only, f.__name__)]
    jobs = []
    for q, f in want.items():
        if f.name in ("__repr__", "__str__", "extra_repr", "draw_state", "check_equivariance") or "test" in f.name:
            continue
        for _ in range(a.per):
            jobs.append((q, [rng.choice(kinds) for _ in range(a.n)], rng.randrange(10**9)))
    stat, byk = {}, {}
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(one, jobs):
            if r is None:
                continue
            stat[r[2]] = stat.get(r[2], 0) + 1
            if r[2] in a.show.split(","):
                print(f"[{r[2]}] {r[0]} {r[1]}\n    {r[5]}\n    => {r[3]}")
            for k in r[1].split("+"):
                byk.setdefault(k, {}).setdefault(r[2], 0)
                byk[k][r[2]] += 1
    print(stat, round(time.time() - t0, 1))
    for k in sorted(byk):
        print("  ", k, byk[k])


if __name__ == "__main__":
    main()
