"""Gated value-graph construction by abstract interpretation of the syntax tree.

One pass per function, callee bodies inlined (context sensitive up to a depth), joins are
gamma terms, loops over collections of unknown length are summarised by a generic
iteration (maps, sums, prefix sums, fold terms).  Nothing of the analysed program is ever
executed; everything the analysis does not model becomes an opaque term.
"""
import ast
import re
from .terms import *
from . import terms as TM
from .front import Class, Func, Module
from . import api


def conjuncts(p):
    if p.op == "assumed":
        p = p.a[0]
    return p.a if p.op == "and" else (p,)


class Budget(Exception):
    pass


class HObj:
    __slots__ = ("kind", "cls", "attrs", "content", "root")

    def __init__(self, kind, cls=None, attrs=None, content=None, root=None):
        self.kind, self.cls, self.attrs, self.content, self.root = kind, cls, attrs, content, root

    def with_attr(self, k, v):
        d = dict(self.attrs)
        d[k] = v
        return HObj(self.kind, self.cls, d, self.content, self.root)

    def with_content(self, c):
        return HObj(self.kind, self.cls, self.attrs, c, self.root)


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.heap), self.pc)


class Frame:
    def __init__(self, func, module, env, entry_pc, closure=None):
        self.func = func
        self.module = module
        self.env = env
        self.exits = []          # (pc, value, heap)
        self.entry_pc = entry_pc
        self.closure = closure
        self.yields = []
        self.continues = []      # states
        self.breaks = []


class Effect:
    __slots__ = ("kind", "pc", "loops", "data", "func", "node")

    def __init__(self, kind, pc, loops, data, func, node):
        self.kind, self.pc, self.loops, self.data, self.func, self.node = kind, pc, loops, data, func, node

    @property
    def loc(self):
        f = self.func
        if f is None:
            return "?"
        return f"{f.module.path}:{getattr(self.node, 'lineno', '?')} ({f.qual})"

    def __repr__(self):
        return f"<{self.kind} {self.data} pc={self.pc} loops={[(l[0], l[1]) for l in self.loops]}>"


QUIET = {"warnings.warn", "print", "warn", "manual_seed", "seed", "debug", "info", "reset_peak_memory_stats"}


def callee(t):
    if t.op == "call":
        return t.a[0]
    if t.op == "mcall":
        return t.a[1]
    return ""


def walk_stmts(n):
    """nodes of a loop body, not entering nested loops or functions"""
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(x))


ALLOC = {"numpy." + x for x in "zeros empty ones eye array copy full zeros_like empty_like ones_like full_like arange asarray".split()} | \
        {"torch." + x for x in "zeros empty ones eye full zeros_like empty_like ones_like full_like tensor rand randn FloatTensor empty_strided".split()}
ALLOC_METHODS = {"clone", "copy", "new_empty", "new_zeros", "new_ones"}
UNARY = {"numpy.cos": "cos", "math.cos": "cos", "torch.cos": "cos", "numpy.sin": "sin", "math.sin": "sin", "torch.sin": "sin",
         "numpy.exp": "exp", "math.exp": "exp", "numpy.abs": "abs", "math.fabs": "abs", "abs": "abs", "numpy.absolute": "abs",
         "math.floor": "floor", "numpy.floor": "floor", "math.ceil": "ceil", "numpy.ceil": "ceil",
         "numpy.sqrt": "sqrt", "math.sqrt": "sqrt", "torch.sqrt": "sqrt", "numpy.isnan": "isnan"}
VIEW_METHODS = {"view", "reshape", "transpose", "permute", "expand", "squeeze", "unsqueeze", "narrow", "detach", "flatten", "view_as",
                "expand_as", "contiguous", "t", "select", "ravel", "chunk", "split"}
MUT_METHODS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "add", "setdefault", "popitem", "discard",
               "fill", "resize"}
PURE_TYPES_BUILTINS = {"int", "float", "str", "bool", "list", "tuple", "dict", "set"}

# keyword order of frequently used external callables, so that positional and keyword spellings coincide
SIGS = {
    "torch.nn.functional.conv2d": "input weight bias stride padding dilation groups",
    "torch.nn.functional.conv_transpose2d": "input weight bias stride padding output_padding groups dilation",
    "torch.nn.functional.pad": "input pad mode value",
    "torch.nn.functional.max_pool2d": "input kernel_size stride padding dilation ceil_mode return_indices",
    "torch.nn.functional.avg_pool2d": "input kernel_size stride padding ceil_mode count_include_pad divisor_override",
    "torch.nn.functional.adaptive_avg_pool2d": "input output_size",
    "torch.nn.functional.adaptive_max_pool2d": "input output_size return_indices",
    "torch.nn.functional.interpolate": "input size scale_factor mode align_corners",
    "torch.nn.functional.dropout": "input p training inplace",
    "torch.nn.functional.dropout2d": "input p training inplace",
    "torch.nn.functional.dropout3d": "input p training inplace",
    "torch.nn.functional.relu": "input inplace",
    "torch.nn.functional.elu": "input alpha inplace",
    "torch.nn.Conv2d": "in_channels out_channels kernel_size stride padding dilation groups bias padding_mode",
    "torch.nn.ConvTranspose2d": "in_channels out_channels kernel_size stride padding output_padding groups bias dilation padding_mode",
    "torch.nn.MaxPool2d": "kernel_size stride padding dilation return_indices ceil_mode",
    "torch.nn.AvgPool2d": "kernel_size stride padding ceil_mode count_include_pad divisor_override",
    "torch.nn.Upsample": "size scale_factor mode align_corners",
    "torch.nn.BatchNorm2d": "num_features eps momentum affine track_running_stats",
    "torch.nn.BatchNorm3d": "num_features eps momentum affine track_running_stats",
    "torch.nn.ReLU": "inplace",
    "torch.nn.ELU": "alpha inplace",
    "torch.nn.Dropout": "p inplace",
    "torch.nn.AdaptiveAvgPool2d": "output_size",
    "torch.nn.AdaptiveMaxPool2d": "output_size return_indices",
    "torch.cat": "tensors dim",
    "torch.stack": "tensors dim",
    "numpy.concatenate": "arrays axis",
    "torch.max": "input dim keepdim",
    "torch.relu": "input",
    "torch.sigmoid": "input",
    "numpy.einsum": None,
}
SIGS = {k: (v.split() if v else None) for k, v in SIGS.items()}


BUILTIN_NAMES = set(dir(__import__("builtins"))) | {"__file__", "__name__", "__doc__", "__class__"}


def counter_step(s):
    """i += k, also written i = i + k / i = k + i"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name):
        return s
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        i = s.targets[0].id
        for a, b in ((s.value.left, s.value.right), (s.value.right, s.value.left)):
            if isinstance(a, ast.Name) and a.id == i and not any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(b)):
                return ast.copy_location(ast.AugAssign(target=s.targets[0], op=ast.Add(), value=b), s)
    return None


def stores_into(fn, memo={}):
    """names of parameters a function stores into by subscript"""
    r = memo.get(fn)
    if r is None:
        r = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                x = n.value
                while isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x, ast.Attribute):
                    x = x.value
                if isinstance(x, ast.Name):
                    r.add(x.id)
        memo[fn] = r
    return r


class Interp:
    def __init__(self, project, max_depth=10, budget=400000, opaque=(), new_attrs=("FieldType", "GeometricTensor")):
        self.P = project
        self.max_depth = max_depth
        self.steps = 0
        self.budget = budget
        self.effects = []
        self.guards = []
        self.sized = set()
        self.types = {}
        self.closures = {}
        self.prov = {}
        self.lam_memo = {}
        self.lamlevel = 0
        self.nid = 0
        self.depth = 0
        self.loopstack = []
        self.callstack = []
        self.opaque = set(opaque)      # qualified function names (suffix) never inlined
        self.new_attrs = set(new_attrs)
        self.new_memo = {}
        self.inlined = set()
        self.attr_type_memo = {}
        self.facts = {}                # cond -> bool, assumed from the start
        self.muted = 0
        TM.ATTR_HOOK[0] = self.attr_hook
        self._in_new = 0

    # ------------------------------------------------------------------ bookkeeping
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def fresh(self):
        self.nid += 1
        return self.nid

    def effect(self, kind, st, data, fr, node):
        if not self.muted:
            self.effects.append(Effect(kind, st.pc, tuple(self.loopstack), data, fr.func if fr else None, node))

    def guard(self, st, cond, fr, node, kind):
        if not self.muted:
            self.guards.append(Effect(kind, st.pc, tuple(self.loopstack), cond, fr.func if fr else None, node))

    # ------------------------------------------------------------------ heap
    def alloc(self, st, obj):
        i = self.fresh()
        st.heap[i] = obj
        return mk("ref", i)

    def instance(self, st, cls, root):
        r = self.alloc(st, HObj("inst", cls, {}, None, root))
        return r

    def freeze(self, v, st, depth=0):
        """value term with list/dict/array references replaced by their present contents"""
        if v.op == "ref":
            o = st.heap.get(v.a[0])
            if o is None:
                return v
            if o.kind == "inst":
                return o.root if o.root is not None else v
            if depth > 40:
                return mk("cyclic")
            return self.freeze(o.content, st, depth + 1)
        if v.op == "view":
            return index(self.freeze(v.a[0], st, depth + 1), self.freeze(v.a[1], st, depth + 1))
        if v.op == "closure":
            return self.lam(v, st, depth)
        if v.op in ("const", "sym") or not v.a:
            return v
        refs = {}
        for x in walk(v):
            if x.op in ("ref", "view", "closure"):
                y = self.freeze(x, st, depth + 1)
                if y is not x:
                    refs[x] = y
        return subst(v, refs) if refs else v

    def freeze_new(self, v, st, old):
        """freeze closures and references to objects that did not exist in heap `old`"""
        m = {}
        for x in walk(v):
            if x.op == "closure" or x.op == "view" or x.op == "ref" and x.a[0] not in old and st.heap.get(x.a[0]) is not None and st.heap[x.a[0]].kind != "inst":
                y = self.freeze(x, st)
                if y is not x:
                    m[x] = y
        return subst(v, m) if m else v

    def lam(self, v, st, depth):
        """canonical form of a closure: its body on de Bruijn-like parameters; `func` for a plain alias"""
        key = v.a[0]
        if key in self.lam_memo:
            return self.lam_memo[key]
        if depth > 12 or self.depth > self.max_depth:
            return mk("lam?", 0)
        self.lam_memo[key] = mk("lam", "rec")
        fn, cfr = self.closures[key]
        a = fn.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        nd = len(a.defaults)
        pos = a.posonlyargs + a.args
        s2 = st.copy()
        lvl = self.lamlevel
        self.lamlevel += 1
        self.muted += 1
        saved = fn, self.depth
        try:
            k = 0
            for i, x in enumerate(pos):
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[x.arg] = self.ev(a.defaults[j], cfr, s2)
                else:
                    env[x.arg] = mk("sym", "\u03bb%d.%d" % (lvl, k))
                    k += 1
            for x in a.kwonlyargs:
                env[x.arg] = mk("sym", "\u03bb%d.%s" % (lvl, x.arg))
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    env[x.arg] = mk("sym", "\u03bb%d.*%s" % (lvl, x.arg))
            body = self.run(fn, env, s2, cfr)
            r = mk("lam", k, self.freeze(body, s2, depth + 1))
        finally:
            self.muted -= 1
            self.lamlevel -= 1
        self.lam_memo[key] = r
        return r

    def obj(self, v, st):
        if v.op == "ref":
            return st.heap.get(v.a[0])
        return None

    # ------------------------------------------------------------------ types
    def type_of(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        if t.op == "new":
            return self.P.classes.get(t.a[0])
        if t.op == "attr" and t.a[1] in ("_modules", "_parameters", "_buffers"):
            return ("dict", None)
        if t.op == "attr":
            b = self.type_of(t.a[0])
            if isinstance(b, Class) and isinstance(t.a[1], str):
                return self.attr_type(b, t.a[1])
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("e2cnn."):
            f = self.P.func(t.a[0]) if hasattr(self.P, "func") else None
            if f is not None and f.node.returns is not None:
                return self.ann_type(f.module, f.node.returns)
        if t.op in ("index", "dval"):
            b = self.type_of(t.a[0])
            if isinstance(b, tuple) and b[0] == "dict":
                return b[1]
        if t.op == "index":
            b = self.type_of(t.a[0])
            if isinstance(b, tuple) and b[0] == "seq" and t.a[1].op != "slice":
                return b[1]
            if isinstance(b, tuple) and b[0] == "seq":
                return b
        if t.op == "ite":
            a, b = self.type_of(t.a[1]), self.type_of(t.a[2])
            if a is b:
                return a
        return None

    def attr_type(self, cls, name):
        key = (cls.qual, name)
        if key in self.attr_type_memo:
            return self.attr_type_memo[key]
        self.attr_type_memo[key] = None
        res = None
        for c in self.P.mro(cls):
            if not isinstance(c, Class):
                continue
            m = c.methods.get(name)
            if m is not None and m.is_property and m.node.returns is not None:
                res = self.ann_type(m.module, m.node.returns)
                break
            init = c.methods.get("__init__")
            if init is None:
                continue
            ann = {a.arg: a.annotation for a in init.node.args.args + init.node.args.kwonlyargs}
            for n in ast.walk(init.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) \
                        and n.target.value.id == "self" and n.target.attr == name:
                    res = self.ann_type(c.module, n.annotation)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                        and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and n.targets[0].attr == name \
                        and isinstance(n.value, ast.Name) and n.value.id in ann and ann[n.value.id] is not None:
                    res = res or self.ann_type(c.module, ann[n.value.id])
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                        and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and n.targets[0].attr == name \
                        and (isinstance(n.value, (ast.Dict, ast.DictComp)) or (isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split(".")[-1] in ("dict", "defaultdict", "OrderedDict"))):
                    res = res or ("dict", None)
            if res is not None:
                break
        self.attr_type_memo[key] = res
        return res

    def ann_type(self, module, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split(".")[-1]
            if h in ("List", "Iterable", "Sequence", "list"):
                el = self.ann_type(module, ann.slice)
                return ("seq", el) if el else None
            if h == "Tuple":
                sl = ann.slice
                if isinstance(sl, ast.Tuple) and sl.elts:
                    el = self.ann_type(module, sl.elts[0])
                    return ("seq", el) if el and len(sl.elts) == 2 and isinstance(sl.elts[1], ast.Constant) else None
                el = self.ann_type(module, sl)
                return ("seq", el) if el else None
            if h == "Optional":
                return self.ann_type(module, ann.slice)
            if h in ("Dict", "dict", "OrderedDict", "Mapping", "DefaultDict", "defaultdict"):
                sl = ann.slice
                el = self.ann_type(module, sl.elts[1]) if isinstance(sl, ast.Tuple) and len(sl.elts) == 2 else None
                return ("dict", el)
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)) and ast.unparse(ann).split(".")[-1] in ("Dict", "dict", "OrderedDict", "Mapping"):
            return ("dict", None)
        r = self.P.resolve_expr(module, ann)
        if r and r[0] == "class":
            return r[1]
        return None

    # ------------------------------------------------------------------ attribute of constructed values
    def attr_hook(self, b, name):
        if b.op == "new" and isinstance(name, str):
            cls = self.P.classes.get(b.a[0])
            if cls is not None and cls.name in self.new_attrs:
                obj = self.construct(b)
                if obj is not None and name in obj:
                    return obj[name]
        return None

    def construct(self, b):
        """attributes (frozen) of a 'new' term"""
        if b in self.new_memo:
            return self.new_memo[b]
        self.new_memo[b] = None
        if self._in_new > 4:
            del self.new_memo[b]
            return None
        cls = self.P.classes[b.a[0]]
        init = self.P.find_method(cls, "__init__")
        attrs = {}
        if init is not None:
            st = State({}, ())
            self.muted += 1
            self._in_new += 1
            try:
                me = self.instance(st, cls, b)
                kw = {x.a[0]: x.a[1] for x in b.a[1:]}
                env = {init.params()[0]: me}
                env.update(kw)
                self.run(init, env, st)
                o = st.heap[me.a[0]]
                attrs = {k: self.freeze(v, st) for k, v in o.attrs.items() if isinstance(k, str)}
            finally:
                self.muted -= 1
                self._in_new -= 1
        self.new_memo[b] = attrs
        return attrs

    # ------------------------------------------------------------------ running functions
    def run(self, func, env, st, closure=None):
        """inline func with bound environment; returns value; st updated in place"""
        self.tick()
        self.inlined.add(func.qual)
        fr = Frame(func, func.module, env, st.pc, closure)
        gen = None
        if not isinstance(func.node, ast.Lambda) and func.is_generator():
            gen = env["\0yield"] = self.alloc(st, HObj("list", content=lst([])))
        self.depth += 1
        self.callstack.append(func.qual)
        try:
            if isinstance(func.node, ast.Lambda):
                return self.ev(func.node.body, fr, st)
            end = self.block(func.node.body, fr, st)
        finally:
            self.depth -= 1
            self.callstack.pop()
        exits = list(fr.exits)
        if end is not None:
            exits.append((end.pc, NONE, end.heap))
        if gen is not None:
            exits = [(pc, gen, h) for pc, v, h in exits]
        if not exits:
            # never returns normally
            st.pc = st.pc + (FALSE,)
            return mk("bottom")
        if len(exits) == 1:
            pc, v, heap = exits[0]
            heap = dict(heap)
            st.heap.clear()
            st.heap.update(heap)
            st.pc = pc
            return v
        n0 = len(fr.entry_pc)
        pc, v, heap = exits[-1]
        heap = dict(heap)
        for pc2, v2, h2 in reversed(exits[:-1]):
            c = conj(pc2[n0:])
            v = self.merge_val(c, v2, v, h2, heap)
            heap = self.merge_heap(c, h2, heap)
        st.heap.clear()
        st.heap.update(heap)
        # keep the condition that some exit was reached
        st.pc = fr.entry_pc
        some = disj([conj(e[0][n0:]) for e in exits])
        if truth(some) is None:
            st.pc = st.pc + (mk("assumed", some),)
        return v

    def merge_val(self, c, a, b, h1, h2):
        if a is b:
            return a
        return ite(c, a, b)

    def merge_heap(self, c, h1, h2):
        out = {}
        for i in set(h1) | set(h2):
            o1, o2 = h1.get(i), h2.get(i)
            if o1 is None or o2 is None or o1 is o2:
                out[i] = o1 or o2
                continue
            if o1.kind == "inst":
                attrs = {}
                for k in list(o1.attrs) + [k for k in o2.attrs if k not in o1.attrs]:
                    d = mk("attr", o1.root, k) if o1.root is not None and o1.root.op != "new" and isinstance(k, str) else mk("undef", k)
                    attrs[k] = ite(c, o1.attrs.get(k, d), o2.attrs.get(k, d))
                out[i] = HObj("inst", o1.cls, attrs, None, o1.root)
            else:
                out[i] = HObj(o1.kind, o1.cls, None, ite(c, o1.content, o2.content), o1.root)
        return out

    def merge_states(self, c, s1, s2, f1, f2, fr, base_pc):
        """s1/s2: State or None, f1/f2 their envs.  Returns State, sets fr.env"""
        if s1 is None and s2 is None:
            return None
        if s1 is None:
            fr.env = f2
            return s2
        if s2 is None:
            fr.env = f1
            return s1
        env = {}
        for k in list(f1) + [k for k in f2 if k not in f1]:
            a = f1.get(k)
            b = f2.get(k)
            if k.startswith("\0root:"):
                if a is b:
                    env[k] = a
                continue
            if a is None:
                a = mk("undef", k)
            if b is None:
                b = mk("undef", k)
            env[k] = ite(c, a, b)
        fr.env = env
        # facts gained in both branches (asserts) are kept as implications
        pc = list(base_pc)
        n = len(base_pc)
        e1 = [x for x in s1.pc[n:] if x is not c]
        e2 = [x for x in s2.pc[n:] if x is not neg_b(c)]
        for x in e1:
            if x in e2:
                pc.append(x)
        return State(self.merge_heap(c, s1.heap, s2.heap), tuple(pc))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, fr, st)
        return st

    def decide(self, c, st):
        tv = truth(c)
        if tv is not None:
            return tv
        if c in self.facts:
            return self.facts[c]
        n = neg_b(c)
        if n in self.facts:
            return not self.facts[n]
        pcs = [q for p in st.pc for q in conjuncts(p)]
        for q in pcs:
            if q is c:
                return True
            if q is n:
                return False
        if c.op == "and":
            vs = [self.decide(x, st) for x in c.a]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if c.op == "or":
            vs = [self.decide(x, st) for x in c.a]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        if c.op == "is" and c.a[1] is NONE:
            # `x is None` is false once isinstance(x, ...) or an ordering on x is known
            x = c.a[0]
            for q in pcs:
                if q.op == "isinstance" and q.a[0] is x:
                    return False
        if c.op == "eq":
            # x == k1 known, ask x == k2 (distinct constants)
            for x, k in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if k.op == "const":
                    for q in pcs:
                        if q.op == "eq" and x in q.a:
                            o = q.a[0] if q.a[1] is x else q.a[1]
                            if o.op == "const" and o is not k:
                                return False
        return None

    def simplify(self, t, st):
        """use facts of the path to resolve gammas at the top of t"""
        n = 0
        while t.op == "ite" and n < 20:
            d = self.decide(t.a[0], st)
            if d is None:
                break
            t = t.a[1] if d else t.a[2]
            n += 1
        return t

    def stmt(self, s, fr, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.effect("unmodelled", st, const(type(s).__name__), fr, s)
            return st
        return m(s, fr, st)

    def s_Pass(self, s, fr, st):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Global(self, s, fr, st):
        for n in s.names:
            fr.env["\0global:" + n] = TRUE
        return st

    def s_ImportFrom(self, s, fr, st):
        tgt = self.P._abs(fr.module, s.module, s.level)
        for al in s.names:
            r = self.P.resolve_dotted(tgt, al.name)
            if r:
                fr.env[al.asname or al.name] = self.binding(r)
        return st

    def s_Import(self, s, fr, st):
        for al in s.names:
            nm = al.name if al.asname else al.name.split(".")[0]
            fr.env[al.asname or nm] = mk("mod", nm) if nm.split(".")[0] == "e2cnn" else mk("ext", nm)
        return st

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, fr, st)
        if isinstance(s.value, ast.Call) and v.op in ("call", "mcall", "callv") and callee(v) not in QUIET:
            self.effect("stmt", st, v, fr, s)
        return st if st.pc[-1:] != (FALSE,) else None

    def s_FunctionDef(self, s, fr, st):
        f = Func(s, fr.module, cls=None, outer=fr.func)
        f.cls = None
        i = self.fresh()
        self.closures[i] = (f, fr)
        fr.env[s.name] = mk("closure", i)
        return st

    def s_ClassDef(self, s, fr, st):
        fr.env[s.name] = mk("opaqueclass", s.name)
        return st

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        if st.pc[-1:] == (FALSE,):
            return None
        fr.exits.append((st.pc, v, st.heap))
        return None

    def s_Raise(self, s, fr, st):
        name = ""
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e)
        self.guard(st, neg_b(conj(st.pc)), fr, s, "raise")
        if not self.muted:
            self.guards[-1].data = (neg_b(conj(st.pc)), name)
        return None

    def s_Assert(self, s, fr, st):
        c = self.boolv(self.ev(s.test, fr, st), st)
        if s.msg is not None:
            pass
        self.guard(st, (c, "AssertionError"), fr, s, "assert")
        if truth(c) is False:
            return None
        if truth(c) is None:
            st.pc = st.pc + tuple(mk("assumed", x) for x in (c.a if c.op == "and" else (c,)))
        return st

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, st)
                o = self.obj(b, st)
                if o is not None and o.kind == "inst":
                    d = dict(o.attrs)
                    d[t.attr] = mk("undef", t.attr)
                    st.heap[b.a[0]] = HObj("inst", o.cls, d, None, o.root)
                self.effect("delattr", st, mk("tuple", self.freeze(b, st), const(t.attr)), fr, s)
            else:
                self.effect("mutate", st, mk("mut", self.root_of(self.ev(t.value, fr, st), st) if isinstance(t, ast.Subscript) else mk("?"), "del"), fr, s)
        return st

    def s_If(self, s, fr, st):
        c = self.boolv(self.ev(s.test, fr, st), st)
        d = self.decide(c, st)
        if d is True:
            return self.block(s.body, fr, st)
        if d is False:
            return self.block(s.orelse, fr, st)
        base = st.pc
        env0 = fr.env
        s1, s2 = st.copy(), st.copy()
        body, orelse = s.body, s.orelse
        if orelse and isinstance(orelse[-1], ast.Raise) and not isinstance(body[-1], ast.Raise):
            body, orelse, c = orelse, body, neg_b(c)      # the rejecting branch first
        s1.pc = base + tuple(c.a if c.op == "and" else (c,))
        nc = neg_b(c)
        s2.pc = base + tuple(nc.a if nc.op == "and" else (nc,))
        fr.env = dict(env0)
        left = lambda: (len(fr.exits), len(fr.continues), len(fr.breaks))
        l0 = left()
        r1 = self.block(body, fr, s1)
        e1 = fr.env
        if r1 is None and left() == l0:       # the branch only raises: its condition is excluded, not chosen
            s2.pc = base + tuple(mk("assumed", x) for x in s2.pc[len(base):])
        fr.env = dict(env0)
        l0 = left()
        r2 = self.block(orelse, fr, s2)
        e2 = fr.env
        if r2 is None and r1 is not None and left() == l0:
            n = len(base)
            own = tuple(c.a if c.op == "and" else (c,))
            r1.pc = base + tuple(mk("assumed", x) for x in own) + r1.pc[n + len(own):] if r1.pc[n:n + len(own)] == own else r1.pc
        return self.merge_states(c, r1, r2, e1, e2, fr, base)

    def s_With(self, s, fr, st):
        for it in s.items:
            v = self.ev(it.context_expr, fr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", self.freeze(v, st)), fr, st)
        return self.block(s.body, fr, st)

    def s_Try(self, s, fr, st):
        base = st.pc
        env0 = dict(fr.env)
        st0 = st.copy()
        r = self.block(s.body, fr, st)
        if r is not None and s.orelse:
            r = self.block(s.orelse, fr, r)
        env1 = fr.env
        for h in s.handlers:
            nm = ast.unparse(h.type) if h.type is not None else "BaseException"
            c = mk("raises", nm)
            hs = st0.copy()
            hs.pc = base + (c,)
            fr.env = dict(env0)
            if h.name:
                fr.env[h.name] = mk("exc", nm)
            hr = self.block(h.body, fr, hs)
            henv = fr.env
            if r is None:
                fr.env = henv
                r, env1 = hr, henv
            elif hr is None:
                fr.env = env1
            else:
                r = self.merge_states(c, hr, r, henv, env1, fr, base)
                env1 = fr.env
        fr.env = env1
        if s.finalbody and r is not None:
            r = self.block(s.finalbody, fr, r)
        return r

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)
        return st if st.pc[-1:] != (FALSE,) else None

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)
        return st

    def s_AugAssign(self, s, fr, st):
        cur = self.ev(self.as_load(s.target), fr, st)
        rhs = self.ev(s.value, fr, st)
        o = self.obj(cur, st)
        if o is not None and o.kind in ("list",) and isinstance(s.op, ast.Add):
            st.heap[cur.a[0]] = o.with_content(concat(o.content, self.seqterm(rhs, st)))
            return st
        new = self.binop(s.op, self.freeze(cur, st), self.freeze(rhs, st), st)
        if o is not None and o.kind == "arr":
            if o.root is not None and o.root.op in ("attr", "sym", "index", "mcall", "getattrd"):
                self.effect("augname", st, mk("mut", o.root, type(s.op).__name__, self.freeze(new, st)), fr, s)
            st.heap[cur.a[0]] = o.with_content(new)
            return st
        if cur.op == "view":
            bo = self.obj(cur.a[0], st)
            if bo is not None and bo.root is not None:
                self.setitem(cur.a[0], cur.a[1], new, fr, st, s)
            else:
                self.store(cur, new, fr, st, s)
            return st
        if isinstance(s.target, ast.Name):
            rk = "\0root:" + s.target.id
            r = fr.env.get(rk) or self.root_of(cur, st)
            if r.op in ("attr", "sym", "index", "mcall", "getattrd"):
                self.effect("augname", st, mk("mut", r, type(s.op).__name__, self.freeze(new, st), self.inplace(r, rhs, new, st)), fr, s)
                self.assign(s.target, new, fr, st)
                fr.env[rk] = r
                return st
        if isinstance(s.target, ast.Attribute) and s.target.attr == "tensor" and cur.op in ("attr", "sym"):
            self.effect("mutate", st, mk("mut", cur, "inplace", type(s.op).__name__, self.freeze(rhs, st)), fr, s)
        self.assign(s.target, new, fr, st)
        return st

    def inplace(self, r, rhs, new, st):
        """whether an augmented assignment is known to work in place (sequence or array), as opposed to on a number"""
        t = self.type_of(r)
        if isinstance(t, tuple) and t[0] in ("seq", "dict"):
            return TRUE
        x = self.freeze(rhs, st)
        if is_seq(x) or x.op in ("flatmap", "concat", "map"):
            return TRUE
        y = r
        while y.op in ("attr", "index", "mcall"):
            if y.op == "attr" and y.a[1] in ("tensor", "data"):
                return TRUE
            y = y.a[0]
        for z in walk(x):
            if z.op == "call" and isinstance(z.a[0], str) and z.a[0].split(".")[0] in ("torch", "numpy") or z.op in ("arr", "matmul"):
                return TRUE
        return FALSE

    def mark_roots(self, body, fr, st):
        """names bound to objects of the caller that a loop body modifies by augmented assignment"""
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    v = fr.env.get(x.target.id)
                    if isinstance(v, T) and v.op in ("attr", "index", "mcall", "sym", "getattrd") and "\0root:" + x.target.id not in fr.env:
                        r = self.root_of(v, st)
                        if r.op in ("attr", "sym", "index", "mcall", "getattrd"):
                            fr.env["\0root:" + x.target.id] = r

    def as_load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            if "\0global:" + t.id in fr.env:
                self.effect("setglobal", st, mk("tuple", const(fr.module.name + "." + t.id), self.freeze(v, st)), fr, t)
            fr.env[t.id] = v
            fr.env.pop("\0root:" + t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            fv = self.seqterm(v, st) if v.op == "ref" else v
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, mk("unpack", self.freeze(fv, st)), fr, st)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(fv, num(i), fr, st), fr, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            self.setattr_(b, t.attr, v, fr, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            i = self.ev_index(t.slice, fr, st)
            self.memo_event(t, i, v, fr, st)
            self.setitem(b, i, v, fr, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)

    def memo_event(self, t, i, v, fr, st):
        """store into a table that outlives the call (attribute or global): record key path and value"""
        if self.muted:
            return
        keys, n = [self.freeze(i, st)], t.value
        while isinstance(n, ast.Subscript):
            if not all(isinstance(x, (ast.Name, ast.Tuple, ast.Attribute, ast.Constant, ast.Load)) for x in ast.walk(n.slice)):
                return
            keys.insert(0, self.freeze(self.ev_index(n.slice, fr, st), st))
            n = n.value
        if isinstance(n, ast.Attribute):
            name = n.attr
        elif isinstance(n, ast.Name) and n.id not in fr.env and n.id in fr.module.bindings:
            name = n.id
        else:
            return
        self.effect("memo", st, mk("memo", name, mk("tuple", *keys), self.freeze(v, st)), fr, t)

    def setattr_(self, b, name, v, fr, st, node):
        o = self.obj(b, st)
        if o is not None and o.kind == "inst":
            st.heap[b.a[0]] = o.with_attr(name, v)
            self.effect("setattr", st, mk("setattr", self.freeze(b, st), name if isinstance(name, T) else const(name), self.freeze(v, st)), fr, node)
            return
        fb = self.freeze(b, st)
        self.effect("setattr", st, mk("setattr", fb, name if isinstance(name, T) else const(name), self.freeze(v, st)), fr, node)

    def root_of(self, v, st):
        """the object a view-like term aliases"""
        n = 0
        while n < 60:
            n += 1
            if v.op in ("index", "view"):
                v = v.a[0]
            elif v.op == "attr" and v.a[1] in ("tensor", "data", "T", "real", "grad"):
                v = v.a[0]
            elif v.op == "mcall" and (v.a[1] in VIEW_METHODS or (v.a[1].endswith("_") and not v.a[1].startswith("_"))):
                v = v.a[0]
            elif v.op == "store":
                v = v.a[0]
            else:
                break
        return v

    def setitem(self, b, i, v, fr, st, node):
        fi, fv = self.freeze(i, st), self.freeze(v, st)
        o = self.obj(b, st)
        if o is not None and o.kind == "dict":
            st.heap[b.a[0]] = o.with_content(self.dict_store(o.content, fi, v))
            return
        if o is not None and o.kind == "list":
            c = o.content
            k = intval(fi)
            if c.op == "list" and k is not None and -len(c.a) <= k < len(c.a):
                xs = list(c.a)
                xs[k] = v
                c = mk("list", *xs)
            else:
                c = mk("store", c, fi, fv)
            st.heap[b.a[0]] = o.with_content(c)
            return
        if o is not None and o.kind == "arr":
            if o.root is not None:
                self.effect("mutate", st, mk("mut", o.root, "setitem", self.freeze(b, st), fi, fv), fr, node)
            st.heap[b.a[0]] = o.with_content(self.arr_store(o.content, fi, fv))
            return
        if o is not None and o.kind == "inst":
            self.effect("mutate", st, mk("mut", self.freeze(b, st), "setitem", fi, fv), fr, node)
            return
        if b.op == "view":
            base, idx = b.a
            bo = self.obj(base, st)
            if bo is not None:
                cur = index(self.freeze(base, st), idx)
                st.heap[base.a[0]] = bo.with_content(self.arr_store(bo.content, idx, mk("store", cur, fi, fv)))
                return
        if self.nested(b, lambda r: self.dict_store(r, fi, fv) if r.op in ("dict", "dstore", "ddict") else self.arr_store(r, fi, fv), fr, st):
            return
        r = self.root_of(self.freeze(b, st), st)
        self.effect("mutate", st, mk("mut", r, "setitem", self.freeze(b, st), fi, fv), fr, node)
        # rebind the local variable to the updated value
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id in fr.env:
            fr.env[node.value.id] = mk("store", self.freeze(b, st), fi, fv)

    def nested(self, r, upd, fr, st):
        """r was read from a local container: write the updated element back"""
        e = self.prov.get(r)
        if e is None or self.same_place(e, r, st) is not True:
            return False
        b, i = e
        nr = upd(r)
        o = self.obj(b, st)
        if o is not None:
            if o.kind == "dict":
                c = self.dict_store(o.content, i, nr)
            elif o.content.op == "list" and intval(i) is not None and -len(o.content.a) <= intval(i) < len(o.content.a):
                xs = list(o.content.a)
                xs[intval(i)] = nr
                c = mk("list", *xs)
            else:
                c = self.arr_store(o.content, i, nr)
            st.heap[b.a[0]] = o.with_content(c)
        elif not self.nested(b, lambda x: self.dict_store(x, i, nr) if x.op in ("dict", "dstore", "ddict") else self.tuple_store(x, i, nr), fr, st):
            return False
        self.prov[nr] = e
        for k, w in list(fr.env.items()):
            if w is r:
                fr.env[k] = nr
        return True

    def same_place(self, e, r, st):
        b, i = e
        o = self.obj(b, st)
        if o is not None:
            return o.kind in ("list", "dict") and index(self.freeze(b, st), i) is r
        return self.prov.get(b) is not None and index(b, i) is r and self.same_place(self.prov[b], b, st)

    def tuple_store(self, x, i, v):
        k = intval(i)
        if x.op in ("list", "tuple") and k is not None and -len(x.a) <= k < len(x.a):
            xs = list(x.a)
            xs[k] = v
            return mk(x.op, *xs)
        return self.arr_store(x, i, v)

    def arr_store(self, c, i, v):
        full = mk("slice", NONE, NONE, NONE)
        if i is full or i is ELL:
            return v if False else mk("store", c, i, v)
        return mk("store", c, i, v)

    def dict_store(self, c, k, v):
        if c.op == "dict":
            for n, kv in enumerate(c.a):
                if kv.a[0] is k:
                    xs = list(c.a)
                    xs[n] = mk("kv", k, v)
                    return mk("dict", *xs)
            if all(kv.a[0].op in ("const", "tuple") for kv in c.a) and k.op in ("const", "tuple") or not c.a:
                return mk("dict", *(c.a + (mk("kv", k, v),)))
        if c.op == "dstore" and c.a[1] is k:
            return mk("dstore", c.a[0], k, v)
        return mk("dstore", c, k, v)

    def store(self, view, val, fr, st, node):
        base, idx = view.a
        bo = self.obj(base, st)
        if bo is not None:
            st.heap[base.a[0]] = bo.with_content(self.arr_store(bo.content, self.freeze(idx, st), self.freeze(val, st)))
        else:
            self.effect("mutate", st, mk("mut", self.root_of(base, st), "store"), fr, node)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= 10:
            return self.unrolled(s, items, fr, st)
        coll, n, bind = self.iteration(it, fr, st)
        self.mark_roots(s.body, fr, st)
        r = self.generic_loop(n, lambda f, x: self.assign(s.target, bind(), f, x), s.body, fr, st, s)
        return self.loop_else(s, r, fr)

    def loop_else(self, s, r, fr):
        if r is None or not s.orelse:
            return r
        c = self.left_by_break
        if c is None:
            return self.block(s.orelse, fr, r)
        # the else part runs only if no round was left by break
        base, env0 = r.pc, fr.env
        s1, s2 = r.copy(), r.copy()
        s1.pc = base + (c,)
        s2.pc = base + (neg_b(c),)
        fr.env = dict(env0)
        ne = len(fr.exits)
        r2 = self.block(s.orelse, fr, s2)
        e2 = fr.env
        if r2 is None and len(fr.exits) == ne:
            s1.pc = base + (mk("assumed", c),)
        return self.merge_states(c, s1, r2, dict(env0), e2, fr, base)

    def unrolled(self, s, items, fr, st):
        saved = fr.continues, fr.breaks
        broke = []
        for x in items:
            fr.continues, fr.breaks = [], []
            self.assign(s.target, x, fr, st)
            st = self.block(s.body, fr, st)
            for (cs, ce) in reversed(fr.continues):
                if st is None:
                    st, fr.env = cs, ce
                else:
                    n = self.common(cs.pc, st.pc)
                    st = self.merge_states(conj(cs.pc[n:]), cs, st, ce, fr.env, fr, cs.pc[:n])
            broke += fr.breaks
            if st is None:
                break
        for (cs, ce) in reversed(broke):
            if st is None:
                st, fr.env = cs, ce
            else:
                n = self.common(cs.pc, st.pc)
                st = self.merge_states(conj(cs.pc[n:]), cs, st, ce, fr.env, fr, cs.pc[:n])
        fr.continues, fr.breaks = saved
        if st is not None and s.orelse and not broke:
            st = self.block(s.orelse, fr, st)
        return st

    def common(self, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]:
            n += 1
        return n

    def s_Continue(self, s, fr, st):
        fr.continues.append((st, fr.env))
        fr.env = dict(fr.env)
        return None

    def s_Break(self, s, fr, st):
        fr.breaks.append((st, fr.env))
        fr.env = dict(fr.env)
        return None

    def s_While(self, s, fr, st):
        c = self.ev(s.test, fr, st)
        if truth(self.boolv(c, st)) is False:
            return st
        return self.while_loop(s, fr, st)

    def while_loop(self, s, fr, st):
        """recognise counting loops; everything else is a fold over an unknown number of rounds"""
        lvl = len(self.loopstack)
        c = s.test
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        own = [n for b in s.body for n in walk_stmts(b)]
        jumps = any(isinstance(n, (ast.Break, ast.Continue)) for n in own)
        last = s.body[-1]
        if not jumps and not s.orelse and isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.Gt, ast.LtE)) \
                and counter_step(last) is not None:
            last = counter_step(last)
            lo, hi = (c.left, c.comparators[0]) if not isinstance(c.ops[0], ast.Gt) else (c.comparators[0], c.left)
            i = last.target.id
            once = sum(1 for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == i)
            bounds = {n.id for x in (hi, last.value) for n in ast.walk(x) if isinstance(n, ast.Name)}
            if isinstance(lo, ast.Name) and lo.id == i and once == 1 and not (bounds & stored):
                start, stop, step = self.val(lo, fr, st), self.val(hi, fr, st), self.val(last.value, fr, st)
                if isinstance(c.ops[0], ast.LtE):
                    stop = add(stop, ONE)
                if step is ONE:
                    n = sub(stop, start)
                    r = self.generic_loop(n, lambda f, x: f.env.__setitem__(i, add(start, mk("idx", n, lvl))), s.body[:-1], fr, st, s)
                    if r is not None:
                        fr.env[i] = stop
                    return r
        names = {}

        def anon(t):
            class A(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id in stored:
                        return ast.Name(id="_%d" % names.setdefault(n.id, len(names)), ctx=n.ctx)
                    return n
            import copy
            return A().visit(copy.deepcopy(t))
        free = [self.val(ast.Name(id=n.id, ctx=ast.Load()), fr, st) for n in ast.walk(c) if isinstance(n, ast.Name) and n.id not in stored]
        n = mk("while", const(re.sub(r"[A-Za-z_]\w*", "v", ast.unparse(anon(c)))), *free)
        return self.loop_else(s, self.generic_loop(n, lambda f, x: None, s.body, fr, st, s), fr)

    def concrete_items(self, it, st):
        if it.op == "ref":
            o = st.heap[it.a[0]]
            if o.kind == "list" and o.content.op in ("list", "tuple"):
                return list(o.content.a)
            if o.kind == "dict" and o.content.op == "dict":
                return [kv.a[0] for kv in o.content.a]
            return None
        if it.op in ("list", "tuple", "setof"):
            return list(it.a)
        if it.op == "range":
            a, b = intval(it.a[0]), intval(it.a[1])
            if a is not None and b is not None and it.a[2] is ONE:
                return [num(i) for i in range(a, b)] if b - a <= 10 else None
        if it.op == "enumerate":
            x = self.concrete_items(it.a[0], st)
            if x is not None:
                k = intval(it.a[1]) or 0
                return [tup([num(i + k), y]) for i, y in enumerate(x)]
        if it.op == "zip":
            xs = [self.concrete_items(x, st) for x in it.a]
            if all(x is not None for x in xs) and xs:
                return [tup(z) for z in zip(*xs)]
        if it.op == "ditems":
            o = self.obj(it.a[0], st)
            c = o.content if o is not None else it.a[0]
            if c.op == "dict":
                return [tup([kv.a[0], kv.a[1]]) for kv in c.a]
        if it.op in ("dkeys", "dvalues"):
            o = self.obj(it.a[0], st)
            c = o.content if o is not None else it.a[0]
            if c.op == "dict":
                return [kv.a[0 if it.op == "dkeys" else 1] for kv in c.a]
        if it.op == "reversed":
            x = self.concrete_items(it.a[0], st)
            return list(reversed(x)) if x is not None else None
        return None

    def iteration(self, it, fr, st):
        """(collection term, length term, thunk giving the generic element)"""
        lvl = len(self.loopstack)

        def elem(x, n):
            ix = mk("idx", n, lvl)
            if x.op == "enumerate":
                start = x.a[1]
                return tup([add(ix, start), elem(x.a[0], n)])
            if x.op == "zip":
                return tup([elem(y, n) for y in x.a])
            if x.op == "range":
                return add(x.a[0], mul(ix, x.a[2]))
            if x.op == "reversed":
                return index(self.freeze(x.a[0], st), sub(sub(n, ONE), ix))
            f = self.freeze(x, st)
            if x.op == "ditems":
                f = self.freeze(x.a[0], st)
                return tup([mk("dkey", f, ix), mk("dval", f, ix)])
            if x.op == "dkeys":
                return mk("dkey", self.freeze(x.a[0], st), ix)
            if x.op == "dvalues":
                return mk("dval", self.freeze(x.a[0], st), ix)
            if self.is_dictish(x, st):
                return mk("dkey", f, ix)
            if f.op == "map":
                return subst(f.a[2], {mk("idx", f.a[0], f.a[1]): ix})
            return index(f, ix)

        def leng(x):
            if x.op == "enumerate":
                return leng(x.a[0])
            if x.op == "zip":
                return leng(x.a[0])
            if x.op == "range":
                d = sub(x.a[1], x.a[0])
                if x.a[2] is not ONE:
                    return mk("rangelen", x.a[0], x.a[1], x.a[2])
                return d
            if x.op == "reversed":
                return leng(x.a[0])
            if x.op in ("ditems", "dkeys", "dvalues"):
                return length(self.freeze(x.a[0], st))
            if x.op in ("sym", "attr", "index", "ref") and self.iter_len_ok(x, st):
                return self.freeze(self.x_len([x], [self.freeze(x, st)], {}, fr, st, None), st)
            return length(self.freeze(x, st))
        n = leng(it)
        return it, n, (lambda: elem(it, n))

    def iter_len_ok(self, x, st):
        o = self.obj(x, st)
        ty = o.cls if o is not None and o.kind == "inst" else self.type_of(x)
        if not isinstance(ty, Class):
            return False
        m = self.P.find_method(ty, "__len__")
        return m is not None and not m.is_abstract

    def is_dictish(self, x, st):
        o = self.obj(x, st)
        if o is not None:
            return o.kind == "dict"
        ty = self.type_of(x)
        if isinstance(ty, tuple) and ty[0] == "dict":
            return True
        return x.op in ("dict", "dstore", "dictmap") or (x.op == "attr" and x.a[1] in ("_nonlin_dictish",))

    def generic_loop(self, n, bind, body, fr, st, node):
        lvl = len(self.loopstack)
        env0, heap0, pc0 = dict(fr.env), dict(st.heap), st.pc
        nexits = len(fr.exits)
        saved = fr.continues, fr.breaks

        def once(env, heap, mute):
            fr.env = dict(env)
            fr.continues, fr.breaks = [], []
            s1 = State(dict(heap), pc0)
            self.loopstack.append((n, lvl))
            if mute:
                self.muted += 1
            try:
                bind(fr, s1)
                r = self.block(body, fr, s1)
                for (cs, ce) in reversed(fr.continues):
                    if r is None:
                        r, fr.env = cs, ce
                    else:
                        k = self.common(cs.pc, r.pc)
                        r = self.merge_states(conj(cs.pc[k:]), cs, r, ce, fr.env, fr, cs.pc[:k])
            finally:
                self.loopstack.pop()
                if mute:
                    self.muted -= 1
            brk = list(fr.breaks)
            return r, fr.env, brk

        # pass 1: what is modified
        r, env1, brk = once(env0, heap0, True)
        del fr.exits[nexits:]
        if r is None:
            heap1 = heap0
        else:
            heap1 = r.heap
        carried = {}      # placeholder -> (where, init)
        env2, heap2 = dict(env0), dict(heap0)
        benvs, bheaps = [b[1] for b in brk], [b[0].heap for b in brk]
        for k in env0:
            if k.startswith("\0"):
                continue
            if env1.get(k) is not env0[k] or any(e.get(k) is not env0[k] for e in benvs):
                p = mk("carried", lvl, "v:" + k)
                carried[p] = (("env", k), env0[k])
                env2[k] = p
        for i in heap0:
            o0, o1 = heap0[i], heap1.get(i)
            if o1 is None:
                continue
            alts = [o1] + [h[i] for h in bheaps if i in h]
            o1 = next((o for o in alts if o is not o0), None)
            if o1 is None:
                continue
            if o0.kind == "inst":
                at = dict(o0.attrs)
                for k, v in [kv for o in alts for kv in o.attrs.items()]:
                    if k in o0.attrs and o0.attrs[k] is not v and at[k] is o0.attrs[k]:
                        p = mk("carried", lvl, f"a:{i}:{k}")
                        carried[p] = (("attr", i, k), o0.attrs[k])
                        at[k] = p
                heap2[i] = HObj("inst", o0.cls, at, None, o0.root)
            elif any(o.content is not o0.content for o in alts):
                p = mk("carried", lvl, f"h:{i}")
                carried[p] = (("heap", i), o0.content)
                heap2[i] = o0.with_content(p)
        ne, ng = len(self.effects), len(self.guards)
        r, env1, brk = once(env2, heap2, False)
        fr.continues, fr.breaks = saved
        if r is None:
            r = State(dict(heap2), pc0)
            env1 = dict(env2)
            body_always_exits = True
        heap1 = r.heap
        ix = mk("idx", n, lvl)
        has_break = bool(brk)
        # new values
        new = {}
        for p, (w, init) in carried.items():
            if w[0] == "env":
                new[p] = env1.get(w[1], mk("undef", ""))
            elif w[0] == "attr":
                new[p] = heap1[w[1]].attrs.get(w[2], mk("undef", w[2]))
            else:
                new[p] = heap1[w[1]].content
        def at_break(w):
            """condition and value of a carried place when the loop is left"""
            cs, v = [], None
            for bs, be in reversed(brk):
                c = conj(bs.pc[len(pc0):])
                if w[0] == "env":
                    x = be.get(w[1], mk("undef", ""))
                elif w[0] == "attr":
                    x = bs.heap[w[1]].attrs.get(w[2], mk("undef", w[2]))
                else:
                    x = bs.heap[w[1]].content
                x = self.freeze_new(x, bs, {}) if w[0] != "env" else self.freeze(x, bs)
                v = x if v is None else ite(c, x, v)
                cs.append(c)
            return disj(cs), v
        sub_in = {}    # placeholder -> value inside iteration
        after = {}
        frozen = {p: (self.freeze(new[p], r) if w[0] == "env" else self.freeze_new(new[p], r, heap0)) for p, (w, init) in carried.items()}
        uses = {p: {x for x in walk(frozen[p]) if x in carried and x is not p} for p in carried}
        solved = {}

        def step(p, w, init):
            N, Nf = new[p], subst(frozen[p], solved)
            if has_break:
                cond, bv = at_break(w)
                cond, bv = subst(cond, solved), subst(bv, solved)
                fi = self.freeze(init, State(heap0, pc0))
                own = lambda x: x.op == "carried" and x.a[0] == lvl
                if N is p and not contains(cond, own):
                    sub_in[p] = init
                    bv = subst(bv, {p: fi})
                    if bv is fi:
                        after[p] = init
                    elif not contains(bv, own):
                        after[p] = ite(mk("exists", n, lvl, cond), mk("first", n, lvl, cond, bv), fi)
                    else:
                        after[p] = mk("loop", n, lvl, fi, fi, cond, bv)
                    return
                m = {p: mk("acc", lvl)}
                after[p] = mk("loop", n, lvl, fi, subst(Nf, m), subst(cond, m), subst(bv, m))
                sub_in[p] = mk("accat", after[p])
                e = self.strip_add(Nf, p) if N is not p else None
                if e is not None and not contains(e, own):
                    # inside of a round the loop has not been left yet
                    sub_in[p] = add(init, mul(e, ix) if not contains(e, lambda x: x is ix) else mk("prefix", n, lvl, e))
                return
            if N is p:
                sub_in[p] = init
                after[p] = init
                return
            if not contains(Nf, lambda x: x is p):
                sub_in[p] = mk("prev", n, lvl, Nf, self.freeze(init, State(heap0, pc0)) if init.op == "ref" else init)
                after[p] = mk("last", n, lvl, Nf, init)
                return
            y = self.strip_list(Nf, p)
            if y is not None and not contains(y, lambda x: x is p):
                after[p] = concat(init, flat(n, lvl, y))
                sub_in[p] = mk("partial", n, lvl, init, y)
                return
            e = self.strip_add(Nf, p)
            if e is not None:
                indep = not contains(e, lambda x: x is ix or x in carried)
                pre = mul(e, ix) if indep else mk("prefix", n, lvl, e)
                tot = mul(e, n) if indep else mk("sum", n, lvl, e)
                sub_in[p] = add(init, pre)
                after[p] = add(init, tot)
                return
            if w[0] == "heap" and Nf.op == "dstore" and Nf.a[0] is p and not contains(mk("tuple", Nf.a[1], Nf.a[2]), lambda x: x is p):
                if init.op == "dict" and not init.a:
                    after[p] = mk("dictmap", n, lvl, Nf.a[1], Nf.a[2])
                    sub_in[p] = mk("partial", n, lvl, init, mk("tuple", Nf.a[1], Nf.a[2]))
                    return
            after[p] = mk("fold", n, lvl, self.freeze(init, State(heap0, pc0)), subst(Nf, {p: mk("acc", lvl)}))
            sub_in[p] = mk("accat", after[p])       # the running value inside of the present round

        pending = list(carried)
        while pending:
            # counters and the like first, so that what depends on them sees their value in the present round
            p = next((q for q in pending if not (uses[q] - set(solved))), pending[0])
            pending.remove(p)
            if p in sub_in:
                continue
            w, init = carried[p]
            step(p, w, init)
            if not contains(sub_in[p], lambda x: x in carried):
                solved[p] = sub_in[p]
        # resolve placeholders inside of one another (one level; deeper ones become anonymous)
        anon = {p: mk("accx", lvl) for p in carried}
        flatv = {}
        for p, v in sub_in.items():
            v = subst(v, {q: z for q, z in sub_in.items() if q is not p and not contains(z, lambda x: x in carried)})
            flatv[p] = subst(v, anon)
        sub_in = flatv
        for p in after:
            after[p] = subst(after[p], sub_in)
        for ef in self.effects[ne:]:
            if isinstance(ef.data, T):
                ef.data = subst(ef.data, sub_in)
            ef.pc = tuple(subst(x, sub_in) for x in ef.pc)
        for g in self.guards[ng:]:
            if isinstance(g.data, tuple):
                g.data = (subst(g.data[0], sub_in), g.data[1])
            g.pc = tuple(subst(x, sub_in) for x in g.pc)
        # final environment
        env = dict(env0)
        for k, v in env1.items():
            if k.startswith("\0root:"):
                continue
            if k not in env0:
                v = self.freeze(v, r) if v.op != "ref" else v
                env[k] = mk("last", n, lvl, subst(v, sub_in), mk("undef", "")) if v.op not in ("ref", "closure") else v
                if has_break and v.op not in ("ref", "closure"):
                    cond, bv = at_break(("env", k))
                    cond, bv = subst(cond, sub_in), subst(bv, sub_in)
                    env[k] = ite(mk("exists", n, lvl, cond), mk("first", n, lvl, cond, bv), env[k])
        heap = dict(heap0)
        for i, o in heap1.items():
            if i not in heap0:
                if o.content is not None:
                    o = o.with_content(subst(o.content, sub_in))
                heap[i] = o
            elif o.kind == "inst":
                at = dict(o.attrs)
                for k, v in at.items():
                    if k not in heap0[i].attrs:
                        v = subst(v, sub_in)
                        if v.op == "ref" or not isinstance(k, T):
                            at[k] = v if v.op == "ref" else mk("last", n, lvl, v, mk("undef", str(k)))
                        else:
                            at[k] = v          # symbolic attribute name ranging over the loop
                heap[i] = HObj("inst", o.cls, at, None, o.root)
        for p, (w, init) in carried.items():
            v = after[p]
            if w[0] == "env":
                if init.op == "ref" and v.op != "last":
                    env[w[1]] = v
                else:
                    env[w[1]] = v
            elif w[0] == "attr":
                heap[w[1]] = heap[w[1]].with_attr(w[2], v)
            else:
                heap[w[1]] = heap[w[1]].with_content(v)
        fr.env = env
        out = State(heap, pc0)
        self.left_by_break = None
        if has_break:
            self.left_by_break = mk("exists", n, lvl, subst(disj([conj(b[0].pc[len(pc0):]) for b in brk]), sub_in))
        # early exits
        ex = fr.exits[nexits:]
        if ex:
            del fr.exits[nexits:]
            v = None
            cs = []
            for pc, x, h in reversed(ex):
                c = subst(conj(pc[len(pc0):]), sub_in)
                x = subst(self.freeze(x, State(h, pc)), sub_in)
                v = x if v is None else ite(c, x, v)
                cs.append(c)
            c = disj(cs)
            alls = [mk("exists", n, lvl, c)]
            fr.exits.append((pc0 + (alls[0],), mk("first", n, lvl, c, v) if contains_term(v, ix) else v, heap))
            out.pc = pc0 + (neg_b(disj(alls)),)
        return out

    def strip_list(self, N, p):
        """N == p ++ y  ->  y"""
        if N is p:
            return lst([])
        if N.op == "concat" and N.a[0] is p:
            return concat(*N.a[1:]) if len(N.a) > 1 else lst([])
        if N.op == "ite":
            a, b = self.strip_list(N.a[1], p), self.strip_list(N.a[2], p)
            if a is not None and b is not None:
                return ite(N.a[0], a, b)
        return None

    def strip_add(self, N, p):
        if N.op == "ite":
            a, b = self.strip_add(N.a[1], p), self.strip_add(N.a[2], p)
            if a is not None and b is not None:
                return ite(N.a[0], a, b)
            return None
        if N is p:
            return ZERO
        if is_seq(N):
            return None
        d = sub(N, p)
        if contains(d, lambda x: x is p):
            return None
        if N.op != "poly_":
            return None
        return d

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("?", type(e).__name__)
        return m(e, fr, st)

    def val(self, e, fr, st):
        return self.freeze(self.ev(e, fr, st), st)

    def boolv(self, v, st):
        v = self.simplify(v, st)
        if v.op == "ref":
            f = self.freeze(v, st)
            if f.op in ("list", "dict", "tuple"):
                return const(len(f.a) > 0)
            return f
        v = self.freeze(v, st)
        if v.op == "ite":
            # boolean gamma
            c, a, b = v.a
            ta, tb = truth(a), truth(b)
            if ta is not None and tb is not None:
                if ta and not tb:
                    return c
                if tb and not ta:
                    return neg_b(c)
                return const(ta)
        if self.is_sized(v, st):
            return cmp("ne", length(v), ZERO)
        return v

    def is_sized(self, v, st):
        """a built-in container: true exactly when it is not empty"""
        if v.op in ("map", "concat", "filtermap", "listof", "tupleof", "dictmap", "ditems", "dkeys", "dvalues", "repeat"):
            return True
        if v.op == "attr":
            return v.a[1] in ("_modules", "_buffers", "_parameters")
        if v.op == "sym":
            return v in self.sized or v.a[0].startswith("*")
        return False

    def e_Constant(self, e, fr, st):
        return const(e.value)

    def e_Name(self, e, fr, st):
        return self.lookup(e.id, fr, st)

    def lookup(self, name, fr, st):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                return self.simplify(v, st) if v.op == "ite" else v
            f = f.closure
        r = self.P.resolve(fr.module, name)
        if r is not None:
            return self.binding(r, fr, name, st)
        if name not in BUILTIN_NAMES and not any(x not in self.P.modules for x in fr.module.stars):
            return mk("undefname", name)
        return mk("ext", name)

    def binding(self, r, fr=None, name=None, st=None):
        if r[0] == "class":
            return mk("class", r[1].qual)
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            if r[1] in ("numpy.pi", "math.pi", "scipy.pi"):
                return PI
            return mk("ext", r[1])
        if r[0] == "multi":
            return mk("global", r[1])
        if r[0] == "const":
            node, mod = r[1], r[2]
            if isinstance(node, ast.Constant):
                return const(node.value)
            if isinstance(node, (ast.UnaryOp, ast.BinOp)) or (isinstance(node, ast.Tuple)):
                f2 = Frame(None, mod, {}, ())
                return self.ev(node, f2, State({}, ()))
            nm = None
            for k, b in mod.bindings.items():
                if b[0] == "const" and b[1] is node:
                    nm = k
            return mk("global", f"{mod.name}.{nm}")
        return mk("?", "binding")

    def e_Attribute(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        return self.getattr_(b, e.attr, fr, st, e)

    def getattr_(self, b, name, fr, st, node=None, default=None):
        b = self.simplify(b, st)
        o = self.obj(b, st)
        if o is not None:
            if o.kind == "inst":
                if name in o.attrs:
                    v = o.attrs[name]
                    return self.simplify(v, st) if v.op == "ite" else v
                if isinstance(name, T):
                    return mk("attr", o.root if o.root is not None else b, name)
                if o.cls is not None:
                    m = self.P.find_method(o.cls, name)
                    if m is not None:
                        if m.is_property:
                            return self.inline(m, [b], {}, fr, st, node)
                        if m.is_static:
                            return mk("func", m.qual)
                        return mk("bound", b, m.qual)
                    ca = self.P.class_attr(o.cls, name)
                    if ca is not None:
                        return self.ev(ca[0], Frame(None, ca[1], {}, ()), st)
                if name == "__class__":
                    return mk("class", o.cls.qual)
                return mk("attr", o.root, name) if o.root is not None else mk("attr", b, name)
            if name == "shape" and o.kind == "arr":
                return mk("attr", self.freeze(b, st), "shape")
            if o.kind in ("list", "dict", "arr"):
                if o.kind == "arr" and name in ("T", "dtype", "device", "ndim", "size"):
                    return mk("attr", self.freeze(b, st), name)
                return mk("bmeth", b, name)
        if b.op == "ext":
            d = f"{b.a[0]}.{name}"
            if d in ("numpy.pi", "math.pi"):
                return PI
            return mk("ext", d)
        if b.op == "mod":
            r = self.P.resolve_dotted(b.a[0], name)
            if r is not None:
                return self.binding(r, fr, name, st)
            return mk("ext", f"{b.a[0]}.{name}")
        if b.op == "class":
            c = self.P.classes[b.a[0]]
            m = self.P.find_method(c, name)
            if m is not None:
                return mk("func", m.qual)
            ca = self.P.class_attr(c, name)
            if ca is not None and not isinstance(ca[0], (ast.Dict, ast.List, ast.Call)):
                return self.ev(ca[0], Frame(None, ca[1], {}, ()), st)
            return mk("global", f"{c.qual}.{name}")
        if b.op == "super":
            return mk("superattr", b, name)
        if isinstance(name, str):
            ty = self.type_of(b)
            if isinstance(ty, Class):
                m = self.P.find_method(ty, name)
                if m is not None:
                    over = [c for c in self.P.subclasses(ty) if name in c.methods]
                    if not over or b.op == "new":
                        if m.is_property and not m.is_abstract:
                            return self.inline(m, [b], {}, fr, st, node)
                        if not m.is_property and not m.is_abstract:
                            return mk("bound", b, m.qual)
        fb = self.freeze(b, st)
        if fb.op == "ite" and isinstance(name, str) and fb.a[1].op in ("new", "ref", "class") and fb.a[2].op in ("new", "ref", "class"):
            return ite(fb.a[0], self.getattr_(b.a[1] if b.op == "ite" else fb.a[1], name, fr, st, node),
                       self.getattr_(b.a[2] if b.op == "ite" else fb.a[2], name, fr, st, node))
        return attr(fb, name)

    def e_Subscript(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        i = self.ev_index(e.slice, fr, st)
        return self.getitem(b, i, fr, st)

    def ev_index(self, e, fr, st):
        return self.freeze(self.ev(e, fr, st), st)

    def getitem(self, b, i, fr, st):
        r = self.getitem1(b, i, fr, st)
        if r.op not in ("ref", "view", "const", "closure", "sym") and i.op != "slice":
            o = self.obj(b, st)
            if o is not None and o.kind in ("list", "dict") or o is None and b in self.prov:
                if r.op != "map" or True:
                    self.prov[r] = (b, i)
        return r

    def getitem1(self, b, i, fr, st):
        o = self.obj(b, st)
        if o is not None:
            if o.kind in ("list", "dict"):
                c = o.content
                if c.op in ("list", "tuple", "dict", "dstore", "map", "repeat"):
                    if c.op == "dstore":
                        if c.a[1] is i:
                            return c.a[2]
                    else:
                        if c.op == "dict" and i.op != "const" and 0 < len(c.a) <= 12 and all(kv.op == "kv" and is_str(kv.a[0]) for kv in c.a):
                            # table lookup by a name: a case distinction
                            t = [self.compare("eq", i, kv.a[0], st) for kv in c.a]
                            self.guard(st, (disj(t), "KeyError"), fr, None, "assert")
                            r = c.a[-1].a[1]
                            for q, kv in list(zip(t, c.a))[-2::-1]:
                                r = ite(q, kv.a[1], r)
                            return r
                        r = index(c, i)
                        if r.op != "index" or r.a[0] is not c:
                            return r
                return index(self.freeze(b, st), i)
            if o.kind == "arr":
                return mk("view", b, i)
            if o.kind == "inst":
                if o.cls is not None:
                    m = self.P.find_method(o.cls, "__getitem__")
                    if m is not None and self.depth < self.max_depth:
                        return self.inline(m, [b, i], {}, fr, st, None)
                return mk("index", self.freeze(b, st), i)
        if b.op == "view":
            return mk("index", self.freeze(b, st), i)
        if b.op == "ite" and i.op == "const":
            x, y = self.getitem(b.a[1], i, fr, st), self.getitem(b.a[2], i, fr, st)
            return ite(b.a[0], x, y)
        return index(self.freeze(b, st) if b.op not in ("tuple", "list") else b, i)

    def x_slice(self, args, fa, kwargs, fr, st, node):
        if kwargs or not 1 <= len(fa) <= 3:
            return None
        if len(fa) == 1:
            return mk("slice", NONE, fa[0], NONE)
        return mk("slice", fa[0], fa[1], fa[2] if len(fa) == 3 else NONE)

    def e_Slice(self, e, fr, st):
        f = lambda x: NONE if x is None else self.val(x, fr, st)
        lo = f(e.lower)
        if lo is ZERO:
            lo = NONE
        return mk("slice", lo, f(e.upper), f(e.step))

    def e_Tuple(self, e, fr, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.seqterm(self.ev(x.value, fr, st), st)
                    parts.append(mk("tuple", *v.a) if v.op in ("list", "tuple") else v)
                else:
                    parts.append(tup([self.ev(x, fr, st)]))
            return concat(*parts)
        return tup([self.ev(x, fr, st) for x in e.elts])

    def e_List(self, e, fr, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.seqterm(self.ev(x.value, fr, st), st)
                    parts.append(mk("list", *v.a) if v.op in ("list", "tuple") else v)
                else:
                    parts.append(lst([self.ev(x, fr, st)]))
            return self.alloc(st, HObj("list", content=concat(*parts)))
        return self.alloc(st, HObj("list", content=lst([self.ev(x, fr, st) for x in e.elts])))

    def e_Set(self, e, fr, st):
        return mk("setof", *sorted([self.val(x, fr, st) for x in e.elts]))

    def e_Dict(self, e, fr, st):
        c = mk("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.freeze(self.ev(v, fr, st), st)
                if o.op == "dict":
                    for kv in o.a:
                        c = self.dict_store(c, kv.a[0], kv.a[1])
                else:
                    c = mk("dupdate", c, o)
                continue
            c = self.dict_store(c, self.val(k, fr, st), self.ev(v, fr, st))
        return self.alloc(st, HObj("dict", content=c))

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.val(v.value, fr, st))
        return fmt(parts)

    def e_FormattedValue(self, e, fr, st):
        return self.val(e.value, fr, st)

    def e_Lambda(self, e, fr, st):
        i = self.fresh()
        f = Func(e, fr.module, None, fr.func)
        env = dict(fr.env)
        snap = Frame(fr.func, fr.module, env, fr.entry_pc, fr.closure)
        self.closures[i] = (f, snap)
        return mk("closure", i)

    def e_IfExp(self, e, fr, st):
        c = self.boolv(self.ev(e.test, fr, st), st)
        d = self.decide(c, st)
        if d is True:
            return self.ev(e.body, fr, st)
        if d is False:
            return self.ev(e.orelse, fr, st)
        s1 = st.copy()
        s1.pc = st.pc + (c,)
        a = self.ev(e.body, fr, s1)
        s2 = st.copy()
        s2.pc = st.pc + (neg_b(c),)
        b = self.ev(e.orelse, fr, s2)
        for s_ in (s1, s2):
            for i, o in s_.heap.items():
                if i not in st.heap:
                    st.heap[i] = o
        h = self.merge_heap(c, s1.heap, s2.heap)
        st.heap.update(h)
        return ite(c, a, b)

    def e_BoolOp(self, e, fr, st):
        vals = []
        is_and = isinstance(e.op, ast.And)
        s = st
        pc0 = st.pc
        for x in e.values:
            v = self.ev(x, fr, s)
            b = self.boolv(v, s)
            d = self.decide(b, s)
            if d is not None:
                if is_and and not d:
                    vals.append(FALSE if truth(b) is None else b)
                    break
                if not is_and and d:
                    vals.append(TRUE if truth(b) is None else b)
                    break
                if truth(b) is None:
                    continue
                vals.append(b)
                continue
            vals.append(b)
            s.pc = s.pc + ((b if is_and else neg_b(b)),)
        st.pc = pc0
        if not vals:
            return TRUE if is_and else FALSE
        return conj(vals) if is_and else disj_value(vals)

    def e_UnaryOp(self, e, fr, st):
        v = self.val(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return neg_b(self.boolv(v, st))
        if isinstance(e.op, ast.USub):
            if v.op == "ite":
                return ite(v.a[0], neg(v.a[1]), neg(v.a[2]))
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        if isinstance(e.op, ast.Add):
            oa, ob = self.obj(a, st), self.obj(b, st)
            if (oa and oa.kind == "list") or (ob and ob.kind == "list"):
                return self.alloc(st, HObj("list", content=concat(self.seqterm(a, st), self.seqterm(b, st))))
        if isinstance(e.op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                ox = self.obj(x, st)
                if ox is not None and ox.kind == "list" or x.op == "tuple":
                    c = ox.content if ox is not None else x
                    k = intval(self.freeze(y, st))
                    if c.op in ("list", "tuple") and k is not None and k < 9:
                        r = mk(c.op, *(c.a * max(k, 0)))
                    elif c.op in ("list", "tuple") and len(c.a) == 1:
                        r = mk("repeat", self.freeze(c.a[0], st), self.freeze(y, st))
                    else:
                        r = mk("seqmul", self.freeze(c, st), self.freeze(y, st))
                    return self.alloc(st, HObj("list", content=r)) if ox is not None else r
        return self.binop(e.op, self.freeze(a, st), self.freeze(b, st), st)

    def binop(self, op, a, b, st=None):
        if a.op == "ite" or b.op == "ite":
            c = min((x.a[0] for x in (a, b) if x.op == "ite"), key=lambda z: z.digest)
            pick = lambda x, k: x.a[k] if x.op == "ite" and x.a[0] is c else x
            return ite(c, self.binop(op, pick(a, 1), pick(b, 1), st), self.binop(op, pick(a, 2), pick(b, 2), st))
        if isinstance(op, ast.Add):
            if is_str(a) or is_str(b) or a.op == "fmt" or b.op == "fmt":
                return fmt([a, b])
            if is_seq(a) or is_seq(b):
                return concat(a, b)
            ta, tb = (self.type_of(a), self.type_of(b))
            if isinstance(ta, Class):
                return mk("oadd", a, b)
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Mod):
            if is_str(a):
                return mk("strfmt", a, b)
            return mod(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.MatMult):
            return api.matmul(a, b)
        return mk("binop", type(op).__name__, a, b)

    def e_Compare(self, e, fr, st):
        left = self.val(e.left, fr, st)
        out = []
        names = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is",
                 ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
        for op, r in zip(e.ops, e.comparators):
            right = self.val(r, fr, st)
            out.append(self.compare(names[type(op)], left, right, st))
            left = right
        return conj(out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if a.op == "ite" and (b.op == "const"):
            return self.bool_ite(a.a[0], self.compare(op, a.a[1], b, st), self.compare(op, a.a[2], b, st))
        if b.op == "ite" and (a.op == "const"):
            return self.bool_ite(b.a[0], self.compare(op, a, b.a[1], st), self.compare(op, a, b.a[2], st))
        if op in ("in", "notin") and b.op == "dict" and a.op == "const" and all(kv.a[0].op == "const" for kv in b.a):
            return const(any(kv.a[0] is a for kv in b.a) == (op == "in"))
        if op in ("in", "notin") and b.op == "dict" and 0 < len(b.a) <= 12 and all(kv.op == "kv" and is_str(kv.a[0]) for kv in b.a):
            r = disj([self.compare("eq", a, kv.a[0], st) for kv in b.a])
            return r if op == "in" else neg_b(r)
        if op in ("in", "notin") and b.op in ("list", "tuple", "setof"):
            r = disj([self.compare("eq", a, x, st) for x in b.a])
            return r if op == "in" else neg_b(r)
        return cmp(op, a, b)

    def bool_ite(self, c, a, b):
        if truth(a) is True:
            return disj([c, b])
        if truth(a) is False:
            return conj([neg_b(c), b])
        if truth(b) is True:
            return disj([neg_b(c), a])
        if truth(b) is False:
            return conj([c, a])
        return ite(c, a, b)

    # comprehensions
    def comp(self, e, fr, st, elt):
        """-> list term"""
        env0 = dict(fr.env)

        def rec(gens):
            if not gens:
                return lst([elt(fr)])
            g = gens[0]
            it = self.ev(g.iter, fr, st)
            items = self.concrete_items(it, st)
            if items is not None and len(items) <= 10:
                parts = []
                for x in items:
                    self.assign(g.target, x, fr, st)
                    parts.append(filt(gens))
                return concat(*parts) if parts else lst([])
            _, n, bind = self.iteration(it, fr, st)
            lvl = len(self.loopstack)
            self.assign(g.target, bind(), fr, st)
            self.loopstack.append((n, lvl))
            try:
                y = filt(gens)
            finally:
                self.loopstack.pop()
            return flat(n, lvl, self.freeze(y, st))

        def filt(gens):
            g = gens[0]
            cs = []
            pc0 = st.pc
            for c in g.ifs:
                b = self.boolv(self.ev(c, fr, st), st)
                cs.append(b)
                st.pc = st.pc + (b,)
            c = conj(cs)
            y = rec(gens[1:])
            st.pc = pc0
            return ite(c, y, lst([])) if cs else y
        r = rec(e.generators)
        fr.env = env0
        return r

    def e_ListComp(self, e, fr, st):
        return self.alloc(st, HObj("list", content=self.comp(e, fr, st, lambda f: self.ev(e.elt, f, st))))

    def e_GeneratorExp(self, e, fr, st):
        return self.comp(e, fr, st, lambda f: self.ev(e.elt, f, st))

    def e_SetComp(self, e, fr, st):
        return mk("set", self.comp(e, fr, st, lambda f: self.val(e.elt, f, st)))

    def e_DictComp(self, e, fr, st):
        r = self.comp(e, fr, st, lambda f: tup([self.val(e.key, f, st), self.ev(e.value, f, st)]))
        if r.op == "list":
            c = mk("dict")
            for x in r.a:
                c = self.dict_store(c, x.a[0], x.a[1])
        elif r.op == "map" and r.a[2].op == "tuple":
            c = mk("dictmap", r.a[0], r.a[1], r.a[2].a[0], r.a[2].a[1])
        else:
            c = mk("dictof", r)
        return self.alloc(st, HObj("dict", content=c))

    def e_Starred(self, e, fr, st):
        return mk("star", self.val(e.value, fr, st))

    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        self.assign(e.target, v, fr, st)
        return v

    def e_Yield(self, e, fr, st):
        v = self.val(e.value, fr, st) if e.value is not None else NONE
        y = fr.env.get("\0yield")
        if y is not None:
            self.builtin_method(y, "append", [v], {}, fr, st, e)
        return NONE

    def e_YieldFrom(self, e, fr, st):
        y = fr.env.get("\0yield")
        if y is not None:
            self.builtin_method(y, "extend", [self.ev(e.value, fr, st)], {}, fr, st, e)
        return NONE

    def e_Await(self, e, fr, st):
        return mk("?", "await")

    # ------------------------------------------------------------------ sequences
    def seqterm(self, v, st):
        o = self.obj(v, st)
        if o is not None and o.kind in ("list", "dict", "arr"):
            return o.content
        return v

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.env:
            return self.mk_super(e, fr, st)
        f = self.ev(e.func, fr, st)
        args, kwargs, ok = [], {}, True
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.seqterm(self.ev(a.value, fr, st), st)
                if v.op in ("tuple", "list"):
                    args.extend(v.a)
                else:
                    args.append(mk("star", self.freeze(v, st)))
                    ok = False
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr, st)
                o = self.obj(v, st)
                c = o.content if o is not None and o.kind == "dict" else self.freeze(v, st)
                if c.op == "dict" and all(is_str(kv.a[0]) for kv in c.a):
                    for kv in c.a:
                        kwargs[strval(kv.a[0])] = kv.a[1]
                else:
                    kwargs["**"] = self.freeze(v, st)
                    ok = False
            else:
                kwargs[k.arg] = self.ev(k.value, fr, st)
        return self.call(f, args, kwargs, fr, st, e, ok)

    def mk_super(self, e, fr, st):
        func = fr.func
        cls = func.cls if func else None
        me = None
        if e.args:
            c = self.ev(e.args[0], fr, st)
            if c.op == "class":
                cls = self.P.classes[c.a[0]]
            if len(e.args) > 1:
                me = self.ev(e.args[1], fr, st)
        if me is None and func is not None and func.params():
            me = fr.env.get(func.params()[0])
        if cls is None or me is None:
            return mk("?", "super")
        return mk("super", me, cls.qual)

    def func_by_qual(self, q):
        if not hasattr(self, "_fq"):
            self._fq = {f.qual: f for f in self.P.all_functions()}
        return self._fq.get(q)

    def is_opaque(self, qual):
        return any(qual == o or qual.endswith("." + o) for o in self.opaque)

    def call(self, f, args, kwargs, fr, st, node, ok=True):
        f = self.simplify(f, st)
        if f.op == "ite":
            c = f.a[0]
            a = self.call(f.a[1], args, kwargs, fr, st, node, ok)
            b = self.call(f.a[2], args, kwargs, fr, st, node, ok)
            return ite(c, a, b)
        if f.op == "superattr":
            return self.call_super(f, args, kwargs, fr, st, node)
        if f.op == "func":
            fn = self.func_by_qual(f.a[0])
            return self.inline(fn, args, kwargs, fr, st, node, ok=ok)
        if f.op == "closure":
            fn, cfr = self.closures[f.a[0]]
            return self.inline(fn, args, kwargs, fr, st, node, closure=cfr, ok=ok)
        if f.op == "lam" and len(f.a) == 2 and f.a[0] == len(args) and not kwargs and ok:
            ps = {x.a[0]: x for x in walk(f.a[1]) if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("\u03bb")}
            lv = min((n.split(".")[0] for n in ps), default=None)
            return subst(f.a[1], {x: self.freeze(args[int(n.split(".")[1])], st) for n, x in ps.items()
                                  if n.split(".")[0] == lv and n.split(".")[1].isdigit() and int(n.split(".")[1]) < len(args)})
        if f.op == "bound":
            fn = self.func_by_qual(f.a[1])
            recv = f.a[0]
            return self.inline(fn, [recv] + args, kwargs, fr, st, node, ok=ok, bound=True)
        if f.op == "class":
            return self.new(self.P.classes[f.a[0]], args, kwargs, fr, st, node, ok)
        if f.op == "bmeth":
            return self.builtin_method(f.a[0], f.a[1], args, kwargs, fr, st, node)
        if f.op == "ext":
            return self.ext_call(f.a[0], args, kwargs, fr, st, node)
        if f.op == "attr" and isinstance(f.a[1], str):
            return self.method_call(f.a[0], f.a[1], args, kwargs, fr, st, node)
        if f.op == "index" or f.op in ("sym", "attr", "dval", "call", "mcall", "new", "ref", "global"):
            ty = self.type_of(f)
            o = self.obj(f, st)
            if o is not None and o.kind == "inst":
                ty = o.cls
            if isinstance(ty, Class):
                m = self.P.find_method(ty, "__call__")
                if m is None and "torch.nn.Module" in self.P.ext_bases(ty):
                    m = None
                if m is not None and not m.is_abstract:
                    return self.inline(m, [f] + args, kwargs, fr, st, node, ok=ok)
            return self.opaque_call(mk("apply", self.freeze(f, st)), args, kwargs, fr, st, node)
        return self.opaque_call(mk("apply", self.freeze(f, st)), args, kwargs, fr, st, node)

    def kwt(self, kwargs, st):
        return mk("kws", *[mk("kw", k, self.freeze(kwargs[k], st)) for k in sorted(kwargs)])

    def opaque_call(self, head, args, kwargs, fr, st, node):
        fa = [self.freeze(a, st) for a in args]
        out = kwargs.pop("out", None) if "out" in kwargs else None
        t = mk("callv", head, tup(fa), self.kwt(kwargs, st))
        if out is not None and out is not NONE:
            return self.store_out(out, t, fr, st, node)
        self.effect("call", st, t, fr, node)
        return t

    def store_out(self, out, t, fr, st, node):
        o = self.obj(out, st)
        if o is not None and o.kind == "arr":
            if o.root is not None:
                self.effect("mutate", st, mk("mut", o.root, "out", t), fr, node)
            st.heap[out.a[0]] = o.with_content(t)
            return out
        if out.op == "view":
            self.store(out, t, fr, st, node)
            return out
        fo = self.freeze(out, st)
        if truth(fo) is False:
            return t
        self.effect("mutate", st, mk("mut", self.root_of(fo, st), "out", t), fr, node)
        return ite(cmp("is", fo, NONE), t, mk("outval", t)) if False else t

    # ---- bind arguments
    def bind(self, fn, args, kwargs, st, fr=None, closure=None):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            return None
        kwrest = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in konly:
                if k in env:
                    return None
                env[k] = v
            else:
                kwrest[k] = v
        if kwrest and a.kwarg is None:
            return None
        f2 = closure if closure is not None else Frame(fn, fn.module, {}, ())
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if j < 0:
                    return None
                env[p] = self.ev(a.defaults[j], f2, st)
        for p, d in zip(konly, a.kw_defaults):
            if p not in env:
                if d is None:
                    return None
                env[p] = self.ev(d, f2, st)
        if a.vararg is not None:
            env[a.vararg.arg] = tup(rest)
        if a.kwarg is not None:
            c = mk("dict", *[mk("kv", const(k), v) for k, v in sorted(kwrest.items())])
            env[a.kwarg.arg] = self.alloc(st, HObj("dict", content=c))
        return env

    def inline(self, fn, args, kwargs, fr, st, node, closure=None, ok=True, bound=False):
        if fn is None:
            return mk("?", "nofunc")
        q = fn.qual
        opaque = (not ok) or self.is_opaque(q) or fn.is_abstract or self.depth >= self.max_depth or self.callstack.count(q) >= 2
        env = None
        if not opaque:
            env = self.bind(fn, args, dict(kwargs), st, fr, closure) if ok else None
            if env is None and ok:
                self.effect("badcall", st, mk("badcall", q, num(len(args)), self.kwt(kwargs, st)), fr, node)
        if env is None or opaque:
            fa = [self.freeze(a, st) for a in args]
            if env is not None:
                names = [p for p in fn.params()]
                t = mk("call", q, tup([]), mk("kws", *[mk("kw", k, self.freeze(env[k], st)) for k in sorted(env)]))
            elif ok and self.is_opaque(q) or opaque and ok:
                env = self.bind(fn, args, dict(kwargs), st, fr, closure)
                if env is not None:
                    t = mk("call", q, tup([]), mk("kws", *[mk("kw", k, self.freeze(env[k], st)) for k in sorted(env)]))
                else:
                    t = mk("call", q, tup(fa), self.kwt(kwargs, st))
            else:
                t = mk("call", q, tup(fa), self.kwt(kwargs, st))
            self.effect("call", st, t, fr, node)
            out = kwargs.get("out") if env is None else env.get("out")
            if out is not None and out is not NONE and out.op in ("ref", "view"):
                return self.store_out(out, t, fr, st, node)
            return t
        a = fn.node.args
        for x in a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if v is not None and v.op in ("sym", "attr", "index") and x.annotation is not None and self.type_of(v) is None:
                ty = self.ann_type(fn.module, x.annotation)
                if ty is not None and v.op == "sym":
                    self.types[v] = ty
        for k, v in env.items():
            if v.op not in ("ref", "const", "closure", "view", "func", "class") and k in stores_into(fn.node):
                self.promote(env, k, fr, st)
        r = self.run(fn, env, st, closure)
        return r

    def promote(self, env, k, fr, st):
        """an argument the callee writes into: give the caller's variable and the parameter one shared object"""
        v = env[k]
        f = self.freeze(v, st)
        if self.type_of(f) is not None or self.is_dictish(f, st):
            return
        r = self.alloc(st, HObj("arr", content=f, root=self.root_of(f, st)))
        env[k] = r
        if fr is not None:
            for n, w in list(fr.env.items()):
                if w is v:
                    fr.env[n] = r

    def call_super(self, f, args, kwargs, fr, st, node):
        sup, name = f.a
        me, cq = sup.a
        cls = self.P.classes[cq]
        o = self.obj(me, st)
        dyn = o.cls if o is not None and o.cls is not None else cls
        mro = self.P.mro(dyn)
        start = mro.index(cls) + 1 if cls in mro else 1
        for c in mro[start:]:
            if isinstance(c, Class):
                if name in c.methods:
                    return self.inline(c.methods[name], [me] + args, kwargs, fr, st, node)
            else:
                continue
        if name == "__init__":
            return NONE
        t = mk("mcall", mk("super", self.freeze(me, st), cq), name, tup([self.freeze(a, st) for a in args]), self.kwt(kwargs, st))
        self.effect("call", st, t, fr, node)
        return t

    def new(self, cls, args, kwargs, fr, st, node, ok=True):
        init = self.P.find_method(cls, "__init__")
        if init is None:
            # dataclass?
            if any("dataclass" in ast.unparse(d) for d in cls.node.decorator_list):
                fields = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)]
                env = {}
                for s in cls.node.body:
                    if isinstance(s, ast.AnnAssign) and s.value is not None:
                        env[s.target.id] = self.ev(s.value, Frame(None, cls.module, {}, ()), st)
                for k, v in zip(fields, args):
                    env[k] = v
                env.update(kwargs)
                return mk("new", cls.qual, *[mk("kw", k, self.freeze(env[k], st)) for k in sorted(env)])
            return mk("new", cls.qual, *[mk("kw", f"#{i}", self.freeze(a, st)) for i, a in enumerate(args)])
        env = self.bind(init, [mk("self_placeholder")] + args, dict(kwargs), st, fr) if ok else None
        if env is None:
            if ok:
                self.effect("badcall", st, mk("badcall", init.qual, num(len(args) + 1), self.kwt(kwargs, st)), fr, node)
            t = mk("new", cls.qual, *([mk("kw", f"#{i}", self.freeze(a, st)) for i, a in enumerate(args)] +
                                      [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]))
            self.effect("call", st, t, fr, node)
            return t
        env.pop(init.params()[0], None)
        t = mk("new", cls.qual, *[mk("kw", k, self.freeze(env[k], st)) for k in sorted(env)])
        self.effect("new", st, t, fr, node)
        return t

    # ---- methods of lists / dicts / arrays
    def builtin_method(self, b, name, args, kwargs, fr, st, node):
        o = st.heap[b.a[0]]
        c = o.content
        if o.kind == "list":
            if name == "append" and len(args) == 1:
                v = args[0]
                st.heap[b.a[0]] = o.with_content(concat(c, lst([v])) if c.op != "list" else mk("list", *(c.a + (v,))))
                return NONE
            if name == "extend" and len(args) == 1:
                v = self.seqterm(args[0], st)
                v = mk("list", *v.a) if v.op == "tuple" else v
                st.heap[b.a[0]] = o.with_content(concat(c, v))
                return NONE
            if name == "copy":
                return self.alloc(st, HObj("list", content=c))
            if name == "insert" and len(args) == 2 and intval(args[0]) == 0:
                st.heap[b.a[0]] = o.with_content(concat(lst([args[1]]), c))
                return NONE
            if name in MUT_METHODS:
                fa = tup([self.freeze(a, st) for a in args])
                st.heap[b.a[0]] = o.with_content(mk("listop", name, self.freeze(b, st), fa))
                return mk("listret", name, self.freeze(b, st), fa)
            if name == "index" or name == "count":
                return mk("mcall", self.freeze(b, st), name, tup([self.freeze(a, st) for a in args]), mk("kws"))
        if o.kind == "dict":
            if name == "items":
                return mk("ditems", b)
            if name == "keys":
                return mk("dkeys", b)
            if name == "values":
                return mk("dvalues", b)
            if name == "copy":
                return self.alloc(st, HObj("dict", content=c))
            if name == "get":
                k = self.freeze(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                if c.op == "dict" and k.op == "const" and all(kv.a[0].op == "const" for kv in c.a):
                    for kv in c.a:
                        if kv.a[0] is k:
                            return kv.a[1]
                    return d
                fc = self.freeze(c, st)
                return ite(mk("in", k, fc), index(fc, k), self.freeze(d, st))
            if name == "setdefault" and len(args) in (1, 2) and not kwargs:
                k = self.freeze(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                fc = self.freeze(c, st)
                q = mk("in", k, fc) if not (c.op == "dict" and (not c.a or k.op == "const" and all(kv.op == "kv" and kv.a[0].op == "const" for kv in c.a))) else const(any(kv.a[0] is k for kv in c.a))
                if q is FALSE:
                    st.heap[b.a[0]] = o.with_content(self.dict_store(c, k, self.freeze(d, st)))
                elif q is not TRUE:
                    st.heap[b.a[0]] = o.with_content(self.dict_store(c, k, ite(q, index(fc, k), self.freeze(d, st))))
                return self.getitem(b, k, fr, st)
            if name == "update" and args:
                v = self.seqterm(args[0], st)
                if v.op == "dict":
                    for kv in v.a:
                        c = self.dict_store(c, kv.a[0], kv.a[1])
                else:
                    c = mk("dupdate", c, self.freeze(v, st))
                st.heap[b.a[0]] = o.with_content(c)
                return NONE
            if name in MUT_METHODS:
                fa = tup([self.freeze(a, st) for a in args])
                st.heap[b.a[0]] = o.with_content(mk("listop", name, self.freeze(b, st), fa))
                return mk("listret", name, self.freeze(b, st), fa)
        if o.kind == "arr":
            if name in ("fill", "fill_") and args:
                st.heap[b.a[0]] = o.with_content(mk("filled", self.freeze(args[0], st)))
                return b
            if name in ALLOC_METHODS and not args:
                return self.alloc(st, HObj("arr", content=self.freeze(b, st)))
            if name.endswith("_") and not name.startswith("_"):
                t = mk("mcall", self.freeze(b, st), name, tup([self.freeze(a, st) for a in args]), self.kwt(kwargs, st))
                if o.root is not None:
                    self.effect("mutate", st, mk("mut", o.root, name, t), fr, node)
                st.heap[b.a[0]] = o.with_content(t)
                return b
            if name in MUT_METHODS and o.root is None and not kwargs:
                if name == "update" and len(args) == 1:
                    v = self.seqterm(args[0], st)
                    if v.op == "dict":
                        for kv in v.a:
                            c = self.dict_store(c, kv.a[0], self.freeze(kv.a[1], st))
                    else:
                        c = mk("dupdate", c, self.freeze(v, st))
                    st.heap[b.a[0]] = o.with_content(c)
                    return NONE
                fa = tup([self.freeze(a, st) for a in args])
                if name == "append" and len(args) == 1:
                    st.heap[b.a[0]] = o.with_content(concat(c, lst([fa.a[0]])))
                    return NONE
                if name == "extend" and len(args) == 1:
                    st.heap[b.a[0]] = o.with_content(concat(c, fa.a[0]))
                    return NONE
                st.heap[b.a[0]] = o.with_content(mk("listop", name, self.freeze(b, st), fa))
                return mk("listret", name, self.freeze(b, st), fa)
            if name in ("view", "reshape", "to", "float", "double", "contiguous", "detach", "astype") and False:
                return b
        return self.method_call(self.freeze(b, st), name, args, kwargs, fr, st, node)

    def method_call(self, recv, name, args, kwargs, fr, st, node):
        fa = [self.freeze(a, st) for a in args]
        # dictionary views of opaque mappings
        if name in ("items", "keys", "values") and not args:
            return mk({"items": "ditems", "keys": "dkeys", "values": "dvalues"}[name], recv)
        if name == "register_buffer" and len(args) + len(kwargs) >= 2:
            nm = fa[0] if fa else self.freeze(kwargs["name"], st)
            val = args[1] if len(args) > 1 else kwargs.get("tensor", NONE)
            tgt = self.self_ref(recv, st)
            if tgt is not None:
                key = strval(nm) if is_str(nm) else nm
                o = st.heap[tgt.a[0]]
                st.heap[tgt.a[0]] = o.with_attr(key, self.freeze(val, st))
            self.effect("buffer", st, mk("setattr", recv, nm, self.freeze(val, st)), fr, node)
            return NONE
        if name == "register_parameter" and len(args) >= 2:
            tgt = self.self_ref(recv, st)
            if tgt is not None:
                key = strval(fa[0]) if is_str(fa[0]) else fa[0]
                st.heap[tgt.a[0]] = st.heap[tgt.a[0]].with_attr(key, fa[1])
            self.effect("param", st, mk("setattr", recv, fa[0], fa[1]), fr, node)
            return NONE
        if name == "add_module" and len(args) >= 2:
            tgt = self.self_ref(recv, st)
            if tgt is not None:
                key = strval(fa[0]) if is_str(fa[0]) else fa[0]
                st.heap[tgt.a[0]] = st.heap[tgt.a[0]].with_attr(key, args[1])
            self.effect("module", st, mk("setattr", recv, fa[0], fa[1]), fr, node)
            return NONE
        if name == "format" and is_str(recv):
            return mk("strformat", recv, tup(fa), self.kwt(kwargs, st))
        if name == "join" and is_str(recv):
            return mk("join", recv, fa[0] if fa else NONE)
        if name in ALLOC_METHODS and not args and not kwargs:
            return self.alloc(st, HObj("arr", content=recv))
        if name in ("view", "reshape", "permute", "transpose", "expand") and len(fa) == 1 and fa[0].op in ("tuple", "list"):
            fa = list(fa[0].a)
        if name in ("size",) and not fa and not kwargs:
            return attr(recv, "shape")
        if name in ("size",) and len(fa) == 1:
            return index(attr(recv, "shape"), fa[0])
        if name == "dim" and not fa:
            return length(attr(recv, "shape"))
        inplace = name.endswith("_") and not name.startswith("_")
        out = kwargs.pop("out", None)
        if not inplace and (out is None or out is NONE):
            t = api.method(recv, name, fa, {k: self.freeze(v, st) for k, v in kwargs.items()}, self.unary)
            if t is not None:
                self.effect("call", st, t, fr, node)
                return t
        t = mk("mcall", recv, name, tup(fa), self.kwt(kwargs, st))
        if out is not None and out is not NONE:
            return self.store_out(out, t, fr, st, node)
        if name in MUT_METHODS and not kwargs and name not in ("fill", "resize"):
            def upd(r):
                if name == "append" and len(fa) == 1:
                    return concat(r, lst([fa[0]]))
                if name == "extend" and len(fa) == 1:
                    return concat(r, fa[0] if fa[0].op != "tuple" else mk("list", *fa[0].a))
                return mk("listop", name, r, tup(fa))
            if self.nested(recv, upd, fr, st):
                return NONE if name in ("append", "extend", "add", "update", "insert", "remove", "clear", "sort", "reverse", "discard") else mk("listret", name, recv, tup(fa))
        if inplace or name in MUT_METHODS:
            self.effect("mutate", st, mk("mut", self.root_of(recv, st), name, t), fr, node)
            return t
        self.effect("call", st, t, fr, node)
        return t

    def self_ref(self, recv, st):
        for i, o in st.heap.items():
            if o.kind == "inst" and o.root is recv:
                return mk("ref", i)
        if recv.op == "ref":
            return recv
        return None

    # ---- builtins, numpy, torch
    def ext_call(self, name, args, kwargs, fr, st, node):
        fa = [self.freeze(a, st) for a in args]
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(args, fa, kwargs, fr, st, node)
            if r is not None:
                return r
        if name in UNARY and len(fa) == 1 and not (set(kwargs) - {"out"}):
            x = fa[0]
            r = self.unary(UNARY[name], x)
            if "out" in kwargs and kwargs["out"] is not NONE:
                return self.store_out(kwargs["out"], r, fr, st, node)
            return r
        if name not in ALLOC:
            r = api.func(name, fa, {k: self.freeze(v, st) for k, v in kwargs.items()}, self.unary)
            if r is not None:
                self.effect("call", st, r, fr, node)
                return r
        if name.startswith("torch.") and name.endswith("_") and fa and not name.endswith("__") and not name.startswith("torch.nn.init"):
            t = mk("call", name, tup(fa), self.kwt(kwargs, st))
            o = self.obj(args[0], st)
            if o is not None and o.kind == "arr":
                if o.root is not None:
                    self.effect("mutate", st, mk("mut", o.root, name.split(".")[-1], t), fr, node)
                st.heap[args[0].a[0]] = o.with_content(t)
                return args[0]
            self.effect("mutate", st, mk("mut", self.root_of(fa[0], st), name.split(".")[-1], t), fr, node)
            return t
        sig = SIGS.get(name)
        kw = dict(kwargs)
        if sig:
            pos = []
            for i, v in enumerate(fa):
                if i < len(sig):
                    kw[sig[i]] = v
                else:
                    pos.append(v)
            fa = pos
        out = kw.pop("out", None)
        t = mk("call", name, tup(fa), self.kwt(kw, st))
        if out is not None and out is not NONE:
            self.effect("call", st, t, fr, node)
            return self.store_out(out, t, fr, st, node)
        if name in ALLOC:
            return self.alloc(st, HObj("arr", content=t))
        self.effect("call", st, t, fr, node)
        return t

    def unary(self, op, x):
        if x.op == "ite":
            return ite(x.a[0], self.unary(op, x.a[1]), self.unary(op, x.a[2]))
        if op == "abs" and is_num(x):
            return num(abs(numval(x)))
        if op == "floor" and (is_num(x) or is_int_like(x)):
            return num(numval(x).__floor__()) if is_num(x) else x
        if op == "ceil" and (is_num(x) or is_int_like(x)):
            return num(numval(x).__ceil__()) if is_num(x) else x
        if op == "cos" and x is ZERO:
            return ONE
        if op == "sin" and x is ZERO:
            return ZERO
        if op == "cos" and negative_leading(x):
            return mk("cos", neg(x))
        if op == "sin" and negative_leading(x):
            return neg(mk("sin", neg(x)))
        return mk(op, x)

    def x_len(self, args, fa, kw, fr, st, node):
        v = args[0]
        o = self.obj(v, st)
        if o is not None and o.kind == "inst" and o.cls is not None:
            m = self.P.find_method(o.cls, "__len__")
            if m is not None:
                return self.inline(m, [v], {}, fr, st, node)
        ty = self.type_of(v)
        if isinstance(ty, Class):
            m = self.P.find_method(ty, "__len__")
            if m is not None and not m.is_abstract:
                return self.inline(m, [v], {}, fr, st, node)
        return length(fa[0])

    def x_range(self, args, fa, kw, fr, st, node):
        if len(fa) == 1:
            return mk("range", ZERO, fa[0], ONE)
        if len(fa) == 2:
            return mk("range", fa[0], fa[1], ONE)
        return mk("range", *fa)

    def x_enumerate(self, args, fa, kw, fr, st, node):
        return mk("enumerate", args[0], fa[1] if len(fa) > 1 else kw.get("start", ZERO))

    def x_zip(self, args, fa, kw, fr, st, node):
        return mk("zip", *args)

    def x_reversed(self, args, fa, kw, fr, st, node):
        return mk("reversed", args[0])

    def x_isinstance(self, args, fa, kw, fr, st, node):
        v, c = args[0], args[1]
        cs = list(c.a) if c.op == "tuple" else [c]
        res = []
        o = self.obj(v, st)
        f = fa[0]
        f = self.simplify(f, st)
        for k in cs:
            nm = None
            if k.op == "class":
                cls = self.P.classes[k.a[0]]
                nm = k.a[0]
                if o is not None and o.kind == "inst":
                    res.append(const(cls in self.P.mro(o.cls)))
                    continue
                if f.op == "new":
                    res.append(const(cls in self.P.mro(self.P.classes[f.a[0]])))
                    continue
                if f.op in ("const", "tuple", "list", "dict", "fmt"):
                    res.append(FALSE)
                    continue
            elif k.op == "ext":
                nm = k.a[0]
                if f.op == "const":
                    kind = f.a[0]
                    m = {"num": ("int",) if f.a[1][1] == 1 else ("float",), "str": ("str",), "bool": ("bool", "int"), "none": ()}.get(kind)
                    if m is not None and nm in ("int", "float", "str", "bool", "list", "tuple", "dict", "torch.Tensor", "numpy.ndarray"):
                        if kind == "num" and nm == "float" and f.a[1][1] == 1:
                            res.append(mk("isinstance", f, nm))
                        else:
                            res.append(const(nm in m))
                        continue
                if f.op in ("tuple", "list") and nm in ("int", "float", "str", "bool", "list", "tuple", "dict"):
                    res.append(const(nm == f.op))
                    continue
                if f.op in ("new", "fmt"):
                    res.append(const(nm == "str") if f.op == "fmt" else FALSE)
                    continue
            if nm is None:
                nm = show(k)
            res.append(mk("isinstance", f, nm))
        return disj(res)

    def x_sum(self, args, fa, kw, fr, st, node):
        x = fa[0]
        init = fa[1] if len(fa) > 1 else ZERO
        if x.op in ("list", "tuple"):
            if any(is_seq(y) for y in x.a):
                return concat(init, *x.a)
            return add(init, *x.a)
        if is_seq(init):
            return mk("flatten", init, x)
        return add(init, sum_of(x))

    def x_int(self, args, fa, kw, fr, st, node):
        if len(fa) != 1:
            return None
        x = fa[0]
        if is_num(x):
            return num(int(numval(x)))
        if is_int_like(x):
            return x
        if x.op in ("floor", "ceil"):
            return mk("int", x)
        return mk("int", x)

    def x_float(self, args, fa, kw, fr, st, node):
        if is_str(fa[0]):
            return mk("const", "float", fa[0].a[1])
        return fa[0] if fa else None

    def x_bool(self, args, fa, kw, fr, st, node):
        return self.boolv(fa[0], st)

    def x_str(self, args, fa, kw, fr, st, node):
        return fmt([fa[0]])

    def x_list(self, args, fa, kw, fr, st, node):
        c = self.listify(args[0], fa[0], st) if fa else lst([])
        return self.alloc(st, HObj("list", content=c))

    def listify(self, raw, x, st):
        if x.op == "tuple":
            return mk("list", *x.a)
        if x.op in ("list", "map", "concat", "filtermap", "flatmap", "repeat"):
            return x
        if x.op == "range":
            n = length(x)
            if intval(n) is not None and intval(n) <= 10 and intval(x.a[0]) is not None:
                return lst([num(i) for i in range(intval(x.a[0]), intval(x.a[1]))])
            lvl = len(self.loopstack)
            return mk("map", n, lvl, add(x.a[0], mk("idx", n, lvl)))
        return mk("listof", x)

    def x_tuple(self, args, fa, kw, fr, st, node):
        if not fa:
            return tup([])
        x = fa[0]
        if x.op in ("list", "tuple"):
            return tup(x.a)
        return x if x.op in ("map", "concat", "repeat", "filtermap") else mk("tupleof", x)

    def x_dict(self, args, fa, kw, fr, st, node):
        c = mk("dict")
        if fa:
            if fa[0].op == "dict":
                c = fa[0]
            else:
                c = mk("dictof", fa[0])
        for k, v in kw.items():
            if k == "**":
                return None
            c = self.dict_store(c, const(k), v)
        return self.alloc(st, HObj("dict", content=c))

    def x_collections_defaultdict(self, args, fa, kw, fr, st, node):
        return self.alloc(st, HObj("dict", content=mk("ddict", fa[0] if fa else NONE)))

    def x_collections_OrderedDict(self, args, fa, kw, fr, st, node):
        return self.x_dict(args, fa, kw, fr, st, node)

    def x_set(self, args, fa, kw, fr, st, node):
        if not fa:
            return mk("setof")
        if fa[0].op in ("list", "tuple") and all(x.op == "const" for x in fa[0].a):
            return mk("setof", *sorted(set(fa[0].a)))
        return mk("set", fa[0])

    def x_max(self, args, fa, kw, fr, st, node):
        return self.minmax("max", fa, kw)

    def x_min(self, args, fa, kw, fr, st, node):
        return self.minmax("min", fa, kw)

    def minmax(self, op, fa, kw):
        if kw:
            return None
        xs = fa
        if len(fa) == 1:
            if fa[0].op in ("list", "tuple"):
                xs = list(fa[0].a)
            else:
                return mk(op + "of", fa[0])
        if all(is_num(x) for x in xs):
            f = max if op == "max" else min
            return num(f(numval(x) for x in xs))
        return mk(op, *sorted(set(xs)))

    def x_getattr(self, args, fa, kw, fr, st, node):
        nm = fa[1]
        key = strval(nm) if is_str(nm) else nm
        if len(fa) > 2:
            o = self.obj(args[0], st)
            if o is not None and o.kind == "inst" and key in o.attrs:
                return o.attrs[key]
            return mk("getattrd", fa[0], nm, fa[2])
        return self.getattr_(args[0], key, fr, st, node)

    def x_setattr(self, args, fa, kw, fr, st, node):
        nm = fa[1]
        self.setattr_(args[0], strval(nm) if is_str(nm) else nm, args[2], fr, st, node)
        return NONE

    def x_hasattr(self, args, fa, kw, fr, st, node):
        o = self.obj(args[0], st)
        if o is not None and o.kind == "inst" and is_str(fa[1]):
            k = strval(fa[1])
            if k in o.attrs:
                v = o.attrs[k]
                if v.op == "undef":
                    return FALSE
                if not contains(v, lambda x: x.op == "undef"):
                    return TRUE
                return mk("hasattr", fa[0], fa[1])
            if o.cls is not None and self.P.find_method(o.cls, k) is not None:
                return TRUE
        return mk("hasattr", fa[0], fa[1])

    def x_print(self, args, fa, kw, fr, st, node):
        self.effect("print", st, tup(fa), fr, node)
        return NONE

    def x_any(self, args, fa, kw, fr, st, node):
        x = fa[0]
        if x.op in ("list", "tuple"):
            return disj([self.boolv(y, st) for y in x.a])
        if x.op == "map":
            return mk("exists", x.a[0], x.a[1], x.a[2])
        return mk("any", x)

    def x_all(self, args, fa, kw, fr, st, node):
        x = fa[0]
        if x.op in ("list", "tuple"):
            return conj([self.boolv(y, st) for y in x.a])
        if x.op == "map":
            return neg_b(mk("exists", x.a[0], x.a[1], neg_b(x.a[2])))
        return mk("all", x)

    def x_type(self, args, fa, kw, fr, st, node):
        o = self.obj(args[0], st)
        if o is not None and o.kind == "inst":
            return mk("class", o.cls.qual)
        return None

    def x_copy_deepcopy(self, args, fa, kw, fr, st, node):
        return None

    def x_numpy_array(self, args, fa, kw, fr, st, node):
        k = {x: v for x, v in kw.items() if x not in ("copy", "dtype")}
        if k or not fa:
            return None
        x = fa[0]
        return self.alloc(st, HObj("arr", content=mk("arr", x)))

    x_numpy_asarray = x_numpy_array

    def x_torch_nn_Parameter(self, args, fa, kw, fr, st, node):
        return mk("call", "torch.nn.Parameter", tup(fa[:1]), self.kwt({k: v for k, v in kw.items()}, st))

    def x_math_pow(self, args, fa, kw, fr, st, node):
        return power(fa[0], fa[1])


def disj_value(vals):
    # `a or b` used as a value keeps operand order; as a condition it is the disjunction
    return disj(vals)


def negative_leading(x):
    d = poly_dict(x)
    if not d:
        return False
    items = sorted(d.items(), key=lambda mc: tuple((a.digest, e) for a, e in mc[0]))
    return items[0][1] < 0


def flat(n, lvl, y):
    """concatenation over the loop of the list term y"""
    ix = mk("idx", n, lvl)
    if y.op == "list":
        if not y.a:
            return lst([])
        if len(y.a) == 1:
            return mk("map", n, lvl, y.a[0])
    if y.op == "ite" and y.a[1].op == "list" and y.a[2].op == "list":
        if len(y.a[1].a) == 1 and not y.a[2].a:
            return mk("filtermap", n, lvl, y.a[0], y.a[1].a[0])
        if len(y.a[2].a) == 1 and not y.a[1].a:
            return mk("filtermap", n, lvl, neg_b(y.a[0]), y.a[2].a[0])
        if len(y.a[1].a) == 1 and len(y.a[2].a) == 1:
            return mk("map", n, lvl, ite(y.a[0], y.a[1].a[0], y.a[2].a[0]))
    return mk("flatmap", n, lvl, y)


def sum_of(x):
    if x.op == "map":
        n, lvl, body = x.a
        ix = mk("idx", n, lvl)
        if not contains(body, lambda t: t is ix):
            return mul(body, n)
        return mk("sum", n, lvl, body)
    if x.op == "filtermap":
        return mk("sum", x.a[0], x.a[1], ite(x.a[2], x.a[3], ZERO))
    if x.op == "index" and x.a[1].op == "slice" and x.a[1].a[0] is NONE and x.a[1].a[2] is NONE:
        base, hi = x.a[0], x.a[1].a[1]
        if hi.op == "idx":
            return mk("prefix", hi.a[0], hi.a[1], index(base, hi))
    return mk("sumof", x)


# ---------------------------------------------------------------------------------------- front door

class Run:
    """analysis of constructor + methods of a class, or of a function, on symbolic arguments"""

    def __init__(self, project, opaque=(), facts=None, max_depth=10, budget=400000, new_attrs=("FieldType", "GeometricTensor")):
        self.I = Interp(project, max_depth=max_depth, budget=budget, opaque=opaque, new_attrs=new_attrs)
        if facts:
            self.I.facts.update(facts)
        self.st = State({}, ())
        self.P = project

    def symbols(self, fn, skip=0, prefix="", given=None):
        env = {}
        a = fn.node.args
        given = given or {}
        names = [x for x in a.posonlyargs + a.args][skip:] + list(a.kwonlyargs)
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in names:
            if x.arg in given:
                env[x.arg] = given[x.arg]
                continue
            s = sym(prefix + x.arg)
            ty = self.I.ann_type(fn.module, x.annotation)
            if ty is not None:
                self.I.types[s] = ty
            if x.annotation is not None and not (x.arg in dflt and isinstance(dflt[x.arg], ast.Constant)):
                if ast.unparse(x.annotation).split("[")[0].split(".")[-1] in ("List", "Tuple", "Dict", "Sequence", "Set", "OrderedDict", "list", "tuple", "dict"):
                    self.I.sized.add(s)
            env[x.arg] = s
        if a.vararg is not None:
            env[a.vararg.arg] = given.get(a.vararg.arg, sym(prefix + "*" + a.vararg.arg))
        if a.kwarg is not None:
            v = given.get(a.kwarg.arg)
            env[a.kwarg.arg] = v if v is not None else sym(prefix + "**" + a.kwarg.arg)
        return env

    def build(self, cls, given=None, root=None):
        """abstract instance; attributes expressed in constructor-parameter symbols"""
        self.cls = cls
        root = root or sym("self")
        self.I.types[root] = cls
        me = self.I.instance(self.st, cls, root)
        init = self.P.find_method(cls, "__init__")
        if init is not None:
            env = self.symbols(init, 1, given=given)
            env[init.params()[0]] = me
            self.I.run(init, env, self.st)
        self.me = me
        return me

    def lazy(self, cls, root=None):
        self.cls = cls
        root = root or sym("self")
        self.I.types[root] = cls
        self.me = self.I.instance(self.st, cls, root)
        return self.me

    def attrs(self):
        o = self.st.heap[self.me.a[0]]
        return {k: self.I.freeze(v, self.st) for k, v in o.attrs.items()}

    def method(self, name, given=None, prefix=""):
        fn = self.P.find_method(self.cls, name)
        if fn is None:
            return None
        env = self.symbols(fn, 0 if fn.is_static else 1, prefix=prefix, given=given)
        if not fn.is_static:
            env[fn.params()[0]] = self.me
        v = self.I.run(fn, env, self.st)
        return self.I.freeze(v, self.st)

    def function(self, fn, given=None):
        env = self.symbols(fn, 0, given=given)
        v = self.I.run(fn, env, self.st)
        return self.I.freeze(v, self.st)
