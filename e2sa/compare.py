"""Comparison of two value graphs.

``diff`` returns the list of places where the graphs disagree after normalisation and case
analysis over the gamma conditions.  A disagreement is *hard* when it lies inside the
interpreted fragment - both sides are understood there and denote different values for a
generic input - and *soft* when one side uses an operation whose meaning is not modelled
well enough to tell (the rule then stays undecided).
"""
from fractions import Fraction
from .terms import *
from . import terms as TM


class Mismatch:
    __slots__ = ("hard", "why", "ref", "cur", "facts", "path")

    def __init__(self, hard, why, ref, cur, facts, path):
        self.hard, self.why, self.ref, self.cur, self.facts, self.path = hard, why, ref, cur, dict(facts), path

    def text(self, L=160):
        f = "; ".join(("" if v else "not ") + short(c, 60) for c, v in list(self.facts.items())[:4])
        return f"{self.why}: expected `{short(self.ref, L)}`, found `{short(self.cur, L)}`" + (f" when {f}" if f else "")


def short(t, L=160):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= L else s[:L] + "…"


CONTRAST = [
    {"cos", "sin", "tan"}, {"min", "max", "argmin", "argmax", "minof", "maxof", "amax", "amin", "sum", "mean", "prod", "std", "var", "median", "sumof"},
    {"floor", "ceil", "round", "trunc"}, {"lt", "le"}, {"eq", "ne"}, {"and", "or"}, {"is", "isnot"}, {"in", "notin"},
    {"any", "all"}, {"zeros", "ones", "empty", "eye", "rand", "randn", "zeros_like", "ones_like", "zeros_", "ones_", "fill_", "uniform_", "normal_"},
    {"relu", "elu", "sigmoid", "tanh", "softplus", "leaky_relu", "selu"},
    {"max_pool2d", "avg_pool2d"}, {"adaptive_max_pool2d", "adaptive_avg_pool2d"},
    {"MaxPool2d", "AvgPool2d"}, {"AdaptiveMaxPool2d", "AdaptiveAvgPool2d"}, {"ReLU", "ELU", "Sigmoid", "Tanh"},
    {"Conv2d", "ConvTranspose2d"}, {"conv2d", "conv_transpose2d"}, {"BatchNorm2d", "BatchNorm3d", "BatchNorm1d", "InstanceNorm2d", "InstanceNorm3d"},
    {"dropout", "dropout2d", "dropout3d"}, {"cat", "stack"}, {"concat", "stack"}, {"add_", "sub_", "mul_", "div_"}, {"append", "insert"},
    {"items", "keys", "values"}, {"floordiv", "mod"}, {"prefix", "sum"}, {"startswith", "endswith"}, {"first", "last"},
    {"inv", "pinv", "transpose"}, {"mod", "floordiv"}, {"train", "eval"}, {"vstack", "hstack"}, {"repeat_interleave", "repeat"}, {"repeat", "tile"},
    {"log", "exp", "sqrt"}, {"sign", "abs"},
]
SOFT_WRAP = {"listof", "tupleof", "int", "float", "arr", "clone", "copy", "contiguous", "detach", "list", "tuple", "to", "float32", "double", "item", "tolist",
             "asarray", "array", "astype", "type", "cpu", "requires_grad_", "set", "sorted", "enter", "as_tensor", "tensor", "from_numpy", "numpy", "str", "fmt",
             "isinstance", "Size", "len", "any", "all", "last", "prev", "squeeze", "ravel", "flatten", "view", "reshape", "expand", "range", "arange", "bool"}
# defaults of external callables: passing them explicitly changes nothing
DEFAULTS = {
    "stride": {"conv2d": ONE, "conv_transpose2d": ONE, "Conv2d": ONE, "ConvTranspose2d": ONE, "max_pool2d": NONE, "avg_pool2d": NONE},
    "padding": ZERO, "dilation": ONE, "groups": ONE, "output_padding": ZERO, "ceil_mode": FALSE, "count_include_pad": TRUE, "inplace": FALSE,
    "bias": {"conv2d": NONE, "conv_transpose2d": NONE, "Conv2d": TRUE, "ConvTranspose2d": TRUE}, "align_corners": NONE, "size": NONE, "scale_factor": NONE,
    "keepdim": FALSE, "return_indices": FALSE, "padding_mode": const("zeros"), "eps": num(Fraction("1e-05")), "momentum": num(Fraction("0.1")), "affine": TRUE,
    "track_running_stats": TRUE, "requires_grad": None, "device": None, "dtype": None, "dim": {"cat": ZERO, "stack": ZERO}, "axis": {"concatenate": ZERO, "stack": ZERO},
    "divisor_override": NONE, "optimize": None, "p": num(Fraction(1, 2)), "alpha": ONE, "rtol": None, "atol": None, "copy": None, "out": NONE, "non_blocking": None,
    "persistent": TRUE, "keepdims": FALSE, "mode": {"pad": const("constant"), "Upsample": const("nearest"), "interpolate": const("nearest")}, "value": None, "endpoint": TRUE,
    "generator": NONE, "full_matrices": TRUE,
}


def callname(t):
    if t.op == "call":
        return t.a[0].split(".")[-1]
    if t.op == "mcall":
        return t.a[1]
    return t.op


def is_default(fn, k, v):
    d = DEFAULTS.get(k, False)
    if isinstance(d, dict):
        d = d.get(fn, False)
    return d is None or d is v


def contrast(a, b):
    x, y = callname(a), callname(b)
    if x == y:
        return False
    return any(x in s and y in s for s in CONTRAST)


LAYOUT = {"view", "permute", "transpose", "expand", "squeeze", "unsqueeze", "flatten", "repeat", "narrow", "chunk"}
ATOMIC = {"const", "sym", "idx", "ext", "func", "class", "global", "mod", "none"}
STRUCT = {"attr", "index", "len", "poly_", "mono", "pw", "mod", "floordiv", "pow", "inv", "tuple", "list", "dict", "kv", "slice", "prefix", "sum",
          "map", "filtermap", "flatmap", "concat", "cos", "sin", "abs", "sqrt", "floor", "ceil", "eq", "ne", "lt", "le", "is", "isnot", "and", "or", "not",
          "dkey", "dval", "range", "repeat", "min", "max", "kw", "kws", "exists", "int", "ite", "fmt", "setof", "in", "notin", "bound", "new", "call", "mcall",
          "callv", "apply", "isinstance", "store", "dictmap", "arr", "filled", "join", "strformat"}


_RIGID = {}


def rigid(t):
    """understood completely: built from symbols, constants and interpreted constructors only"""
    r = _RIGID.get(t)
    if r is None:
        if t.op in ATOMIC:
            r = True
        elif t.op in ("attr", "index", "len", "poly_", "mono", "pw", "mod", "floordiv", "pow", "inv", "tuple", "list", "slice", "prefix", "sum", "dkey", "dval",
                      "cos", "sin", "abs", "sqrt", "floor", "ceil", "int", "min", "max", "kv", "map"):
            r = all(rigid(x) for x in t.a if isinstance(x, T))
        else:
            r = False
        _RIGID[t] = r
    return r


def size(t, cap=4000):
    n = 0
    for _ in walk(t):
        n += 1
        if n > cap:
            break
    return n


# ------------------------------------------------------------------------------------------ feasibility of path facts

def linear(c):
    """numeric order atom -> (shape, op, bound) meaning  shape op bound"""
    if c.op not in ("lt", "le", "eq", "ne"):
        return None
    a, b = c.a
    if is_seq(a) or is_seq(b) or NONE in (a, b) or is_str(a) or is_str(b):
        return None
    d = poly_dict(sub(a, b))
    k = d.pop((), Fraction(0))
    if not d:
        return None
    items = sorted(d.items(), key=lambda mc: tuple((x.digest, e) for x, e in mc[0]))
    lead = items[0][1]
    shape = tuple((tuple((x, e) for x, e in m), cc / lead) for m, cc in items)
    bound = -k / lead
    op = c.op
    if lead < 0:
        op = {"lt": "gt", "le": "ge"}.get(op, op)
    return shape, op, bound


def feasible(facts):
    """cheap satisfiability test of a set of literals"""
    eqs = {}
    for c, v in facts.items():
        if c.op == "eq" and v:
            a, b = c.a
            if b.op == "const" and a.op != "const":
                if eqs.get(a, b) is not b:
                    return False
                eqs[a] = b
            elif a.op == "const" and b.op != "const":
                if eqs.get(b, a) is not a:
                    return False
                eqs[b] = a
        if c.op == "is" and v and c.a[1] is NONE:
            eqs[c.a[0]] = NONE
    for c, v in facts.items():
        if eqs and c.n < 400:
            d = subst(c, eqs)
            tv = truth(d)
            if tv is not None and tv != v and not (c.op == "eq" and v):
                return False
        if c.op in ("isinstance",) and v and eqs.get(c.a[0]) is NONE:
            return False
    iv = {}
    for c, v in facts.items():
        l = linear(c) if c.n < 5000 else None
        if l is None:
            continue
        shape, op, b = l
        if not v:
            op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}[op]
        lo, los, hi, his, ne = iv.get(shape, (None, False, None, False, frozenset()))
        if op in ("gt", "ge", "eq"):
            s = op == "gt"
            if lo is None or b > lo or (b == lo and s):
                lo, los = b, s
        if op in ("lt", "le", "eq"):
            s = op == "lt"
            if hi is None or b < hi or (b == hi and s):
                hi, his = b, s
        if op == "ne":
            ne = ne | {b}
        iv[shape] = (lo, los, hi, his, ne)
    for lo, los, hi, his, ne in iv.values():
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (los or his or lo in ne)):
                return False
    return True


# ------------------------------------------------------------------------------------------ the comparison

FUEL_PER_DIFF = 400000


class Stop(Exception):
    pass



class Differ:
    def __init__(self, max_splits=200, max_nodes=20000, vocab=None, bad=(), stop=False, words=None):
        self.words = words
        self.stop = stop
        self.bad = list(bad)      # failure formulas: inputs satisfying one of them are rejected
        self.vocab = vocab if vocab is not None else set()
        self.splits = max_splits
        self.nodes = max_nodes
        self.out = []
        self.seen = set()
        self.done = set()
        self.tried = set()
        self.overflow = False

    def run(self, ref, cur, facts=None):
        old = TM.FUEL[0]
        if old is None:
            TM.FUEL[0] = FUEL_PER_DIFF
        try:
            self.go(ref, cur, dict(facts or {}), ())
        except Stop:
            pass
        except (TM.Exhausted, RecursionError):
            if old is not None:
                raise
            self.overflow = True
        finally:
            if old is None:
                TM.FUEL[0] = None
        return self.out

    def possible(self, facts):
        """some accepted input satisfies the facts"""
        if not feasible(facts):
            return False
        if not self.bad:
            return True
        return sat(facts, self.bad, [60])

    def put(self, hard, why, a, b, facts, path):
        key = (why, a, b)
        if key in self.seen:
            return
        if self.bad and facts and not self.possible(facts):
            return
        self.seen.add(key)
        self.out.append(Mismatch(hard, why, a, b, facts, path))
        if self.stop and not hard:
            raise Stop

    def go(self, a, b, facts, path):
        if a is b:
            return
        self.nodes -= 1
        if self.nodes < 0:
            self.overflow = True
            return
        key = (a, b)
        if key in self.done:
            return
        fk = (a, b, frozenset(facts.items()))
        if fk in self.tried:
            return
        self.tried.add(fk)
        n0 = len(self.out)
        self.go1(a, b, facts, path)
        if len(self.out) > n0:
            self.done.add(key)

    def go1(self, a, b, facts, path):
        # gammas: split on a condition of the top-most ite
        if a.op == "ite" or b.op == "ite":
            if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
                cond = a.a[0]
            else:
                cond = a.a[0] if a.op == "ite" else b.a[0]
                if a.op == "ite" and b.op == "ite":
                    # conditions that differ slightly: report the condition itself
                    if a.a[1] is b.a[1] and a.a[2] is b.a[2] and not self.shares_atoms(a.a[0], b.a[0]):
                        return self.go_cond(a.a[0], b.a[0], facts, path + ("cond",), a, b)
            return self.split(cond, a, b, facts, path)
        if a.op in ("and", "or", "not") or b.op in ("and", "or", "not"):
            return self.go_cond(a, b, facts, path, a, b)
        self.same_level(a, b, facts, path)

    def shares_atoms(self, c, d):
        x, y = set(atoms_of_cond(c)), set(atoms_of_cond(d))
        return bool(x & y) and (len(x) > 1 or len(y) > 1)

    def split(self, cond, a, b, facts, path):
        atoms = atoms_of_cond(cond)
        self.splits -= 1
        if self.splits < 0 or not atoms:
            self.overflow = True
            return
        c = atoms[0]
        if c in facts:
            self.overflow = True
            return
        for v in (True, False):
            f = dict(facts)
            f[c] = v
            if not self.possible(f):
                continue
            x, y = assume(a, {c: v}), assume(b, {c: v})
            if x is a and y is b:
                self.overflow = True
                continue
            self.go(x, y, f, path)

    # boolean formulas: compare as propositional functions of their atoms
    def go_cond(self, a, b, facts, path, wa=None, wb=None):
        if a is b:
            return
        A, B = set(atoms_of_cond(a)), set(atoms_of_cond(b))
        only_a, only_b = A - B, B - A
        if len(A | B) <= 10:
            import itertools
            common = sorted(A | B)
            bad = None
            for vals in itertools.product((True, False), repeat=len(common)):
                f = dict(zip(common, vals))
                x, y = truth(assume_bool(a, f)), truth(assume_bool(b, f))
                if x is None or y is None:
                    bad = "unknown"
                    break
                if x != y:
                    ff = dict(facts)
                    ff.update(f)
                    if self.possible(ff):
                        bad = ff
                        break
            if bad is None:
                return
            if bad != "unknown" and not only_a and not only_b:
                return self.put(True, "condition differs", a, b, facts, path)
        if len(only_a) == 1 and len(only_b) == 1:
            x, y = next(iter(only_a)), next(iter(only_b))
            n0 = len(self.out)
            self.same_level(x, y, facts, path)
            if len(self.out) > n0:
                return
            ny = neg_b(y)
            return self.undecided("condition differs", a, b, facts, path)
        if only_a and not only_b and B and all(rigid_c(x) for x in only_a):
            return self.put(True, "condition lost a case", a, b, facts, path)
        if only_b and not only_a and A and all(rigid_c(x) for x in only_b):
            return self.put(True, "condition has an additional case", a, b, facts, path)
        self.undecided("conditions not comparable", a, b, facts, path)

    # -------------------------------------------------------------- same level
    def same_level(self, a, b, facts, path):
        if a.op == "const" and b.op == "const":
            if a.a[0] == b.a[0] or {a.a[0], b.a[0]} <= {"num", "bool", "none"}:
                va, vb = pyval(a), pyval(b)
                if va[0] and vb[0] and va[1] == vb[1] and NONE not in (a, b):
                    return
                return self.put(True, "constant differs", a, b, facts, path)
            return self.put(True, "constant differs", a, b, facts, path)
        if a.op == "poly_" or b.op == "poly_":
            if not is_seq(a) and not is_seq(b):
                return self.polys(a, b, facts, path)
        if a.op in ("map", "sum", "filtermap", "flatmap", "prefix", "exists", "last", "first", "dictmap", "fold", "each", "prev", "partial", "loop") and a.op == b.op \
                and len(a.a) == len(b.a):
            return self.loops(a, b, facts, path)
        if a.op == b.op and len(a.a) == len(b.a) and all((isinstance(x, T) == isinstance(y, T)) and (isinstance(x, T) or x == y) for x, y in zip(a.a, b.a)):
            return self.children(a, b, facts, path)
        # gammas below
        if self.has_gamma(a) or self.has_gamma(b):
            c = self.gamma_atom(a) or self.gamma_atom(b)
            if c is not None and c not in facts:
                return self.split(c, a, b, facts, path)
        if a.op == b.op and a.op in ("call", "mcall", "new"):
            return self.calls(a, b, facts, path)
        if a.op == b.op and a.op in ("list", "tuple", "dict", "concat", "kws", "fmt", "setof", "store", "min", "max"):
            return self.seqs(a, b, facts, path)
        if a.op == "attr" and b.op == "attr":
            if a.a[0] is b.a[0]:
                return self.put(rigid(a.a[0]), "different attribute", a, b, facts, path)
        if contrast(a, b) and shares(a, b):
            return self.put(True, "operation differs", a, b, facts, path)
        if rigid(a) and rigid(b) and a.op in ("sym", "attr", "index", "const", "idx", "dkey", "dval") and b.op in ("sym", "attr", "index", "const", "idx", "dkey", "dval"):
            if self.maybe_equal(a, b):
                return self.put(False, "possibly equal values", a, b, facts, path)
            return self.put(True, "different value", a, b, facts, path)
        w = wrapper(a, b)
        if w is not None:
            hard = not all(x in SOFT_WRAP for x in w) or reorders(a, b, w, path)
            return self.put(hard, "operation dropped", a, b, facts, path)
        w = wrapper(b, a)
        if w is not None:
            hard = not all(x in SOFT_WRAP for x in w) or reorders(a, b, w, path)
            return self.put(hard, "operation added", a, b, facts, path)
        if rigid(a) and rigid(b) and numeric(a) and numeric(b):
            return self.put(True, "different value", a, b, facts, path)
        if b in self.vocab and b.op not in ("const",) and not self.maybe_equal(a, b) and not contains_term(b, a):
            return self.put(True, "another value is used", a, b, facts, path)
        self.undecided("not comparable", a, b, facts, path)

    def undecided(self, why, a, b, facts, path):
        """the graphs disagree here but no specific rule applies.  The disagreement refutes when the
        current term is written entirely in the vocabulary of the reference (nothing about it is new to
        the analysis) and neither side is a loop/container shape that may be an equivalent rewriting."""
        self.put(self.refutes(a, b, why), why, a, b, facts, path)

    def refutes(self, a, b, why=""):
        if any(x.op == "undefname" for x in walk(b)) and not any(x.op == "undefname" for x in walk(a)):
            return True
        if self.words is None:
            return False
        if self.maybe_equal(a, b):
            return False
        empty = b.op in ("list", "tuple", "dict", "setof") and not b.a
        if b.op == "const" or empty:
            if a.op in ("accat", "acc", "accx", "prev", "last", "first", "undef", "carried", "partial", "loop", "fold", "mcall", "call", "callv", "apply") and b.op == "const" and b is not NONE:
                return a.op in ("mcall", "call", "callv", "apply", "fold")
            return True
        if callname(a) != callname(b) and (a.op == "mcall" and a.a[1] in LAYOUT or b.op == "mcall" and b.a[1] in LAYOUT):
            return False
        wb = words(b)
        if not wb <= self.words:
            return False
        la, lb = loopy(a), loopy(b)
        if why.startswith("polynomials"):
            p, q = poly_dict(a), poly_dict(b)
            at = {x for m, c in p.items() if q.get(m) != c for x, _ in m}, {x for m, c in q.items() if p.get(m) != c for x, _ in m}
            return not any(loopy(x) for x in at[0] ^ at[1])
        if why.startswith("condition"):
            A, B = set(atoms_of_cond(a)), set(atoms_of_cond(b))
            if any(loopy(x) for x in A ^ B):
                return False
            la, lb = ({y for x in S for y in walk(x) if loopy(y)} for S in (A - B, B - A))
            return not (la ^ lb)
        if a.op == b.op and a.op in ("call", "mcall", "list", "tuple", "dict", "kws", "min", "max", "setof"):
            return True
        return not la and not lb

    def maybe_equal(self, a, b):
        # len-like or shape-like aliases are left undecided
        for x in (a, b):
            for y in walk(x):
                if y.op == "attr" and y.a[1] in ("shape", "size", "dtype", "device"):
                    return not (a.op == b.op and a.op == "index" and a.a[0] is b.a[0]) and (tail(a) != tail(b))
        return False

    def has_gamma(self, t):
        return t.g

    def gamma_atom(self, t):
        """an atom of an outermost gamma condition"""
        seen = set()
        work = [t]
        while work:
            nxt = []
            for x in work:
                if x.op == "ite":
                    # innermost condition first: conditions may contain gammas themselves
                    if x.a[0].g:
                        c = self.gamma_atom(x.a[0])
                        if c is not None:
                            return c
                    cs = atoms_of_cond(x.a[0])
                    if cs:
                        return cs[0]
                for y in x.a:
                    if isinstance(y, T) and y.g and y not in seen:
                        seen.add(y)
                        nxt.append(y)
            work = nxt
        return None

    def children(self, a, b, facts, path):
        if a.op in ("eq", "ne", "min", "max", "setof", "and", "or", "is", "isnot"):
            xs, ys = list(a.a), list(b.a)
            for x in list(xs):
                if x in ys:
                    xs.remove(x)
                    ys.remove(x)
            if len(xs) == len(ys) == 1:
                return self.go(xs[0], ys[0], facts, path + (a.op,))
            if len(xs) == len(ys) == 2:
                # choose the better alignment
                d1 = self.trial([(xs[0], ys[0]), (xs[1], ys[1])], facts, path)
                d2 = self.trial([(xs[0], ys[1]), (xs[1], ys[0])], facts, path)
                best = min((d1, d2), key=lambda d: (sum(not m.hard for m in d), len(d)))
                for m in best:
                    self.put(m.hard and len(best) == 1, m.why, m.ref, m.cur, m.facts, m.path)
                return
        if a.op == "call" and callname(a) in ("maximum", "minimum"):
            return self.children(mk("setof", *a.a[1].a), mk("setof", *b.a[1].a), facts, path)
        if a.op in ("tuple", "list", "concat", "call", "mcall", "kws", "kw") and len(a.a) > 1:
            xs = [x for x in a.a if isinstance(x, T)]
            ys = [x for x in b.a if isinstance(x, T)]
            if sorted(xs) == sorted(ys) and xs != ys:
                return self.put(True, "order differs", a, b, facts, path)
        if a.op == "kws":
            ka, kb = [x.a[0] for x in a.a], [x.a[0] for x in b.a]
            if ka != kb:
                return self.undecided("arguments differ", a, b, facts, path)
            va, vb = [x.a[1] for x in a.a], [x.a[1] for x in b.a]
            if sorted(va) == sorted(vb):
                return self.put(True, "arguments exchanged", a, b, facts, path)
        if a.op in ("call", "mcall"):
            pass
        diffs = [(x, y) for x, y in zip(a.a, b.a) if isinstance(x, T) and x is not y]
        for i, (x, y) in enumerate(diffs):
            self.go(x, y, facts, path + (a.op,))

    def trial(self, pairs, facts, path):
        d = Differ(max_splits=20, max_nodes=2000, vocab=self.vocab, bad=self.bad, words=self.words)
        for x, y in pairs:
            d.go(x, y, facts, path)
        if d.overflow:
            d.put(False, "overflow", pairs[0][0], pairs[0][1], facts, path)
        return d.out

    def loops(self, a, b, facts, path):
        n1, l1 = a.a[0], a.a[1]
        n2, l2 = b.a[0], b.a[1]
        rest1, rest2 = a.a[2:], b.a[2:]
        if n1 is not n2 or l1 != l2:
            g = mk("idx", mk("sym", "\u2203bound"), l1 + 1000 * len(path))
            m1, m2 = {mk("idx", n1, l1): g}, {mk("idx", n2, l2): g}
            rest1 = [subst(x, m1) for x in rest1]
            rest2 = [subst(x, m2) for x in rest2]
            if n1 is not n2:
                k = len(self.out)
                self.go(n1, n2, facts, path + ("bound",))
        for x, y in zip(rest1, rest2):
            if isinstance(x, T) and x is not y:
                self.go(x, y, facts, path + (a.op,))

    def calls(self, a, b, facts, path):
        if a.op == "new":
            if a.a[0] != b.a[0]:
                return self.put(rigidish(a) and rigidish(b) and shares(a, b), "constructs a different class", a, b, facts, path)
            ka = {x.a[0]: x.a[1] for x in a.a[1:]}
            kb = {x.a[0]: x.a[1] for x in b.a[1:]}
            return self.kwargs(a, b, ka, kb, "", facts, path)
        na, nb = callname(a), callname(b)
        if a.op == "call":
            full = a.a[0] != b.a[0]
            aa, ab, ka, kb = a.a[1], b.a[1], a.a[2], b.a[2]
        else:
            full = a.a[1] != b.a[1]
            aa, ab, ka, kb = a.a[2], b.a[2], a.a[3], b.a[3]
        if full:
            same_args = aa is ab and ka is kb and (a.op == "call" or a.a[0] is b.a[0])
            if contrast(a, b) and (same_args or shares(a, b)):
                return self.put(True, "operation differs", a, b, facts, path)
            w = wrapper(a, b) or None
            if w is not None:
                return self.put(not all(x in SOFT_WRAP for x in w), "operation dropped", a, b, facts, path)
            w = wrapper(b, a) or None
            if w is not None:
                return self.put(not all(x in SOFT_WRAP for x in w), "operation added", a, b, facts, path)
            return self.undecided("different callee", a, b, facts, path)
        if a.op == "mcall" and a.a[0] is not b.a[0]:
            self.go(a.a[0], b.a[0], facts, path + (na,))
        if aa is not ab:
            if len(aa.a) == len(ab.a):
                self.go(aa, ab, facts, path + (na,))
            else:
                self.undecided("argument count differs", a, b, facts, path)
                return
        if ka is not kb:
            self.kwargs(a, b, {x.a[0]: x.a[1] for x in ka.a}, {x.a[0]: x.a[1] for x in kb.a}, na, facts, path)

    def kwargs(self, a, b, ka, kb, fn, facts, path):
        for k in sorted(set(ka) | set(kb)):
            if k in ka and k in kb:
                continue
            v = ka.get(k, kb.get(k))
            if is_default(fn, k, v):
                continue
            hard = v.op != "const" or DEFAULTS.get(k, False) is not False
            self.put(hard, f"argument `{k}` " + ("missing" if k in ka else "added"), a, b, facts, path)
        common = [k for k in sorted(ka) if k in kb and ka[k] is not kb[k]]
        if len(common) > 1 and sorted(ka[k] for k in common) == sorted(kb[k] for k in common):
            return self.put(True, "arguments exchanged: " + ", ".join(common), a, b, facts, path)
        for k in common:
            self.go(ka[k], kb[k], facts, path + (f"{fn}.{k}",))

    def seqs(self, a, b, facts, path):
        xs, ys = list(a.a), list(b.a)
        if a.op == "store":
            return self.children(a, b, facts, path) if len(xs) == len(ys) else self.put(False, "store", a, b, facts, path)
        if a.op in ("min", "max", "setof"):
            if set(xs) < set(ys) or set(ys) < set(xs):
                return self.put(True, "operand " + ("added" if set(xs) < set(ys) else "dropped"), a, b, facts, path)
            return self.undecided("operands differ", a, b, facts, path)
        if len(xs) != len(ys):
            if subseq(xs, ys) or subseq(ys, xs):
                return self.put(a.op != "fmt", "element " + ("added" if len(ys) > len(xs) else "dropped"), a, b, facts, path)
            # align by common prefix/suffix
            return self.undecided("sequences of different length", a, b, facts, path)
        return self.children(a, b, facts, path)

    def polys(self, a, b, facts, path):
        p, q = poly_dict(a), poly_dict(b)
        l1 = {m: c for m, c in p.items() if q.get(m) != c}
        l2 = {m: c for m, c in q.items() if p.get(m) != c}
        ga = [x for m in list(l1) + list(l2) for x, _ in m if self.has_gamma(x)]
        if ga:
            c = self.gamma_atom(ga[0])
            if c is not None and c not in facts:
                return self.split(c, a, b, facts, path)
        if set(l1) & set(l2) and set(l1) == set(l2):
            return self.put(True, "coefficient differs", a, b, facts, path)
        # one differing factor
        if len(l1) == 1 and len(l2) == 1:
            (m1, c1), = l1.items()
            (m2, c2), = l2.items()
            f1 = [x for x, e in m1 for _ in range(e)] if all(e > 0 for _, e in m1) else None
            f2 = [x for x, e in m2 for _ in range(e)] if all(e > 0 for _, e in m2) else None
            if f1 is not None and f2 is not None:
                for x in list(f1):
                    if x in f2:
                        f1.remove(x)
                        f2.remove(x)
                if len(f1) == 1 and len(f2) == 1:
                    if c1 == c2:
                        return self.go(f1[0], f2[0], facts, path + ("factor",))
                    n0 = len(self.out)
                    self.go(f1[0], f2[0], facts, path + ("factor",))
                    return
                if all(rigid(x) for x in f1 + f2) or (not f1 or not f2):
                    return self.put(True, "factor differs", a, b, facts, path)
                if c1 == c2 and len(f1) == len(f2):
                    # pair the factors by their operation
                    h1, h2 = [head(x) for x in f1], [head(x) for x in f2]
                    if len(set(h1)) == len(h1) and set(h1) == set(h2):
                        for x, h in zip(f1, h1):
                            self.go(x, f2[h2.index(h)], facts, path + ("factor",))
                        return
            return self.undecided("polynomials not comparable", a, b, facts, path)
        atoms = [x for m in list(l1) + list(l2) for x, _ in m]
        if all(rigid(x) for x in atoms):
            return self.put(True, "expression differs", a, b, facts, path)
        if not l1 or not l2:
            # terms only added or only dropped
            return self.put(True, "summand " + ("added" if not l1 else "dropped"), a, b, facts, path)
        # same number of terms: pair them when unambiguous
        if len(l1) == len(l2) and len(l1) <= 4:
            used = set()
            pairs = []
            for m1, c1 in l1.items():
                cand = [m2 for m2, c2 in l2.items() if m2 not in used and len(m2) == len(m1) and [x.op for x, _ in m1] == [x.op for x, _ in m2]]
                if not cand:
                    pairs = None
                    break
                used.add(cand[0])
                pairs.append((m1, cand[0]))
            if pairs:
                for m1, m2 in pairs:
                    for (x, e), (y, f) in zip(m1, m2):
                        if x is not y:
                            self.go(x, y, facts, path + ("factor",))
                    if l1[m1] != l2[m2]:
                        self.put(True, "coefficient differs", a, b, facts, path)
                return
        self.undecided("polynomials not comparable", a, b, facts, path)


def assume_bool(t, f):
    """evaluate a formula under a complete assignment of its atoms, without rewriting inside the atoms"""
    if t.op == "const":
        return t
    if t in f:
        return const(f[t])
    if t.op == "not":
        return neg_b(assume_bool(t.a[0], f))
    if t.op == "and":
        return conj([assume_bool(x, f) for x in t.a])
    if t.op == "or":
        return disj([assume_bool(x, f) for x in t.a])
    if t.op == "ite":
        return ite(assume_bool(t.a[0], f), assume_bool(t.a[1], f), assume_bool(t.a[2], f))
    n = neg_b(t)
    if n in f:
        return const(not f[n])
    return t


def rigid_c(c):
    return all(rigid(x) for x in c.a if isinstance(x, T)) if c.op in ("eq", "ne", "lt", "le", "is", "isnot", "in", "notin") else c.op in ("attr", "sym", "isinstance", "mcall", "call", "exists", "hasattr")


def rigidish(t):
    return True


def numeric(t):
    return t.op in ("poly_", "mod", "floordiv", "len", "sum", "prefix", "inv", "pow", "const", "idx", "sym", "attr", "index", "cos", "sin", "sqrt", "abs", "floor", "ceil",
                    "int", "min", "max")


def head(t):
    """operation names down to the first argument that is an application"""
    out = [callname(t)]
    if t.op == "inv":
        out.append(callname(t.a[0]))
    if t.op == "attr":
        out.append(t.a[1] if isinstance(t.a[1], str) else "?")
    return tuple(out)


def tail(t):
    if t.op == "attr":
        return t.a[1]
    if t.op == "index":
        return ("ix", tail(t.a[0]))
    return t.op


def shares(a, b):
    """contrasting operations on comparable operands"""
    A = [x for x in a.a if isinstance(x, T)]
    B = [x for x in b.a if isinstance(x, T)]
    if not A or not B:
        return False
    if any(x is y and x.op != "kws" and not (x.op == "tuple" and not x.a) for x in A for y in B):
        return True
    return any(set(leaves(x)) & set(leaves(y)) for x in A for y in B)


def leaves(t):
    return [x for x in walk(t) if x.op in ("sym",)]


def subseq(xs, ys):
    """xs is ys with some elements removed"""
    it = iter(ys)
    return all(any(x is y for y in it) for x in xs)


UNORDERED = {"set", "setof", "sum", "sumof", "minof", "maxof", "any", "all", "exists", "sorted", "dictmap", "dict", "len", "bound", "in", "notin", "dupdate"}


def reorders(a, b, w, path):
    """a list given by the user is (no longer) sorted or reversed where its order matters"""
    if not any(x in ("sorted", "reversed") for x in w) or any(p in UNORDERED for p in path):
        return False
    base = a if size(a) < size(b) else b
    return base.op in ("attr", "sym") and base.a[-1] in ("representations", "irreps", "labels", "tensors", "reprs", "modules", "_modules", "index", "permutation")


def wrapper(big, small, depth=3):
    """operations around `small` inside `big` (outermost first), or None"""
    if depth == 0 or big.op in ("const", "sym"):
        return None
    for x in big.a:
        if not isinstance(x, T):
            continue
        if x is small:
            return [callname(big)]
    for x in big.a:
        if isinstance(x, T) and x.op not in ("const", "sym"):
            r = wrapper(x, small, depth - 1)
            if r is not None:
                if big.op in ("tuple", "kw", "kws", "mono", "pw") or x.op in ("kws",):
                    return [callname(big)] + r if big.op not in ("tuple", "kw", "kws", "mono", "pw") else r
                return [callname(big)] + r
    return None


def sat(facts, bad, fuel):
    """extend the facts to an assignment under which every formula of `bad` is false"""
    left = []
    for b in bad:
        x = assume_bool(b, facts)
        tv = truth(x)
        if tv is True:
            return False
        if tv is None:
            left.append(x)
    small = [x for x in left if len(set(atoms_of_cond(x))) <= 2]
    if not small:
        return True
    fuel[0] -= 1
    if fuel[0] < 0:
        return True
    x = min(small, key=lambda t: len(set(atoms_of_cond(t))))
    c = atoms_of_cond(x)[0]
    for v in (False, True):
        f = dict(facts)
        f[c] = v
        if feasible(f) and sat(f, bad, fuel):
            return True
    return False


LOOPY = {"fold", "loop", "while", "accat", "acc", "accx", "map", "filtermap", "flatmap", "dictmap", "prefix", "sum", "exists", "last", "first", "prev", "partial", "each",
         "listof", "dictof", "carried", "undef", "dkeys", "dvalues", "ditems", "sorted", "concat", "dstore", "store", "setof", "repeat", "listop", "ddict", "minof", "maxof", "sumof",
         "star", "bmeth", "lam", "rangelen", "tupleof", "set", "union", "strformat", "fmt", "join", "zip", "enumerate", "reversed", "arange", "range"}
PLAIN = {"const", "sym", "tuple", "list", "poly_", "mono", "pw", "inv", "kw", "kws", "eq", "ne", "lt", "le", "and", "or", "not", "ite", "idx", "slice", "is", "isnot", "in", "notin",
         "eff", "kv", "dict", "len", "index", "attr", "mod", "floordiv", "abs", "min", "max", "exists"}


def loopy(t):
    return t.op in LOOPY


def words(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = set()
        for x in walk(t):
            if x.op == "attr":
                r.add(("." , x.a[1]) if isinstance(x.a[1], str) else ".")
            elif x.op == "new":
                r.add(("new", x.a[0]))
            elif x.op in ("ext", "func", "class", "global"):
                r.add((x.op, x.a[0]))
            elif x.op not in PLAIN:
                r.add(callname(x))
        r = frozenset(r)
        if len(memo) > 200000:
            memo.clear()
        memo[t] = r
    return r


def obs_words(o):
    r = set()
    for t in obs_terms(o):
        r |= words(t)
    return r


def obs_terms(o):
    if o.ret is not None:
        yield o.ret
    yield from o.attrs.values()
    for f, _, _ in o.fails:
        yield f
    for _, t, _ in o.effects:
        yield t
    yield from o.base.values()


def diff(ref, cur, facts=None, vocab=None, bad=(), words=None):
    if vocab is None:
        vocab = set(walk(ref))
    d = Differ(vocab=vocab, bad=bad, stop=True, words=words)
    d.run(ref, cur, facts)
    if d.overflow and not any(not m.hard for m in d.out):
        d.stop = False
        d.put(False, "comparison too large", ref, cur, {}, ())
    return d.out


# ------------------------------------------------------------------------------------------ whole observations

class Finding:
    def __init__(self, hard, what, loc, detail, ms=(), pair=None):
        self.hard, self.what, self.loc, self.detail, self.ms, self.pair = hard, what, loc, detail, ms, pair

    def __repr__(self):
        return f"{'HARD' if self.hard else 'soft'} {self.what} @ {self.loc}: {self.detail}"


def verdict(ms):
    """a comparison refutes only if every disagreement is understood"""
    if not ms:
        return None
    return all(m.hard for m in ms)


def equalities(o):
    """x == y enforced by an unconditional check: y may stand for x"""
    m = {}
    for f, exc, g in o.fails:
        if f.op == "ne":
            a, b = f.a
            if a.op in ("attr", "sym") and b.op in ("attr", "sym"):
                m[f] = (a, b) if size(a) > size(b) or (size(a) == size(b) and a.digest > b.digest) else (b, a)
    return m


INSTANCES = True


def compare(ref, cur, what=("ret", "attrs", "fails", "effects"), public_only=True):
    out = []
    inst = None
    if ref.status == "ok" and cur.status == "ok":
        ea, eb = equalities(ref), equalities(cur)
        m = {v[0]: v[1] for k, v in ea.items() if k in eb}
        if m:
            from .observe import Obs
            def sub_(o):
                n = Obs()
                n.__dict__.update(o.__dict__)
                n.ret = subst(o.ret, m)
                n.attrs = {k: subst(v, m) for k, v in o.attrs.items()}
                n.effects = [(k, subst(t, m), e) for k, t, e in o.effects]
                return n
            ref, cur = sub_(ref), sub_(cur)
    if ref.status != "ok" or cur.status != "ok":
        return [Finding(False, "analysis bounded", "", f"{ref.status}/{cur.status}")]
    bad = [f for f, _, _ in ref.fails] + [f for f, _, _ in cur.fails] + list(ref.pre)
    bad = list(dict.fromkeys(x for b in bad for x in dnf(b)))[:60]
    ww = obs_words(ref)
    vv = set()
    for t in obs_terms(ref):
        vv |= set(walk(t))
    lazy = []

    def judge(a, b, ms, norm=None):
        """verdict of the structural comparison, refined on instances when it is undecided"""
        v = verdict(ms) if ms != "?" else False
        if ms == "?":
            ms = []
        if v is None or not INSTANCES:
            return v, first(ms) if ms else ""
        from .ground import Instances
        if not lazy:
            lazy.append(Instances(ref, cur, bad))
        if v:
            n = lazy[0].refuted(a, b, ms)
            if n:
                return False, first(ms) + f" [both sides agree on {n} instances of this case]"
            return v, first(ms)
        if len(lazy) < 2:
            lazy.append(list(lazy[0].accepted()))
        w, text, n = lazy[0].differ(a, b, lazy[1], norm)
        if not w and ms:
            # instances of the case the structural comparison stumbled over
            done = set()
            for m in ms[:6]:
                extra = lazy[0].under(m.facts)
                if not extra or frozenset(extra) in done or len(done) == 2:
                    continue
                done.add(frozenset(extra))
                w2, text2, n2 = lazy[0].differ(a, b, list(lazy[0].accepted(extra=extra, seconds=4.0, want=60)), norm)
                n += n2
                if w2:
                    return True, text2
        if w:
            return True, text
        return False, (first(ms) if ms else "") + f" [{n} instances: {'no difference' if w is None else text}]"
    if "ret" in what and ref.ret is not cur.ret:
        if cur.ret is None:
            out.append(Finding(False, "missing", "", ""))
        else:
            ms = diff(ref.ret, cur.ret, bad=bad, vocab=vv, words=ww)
            v, text = judge(ref.ret, cur.ret, ms)
            if v is not None:
                out.append(Finding(v, "returned value", "", text, ms, (ref.ret, cur.ret)))
    for k, v in ref.defaults.items():
        w = cur.defaults.get(k)
        if w is None:
            if k in cur.params:
                out.append(Finding(True, f"default of `{k}`", "", f"expected {short(v)}, now required"))
        elif w is not v:
            ms = diff(v, w)
            out.append(Finding(bool(ms) and all(m.hard for m in ms), f"default of `{k}`", "", f"expected {short(v)}, found {short(w)}"))
    if "attrs" in what:
        for k in sorted(set(ref.attrs) & set(cur.attrs)):
            if public_only and k.startswith("_"):
                continue
            a, b = ref.attrs[k], cur.attrs[k]
            if a is b:
                continue
            ms = diff(a, b, bad=bad, vocab=vv, words=ww)
            v, text = judge(a, b, ms)
            if v is not None:
                out.append(Finding(v, f"attribute {k}", "", text, ms, (a, b)))
        for k in sorted(set(ref.attrs) - set(cur.attrs)):
            if not k.startswith("_"):
                out.append(Finding(True, f"attribute {k}", "", "no longer assigned"))
    if "fails" in what:
        fs = compare_fails(ref, cur, vv, ww)
        if fs and INSTANCES:
            h = judge_fails(ref, cur)
            if h is not None:
                fs = [h]
            elif any(f.hard for f in fs) and (covered(ref, cur) or not all(simple(f) for f in fs)):
                for f in fs:
                    f.hard = False
        out += fs
    if "effects" in what:
        out += compare_effects(ref, cur, bad, vv, ww, judge)
    return out


def first(ms):
    ms = sorted(ms, key=lambda m: (m.hard, ))
    return ms[0].text() + (f" (+{len(ms) - 1} more)" if len(ms) > 1 else "")


def dnf(f, cap=24):
    """disjuncts of a failure formula (existentials distribute over `or`)"""
    if f.op == "or":
        out = []
        for x in f.a:
            out += dnf(x, cap)
        return out[:200]
    if f.op == "exists":
        return [mk("exists", f.a[0], f.a[1], x) if contains_term(x, mk("idx", f.a[0], f.a[1])) else conj([x, cmp("lt", ZERO, f.a[0])]) for x in dnf(f.a[2], cap)]
    if f.op == "ite":
        c, x, y = f.a
        return dnf(conj([c, x]), cap) + dnf(conj([neg_b(c), y]), cap)
    if f.op == "and":
        for i, x in enumerate(f.a):
            if x.op in ("or", "ite"):
                rest = list(f.a[:i]) + list(f.a[i + 1:])
                parts = dnf(x, cap)
                if len(parts) > cap:
                    return [f]
                out = []
                for y in parts:
                    out += dnf(conj(rest + [y]), cap)
                return out
    if truth(f) is False:
        return []
    return [f]


def compare_fails(ref, cur, vv=None, ww=None):
    old = TM.FUEL[0]
    TM.FUEL[0] = FUEL_PER_DIFF
    try:
        return compare_fails1(ref, cur, vv, ww)
    except (TM.Exhausted, RecursionError, Stop):
        return [Finding(False, "check changed", "", "comparison too large")]
    finally:
        TM.FUEL[0] = old


def judge_fails(ref, cur):
    """an input that one side rejects and the other accepts"""
    from .ground import Instances, Undefined, Unsupported
    R = {f: e for f, e, _ in ref.fails}
    C = {f: e for f, e, _ in cur.fails}
    lr, lc = [f for f in R if f not in C], [f for f in C if f not in R]
    W = obs_words(ref)
    if any(not words(f) <= W for f in lc):
        return None
    for ours, theirs, text in ((lr, C, "no longer rejected"), (lc, R, "rejected although valid")):
        only = lc if ours is lr else lr
        bad = list(dict.fromkeys(x for b in list(theirs) + list(ref.pre) for x in dnf(b)))[:60]
        if not ours or len(bad) > 59:
            continue
        I = Instances(ref, cur, bad)
        n = 0
        for f in ours:
            if I.total > 6:
                break
            for s in I.accepted(extra=[neg_b(f)], seconds=2.0, want=6):
                try:
                    v = I.fresh(s)
                    if not v.truth(f) or I.violated(v, bad):
                        continue
                    t1, t2 = I.taints(s, ours), I.taints(s, only)
                    if t1 is None or t2 is None or not t2[0] <= t1[0] or t1[0] != t2[0] and not t2[1] <= t1[1]:
                        continue
                    t1 = t1[0]
                    if ours is lc:
                        if t1 or not plain(f) or ref.ret is None:
                            continue
                        I.fresh(s).g(ref.ret)
                except (Undefined, Unsupported, RecursionError):
                    continue
                n += 1
                if n >= 3:
                    return Finding(True, "check changed", "", f"inputs with `{short(f)}` are {text}")
    return None


def simple(f):
    """a changed check whose difference needs no confirmation on an instance"""
    if not f.hard or f.what != "check changed":
        return True
    return all(size(m.ref, 80) < 80 and size(m.cur, 80) < 80 and not any(loopy(x) for t in (m.ref, m.cur) for x in walk(t)) for m in f.ms)


def covered(ref, cur):
    """every instance of a rejection that has no counterpart is rejected by the other side"""
    from .ground import Instances, Undefined, Unsupported
    R = [f for f, _, _ in ref.fails]
    C = [f for f, _, _ in cur.fails]
    for ours, theirs in ((R, C), (C, R)):
        I = Instances(ref, cur, [])
        for f in ours:
            if f in theirs:
                continue
            k = 0
            for s in I.accepted(extra=[neg_b(f)], seconds=3.0, want=30, defined=False):
                v = I.fresh(s)
                try:
                    if not v.truth(f):
                        continue
                except (Undefined, Unsupported, RecursionError):
                    continue
                hit = False
                for g in theirs:
                    try:
                        hit = hit or v.truth(g)
                    except (Undefined, Unsupported, RecursionError):
                        return False
                if not hit:
                    return False
                k += 1
            if k < 12:
                return False
    return True


def plain(f):
    """a condition on numbers, strings and lengths only"""
    for x in walk(f):
        if x.op in ("isinstance", "is", "isnot", "call", "meth", "in", "notin"):
            return False
    return True


def compare_fails1(ref, cur, vv=None, ww=None):
    def parts(o):
        r = {}
        for f, exc, g in o.fails:
            for x in dnf(f):
                r.setdefault(x, (x, exc, g))
        return r
    if {f for f, _, _ in ref.fails} == {f for f, _, _ in cur.fails}:
        return []
    R, C = absorb(parts(ref)), absorb(parts(cur))
    A = disj(list(R))
    B = disj(list(C))
    if A is B:
        return []
    lr = [x for f, x in R.items() if f not in C and not any(implies(f, g) for g in C)]
    lc = [x for f, x in C.items() if f not in R and not any(implies(f, g) for g in R)]
    if lr or lc:
        # case analysis: a rejection may be covered by several others together
        lr = [x for x in lr if not entails(x[0], list(C))]
        lc = [x for x in lc if not entails(x[0], list(R))]
    if not lr and not lc:
        return []
    out = []
    if lr and not lc:
        for f, exc, g in lr:
            # a check that is now weaker (additional condition) or gone
            weaker = [h for h in C if implies(h, f)]
            out.append(Finding(True, "check weakened" if weaker else "check dropped", loc(g), f"inputs with `{short(f)}` are no longer rejected ({exc})"))
        return out
    if not lr:
        out.append(Finding(False, "check added", loc(lc[0][2]), short(lc[0][0])))
        return out
    # pair the remaining formulas when unambiguous
    if len(lr) <= 6 and len(lc) <= 6:
        d = Differ(vocab=vv, words=ww)
        d.go_cond(disj([x[0] for x in lr]), disj([x[0] for x in lc]), {}, ())
        best = d.out if not d.overflow else None
        if len(lr) == len(lc):
            pairs, left = [], list(lc)
            for f, exc, g in lr:
                best1 = None
                for h in left:
                    e = Differ(max_splits=30, max_nodes=3000, vocab=vv, words=ww)
                    e.go_cond(f, h[0], {}, ())
                    if e.overflow:
                        continue
                    k = (sum(not m.hard for m in e.out), len(e.out))
                    if best1 is None or k < best1[0]:
                        best1 = (k, h, e.out)
                if best1 is None:
                    pairs = None
                    break
                left.remove(best1[1])
                pairs.append(best1)
            if pairs is not None and all(p[0][0] == 0 for p in pairs):
                ms = [m for p in pairs for m in p[2]]
                if not ms:
                    return []
                best = ms
        if best is not None and best:
            v = all(m.hard for m in best)
            out.append(Finding(v, "check changed", loc(lc[0][2]), first(best), best))
            return out
        if best is not None:
            return []
    out.append(Finding(False, "check changed", loc(lr[0][2]), short(lr[0][0])))
    return out


def entails(f, gs, fuel=200):
    """every input satisfying f satisfies one of gs (propositional case analysis with the atom theory)"""
    mine = set(atoms_of_cond(f))
    gs = [g for g in gs if set(atoms_of_cond(g)) & mine] if not (f.op == "exists") else gs
    if f.op == "exists":
        pre, b = peel(f)
        hs = []
        for g in gs:
            q, c = peel(g)
            if q == pre:
                hs.append(c)
            elif not q:
                hs.append(g)
        return bool(hs) and entails(b, hs, fuel)
    start = {}
    if f.op == "and":
        for x in f.a:
            if x.op == "not":
                start[x.a[0]] = False
            elif x.op in ("or", "and", "ite"):
                return False
            else:
                start[x] = True
    elif f.op == "not":
        start[f.a[0]] = False
    elif f.op in ("or", "ite"):
        return False
    else:
        start[f] = True
    left = [fuel]

    def unsat(facts):
        """no input satisfies the facts and falsifies all of gs"""
        if not feasible(facts):
            return True
        left[0] -= 1
        if left[0] < 0:
            return False
        open_ = None
        for g in gs:
            x = assume_bool(g, facts)
            tv = truth(x)
            if tv is True:
                return True
            if tv is None:
                a = atoms_of_cond(x)
                if open_ is None or len(a) < len(open_):
                    open_ = a
        if not open_:
            return False
        c = open_[0]
        if c in facts:
            return False
        return unsat({**facts, c: True}) and unsat({**facts, c: False})
    return unsat(start)


def peel(f):
    pre = []
    while f.op == "exists":
        pre.append((f.a[0], f.a[1]))
        f = f.a[2]
    return tuple(pre), f


def absorb(R):
    """u or (not u and x)  =  u or x   (also below the same quantifiers)"""
    units = {}
    for f in R:
        pre, b = peel(f)
        units.setdefault(b, set()).add(pre)
    out = {}
    for f, (_, exc, g) in R.items():
        pre, b = peel(f)
        if b.op == "and":
            keep = []
            for k in b.a:
                u = units.get(neg_b(k))
                if u and any(set(q) <= set(pre) for q in u):
                    continue
                keep.append(k)
            if len(keep) < len(b.a) and keep:
                b = conj(keep)
                for n, lvl in reversed(pre):
                    ix = mk("idx", n, lvl)
                    b = mk("exists", n, lvl, b) if contains_term(b, ix) else conj([b, cmp("lt", ZERO, n)]) if not is_num(n) else b
                f = b
        out.setdefault(f, (f, exc, g))
    return out


def implies(f, g):
    """f -> g by inclusion of conjuncts"""
    if f is g:
        return True
    F = set(f.a) if f.op == "and" else {f}
    G = set(g.a) if g.op == "and" else {g}
    return G <= F


def loc(e):
    try:
        return e.loc
    except Exception:
        return "?"


KINDS = ("mutate", "buffer", "param", "module", "delattr", "setglobal", "setattr", "stmt", "augname")


def compare_effects(ref, cur, bad=(), vv=None, ww=None, judge=None):
    out = []
    for kind in KINDS:
        R = [x for x in ref.effects if x[0] == kind]
        C = [x for x in cur.effects if x[0] == kind]
        rt, ct = [x[1] for x in R], [x[1] for x in C]
        lr, lc = list(R), list(C)
        for t in list(rt):
            if t in ct:
                ct.remove(t)
                lr.remove(next(x for x in lr if x[1] is t))
                lc.remove(next(x for x in lc if x[1] is t))
        if not lr and not lc:
            continue
        fs = []
        if lr and not lc:
            for k, t, e in lr:
                fs.append(Finding(kind in ("buffer", "param", "module", "delattr", "mutate", "stmt"), f"effect {kind} dropped", loc(e), short(t)))
        elif len(lr) == len(lc):
            for (k, t, e), (k2, t2, e2) in zip(lr, lc):
                ms = diff(t, t2, bad=bad, vocab=vv, words=ww)
                v = verdict(ms)
                if v is not None:
                    fs.append(Finding(v, f"effect {kind}", loc(e2), first(ms), ms, (t, t2)))
        elif lc and not lr:
            for k, t, e in lc:
                fs.append(Finding(False, f"effect {kind} added", loc(e), short(t)))
        else:
            fs.append(Finding(False, f"effects {kind} differ", loc(lc[0][2]), ""))
        if judge is not None and fs and kind in ("buffer", "param", "module", "delattr", "mutate", "setattr") and not any(f.hard for f in fs):
            v, text = judge_effects(lr, lc, kind, judge)
            v = v and not any(y.op == "listret" for x in lc for y in walk(x[1]))
            fs = [Finding(v, f"effects {kind}", loc((lc or lr)[0][2]), text + " | " + fs[0].detail, fs[0].ms, fs[0].pair)]
        out += fs
    return out


def judge_effects(lr, lc, kind, judge):
    from .ground import Instances
    a, b, norm = Instances.effects(None, [x[1] for x in lr], [x[1] for x in lc], kind != "mutate")
    return judge(a, b, "?", norm)
