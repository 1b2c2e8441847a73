"""Random interpretation of value graphs (in the sense of Gulwani and Necula).

Two summaries that are not syntactically equal after normalisation are compared on instantiations:
the free symbols of both graphs receive the same small values (lengths, sizes, options, branch
outcomes), the binders (maps, folds, prefix sums, existential checks) are expanded, the gamma nodes are
resolved and interpreted operators are evaluated.  Uninterpreted operators (torch, numpy, opaque
methods) stay as constructors.  What remains are two finite trees whose disagreement is judged by the
rules of compare.py.  Nothing of the analysed program is executed: only its summary terms are rewritten.

A decision taken on an uninterpreted condition is *tainted*; if only one of the two sides takes it, the
instantiation proves nothing.
"""
import hashlib, math, time
from fractions import Fraction
from .terms import *
from . import terms as TM
from . import layout as L

POOLED = {"representations", "irreps", "reprs", "labels", "in_representations", "out_representations"}
SCALAR_M = {"order", "dimension", "numel", "dim", "size", "bit_length"}
CHAIN = ("sym", "attr", "index", "dkey", "dval", "len", "global")
BOTTOM = mk("bottom")


RATE = 150000.0     # evaluation steps that count as one second: budgets do not depend on the load of the machine
WORK = [0]


def clock():
    return WORK[0] / RATE


class Undefined(Exception):
    pass


class Unsupported(Exception):
    pass


def tail(t):
    if t.op == "attr":
        return t.a[1] if isinstance(t.a[1], str) else "?"
    if t.op == "sym":
        return t.a[0]
    if t.op in ("index", "dkey", "dval"):
        return "#" + str(tail(t.a[0]))
    if t.op == "len":
        return "len " + str(tail(t.a[0]))
    return t.op


def tails(t, depth=0):
    """tails of the symbols a term may denote (case distinctions, lists of them, loop-carried copies)"""
    if depth > 6:
        return set()
    if t.op == "ite":
        return tails(t.a[1], depth + 1) | tails(t.a[2], depth + 1)
    if t.op == "len":
        return {"len " + str(x) for x in tails(t.a[0], depth + 1)}
    if t.op in ("index", "dkey", "dval"):
        b = t.a[0]
        if b.op in ("list", "tuple"):
            return set().union(*[tails(x, depth + 1) for x in b.a])
        if b.op == "ite":
            return tails(index(b.a[1], t.a[1]), depth + 1) | tails(index(b.a[2], t.a[1]), depth + 1)
        while b.op == "accat":
            b = b.a[0]
        if b.op in ("fold", "flatmap", "filtermap", "concat", "map"):
            out = set()
            for x in walk(b):
                if x.op == "list":
                    for y in x.a:
                        out |= tails(y, depth + 2)
            if b.op == "fold":
                out |= {"#" + str(x) for x in tails(b.a[2], depth + 2)}
            return {y for y in out if not y in ("const", "poly_", "slice")}
        return {"#" + str(x) for x in tails(b, depth + 1)}
    if t.op in ("accat", "listof", "tupleof", "store", "sorted"):
        return tails(t.a[0], depth + 1)
    if t.op == "fold":
        return tails(t.a[2], depth + 1)
    return {tail(t)}


_SHAPE = {}


def shape(t):
    """the term with loop indices erased"""
    r = _SHAPE.get(t)
    if r is None:
        if t.op == "idx":
            r = mk("idx_")
        elif t.op in ("index", "dkey", "dval") and isinstance(t.a[1], T) and (t.a[1].op == "idx" or is_num(t.a[1])):
            r = mk(t.op, shape(t.a[0]), mk("idx_"))
        elif not any(isinstance(x, T) for x in t.a):
            r = t
        else:
            r = mk(t.op, *[shape(x) if isinstance(x, T) else x for x in t.a])
        _SHAPE[t] = r
    return r


_FREE = {}


def free(t):
    """binder variables a term depends on"""
    r = _FREE.get(t)
    if r is not None:
        return r
    if t.op == "idx":
        r = frozenset([t])
    elif t.op == "acc":
        r = frozenset([("acc", t.a[0])])
    elif t.op == "const":
        r = frozenset()
    elif t.op in ("map", "filtermap", "flatmap", "sum", "exists", "each", "dictmap", "last", "first", "fold", "loop"):
        n, lvl = t.a[0], t.a[1]
        own = {mk("idx", n, lvl), ("acc", lvl)}
        s = set()
        for x in t.a[2:]:
            s |= free(x)
        s -= own
        r = frozenset(s | free(n))
        if t.op in ("fold", "loop"):
            r |= free(t.a[2])
    elif t.op in ("prefix", "prev", "partial"):
        n, lvl = t.a[0], t.a[1]
        s = {mk("idx", n, lvl)} | free(n)
        for x in t.a[2:]:
            s |= free(x)
        r = frozenset(s)
    elif t.op == "accat":
        f = t.a[0]
        r = free(f) | (frozenset([mk("idx", f.a[0], f.a[1])]) if f.op in ("fold", "loop") else frozenset())
    else:
        s = set()
        for x in t.a:
            if isinstance(x, T):
                s |= free(x)
        r = frozenset(s)
    _FREE[t] = r
    return r


def is_chain(t):
    while True:
        if t.op in ("sym", "global"):
            return t is not PI and not (isinstance(t.a[0], str) and t.a[0].startswith("\u03bb"))
        if t.op in ("attr", "index", "dkey", "dval", "len"):
            if t.op == "index" and not (t.a[1].op == "const" or is_chain(t.a[1])):
                return False
            t = t.a[0]
            continue
        return False


class Tests:
    """what the graphs ask about each symbol: candidate kinds and constants"""

    def __init__(self, roots):
        self.none, self.classes, self.strs, self.nums, self.lens = set(), {}, {}, {}, set()
        seen = set()
        for r in roots:
            for t in walk(r, seen):
                if t.op == "len":
                    self.lens |= tails(t.a[0])
                elif t.op in ("is", "isnot") and t.a[1] is NONE:
                    self.none |= tails(t.a[0])
                elif t.op == "isinstance":
                    c = t.a[1]
                    for k in ([c] if isinstance(c, str) else [x for x in (c.a if c.op in ("tuple", "list") else [c])] if isinstance(c, T) else []):
                        for tl in tails(t.a[0]):
                            self.classes.setdefault(tl, set()).add(k if isinstance(k, str) else (strval(k) or show(k)))
                elif t.op in ("eq", "ne", "lt", "le", "mod", "floordiv"):
                    for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                        if x.op == "const":
                            if is_str(x):
                                for tl in tails(y):
                                    self.strs.setdefault(tl, set()).add(x.a[1])
                            elif is_num(x) and y.op != "const":
                                for z in atoms(y):
                                    for tl in tails(z):
                                        self.nums.setdefault(tl, set()).add(numval(x))
                elif t.op in ("in", "notin") and t.a[1].op in ("list", "tuple", "setof"):
                    for x in t.a[1].a:
                        if is_str(x):
                            self.strs.setdefault(tail(t.a[0]), set()).add(x.a[1])
                        elif is_num(x):
                            self.nums.setdefault(tail(t.a[0]), set()).add(numval(x))


def atoms(t):
    if t.op == "poly_":
        return [x for m in poly_dict(t) for x, _ in m]
    if t.op in ("mod", "floordiv", "abs", "int"):
        return atoms(t.a[0])
    return [t]


class Val:
    """one instantiation"""

    def __init__(self, seed, tests, forced=None, fuel=200000, over=None):
        self.seed, self.tests = seed, tests
        self.over = over or {}
        self.rich = seed % 2 == 0      # every other instantiation: options given, long lists, few distinct sizes
        self.log = None
        self.forced = forced or {}
        self.memo = {}
        self.fuel = fuel
        self.taint = set()
        self.kinds = {}
        self.numbers = {}
        self.bits = {}

    def h(self, *key):
        x = hashlib.blake2b(digest_size=6)
        x.update(str(self.seed).encode())
        for k in key:
            x.update(b"|")
            x.update(k.digest if isinstance(k, T) else str(k).encode())
        return int.from_bytes(x.digest(), "big")

    # ------------------------------------------------------------------ symbols
    def kind(self, t):
        if self.log is not None:
            self.log[("kind", t)] = True
        r = self.kinds.get(t)
        if r is None and ("kind", t) in self.over:
            r = self.kinds[t] = self.over["kind", t]
        if r is None:
            tl = tail(t)
            f = self.forced.get(("kind", tl))
            opts = []
            if tl in self.tests.none and not self.forced.get(("notnone", tl)):
                opts.append("none")
            cl = sorted(self.tests.classes.get(tl, ()))
            opts += cl if not f else [f]
            if tl in self.tests.strs and (not cl or "str" in cl):
                opts.append("str")
            if not f and not self.forced.get(("str", tl)) and not (len(cl) > 1 and self.h("odd", t) % 5):
                opts.append("other")
            if self.rich and "none" in opts and len(opts) > 1 and self.h("some", t) % 4:
                opts.remove("none")
            r = opts[self.h("kind", t) % len(opts)] if opts else "other"
            self.kinds[t] = r
        return r

    def options(self, t):
        tl = tail(t)
        cl = sorted(self.tests.classes.get(tl, ()))
        return (["none"] if tl in self.tests.none else []) + cl + (["str"] if tl in self.tests.strs else []) + ["other"]

    def base(self, t):
        if t.op == "sym" and isinstance(t.a[0], str) and t.a[0].startswith("\u03bb"):
            return t
        k = self.kind(t)
        if k == "none":
            return NONE
        if k == "str":
            o = sorted(self.tests.strs.get(tail(t), ()))
            if o:
                if self.log is not None:
                    self.log[("str", t)] = True
                if ("str", t) in self.over:
                    return const(self.over["str", t])
                return const(o[self.h("str", t) % len(o)])
        return t

    def number(self, t):
        """number of an uninterpreted scalar"""
        if self.log is not None:
            self.log[("num", t)] = True
        r = self.numbers.get(t)
        if r is None and ("num", t) in self.over:
            r = self.numbers[t] = self.over["num", t]
        if r is None:
            tl = tail(t)
            if t.op == "len":
                pool = [1, 2, 3, 2, 3, 4]
                if self.rich:
                    pool = [[4, 5, 6, 6][self.h("same length") % 4]]
                elif self.h("same") & 1:
                    pool = [[2, 3, 4, 5, 6, 6][self.h("same length") % 6]]
            else:
                pool = [1, 2, 3, 2, 4] if not self.rich else [1, 2]
            extra = sorted(self.tests.nums.get(tl, ()))
            extra = [x for x in extra if abs(x) <= 20]
            pool = [Fraction(x) for x in pool] + extra + [x + 1 for x in extra][:2] + ([Fraction(-1)] if 0 in extra and t.op != "len" else [])
            r = pool[self.h("num", t) % len(pool)]
            if t.op == "len" and (r < 0 or r.denominator != 1 or r > 8):
                r = Fraction(2)
            k = self.kind(t)
            if k == "int" and r.denominator != 1:
                r = Fraction(1)
            self.numbers[t] = r
        return r

    def numify(self, v):
        """a term usable in arithmetic: constants for scalars, the term itself for opaque values"""
        if v.op == "const":
            if v.a[0] == "bool":
                return ONE if v.a[1] else ZERO
            return v
        if v.op == "len" and not is_chain(v.a[0]):
            self.taint.add(v)
        if is_chain(v) or v.op == "len" or (v.op == "mcall" and v.a[1] in SCALAR_M):
            return num(self.number(v))
        return v

    def tonum(self, v):
        v = self.numify(v)
        if is_num(v):
            return numval(v)
        return None

    def flt(self, v):
        """float of a polynomial in pi"""
        if is_num(v):
            return float(numval(v))
        s = 0.0
        for m, c in poly_dict(v).items():
            p = float(c)
            for x, e in m:
                if x is PI:
                    p *= math.pi ** e
                elif x.op == "inv" and x.a[0] is PI:
                    p *= math.pi ** -e
                else:
                    return None
            s += p
        return s

    def bit(self, c, taint):
        if self.log is not None:
            self.log[("bit", c)] = True
        f = self.forced.get(("bit", shape(c))) if ("bit", c) not in self.over else None
        if f is not None:
            return f
        if taint:
            self.taint.add(c)
        r = self.bits.get(c)
        if r is None and ("bit", c) in self.over:
            r = self.bits[c] = self.over["bit", c]
        if r is None:
            r = self.bits[c] = bool(self.h("bit", c) & 1)
        return r

    # ------------------------------------------------------------------ evaluation
    def g(self, t, env=None):
        env = env if env is not None else {}
        if t.op == "const":
            return t
        fr = free(t)
        key = (t,) if not fr else (t,) + tuple(sorted(((str(k) if not isinstance(k, T) else k.digest.hex()), env[k].digest if isinstance(env.get(k), T) else str(env.get(k))) for k in fr))
        r = self.memo.get(key)
        if r is None:
            self.fuel -= 1
            WORK[0] += 1
            if self.fuel < 0:
                raise Unsupported("too large")
            r = self.g1(t, env)
            self.memo[key] = r
        return r

    def truth(self, t, env=None):
        env = env if env is not None else {}
        o = t.op
        if o == "and":
            return all(self.truth(x, env) for x in t.a)
        if o == "or":
            return any(self.truth(x, env) for x in t.a)
        if o == "not":
            return not self.truth(t.a[0], env)
        v = self.g(t, env)
        return self.tv(v)

    def tv(self, v):
        if v.op == "const":
            k, x = v.a
            return x[0] != 0 if k == "num" else bool(x)
        if v.op in ("list", "tuple", "dict", "setof"):
            return len(v.a) > 0
        if v.op == "ddict":
            return len(v.a) > 1
        if v.op in ("new", "func", "class", "lam"):
            return True
        if v.op == "not":
            return not self.tv(v.a[0])
        if is_chain(v):
            if tail(v) in self.tests.lens:
                return self.number(mk("len", v)) > 0
            if tail(v) in self.tests.nums:
                return self.number(v) != 0
        return self.bit(v, not is_chain(v))

    def count(self, n, env):
        v = self.g(n, env)
        k = self.tonum(v)
        if k is None:
            if v.op == "poly_":
                f = self.flt(v)
                if f is not None:
                    return max(0, int(f))
            self.taint.add(v)
            k = Fraction([1, 2, 3][self.h("count", v) % 3])
        if k.denominator != 1:
            raise Undefined
        if k > 40:
            raise Unsupported("large count")
        return max(0, int(k))

    def each(self, n, lvl, env):
        ix = mk("idx", n, lvl)
        for k in range(self.count(n, env)):
            e = dict(env)
            e[ix] = num(k)
            yield e

    def now(self, n, lvl, env):
        v = env.get(mk("idx", n, lvl))
        if v is None:
            raise Unsupported("free index")
        return int(numval(v))

    def acc_run(self, f, rounds, env):
        """value of a fold/loop after `rounds` rounds"""
        n, lvl = f.a[0], f.a[1]
        ix = mk("idx", n, lvl)
        v = self.g(f.a[2], env)
        for k in range(rounds):
            e = dict(env)
            e[ix] = num(k)
            e[("acc", lvl)] = v
            if f.op == "loop":
                if self.truth(f.a[4], e):
                    return self.g(f.a[5], e)
            v = self.g(f.a[3], e)
        return v

    def seq(self, v):
        """elements of a ground sequence, None if opaque"""
        if v.op in ("list", "tuple"):
            return list(v.a)
        if v.op == "arr" and v.a[0].op in ("list", "tuple"):
            return list(v.a[0].a)
        if v.op == "setof":
            return list(v.a)
        if v.op in ("dict", "ddict"):
            return [x.a[0] for x in v.a if x.op == "kv"]
        if is_str(v):
            return [const(c) for c in v.a[1]]
        if is_chain(v) and tail(v) != "?":
            n = self.number(mk("len", v))
            return [self.element(v, k) for k in range(int(n))]
        return None

    def element(self, b, k):
        tl = tail(b)
        if tl in POOLED and k > 0 and b.op != "index":
            j = self.h("pool", b, k) % (k + 2)
            if j < k:
                k = j
        return self.base(mk("index", b, num(k)))

    def index(self, b, i):
        k = intval(i)
        if i.op == "const" and i.a[0] == "bool":
            k = int(i.a[1])
        if b.op in ("list", "tuple") or (b.op == "arr" and b.a[0].op in ("list", "tuple")):
            xs = list(b.a) if b.op != "arr" else list(b.a[0].a)
            if k is None and i.op != "slice":
                n = self.numify(i)
                k = intval(n)
            if k is not None:
                if -len(xs) <= k < len(xs):
                    return xs[k] if b.op != "arr" or xs[k].op not in ("list", "tuple") else mk("arr", xs[k])
                raise Undefined
            if i.op == "slice":
                z = [None if x is NONE else intval(self.numify(x)) for x in i.a]
                if all(x is not None or y is NONE for x, y in zip(z, i.a)):
                    r = mk(b.op if b.op != "arr" else b.a[0].op, *xs[slice(*z)])
                    return r if b.op != "arr" else mk("arr", r)
            return mk("index", b, i)
        if b.op in ("dict", "ddict"):
            for kv in b.a:
                if kv.op == "kv" and kv.a[0] is i:
                    return kv.a[1]
            if b.op == "ddict":
                return self.default(b.a[0])
            raise Undefined
        if is_str(b) and k is not None:
            if -len(b.a[1]) <= k < len(b.a[1]):
                return const(b.a[1][k])
            raise Undefined
        if b is NONE:
            raise Undefined
        if is_chain(b):
            if k is not None:
                if tail(b) != "shape" and tail(b) in self.tests.lens or tail(b) in POOLED:
                    n = int(self.number(mk("len", b)))
                    if k < 0:
                        k += n
                    if not 0 <= k < n:
                        raise Undefined
                if k >= 0:
                    return self.element(b, k)
                return self.base(mk("index", b, num(k)))
            if i.op == "slice" and (tail(b) in POOLED or tail(b) != "shape" and tail(b) in self.tests.lens):
                xs = self.seq(b)
                z = [None if x is NONE else intval(self.numify(x)) for x in i.a]
                if all(x is not None or y is NONE for x, y in zip(z, i.a)):
                    return mk("list", *xs[slice(*z)])
            if i.op == "slice" or i.op == "tuple":
                i = self.normal_slice(i)
            return self.base(mk("index", b, i)) if i.op not in ("slice", "tuple") else mk("index", b, i)
        if i.op in ("slice", "tuple"):
            i = self.normal_slice(i)
        return mk("index", b, i)

    def normal_slice(self, i):
        if i.op == "slice":
            lo, hi, st = [self.numify(x) if x is not NONE else x for x in i.a]
            if lo is ZERO:
                lo = NONE
            if st is ONE:
                st = NONE
            return mk("slice", lo, hi, st)
        if i.op == "tuple":
            xs = [self.normal_slice(x) if x.op == "slice" else x for x in i.a]
            while xs and (xs[-1] is ELL or xs[-1] is mk("slice", NONE, NONE, NONE)):
                xs.pop()
            return mk("tuple", *xs)
        return i

    def default(self, f):
        if f.op == "ext":
            return {"int": ZERO, "list": lst([]), "dict": mk("dict"), "set": mk("setof"), "float": ZERO, "bool": FALSE}.get(f.a[0], mk("default", f))
        if f.op == "lam" and f.a[0] == 0:
            return f.a[1]
        return mk("default", f)

    def eq(self, a, b):
        if a is b:
            return True
        x, y = a, b
        if x.op == "const" and y.op != "const":
            y = self.numify(y) if is_num(x) or x.a[0] == "bool" else y
        if y.op == "const" and x.op != "const":
            x = self.numify(x) if is_num(y) or y.a[0] == "bool" else x
        if x.op == "const" and y.op == "const":
            kx, vx = pyval(x)
            ky, vy = pyval(y)
            return kx and ky and vx == vy
        if x.op in ("list", "tuple") and y.op in ("list", "tuple"):
            if len(x.a) != len(y.a):
                return False
            return all([self.eq(p, q) for p, q in zip(x.a, y.a)])
        if x.op == "setof" and y.op == "setof":
            return x is y
        if x.op == "const" or y.op == "const":
            c, o = (x, y) if x.op == "const" else (y, x)
            if o.op in ("list", "tuple", "dict", "setof", "new", "lam"):
                return False
            if is_chain(o):
                if c is NONE or is_str(c):
                    return False
            return self.bit(mk("eq", *sorted((x, y))), not is_chain(o))
        if x.op in ("poly_",) or y.op in ("poly_",):
            d = sub(self.numify(x), self.numify(y))
            if is_num(d):
                return numval(d) == 0
            f = self.flt(d)
            if f is not None:
                return abs(f) < 1e-9
        return self.bit(mk("eq", *sorted((x, y))), not (is_chain(x) and is_chain(y)))

    def order(self, a, b):
        """-1, 0, 1 or None"""
        d = sub(self.numify(a), self.numify(b)) if not is_seq(a) and not is_seq(b) else None
        if d is not None:
            if is_num(d):
                v = numval(d)
                return (v > 0) - (v < 0)
            f = self.flt(d)
            if f is not None:
                return 0 if abs(f) < 1e-9 else 1 if f > 0 else -1
        if is_str(a) and is_str(b):
            return (a.a[1] > b.a[1]) - (a.a[1] < b.a[1])
        if a.op in ("tuple", "list") and b.op == a.op:
            for x, y in zip(a.a, b.a):
                r = self.order(x, y)
                if r is None:
                    return None
                if r:
                    return r
            return (len(a.a) > len(b.a)) - (len(a.a) < len(b.a))
        if is_chain(a) and is_chain(b):
            x, y = self.h("ord", a), self.h("ord", b)
            return (x > y) - (x < y)
        return None

    def closure(self, kws, name, env):
        """closure given as keyword argument, its body not evaluated"""
        for k in kws.a:
            if k.op == "kw" and k.a[0] == name:
                f = k.a[1]
                if f.op != "lam" or len(f.a) != 2:
                    return self.g(f, env)
                m = {}
                for x in free(f.a[1]):
                    if isinstance(x, T):
                        m[x] = env[x]
                    else:
                        m[mk("acc", x[1])] = env[x]
                return mk("lam", f.a[0], subst(f.a[1], m)) if m else f
        return None

    def apply(self, f, args):
        """value of a closure on ground arguments"""
        if f.op != "lam" or len(f.a) != 2 or f.a[0] != len(args):
            return None
        ps = {x.a[0]: x for x in walk(f.a[1]) if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("\u03bb")}
        lv = min((n.split(".")[0] for n in ps), default=None)
        m = {}
        for n, x in ps.items():
            l, k = n.split(".")[:2]
            if l != lv:
                continue
            if not k.isdigit():
                return None
            m[x] = args[int(k)]
        return self.g(subst(f.a[1], m))

    def sort(self, xs, key=None, reverse=False):
        import functools

        class Bad(Exception):
            pass

        def c(x, y):
            r = self.order(x, y)
            if r is None:
                raise Bad
            return r
        ks = list(xs)
        if key is not None and key is not NONE:
            ks = [self.apply(key, [x]) for x in xs]
            if None in ks:
                return None
        try:
            return [xs[j] for j in sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: c(ks[i], ks[j])), reverse=reverse)]
        except Bad:
            return None

    def uniq(self, xs):
        return mk("setof", *sorted(set(xs)))

    def kwargs(self, kws, env):
        return {x.a[0]: self.g(x.a[1], env) for x in kws.a}

    def g1(self, t, env):
        o, a = t.op, t.a
        G = lambda x: self.g(x, env)
        if o == "sym":
            return t if t is PI else self.base(t)
        if o == "idx":
            v = env.get(t)
            if v is None:
                raise Unsupported("free index")
            return v
        if o == "acc":
            v = env.get(("acc", a[0]))
            if v is None:
                raise Unsupported("free accumulator")
            return v
        if o in ("ext", "func", "class", "global", "mod_", "accx", "carried", "undef", "bottom"):
            if o == "bottom":
                raise Undefined
            return t
        if o == "attr":
            b = G(a[0])
            if b is NONE:
                raise Undefined
            nm = a[1] if isinstance(a[1], str) else G(a[1])
            if isinstance(nm, T) and is_str(nm):
                nm = nm.a[1]
            if b.op == "new" and isinstance(nm, str):
                for k in b.a[1:]:
                    if k.op == "kw" and k.a[0] == nm:
                        return k.a[1]
            if b.op == "slice" and nm in ("start", "stop", "step"):
                return b.a[("start", "stop", "step").index(nm)]
            r = mk("attr", b, nm)
            return self.base(r) if is_chain(r) else r
        if o == "poly_":
            return add(*[self.mono(m, env) for m in a]) if not self.stringy(t, env) else mk("poly_", *[mk("mono", m.a[0], *[mk("pw", G(p.a[0]), p.a[1]) for p in m.a[1:]]) for m in a])
        if o == "mono":
            return self.mono(t, env)
        if o == "inv":
            v = self.numify(G(a[0]))
            if v is ZERO:
                raise Undefined
            return inv(v)
        if o in ("mod", "floordiv"):
            x, y = self.numify(G(a[0])), self.numify(G(a[1]))
            if y is ZERO:
                raise Undefined
            if is_num(x) and is_num(y):
                return mod(x, y) if o == "mod" else floordiv(x, y)
            fx, fy = self.flt(x), self.flt(y)
            if fx is not None and fy:
                q = fx / fy
                k = round(q) if abs(q - round(q)) < 1e-9 else math.floor(q)
                return num(k) if o == "floordiv" else sub(x, mul(num(k), y))
            return mod(x, y) if o == "mod" else floordiv(x, y)
        if o == "pow":
            x, y = self.numify(G(a[0])), self.numify(G(a[1]))
            return power(x, y)
        if o in ("min", "max"):
            xs = [self.numify(G(x)) for x in a]
            if all(is_num(x) for x in xs):
                return num((min if o == "min" else max)(numval(x) for x in xs))
            return mk(o, *sorted(set(xs)))
        if o in ("abs", "floor", "ceil", "int", "round", "sqrt", "cos", "sin", "exp"):
            v = self.numify(G(a[0]))
            return self.unary(o, v, t)
        if o in ("eq", "ne"):
            return const(self.eq(G(a[0]), G(a[1])) == (o == "eq"))
        if o in ("lt", "le"):
            x, y = G(a[0]), G(a[1])
            r = self.order(x, y)
            if r is None:
                # a mask (decided only where it is used as a condition)
                return mk("lt", x, y) if o == "lt" else mk("not", mk("lt", y, x))
            return const(r < 0 if o == "lt" else r <= 0)
        if o in ("is", "isnot"):
            x, y = G(a[0]), G(a[1])
            if x is y:
                r = True
            elif x.op == "const" and y.op == "const":
                r = False
            elif y is NONE or x is NONE:
                z = x if y is NONE else y
                r = False if is_chain(z) or never_none(z) else self.bit(mk("is", z, NONE), True)
            else:
                r = self.bit(mk("is", *sorted((x, y))), not (is_chain(x) and is_chain(y)))
            return const(r == (o == "is"))
        if o in ("in", "notin"):
            x, y = G(a[0]), G(a[1])
            if is_str(x) and is_str(y):
                r = x.a[1] in y.a[1]
            elif y.op in ("list", "tuple", "setof", "dict", "ddict") or (y.op == "arr" and y.a[0].op in ("list", "tuple")):
                r = any(self.eq(x, z) if not y.op.endswith("dict") else x is z for z in self.seq(y))
            else:
                r = self.bit(mk("in", x, y), not (is_chain(y) and (is_chain(x) or x.op == "const")))
            return const(r == (o == "in"))
        if o in ("and", "or", "not"):
            return const(self.truth(t, env))
        if o == "ite":
            return G(a[1]) if self.truth(a[0], env) else G(a[2])
        if o == "isinstance":
            return const(self.isinst(G(a[0]), a[1] if not isinstance(a[1], T) else (strval(a[1]) or a[1])))
        if o == "exists":
            return const(any(self.truth(a[2], e) for e in self.each(a[0], a[1], env)))
        if o == "map":
            return mk("list", *[self.g(a[2], e) for e in self.each(a[0], a[1], env)])
        if o == "filtermap":
            return mk("list", *[self.g(a[3], e) for e in self.each(a[0], a[1], env) if self.truth(a[2], e)])
        if o == "flatmap":
            return self.cat([self.g(a[2], e) for e in self.each(a[0], a[1], env)])
        if o == "dictmap":
            d = mk("dict")
            for e in self.each(a[0], a[1], env):
                d = self.dput(d, self.g(a[2], e), self.g(a[3], e))
            return d
        if o == "sum":
            return add(ZERO, *[self.numify(self.g(a[2], e)) for e in self.each(a[0], a[1], env)])
        if o == "prefix":
            k = self.now(a[0], a[1], env)
            return add(ZERO, *[self.numify(self.g(a[2], {**env, mk("idx", a[0], a[1]): num(j)})) for j in range(k)])
        if o == "prev":
            k = self.now(a[0], a[1], env)
            return G(a[3]) if k == 0 else self.g(a[2], {**env, mk("idx", a[0], a[1]): num(k - 1)})
        if o == "partial":
            k = self.now(a[0], a[1], env)
            ix = mk("idx", a[0], a[1])
            init = G(a[2])
            if a[3].op == "tuple" and init.op == "dict":
                for j in range(k):
                    e = {**env, ix: num(j)}
                    init = self.dput(init, self.g(a[3].a[0], e), self.g(a[3].a[1], e))
                return init
            return self.cat([init] + [self.g(a[3], {**env, ix: num(j)}) for j in range(k)])
        if o == "last":
            k = self.count(a[0], env)
            return G(a[3]) if k == 0 else self.g(a[2], {**env, mk("idx", a[0], a[1]): num(k - 1)})
        if o == "first":
            for e in self.each(a[0], a[1], env):
                if self.truth(a[2], e):
                    return self.g(a[3], e)
            raise Undefined
        if o in ("fold", "loop"):
            return self.acc_run(t, self.count(a[0], env), env)
        if o == "accat":
            f = a[0]
            if f.op not in ("fold", "loop"):
                raise Unsupported("accat")
            return self.acc_run(f, self.now(f.a[0], f.a[1], env), env)
        if o == "each":
            return self.cat([self.lift(self.g(a[2], e)) for e in self.each(a[0], a[1], env)])
        if o == "eff":
            return mk("eff", a[0], G(a[1])) if self.truth(a[2], env) else mk("list")
        if o == "len":
            v = G(a[0])
            if v is NONE:
                raise Undefined
            xs = self.seq(v) if v.op in ("list", "tuple", "dict", "ddict", "setof", "arr") or is_str(v) else None
            if xs is not None:
                return num(len(xs))
            return mk("len", v) if not is_chain(v) else num(self.number(mk("len", v)))
        if o == "index":
            return self.index(G(a[0]), G(a[1]))
        if o in ("concat",):
            return self.cat([G(x) for x in a])
        if o == "repeat":
            return mk("list", *[G(a[0])] * self.count(a[1], env))
        if o == "range":
            x, y, z = [self.numify(G(v)) for v in a]
            if all(intval(v) is not None for v in (x, y, z)) and z is not ZERO and abs(intval(y) - intval(x)) < 60:
                return mk("list", *[num(k) for k in range(intval(x), intval(y), intval(z))])
            return mk("range", x, y, z)
        if o == "rangelen":
            x, y, z = [self.numify(G(v)) for v in a]
            if all(intval(v) is not None for v in (x, y, z)) and z is not ZERO:
                return num(len(range(intval(x), intval(y), intval(z))))
            return mk("rangelen", x, y, z)
        if o in ("listof", "tupleof"):
            v = G(a[0])
            xs = self.seq(v)
            return mk("list", *xs) if xs is not None else v if v.op in ("concat",) else mk(o, v)
        if o in ("set", "setof"):
            if o == "setof":
                return self.uniq([G(x) for x in a])
            v = G(a[0])
            xs = self.seq(v)
            return self.uniq(xs) if xs is not None else mk("set", v)
        if o == "dict":
            d = mk("dict")
            for kv in a:
                d = self.dput(d, G(kv.a[0]), G(kv.a[1])) if kv.op == "kv" else mk("dict", *(d.a + (G(kv),)))
            return d
        if o == "ddict":
            f = a[0]
            return mk("ddict", mk("lam", 0, G(f.a[1])) if f.op == "lam" and f.a[0] == 0 else f)
        if o == "dictof":
            v = G(a[0])
            xs = self.seq(v)
            if xs is not None and all(x.op in ("tuple", "list") and len(x.a) == 2 for x in xs) and v.op not in ("dict", "ddict"):
                d = mk("dict")
                for x in xs:
                    d = self.dput(d, *x.a)
                return d
            return v if v.op == "dict" else mk("dict", *v.a[1:]) if v.op == "ddict" else mk("dictof", v)
        if o == "dstore":
            d, k, v = G(a[0]), G(a[1]), G(a[2])
            if d.op in ("dict", "ddict"):
                return self.dput(d, k, v)
            return mk("dstore", d, k, v)
        if o == "dupdate":
            d, e = G(a[0]), G(a[1])
            if d.op in ("dict", "ddict") and e.op in ("dict", "ddict"):
                for kv in e.a:
                    if kv.op == "kv":
                        d = self.dput(d, *kv.a)
                return d
            return mk("dupdate", d, e)
        if o in ("dkeys", "dvalues", "ditems"):
            d = G(a[0])
            if d.op in ("dict", "ddict"):
                kv = [x for x in d.a if x.op == "kv"]
                return mk("list", *[x.a[0] if o == "dkeys" else x.a[1] if o == "dvalues" else tup(x.a) for x in kv])
            if is_chain(d):
                n = int(self.number(mk("len", d)))
                ks = [self.base(mk("dkey", d, num(k))) for k in range(n)]
                vs = [self.base(mk("dval", d, num(k))) for k in range(n)]
                return mk("list", *[ks[k] if o == "dkeys" else vs[k] if o == "dvalues" else tup([ks[k], vs[k]]) for k in range(n)])
            return mk(o, d)
        if o in ("dkey", "dval"):
            d, i = G(a[0]), self.numify(G(a[1]))
            k = intval(i)
            if d.op in ("dict", "ddict"):
                kv = [x for x in d.a if x.op == "kv"]
                if k is None or not 0 <= k < len(kv):
                    raise Undefined
                return kv[k].a[0 if o == "dkey" else 1]
            r = mk(o, d, i)
            return self.base(r) if is_chain(r) else r
        if o == "store":
            b, i, v = G(a[0]), G(a[1]), G(a[2])
            k = intval(self.numify(i)) if i.op not in ("tuple", "slice") else None
            if b.op == "list" and k is not None:
                if not -len(b.a) <= k < len(b.a):
                    raise Undefined
                xs = list(b.a)
                xs[k] = v
                return mk("list", *xs)
            if i.op in ("slice", "tuple"):
                i = self.normal_slice(i)
            return mk("store", b, self.numall(i), v)
        if o == "fmt":
            return fmt([self.strable(G(x)) for x in a])
        if o == "join":
            s, v = G(a[0]), G(a[1])
            xs = self.seq(v)
            if xs is not None:
                out = []
                for k, x in enumerate(xs):
                    out += ([s] if k else []) + [self.strable(x)]
                return fmt(out)
            return mk("join", s, v)
        if o in ("minof", "maxof", "sumof"):
            v = G(a[0])
            xs = self.seq(v) if not is_chain(v) else None
            if xs is not None:
                ys = [self.numify(x) for x in xs]
                if all(is_num(y) for y in ys):
                    if o == "sumof":
                        return add(ZERO, *ys)
                    if not ys:
                        raise Undefined
                    return num((min if o == "minof" else max)(numval(y) for y in ys))
            return mk(o, v)
        if o in ("any", "all"):
            v = G(a[0])
            xs = self.seq(v) if not is_chain(v) else None
            if xs is not None:
                return const((any if o == "any" else all)(self.tv(x) for x in xs))
            return const(self.bit(mk(o, v), True))
        if o == "arr":
            v = G(a[0])
            return v if v.op == "arr" else mk("arr", v)
        if o == "hasattr" or o == "raises":
            return const(self.bit(mk(o, *[G(x) if isinstance(x, T) else x for x in a]), o == "raises"))
        if o == "lam":
            return mk("lam", a[0], G(a[1])) if isinstance(a[1] if len(a) > 1 else None, T) else t
        if o == "listop":
            return self.listop(a[0], G(a[1]), G(a[2]) if len(a) > 2 and isinstance(a[2], T) else None)
        if o == "call":
            return self.call(t, env)
        if o == "slice":
            return mk("slice", *[G(x) for x in a])
        kids = [G(x) if isinstance(x, T) else x for x in a]
        return mk(o, *kids)

    def numall(self, i):
        return mk("tuple", *[self.numify(x) for x in i.a]) if i.op == "tuple" else i if i.op == "slice" else self.numify(i)

    def listop(self, name, r, args):
        xs = self.seq(r) if not is_chain(r) else None
        if name == "sort" and xs is not None and (args is None or not args.a):
            ys = self.sort(xs)
            if ys is not None:
                return mk("list", *ys)
        if name == "reverse" and xs is not None:
            return mk("list", *xs[::-1])
        av = list(args.a) if args is not None and args.op == "tuple" else []
        if name == "append" and xs is not None and len(av) == 1:
            return mk("list", *(xs + av))
        if name == "extend" and xs is not None and len(av) == 1 and self.seq(av[0]) is not None:
            return mk("list", *(xs + self.seq(av[0])))
        if name == "insert" and xs is not None and len(av) == 2 and intval(av[0]) is not None:
            xs.insert(intval(av[0]), av[1])
            return mk("list", *xs)
        if name in ("pop", "remove", "discard") and r.op in ("dict", "ddict") and av:
            return mk(r.op, *[x for x in r.a if not (x.op == "kv" and x.a[0] is av[0])])
        if name == "pop" and xs is not None and r.op == "list":
            k = intval(av[0]) if av else -1
            if k is not None and -len(xs) <= k < len(xs):
                del xs[k]
                return mk("list", *xs)
        if name == "add" and r.op == "setof" and av:
            return self.uniq(list(r.a) + av)
        if name in ("remove", "discard") and r.op == "setof" and av:
            return self.uniq([x for x in r.a if x is not av[0]])
        return mk("listop", name, r, args if args is not None else tup([]))

    def stringy(self, t, env):
        for m in t.a:
            for p in m.a[1:]:
                v = self.g(p.a[0], env)
                if is_str(v) or v.op in ("fmt", "list", "tuple", "concat"):
                    return True
        return False

    def mono(self, m, env):
        out = m.a[0]
        for pw in m.a[1:]:
            x = self.numify(self.g(pw.a[0], env))
            e = pw.a[1]
            if e < 0:
                if x is ZERO:
                    raise Undefined
                x, e = inv(x), -e
            for _ in range(e):
                out = mul(out, x)
        return out

    def unary(self, o, v, t):
        f = self.flt(v)
        if f is None:
            return mk(o, v)
        exact = numval(v) if is_num(v) else None
        if o == "abs":
            return v if f >= 0 else neg(v)
        if o in ("floor", "ceil", "int", "round"):
            if exact is not None:
                return num({"floor": math.floor, "ceil": math.ceil, "int": int, "round": round}[o](exact))
            return num({"floor": math.floor, "ceil": math.ceil, "int": int, "round": round}[o](f))
        if o == "sqrt" and f < 0:
            raise Undefined
        try:
            r = {"sqrt": math.sqrt, "cos": math.cos, "sin": math.sin, "exp": math.exp}[o](f)
        except OverflowError:
            return mk(o, v)
        if abs(r) > 1e6:
            return mk(o, v)
        return num(Fraction(round(r * 10**8), 10**8))

    def strable(self, v):
        if v.op == "const" and v.a[0] in ("bool", "none"):
            return const(str(v.a[1]))
        if is_chain(v) and self.kind(v) in ("int", "float"):
            return num(self.number(v))
        return v

    def lift(self, v):
        return v if v.op == "list" else mk("list", v)

    def cat(self, xs):
        out, op = [], None
        for x in xs:
            if x.op in ("list", "tuple"):
                op = op or x.op
                out += list(x.a)
            elif x.op == "arr" and x.a[0].op in ("list", "tuple"):
                out += list(x.a[0].a)
                op = op or "list"
            elif is_chain(x) and tail(x) in POOLED:
                out += self.seq(x)
                op = op or "list"
            else:
                return mk("concat", *xs) if len(xs) > 1 else xs[0]
        return mk(op or "list", *out)

    def dput(self, d, k, v):
        kv = mk("kv", k, v)
        xs = list(d.a)
        for i, x in enumerate(xs):
            if x.op == "kv" and x.a[0] is k:
                xs[i] = kv
                return mk(d.op, *xs)
        return mk(d.op, *(xs + [kv]))

    def isinst(self, v, c):
        if isinstance(c, T):
            if c.op in ("tuple", "list"):
                return any(self.isinst(v, strval(x) or x) for x in c.a)
            c = show(c)
        if v.op == "const":
            k = v.a[0]
            if k == "num":
                return c == "int" and intval(v) is not None or c == "float" and intval(v) is None
            return c == {"bool": "bool", "str": "str", "none": "NoneType"}.get(k) or (c == "int" and k == "bool")
        if v.op in ("list", "tuple"):
            return c in (v.op, "collections.abc.Iterable", "Iterable", "Sequence")
        if v.op in ("dict", "ddict"):
            return c == "dict"
        if v.op == "setof":
            return c == "set"
        if v.op == "slice":
            return c == "slice"
        if is_chain(v):
            k = self.kind(v)
            if k == "other" or k not in self.tests.classes.get(tail(v), ()):
                return False
            return k == c or (k == "bool" and c == "int")
        if v.op == "poly_":
            return c in ("float",)
        if v.op == "new" and isinstance(v.a[0], str) and v.a[0] == c:
            return True
        return self.bit(mk("isinstance", v, c), True)

    def call(self, t, env):
        fn = t.a[0]
        args = [self.g(x, env) for x in t.a[1].a]
        kw = self.kwargs(t.a[2], env)
        short = fn.split(".")[-1]
        if fn == "sorted" and len(args) == 1 and set(kw) <= {"key", "reverse"}:
            xs = self.seq(args[0])
            if xs is not None and kw.get("reverse", FALSE) in (TRUE, FALSE):
                ys = self.sort(xs, self.closure(t.a[2], "key", env), kw.get("reverse", FALSE) is TRUE)
                if ys is not None:
                    return mk("list", *ys)
        if fn == "reversed" and len(args) == 1:
            xs = self.seq(args[0])
            if xs is not None:
                return mk("list", *xs[::-1])
        if fn in ("math.floor", "numpy.floor", "math.ceil", "numpy.ceil", "abs", "round", "math.sqrt", "numpy.sqrt", "numpy.abs") and len(args) == 1 and not kw:
            v = self.numify(args[0])
            if self.flt(v) is not None:
                return self.unary({"abs": "abs"}.get(short, short), v, t)
        if short == "divmod" and len(args) == 2:
            x, y = self.numify(args[0]), self.numify(args[1])
            if is_num(x) and is_num(y) and y is not ZERO:
                return tup([floordiv(x, y), mod(x, y)])
        if fn in ("numpy.prod", "math.prod", "sum", "numpy.sum") and len(args) == 1 and not kw:
            xs = self.seq(args[0]) if not is_chain(args[0]) else None
            if xs is not None:
                ys = [self.numify(x) for x in xs]
                if all(is_num(y) for y in ys):
                    return mul(ONE, *ys) if short == "prod" else add(ZERO, *ys)
        if fn == "numpy.cumsum" and len(args) == 1 and not kw:
            xs = self.seq(args[0]) if not is_chain(args[0]) else None
            if xs is not None:
                ys, s = [], ZERO
                for x in xs:
                    s = add(s, self.numify(x))
                    ys.append(s)
                return mk("arr", mk("list", *ys))
        if short == "product" and fn.startswith("itertools") and not kw:
            ss = [self.seq(x) for x in args]
            if all(s is not None for s in ss):
                out = [()]
                for s in ss:
                    out = [p + (x,) for p in out for x in s]
                return mk("list", *[tup(p) for p in out])
        if fn in ("list", "tuple", "iter") and len(args) == 1:
            xs = self.seq(args[0])
            if xs is not None:
                return mk("list", *xs)
        if short in ("intersection", "union") and fn.startswith("set") and len(args) == 2:
            x, y = self.seq(args[0]) if not is_chain(args[0]) else None, self.seq(args[1]) if not is_chain(args[1]) else None
            if x is not None and y is not None:
                return self.uniq(set(x) & set(y) if short == "intersection" else set(x) | set(y))
        if short in ("maximum", "minimum"):
            args = sorted(args)
        return mk("call", fn, tup(args), mk("kws", *[mk("kw", k, v) for k, v in sorted(kw.items())]))


def never_none(z):
    if z.op in ("list", "tuple", "dict", "ddict", "new", "lam", "setof", "poly_", "arr", "inv", "matmul", "exp", "cos", "sin", "sqrt", "abs", "store", "filled", "func", "class", "ext", "concat", "fmt"):
        return True
    if z.op == "call":
        return isinstance(z.a[0], str) and z.a[0].startswith(("torch.", "numpy."))
    return z.op == "mcall" and z.a[1] in ("view", "expand", "permute", "transpose", "to", "norm", "clone", "squeeze", "unsqueeze", "detach")


def forced_of(bad):
    """decisions every accepted input agrees on: single-literal rejections"""
    f = {}
    for b in bad:
        while b.op == "exists":
            b = b.a[2]
        lits = list(b.a) if b.op == "and" else [b]
        lits = [x for x in lits if not (x.op == "lt" and x.a[0] is ZERO)] or lits
        if len(lits) != 1:
            continue
        x = lits[0]
        if x.op == "not" and x.a[0].op == "isinstance":
            c = x.a[0].a[1]
            c = c if isinstance(c, str) else strval(c)
            if c:
                f[("kind", tail(x.a[0].a[0]))] = c
        elif x.op == "is" and x.a[1] is NONE:
            f[("notnone", tail(x.a[0]))] = True
        elif x.op == "ne":
            f[("bit", shape(mk("eq", *x.a)))] = True
        elif x.op == "notin" and x.a[1].op in ("list", "tuple") and all(is_str(z) for z in x.a[1].a):
            f[("str", tail(x.a[0]))] = True
        elif x.op in ("not",):
            f[("bit", shape(x.a[0]))] = True
        elif x.op in ("in", "notin"):
            f[("bit", shape(mk("in", *x.a)))] = x.op == "notin"
        elif x.op in ("mcall", "call", "attr", "sym", "hasattr"):
            f[("bit", shape(x))] = False
    return f


# ------------------------------------------------------------------------------------------ comparison of observations

def expand(v):
    """effects of a ground effect list"""
    if v.op == "list":
        return [y for x in v.a for y in expand(x)]
    return [v]


DEFINED = "the result is defined"


class Instances:
    """instantiations on which two observations are compared"""

    def __init__(self, ref, cur, bad, seconds=8.0, want=400):
        from . import compare as C
        self.C = C
        self.ref, self.cur = ref, cur
        self.roots = [t for o in (ref, cur) for t in C.obs_terms(o)] + list(bad)
        self.tests = Tests(self.roots)
        self.bad = bad
        self.forced = forced_of(bad)
        self.seconds, self.want = seconds, want
        self.words = C.obs_words(ref)
        self.vocab = None
        self.stats = {}
        self.total = 0.0
        self.defined = True

    def taints(self, s, fs):
        """uninterpreted conditions the formulas depend on"""
        out, keys = set(), set()
        for f in fs:
            v = self.fresh(s)
            v.log = {}
            try:
                v.truth(f)
            except (Undefined, Unsupported):
                return None
            out |= v.taint
            keys |= set(v.log)
        return out, keys

    def fresh(self, inst):
        WORK[0] += 20
        seed, over = inst
        return Val(seed, self.tests, self.forced, over=over)

    def violated(self, v, order):
        for b in order:
            if self.bad_now(v, b):
                return b
        if not self.defined or self.ref.ret is None:
            return None
        return DEFINED if self.bad_now(v, DEFINED) else None

    def bad_now(self, v, b):
        """does the instance violate the constraint?"""
        if b is DEFINED:
            try:
                v.g(self.ref.ret)
            except Undefined:
                return True
            except (Unsupported, RecursionError):
                pass
            return False
        try:
            return v.truth(b)
        except (Undefined, Unsupported):
            return False

    def repair(self, seed, flips, deadline, extra=()):
        """local search for an instantiation that passes every input check"""
        import random
        rng = random.Random(seed)
        over = {}
        order = list(extra) + list(self.bad)
        for _ in range(flips):
            if clock() > deadline:
                return None
            v = self.fresh((seed, over))
            b = self.violated(v, order)
            if b is None:
                return seed, over
            # the failing check first: cheap to retest
            if b is not DEFINED:
                order.remove(b)
                order.insert(0, b)
            best = None
            v = self.fresh((seed, over))
            v.log = {}
            self.bad_now(v, b)
            keys = sorted(v.log, key=lambda k: (k[0], k[1].digest))
            if not keys:
                return None
            nums = [v.numbers[k[1]] for k in keys if k[0] == "num" and k[1] in v.numbers]
            for _try in range(24):
                k = keys[rng.randrange(len(keys))]
                if k[0] == "kind" and _try < 12 and rng.random() < 0.7:
                    continue
                o2 = dict(over)
                if k[0] == "num":
                    cur = v.numbers.get(k[1], Fraction(1))
                    pool = nums + [cur + 1, cur - 1, Fraction(1), Fraction(2), Fraction(0)] + [x for x in self.tests.nums.get(tail(k[1]), ()) if abs(x) <= 20]
                    if k[1].op == "len":
                        pool = [x for x in nums + [cur + 1, cur - 1, cur + 2] if x.denominator == 1 and (2 if _try < 6 else 0) <= x <= 6]
                    o2[k] = pool[rng.randrange(len(pool))] if pool else Fraction(2)
                elif k[0] == "str":
                    op = sorted(self.tests.strs.get(tail(k[1]), ()))
                    o2[k] = op[rng.randrange(len(op))]
                elif k[0] == "bit":
                    o2[k] = not v.bits.get(k[1], v.forced.get(("bit", shape(k[1])), False))
                else:
                    op = [x for x in v.options(k[1]) if x != v.kinds.get(k[1])]
                    if not op:
                        continue
                    o2[k] = op[rng.randrange(len(op))]
                w = self.fresh((seed, o2))
                if not self.bad_now(w, b):
                    best = o2
                    break
            if best is None:
                k = keys[rng.randrange(len(keys))]
                continue
            over = best
        return None

    def accepted(self, limit=4000, extra=(), seconds=None, want=None, defined=True):
        self.defined = defined
        """instantiations that satisfy every input check (and falsify the formulas in `extra`)"""
        t0 = clock()
        n = 0
        seconds, want = seconds or self.seconds, want or self.want
        order = list(extra) + list(self.bad)
        lucky, tried = set(), 0
        for seed in range(1, 20 * limit):
            if clock() - t0 > 0.4 * seconds or n >= 0.4 * want or tried > 200 * (n + 1):
                break
            tried += 1
            b = self.violated(self.fresh((seed, {})), order)
            if b is None:
                n += 1
                lucky.add(seed)
                yield seed, {}
            elif b is not DEFINED:
                order.remove(b)
                order.insert(0, b)
        for seed in range(1, limit):
            if seed in lucky:
                continue
            if clock() - t0 > seconds or n >= want:
                self.total += clock() - t0
                return
            i = self.repair(seed, 60, t0 + seconds, extra)
            if i is not None:
                n += 1
                yield i

    def under(self, facts):
        """formulas whose falsity makes the facts true (facts about a loop index: for some round)"""
        out, open_ = [], []
        for c, v in facts.items():
            f = neg_b(c) if v else c
            if free(f):
                open_.append(neg_b(f))
            else:
                out.append(f)
        if open_:
            g = conj(open_)
            for ix in sorted((x for x in free(g) if isinstance(x, T)), key=lambda x: -x.a[1]):
                g = mk("exists", ix.a[0], ix.a[1], g)
            if not free(g):
                out.append(neg_b(g))
        return out

    def refuted(self, a, b, ms, seconds=4.0):
        """number of instances satisfying the facts of a reported difference on which both sides agree
        (0 as soon as one of them differs or nothing is known)"""
        n = 0
        for m in ms[:3]:
            extra = self.under(m.facts)
            k = 0
            for s in self.accepted(extra=extra, seconds=seconds, want=40):
                try:
                    p = self.pair(s, a, b)
                except (Unsupported, RecursionError):
                    return 0
                if p is None:
                    continue
                if p[0] is not p[1]:
                    return 0
                k += 1
            if k < 12:
                return 0
            n += k
        return n

    def pair(self, seed, a, b, norm=None):
        """ground values of two terms: (ga, gb, trusted) or None"""
        r = self.pair1(seed, a, b)
        if r is None or norm is None or BOTTOM in r[:2]:
            return r
        return norm(r[0]), norm(r[1]), r[2]

    def pair1(self, seed, a, b):
        v = self.fresh(seed)
        try:
            ga = v.g(a)
        except Undefined:
            return None
        ta = v.taint
        v = self.fresh(seed)
        try:
            gb = v.g(b)
        except Undefined:
            gb = BOTTOM
        self.why = "; ".join(sorted(show(x)[:160] for x in ta ^ v.taint)[:2])
        return ga, gb, ta == v.taint and gb is not BOTTOM

    def differ(self, a, b, seeds, norm=None):
        """(verdict, detail): True refuted, False possibly different, None agree on all instances"""
        C = self.C
        soft = None
        n = 0
        t0 = clock()
        for s in seeds:
            if clock() - t0 > self.seconds:
                break
            try:
                p = self.pair(s, a, b, norm)
            except (Unsupported, RecursionError) as e:
                soft = soft or ("not instantiable: " + str(e))
                continue
            if p is None:
                continue
            ga, gb, tr = p
            n += 1
            if ga is gb:
                continue
            if not tr:
                soft = soft or "decided by an uninterpreted condition " + self.why
                continue
            v = self.fresh(s)
            WORK[0] += 1500
            d = GroundDiffer(v, words=self.words)
            ms = d.run(ga, gb)
            if not ms and not d.overflow:
                continue
            if ms and not d.overflow and all(m.hard for m in ms):
                return True, self.explain(v, ms, a, b), n
            soft = soft or (ms[0].text() if ms else "too large")
        return (False, soft, n) if soft is not None else (None, "", n)

    def effects(self, R, C, named):
        """ground comparison of two effect lists (each a list of closed effect terms)"""
        A, B = mk("effs", *R), mk("effs", *C)

        def norm(t):
            xs = [y for x in t.a for y in expand(x)]
            if named:
                xs = sorted(xs, key=lambda e: show(e.a[1].a[1]) if e.op == "eff" and e.a[1].op == "setattr" else show(e)[:80])
            return mk("list", *xs)
        return A, B, norm

    def explain(self, v, ms, a, b):
        return "on an instance: " + ms[0].text(120)


def _gd():
    from . import compare as C

    class GroundDiffer(C.Differ):
        """comparison of ground trees: scalars are compared by their instance"""

        def __init__(self, val, words=None):
            super().__init__(max_splits=0, max_nodes=4000, words=words, vocab=set())
            self.val = val

        def layout(self, x, y):
            if not (x.op in ("mcall", "call") or y.op in ("mcall", "call")):
                return None

            def number(v):
                n = self.val.tonum(v)
                return int(n) if n is not None and n.denominator == 1 else None
            return L.same(x, y, number)

        def go1(self, a, b, facts, path):
            x, y = a, b
            if (is_num(x) or x.op == "poly_") and is_chain(y):
                y = self.val.numify(y)
            elif (is_num(y) or y.op == "poly_") and is_chain(x):
                x = self.val.numify(x)
            if x is y:
                return
            lay = self.layout(x, y)
            if lay is not None:
                if not lay:
                    self.put(True, "elements are laid out differently", x, y, facts, path)
                return
            if {x.op, y.op} == {"list", "tuple"}:
                x, y = mk("list", *x.a), mk("list", *y.a)
                if x is y:
                    return
            if x.op in ("list", "setof", "dict") and y.op == x.op and len(x.a) != len(y.a):
                return self.put(True, f"{len(x.a)} elements became {len(y.a)}", x, y, facts, path)
            if x.op == y.op == "dict":
                X, Y = {k.a[0]: k.a[1] for k in x.a if k.op == "kv"}, {k.a[0]: k.a[1] for k in y.a if k.op == "kv"}
                if len(X) == len(x.a) and len(Y) == len(y.a):
                    if set(X) == set(Y):
                        for k in X:
                            self.go(X[k], Y[k], facts, path + ("entry",))
                        return
            kx, ky = kindof(x), kindof(y)
            if kx and ky and kx != ky:
                return self.put(True, f"{kx} became {ky}", x, y, facts, path)
            if is_num(x) and is_num(y):
                if abs(numval(x) - numval(y)) < Fraction(1, 10**6):
                    return
                return self.put(True, "number differs", x, y, facts, path)
            if x.op == "poly_" or y.op == "poly_":
                d = sub(x, y) if not is_seq(x) and not is_seq(y) else None
                f = self.val.flt(d) if d is not None else None
                if f is not None and abs(f) < 1e-6:
                    return
            self.same_level(x, y, facts, path)

    return GroundDiffer


class GroundDiffer:
    def __new__(cls, *a, **k):
        global GroundDiffer
        GroundDiffer = _gd()
        return GroundDiffer(*a, **k)


def kindof(t):
    if t.op == "const":
        return {"num": "number", "bool": "number", "none": "None", "str": "string"}.get(t.a[0])
    if t.op in ("list", "tuple"):
        return "sequence"
    if t.op in ("dict", "ddict"):
        return "dictionary"
    if t.op == "setof":
        return "set"
    if t.op == "fmt":
        return "string"
    if t.op in ("lam", "func"):
        return "function"
    return None
