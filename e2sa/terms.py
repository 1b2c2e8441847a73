"""Hash-consed value-graph terms with algebraic normalisation.

A term denotes the value of an expression of the analysed program as a function of
symbols (parameters, attributes, results of unmodelled calls).  Equal terms denote equal
values; the converse holds only inside the interpreted fragments (integer/rational
polynomials, tuples/lists, comprehensions, ...), which is why rules treat a mismatch
outside of those fragments as undecided.
"""
from fractions import Fraction
import hashlib

_TABLE = {}


class T:
    __slots__ = ("op", "a", "digest", "_syms", "g", "n")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.digest < o.digest


def mk(op, *a):
    key = (op,) + tuple(("T", id(x)) if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = _TABLE.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        t._syms = None
        t.n = min(1 + sum(x.n for x in a if isinstance(x, T)), 10**9)      # size as a tree
        t.g = op == "ite" or any(x.g for x in a if isinstance(x, T))
        h = hashlib.blake2b(digest_size=12)
        h.update(op.encode())
        for x in a:
            h.update(b"|")
            h.update(x.digest if isinstance(x, T) else repr(x).encode())
        t.digest = h.digest()
        _TABLE[key] = t
    return t


# ----------------------------------------------------------------------------- constants

def const(v):
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", "float", repr(v))
        f = Fraction(repr(v))
        return num(f)
    if isinstance(v, (int, Fraction)):
        return num(v)
    if v is None:
        return mk("const", "none", None)
    if v is Ellipsis:
        return mk("const", "ellipsis", "...")
    if isinstance(v, str):
        return mk("const", "str", v)
    if isinstance(v, bytes):
        return mk("const", "bytes", v)
    return mk("const", type(v).__name__, repr(v))


def num(v):
    f = Fraction(v)
    return mk("const", "num", (f.numerator, f.denominator))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = num(0)
ONE = num(1)
ELL = const(Ellipsis)
PI = mk("sym", "pi")


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and t.a[0] == "num"


def numval(t):
    return Fraction(*t.a[1])


def intval(t):
    if t.op == "const" and t.a[0] == "num" and t.a[1][1] == 1:
        return t.a[1][0]
    return None


def is_str(t):
    return t.op == "const" and t.a[0] == "str"


def strval(t):
    return t.a[1] if is_str(t) else None


def pyval(t):
    """(known, python value) for constants."""
    if t.op != "const":
        return False, None
    k, v = t.a
    if k == "num":
        f = Fraction(*v)
        return True, (int(f) if f.denominator == 1 else f)
    if k in ("bool", "none", "str", "bytes"):
        return True, v
    return False, None


def truth(t):
    """True / False / None (unknown)."""
    if t.op == "const":
        k, v = t.a
        if k == "num":
            return v[0] != 0
        if k == "bool":
            return v
        if k == "none":
            return False
        if k in ("str", "bytes"):
            return len(v) > 0
        return None
    if t.op in ("tuple", "list"):
        return len(t.a) > 0
    if t.op == "dict":
        return len(t.a) > 0
    if t.op in ("new", "func", "class", "bound", "lambda", "assumed"):
        return True
    return None


def sym(name):
    return mk("sym", name)


def tup(items):
    return mk("tuple", *items)


def lst(items):
    return mk("list", *items)


# ----------------------------------------------------------------------------- polynomials
# a poly term is mk("poly", ((mono, (num, den)), ...)); mono = ((atom, exp), ...)

SEQ_OPS = {"list", "tuple", "map", "concat", "fmt", "foreach", "slice_of", "filtermap", "repeat", "set", "dict"}
SEQ_ATTRS = {"representations", "irreps", "kernel_size_seq"}


def is_seq(t):
    if t.op in SEQ_OPS or is_str(t):
        return True
    if t.op == "attr" and t.a[1] in SEQ_ATTRS:
        return True
    if t.op == "call" and t.a[0] in ("list", "tuple", "sorted", "str"):
        return True
    if t.op == "ite":
        return is_seq(t.a[1]) or is_seq(t.a[2])
    return False


def _to_poly(t):
    """dict mono -> Fraction"""
    if t.op == "const" and t.a[0] == "num":
        v = numval(t)
        return {(): v} if v else {}
    if t.op == "const" and t.a[0] == "bool":
        return {(): Fraction(1)} if t.a[1] else {}
    if t.op == "poly":
        return {m: Fraction(*c) for m, c in t.a[0]}
    if t.op == "pow" and intval(t.a[1]) is not None and 0 < intval(t.a[1]):
        return {((t.a[0], intval(t.a[1])),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


class _Mono:
    pass


def _from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(), key=lambda mc: tuple((a.digest, e) for a, e in mc[0]))
    flat = []
    for m, c in items:
        flat.append(mk("mono", num(c), *[mk("pw", a, e) for a, e in m]))
    t = mk("poly_", *flat)
    return t


def poly_dict(t):
    if t.op == "poly_":
        out = {}
        for mt in t.a:
            c = numval(mt.a[0])
            m = tuple((pw.a[0], pw.a[1]) for pw in mt.a[1:])
            out[m] = c
        return out
    return _to_poly(t)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # inv(x) * x cancels
    for a in list(d):
        if a.op == "inv" and a.a[0] in d and a in d:
            k = min(d[a], d[a.a[0]])
            d[a] -= k
            d[a.a[0]] -= k
    # (-1)**s squared is 1 for integer s
    for a in list(d):
        if a.op == "pow" and a.a[0] is num(-1) and d[a] >= 2:
            d[a] = d[a] % 2
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (x[0].digest, x[1])))


def add(*ts):
    p = {}
    for t in ts:
        for m, c in poly_dict(t).items():
            p[m] = p.get(m, 0) + c
    return _from_poly(p)


def mul(*ts):
    p = {(): Fraction(1)}
    for t in ts:
        q = {}
        d = poly_dict(t)
        for m1, c1 in p.items():
            for m2, c2 in d.items():
                m = _mono_mul(m1, m2)
                q[m] = q.get(m, 0) + c1 * c2
        p = q
    return _from_poly(p)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def inv(t):
    if is_num(t) and numval(t) != 0:
        return num(1 / numval(t))
    if t.op == "inv":
        return t.a[0]
    d = poly_dict(t)
    if len(d) == 1:
        (m, c), = d.items()
        out = num(1 / c)
        for a, e in m:
            ia = inv(a) if a.op == "inv" else mk("inv", a)
            for _ in range(abs(e)):
                out = mul(out, ia)
        return out
    return mk("inv", t)


def div(a, b):
    return mul(a, inv(b))


def is_int_like(t):
    """syntactically certain to be an integer"""
    if is_num(t):
        return numval(t).denominator == 1
    if t.op in ("floordiv", "len", "idx", "int", "prefix"):
        return True
    if t.op == "poly_":
        return all(numval(m.a[0]).denominator == 1 and all(is_int_like(p.a[0]) for p in m.a[1:]) for m in t.a)
    if t.op == "mod":
        return is_int_like(t.a[0]) and is_int_like(t.a[1])
    if t.op == "sym":
        return t.a[0] in INT_SYMS
    if t.op == "attr":
        return t in INT_TERMS
    return False


INT_SYMS = set()
INT_TERMS = set()


def mod(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) % numval(b))
    # drop inner mods with the same modulus that have an integer coefficient, and integer multiples of b
    p = poly_dict(a)
    q = {}
    changed = False
    for m, c in p.items():
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].a[1] is b:
            for m2, c2 in poly_dict(m[0][0].a[0]).items():
                q[m2] = q.get(m2, 0) + c * c2
            changed = True
        else:
            q[m] = q.get(m, 0) + c
    if changed:
        return mod(_from_poly(q), b)
    # reduce constant coefficients if the modulus is a number and everything is an integer
    if is_num(b) and numval(b).denominator == 1:
        bb = int(numval(b))
        r = {}
        for m, c in p.items():
            if c.denominator == 1 and all(is_int_like(x) for x, _ in m):
                r[m] = Fraction(int(c) % bb)
            else:
                r[m] = c
        a2 = _from_poly(r)
        if a2 is not a:
            return mod(a2, b)
        if not r or a2 is ZERO:
            return ZERO
    else:
        # monomials  b * (integer stuff)
        r = {}
        bd = poly_dict(b)
        if len(bd) == 1:
            (bm, bc), = bd.items()
            for m, c in p.items():
                d = dict(m)
                ok = bm != ()
                for x, e in bm:
                    if d.get(x, 0) < e:
                        ok = False
                        break
                if ok:
                    rest = dict(d)
                    for x, e in bm:
                        rest[x] -= e
                    if (c / bc).denominator == 1 and all(is_int_like(x) for x, e in rest.items() if e):
                        continue
                r[m] = c
            a2 = _from_poly(r)
            if a2 is not a:
                return mod(a2, b)
        if a is ZERO:
            return ZERO
    return mk("mod", a, b)


def floordiv(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) // numval(b))
    if b is ONE and is_int_like(a):
        return a
    return mk("floordiv", a, b)


def power(a, b):
    ib = intval(b)
    if ib is not None and 0 <= ib <= 8:
        if a.op != "poly_" or ib <= 4:
            out = ONE
            for _ in range(ib):
                out = mul(out, a)
            return out
    if is_num(a) and is_num(b) and numval(b).denominator == 1 and numval(a) != 0 and abs(numval(b)) < 64:
        return num(numval(a) ** int(numval(b)))
    if b is num(Fraction(1, 2)):
        return mk("sqrt", a)
    if a is num(-1):
        # exponent parity
        p = poly_dict(b)
        r = {m: (Fraction(int(c) % 2) if c.denominator == 1 and all(is_int_like(x) or x.op in ("sym", "index", "attr") for x, _ in m) else c)
             for m, c in p.items()}
        b = _from_poly(r)
        if b is ZERO:
            return ONE
        if b is ONE:
            return num(-1)
        if poly_dict(b).get(()) == 1:
            return neg(power(a, sub(b, ONE)))
    return mk("pow", a, b)


# ----------------------------------------------------------------------------- booleans

_NEGOP = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "is": "isnot", "isnot": "is",
          "in": "notin", "notin": "in"}


def cmp(op, a, b):
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    ka, va = pyval(a)
    kb, vb = pyval(b)
    if op in ("is", "isnot") and (a is NONE or b is NONE):
        x = b if a is NONE else a
        if x is NONE:
            return const(op == "is")
        if x.op in ("const", "tuple", "list", "dict", "new", "fmt", "poly_", "map", "func", "class", "lambda", "ref", "bound", "mod", "concat", "setof"):
            return const(op != "is")
        return mk(op, x, NONE)
    if ka and kb:
        try:
            r = {"eq": lambda: va == vb, "ne": lambda: va != vb, "lt": lambda: va < vb, "le": lambda: va <= vb,
                 "is": lambda: va is vb or va == vb, "isnot": lambda: not (va is vb or va == vb)}.get(op)
            if r is not None:
                return const(bool(r()))
            if op in ("in", "notin") and isinstance(vb, str):
                return const((va in vb) == (op == "in"))
        except TypeError:
            pass
    if op in ("eq", "ne"):
        if a is b:
            return const(op == "eq")
        if (a is NONE and b.op in ("const", "tuple", "list")) or (b is NONE and a.op in ("const", "tuple", "list")):
            return const(op == "ne")
        d = None
        if not is_seq(a) and not is_seq(b) and (a.op == "poly_" or b.op == "poly_"):
            d = sub(a, b)
            if is_num(d):
                return const((numval(d) == 0) == (op == "eq"))
        if a.op in ("tuple", "list") and b.op == a.op:
            if len(a.a) != len(b.a):
                return const(op == "ne")
            parts = [cmp("eq", x, y) for x, y in zip(a.a, b.a)]
            r = conj(parts)
            return r if op == "eq" else neg_b(r)
        a, b = sorted((a, b))
        return mk(op, a, b)
    if op in ("in", "notin"):
        if b.op in ("tuple", "list", "setof") and all(x.op == "const" for x in b.a) and a.op == "const":
            return const((any(x is a for x in b.a)) == (op == "in"))
        return mk(op, a, b)
    if op in ("lt", "le"):
        d = sub(b, a) if not is_seq(a) and not is_seq(b) else None
        if d is not None and is_num(d):
            return const(numval(d) > 0 if op == "lt" else numval(d) >= 0)
        # integers: a < b  <=>  a + 1 <= b is not normalised (reals possible)
        return mk(op, a, b)
    if op in ("is", "isnot"):
        if a is b:
            return const(op == "is")
        a, b = sorted((a, b))
    return mk(op, a, b)


def neg_b(t):
    tv = truth(t)
    if tv is not None:
        return const(not tv)
    if t.op == "not":
        return t.a[0]
    if t.op in _NEGOP:
        if t.op in ("lt", "le"):
            return mk("le" if t.op == "lt" else "lt", t.a[1], t.a[0])
        return mk(_NEGOP[t.op], *t.a)
    if t.op == "and":
        return disj([neg_b(x) for x in t.a])
    if t.op == "or":
        return conj([neg_b(x) for x in t.a])
    if t.op == "ite":
        return ite(t.a[0], neg_b(t.a[1]), neg_b(t.a[2]))
    return mk("not", t)


def conj(ts):
    out = []
    for t in ts:
        xs = t.a if t.op == "and" else (t,)
        for x in xs:
            tv = truth(x)
            if tv is False:
                return FALSE
            if tv is True:
                continue
            if x not in out:
                out.append(x)
    for x in out:
        if neg_b(x) in out:
            return FALSE
    if len(out) > 1 and any(x.op == "or" for x in out):
        new = [x for x in out if x.op != "or"]
        again = False
        for x in out:
            if x.op == "or":
                if any(y in new for y in x.a):
                    continue
                y = disj([z for z in x.a if neg_b(z) not in new])
                if y.op != "or":
                    again = True
                if y not in new:
                    new.append(y)
        if again:
            return conj(new)
        out = new
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out))


def disj(ts):
    out = []
    for t in ts:
        xs = t.a if t.op == "or" else (t,)
        for x in xs:
            tv = truth(x)
            if tv is True:
                return TRUE
            if tv is False:
                continue
            if x not in out:
                out.append(x)
    for x in out:
        if neg_b(x) in out:
            return TRUE
    if len(out) > 1 and any(x.op == "and" for x in out):
        new = [x for x in out if x.op != "and"]
        again = False
        for x in out:
            if x.op == "and":
                if any(y in new for y in x.a):
                    continue
                y = conj([z for z in x.a if neg_b(z) not in new])
                if y.op != "and":
                    again = True
                if y not in new:
                    new.append(y)
        if again:
            return disj(new)
        out = new
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out))


def ite(c, a, b):
    tv = truth(c)
    if tv is True:
        return a
    if tv is False:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op in ("ne", "isnot", "notin", "le", "or"):
        return ite(neg_b(c), b, a)
    if a.op == b.op and a.op in ("dstore", "store") and len(a.a) == 3 and len(b.a) == 3 and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return mk(a.op, a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == "ite" and a.a[2] is b:
        return ite(conj([c, a.a[0]]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b:
        return ite(conj([c, neg_b(a.a[0])]), a.a[2], b)
    if b.op == "ite" and b.a[1] is a:
        return ite(conj([neg_b(c), neg_b(b.a[0])]), b.a[2], a)
    if b.op == "ite" and b.a[2] is a:
        return ite(conj([neg_b(c), b.a[0]]), b.a[1], a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg_b(c)
    return mk("ite", c, a, b)


# ----------------------------------------------------------------------------- generic traversal

def rebuild(op, a):
    """re-normalise a node whose children changed"""
    if op == "poly_":
        return add(*[rebuild("mono", x.a) if x.op == "mono" else x for x in a])
    if op == "mono":
        out = a[0]
        for pw in a[1:]:
            if pw.op == "pw":
                x, e = pw.a
                if e < 0:
                    x, e = inv(x), -e
                for _ in range(e):
                    out = mul(out, x)
            else:
                out = mul(out, pw)
        return out
    if op == "pw":
        x, e = a
        if isinstance(e, int) and 0 <= e <= 8 and e != 1:
            out = ONE
            for _ in range(e):
                out = mul(out, x)
            return out
        return x if e == 1 else mk("pw", *a)
    if op == "inv":
        return inv(a[0])
    if op == "mod":
        return mod(*a)
    if op == "floordiv":
        return floordiv(*a)
    if op == "pow":
        return power(*a)
    if op in ("eq", "ne", "lt", "le", "is", "isnot", "in", "notin"):
        return cmp(op, *a)
    if op == "not":
        return neg_b(a[0])
    if op == "and":
        return conj(a)
    if op == "or":
        return disj(a)
    if op == "ite":
        return ite(*a)
    if op == "index":
        return index(*a)
    if op == "len":
        return length(a[0])
    if op == "attr":
        return attr(*a)
    if op in ("min", "max"):
        return mk(op, *sorted(set(a)))
    return mk(op, *a)


class Exhausted(Exception):
    pass


FUEL = [None]


def subst(t, m, memo=None):
    """replace subterms according to dict m (term -> term)"""
    if memo is None:
        memo = {}
    if FUEL[0] is not None:
        FUEL[0] -= 1
        if FUEL[0] < 0:
            raise Exhausted
    r = m.get(t)
    if r is not None:
        return r
    if t in memo:
        return memo[t]
    if not t.a or t.op == "const" or not any(isinstance(x, T) for x in t.a):
        memo[t] = t
        return t
    na = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
    if all(x is y for x, y in zip(na, t.a)):
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def contains_term(t, s):
    return any(x is s for x in walk(t))


# ----------------------------------------------------------------------------- containers

def trim(i):
    """(elements dropped at the front, at the end) of a slice with constant bounds, None otherwise"""
    if i.op != "slice":
        return None
    lo, hi, st = i.a
    if st is not NONE and intval(st) != 1:
        return None
    l = 0 if lo is NONE else intval(lo)
    h = 0 if hi is NONE else intval(hi)
    if l is None or h is None or l < 0 or (hi is not NONE and h >= 0):
        return None
    return l, -h


def nonneg(i):
    if i.op in ("idx", "len"):
        return True
    if is_num(i):
        return numval(i) >= 0
    if i.op == "poly_":
        return all(c >= 0 and all(x.op in ("idx", "len") for x, _ in m) for m, c in poly_dict(i).items())
    return False


def index(b, i):
    if b.op == "index":
        t = trim(b.a[1])
        if t is not None and i.op not in ("slice", "tuple"):
            if nonneg(i):
                return index(b.a[0], add(i, num(t[0])))
            if intval(i) is not None:
                return index(b.a[0], sub(i, num(t[1])))
    if b.op == "ite":
        x, y = index(b.a[1], i), index(b.a[2], i)
        if x.op != "index" and y.op != "index":
            return ite(b.a[0], x, y)
    if b.op in ("list", "tuple"):
        k = intval(i)
        if k is not None and -len(b.a) <= k < len(b.a):
            return b.a[k]
        if i.op == "slice":
            lo, hi, st = i.a
            vals = []
            ok = True
            for z in (lo, hi, st):
                if z is NONE:
                    vals.append(None)
                elif intval(z) is not None:
                    vals.append(intval(z))
                else:
                    ok = False
            if ok:
                return mk(b.op, *list(b.a)[slice(*vals)])
    if b.op == "map":
        n, lvl, body = b.a
        if i.op != "slice" and i.op != "tuple":
            if intval(i) is not None and intval(i) < 0:
                i = add(n, i)
            return subst(body, {mk("idx", n, lvl): i})
        t = trim(i)
        if t is not None:
            m = sub(n, num(t[0] + t[1]))
            return mk("map", m, lvl, subst(body, {mk("idx", n, lvl): add(mk("idx", m, lvl), num(t[0]))})) if m is not n else b
    if b.op == "dict":
        for kv in b.a:
            if kv.a[0] is i:
                return kv.a[1]
        if i.op == "const" and all(kv.a[0].op == "const" for kv in b.a):
            return mk("index", b, i)
    if b.op == "dstore" and b.a[1] is i:
        return b.a[2]
    if b.op in ("listof", "tupleof") and b.a[0].op in ("ditems", "dkeys", "dvalues", "map") and i.op not in ("slice", "tuple"):
        return index(b.a[0], i)
    if b.op in ("ditems", "dkeys", "dvalues") and nonneg(i):
        d = b.a[0]
        return tup([mk("dkey", d, i), mk("dval", d, i)]) if b.op == "ditems" else mk(b.op[:-1] if b.op == "dkeys" else "dval", d, i)
    if b.op == "repeat":   # [x]*n
        if i.op not in ("slice", "tuple"):
            return b.a[0]
    if i.op == "dkey" and i.a[0] is b:
        return mk("dval", b, i.a[1])
    if b.op == "dictmap":  # {key: val for ...} with key the bound index pattern
        n, lvl, k, v = b.a
        if k is i:
            return v
    return mk("index", b, i)


def length(b):
    if b.op in ("list", "tuple", "dict", "setof"):
        return num(len(b.a))
    if b.op == "map":
        return b.a[0]
    if b.op == "concat":
        return add(*[length(x) for x in b.a])
    if b.op == "const" and b.a[0] == "str":
        return num(len(b.a[1]))
    if b.op == "repeat":
        return b.a[1]
    if b.op == "ite":
        x, y = length(b.a[1]), length(b.a[2])
        if x is y:
            return x
    if b.op == "call" and b.a[0] in ("sorted", "reversed") and len(b.a[1].a) == 1:
        return length(b.a[1].a[0])
    if b.op in ("listof", "tupleof", "ditems", "dkeys", "dvalues"):
        return length(b.a[0])
    if b.op == "index":
        t = trim(b.a[1])
        if t is not None:
            return sub(length(b.a[0]), num(t[0] + t[1]))
    if b.op == "range":
        return b.a[1] if b.a[0] is ZERO else sub(b.a[1], b.a[0])
    return mk("len", b)


def concat(*xs):
    parts = []
    for x in xs:
        for y in (x.a if x.op == "concat" else (x,)):
            if y.op in ("list", "tuple") and not y.a:
                continue
            if parts and parts[-1].op == y.op and y.op in ("list", "tuple"):
                parts[-1] = mk(y.op, *(parts[-1].a + y.a))
            else:
                parts.append(y)
    if not parts:
        return xs[0] if xs else lst([])
    if len(parts) == 1:
        return parts[0]
    return mk("concat", *parts)


def fmt(parts):
    out = []
    for p in parts:
        for q in (p.a if p.op == "fmt" else (p,)):
            if is_str(q) and q.a[1] == "":
                continue
            if q.op == "const" and q.a[0] == "num":
                f = numval(q)
                q = const(str(int(f)) if f.denominator == 1 else repr(float(f)))
            if out and is_str(out[-1]) and is_str(q):
                out[-1] = const(out[-1].a[1] + q.a[1])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("fmt", *out)


ATTR_HOOK = [None]


def attr(b, name):
    if ATTR_HOOK[0] is not None:
        r = ATTR_HOOK[0](b, name)
        if r is not None:
            return r
    if b.op == "slice" and name in ("start", "stop", "step"):
        return b.a[("start", "stop", "step").index(name)]
    return mk("attr", b, name)


# ----------------------------------------------------------------------------- case expansion

def conds_of(t):
    """atomic gamma conditions of t"""
    out = []
    for x in walk(t):
        if x.op == "ite":
            for c in atoms_of_cond(x.a[0]):
                if c not in out:
                    out.append(c)
    return sorted(out)


def atoms_of_cond(c):
    if c.op in ("and", "or"):
        r = []
        for x in c.a:
            r += atoms_of_cond(x)
        return r
    if c.op in ("not",):
        return atoms_of_cond(c.a[0])
    if c.op in ("ne", "isnot", "notin", "le"):
        return [neg_b(c)]
    if c.op == "ite":
        return [y for x in c.a for y in atoms_of_cond(x)]
    if c.op == "const":
        return []
    return [c]


def assume(t, facts):
    """simplify t knowing facts: dict cond-term -> bool"""
    m = {}
    for c, v in facts.items():
        m[c] = const(v)
        n = neg_b(c)
        m[n] = const(not v)
        if c.op == "eq" and v:
            a, b = c.a
            if b.op == "const" and a.op != "const":
                m[a] = b
            elif a.op == "const" and b.op != "const":
                m[b] = a
        if c.op == "is" and v and c.a[1] is NONE:
            m[c.a[0]] = NONE
    return subst(t, m)


def cases(t, limit=64):
    """expand gammas: list of (facts, gamma-free term)"""
    out = []
    work = [({}, t)]
    while work:
        facts, x = work.pop()
        cs = conds_of(x)
        if not cs:
            out.append((facts, x))
            continue
        c = cs[0]
        for v in (True, False):
            f = dict(facts)
            f[c] = v
            y = assume(x, {c: v})
            if y is x:
                return None
            work.append((f, y))
        if len(work) + len(out) > limit:
            return None
    return out


# ----------------------------------------------------------------------------- printing

def show(t, depth=0):
    if depth > 14:
        return "…"
    d = depth + 1
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.a
    if o == "const":
        if a[0] == "num":
            return str(Fraction(*a[1]))
        return repr(a[1])
    if o == "sym":
        return str(a[0])
    if o == "attr":
        return f"{show(a[0], d)}.{a[1] if isinstance(a[1], str) else show(a[1], d)}"
    if o == "index":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "poly_":
        return "(" + " + ".join(show(x, d) for x in a) + ")"
    if o == "mono":
        c = numval(a[0])
        s = "*".join(show(x, d) for x in a[1:])
        if not s:
            return str(c)
        return s if c == 1 else f"{c}*{s}"
    if o == "pw":
        return show(a[0], d) if a[1] == 1 else f"{show(a[0], d)}^{a[1]}"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ",)"
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "idx":
        return f"i{a[1]}<{show(a[0], d)}>"
    if o == "map":
        return f"[{show(a[2], d)} | i{a[1]}<{show(a[0], d)}]"
    if o in ("eq", "ne", "lt", "le", "is", "isnot", "in", "notin"):
        return f"({show(a[0], d)} {dict(eq='==', ne='!=', lt='<', le='<=').get(o, o)} {show(a[1], d)})"
    if o == "call":
        args = [show(x, d) for x in a[1].a]
        args += [f"{kv.a[0]}={show(kv.a[1], d)}" for kv in a[2].a]
        return f"{a[0]}({', '.join(args)})"
    if o == "mcall":
        args = [show(x, d) for x in a[2].a]
        args += [f"{kv.a[0]}={show(kv.a[1], d)}" for kv in a[3].a]
        return f"{show(a[0], d)}.{a[1]}({', '.join(args)})"
    if o == "kw":
        return f"{a[0]}={show(a[1], d)}"
    return f"{o}({', '.join(show(x, d) for x in a)})"
