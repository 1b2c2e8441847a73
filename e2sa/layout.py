"""Normal form of chains of layout operations (view, permute, transpose, expand, repeat, ...): the chain
is an index map from the result to the row-major order of its base.  Both chains start by viewing the
same base, so the map is determined by the sizes alone; two chains denote the same value iff their maps
agree."""
from math import gcd
from .terms import *

OPS = {"view", "permute", "transpose", "expand", "squeeze", "unsqueeze", "flatten", "repeat"}


class No(Exception):
    pass


def chain(t):
    """(base, [(op, args)]) innermost first"""
    ops = []
    while True:
        if t.op == "mcall" and t.a[1] in OPS and not t.a[3].a:
            ops.append((t.a[1], list(t.a[2].a)))
            t = t.a[0]
        elif t.op == "call" and t.a[0] == "torch.repeat_interleave":
            kw = {k.a[0]: k.a[1] for k in t.a[2].a}
            if set(kw) != {"input", "repeats", "dim"}:
                break
            ops.append(("repeat_interleave", [kw["repeats"], kw["dim"]]))
            t = kw["input"]
        else:
            break
    return t, ops[::-1]


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def strides(shape):
    s, out = 1, []
    for d in reversed(shape):
        out.append(s)
        s *= d
    return out[::-1]


def walk_idx(shape):
    ix = [0] * len(shape)
    n = prod(shape)
    for _ in range(n):
        yield tuple(ix)
        for k in range(len(shape) - 1, -1, -1):
            ix[k] += 1
            if ix[k] < shape[k]:
                break
            ix[k] = 0


def gather(shape, data, new, f):
    st = strides(shape)
    return new, [data[sum(i * s for i, s in zip(f(ix), st))] for ix in walk_idx(new)]


def apply(shape, data, op, args):
    r = len(shape)
    if op == "view":
        d = list(args)
        if d.count(-1) == 1:
            k = prod(x for x in d if x != -1)
            if k <= 0 or len(data) % k:
                raise No
            d[d.index(-1)] = len(data) // k
        if prod(d) != len(data) or any(x <= 0 for x in d):
            raise No
        return tuple(d), data
    if op == "flatten":
        a, b = (list(args) + [0, -1][len(args):])[:2]
        a, b = a % r, b % r
        return tuple(shape[:a]) + (prod(shape[a:b + 1]),) + tuple(shape[b + 1:]), data
    if op == "permute":
        p = [x % r for x in args]
        if sorted(p) != list(range(r)):
            raise No
        return gather(shape, data, tuple(shape[x] for x in p), lambda ix: [ix[p.index(k)] for k in range(r)])
    if op == "transpose":
        i, j = [x % r for x in args]
        p = list(range(r))
        p[i], p[j] = p[j], p[i]
        return apply(shape, data, "permute", p)
    if op == "expand":
        d = list(args)
        pad = len(d) - r
        if pad < 0:
            raise No
        s = (1,) * pad + tuple(shape)
        new = tuple(x if y == -1 else y for x, y in zip(s, d))
        if any(x != y and x != 1 for x, y in zip(s, new)):
            raise No
        return gather(s, data, new, lambda ix: [0 if s[k] == 1 else ix[k] for k in range(len(s))])
    if op == "repeat":
        pad = len(args) - r
        if pad < 0:
            raise No
        s = (1,) * pad + tuple(shape)
        return gather(s, data, tuple(x * y for x, y in zip(s, args)), lambda ix: [ix[k] % s[k] for k in range(len(s))])
    if op == "repeat_interleave":
        n, k = args[0], args[1] % r
        new = tuple(x * n if i == k else x for i, x in enumerate(shape))
        return gather(shape, data, new, lambda ix: [ix[i] // n if i == k else ix[i] for i in range(r)])
    if op == "unsqueeze":
        k = args[0] % (r + 1)
        return tuple(shape[:k]) + (1,) + tuple(shape[k:]), data
    if op == "squeeze":
        if not args:
            raise No
        k = args[0] % r
        return (tuple(shape[:k]) + tuple(shape[k + 1:]), data) if shape[k] == 1 else (shape, data)
    raise No


def same(a, b, number):
    """True/False when decided, None otherwise; `number` gives the integer of a size term"""
    x, p = chain(a)
    y, q = chain(b)
    if x is not y or not p and not q:
        return None
    if not p or not q or p[0][0] != "view" or q[0][0] != "view":
        return None
    try:
        P = [(o, [number(v) for v in args]) for o, args in p]
        Q = [(o, [number(v) for v in args]) for o, args in q]
        if any(v is None for _, args in P + Q for v in args):
            return None
        kp, kq = [abs(prod(v for v in o[0][1] if v != -1)) for o in (P, Q)]
        if not kp or not kq:
            return None
        if -1 not in P[0][1]:
            n = kp
        elif -1 not in Q[0][1]:
            n = kq
        else:
            n = kp * kq // gcd(kp, kq)
            n *= 6
        if n > 4000:
            return None
        r = []
        for ops in (P, Q):
            s, d = (n,), list(range(n))
            for o, args in ops:
                s, d = apply(s, d, o, args)
                if len(d) > 20000:
                    return None
            r.append((s, d))
        return r[0] == r[1]
    except No:
        return None
    except (ValueError, IndexError, ZeroDivisionError):
        return None
