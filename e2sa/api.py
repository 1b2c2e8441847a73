"""One spelling per tensor operation: methods, functions, positional and keyword arguments, torch and
numpy names of the same pure operation are mapped to the same term, so that API-level rewrites do not
change the value graph."""
from .terms import *

# canonical name -> (signature, further names).  Both `torch.<n>(x, ...)` and `x.<n>(...)` are covered.
RED = "input dim keepdim"
MATH = {
    "max": RED, "min": RED, "sum": RED, "mean": RED, "prod": RED, "argmax": RED, "argmin": RED, "any": RED, "all": RED,
    "var": "input dim unbiased keepdim", "std": "input dim unbiased keepdim", "norm": "input p dim keepdim", "cumsum": "input dim",
    "relu": "input", "sigmoid": "input", "tanh": "input", "log": "input", "softplus": "input", "sign": "input", "round": "input", "isnan": "input",
    "clamp": "input min max", "bmm": "input mat2", "masked_fill": "input mask value", "gather": "input dim index",
    "index_select": "input dim index", "roll": "input shifts dims", "flip": "input dims", "logical_not": "input", "logical_and": "input other", "logical_or": "input other",
    "isclose": "input other rtol atol", "allclose": "input other rtol atol", "where": "condition input other", "repeat_interleave": "input repeats dim",
    "trace": "input", "fliplr": "input", "flipud": "input",
}
MATH = {k: v.split() for k, v in MATH.items()}
ALIAS_F = {"torch.clip": "clamp", "torch.amax": "max", "torch.amin": "min", "numpy.amax": "max", "numpy.amin": "min", "torch.linalg.vector_norm": "norm"}
FMODS = ("torch.", "numpy.", "torch.nn.functional.", "torch.special.")
RENAME = {"axis": "dim", "keepdims": "keepdim"}
DROP = {"keepdim": FALSE, "dim": NONE, "p": num(2), "unbiased": TRUE}
UN = {"cos": "cos", "sin": "sin", "exp": "exp", "abs": "abs", "absolute": "abs", "floor": "floor", "ceil": "ceil", "sqrt": "sqrt"}
# operations that only rearrange; canonical form: method
LAYOUT = {"view", "reshape", "permute", "transpose", "expand", "squeeze", "unsqueeze", "flatten", "contiguous", "narrow", "chunk", "repeat", "t", "detach", "swapaxes"}
NUMPY_ONLY = {"numpy.any", "numpy.all", "numpy.round"}
BIN = {"add", "sub", "mul", "div", "true_divide", "subtract", "multiply", "divide"}


def _bind(sig, fa, kw):
    d = {}
    for k, v in kw.items():
        d[RENAME.get(k, k)] = v
    if len(fa) > len(sig):
        return None
    for k, v in zip(sig, fa):
        if k in d:
            return None
        d[k] = v
    return d


def _num_neg(v):
    return v


def call(op, d):
    d = {k: v for k, v in d.items() if not (k in DROP and DROP[k] is v)}
    if op in ("fliplr", "flipud"):
        pass
    return mk("call", "torch." + op, mk("tuple"), mk("kws", *[mk("kw", k, d[k]) for k in sorted(d)]))


def arith(op, x, y):
    if is_seq(x) or is_seq(y):
        return None
    if op in ("add",):
        return add(x, y)
    if op in ("sub", "subtract"):
        return sub(x, y)
    if op in ("mul", "multiply"):
        return mul(x, y)
    return div(x, y)


def matmul(a, b):
    """matrix products are associative"""
    return mk("matmul", *((a.a if a.op == "matmul" else (a,)) + (b.a if b.op == "matmul" else (b,))))


def func(name, fa, kw, unary):
    """term of torch.<..>/numpy.<..> function application or None"""
    op = ALIAS_F.get(name)
    if op is None:
        for m in FMODS:
            if name.startswith(m) and "." not in name[len(m):]:
                op = name[len(m):]
                break
        else:
            return None
    if name in NUMPY_ONLY or "out" in kw:
        return None
    if op in UN and len(fa) == 1 and not kw:
        return unary(UN[op], fa[0])
    if op in ("relu",) and kw.get("inplace", FALSE) is FALSE:
        kw = {k: v for k, v in kw.items() if k != "inplace"}
    if op in MATH:
        if op in ("max", "min") and len(fa) == 2 and not kw and name.startswith("torch") and not is_num(fa[1]):
            return mk("call", "torch." + op + "imum", tup(sorted(fa)), mk("kws"))
        if op in ("var", "std") and name.startswith("numpy"):
            return None
        if op == "where" and len(fa) + len(kw) == 1:
            return None
        d = _bind(MATH[op], fa, kw)
        return call(op, d) if d is not None else None
    if op in ("maximum", "minimum") and len(fa) == 2 and not kw:
        return mk("call", "torch." + op, tup(sorted(fa)), mk("kws"))
    if op in ("pow", "power") and len(fa) == 2 and not kw:
        return power(fa[0], fa[1])
    if op == "square" and len(fa) == 1 and not kw:
        return power(fa[0], num(2))
    if op == "rsqrt" and len(fa) == 1 and not kw:
        return inv(unary("sqrt", fa[0]))
    if op == "reciprocal" and len(fa) == 1 and not kw:
        return inv(fa[0])
    if op in ("neg", "negative") and len(fa) == 1 and not kw:
        return neg(fa[0])
    if op in BIN and len(fa) == 2 and not kw:
        return arith(op, *fa)
    if op in ("matmul", "mm", "dot") and len(fa) == 2 and not kw:
        return matmul(fa[0], fa[1])
    if op in LAYOUT and fa and not (name.startswith("numpy") and op in ("transpose", "repeat", "squeeze")):
        return layout(fa[0], op, list(fa[1:]), kw)
    if name == "numpy.transpose" and len(fa) == 1 and not kw:
        return attr(fa[0], "T")
    if op in ("cat", "concat", "concatenate"):
        d = {{"axis": "dim", "arrays": "tensors"}.get(k, k): v for k, v in kw.items()}
        for k, v in zip(("tensors", "dim"), fa):
            d[k] = v
        if d.get("dim") is ZERO:
            del d["dim"]
        return mk("call", "torch.cat", mk("tuple"), mk("kws", *[mk("kw", k, d[k]) for k in sorted(d)]))
    return None


def layout(x, name, fa, kw):
    kw = {RENAME.get(k, k): v for k, v in kw.items()}
    if name == "reshape":
        name = "view"
    if name == "swapaxes":
        name = "transpose"
    if name in ("view", "permute", "expand", "repeat") and len(fa) == 1 and fa[0].op in ("tuple", "list"):
        fa = list(fa[0].a)
    if name == "contiguous" and not fa and not kw:
        return x
    if name in ("squeeze", "unsqueeze") and "dim" in kw and not fa:
        fa, kw = [kw["dim"]], {k: v for k, v in kw.items() if k != "dim"}
    if name == "transpose" and len(fa) == 2 and all(intval(v) is not None for v in fa):
        fa = sorted(fa, key=lambda v: intval(v))
    if name == "t" and not fa:
        return attr(x, "T")
    return mk("mcall", x, name, tup(fa), mk("kws", *[mk("kw", k, kw[k]) for k in sorted(kw)]))


def method(recv, name, fa, kw, unary):
    """term of the method application recv.name(...) or None"""
    if name in LAYOUT:
        if name == "transpose" and not fa and not kw:
            return attr(recv, "T")
        return layout(recv, name, fa, kw)
    if is_seq(recv) or recv.op in ("dict", "setof", "ddict", "fmt") or is_str(recv):
        return None
    if name == "clip":
        name = "clamp"
    if name in UN and not fa and not kw:
        return unary(UN[name], recv)
    if name in MATH and name not in ("where", "round"):
        d = _bind(MATH[name], [recv] + list(fa), kw)
        return call(name, d) if d is not None else None
    if name == "pow" and len(fa) == 1 and not kw:
        return power(recv, fa[0])
    if name == "square" and not fa and not kw:
        return power(recv, num(2))
    if name == "rsqrt" and not fa and not kw:
        return inv(unary("sqrt", recv))
    if name == "reciprocal" and not fa and not kw:
        return inv(recv)
    if name == "neg" and not fa and not kw:
        return neg(recv)
    if name in ("add", "sub", "mul", "div") and len(fa) == 1 and not kw:
        return arith(name, recv, fa[0])
    if name in ("matmul", "mm", "dot") and len(fa) == 1 and not kw:
        return matmul(recv, fa[0])
    if name in ("float", "double", "long", "int", "half", "bool") and not fa and not kw:
        return mk("mcall", recv, "to", mk("tuple"), mk("kws", mk("kw", "dtype", mk("ext", "torch." + name))))
    if name == "to" and len(fa) == 1 and not kw and fa[0].op == "ext":
        return mk("mcall", recv, "to", mk("tuple"), mk("kws", mk("kw", "dtype", fa[0])))
    return None
