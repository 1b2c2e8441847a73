"""Observable behaviour of one entry point as value-graph terms: returned value, rejected
inputs (guards), state written, arguments mutated, parameters/buffers/submodules registered."""
from .terms import *
from . import terms as TM
from .interp import Run, Budget, State, Frame
from .front import Class


class Obs:
    def __init__(self):
        self.ret = None
        self.attrs = {}        # attribute of self -> term after the call (strings only)
        self.fails = []        # (formula, exception name, loc)
        self.effects = []      # (kind, term, loc)
        self.status = "ok"
        self.steps = 0
        self.inlined = ()
        self.note = ""
        self.defaults = {}     # parameter -> default value
        self.params = ()
        self.base = {}         # attributes set by the constructor
        self.ctor_params = ()
        self.memos = []        # (table, key path, value, own function?, location)
        self.pre = []          # inputs rejected by the constructor


def close(loops, t, ex):
    """bind the loop indices of t: existential (formulas) or generator (effects)"""
    for n, lvl in reversed(loops):
        ix = mk("idx", n, lvl)
        if contains_term(t, ix):
            t = mk("exists", n, lvl, t) if ex else mk("each", n, lvl, t)
        elif not ex:
            t = mk("each", n, lvl, t)
        else:
            t = conj([t, cmp("lt", ZERO, n)]) if not is_num(n) else t
    return t


def formulas(guards):
    """failure formulas (conditions established by earlier guards are not part of the path condition)"""
    out = []
    for g in guards:
        c, exc = g.data if isinstance(g.data, tuple) else (g.data, "")
        f = conj(list(g.pc) + [neg_b(c)]) if g.kind == "assert" else conj(g.pc)
        if truth(f) is False:
            continue
        out.append((close(g.loops, f, True), exc, g))
    return out


def observe(P, target, opaque=(), budget=60000, given=None, facts=None, lazy=False, max_depth=10):
    """target: Func, or (Class, method name), or (Class, '__init__')"""
    o = Obs()
    r = Run(P, opaque=opaque, budget=budget, facts=facts, max_depth=max_depth)
    try:
        if isinstance(target, tuple):
            cls, m = target
            if lazy:
                r.lazy(cls)
            else:
                r.build(cls, given=given)
            ng, ne = len(r.I.guards), len(r.I.effects)
            before = r.attrs()
            if m == "__init__":
                o.ret = NONE
                ng = ne = 0
                before = {}
            else:
                # start of the method: constructor guards become assumptions of the path
                o.ret = r.method(m, prefix="")
            o.base = {k: v for k, v in before.items() if isinstance(k, str)}
            after = r.attrs()
            for k, v in after.items():
                if isinstance(k, str) and before.get(k) is not v:
                    o.attrs[k] = v
            guards, effects = r.I.guards[ng:], r.I.effects[ne:]
            o.pre = [f for f, _, _ in formulas(r.I.guards[:ng])]
        else:
            o.ret = r.function(target, given=given)
            guards, effects = r.I.guards, r.I.effects
        fn = target if not isinstance(target, tuple) else P.find_method(target[0], target[1])
        if fn is not None:
            a = fn.node.args
            pos = a.posonlyargs + a.args
            fr = Frame(fn, fn.module, {}, ())
            for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if d is not None:
                    o.defaults[x.arg] = r.I.freeze(r.I.ev(d, fr, r.st), r.st)
            o.params = tuple(x.arg for x in pos + a.kwonlyargs)
        if isinstance(target, tuple):
            ini = P.find_method(target[0], "__init__")
            if ini is not None and hasattr(ini, "node"):
                ia = ini.node.args
                o.ctor_params = tuple(x.arg for x in ia.posonlyargs + ia.args + ia.kwonlyargs)
        o.memos = [(e.data.a[0], e.data.a[1], e.data.a[2], e) for e in effects if e.kind == "memo"]
        o.fails = formulas(guards)
        for e in effects:
            if e.kind in ("mutate", "buffer", "param", "module", "delattr", "setglobal", "print", "badcall", "setattr", "unmodelled", "stmt", "augname"):
                if e.kind == "setattr" and e.data.a[0].op == "sym" and e.data.a[0].a[0] == "self":
                    continue
                t = e.data if isinstance(e.data, T) else mk("data", repr(e.data))
                c = conj(e.pc)
                t = mk("eff", e.kind, t, c)
                o.effects.append((e.kind, close(e.loops, t, False), e))
    except Budget:
        o.status = "budget"
    except RecursionError:
        o.status = "recursion"
    o.steps = r.I.steps
    o.inlined = tuple(sorted(r.I.inlined))
    TM.ATTR_HOOK[0] = None
    return o


def targets(P):
    """every entry point of the package: (name, target)"""
    for mn in sorted(P.modules):
        m = P.modules[mn]
        for k in sorted(m.bindings):
            b = m.bindings[k]
            if b[0] == "func":
                yield b[1].qual, b[1]
            elif b[0] == "class":
                c = b[1]
                names = set()
                for x in P.mro(c):
                    if isinstance(x, Class):
                        names |= set(x.methods)
                for n in sorted(names):
                    f = P.find_method(c, n)
                    if f.is_abstract or f.is_classmethod:
                        continue
                    if f.is_static and f.cls is c:
                        yield f.qual, f
                        continue
                    if f.is_static:
                        continue
                    if n in c.methods or n == "__init__":
                        yield f"{c.qual}.{n}", (c, n)
                    else:
                        yield f"{c.qual}.{n}", (c, n)
