"""Decide one property: observe its entry points in the frozen reference sources and in the current
tree, compare, run the whole-program rules, write evidence."""
import ast, json, multiprocessing as mp, os, signal, sys, time, traceback
from .front import Project, Class
from .observe import observe, targets
from . import compare as C, props, rules

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "specs", "ref")
REPO = os.environ.get("E2SA_REPO", "/repo")
OPAQUE = ("indexes_from_labels",)
LIMIT = int(os.environ.get("E2SA_LIMIT", "90"))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


REFP = CURP = REFT = CURT = CHANGE = None


def setup(overlay=None):
    global REFP, CURP, REFT, CURT, CHANGE
    sys.setrecursionlimit(20000)
    REFP, CURP = Project(REF), Project(REPO, overlay=overlay) if overlay else Project(REPO)
    REFT, CURT = dict(targets(REFP)), dict(targets(CURP))
    CHANGE = Change(REFP, CURP)


def private(name):
    t = name.rsplit(".", 1)[1]
    return t.startswith("_") and not t.startswith("__")


def pick_type(t):
    """type argument of the tagged tensor(s) in a returned value"""
    out = []
    seen = set()

    def rec(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "new" and isinstance(x.a[0], str) and x.a[0].endswith("GeometricTensor"):
            for k in x.a[1:]:
                if getattr(k, "op", None) == "kw" and k.a[0] == "type":
                    out.append(k.a[1])
            return
        for y in x.a:
            if hasattr(y, "op"):
                rec(y)
            elif isinstance(y, tuple):
                for z in y:
                    if hasattr(z, "op"):
                        rec(z)
    rec(t)
    return out


def compare_aspects(r, c, asp):
    what = [a for a in asp if a in ("ret", "attrs", "fails", "effects")]
    out = []
    if "defaults" not in asp:
        r2, c2 = r, c
        r.defaults, c.defaults = {}, {}
    if "type" in asp and "ret" not in asp:
        rt, ct = pick_type(r.ret) if r.ret is not None else [], pick_type(c.ret) if c.ret is not None else []
        if len(rt) == len(ct):
            r.ret, c.ret = C.mk("tuple", *rt), C.mk("tuple", *ct)
            what.append("ret")
    if "types" in asp and "attrs" not in asp:
        for o in (r, c):
            o.attrs = {k: v for k, v in o.attrs.items() if k in ("in_type", "out_type")}
        what.append("attrs")
    return out + C.compare(r, c, what=tuple(what))


def job(a):
    name, asp = a
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    t0 = time.time()
    res = {"name": name, "status": "ok", "findings": [], "inlined": [], "steps": 0, "terms": 0}
    try:
        lazy = name.endswith("__eq__") or name.endswith("__hash__")
        o1 = observe(REFP, REFT[name], opaque=OPAQUE)
        o2 = observe(CURP, CURT[name], opaque=OPAQUE)
        res["steps"] = o2.steps
        res["inlined"] = list(o2.inlined)
        res["refinlined"] = list(o1.inlined)
        res["checks"] = len(o2.fails)
        res["effects"] = len(o2.effects)
        if o1.status != "ok" or o2.status != "ok":
            res["status"] = f"bounded:{o1.status}/{o2.status}"
        else:
            fs = []
            for a in asp:
                if a in rules.ASPECTS:
                    fs += rules.ASPECTS[a](None, name, o1, o2)
            if any(a not in rules.ASPECTS for a in asp):
                fs += [(f.hard, f.what, str(f.loc), f.detail) for f in compare_aspects(o1, o2, asp)]
            res["findings"] = fs
            res["status"] = "equal" if not fs else "differs" if any(f[0] for f in fs) else "undecided"
    except Timeout:
        res["status"] = "bounded:time"
    except (RecursionError, C.TM.Exhausted):
        res["status"] = "bounded:size"
    except Exception as e:
        res["status"] = "bounded:error " + repr(e)[:200] + traceback.format_exc()[-300:]
    finally:
        signal.alarm(0)
    res["s"] = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------ composition
def functions(P):
    """qualified name -> (syntax without docstring, Func) and module residue (everything outside of functions)"""
    out, res = {}, {}
    for mn, m in P.modules.items():
        rest = []
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                out[f"{mn}.{s.name}"] = norm(s)
            elif isinstance(s, ast.ClassDef):
                rest.append(s.name + "|" + ",".join(ast.dump(b) for b in s.bases))
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        out[f"{mn}.{s.name}.{x.name}"] = norm(x)
                    elif not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass):
                        rest.append(ast.dump(x))
            elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                rest.append(ast.dump(s))
        res[mn] = rest
    return out, res


def norm(f):
    b = f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        b = b[1:]
    return ast.dump(f.args) + "|" + ";".join(ast.dump(d) for d in f.decorator_list) + "|" + ";".join(ast.dump(x) for x in b)


class Change:
    """what differs syntactically between the reference and the current tree"""

    def __init__(self, P, Q):
        f1, r1 = functions(P)
        f2, r2 = functions(Q)
        self.both = {q for q in f1 if q in f2 and f1[q] != f2[q]}
        self.only = {q for q in set(f1) ^ set(f2)}
        self.residue = {m for m in set(r1) | set(r2) if r1.get(m) != r2.get(m)}
        names = {q.rsplit(".", 1)[1] for q in set(f1) & set(f2)}
        self.shadow = {q for q in self.only if q.rsplit(".", 1)[1] in names}
        self.memo = {}

    def any(self):
        return bool(self.both or self.only or self.residue)

    def explained(self, involved):
        """every changed function involved is equal by itself, hence the whole is"""
        if self.shadow or self.residue:
            return False
        g = self.both & set(involved)
        if not g:
            return False
        return all(self.equal(q) for q in sorted(g))

    def equal(self, q):
        if q not in self.memo:
            self.memo[q] = False
            if q in REFT and q in CURT:
                signal.signal(signal.SIGALRM, _alarm)
                signal.alarm(LIMIT)
                try:
                    a, b = observe(REFP, REFT[q], opaque=OPAQUE), observe(CURP, CURT[q], opaque=OPAQUE)
                    self.memo[q] = a.status == b.status == "ok" and not C.compare(a, b, public_only=False)
                except (Timeout, RecursionError, C.TM.Exhausted):
                    pass
                finally:
                    signal.alarm(0)
        return self.memo[q]


def where(P, T, name):
    t = T.get(name)
    f = P.find_method(*t) if isinstance(t, tuple) else t
    if f is None:
        return "?"
    try:
        return f"{os.path.relpath(f.module.path, P.root)}:{f.node.lineno}"
    except Exception:
        return f.qual


def refcheck(pid, pool=None):
    """returns (findings, coverage, errors)"""
    names = [n for n in REFT if not props.skip(n) and props.aspects(pid, n)]
    missing = [n for n in names if n not in CURT]
    gone = [n for n in missing if not private(n)]
    names = [n for n in names if n in CURT]
    jobs = [(n, props.aspects(pid, n)) for n in names]
    if len(jobs) > 3:
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
            res = list(p.imap_unordered(job, jobs, chunksize=1))
    else:
        res = [job(j) for j in jobs]
    res.sort(key=lambda r: r["name"])
    by = {r["name"]: r for r in res}
    findings = []
    for r in res:
        hard = [f for f in r["findings"] if f[0]]
        if not hard:
            continue
        if private(r["name"]):
            # a private helper may change its contract together with its callers
            q = CURT[r["name"]]
            f = CURP.find_method(*q) if isinstance(q, tuple) else q
            users = [u for u in res if not private(u["name"]) and f is not None and f.qual in u["inlined"]]
            if users and all(u["status"] == "equal" for u in users):
                r["status"] = "equal (through its callers)"
                continue
        if CHANGE.explained(set(r["inlined"]) | set(r.get("refinlined", ()))):
            r["status"] = "equal (each changed function is)"
            continue
        for f in hard:
            findings.append({"rule": "reference", "where": r["name"], "file": where(CURP, CURT, r["name"]), "what": f[1], "loc": f[2], "detail": f[3]})
    return findings, res, gone, missing
