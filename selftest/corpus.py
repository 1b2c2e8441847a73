"""Hand-written edits of the package (behaviour-preserving ones and behaviour-changing ones) applied to
in-memory overlays; reports, per edit, which properties raise an alarm.  Development tool only: no
registered check reads it.

An edit file is a sequence of blocks
    @@ <id> <keep|bug> <property or -> <file relative to e2cnn/>
    <<<<
    old text
    ====
    new text
    >>>>
(several <<<< blocks may follow one header; further `@ file` lines switch file)."""
import warnings
warnings.simplefilter("ignore")
import sys, os, re, pickle, time, signal, multiprocessing as mp, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from e2sa import check as K, props, rules
from e2sa.front import Project
from e2sa.observe import observe, targets

CACHE = "/tmp/w/refinl.pickle"


def inl(n):
    signal.signal(signal.SIGALRM, K._alarm)
    signal.alarm(60)
    try:
        o = observe(K.REFP, K.REFT[n], opaque=K.OPAQUE)
        return n, o.inlined
    except Exception:
        return n, None
    finally:
        signal.alarm(0)


def parse(path):
    out = []
    cur = None
    lines = open(path).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("@@ "):
            _, id_, kind, pid, f = l.split()
            cur = {"id": id_, "kind": kind, "pid": pid, "edits": []}
            out.append(cur)
            file = f
        elif l.startswith("@ "):
            file = l.split()[1]
        elif l == "<<<<":
            j = lines.index("====", i)
            k = lines.index(">>>>", j)
            cur["edits"].append((file, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
            i = k
        i += 1
    return out


def replace(s, old, new, what):
    """replace the line block `old` (blank lines, comments and docstring-free matching)"""
    def sig(l):
        t = l.rstrip()
        return t if t.strip() and not t.strip().startswith("#") else None
    L = s.split("\n")
    idx = [i for i, l in enumerate(L) if sig(l)]
    o = [sig(l) for l in old.split("\n") if sig(l)]
    m = [k for k in range(len(idx) - len(o) + 1) if [sig(L[i]) for i in idx[k:k + len(o)]] == o]
    if not m and s.count(old) == 1:
        return s.replace(old, new)
    if len(m) != 1:
        raise ValueError(f"{what}: {len(m)} matches: {old[:80]!r}")
    a, b = idx[m[0]], idx[m[0] + len(o) - 1]
    return "\n".join(L[:a] + new.split("\n") + L[b + 1:])


def apply(e, root="/repo"):
    txt = {}
    for f, old, new in e["edits"]:
        p = os.path.join(root, "e2cnn", f)
        s = txt.get(p) or open(p).read()
        txt[p] = replace(s, old, new, e["id"])
    return txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--soft", action="store_true")
    a = ap.parse_args()
    K.setup()
    from e2sa import interp
    stamp = max(os.path.getmtime(os.path.join(K.HERE, "e2sa", f)) for f in ("interp.py", "front.py", "observe.py"))
    if os.path.exists(CACHE) and os.path.getmtime(CACHE) > stamp:
        INL = pickle.load(open(CACHE, "rb"))
    else:
        with mp.get_context("fork").Pool(8) as p:
            INL = dict(p.imap_unordered(inl, list(K.REFT), chunksize=2))
        pickle.dump(INL, open(CACHE, "wb"))
    tot = {}
    for f in a.files:
        for e in parse(f):
            try:
                for p, s in apply(e, K.REPO).items():
                    compile(s, p, "exec")
            except Exception as x:
                print("BAD", e["id"], x)
        for e in parse(f):
            if a.only and not re.search(a.only, e["id"]):
                continue
            t0 = time.time()
            d = f"/tmp/w/corp_{os.getpid()}"
            os.system(f"rm -rf {d}; mkdir -p {d}; cp -r {K.REPO}/e2cnn {d}/")
            try:
                new = apply(e, K.REPO)
            except ValueError:
                continue
            for p, s in new.items():
                compile(s, p, "exec")
                open(p.replace(K.REPO, d), "w").write(s)
            K.CURP = Project(d)
            K.CURT = dict(targets(K.CURP))
            K.CHANGE = K.Change(K.REFP, K.CURP)
            ch = K.CHANGE
            names = [n for n in K.REFT if n in K.CURT and not props.skip(n)]
            mods = ch.residue
            aff = [n for n in names if INL.get(n) is None or set(INL[n]) & ch.both or n in ch.both or any(n.startswith(m + ".") for m in mods) or ch.shadow]
            aff = [n for n in aff if INL.get(n) is not None]
            jobs, seen = [], {}
            for pid in props.ANCHORS:
                for n in aff:
                    asp = props.aspects(pid, n)
                    if asp:
                        seen.setdefault((n, asp), []).append(pid)
            with mp.get_context("fork").Pool(8) as p:
                res = p.map(K.job, list(seen), chunksize=1)
            byp = {}
            for (n, asp), r in zip(list(seen), res):
                for pid in seen[n, asp]:
                    byp.setdefault(pid, []).append(r)
            hard, soft = {}, {}
            for pid, rs in byp.items():
                fs = []
                for r in rs:
                    h = [x for x in r["findings"] if x[0]]
                    if h:
                        if K.private(r["name"]):
                            q = K.CURT[r["name"]]
                            fn = K.CURP.find_method(*q) if isinstance(q, tuple) else q
                            users = [u for u in rs if not K.private(u["name"]) and fn is not None and fn.qual in u["inlined"]]
                            if users and all(u["status"] == "equal" for u in users):
                                continue
                        if K.CHANGE.explained(set(r["inlined"]) | set(r.get("refinlined", ()))):
                            continue
                        hard.setdefault(pid, []).append((r["name"], h[0]))
                    elif r["status"] != "equal":
                        soft.setdefault(pid, []).append((r["name"], r["findings"][0] if r["findings"] else r["status"]))
                        if a.soft:
                            pass
            for pid in ("P27", "P28", "P30"):
                g = rules.run(pid, K)
                if g["findings"]:
                    hard.setdefault(pid, []).append((g["findings"][0]["where"], (True, g["findings"][0]["what"], "", g["findings"][0]["detail"])))
            ok = (not hard) if e["kind"] == "keep" else (bool(set(e["pid"].split(",")) & set(hard)) or (e["pid"] == "-" and bool(hard)))
            v = "ok" if ok else "FALSE-ALARM" if e["kind"] == "keep" else ("other" if hard else "MISSED")
            tot[v] = tot.get(v, 0) + 1
            print(f"{e['id']:28s} {e['kind']} {e['pid']} -> {v}  hard={','.join(sorted(hard))} soft={','.join(sorted(soft))} ({len(seen)} jobs, {time.time()-t0:.0f}s)", flush=True)
            if not ok or a.v:
                done = set()
                for pid, fs in list(hard.items()) + (list(soft.items()) if e["kind"] == "bug" or a.soft else []):
                    for n, x in fs:
                        k = (n, str(x))
                        if k in done or len(done) > 5:
                            continue
                        done.add(k)
                        print("      ", pid, n, (x if isinstance(x, str) else f"{'HARD' if x[0] else 'soft'} {x[1]} {x[3][:420]}"))
            os.system(f"rm -rf {d}")
    print(tot)


if __name__ == "__main__":
    main()
