import argparse, json, os, re, sys, time
from . import check as K, props


def known(pid):
    """entries of known_findings.txt for the property: list of (key, text)"""
    out = []
    p = os.path.join(K.HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def key(f):
    return f"{f['rule']}:{f['where']}:{f['what']}".replace(" ", "_")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args(argv)
    t0 = time.time()
    K.setup()
    from . import rules
    findings, cov, gone = [], {}, []
    ref = []
    if props.ANCHORS.get(a.pid):
        fs, ref, gone, missing = K.refcheck(a.pid)
        findings += fs
        cov["missing_private"] = [m for m in missing if m not in gone]
    gen = rules.run(a.pid, K)
    findings += gen["findings"]
    ev = evidence(a, ref, gen, findings, gone, time.time() - t0)
    kn = dict(known(a.pid))
    new = []
    for f in findings:
        k = key(f)
        if k in kn:
            print(f"KNOWN-FINDING: property={a.pid} {kn[k]}")
        else:
            new.append(f)
    ev["violations"] = [{"key": key(f), **f} for f in new]
    d = os.path.join(K.HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, a.pid + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    c = ev["coverage"]
    print(f"{a.pid}: {c['entry_points']} entry points, {c['functions_analysed']} functions, {c['obligations']} obligations; "
          f"{c['holds']} hold, {c['violated']} violated, {c['undecided']} undecided ({ev['wall_s']} s)")
    for f in new:
        print(f"  [{f['rule']}] {f['where']} ({f.get('file', '')}) {f['what']} {f['loc']}: {f['detail'][:500]}")
    if new:
        print(f"VIOLATION property={a.pid} replay={path}")
        sys.exit(1)
    if gone:
        print("ANCHOR-LOST " + ", ".join(gone))
        sys.exit(2)
    sys.exit(0)


def evidence(a, ref, gen, findings, gone, wall):
    fun = set()
    for r in ref:
        fun |= set(r["inlined"])
        fun.add(r["name"])
    fun |= set(gen.get("functions", ()))
    und = [{"entry": r["name"], "status": r["status"], "why": [f[1] + " " + f[3][:300] for f in r["findings"]][:3]} for r in ref if not r["status"].startswith("equal") and r["status"] != "differs"]
    und += gen.get("undecided", [])
    nref = len(ref)
    viol = sum(r["status"] == "differs" for r in ref) + len(gen["findings"])
    hold = sum(r["status"].startswith("equal") for r in ref) + gen.get("holds", 0)
    cov = {
        "explanation": "Static value-graph analysis of the current sources (parsed, never executed): each entry point is summarised as terms over its symbolic inputs (returned value, rejected inputs, written state, registrations, argument mutations) and decided by the rules listed; obligations that cannot be decided are listed as undecided and raise no alarm.",
        "entry_points": nref + gen.get("entry_points", 0),
        "functions_analysed": len(fun),
        "obligations": hold + viol + len(und),
        "holds": hold, "violated": viol, "undecided": len(und),
        "rules": (["reference: the summary of every entry point agrees with the summary of the frozen, reviewed reference sources for all inputs"] if ref else []) + gen.get("rules", []),
        "entries": [{"entry": r["name"], "status": r["status"], "steps": r["steps"], "input_checks": r.get("checks", 0), "effects": r.get("effects", 0), "inlined": len(r["inlined"])} for r in ref],
        "details": gen.get("details", []),
        "undecided_list": und,
        "anchors_lost": gone,
    }
    return {"property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov, "wall_s": round(wall, 2),
            "assumptions": ["torch and numpy functions behave as documented", "the frozen reference sources under specs/ref (reviewed, repaired where defects were found) state the intended behaviour of the entry points compared by reference"]}
