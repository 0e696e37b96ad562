#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: decide one property on /repo's tree."""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
REAL = "/opt/venv/bin/python"
REPO = os.environ.get("SALIB_REPO", "/repo")
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))


def load(p):
    try:
        return json.load(open(p))
    except Exception:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    lv = LEVELS[prop]
    quick = tier == "quick"
    dbudget = lv.get("ded_s", 300) if quick else 3 * lv.get("ded_s", 300)
    rbudget = lv.get("rac_s", 30) if quick else 20 * lv.get("rac_s", 30)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    tmp = os.path.join(HERE, "replay", f".{prop}.{os.getpid()}")
    env = dict(os.environ, SALIB_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONPATH=HERE)
    if not quick:
        env["PYVC_OB_MS"] = "60000"
    ded = subprocess.Popen([VT, "-m", "pyvc.run", prop, tmp + ".d", str(dbudget)], cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    renv = dict(env, PYTHONPATH=os.path.join(REPO, "src") + ":" + HERE)
    rac = subprocess.Popen([REAL, "-m", "rac.run", prop, "--seed", str(seed), "--tier", tier, "--budget", str(rbudget), "--out", tmp + ".r"], cwd=HERE, env=renv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        de = ded.communicate(timeout=dbudget * 2 + 60)[1].decode()
    except subprocess.TimeoutExpired:
        ded.kill()
        de = "time limit"
    try:
        re_ = rac.communicate(timeout=rbudget + 200)[1].decode()
    except subprocess.TimeoutExpired:
        rac.kill()
        re_ = "time limit"
    D, R = load(tmp + ".d"), load(tmp + ".r")
    for s in (".d", ".r"):
        if os.path.exists(tmp + s):
            os.unlink(tmp + s)
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))).get("findings", []) if k["property"] == prop]
    obs, funcs, assume, errors, queries, solver = [], [], [], [], 0, 0.0
    for c in (D or {}).get("contracts", []):
        obs += c["obligations"]
        for f in c["functions"]:
            if f not in funcs:
                funcs.append(f)
        for x in c["assumptions"]:
            if x not in assume:
                assume.append(x)
        queries += c.get("stats", {}).get("queries", 0)
        solver += c.get("stats", {}).get("solver_s", 0)
        if c["error"]:
            errors.append(f"{c['contract']}: {c['error']}")
    if D is None:
        errors.append("verifier did not run: " + de[-800:])
    if R is None:
        errors.append("executable contracts did not run: " + re_[-800:])
    elif R["errors"]:
        errors += R["errors"]
    disc = [o for o in obs if o["status"] == "discharged"]
    refuted = [o for o in obs if o["status"] in ("refuted", "vacuous")]
    undec = [o for o in obs if o["status"] not in ("discharged", "refuted", "vacuous", "assumed-sat")]
    viol = []
    known_hit = []

    def is_known(kind, name, key):
        for k in known:
            if k["kind"] == kind and k["name"] == name and (k.get("key") is None or k["key"] == key):
                return k
        return None

    seen = set()
    for v in (R or {}).get("violations", []):
        k = is_known("input", v["check"], v["key"])
        if k:
            if k not in known_hit:
                known_hit.append(k)
            continue
        tag = (v["check"], v["key"])
        if tag in seen:
            continue
        seen.add(tag)
        f = os.path.join(HERE, "replay", f"{prop}-{len(viol)}.json")
        v = dict(v, property=prop, replay_cmd=f"cd {HERE} && PYTHONPATH={REPO}/src:{HERE} {REAL} -m rac.run {prop} --replay {f}")
        if refuted or undec:
            v["failed_obligations"] = (refuted + undec)[:5]
        json.dump(v, open(f, "w"), indent=1)
        viol.append((f, "", f"{v['check']}: {v['message']}"))
    # failed obligations without a failing input: a proof that is accepted on the unchanged tree and is no longer
    ref_unknown = []
    failed = refuted + (undec if lv["level"] == "proof" else [])
    for o in failed:
        k = is_known("obligation", o["name"], None)
        if k:
            if k not in known_hit:
                known_hit.append(k)
        else:
            ref_unknown.append(o)
    if ref_unknown and not viol:
        f = os.path.join(HERE, "replay", f"{prop}-obligation.json")
        json.dump({"property": prop, "failed_obligations": ref_unknown, "verifier": "pyvc (z3/cvc5)", "command": f"cd {HERE} && SALIB_REPO={REPO} {VT} -m pyvc.run {prop} -"}, open(f, "w"), indent=1)
        viol.append((f, " no-failing-input-found", f"obligation not discharged any more: {ref_unknown[0]['name']}: {ref_unknown[0]['detail'][:300]}"))
    ncase = sum((R or {}).get("cases", {}).values())
    wall = time.time() - t0
    complete = bool(disc) and not errors and not undec and not refuted
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": lv["level"] if complete else "exploration",
        "coverage": {
            "evaluations": ncase, "distinct_nontrivial": (R or {}).get("distinct", 0),
            "rule": "executable-contract cases (the bounded stand-in, never counted as proved): inputs drawn by the generators in rac/" + prop + ".py from VERIF_SEED plus its fixed edge cases; every case runs the real code against the contract; distinct = different inputs",
            "samples": (R or {}).get("samples", [])[:6],
            "obligations": len(obs), "discharged": len(disc),
            "undecided": [o["name"] + ": " + o["detail"][:200] for o in undec][:20],
            "refuted": [o["name"] for o in refuted][:20],
            "undecided_contracts": errors,
            "back_ends": {b: sum(o["backend"] == b for o in disc) for b in sorted({o["backend"] for o in disc})},
            "functions_under_contract": funcs,
            "contracts": [{"contract": c["contract"], "obligations": len(c["obligations"]), "paths": c.get("paths"), "wall_s": c["wall"]} for c in (D or {}).get("contracts", [])],
            "solver_queries": queries, "solver_s": round(solver, 2),
            "checker_cmd": f"{VT} -m pyvc.run {prop} -",
            "trusted_base": ["pyvc (AST transformation + symbolic semantics in /verif/pyvc)", "z3 5.3.2", "cvc5 1.1.2", "CPython"],
            "bounded_stand_in": {"what": "executable contracts on the real code (never counted as proved)", "cases": (R or {}).get("cases", {}), "total": ncase},
            "decided": "all obligations discharged" if complete else "degraded: undecided obligations are covered by the bounded stand-in only",
        },
        "assumptions": lv.get("assumptions", []) + BASE_ASSUMPTIONS + assume,
        "wall_s": round(wall, 1),
        "violations": len(viol),
        "known_findings": [k["what"] for k in known_hit],
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(disc)}/{len(obs)} obligations discharged over {len(funcs)} functions, {queries} solver queries ({solver:.1f}s), {ncase} executable-contract cases, {wall:.1f}s")
    for e in errors:
        print("UNDECIDED contract:", e[:300])
    for o in undec:
        print("UNDECIDED obligation:", o["name"], o["detail"][:200])
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        for f, tail, msg in viol:
            print(msg)
            print(f"VIOLATION property={prop} replay={f}{tail}")
        sys.exit(1)
    if not disc or not ncase:
        print("no obligation was discharged or no case was run: no answer")
        sys.exit(2 if not ncase else 0)
    sys.exit(0)


BASE_ASSUMPTIONS = [
    "integers are mathematical, floats are real numbers (rounding, overflow, nan/inf are outside the proofs)",
    "division by an expression not shown zero is real division",
    "library models (numpy, scipy, pandas) in /verif/pyvc; dropped: annotations, warnings and the message strings they print",
    "user callbacks and library calls terminate",
]

if __name__ == "__main__":
    main()
