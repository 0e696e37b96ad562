"""Executable contract of C20: parameter files are read faithfully."""
from .lib import *
import tempfile
from SALib.util import read_param_file


def gen(rng):
    n = int([1, rng.integers(2, 6), rng.integers(2, 30)][int(rng.integers(3))])
    cols = int(rng.integers(3, 6))
    delim = [",", ";", "\t", " "][int(rng.integers(4))]
    rows = []
    gs = ["G1", "G2", "NA", "grp", "NA"]
    ds = ["unif", "unif", "norm", "lognorm", "triang", "logunif", "truncnorm", "weibull"]
    mode = int(rng.integers(4))
    for i in range(n):
        lo = float(np.round(rng.normal() * 10 ** int(rng.integers(-3, 4)), 6))
        r = [f"p{i}x", repr(lo), repr(float(np.round(lo + rng.uniform(0.1, 9), 5)))]
        if cols > 3:
            r.append("NA" if mode == 0 else r[0] if mode == 1 else gs[int(rng.integers(len(gs)))])
        if cols > 4:
            r.append("unif" if rng.integers(3) == 0 or mode == 3 else ds[int(rng.integers(len(ds)))])
        rows.append(r)
    com = [int(rng.integers(0, n + 1)) for _ in range(int(rng.integers(0, 4)))]
    return {"rows": rows, "delim": delim, "com": com, "given": bool(rng.integers(2)), "crlf": bool(rng.integers(4) == 0), "noeol": bool(rng.integers(4) == 0), "space": bool(rng.integers(3) == 0)}


def check(a):
    rows, d = a["rows"], a["delim"]
    lines = [d.join(r) for r in rows]
    for c in sorted(a["com"], reverse=True):
        lines.insert(c, (" #" if a["space"] and d != " " else "#") + d.join(["comment", "0", "1", "G", "u"][:len(rows[0])]))
    eol = "\r\n" if a["crlf"] else "\n"
    txt = eol.join(lines) + ("" if a["noeol"] else eol)
    with tempfile.TemporaryDirectory() as t:
        fn = os.path.join(t, "p.txt")
        with open(fn, "w", newline="") as f:
            f.write(txt)
        groups = [r[3] if len(r) > 3 and r[3] != "NA" else r[0] for r in rows]
        names = [r[0] for r in rows]
        rd = lambda: read_param_file(fn, d) if a["given"] else read_param_file(fn)
        if groups != names and len(set(groups)) == 1:
            raises(ValueError, rd, "only one group over several parameters")
            return
        p = rd()
    dists = [r[4] if len(r) > 4 else "unif" for r in rows]
    req(p["names"] == names, f"names {p['names']}")
    req(p["num_vars"] == len(names), "number of variables")
    req([list(b) for b in p["bounds"]] == [[float(r[1]), float(r[2])] for r in rows], f"bounds {p['bounds']}")
    req(p["groups"] == (None if groups == names else groups), f"groups {p['groups']}")
    req(p["dists"] == (None if all(x == "unif" for x in dists) else dists), f"dists {p['dists']}")


CHECKS = [{"name": "parameter files", "gen": gen, "check": check, "n": 800}]
