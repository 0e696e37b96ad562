"""python3-vt -m pyvc.run PROP OUT.json [TIMEOUT]: run every contract of a property."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def one(prop, cname, q):
    sys.setrecursionlimit(20000)
    from . import verify
    from .core import EngineStop, Unsupported
    mod = importlib.import_module(f"contracts.{prop}")
    fn = dict(mod.CONTRACTS)[cname]
    v = getattr(mod, "VERIFIER", verify.V)(prop, cname)
    t = time.time()
    err = None
    try:
        fn(v)
    except EngineStop as e:
        err = f"{type(e).__name__}: {e}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = f"engine: {type(e).__name__}: {e} at {[(f.filename.split('/')[-1], f.lineno) for f in tb[-4:]]}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    if os.environ.get("PYVC_KEYS"):
        from . import core
        for a, b in core._keys.items():
            print("KEY", b, " ".join(a.split())[:500], file=sys.stderr)
    r = v.result()
    r["error"] = err[:1500] if err else None
    r["wall"] = round(time.time() - t, 2)
    r["contract"] = cname
    q.put(r)


def run(prop, timeout=300, jobs=6, only=None):
    mod = importlib.import_module(f"contracts.{prop}")
    ctx = mp.get_context("fork")
    todo = [c for c, _ in mod.CONTRACTS if only is None or c in only]
    res = {}
    active = []
    pend = list(todo)
    while pend or active:
        while pend and len(active) < jobs:
            c = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=one, args=(prop, c, q))
            p.start()
            active.append((c, p, q, time.time()))
        time.sleep(0.02)
        nxt = []
        for c, p, q, t in active:
            if not q.empty():
                res[c] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                if not q.empty():
                    res[c] = q.get()
                else:
                    res[c] = {"contract": c, "error": f"contract process died ({p.exitcode})", "obligations": [], "functions": [], "assumptions": [], "stats": {}, "wall": time.time() - t}
            elif time.time() - t > timeout:
                p.kill()
                res[c] = {"contract": c, "error": f"time limit {timeout}s", "obligations": [], "functions": [], "assumptions": [], "stats": {}, "wall": time.time() - t}
            else:
                nxt.append((c, p, q, t))
        active = nxt
    return {"contracts": [res[c] for c in todo], "doc": getattr(mod, "META", {})}


if __name__ == "__main__":
    prop, out = sys.argv[1], sys.argv[2]
    to = float(sys.argv[3]) if len(sys.argv) > 3 else 300
    r = run(prop, to, only=sys.argv[4:] or None)
    if out == "-":
        for c in r["contracts"]:
            print(f"== {c['contract']} {c['wall']:.1f}s paths={c.get('paths')} ob={len(c['obligations'])} ok={sum(o['status']=='discharged' for o in c['obligations'])} q={c['stats'].get('queries')} err={c['error']}")
            for o in c["obligations"]:
                if o["status"] != "discharged" or os.environ.get("PYVC_V"):
                    print("  ", o["status"], o["name"], o["backend"], o["time"], o["detail"][:600] if o["status"] != "discharged" else "")
            for a in c["assumptions"]:
                print("   assume:", a)
    else:
        json.dump(r, open(out, "w"))
