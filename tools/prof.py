"""python3-vt tools/prof.py PROP INDEX SECONDS: profile one contract"""
import sys, cProfile, pstats, signal, importlib, traceback, time
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from pyvc.verify import V
m = importlib.import_module("contracts." + sys.argv[1])
name, fn = m.CONTRACTS[int(sys.argv[2])]
v = V(sys.argv[1], name)
class Stop(BaseException): pass
def alarm(*a):
    raise Stop()
signal.signal(signal.SIGALRM, alarm); signal.alarm(int(sys.argv[3]))
pr = cProfile.Profile(); pr.enable()
try:
    fn(v)
except BaseException as e:
    pr.disable()
    tb = traceback.extract_tb(e.__traceback__)
    for f in tb:
        print(f.filename.split("/")[-1], f.lineno, f.name, (f.line or "")[:100])
    print(type(e), str(e)[:300])
pr.disable()
for o in v.obs: print(o["status"], o["name"], o["time"])
pstats.Stats(pr).sort_stats("cumulative").print_stats(45)
