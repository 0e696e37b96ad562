#!/bin/bash
# tools/ver.sh PROPS...: verify; one line per property plus what was not discharged
cd /verif
for p in "$@"; do PYTHONPATH=. timeout 1500 python3-vt -m pyvc.run $p - 600 > /tmp/ver-$p.txt 2>&1
python3 - $p <<'P'
import sys,re
t=open(f"/tmp/ver-{sys.argv[1]}.txt").read()
ob=ok=0; w=0
for m in re.finditer(r"^== (.*) ([\d.]+)s paths=\S+ ob=(\d+) ok=(\d+) q=\S+ err=(.*)$",t,re.M):
    ob+=int(m[3]); ok+=int(m[4]); w=max(w,float(m[2]))
    if m[5]!="None": print("   ERR",m[1],m[5][:300])
print(sys.argv[1],f"{ok}/{ob} slowest {w}s")
for l in t.splitlines():
    if re.match(r"^   (undecided|refuted|vacuous)",l): print("  ",l[:200])
P
done
