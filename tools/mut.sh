#!/bin/bash
# tools/mut.sh PROP FILE SED-EXPR : run the verifier and the executable contracts on a mutated scratch copy
M=/tmp/mut.$$; mkdir -p $M; cp -a /repo/src $M/src
sed -i "$3" $M/src/SALib/$2
diff -q /repo/src/SALib/$2 $M/src/SALib/$2 >/dev/null && echo "NO CHANGE"
diff /repo/src/SALib/$2 $M/src/SALib/$2 | head -4
cd /verif
export SALIB_REPO=$M PYTHONDONTWRITEBYTECODE=1
echo "--ded"; PYTHONPATH=/verif python3-vt -m pyvc.run $1 - 2>&1 | grep -v "assume:" | grep -v "err=None$" | cut -c1-260 | head -${4:-6}
echo "--rac"; PYTHONPATH=$M/src:/verif /opt/venv/bin/python -m rac.run $1 --budget 25 2>&1 | cut -c1-240 | tail -n +2 | head -3
rm -rf /tmp/mut.$$
