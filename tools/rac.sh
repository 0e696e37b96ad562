#!/bin/bash
# rac.sh PROP...: run executable contracts alone
for p in "$@"; do echo "# $p"; PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONPATH=${SALIB_REPO:-/repo}/src:/verif /opt/venv/bin/python -m rac.run $p --budget ${B:-40} 2>&1 | cut -c1-420; done
