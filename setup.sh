#!/bin/bash
# Nothing to install: verify that the tools the checks use are there.
set -e
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())'
cvc5 --version | head -1
/opt/venv/bin/python -c 'import numpy, scipy, pandas; print(numpy.__version__, scipy.__version__, pandas.__version__)'
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/replay"
