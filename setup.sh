#!/bin/bash
# Nothing is installed: the checks use the preinstalled tools.  Verifies that they are there and builds the C++ modules once.
set -e
python3-vt -c "import z3, cvc5, sympy" 
test -x /opt/venv/bin/python
bash /opt/vp/build_solibs.sh >/tmp/.dt_verif_setup.log 2>&1 || { tail -20 /tmp/.dt_verif_setup.log; exit 1; }
rm -f /tmp/.dt_verif_setup.log
mkdir -p "$(dirname "$0")/evidence"
echo ready
