#!/bin/bash
# Nothing to compile: the specification is executed by Quint, the drivers by Python.
# Verifies that the tools are there and that the specification's own tests pass.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, scipy, matplotlib"
cd spec
quint test cases.qnt > /dev/null
echo "setup ok"
