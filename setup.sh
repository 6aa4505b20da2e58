#!/bin/sh
# nothing to build: the framework is interpreted; check that its interpreters are there
cd "$(dirname "$0")" && /opt/veriftools/pyvenv/bin/python -c 'import z3' && /opt/venv/bin/python -c 'import numpy, scipy' && mkdir -p evidence
