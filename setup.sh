#!/bin/sh
# Nothing to build: checks that the interpreters and the solver the checks use are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import numpy, scipy, autograd'
test "$(printf '(declare-const x Real)(assert (< (* x x) 0.0))(check-sat)\n' | z3-new -in)" = unsat
chmod +x check.sh
