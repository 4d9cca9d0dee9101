#!/bin/bash
# Nothing is carried from here to the checks: each check rebuilds what it needs from /repo in its own scratch directory.
set -e
cd "$(dirname "$0")"
for t in g++ python3 z3-new; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo '(declare-const x Real)(assert (not (= (* x x) (* x x))))(check-sat)' | z3-new -in | grep -q '^unsat$'
python3 -c "import ast,glob;[ast.parse(open(f).read()) for f in glob.glob('tools/*.py')+['check.py']]"
mkdir -p evidence
echo ok
