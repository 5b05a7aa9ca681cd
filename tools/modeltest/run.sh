#!/bin/bash
# Validates the table of library functions of the analyser (not reor): every expression of fz.py is evaluated by numpy
# and, with arrays of concrete and of symbolic shape, by the abstract interpreter; the values must agree, and different
# values must not share a term.  Works in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/modeltestXXXXXX)
cp "$here"/*.py "$w"; cp -a "$here/../../reorsa" "$w"; cd "$w"
/opt/venv/bin/python fz.py && /opt/venv/bin/python real.py && python3 params.py
for m in c s; do /opt/veriftools/pyvenv/bin/python compare.py $m | grep -v '^\['; done
rm -rf "$w"
