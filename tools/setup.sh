#!/bin/sh
# Nothing to install: checks compile the small C seam into a scratch directory themselves.  Verifies that this works.
cd "$(dirname "$0")/.." || exit 1
d=$(mktemp -d) || exit 1
gcc -O1 -shared -fPIC -o "$d/shim.so" dst/shim.c -ldl && /opt/venv/bin/python -c 'import numpy, pandas'
rc=$?
rm -rf "$d"
exit $rc
