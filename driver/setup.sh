#!/bin/bash
# Verifies that the tools the checks use are present; every check builds what it needs itself.
cd "$(dirname "$0")/.." || exit 1
g++ --version | head -1 && python3 -c 'import sys; print("python", sys.version.split()[0])' || exit 1
ls /usr/include/eigen3/Eigen/Core >/dev/null && ls /opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so* || exit 1
mkdir -p evidence
