#!/bin/sh
# nothing to install: the verifier is Python run by python3-vt; this only checks that the tools it needs are present
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
/usr/bin/clang++-18 --version | head -1
command -v opt-18 llvm-link-18 >/dev/null
mkdir -p evidence
