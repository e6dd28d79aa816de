#!/bin/sh
# Nothing to compile: check that the interpreter with the solver bindings is there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec "${VERIF_PYTHON:-python3-vt}" -B -c 'import z3, engine.core; print("z3", z3.get_version_string())'
