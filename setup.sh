#!/bin/bash
# Nothing is built ahead of time: every check encodes /repo's current tree. This only verifies that the tools are there.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import z3, numpy, stim, qiskit, ldpc; import mqt.qecc.codes; print('z3', z3.get_version_string())"
