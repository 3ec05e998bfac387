#!/bin/bash
# nothing to build: the verifier runs from source.  Checks the tools are there
# and runs the engine's self-test.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:/opt/venv/lib/python3.12/site-packages" PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python3 -c "import z3, requests, spnego, cryptography; print('z3', z3.get_version_string())" || exit 1
mkdir -p evidence replays
# the engine on functions of its own (selftest/): right contracts accepted, wrong
# ones refuted; reported, and no reason to withhold the checks
timeout 600 /opt/veriftools/pyvenv/bin/python3 -m pyvc.selftest || echo "setup: the engine's self-test is not as expected"
exit 0
