#!/bin/bash
# Runs the repository's own tests with psrpcore loaded by the engine (instrumented, plain inputs).
# Expected: the only failures are tests that need pwsh/a process, mix the C datetime with the instrumented
# one, or compare the identity of True/False (a tagged bool is not the singleton); see DESIGN.md.
cd /repo && PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPATH="$(dirname "$(realpath "$0")")" PYTHONHASHSEED=0 \
  PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m pytest -p vxplug -q -p no:cacheprovider tests
