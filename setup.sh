#!/bin/bash
# Offline setup: nothing to build; verifies that the toolchain the checks use is present.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, laplax; print('ok', jax.__version__)"
mkdir -p evidence replays
