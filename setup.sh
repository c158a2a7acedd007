#!/bin/bash
# Nothing to build: verify that the interpreter, the package under test and the checks import.
cd "$(dirname "$0")" || exit 2
set -e
. ./env.sh
$PY -W ignore - <<'PY'
import importlib, json, sys
sys.path.insert(0, '.')
from mc import core
core.load_target()
for c in json.load(open('MANIFEST.json'))['checks']:
    importlib.import_module('mc.checks.' + c['property'].lower())
print('setup ok')
PY
