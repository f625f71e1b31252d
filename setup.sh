#!/bin/bash
# Nothing to build: makes sure the interpreter, the library's dependencies and the checks are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python - <<'P'
import glob, importlib, json, os
import numpy, scipy, numba
for c in json.load(open("MANIFEST.json"))["checks"]:
    assert os.path.exists("mc/props/%s.py" % c["property"].lower()), c
json.load(open("known_findings.json"))
print("ready")
P
