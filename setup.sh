#!/bin/bash
# nothing to compile: check that the interpreter and the package import
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import triples.core, mc.core" >/dev/null 2>&1 || exit 1
exit 0
