#!/bin/bash
# nothing to build: checks that the tools the checks need are there
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, six, Cheetah, M2Crypto
print("hypothesis", hypothesis.__version__)
P
mkdir -p evidence
