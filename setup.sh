#!/bin/bash
# Builds the verifier (govc) into /verif/bin, offline.
set -e
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/tools/check.py" --setup
