#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh --replay FILE               run a recorded failing input against /repo
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/tools/check.py" "$@"
