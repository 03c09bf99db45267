#!/bin/bash
# check.sh Cxx quick|thorough        decide one property on /repo's working tree
# check.sh Cxx --replay FILE         run one recorded failing case again
cd "$(dirname "$0")" || exit 2
exec python3 tools/run.py "$@"
