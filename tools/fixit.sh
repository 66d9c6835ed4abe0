#!/bin/bash
# fixit.sh PROPERTY "what failed": commit the working change of /repo as a fix and record it
set -e
git -C "${VF_REPO:-/repo}" commit -qam "fix: $2"
python3 /verif/tools/addfinding.py "$1" "$(git -C "${VF_REPO:-/repo}" rev-parse --short HEAD)" "$2"
