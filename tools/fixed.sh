#!/bin/bash
# tools/fixed.sh PID "what failed"  -> records the HEAD commit of the repository (VERIF_REPO, default /repo) as a repair
echo "fixed: property=$1 $(git -C "${VERIF_REPO:-/repo}" rev-parse --short=10 HEAD) $2" >> "$(dirname "$0")/../known-findings.txt"
