#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Builds the analyser if it is missing or older than its source, and decides one property for the source in /repo.
set -e
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
./build.sh
rc=0
engine/bin/verif check "$1" "${2:-${VERIF_TIER:-quick}}" || rc=$?
if [ $rc -gt 1 ]; then
  # the analyser itself failed: nothing is known about the property
  mkdir -p evidence
  echo "[{\"rule\": \"analysis\", \"msg\": \"the analyser ended with status $rc\"}]" > "evidence/$1.violations.json"
  echo "VIOLATION property=$1 replay=$PWD/evidence/$1.violations.json"
  exit 1
fi
exit $rc
