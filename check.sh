#!/bin/bash
# check.sh PROPERTY [--thorough | --replay FILE]
# Builds the explorer from /repo's working tree (through an overlay: nothing is
# written to /repo) and explores one property. Tier: VERIF_TIER (quick|thorough).
set -u
. /opt/vp/env.sh
export VERIF_DIR=/verif
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
id=${1:?usage: check.sh PROPERTY [--thorough | --replay FILE]}
if [ "${2:-}" = --thorough ]; then VERIF_TIER=thorough; fi
if [ "${2:-}" = --replay ]; then export VERIF_REPLAY=$(realpath "$3"); fi
export VERIF_TMP=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 2
trap 'rm -rf "$VERIF_TMP"' EXIT
python3 /verif/tools/build.py "$id" "$VERIF_TMP" || { echo "ERROR: build failed"; exit 2; }
cd "$VERIF_TMP"
bash "$VERIF_TMP/run.sh"
rc=$?
exit $rc
