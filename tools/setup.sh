#!/bin/bash
# Builds the explorers once: warms the build cache and fails early.
. /opt/vp/env.sh
d=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
for id in $(python3 -c 'import json; print(*[c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]][:1])'); do
  python3 /verif/tools/build.py $id "$d" || exit 1
done
exit 0
