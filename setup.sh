#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
D=$(mktemp -d /tmp/vk-setup-XXXXXX) || exit 1
(cd /repo && go build -o "$D/gosec" ./cmd/gosec)
rc=$?
python3 - "$D" <<'PY'
import sys, os
sys.path.insert(0, "lib")
PY
/bin/rm -rf "$D"
exit $rc
