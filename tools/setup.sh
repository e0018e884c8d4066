#!/bin/bash
# builds everything the checks need from the committed files, offline
cd "$(dirname "$0")/.." || exit 2
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import check
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    for f in [ex.submit(check.irbuild.symx), ex.submit(check.irbuild.build, True), ex.submit(check.native)]:
        print(f.result())
PY
