"""Source of MANIFEST.json (python3 tools/manifest.py rewrites it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
import props
NA = {
    "P30": "what survives a crash depends on the operating system's file writes and on sled's log format; neither the kernel's page cache nor sled's threads and memory-mapped segments can be encoded within reach, and a model of them would not be the real code",
}
HOOK = None


def main():
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p["id"] for p in props.P]
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[], notes="see DESIGN.md")
    for i in ids:
        if i in CHECKS:
            m["checks"].append(dict(
                property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                technique="symbolic execution of the compiled code (LLVM IR) with Z3", level="model_checking",
                level_note="holds for every value and choice within the bounds stated in the evidence; bounded, not a proof"))
        else:
            m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check yet")))
    open(os.path.join(d, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")


main()
