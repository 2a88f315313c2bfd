"""Print the static plan of one property as JSON (imports no code under test)."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from harness import core  # noqa: E402

if __name__ == "__main__":
    prop = core.load_prop(sys.argv[1])
    print(json.dumps({
        "quick": prop.quick, "thorough": prop.thorough, "shards": prop.shards, "regex_shards": prop.regex_shards,
        "rule": prop.rule, "assumptions": list(prop.assumptions),
        "fuzz_seconds": prop.fuzz_seconds, "fuzz_runs": prop.fuzz_runs,
    }))
