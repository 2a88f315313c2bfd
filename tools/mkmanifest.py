#!/usr/bin/env python3
"""Write MANIFEST.json from the property modules that exist."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C01": "property-based testing against a reference scanner",
    "C02": "property-based testing, differential against the regex engine",
    "C03": "property-based testing against a reference decoder of result shapes",
    "C04": "property-based testing against a reference model of pattern options",
    "C05": "property-based testing against a reference model of pattern options",
    "C06": "property-based testing against a reference chain matcher",
    "C07": "property-based testing: metamorphic relations and reference chain matcher",
    "C08": "property-based testing: relational oracle before/after resolution",
    "C09": "property-based testing against a model of the pair protocol",
    "C10": "metamorphic property-based testing (adding private/marker patterns)",
    "C11": "property-based testing against a reference scheduler",
    "C12": "property-based testing against a list model of consequences",
    "C13": "stateful model-based testing against a plain list",
    "C14": "property-based testing against per-character definitions",
    "C15": "property-based testing against per-character definitions",
    "C16": "property-based testing against a per-character walk",
    "C17": "property-based testing against a reference export",
    "C18": "property-based testing against a reference projection",
    "C19": "property-based testing against a reference model of key precedence",
    "C20": "property-based testing: model of the contract check and differential run",
    "C21": "property-based testing against a model of emittable names",
    "C22": "metamorphic property-based testing over histories and processes",
    "C23": "stateful property-based testing against a merge model",
    "C24": "metamorphic property-based testing (composition against flat)",
    "C25": "property-based testing of algebraic laws",
    "C26": "property-based testing against per-character definitions",
    "C27": "property-based fuzzing with well-formedness invariants",
    "C28": "differential property-based testing (debug and log levels)",
    "C29": "property-based testing, differential against a direct call",
    "C30": "property-based testing against a reference layering",
    "C31": "property-based testing against a model of declared properties",
    "C32": "property-based testing against reference predicates",
    "C33": "differential property-based testing between two regex backends",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as stream:
        ids = [json.loads(line)["id"] for line in stream if line.strip()]
    checks = []
    missing = []
    for pid in ids:
        if os.path.exists(os.path.join(HERE, "harness", "props", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": "python3 run.py %s --tier quick" % pid,
                "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": TECHNIQUE[pid],
                "level": "exploration",
                "level_note": "randomly generated cases decided by an explicit oracle; bounds and case counts in the evidence file",
            })
        else:
            missing.append({"property": pid, "reason": "check not built yet"})
    manifest = {"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python3 -c 'import hypothesis'",
                "checks": checks, "not_applicable": missing}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as stream:
        json.dump(manifest, stream, indent=1)
        stream.write("\n")
    print(len(checks), "checks;", len(missing), "not built")


if __name__ == "__main__":
    main()
