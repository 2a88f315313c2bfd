#!/usr/bin/env python3
"""Development aid: run the check of every planted change on a scratch copy that has it. seeds.py [ids...] [--all-checks]"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    wanted = [a for a in sys.argv[1:] if not a.startswith("--")]
    everything = "--all-checks" in sys.argv
    work = tempfile.mkdtemp(prefix="seeds-")
    copy = os.path.join(work, "repo")
    shutil.copytree("/repo", copy, symlinks=True)
    missed = []
    try:
        for seed in sorted(os.listdir(SEEDED)):
            if wanted and not any(seed.startswith(w) for w in wanted):
                continue
            run(["git", "-C", copy, "checkout", "-q", "."])
            if run(["git", "-C", copy, "apply", os.path.join(SEEDED, seed, "patch.diff")]).returncode:
                print(seed, "does not apply", flush=True)
                continue
            own = json.load(open(os.path.join(SEEDED, seed, "meta.json")))["property"]
            checks = [own] + (["C%02d" % n for n in range(1, 34) if "C%02d" % n != own] if everything else [])
            codes = {}
            for check in checks:
                env = {**os.environ, "VERIF_REPO": copy, "VERIF_REPLAY_TAG": "seed-" + seed}
                codes[check] = run([sys.executable, "run.py", check], cwd=VERIF, env=env).returncode
            print(seed, "caught" if codes[own] == 1 else "MISSED (exit %d)" % codes[own],
                  "also by " + " ".join(c for c in codes if c != own and codes[c] == 1) if everything else "", flush=True)
            if codes[own] != 1:
                missed.append(seed)
    finally:
        shutil.rmtree(work)
    print("missed:", missed)


main()
