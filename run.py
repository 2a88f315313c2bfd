#!/usr/bin/env python3
"""Run the check of one property: run.py CXX [--tier quick|thorough] [--replay FILE]."""

from __future__ import annotations

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/veriftools/pyvenv/bin/python3")


def known_findings():
    listed = set()
    with open(os.path.join(HERE, "known_findings.txt")) as stream:
        for line in stream:
            if line.startswith("known: "):
                fields = line.split()
                listed.add((fields[1].split("=", 1)[1], fields[2].split("=", 1)[1]))
    return listed


def environment(job, pyc):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("REBULK_", "PYTHON"))}
    env["PYTHONHASHSEED"] = str(job["hashseed"])
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = pyc
    if job["regex"]:
        env["REBULK_REGEX_ENABLED"] = "1"
    return env


def spawn(job, pyc, log):
    return subprocess.Popen(
        [PYTHON, "-B", os.path.join(HERE, "harness", "worker.py"), json.dumps(job)],
        cwd=HERE, env=environment(job, pyc), stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
        start_new_session=True,
    )


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--shards", type=int)
    parser.add_argument("--only", choices=["search", "fuzz"])
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args()
    pid = args.property
    started = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return run(args, pid, started, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(args, pid, started, tmp):
    sys.path.insert(0, HERE)
    # The plan (shard counts, budgets) is static data of the property module.
    plan = json.loads(subprocess.run(
        [PYTHON, "-B", os.path.join(HERE, "harness", "plan.py"), pid], check=True, capture_output=True, text=True,
        env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}, cwd=HERE,
    ).stdout)
    jobs = []
    if args.replay:
        with open(args.replay) as stream:
            replay = json.load(stream)
        jobs.append({"mode": "replay", "case": replay["case"], "hashseed": replay.get("hashseed", 0),
                     "regex": replay.get("regex", False), "seed": args.seed, "shard": 0})
    else:
        shards = args.shards or plan["shards"]
        for shard in range(shards):
            examples = plan["quick"] if args.tier == "quick" else plan["thorough"]
            jobs.append({
                "mode": "search", "shard": shard, "hashseed": shard,
                "examples": max(1, int(examples * args.scale)),
                "seed": args.seed * 1000 + shard,
                "regex": shard >= shards - plan["regex_shards"],
                "known": shard == 0,
            })
        if args.tier == "thorough" and plan["fuzz_seconds"]:
            for shard in range(shards):
                jobs.append({
                    "mode": "fuzz", "shard": shards + shard, "hashseed": shard,
                    "examples": plan["fuzz_runs"], "seconds": int(plan["fuzz_seconds"] * args.scale),
                    "seed": args.seed * 1000 + 500 + shard,
                    "regex": shard >= shards - plan["regex_shards"],
                })
    if args.only and not args.replay:
        jobs = [job for job in jobs if job["mode"] == args.only]
    pending = []
    for index, job in enumerate(jobs):
        job["property"] = pid
        job["tier"] = args.tier
        job["out"] = os.path.join(tmp, "out%d.json" % index)
        job["tmp"] = tmp
        pending.append(job)
    slots = max(1, min(os.cpu_count() or 1, 8))
    running = []
    results = []
    failures = []
    errors = []
    killed = False
    while pending or running:
        while pending and len(running) < slots and not failures:
            job = pending.pop(0)
            log = open(job["out"] + ".log", "w+")
            running.append((job, spawn(job, os.path.join(tmp, "pyc"), log), log))
        if failures:
            pending = []
            if not killed:
                # a violation is on file: give the others a moment, then stop them
                killed = time.monotonic()
            elif time.monotonic() - killed > 3:
                for _job, process, _log in running:
                    try:
                        os.killpg(process.pid, 9)
                    except OSError:
                        pass
        time.sleep(0.02)
        for entry in list(running):
            job, process, log = entry
            if process.poll() is None:
                continue
            running.remove(entry)
            log.seek(0)
            text = log.read()
            log.close()
            if os.path.exists(job["out"]):
                with open(job["out"]) as stream:
                    result = json.load(stream)
                result["job"] = job
                results.append(result)
                if result.get("violation"):
                    failures.append(result)
                if result.get("error"):
                    errors.append(result["error"])
            elif not (killed and time.monotonic() - killed > 3):
                errors.append("shard %s ended with status %s and no result\n%s" % (job["shard"], process.returncode, text[-3000:]))
            if args.verbose and text.strip():
                print(text)

    hashes = set()
    labels = {}
    samples = []
    evaluations = inconclusive = 0
    for result in results:
        evaluations += result.get("evaluations", 0)
        inconclusive += result.get("inconclusive", 0)
        hashes.update(result.get("hashes", ()))
        for name, count in result.get("labels", {}).items():
            labels[name] = labels.get(name, 0) + count
        if len(samples) < 6:
            samples.extend(result.get("samples", ())[:1])
    known_lines = []
    listed = known_findings()
    for result in results:
        for key, text in result.get("known", ()):
            if (pid, key) in listed:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))
            else:
                failures.append({"violation": {"case": None, "message": "%s: %s" % (key, text)}, "job": result["job"]})

    failures.sort(key=lambda r: len(json.dumps(r["violation"]["case"])))
    if not args.replay:
        evidence = {
            "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": plan["rule"],
                "samples": samples, "labels": dict(sorted(labels.items())), "inconclusive": inconclusive,
                "shards": len(jobs), "regex_backend_shards": sum(1 for job in jobs if job["regex"]),
            },
            "assumptions": plan["assumptions"],
            "wall_s": round(time.monotonic() - started, 2),
            "violations": len(failures),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as stream:
            json.dump(evidence, stream, indent=1)
            stream.write("\n")

    for line in known_lines:
        print(line)
    if failures:
        first = failures[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, os.environ.get("VERIF_REPLAY_TAG", "last")))
        if args.replay:
            path = args.replay
        else:
            with open(path, "w") as stream:
                json.dump({"property": pid, "case": first["violation"]["case"], "message": first["violation"]["message"],
                           "hashseed": first["job"]["hashseed"], "regex": first["job"]["regex"]}, stream, indent=1)
                stream.write("\n")
        print(first["violation"]["message"])
        print("case:", json.dumps(first["violation"]["case"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("ERROR of the check:\n" + errors[0])
        return 2
    print("ok property=%s tier=%s evaluations=%d nontrivial=%d inconclusive=%d wall=%.1fs" % (
        pid, args.tier, evaluations, len(hashes), inconclusive, time.monotonic() - started))
    if args.verbose:
        for name, count in sorted(labels.items()):
            print("   %-40s %d" % (name, count))
    return 0


if __name__ == "__main__":
    sys.exit(main())
