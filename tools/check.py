#!/usr/bin/env python3
"""Builds and runs one property's check. Usage: check.py ID [quick|thorough] [engine options]"""
import json, os, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from specs import SPECS

VERIF = vbuild.VERIF


def build_check(pid):
    spec = SPECS[pid]
    own = [os.path.join(VERIF, s) for s in spec["own"]]
    profile = spec.get("profile", "plain")
    if spec.get("repo") == "library":
        return vbuild.build(pid, own + vbuild.library_sources() + [os.path.join(vbuild.REPO, s) for s in spec.get("extra", [])], profile)
    srcs = [os.path.join(vbuild.REPO, s) for s in spec["repo"]]
    try:
        return vbuild.build(pid, own + [s for s in srcs if os.path.exists(s)], profile)
    except vbuild.CompileError as first:
        # code may have moved to another file: link with the whole library instead
        try:
            return vbuild.build(pid, own + vbuild.library_sources(), profile)
        except vbuild.CompileError:
            raise first


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = SPECS[pid]
    start = time.time()
    try:
        exe, built, build_s = build_check(pid)
    except vbuild.CompileError as e:
        print("cannot build the check against the current tree:\n" + str(e)[:6000])
        return 2
    print(f"{pid}: {built} files compiled, {build_s:.1f}s", flush=True)
    for d in ("evidence", "replays", "build/out"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    out = os.path.join(VERIF, "build/out", pid + ".json")
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GCS_"):
            del env[k]
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--replays", os.path.join(VERIF, "replays"), "--known",
           os.path.join(VERIF, "known_findings.txt")] + rest
    rc = subprocess.run(cmd, env=env).returncode
    if "--replay" in rest:
        return rc
    if rc not in (0, 1) or not os.path.exists(out):
        print(f"{pid}: the engine ended with {rc}")
        return 2
    with open(out) as f:
        r = json.load(f)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
            "samples": r["samples"], "nontrivial": r["nontrivial"], "discarded": r["discarded"], "labels": r["labels"],
            "skipped_at_deadline": r["skipped_at_deadline"], "known_finding_hits": r["known_hits"],
            "search_seconds": r["search_seconds"], "unconfirmed_failures": r["unconfirmed"], "files_compiled": built,
        },
        "assumptions": r["assumptions"] + spec.get("assumptions", []),
        "wall_s": round(time.time() - start, 1), "violations": r["violations"],
    }
    if r["violations"]:
        evidence["coverage"]["violation"] = {"replay": r["replay"], "message": r["message"]}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid:
                print(f"KNOWN-FINDING: property={pid} {w[3].strip()} ({w[2]})", flush=True)
    if rc == 0 and r["evaluations"] == 0:
        print("nothing was evaluated")
        return 2
    return rc


sys.exit(main())
