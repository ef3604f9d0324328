#!/usr/bin/env python3
"""Runs the generated checks of one property against /repo's working tree.

usage: check.py PROPERTY [quick|thorough]      run the checks
       check.py PROPERTY --replay FILE         run one saved case again

exit 0: held on everything explored; 1: VIOLATION line printed; 2: error.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SHARDS = 8
RACE = {"C25"}       # these have sub-checks which run in a race detector build
NEEDS_CLI = {"C24", "C26", "C27"}  # these also run the built command
LIMIT = {"quick": 780, "thorough": 3300}


def fail(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def go_env(scratch):
    env = dict(os.environ)
    env.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly -buildvcs=false", GOSUMDB="off", GOWORK="off")
    cache = subprocess.run(["go", "env", "GOCACHE"], capture_output=True, text=True, env=env).stdout.strip()
    try:
        os.makedirs(cache, exist_ok=True)
        probe = os.path.join(cache, ".verif-probe-%d" % os.getpid())
        open(probe, "w").close()
        os.remove(probe)
    except OSError:
        env["GOCACHE"] = os.path.join(scratch, "gocache")
    return env


def build(out, directory, target, env, *flags):
    r = subprocess.run(["go", "build", *flags, "-o", out, target], cwd=directory, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        fail("build of %s failed:\n%s" % (directory, r.stderr[-4000:]))


def run_shards(binary, args, scratch, deadline, env, only=None, race=False):
    procs = []
    for i in range(SHARDS):
        out = os.path.join(scratch, "out%d%s.json" % (i, "r" if race else ""))
        work = os.path.join(scratch, "work%d" % i)
        os.makedirs(work, exist_ok=True)
        log = open(os.path.join(scratch, "log%d%s" % (i, "r" if race else "")), "w+")
        cmd = [binary, *args, "-shard", str(i), "-shards", str(SHARDS), "-out", out, "-scratch", work]
        if race:
            cmd += ["-trace", out + ".trace", "-race"]
        procs.append((i, subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=work), out, log, cmd))
    results, failures, errors = [], [], []
    for i, p, out, log, cmd in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("shard %d: time limit reached (inconclusive)" % i)
            continue
        log.seek(0)
        text = log.read()
        if race and rc == 66:
            case = read_json(out + ".trace")
            if case is not None:
                case["error"] = "data race: " + text[:3000]
                failures.append(case)
                continue
        if rc in (0, 1, 2, 3) and os.path.exists(out):
            data = json.load(open(out))
            results += data
            for s in data:
                if s.get("failure"):
                    failures.append(s["failure"])
                if s.get("harness_error"):
                    errors.append("shard %d: %s: %s" % (i, s["name"], s["harness_error"][:2000]))
            continue
        # The process died (Go fatal error such as a stack overflow, a deadlock
        # or unsynchronised map access). Run the same shard again, recording
        # each case before it starts, so that the fatal case is known.
        fatal = any(w in text for w in ("stack overflow", "goroutine stack exceeds", "all goroutines are asleep", "fatal error: concurrent map", "panic:"))
        if fatal and rc == 2:
            trace = out + ".trace"
            env2 = dict(env)
            r = subprocess.run(cmd if race else cmd + ["-trace", trace], capture_output=True, text=True, env=env2, timeout=max(1, deadline - time.time()))
            case = read_json(trace)
            if r.returncode == 2 and case is not None:
                case["error"] = "the process died: " + fatal_line(text)
                failures.append(case)
                continue
        errors.append("shard %d died with status %s: %s" % (i, rc, text[-1500:]))
    return results, failures, errors


def fatal_line(text):
    for line in text.splitlines():
        if line.startswith(("fatal error", "panic", "runtime:")):
            return line
    return text[:200]


def read_json(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def known_findings(prop):
    out = []
    try:
        lines = open(os.path.join(VERIF, "known_findings.txt")).read().splitlines()
    except OSError:
        return out
    for line in lines:
        # known: property=<id> case=<file under findings/> <what fails>
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("case="):
            out.append((os.path.join(VERIF, "findings", w[2][5:]), w[3]))
    return out


def main():
    if len(sys.argv) < 2:
        fail(__doc__)
    prop = sys.argv[1]
    arg = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, arg, seed, start, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, start, scratch):
    replay = None
    if tier == "--replay":
        replay, tier = sys.argv[3], "quick"
    if tier not in LIMIT:
        fail("unknown tier " + tier)
    env = go_env(scratch)
    harness = os.path.join(scratch, "harness")
    build(harness, os.path.join(VERIF, "harness"), ".", env)
    args_extra = []
    if prop in NEEDS_CLI:
        cli = os.path.join(scratch, "goslice")
        build(cli, REPO, "./cmd/goslice", env)
        args_extra = ["-cli", cli]
    renv = dict(env)
    renv["GOMAXPROCS"] = "2"
    renv["GOTRACEBACK"] = "single"
    if replay:
        return subprocess.run([harness, "-replay", os.path.abspath(replay), "-scratch", scratch, *args_extra], env=renv).returncode

    deadline = start + LIMIT[tier]
    args = ["-prop", prop, "-tier", tier, "-seed", str(seed % (1 << 31)), *args_extra]
    results, failures, errors = run_shards(harness, args, scratch, deadline, renv)
    if prop in RACE and not failures:
        rbin = os.path.join(scratch, "harness-race")
        e2 = dict(env)
        e2["CGO_ENABLED"] = "1"
        build(rbin, os.path.join(VERIF, "harness"), ".", e2, "-race")
        renv["GORACE"] = "halt_on_error=1 exitcode=66"
        renv["GOMAXPROCS"] = "8"
        r2, f2, e2 = run_shards(rbin, args, scratch, deadline, renv, race=True)
        results += r2
        failures += f2
        errors += e2

    # listed findings: run each again, report those which still fail
    for path, what in known_findings(prop):
        r = subprocess.run([harness, "-replay", path, "-scratch", scratch, *args_extra], env=renv, capture_output=True, text=True)
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))

    merged = {}
    for s in results:
        m = merged.setdefault(s["name"], {"rule": s["rule"], "evaluations": 0, "hashes": set(), "labels": {}, "samples": []})
        m["evaluations"] += s.get("evals") or 0
        m["hashes"].update(s.get("nontrivial") or [])
        for k, v in (s.get("labels") or {}).items():
            m["labels"][k] = m["labels"].get(k, 0) + v
        m["samples"] += [x for x in (s.get("samples") or []) if len(m["samples"]) < 2]
    evaluations = sum(m["evaluations"] for m in merged.values())
    distinct = sum(len(m["hashes"]) for m in merged.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": " | ".join("%s: %s" % (n, m["rule"]) for n, m in sorted(merged.items())),
            "samples": [{"check": n, "case": c} for n, m in sorted(merged.items()) for c in m["samples"]],
            "checks": {n: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["hashes"]), "labels": dict(sorted(m["labels"].items()))} for n, m in sorted(merged.items())},
        },
        "assumptions": ["cases are sampled: absence of a violation is evidence, not proof"],
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if failures else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for e in errors:
        print("ERROR: " + e, file=sys.stderr)
    if failures:
        f = min(failures, key=lambda x: len(json.dumps(x.get("case"))))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, f["check"]))
        with open(path, "w") as h:
            json.dump(f, h, indent=1)
            h.write("\n")
        print("%s/%s: %s" % (prop, f["check"], f["error"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return 2
    if distinct == 0:
        print("ERROR: no non-trivial case was explored", file=sys.stderr)
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" % (prop, tier, evaluations, distinct, time.time() - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
