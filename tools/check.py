#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property on /repo's current working tree. check.py replay FILE: what a check of R01-R25 reported."""
import json, os, resource, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import B, VERIF, Broken, Violated

EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")
REAL = {
    "real code": [
        "producer, consumer and protocol as generated by the CLI built from /repo/cli, compiled unmodified",
        "tokio 1.14 channels, Notify and tokio-util CancellationToken as published",
        "clibri 0.1.7 transport traits as published",
    ],
    "simulated": [
        "tokio executor, timers, select! branch choice, join! poll order (sim/tokio, sim/simrt)",
        "transports and network: byte streams with delay, cutting, gluing, loss of connections (sim/simworld/src/net.rs)",
        "monotonic and wall clock, getrandom, hash map keys (sim/harness/src/os.rs)",
    ],
    "workload": [
        "application handlers that record what they observe and act by the seeded plan (sim/user, sim/prod, sim/cons)",
        "raw protocol clients, well behaved and not (sim/harness/src/raw.rs)",
    ],
}
ASSUME = [
    "transports keep the order of bytes within a connection and either deliver them or end the connection",
    "application handlers end, and do not call shutdown of the very producer or consumer that runs them and wait for it",
    "a sample of schedules, inputs and fault sequences is explored, not all of them",
]


seed = build.seed


def evidence(prop, tier, level, coverage, wall, violations, assumptions=ASSUME):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed(), "level": level, "coverage": coverage, "assumptions": assumptions,
            "wall_s": round(wall, 2), "violations": violations,
        }, f, indent=1)
    os.replace(p + ".tmp", p)


def violation(prop, replay, msg):
    print("%s: %s" % (prop, msg))
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    sys.stdout.flush()
    return 1


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: "):])
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def last_line(path):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 200))
            v = f.read().decode("utf-8", "replace").strip().split("\n")
            return v[-1], n
    except OSError:
        return "", 0


def search(prop, commands, seconds, base, lim=limits):
    """Runs the workers: COMMAND PROP BASE WORKER WORKERS SECONDS OUT REPLAY, with one of the commands each (variant, command).
    Returns merged numbers, and (replay, message) of a violation."""
    work = os.path.join(B, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(REPLAYS, exist_ok=True)
    n = os.cpu_count() or 4
    procs, t0 = [], time.time()
    for w in range(n):
        out = os.path.join(work, "w%d" % w)
        variant, command = commands[w % len(commands)]
        cmd = command + [prop, str(base), str(w), str(n), str(seconds), out, out + ".replay"]
        log = open(out + ".log", "w")
        procs.append({
            "p": subprocess.Popen(cmd, stdout=log, stderr=log, env=build.ENV, preexec_fn=lim), "out": out, "variant": variant, "at": time.time(), "n": 0, "dead": None,
        })
    hang = 45
    while any(x["p"].poll() is None for x in procs):
        time.sleep(0.1)
        for x in procs:
            if x["p"].poll() is None:
                _, n_ = last_line(x["out"] + ".progress")
                if n_ != x["n"]:
                    x["n"], x["at"] = n_, time.time()
                elif time.time() - x["at"] > hang:
                    x["dead"] = "a run of the peers does not come to an end (more than %d s of real time, simulated time does not advance)" % hang
                    x["p"].kill()
        # one violation is enough
        if any(os.path.exists(x["out"]) and x["p"].poll() is not None and has_violation(x["out"]) for x in procs):
            t = time.time()
            while time.time() - t < 2 and any(x["p"].poll() is None for x in procs):
                time.sleep(0.05)
            for x in procs:
                if x["p"].poll() is None:
                    x["p"].kill()
                    x["stopped"] = True
    total, bad, errors = {}, None, []
    for x in procs:
        rc = x["p"].wait()
        if x.get("stopped"):
            continue
        if x["dead"] or rc != 0:
            l, _ = last_line(x["out"] + ".progress")
            tail = open(x["out"] + ".log", errors="replace").read()[-1500:]
            why = x["dead"] or ("the process running the peers died (%s): %s" % (signal.Signals(-rc).name if rc < 0 else "exit %d" % rc, tail))
            if " " in l and (x["dead"] or rc < 0):
                path = os.path.join(REPLAYS, "%s-%s.txt" % (prop, l.replace(" ", "-")))
                with open(path, "w") as f:
                    f.write("property: %s\nvariant: %d\nprofile: %s\nmeta: 0\nseed: %s\nremoved: \nhash: 0\nviolation: %s\n" % (prop, x["variant"], l.split(" ")[0], l.split(" ")[1], why.replace("\n", " ")))
                bad = bad or (path, why)
            else:
                errors.append(why)
            continue
        d = json.load(open(x["out"]))
        total.setdefault("variants", {}).setdefault(str(x["variant"]), 0)
        total["variants"][str(x["variant"])] += d["runs"]
        errors += d["errors"]
        merge(total, {k: v for k, v in d.items() if k not in ("violation", "errors") and v is not None})
        if d["violation"] and (bad is None or not os.path.exists(bad[0])):
            v = d["violation"]
            path = os.path.join(REPLAYS, "%s-%s-%s.txt" % (prop, v["profile"], v["seed"]))
            if os.path.exists(x["out"] + ".replay"):
                shutil.copy(x["out"] + ".replay", path)
            bad = (path, "%s [%s%s, seed %s; %d of %d items left after %d trials]" % (v["message"], "variant %d of the definitions, " % x["variant"] if x["variant"] else "", v["profile"], v["seed"], v["left"], v["items"], v["tries"]))
    shutil.rmtree(work, ignore_errors=True)
    return total, bad, errors, time.time() - t0


def has_violation(path):
    try:
        return bool(json.load(open(path))["violation"])
    except (OSError, ValueError):
        return False


def unbuilt(prop, tier, e, t0, v=0):
    """No peers to simulate: the generator fails on valid definitions, or what it writes does not compile."""
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-build.txt" % prop)
    open(path, "w").write("%s\n\nrepeat with: VERIF_SEED=%d /verif/tools/build.py\n\n%s\n" % (e, v or 1, e.detail))
    cov = {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the generator is run on the definitions of the simulation and its output compiled", "samples": [str(e)]}
    evidence(prop, tier, "exploration", cov, time.time() - t0, 1)
    return violation(prop, path, str(e))


def peers(prop, tier):
    def prepare(v):
        return [[x, "work"] for x in build.peers(v)]
    return rounds(prop, tier, prepare, 900, seed() * 1000003 + int(prop[1:]), limits, RULE, REAL, ASSUME)


def rounds(prop, tier, prepare, thorough, base, lim, rule, real, assume):
    """Searches with the base definitions and a variant; thorough: with several variants, one after another."""
    t0 = time.time()
    secs = float(os.environ.get("VERIF_SECONDS") or (22 if tier == "quick" else thorough))
    n = 1 if tier == "quick" else 6
    total, errors, wall = {}, [], 0
    for i in range(n):
        v = seed() + 100 * i
        try:
            commands = prepare(v)
        except Violated as e:
            return unbuilt(prop, tier, e, t0, v)
        one, bad, errs, took = search(prop, list(zip([0, v], commands)), secs / n, base + 15485863 * i, lim)
        merge(total, one)
        errors += errs
        wall += took
        if bad:
            break
    return verdict(prop, tier, base, total, bad, errors, wall, t0, rule, real, assume)


def merge(total, d):
    for k, v in d.items():
        if isinstance(v, dict):
            m = total.setdefault(k, {})
            for a, b in v.items():
                m[a] = m.get(a, 0) + b
        elif isinstance(v, list):
            total.setdefault(k, []).extend(v)
        else:
            total[k] = total.get(k, 0) + v


RULE = ("each case is one seeded execution of generated producer and consumers with raw clients; distinct = a different hash of the whole sequence of scheduling decisions "
        "(which task or event at each step), non-trivial = the property was decided at least once in it; `evaluations` counts the single instances decided (calls, messages, sessions, broadcasts)")


def verdict(prop, tier, base, total, bad, errors, wall, t0, rule, real, assume):
    runs = total.get("runs", 0)
    if bad is None and (errors or runs == 0 or total.get("evals", 0) == 0):
        raise Broken("%d errors of the harness, %d runs, %d evaluations; first: %s" % (len(errors), runs, total.get("evals", 0), errors[:1]))
    cov = {
        "evaluations": total.get("evals", 0),
        "distinct_nontrivial": total.get("nontrivial", 0),
        "rule": rule,
        "samples": total.get("samples", [])[:3] or ["none before the violation"],
        "simulated_runs": runs,
        "seeds": "derived from %d: run n uses splitmix(base, n)" % base,
        "simulated_runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulated_seconds": round(total.get("time", 0) / 1e9, 1),
        "scheduling_steps": total.get("steps", 0),
        "recorded_events": total.get("events", 0),
        "distinct_interleavings": total.get("distinct", 0),
        "instances_under_fault_or_race": total.get("hard", 0),
        "faults_injected": total.get("faults", {}),
        "workload_profiles": total.get("profiles", {}),
        "runs_by_variant_of_the_definitions": total.get("variants", {}),
        "components": real,
    }
    if bad:
        cov["violation"] = bad[1]
    evidence(prop, tier, "exploration", cov, time.time() - t0, 1 if bad else 0, assume)
    if bad:
        return violation(prop, bad[0], bad[1])
    if total.get("known_empty", 0):
        for k in known(prop):
            print("KNOWN-FINDING: " + k)
    print("%s: held in %d simulated runs (%d instances, %d distinct interleavings, %.0f simulated s) in %.1f s" % (
        prop, runs, cov["evaluations"], cov["distinct_interleavings"], cov["simulated_seconds"], time.time() - t0))
    return 0


def replay(path):
    """Executes what a check of generated Rust peers reported, once more."""
    text = open(path).read().split("\n")
    v = [int(l.split(": ")[1]) for l in text if l.startswith("variant: ")]
    binary = build.peers(v[0] if v and v[0] else None)[bool(v and v[0])]
    return subprocess.call([binary, "replay", path], env=build.ENV)


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2:] or [os.environ.get("VERIF_TIER", "quick")])[0]
    try:
        if prop[0] == "R":
            return peers(prop, tier)
        if prop[0] == "C":
            import files
            return files.check(prop, tier)
        if prop[0] == "T":
            import ts
            return ts.check(prop, tier)
        print("unknown property " + prop)
        return 2
    except Broken as e:
        print("%s: no answer: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
