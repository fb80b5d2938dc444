#!/usr/bin/env python3
"""Generated TypeScript peers under simulation. ts.py replay FILE repeats what a check reported."""
import concurrent.futures, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, variant
from build import B, VERIF, Broken, Violated

SIM = os.path.join(VERIF, "sim", "ts")
REAL = {
    "real code": [
        "TypeScript producer, consumer and protocol as generated by the CLI built from /repo/cli, transpiled by the TypeScript compiler and run by Node, each execution with fresh modules",
    ],
    "simulated": [
        "transports and network: byte streams with delay, cutting, gluing, loss of connections, failing sends and disconnects (sim/ts/lib/net.js)",
        "timers, wall clock, Math.random, ids of connections; promises settle only within a step of the seeded event queue (sim/ts/lib/world.js)",
        "npm package clibri, which is not in the repository: its interfaces as the generated code uses them (sim/ts/clibri)",
    ],
    "workload": [
        "application handlers that record what they observe and act by the seeded plan (sim/ts/user, sim/ts/lib/sim.js)",
        "raw protocol clients and a scripted producer that refuses (sim/ts/lib/sim.js)",
    ],
}
MIXED = {
    "real code": [
        "Rust and TypeScript producer, consumer and protocol as generated from one pair of definitions by the CLI built from /repo/cli; the Rust ones compiled unmodified, "
        "the TypeScript ones transpiled by the TypeScript compiler and run by Node",
        "tokio 1.14 channels, Notify and tokio-util CancellationToken as published; clibri 0.1.7 transport traits as published",
    ],
    "simulated": REAL["simulated"] + [
        "tokio executor and timers of the Rust peers (sim/tokio, sim/simrt), in a second process that runs in lockstep: it does nothing but process the events handed to it, "
        "up to the simulated time given, and tells what was sent and observed (sim/peer, sim/simworld/src/bridge.rs, sim/ts/lib/peer.js)",
    ],
    "workload": [
        "application handlers of both languages that record what they observe and act by the seeded plan (sim/user, sim/ts/user, sim/ts/lib/mix.js)",
    ],
}
ASSUME = [
    "transports keep the order of bytes within a connection and either deliver them or end the connection",
    "JavaScript runs one callback and its microtasks at a time; interleavings are those of callbacks (messages, timers, ends of asynchronous handlers and of transport calls)",
    "types are not checked by the compiler (the declarations of the package clibri are not in the repository)",
    "a sample of schedules, inputs and fault sequences is explored, not all of them",
]
RULE = ("each case is one seeded execution of a generated producer, generated consumers and raw clients; distinct = a different hash of the whole sequence of events "
        "(which event at each step), non-trivial = the property was decided at least once in it; `evaluations` counts the single instances decided (calls, messages, sessions, broadcasts)")


def run(cmd, what, **kw):
    try:
        r = build.run(cmd, timeout=120, **kw)
    except subprocess.TimeoutExpired:
        raise Violated(what + " (does not come to an end)", " ".join(cmd))
    if r.returncode:
        raise Violated(what, r.stdout[-6000:])


def transpiled(new, dst, flow, v, sub=""):
    for s in ("prod", "cons"):
        run(["node", os.path.join(SIM, "transpile.js"), os.path.join(dst[s], sub), os.path.join(new, "js", s)], "generated TypeScript is refused by the compiler")
    run(["node", os.path.join(SIM, "transpile.js"), os.path.join(SIM, "clibri"), os.path.join(new, "js", "clibri")], "generated TypeScript is refused by the compiler")
    variant.put(os.path.join(new, "js"), {"flow.json": json.dumps(variant.ts_flow(flow)), "variant": str(v)})


def tree(cli, v):
    """Generates and transpiles the peers, of the base definitions or of a variant. Returns the folder of the result."""
    to = os.path.join(B, "tsv" if v else "ts")
    new = to + ".new"
    shutil.rmtree(new, ignore_errors=True)
    flow = variant.draw(v) if v else variant.base()
    dst = build.sources(flow, os.path.join(new, "src"), "ts.prot", rust=False, ts=True)
    build.define(cli, os.path.join(new, "src"), dst, "no TypeScript peers can be generated from valid definitions")
    transpiled(new, dst, flow, v)
    shutil.rmtree(to, ignore_errors=True)
    os.rename(new, to)
    return os.path.join(to, "js")


def both(cli, v):
    """Generates Rust and TypeScript peers from the same definitions, and builds them."""
    to = os.path.join(B, "xv" if v else "x")
    new = to + ".new"
    shutil.rmtree(new, ignore_errors=True)
    flow = variant.draw(v) if v else variant.base()
    dst = build.sources(flow, os.path.join(new, "src"), "ts.prot", ts=True)
    build.define(cli, os.path.join(new, "src"), dst, "no peers of both languages can be generated from valid definitions")
    variant.put(os.path.join(new, "src"), {"cons/calls.rs": variant.rust_calls(flow)})
    transpiled(new, dst, flow, v, "typescript")
    build.mirror(new, to)
    shutil.rmtree(new)
    return build.sim("peer", v)


def trees(prop, v):
    """Trees of the base definitions and of the variant."""
    with build.Lock(), concurrent.futures.ThreadPoolExecutor(4) as ex:
        cli = build.cli()
        todo = [ex.submit(tree, cli, x) for x in (0, v)]
        if prop == "T04":
            for f in [ex.submit(both, cli, x) for x in (0, v)]:
                f.result()
        return [f.result() for f in todo]


def check(prop, tier):
    import check as c

    def prepare(v):
        return [["node", "--max-old-space-size=1500", os.path.join(SIM, "main.js"), "work", at] for at in trees(prop, v)]
    return c.rounds(prop, tier, prepare, 600, c.seed() * 1000003 + 100 + int(prop[1:]), lambda: None, RULE, MIXED if prop == "T04" else REAL, ASSUME)


def main():
    try:
        if sys.argv[1:2] == ["build"]:
            print(*trees("T04", build.seed()))
            return 0
        if sys.argv[1:2] == ["replay"]:
            text = open(sys.argv[2]).read().split("\n")
            v = ([int(l.split(": ")[1]) for l in text if l.startswith("variant: ")] + [0])[0]
            at = trees("T04" if "property: T04" in text else "", v)[1]
            return subprocess.call(["node", os.path.join(SIM, "main.js"), "replay", at] + sys.argv[2:])
    except Violated as e:
        print(e, e.detail, sep="\n")
        return 1
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
