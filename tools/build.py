#!/usr/bin/env python3
"""Builds what the checks run, from /repo's current working tree.

Sources are mirrored by content (rsync -c), so that cargo rebuilds exactly what differs from the last
build whatever the modification times in /repo say.
"""
import concurrent.futures, fcntl, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, ".build")


class Broken(Exception):
    """The machinery cannot give an answer."""


class Violated(Exception):
    """The tree under test breaks what every property of generated peers rests on."""

    def __init__(self, msg, detail):
        super().__init__(msg)
        self.detail = detail


def environment():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, check=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env.pop("CARGO_INCREMENTAL", None)
    for k in [k for k in env if k.startswith("CARGO_TARGET") or k == "RUSTFLAGS"]:
        env.pop(k)
    return env


ENV = environment()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=kw.pop("env", ENV), **kw)


def mirror(src, dst, *opts):
    os.makedirs(dst, exist_ok=True)
    r = run(["rsync", "-rlpc", "--delete", *opts, src.rstrip("/") + "/", dst.rstrip("/") + "/"])
    if r.returncode:
        raise Broken("rsync: " + r.stdout)


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cli():
    """The generator, built from /repo/cli. Returns the path of the binary."""
    src = os.path.join(B, "src", "cli")
    mirror(os.path.join(REPO, "cli"), src, "--exclude=/target", "--exclude=/temp")
    r = run(["cargo", "build", "--offline", "-q"], cwd=src, env={**ENV, "CARGO_TARGET_DIR": os.path.join(B, "cli"), "CARGO_PROFILE_DEV_OPT_LEVEL": "1"})
    if r.returncode:
        raise Broken("/repo/cli does not compile:\n" + r.stdout[-4000:])
    return os.path.join(B, "cli", "debug", "clibri")


def seed():
    try:
        return abs(int(os.environ.get("VERIF_SEED", "1"))) or 1
    except ValueError:
        return 1


def sources(flow, root, prot, rust=True, ts=False, sub=""):
    """Definitions and the user's files, below ROOT: prod/gen, cons/gen; with both languages in folders of their names."""
    import variant
    langs = [x for x, on in (("rust", rust), ("typescript", ts)) if on]
    dst = {}
    for s in ("prod", "cons"):
        dst[s] = os.path.join(root, s, "gen")
        os.makedirs(dst[s])
        if rust:
            variant.put(os.path.join(root, s), {"Cargo.toml": '[package]\nname = "x"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\n'})
            shutil.copytree(os.path.join(VERIF, "sim", "user", s), os.path.join(dst[s], "rust" if ts else ""), dirs_exist_ok=True)
        if ts:
            variant.put(os.path.join(root, s), {"package.json": '{"name":"x","version":"1.0.0","dependencies":{}}'})
    if rust:
        variant.put(os.path.join(dst["prod"], "rust" if ts else ""), variant.rust_prod(flow))
    if ts:
        at = os.path.join(dst["prod"], "typescript" if rust else "")
        shutil.copytree(os.path.join(VERIF, "sim", "ts", "user"), at, dirs_exist_ok=True)
        variant.put(at, variant.ts_prod(flow))
    names = " ".join(langs)
    variant.put(root, {"x.prot": variant.protocol(variant.defs(prot), flow), "x.workflow": variant.workflow(flow, names, names)})
    return dst


def define(binary, root, dst, what):
    """Has the generator write the peers."""
    try:
        r = run([binary, "-s", os.path.join(root, "x.prot"), "-wf", os.path.join(root, "x.workflow"), "-cd", dst["cons"], "-pd", dst["prod"]], timeout=120)
    except subprocess.TimeoutExpired:
        raise Violated("the generator does not come to an end", "timeout of 120 s")
    if r.returncode:
        raise Violated(what, r.stdout[-6000:])
    return r.stdout


def generate(binary, v=0):
    """Rust peers for the simulation, of the base definitions or of a variant."""
    import variant
    name = "genv" if v else "gen"
    new = os.path.join(B, name + ".new")
    shutil.rmtree(new, ignore_errors=True)
    flow = variant.draw(v, True) if v else variant.base(True)
    dst = sources(flow, new, "sim.prot")
    out = define(binary, new, dst, "no peers can be generated from valid definitions")
    if not all(os.path.exists(os.path.join(dst[s], "implementation", "mod.rs")) for s in dst):
        raise Violated("no peers can be generated from valid definitions", out[-6000:])
    variant.put(new, {"calls.rs": variant.rust_calls(flow), "flow.rs": variant.rust_flow(flow, v)})
    mirror(new, os.path.join(B, name))
    shutil.rmtree(new)


def sim(what="harness", v=0):
    """Harness (or lockstep peer) with the generated peers. Returns the path of the binary."""
    to = os.path.join(B, "simv" if v else "sim")
    env = {**ENV, "CARGO_TARGET_DIR": to, "RUSTFLAGS": "-Awarnings" + (" --cfg variant" if v else "")}
    r = run(["cargo", "build", "--offline", "-q", "-p", what], cwd=os.path.join(VERIF, "sim"), env=env)
    if r.returncode:
        # compiler errors in the generated files?
        at = re.findall(r"^\s*--> (\S+?):\d+:\d+", r.stdout, re.M)
        gen = [x for x in at if re.search(r"\.build/(genv?|xv?)/", x) and "/implementation/" in x]
        if gen and len(gen) == len(at):
            raise Violated("generated peers do not compile", r.stdout[-6000:])
        raise Broken("the harness does not compile:\n" + r.stdout[-6000:])
    return os.path.join(to, "debug", what)


def peers(v=None):
    """Everything a check of generated Rust peers needs: harnesses of the base definitions and of a variant."""
    v = seed() if v is None else v
    with Lock():
        tool = cli()
        generate(tool)
        generate(tool, v)
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            return [f.result() for f in [ex.submit(sim), ex.submit(sim, "harness", v)]]


def main():
    t = time.time()
    try:
        print(*peers())
        import files
        print(files.shim())
        import ts
        print(*ts.trees("T04", seed()))
    except Violated as e:
        print(str(e), e.detail, sep="\n")
        return 1
    except Broken as e:
        print(e)
        return 2
    print("built in %.1f s" % (time.time() - t))
    return 0


if __name__ == "__main__":
    sys.exit(main())
