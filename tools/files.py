"""Simulation of the generator on a file system with faults (C01 - C04).

One seed gives one history: a project with manifests and files of the user, random definitions, and steps -
generations (undisturbed, with file operations that fail, with crashes, followed by a repetition), edits of the
files that belong to the user, changed and meaningless definitions. The real binary runs below sim/files/shim.c.
"""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time, tomllib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, defs

B = build.B
PROPS = ["C01", "C02", "C03", "C04"]
ERRNO = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EMFILE": 24, "EROFS": 30, "EDQUOT": 122, "EINTR": 4, "ENOMEM": 12}
NAMES = {v: k for k, v in ERRNO.items()}


class Found(Exception):
    def __init__(self, prop, msg):
        super().__init__(msg)
        self.prop, self.msg, self.only = prop, msg, None


# ------------------------------------------------------------------ histories

def manifest_toml(r):
    s = "[package]\nname = \"%s\"\nversion = \"0.%d.0\"\nedition = \"2018\"\n" % (r.choice(["app", "my-app", "x"]), r.randint(0, 9))
    if r.random() < .4:
        s += "description = %s\n" % r.choice(['"a \\"quoted\\" text"', '"tab\\tand\\nline"', "'''\nlines\nof text\n'''", '"\\u00e9t\u00e9 \\\\ end"'])
    if r.random() < .3:
        s += "authors = [\"A <a@b.c>\", \"B\"]\n"
    if r.random() < .8:
        s += "\n[dependencies]\n"
        for n in r.sample(["serde", "rand", "anyhow", "tokio", "uuid", "log"], r.randint(0, 4)):
            s += "%s = %s\n" % (n, r.choice(['"1"', '"0.4.%d"' % r.randint(0, 9), '{ version = "1.0", features = ["full", "x"], optional = true }', '{ path = "../dep" }']))
        if r.random() < .1:
            for n in range(r.choice([12, 30])):
                s += "crate-%d = \"%d\"\n" % (n, n)
    if r.random() < .4:
        s += "\n[dev-dependencies]\nquickcheck = \"1\"\n[dev-dependencies.tempfile]\nversion = \"3\"\ndefault-features = false\n"
    if r.random() < .3:
        s += "\n[features]\ndefault = []\nextra = [\"serde\"]\n"
    if r.random() < .3:
        s += "\n[[bin]]\nname = \"one\"\npath = \"src/one.rs\"\n[[bin]]\nname = \"two\"\n"
    if r.random() < .3:
        s += "\n[profile.release]\nlto = true\nopt-level = %d\n" % r.randint(0, 3)
    if r.random() < .2:
        s += "\n[target.'cfg(unix)'.dependencies]\nlibc = \"0.2\"\n"
    if r.random() < .2:
        s += "\n[package.metadata.docs]\nwhen = 1979-05-27T07:32:00Z\nrate = 0.5\nn = -17\n"
    return s


def manifest_json(r):
    d = {"name": r.choice(["app", "@scope/app", "x"]), "version": "1.%d.0" % r.randint(0, 9)}
    if r.random() < .5:
        d["description"] = r.choice(["a \"quoted\" text", "\u00e9t\u00e9 \\ \n\t end", ""])
    if r.random() < .7:
        d["dependencies"] = {n: r.choice(["^1.0.0", "file:../dep", "*"]) for n in r.sample(["rxjs", "ws", "clibri", "tslib"], r.randint(0, 3))}
    if r.random() < .4:
        d["devDependencies"] = {"typescript": "^4"}
    if r.random() < .4:
        d["scripts"] = {"build": "tsc -p .", "test": "jest && echo \"done\""}
    if r.random() < .3:
        d.update({"private": True, "files": ["a", {"b": [1, 2.5, None, -3]}], "n": 12345678901})
    return json.dumps(d, indent=r.choice([2, 4, None]), ensure_ascii=r.random() < .5) + r.choice(["", "\n"])


def history(prop, seed):
    r = random.Random(seed * 4 + PROPS.index(prop))
    h = {"prop": prop, "seed": seed}
    base = r.choice(["proj", "proj", "a/b/proj", "."])
    j = lambda *a: os.path.normpath(os.path.join(*a))
    same = r.random() < .7
    if same:
        h["cons"], h["prod"] = j(base, "src/cons"), j(base, "src/prod")
        crates = [base]
    else:
        h["cons"], h["prod"] = j(base, "client/src"), j(base, "server/src/prod")
        crates = [j(base, "client"), j(base, "server")]
    files = {}
    for c in crates:
        files[j(c, "Cargo.toml")] = manifest_toml(r)
        files[j(c, "package.json")] = manifest_json(r)
        files[j(c, "src/main.rs")] = "fn main() {}\n"
    if r.random() < .5 and base != ".":
        files["Cargo.toml"] = manifest_toml(r)
        files["package.json"] = manifest_json(r)
    for n in r.sample(["README.md", "proj/src/lib.rs", "proj/src/index.ts", "other/context.rs", "other/events/connected.rs", "build.rs", "proj/implementation/mod.rs"], r.randint(1, 4)):
        files[n] = "content of %s %d\n" % (n, r.randint(0, 99))
    h["files"] = files
    h["dirs"] = ["defs", "gen", os.path.dirname(h["cons"]), os.path.dirname(h["prod"])]
    # definitions
    h["defs"] = []
    g = defs.Gen(r)
    d = g.defs()
    h["defs"].append(list(defs.text(d, random.Random(d["style"]))))
    for _ in range(r.randint(0, 2)):
        if r.random() < .6:
            p, w, what = defs.differ(h["defs"][-1][0], h["defs"][-1][1], r)
            h["defs"].append([p, w])
        else:
            t = defs.Gen(r).defs((d["wf"]["prod"], d["wf"]["cons"]))
            h["defs"].append(list(defs.text(t, random.Random(t["style"]))))
    h["targets"] = [d["wf"]["cons"], d["wf"]["prod"]]
    h["env"] = {"seed": r.randint(0, 1 << 40), "cwd": r.choice([".", ".", base, "defs"]), "abs": r.random() < .3, "style": r.randint(0, 63)}

    def gen(k=0, **kw):
        s = {"op": "gen", "d": min(k, len(h["defs"]) - 1), "mode": r.choices(["wf", "prot", "puml", "all"], [8, 3, 1, 2])[0], "ow": r.random() < .85, "em": r.random() < .3, "seed": r.randint(0, 1 << 40), "faulty": []}
        s.update(kw)
        return s

    def fault():
        k = r.random()
        f = {"cls": r.choices(["any", "write", "rename", "create", "mkdir", "stat", "read", "open", "unlink", "manifest", "manifest stat"], [6, 4, 3, 3, 2, 3, 2, 1, 2, 4, 4])[0], "at": round(r.random(), 6)}
        if k < .30:
            f["kind"] = r.choice("CDT")
            f["arg"] = r.choice([0, 1, 500, 999, 1000]) if f["kind"] == "T" else 0
            if f["kind"] == "T":
                f["cls"] = r.choice(["write", "write", "manifest"])
        elif k < .75:
            f["kind"], f["arg"] = "E", ERRNO[r.choice(["EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT"])]
        elif k < .85:
            f["kind"], f["arg"], f["cls"] = "S", r.choice([1, 10, 500, 990]), r.choice(["write", "write", "read", "manifest"])
        elif k < .90:
            f["kind"], f["arg"], f["cls"] = "E", ERRNO["EINTR"], r.choice(["write", "create"])
        elif k < .97:
            f["kind"], f["arg"] = "P", ERRNO[r.choice(["ENOSPC", "EROFS", "EIO"])]
        else:
            f["kind"], f["arg"], f["cls"] = "print", 0, "print"
        return f

    def faulty():
        k = r.random()
        if k < .12:
            return {"budget": round(r.random(), 6), "faults": []}
        return {"budget": None, "faults": [fault() for _ in range(r.choice([1, 1, 1, 2, 3, 6]))]}
    def sweep(n):
        """One fault each, spread evenly over the paths a generation touches."""
        o = r.random()
        return [{"path": round((o + k / n) % 1, 6), "op": round(r.random(), 6), "kind": r.choice("EEEEEPCDT"), "arg": r.choice(["EIO", "ENOSPC", "EACCES", "EROFS"]), "again": r.random() < .25} for k in range(n)]
    if prop == "C04" and r.random() < .3:
        # definitions of some length
        for e in h["defs"]:
            n = r.choice([5000, 9000, 70000, 140000, 300000])
            if r.random() < .5:
                i = e[0].index("{") + 1 if r.random() < .5 else 0
                e[0] = e[0][:i] + (" " * 60 + "\n") * (n // 61) + e[0][i:]
            else:
                e[1] = "# a line of comment that many other lines of comment follow\n" * (n // 60) + e[1]
    steps = []
    n = r.randint(2, 5)
    cur = 0
    if prop == "C04":
        steps.append(gen(0, mode="all" if r.random() < .8 else "prot", ow=True))
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < .45:
                steps.append({"op": "twin", "d": cur, "seed": r.randint(0, 1 << 40), "style": r.randint(0, 63), "root": r.choice(["t", "a much longer name/deep/er", "x" * 60]), "mode": "all", "em": r.random() < .3})
                if r.random() < .5:
                    steps[-1]["short"] = [[r.randint(0, 40), r.choice([1, 10, 500, 990])] for _ in range(r.randint(1, 12))]
            elif k < .9:
                p, w, what = defs.differ(h["defs"][0][0], h["defs"][0][1], r)
                steps.append({"op": "differ", "p": p, "w": w, "what": what, "seed": r.randint(0, 1 << 40)})
            else:
                cur = min(cur + 1, len(h["defs"]) - 1)
                steps.append(gen(cur, mode="all", ow=True))
                steps.append({"op": "twin", "d": cur, "seed": r.randint(0, 1 << 40), "style": 0, "root": "t", "mode": "all", "em": steps[-1]["em"]})
    else:
        for i in range(n):
            k = r.random()
            if i and k < .45:
                steps.append({"op": "edit", "which": round(r.random(), 6), "how": r.choice(["append", "replace", "empty", "binary", "crlf", "similar"]), "n": r.randint(0, 999), "times": r.choice([1, 2, 5, 99])})
            if i and k > .9:
                steps.append({"op": "remove", "which": round(r.random(), 6)})
            if i and .8 < k < .9:
                steps.append({"op": "add", "which": round(r.random(), 6), "name": r.choice(["mine.rs", "notes.md", "mine.ts", "util/mod.rs", "types.d.ts"])})
            if r.random() < (.35 if prop == "C03" else .08):
                p, w, what = defs.invalid(d, h["defs"][0][0], h["defs"][0][1], r)
                steps.append(gen(0, mode="wf", ow=True, p=p, w=w, invalid=what))
            left = [x for x in steps[-1:] if x.get("abandon")]
            if i and r.random() < (.7 if left else .35):
                cur = min(cur + 1, len(h["defs"]) - 1)
            s = gen(cur, **({"mode": left[0]["mode"]} if left and r.random() < .7 else {}))
            s["faulty"] = [faulty() for _ in range(r.choice([0, 1, 1, 2, 3] if i else [0, 0, 1, 1, 2]))]
            if prop != "C04" and r.random() < .2:
                s["sweep"] = sweep(24)
            # nobody repeats it; what comes next finds what it left
            if s["faulty"] and r.random() < .3:
                s["abandon"] = True
            if prop == "C03" and r.random() < .15:
                s["missing"] = r.choice(["parent", "consumer option", "key", "manifest", "directory instead of a file"])
                s["mode"] = "wf" if s["missing"] != "directory instead of a file" else "prot"
                s["faulty"] = []
                s.pop("sweep", None)
            steps.append(s)
    h["steps"] = steps
    return h


# ------------------------------------------------------------------ running

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (8, 9))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


class World:
    def __init__(self, h, binary, shim, root, stats):
        self.h, self.bin, self.shim, self.root, self.st = h, binary, shim, root, stats
        self.leftovers = set()

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    # -- the tree
    def snap(self, root=None):
        root = root or self.root
        out = {}
        for d, ds, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as x:
                    out[os.path.relpath(p, root)] = x.read()
            if not ds and not fs:
                out[os.path.relpath(d, root) + "/"] = b""
        return out

    def restore(self, want, have):
        for p in have:
            if p not in want and not p.endswith("/"):
                os.unlink(os.path.join(self.root, p))
        dirs = {self.root}
        for p in want:
            d = os.path.join(self.root, p if p.endswith("/") else os.path.dirname(p))
            while d not in dirs and len(d) >= len(self.root):
                dirs.add(d.rstrip("/"))
                d = os.path.dirname(d.rstrip("/"))
        for d, ds, fs in os.walk(self.root, topdown=False):
            if d not in dirs and not os.listdir(d):
                os.rmdir(d)
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        for p, c in want.items():
            if not p.endswith("/") and have.get(p) != c:
                with open(os.path.join(self.root, p), "wb") as x:
                    x.write(c)

    def put(self, rel, content, root=None):
        p = os.path.join(root or self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as x:
            x.write(content if isinstance(content, bytes) else content.encode())

    # -- one process
    def clibri(self, args, cwd, seed, plan="", budget=None, prints=None, style=0, root=None):
        root = root or self.root
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.shim, "SIM_ROOT": root, "SIM_SEED": str(seed), "SIM_FAULTS": plan}
        if budget is not None:
            env["SIM_BUDGET"] = str(budget)
        if prints is not None:
            env["SIM_PRINTS"] = str(prints)
        # surroundings that must not matter
        if style & 1:
            env.update({"LANG": "de_DE.UTF-8", "LC_ALL": "tr_TR.UTF-8"})
        if style & 2:
            env.update({"HOME": "/nonexistent", "USER": "somebody", "TZ": "Asia/Kathmandu"})
        if style & 4:
            env.update({"RUST_BACKTRACE": "full"})
        if style & 8:
            env.update({"TMPDIR": "/nonexistent", "TERM": "dumb", "COLUMNS": "3"})
        if style & 16:
            env.update({"CARGO_MANIFEST_DIR": "/nonexistent", "OUT_DIR": "/nonexistent", "SOURCE_DATE_EPOCH": "1"})
        t = open(self.root + ".trace", "w+b")
        os.set_inheritable(t.fileno(), True)
        env["SIM_TRACE"] = str(t.fileno())
        try:
            p = subprocess.run([self.bin] + args, cwd=os.path.join(root, cwd), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=False, preexec_fn=limits, timeout=60)
            rc, out = p.returncode, (p.stdout + b"\n" + p.stderr).decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, out = -99, "timeout"
        t.seek(0)
        trace = []
        for l in t.read().decode("utf-8", "replace").split("\n"):
            x = l.split(" ")
            if len(x) >= 4:
                trace.append((int(x[0]), x[1], x[2], " ".join(x[3:])))
        t.close()
        self.count("processes")
        self.st["hash"] = hashlib.sha256((self.st.get("hash", "") + repr([(a, b, c) for a, b, c, _ in trace]) + str(rc)).encode()).hexdigest()[:16]
        for n, op, path, res in trace:
            if n == -1 and res.startswith("FOREIGN"):
                raise Found("C01", "it tried to change something outside of the project: %s %s" % (op, path))
        return {"rc": rc, "out": out, "trace": trace}

    def command(self, s, cons, prod, root, cwd, absolute):
        def at(p):
            return os.path.join(root, p) if absolute else os.path.relpath(os.path.join(root, p), os.path.join(root, cwd))
        a = ["-s", at("defs/p.prot")]
        outs = []
        if s["mode"] in ("wf", "all", "puml"):
            a += ["-wf", at("defs/w.workflow")]
        if s["mode"] in ("wf", "all"):
            a += ["-cd", at(cons), "-pd", at(prod)]
        if s["mode"] in ("prot", "all"):
            a += ["-rs", at("gen/out.rs"), "-ts", at("gen/out.ts")]
            outs += ["gen/out.rs", "gen/out.ts"]
        if s["mode"] == "puml":
            a += ["--puml", at("gen/out.puml")]
            outs += ["gen/out.puml"]
        if s["ow"]:
            a += ["-o"]
        if s["em"]:
            a += ["--em"]
        return a, outs

    # -- who owns what
    def zones(self):
        """[(directory, language, side)]"""
        out = []
        for side, dest, langs in (("c", self.h["cons"], self.h["targets"][0]), ("p", self.h["prod"], self.h["targets"][1])):
            for l in langs:
                out.append((os.path.join(dest, l) if len(langs) > 1 else dest, l, side))
        return out

    def users(self, p):
        """The file belongs to the user."""
        for d, lang, side in self.zones():
            if p.startswith(d + "/"):
                rel = p[len(d) + 1:]
                if os.path.basename(rel) in ("Cargo.toml", "package.json"):
                    return False
                if lang == "rust":
                    return not rel.startswith("implementation/") and os.path.basename(rel) != "mod.rs"
                if side == "p":
                    return not rel.startswith("implementation/") and rel != "index.ts"
                return False
        return False

    def manifests(self, tree):
        out = {}
        for d, lang, side in self.zones():
            n = "Cargo.toml" if lang == "rust" else "package.json"
            while True:
                p = os.path.normpath(os.path.join(d, n))
                if p in tree:
                    out[p] = lang
                    break
                if d in ("", "."):
                    break
                d = os.path.dirname(d)
        return out

    def own(self, before, after, outs, s, rc, what):
        """C01"""
        dests = [d for d, _, _ in self.zones()] if s["mode"] in ("wf", "all") else []
        tops = [self.h["cons"], self.h["prod"]]
        man = self.manifests(before) if dests else {}
        for p, c in before.items():
            if p.endswith("/"):
                continue
            if p in self.leftovers:
                continue
            if self.users(p):
                self.count("user_files_watched")
                if after.get(p) != c:
                    raise Found("C01", "%s: the user's %s %s" % (what, p, "is gone" if p not in after else "was changed"))
            elif p in outs or p in man or any(p.startswith(d + "/") for d in dests):
                continue
            elif after.get(p) != c:
                raise Found("C01", "%s: %s, which is none of its destinations, %s" % (what, p, "is gone" if p not in after else "was changed"))
        near = set(os.path.dirname(p) for p in list(man) + outs)
        for p in after:
            if p in before or p.endswith("/") or p in outs or any(p.startswith(d + "/") for d in dests):
                continue
            if rc != 0 and os.path.dirname(p) in near and os.path.basename(p).startswith("."):
                continue
            raise Found("C01", "%s: %s appeared outside of its destinations" % (what, p))

    def keep(self, before, after, final, what):
        """What a manifest held is still there (C02)."""
        for p, lang in self.manifests(before).items():
            def load(b):
                return tomllib.loads(b.decode()) if lang == "rust" else json.loads(b.decode())
            old = load(before[p])
            self.count("manifests_checked")
            if p not in after:
                raise Found("C02", "%s: %s is gone" % (what, p))
            try:
                new = load(after[p])
            except Exception as e:
                raise Found("C02", "%s: %s cannot be read any more (%s)" % (what, p, e))
            # the dependencies that the generator itself sets; a later step may set another version than an earlier one
            end = load(final[p]).get("dependencies", {}) if p in final else {}
            first = load(self.h["files"][p].encode()).get("dependencies", {}) if p in self.h["files"] else {}
            sets = set(n for n in end if n not in first or end[n] != first[n])
            for k, v in old.items():
                if k == "dependencies":
                    nd = new.get(k, {})
                    for n, x in v.items():
                        if n not in nd or (nd[n] != x and n not in sets):
                            raise Found("C02", "%s: %s lost its dependency %s" % (what, p, n))
                elif new.get(k) != v:
                    raise Found("C02", "%s: %s lost what it said about %s" % (what, p, k))

    # -- steps
    def plan(self, f, trace, written):
        """The faults in terms of operation numbers."""
        out, soft, prints, kinds = [], True, None, []
        for x in f["faults"]:
            if x["kind"] == "print":
                prints = int(x["at"] * 60)
                soft = False
                kinds.append("reader of the output gone")
                continue
            man = ("Cargo.toml", "package.json", "Cargo.toml.draft", "package.json.draft")
            if x["cls"] == "manifest stat":
                x = dict(x, cls="manifest", kind="E", arg=ERRNO["EACCES"] if x["kind"] != "E" or x["arg"] == ERRNO["EINTR"] else x["arg"], stat=True)
            c = [t for t in trace if t[0] >= 0 and (t[1] == "stat" or not x.get("stat")) and (x["cls"] == "any" or t[1] == x["cls"] or (x["cls"] == "manifest" and t[2].endswith(man) and (x["kind"] not in "TS" or t[1] == "write")))]
            if not c:
                c = [t for t in trace if t[0] >= 0]
            if not c:
                continue
            t = c[min(len(c) - 1, int(x["at"] * len(c)))]
            out.append("%d:%s%d" % (t[0], x["kind"], x["arg"]))
            kinds.append({"C": "crash before ", "D": "crash after ", "T": "crash within ", "E": NAMES.get(x["arg"], "?") + " from ", "S": "short ", "P": "from then on " + NAMES.get(x["arg"], "?") + " at "}[x["kind"]] + t[1])
        budget = None
        if f["budget"] is not None:
            budget = int(f["budget"] * max(1, written))
            soft = False
            kinds.append("disk full after so many bytes")
        return ";".join(out), budget, prints, soft, kinds

    def gen(self, s, i):
        h = self.h
        p, w = (s["p"], s["w"]) if "invalid" in s else h["defs"][s["d"]]
        for n, c in (("defs/p.prot", p), ("defs/w.workflow", w)):
            if c is None:
                if os.path.exists(os.path.join(self.root, n)):
                    os.unlink(os.path.join(self.root, n))
            else:
                self.put(n, c)
        e = h["env"]
        cons, prod = h["cons"], h["prod"]
        args, outs = self.command(s, cons, prod, self.root, e["cwd"], e["abs"])
        if s.get("missing") == "parent":
            k = args.index("-cd")
            args[k + 1] = args[k + 1] + "/no/such/place"
        elif s.get("missing") == "consumer option":
            k = args.index("-pd")
            del args[k:k + 2]
        elif s.get("missing") == "key":
            args.append("--nonsense")
        elif s.get("missing") == "directory instead of a file":
            args[args.index("-rs") + 1] = os.path.join(self.root, "gen") if e["abs"] else os.path.relpath(os.path.join(self.root, "gen"), os.path.join(self.root, e["cwd"]))
        before = self.snap()
        taken = {}
        if s.get("missing") == "manifest":
            taken = {m: c for m, c in before.items() if os.path.basename(m) in ("Cargo.toml", "package.json")}
            for m in list(before):
                if os.path.basename(m) in ("Cargo.toml", "package.json"):
                    os.unlink(os.path.join(self.root, m))
            before = self.snap()
        clean = self.clibri(args, e["cwd"], s["seed"], style=e["style"])
        t1 = self.snap()
        where = "step %d, undisturbed generation" % i
        self.sane(clean, where)
        bad = "invalid" in s or "missing" in s or (not s["ow"] and any(o in before for o in outs))
        why = s.get("invalid") or s.get("missing") or "an output that exists and must not be overwritten"
        if bad:
            self.count("invalid_inputs")
            if clean["rc"] == 0:
                raise Found("C03", "%s: status zero in spite of %s" % (where, why))
            if not clean["out"].strip():
                raise Found("C03", "%s: it does not say that it failed because of %s" % (where, why))
            self.own(before, t1, outs, s, clean["rc"], where + " of " + why)
            self.leftovers |= set(x for x in t1 if x not in before and os.path.basename(x).startswith("."))
            for m, c in taken.items():
                self.put(m, c)
            return
        if clean["rc"] != 0:
            raise Found(h["prop"], "%s of valid definitions fails: %s" % (where, clean["out"].strip()[-300:]))
        self.own(before, t1, outs, s, 0, where)
        if s["mode"] in ("wf", "all"):
            self.keep(before, t1, t1, where)
        for o in outs:
            if o not in t1 or (not s["ow"] and o in before):
                raise Found("C03", "%s: status zero, but %s was not written" % (where, o))
        if s["mode"] in ("wf", "all"):
            for d, lang, side in self.zones():
                if not any(x.startswith(d + "/") for x in t1):
                    raise Found("C03", "%s: status zero, but nothing was written to %s" % (where, d))
        self.count("generations")
        self.fresh(s, before, t1, outs, where)
        said = set(re.sub(r"\d+", "0", l) for l in clean["out"].split("\n"))
        written = sum(int(t[3].split(" ")[0]) for t in clean["trace"] if t[1] == "write" and t[3].split(" ")[0].isdigit())
        if s.get("sweep"):
            self.sweep(s, i, args, outs, before, t1, clean, said)
        if not s["faulty"]:
            return
        self.restore(before, t1)
        cur = before
        for k, f in enumerate(s["faulty"]):
            plan, budget, prints, soft, kinds = self.plan(f, clean["trace"], written)
            what = "step %d, generation with %s" % (i, ", ".join(kinds) or "no fault")
            run = self.clibri(args, e["cwd"], s["seed"], plan, budget, prints, style=e["style"])
            after = self.snap()
            for x in kinds:
                self.st.setdefault("faults", {})
            hit = [t for t in run["trace"] if "injected" in t[3] or "crash" in t[3] or " short" in t[3]]
            for t in hit:
                kind = ("crash" if "crash" in t[3] else "short transfer" if "short" in t[3] else NAMES.get(int(re.search(r"errno=(\d+)", t[3]).group(1)), "error")) + " at " + t[1]
                self.st["faults"][kind] = self.st["faults"].get(kind, 0) + 1
                self.st.setdefault("points", set()).add((kind, re.sub(r"\d+", "", t[2])))
            self.sane(run, what)
            self.count("disturbed_generations")
            self.own(cur, after, outs, s, run["rc"], what)
            if s["mode"] in ("wf", "all"):
                self.keep(before, after, t1, what)
            same = self.differs(t1, after)
            if run["rc"] == 0 and same:
                # an output that stood in the way when the first run was to start is overwritten by none
                raise Found("C03", "%s: status zero, but %s" % (what, same))
            if run["rc"] not in (0, 137):
                news = [l for l in run["out"].split("\n") if l.strip() and re.sub(r"\d+", "0", l) not in said]
                if not news:
                    raise Found("C03", "%s: it failed (status %d) without saying so" % (what, run["rc"]))
            # operation numbers shift after a short transfer: what was met counts, not what was meant
            soft = soft and (s["ow"] or not any(o in cur for o in outs)) and all(" short" in t[3] or ("errno=4" in t[3] and "errno=4" == re.search(r"errno=\d+", t[3]).group(0) and t[1] in ("write", "create")) for t in hit)
            if soft and run["rc"] != 0:
                raise Found("C02", "%s: short transfers and interrupted calls are no errors, yet it failed: %s" % (what, run["out"].strip()[-200:]))
            self.leftovers |= set(x for x in after if x not in cur and x not in t1)
            cur = after
        if s.get("abandon"):
            self.count("abandoned_generations")
            return
        # undisturbed again
        if not s["ow"] and any(o in cur for o in outs):
            args = args + ["-o"]
        last = self.clibri(args, e["cwd"], s["seed"] + 1, style=e["style"])
        t2 = self.snap()
        what = "step %d, generation after the disturbed ones" % i
        self.sane(last, what)
        if last["rc"] != 0:
            raise Found("C02", "%s fails: %s" % (what, last["out"].strip()[-300:]))
        self.own(cur, t2, outs, s, 0, what)
        d = self.differs(t1, t2)
        if d:
            raise Found("C02", "%s: %s" % (what, d))
        self.count("recoveries")
        self.leftovers &= set(t2)

    def fresh(self, s, before, t1, outs, where):
        """What it wrote is what it would have written had it never been run here."""
        h = self.h
        if h["prop"] not in ("C02", "C03", "C04"):
            return
        e = h["env"]
        tops = [d + "/" for d, _, _ in self.zones()]
        stale = lambda n: n in self.leftovers or n in outs or (not self.users(n) and n.startswith(tuple(tops)))
        root = self.root + ".other/f"
        shutil.rmtree(self.root + ".other", ignore_errors=True)
        os.makedirs(root)
        for d in h["dirs"] + [e["cwd"]]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        old = {n: c for n, c in before.items() if not n.endswith("/") and not stale(n)}
        for n, c in old.items():
            self.put(n, c, root)
        args, _ = self.command(s, h["cons"], h["prod"], root, e["cwd"], e["abs"])
        run = self.clibri(args, e["cwd"], s["seed"], style=e["style"], root=root)
        t = self.snap(root)
        shutil.rmtree(self.root + ".other", ignore_errors=True)
        if run["rc"] != 0:
            return
        self.count("compared_with_fresh")
        for n in sorted(t):
            if n.endswith("/") or n in old and self.users(n):
                continue
            if (n in outs or n.startswith(tuple(tops))) and t1.get(n) != t[n]:
                raise Found(h["prop"], "%s: status zero, but %s is not what a generation into an empty place writes" % (where, n))

    def sweep(self, s, i, args, outs, before, t1, clean, said):
        """The same generation again and again, each time from the same start and with one fault at another path."""
        e = self.h["env"]
        by = {}
        for t in clean["trace"]:
            if t[0] >= 0 and t[1] != "read":
                by.setdefault(t[2], []).append(t)
        paths, kept = sorted(by), self.leftovers
        for k, x in enumerate(s["sweep"]):
            self.restore(before, self.snap())
            ops = by[paths[min(len(paths) - 1, int(x["path"] * len(paths)))]]
            t = ops[min(len(ops) - 1, int(x["op"] * len(ops)))]
            arg = 500 if x["kind"] == "T" else ERRNO[x["arg"]] if x["kind"] in "EP" else 0
            what = "step %d, generation with %s at %s of %s" % (i, {"E": x["arg"], "P": x["arg"] + " from then on", "C": "a crash before", "D": "a crash after", "T": "a crash within"}[x["kind"]], t[1], t[2])
            try:
                run = self.clibri(args, e["cwd"], s["seed"], "%d:%s%d" % (t[0], x["kind"], arg), style=e["style"])
                after = self.snap()
                self.sane(run, what)
                self.count("swept_generations")
                self.own(before, after, outs, s, run["rc"], what)
                if s["mode"] in ("wf", "all"):
                    self.keep(before, after, t1, what)
                same = self.differs(t1, after)
                if run["rc"] == 0 and same:
                    raise Found("C03", "%s: status zero, but %s" % (what, same))
                if run["rc"] not in (0, 137) and not [l for l in run["out"].split("\n") if l.strip() and re.sub(r"\d+", "0", l) not in said]:
                    raise Found("C03", "%s: it failed (status %d) without saying so" % (what, run["rc"]))
                self.st.setdefault("points", set()).add((x["kind"] + " swept", re.sub(r"\d+", "", t[2])))
                if x["again"]:
                    self.leftovers = kept | set(z for z in after if z not in before and z not in t1)
                    more = [] if s["ow"] or not any(o in after for o in outs) else ["-o"]
                    last = self.clibri(args + more, e["cwd"], s["seed"] + 1, style=e["style"])
                    t2 = self.snap()
                    what = "step %d, generation after one with %s" % (i, what.split("generation with ")[1])
                    self.sane(last, what)
                    if last["rc"] != 0:
                        raise Found("C02", "%s fails: %s" % (what, last["out"].strip()[-300:]))
                    self.own(after, t2, outs, s, 0, what)
                    d = self.differs(t1, t2)
                    if d:
                        raise Found("C02", "%s: %s" % (what, d))
                    self.count("recoveries")
            except Found as f:
                f.only = (i, k)
                raise
            finally:
                self.leftovers = kept
        self.restore(t1, self.snap())

    def differs(self, want, have):
        for p in sorted(want):
            if p not in have and not p.endswith("/"):
                return "%s is missing" % p
            if not p.endswith("/") and have[p] != want[p]:
                return "%s differs from what an undisturbed generation writes" % p
        for p in sorted(have):
            if p not in want and not p.endswith("/") and p not in self.leftovers:
                return "%s is there, which an undisturbed generation does not leave" % p
        return None

    def sane(self, run, what):
        if run["rc"] in (-99, -24, -9):
            raise Found("C03", "%s: it does not come to an end" % what)
        if run["rc"] < 0:
            raise Found("C03", "%s: it was ended by signal %d" % (what, -run["rc"]))

    def pick(self, s):
        t = self.snap()
        own = sorted(p for p in t if not p.endswith("/") and self.users(p) and p not in self.leftovers)
        if not own:
            return t, []
        n = s.get("times", 1)
        a = int(s["which"] * len(own))
        return t, [own[(a + k) % len(own)] for k in range(min(n, len(own)))]

    def edit(self, s, i):
        t, own = self.pick(s)
        for p in own:
            c = t[p]
            how = s["how"]
            n = b"// edited %d\n" % s["n"]
            if how == "append":
                c = c + n
            elif how == "replace":
                c = n
            elif how == "empty":
                c = b""
            elif how == "binary":
                c = bytes([0, 255, 128, 10]) * 9 + n
            elif how == "crlf":
                c = c.replace(b"\n", b"\r\n")
            elif how == "similar":
                c = c.replace(b"panic", b"panik").replace(b"Ok", b"OK", 1) + b" "
            self.put(p, c)
            self.count("edits")

    def remove(self, s, i):
        _, own = self.pick(s)
        for p in own[:1]:
            os.unlink(os.path.join(self.root, p))
            self.count("removals")

    def add(self, s, i):
        z = self.zones()
        d, lang, side = z[int(s["which"] * len(z))]
        if os.path.isdir(os.path.join(self.root, d)):
            p = os.path.join(d, "extra" if lang == "typescript" else "events", s["name"])
            if not os.path.exists(os.path.join(self.root, p)):
                self.put(p, "a file of the user\n")
                self.count("additions")

    def elsewhere(self, name, p, w, s, cons, prod, files, plan=""):
        """A generation in an empty project of its own. Returns the tree."""
        root = self.root + ".other/" + name
        shutil.rmtree(self.root + ".other", ignore_errors=True)
        os.makedirs(root)
        for d in ("defs", "gen", os.path.dirname(cons), os.path.dirname(prod)):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for n, c in files.items():
            self.put(n, c, root)
        self.put("defs/p.prot", p, root)
        self.put("defs/w.workflow", w, root)
        cwd = ["."][0] if s["seed"] & 1 else "defs"
        args, outs = self.command(s, cons, prod, root, cwd, bool(s["seed"] & 2))
        run = self.clibri(args, cwd, s["seed"], plan, style=s.get("style", 0), root=root)
        self.sane(run, "a generation elsewhere")
        t = self.snap(root)
        shutil.rmtree(self.root + ".other", ignore_errors=True)
        return run, t

    def twin(self, s, i):
        """The same definitions somewhere else, at another time, in other surroundings (C04)."""
        h = self.h
        p, w = h["defs"][s["d"]]
        man = {n: c for n, c in h["files"].items() if os.path.basename(n) in ("Cargo.toml", "package.json")}
        one = dict(s, seed=h["env"]["seed"], ow=True, style=0)
        a, ta = self.elsewhere("a", p, w, one, h["cons"], h["prod"], man)
        b, tb = self.elsewhere(s["root"], p, w, dict(s, ow=True), h["cons"], h["prod"], man, ";".join("%d:S%d" % tuple(x) for x in s.get("short", [])))
        what = "step %d, the same definitions in two places" % i
        if a["rc"] or b["rc"]:
            raise Found("C04", "%s: %s" % (what, (a if a["rc"] else b)["out"].strip()[-300:]))
        for n in sorted(set(ta) | set(tb)):
            if ta.get(n) != tb.get(n):
                raise Found("C04", "%s: %s differs" % (what, n))
        self.count("twins")
        # what the project here holds from this and earlier definitions, as far as it is the generator's
        have = self.snap()
        last = ([x for x in h["steps"][:i] if x["op"] == "gen"] or [None])[-1]
        if last and last["d"] == s["d"] and last["mode"] == "all" and last["em"] == s["em"]:
            for n in sorted(ta):
                if not n.endswith("/") and not self.users(n) and have.get(n) != ta[n]:
                    raise Found("C04", "%s: %s depends on what was there before" % (what, n))
            self.count("over_previous_content")
        self.agree(ta, what)

    def agree(self, t, what):
        hs, ids = {}, {}
        for n, c in t.items():
            if n.endswith("/"):
                continue
            zone = [z for z in self.zones() if n.startswith(z[0] + "/")]
            if not zone and not n.startswith("gen/"):
                continue
            z = zone[0] if zone else (n, "rust" if n.endswith(".rs") else "typescript", "o")
            src = c.decode("utf-8", "replace")
            for x in re.findall(r"[\"'`]([0-9A-Fa-f]{24,128})[\"'`]", src):
                hs.setdefault(z, set()).add(x)
            m = re.findall(r"\b(\d+) => match ([\w:]+)::extract\(", src) if z[1] == "rust" else re.findall(r"\bcase (\d+):\s*instance = (?:new )?([\w.]+?)(?:\.defaults)?\(\)", src)
            if m:
                key = (z, os.path.dirname(n) if z[2] != "o" else "")
                ids[key] = {}
                for num, name in m:
                    name = name.replace("::", ".")
                    if ids[key].get(name, num) != num:
                        raise Found("C04", "%s: %s has two numbers in %s" % (what, name, n))
                    ids[key][name] = num
                if len(set(ids[key].values())) != len(ids[key]):
                    raise Found("C04", "%s: two messages share a number in %s" % (what, n))
        peers = {z: v for z, v in hs.items() if z[2] in "cp"}
        first = None
        for z, v in sorted(peers.items()):
            if first is None:
                first = (z, v)
            elif v != first[1]:
                raise Found("C04", "%s: %s of %s and %s of %s carry different hashes" % (what, z[2], z[1], first[0][2], first[0][1]))
        fi = None
        for z, v in sorted(ids.items()):
            if z[0][2] == "o":
                continue  # without the messages of the workflow
            if fi is None:
                fi = (z, v)
            elif v != fi[1]:
                raise Found("C04", "%s: the messages of %s and %s are numbered differently" % (what, z[0][0], fi[0][0][0]))
        o = [v for z, v in sorted(ids.items()) if z[0][2] == "o"]
        if len(o) == 2 and o[0] != o[1]:
            raise Found("C04", "%s: out.rs and out.ts number messages differently" % what)
        self.count("agreements" if len(peers) > 1 else "single_outputs")
        return first[1] if first else set()

    def differ(self, s, i):
        """Definitions that differ have hashes that differ (C04)."""
        h = self.h
        p, w = h["defs"][0]
        if (p, w) == (s["p"], s["w"]):
            return
        man = {n: c for n, c in h["files"].items() if os.path.basename(n) in ("Cargo.toml", "package.json")}
        m = dict(mode="wf", ow=True, em=False, seed=s["seed"])
        a, ta = self.elsewhere("a", p, w, m, h["cons"], h["prod"], man)
        b, tb = self.elsewhere("b", s["p"], s["w"], m, h["cons"], h["prod"], man)
        if a["rc"] or b["rc"]:
            raise Found("C04", "step %d, a generation fails: %s" % (i, (a if a["rc"] else b)["out"].strip()[-300:]))
        ha, hb = self.agree(ta, "step %d" % i), self.agree(tb, "step %d, after an edit" % i)
        if ha and ha == hb:
            raise Found("C04", "step %d: %s changes no hash" % (i, s["what"]))
        self.count("different_definitions")

    def go(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        for d in self.h["dirs"]:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for n, c in self.h["files"].items():
            self.put(n, c)
        try:
            for i, s in enumerate(self.h["steps"]):
                getattr(self, s["op"])(s, i)
        finally:
            shutil.rmtree(self.root, ignore_errors=True)
            shutil.rmtree(self.root + ".other", ignore_errors=True)


def execute(h, binary, shim, root, stats):
    """The violation of a history, or None."""
    try:
        World(h, binary, shim, root, stats).go()
    except Found as f:
        return f
    return None


def minimise(h, binary, shim, root, only=None, budget=60):
    """Leaves out steps, disturbances, faults and files while the same property is still violated."""
    best = json.loads(json.dumps(h))
    tries = [0]
    if only:
        x = json.loads(json.dumps(h))
        del x["steps"][only[0] + 1:]
        x["steps"][only[0]]["sweep"] = [x["steps"][only[0]]["sweep"][only[1]]]
        f = execute(x, binary, shim, root, {})
        if f is not None and f.prop == h["prop"]:
            best = x

    def still(x):
        tries[0] += 1
        f = execute(x, binary, shim, root, {})
        return f is not None and f.prop == h["prop"]
    changed = True
    while changed and tries[0] < budget:
        changed = False
        cands = []
        for i in range(len(best["steps"]) - 1, -1, -1):
            cands.append(("steps", i))
            if "sweep" in best["steps"][i]:
                cands.append(("sweep", i))
        for i, s in enumerate(best["steps"]):
            for k in range(len(s.get("faulty", [])) - 1, -1, -1):
                cands.append(("faulty", i, k))
                for m in range(len(s["faulty"][k]["faults"]) - 1, -1, -1):
                    if len(s["faulty"][k]["faults"]) > 1:
                        cands.append(("fault", i, k, m))
        for n in sorted(best["files"]):
            cands.append(("files", n))
        for c in cands:
            if tries[0] >= budget:
                break
            x = json.loads(json.dumps(best))
            if c[0] == "steps":
                if len(x["steps"]) < 2:
                    continue
                del x["steps"][c[1]]
            elif c[0] == "sweep":
                del x["steps"][c[1]]["sweep"]
            elif c[0] == "faulty":
                del x["steps"][c[1]]["faulty"][c[2]]
            elif c[0] == "fault":
                del x["steps"][c[1]]["faulty"][c[2]]["faults"][c[3]]
            else:
                if os.path.basename(c[1]) in ("Cargo.toml", "package.json"):
                    continue
                del x["files"][c[1]]
            if still(x):
                best, changed = x, True
                break
    return best, tries[0]


# ------------------------------------------------------------------ workers, checks, replays

def shim():
    out = os.path.join(B, "shim.so")
    src = os.path.join(build.VERIF, "sim", "files", "shim.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        r = build.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", out + ".new", src, "-ldl"])
        if r.returncode:
            raise build.Broken("shim.c does not compile:\n" + r.stdout[-2000:])
        os.replace(out + ".new", out)
    return out


def work(prop, base, w, n, seconds, out, binary, so):
    stats, end, runs, distinct, samples = {"faults": {}}, time.time() + seconds, 0, set(), []
    res = {"violation": None}
    root = out + ".world"
    k = w
    while time.time() < end:
        seed = (base * 1000003 + k) & ((1 << 40) - 1)
        k += n
        h = history(prop, seed)
        st = {}
        before = json.dumps(h)
        with open(out + ".progress", "w") as f:
            f.write(before)
        f = execute(h, binary, so, root, st)
        runs += 1
        distinct.add(st.pop("hash", ""))
        for a, b in st.pop("faults", {}).items():
            stats["faults"][a] = stats["faults"].get(a, 0) + b
        stats.setdefault("points", set()).update(st.pop("points", set()))
        for a, b in st.items():
            stats[a] = stats.get(a, 0) + b
        if len(samples) < 1:
            samples.append("seed %d: %s" % (seed, ", ".join(s["op"] + (" of " + s["invalid"] if "invalid" in s else "") + ("(%d disturbed)" % len(s["faulty"]) if s.get("faulty") else "") for s in h["steps"])))
        if f is not None and f.prop == prop:
            m, tries = minimise(h, binary, so, root, f.only)
            g = execute(m, binary, so, root, {}) or f
            m["violation"] = g.msg
            m["minimised"] = "%d of %d steps left after %d trials" % (len(m["steps"]), len(h["steps"]), tries)
            res["violation"] = m
            break
        if f is not None:
            stats["other_property"] = stats.get("other_property", 0) + 1
    stats["points"] = sorted(map(list, stats.get("points", set())))
    res.update({"runs": runs, "stats": stats, "hashes": sorted(distinct), "samples": samples})
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


REAL = {
    "real code": ["the clibri binary, built from /repo/cli, unmodified", "the kernel's file system below a scratch directory"],
    "simulated": ["libc file calls of the process (sim/files/shim.c): failures, short transfers, full and read-only disks, crashes at and within calls",
                  "clock, getrandom, hash map keys, process id, order of directory listings, environment"],
    "workload": ["projects, manifests, definitions, edits and deletions of the user, drawn by seed (tools/files.py, tools/defs.py)"],
}
ASSUME = [
    "a crash is the end of the process: what a completed system call wrote stays, no later power loss reorders it",
    "an error is reported by the call that meets it; errors that a network file system reports only when a file is closed are not injected",
    "one generation at a time works on a project",
    "a sample of histories and fault sequences is explored, not all of them",
]
COUNTED = {"C01": "user_files_watched", "C02": "recoveries", "C03": None, "C04": None}


def check(prop, tier):
    import check as c
    t0 = time.time()
    secs = float(os.environ.get("VERIF_SECONDS") or (22 if tier == "quick" else 600))
    with build.Lock():
        binary, so = build.cli(), shim()
        mine = os.path.join(B, "work", prop + ".bin")
        os.makedirs(os.path.dirname(mine), exist_ok=True)
        shutil.copy(binary, mine)
    d = os.path.join(B, "work", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    n = os.cpu_count() or 4
    base = c.seed() * 1009 + int(prop[1:])
    ps = []
    for w in range(n):
        out = os.path.join(d, "w%d" % w)
        log = open(out + ".log", "w")
        ps.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), "work", prop, str(base), str(w), str(n), str(secs), out, mine, so], stdout=log, stderr=log), out))
    bad = None
    while any(p.poll() is None for p, _ in ps):
        time.sleep(.1)
        done = [o for p, o in ps if p.poll() is not None and os.path.exists(o)]
        if any(json.load(open(o))["violation"] for o in done):
            t = time.time()
            while time.time() - t < 1 and any(p.poll() is None for p, _ in ps):
                time.sleep(.05)
            for p, _ in ps:
                if p.poll() is None:
                    p.kill()
            break
    runs, st, hashes, samples, errs, points = 0, {"faults": {}}, set(), [], [], set()
    killed = any(p.poll() is None or p.returncode == -9 for p, _ in ps)
    for p, o in ps:
        rc = p.wait()
        if not os.path.exists(o):
            if not (killed and rc == -9):
                errs.append(open(o + ".log", errors="replace").read()[-1500:] or "exit %d" % rc)
            continue
        x = json.load(open(o))
        runs += x["runs"]
        hashes |= set(x["hashes"])
        samples += x["samples"]
        s = x["stats"]
        points |= set(map(tuple, s.pop("points")))
        for a, b in s.pop("faults").items():
            st["faults"][a] = st["faults"].get(a, 0) + b
        for a, b in s.items():
            st[a] = st.get(a, 0) + b
        bad = bad or x["violation"]
    wall = time.time() - t0
    if bad is None and (errs or runs == 0):
        raise build.Broken("%d workers failed; %s" % (len(errs), errs[:1]))
    path = None
    if bad:
        os.makedirs(c.REPLAYS, exist_ok=True)
        path = os.path.join(c.REPLAYS, "%s-%d.json" % (prop, bad["seed"]))
        with open(path, "w") as f:
            json.dump(bad, f, indent=1)
    shutil.rmtree(d, ignore_errors=True)
    os.unlink(mine)
    what = {"C01": ["user_files_watched"], "C02": ["recoveries", "manifests_checked"], "C03": ["disturbed_generations", "swept_generations", "invalid_inputs", "generations"],
            "C04": ["twins", "agreements", "different_definitions", "over_previous_content"]}[prop]
    cov = {
        "evaluations": sum(st.get(k, 0) for k in what), "distinct_nontrivial": len(hashes),
        "rule": "each case is one seeded history of generations of the real binary on a faulty file system; distinct = a different hash of all its file operations and exit statuses; "
                "`evaluations` counts the single instances decided (" + ", ".join(what) + ")",
        "samples": samples[:3] or ["none before the violation"],
        "simulated_runs": runs, "processes": st.get("processes", 0), "seeds": "history n of worker w has seed base*1000003+w+8n with base %d" % base,
        "simulated_runs_per_hour": int(runs / max(wall, .001) * 3600),
        "simulated_time": "not advanced by the generator; every reading of its clock is drawn by seed",
        "faults_injected": st["faults"], "distinct_fault_points": len(points), "numbers": {k: v for k, v in sorted(st.items()) if k != "faults"},
        "components": REAL,
    }
    if bad:
        cov["violation"] = bad["violation"]
    c.evidence(prop, tier, "exploration", cov, wall, 1 if bad else 0, ASSUME)
    if bad:
        return c.violation(prop, path, "%s [seed %d; %s]" % (bad["violation"], bad["seed"], bad["minimised"]))
    for k in c.known(prop):
        print("KNOWN-FINDING: " + k)
    print("%s: held in %d simulated histories (%d processes, %d instances, %d distinct fault points) in %.1f s" % (prop, runs, st.get("processes", 0), cov["evaluations"], len(points), wall))
    return 0


def replay(path):
    with build.Lock():
        binary, so = build.cli(), shim()
    h = json.load(open(path))
    f = execute(h, os.environ.get("CLIBRI", binary), so, os.path.join(B, "work", "replay.world"), {})
    print("%s: %s" % (f.prop, f.msg) if f else "no violation")
    return 1 if f else 0


if __name__ == "__main__":
    if sys.argv[1] == "work":
        p, base, w, n, s, out, binary, so = sys.argv[2:]
        work(p, int(base), int(w), int(n), float(s), out, binary, so)
    elif sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
