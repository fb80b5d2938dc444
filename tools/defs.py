"""Random definitions (protocol and workflow), and ways to make them invalid."""
PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"]
WORDS = ["Alpha", "Bravo", "Cargo", "Delta", "Echo", "Frame", "Grant", "House", "Index", "Joint", "Knock", "Limit", "Merge", "Night", "Order", "Place", "Quote", "Right", "State", "Token", "Union", "Value", "Watch", "Xenon", "Yield", "Zone"]
FIELDS = ["name", "count", "total", "code", "text", "flag", "data", "items", "left", "right", "uid", "stamp", "level", "kind", "note", "rate"]


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0

    def name(self):
        self.n += 1
        return "%s%s%d" % (self.r.choice(WORDS), self.r.choice(["", "", "X", "Of"]), self.n)

    def struct(self, refs, big):
        fields, used = [], set()
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 5]) if not big else self.r.randint(5, 14)):
            f = self.r.choice(FIELDS) + self.r.choice(["", "", "_%d" % self.r.randint(0, 9)])
            if f in used:
                continue
            used.add(f)
            t = self.r.choice(refs) if refs and self.r.random() < .25 else self.r.choice(PRIMS)
            fields.append([t, self.r.random() < .25, f, self.r.random() < .25])
        return {"k": "struct", "n": self.name(), "f": fields}

    def enum(self):
        n = self.r.randint(1, 4)
        simple = self.r.random() < .4
        items = []
        for i in range(n):
            items.append([None if simple else self.r.choice(PRIMS), (not simple) and self.r.random() < .3, self.r.choice(WORDS) + "V%d" % i])
        return {"k": "enum", "n": self.name(), "i": items}

    def entities(self, depth, path, out, refs, count, big):
        """out collects the full names of structs; refs the types that fields may use (full names)."""
        res = []
        for _ in range(count):
            k = self.r.random()
            if k < .22 and depth < 2:
                g = {"k": "group", "n": self.name(), "c": None}
                g["c"] = self.entities(depth + 1, path + [g["n"]], out, refs, self.r.randint(1, 4), big)
                res.append(g)
            elif k < .37:
                e = self.enum()
                if depth == 0:
                    refs.append(e["n"])
                res.append(e)
            else:
                s = self.struct(refs, big)
                if depth == 0:
                    refs.append(s["n"])
                out.append(".".join(path + [s["n"]]))
                res.append(s)
        return res

    def defs(self, targets=None):
        r = self.r
        big = r.random() < .15
        structs, refs = [], []
        prot = self.entities(0, [], structs, refs, r.randint(3, 8) if not big else r.randint(10, 22), big)
        while len(structs) < 6:
            s = self.struct(refs, False)
            prot.append(s)
            structs.append(s["n"])
        pool = structs[:]
        r.shuffle(pool)
        wf = {"self": None, "assigned": None, "requests": [], "events": [], "beacons": [], "config_at": r.choice([0, 0, 9])}
        wf["prod"], wf["cons"] = targets or (
            r.choice([["rust"], ["rust"], ["typescript"], ["rust", "typescript"]]), r.choice([["rust"], ["rust"], ["typescript"], ["typescript", "rust"]]))
        if r.random() < .5:
            wf["self"] = pool.pop()
        if r.random() < .5:
            wf["assigned"] = pool.pop()
        err = r.choice(structs)

        def cast(lo, hi):
            return [[s, r.random() < .5] for s in r.sample(structs, min(len(structs), r.randint(lo, hi)))]
        for _ in range(r.randint(0, min(3, len(pool) - 2))):
            q = pool.pop()
            n = r.randint(1, 3)
            acts = [[("Case%s%d" % (r.choice("ABC"), i)) if n > 1 or r.random() < .3 else None, r.choice(structs), None] for i in range(n)]
            for a in acts:
                a[2] = cast(0, 2) if a[0] and r.random() < .5 else []
            wf["requests"].append({"q": q, "e": err, "a": acts})
        for ev in ["connected", "disconnected"]:
            if r.random() < .5:
                wf["events"].append([ev, cast(1, 3)])
        for _ in range(r.randint(0, min(2, len(pool) - 1))):
            wf["events"].append([pool.pop(), cast(1, 3)])
        wf["beacons"] = [pool.pop() for _ in range(r.randint(0, min(2, len(pool))))]
        return {"prot": prot, "wf": wf, "style": r.randint(0, 1 << 30), "structs": structs}


def text(d, r):
    """(protocol, workflow)"""
    nl = r.choice(["\n", "\n", "\r\n"])
    ind = r.choice(["    ", "\t", "  "])

    def ent(e, k):
        i = ind * k
        if e["k"] == "group":
            return i + "group " + e["n"] + " {" + nl + "".join(ent(c, k + 1) for c in e["c"]) + i + "}" + nl
        if e["k"] == "enum":
            return i + "enum " + e["n"] + " {" + nl + "".join(i + ind + ("%s%s " % (t, "[]" if rep else "") if t else "") + n + ";" + nl for t, rep, n in e["i"]) + i + "}" + nl
        return i + "struct " + e["n"] + " {" + nl + "".join(i + ind + t + ("[]" if rep else "") + " " + n + ("?" if o else "") + ";" + nl for t, rep, n, o in e["f"]) + i + "}" + nl
    prot = (nl if r.random() < .5 else "").join(ent(e, 0) for e in d["prot"])
    w = d["wf"]

    def br(b):
        return "> " + b[0] + ("?" if b[1] else "") + ";"
    cfg = "&config {" + nl
    if w["self"]:
        cfg += ind + "SelfKey: " + w["self"] + ";" + nl
    if w["assigned"]:
        cfg += ind + "AssignedKey: " + w["assigned"] + ";" + nl
    cfg += ind + "Producer: " + " ".join(w["prod"]) + ";" + nl + ind + "Consumer: " + " ".join(w["cons"]) + ";" + nl + "}" + nl
    parts = []
    for q in w["requests"]:
        s = q["q"] + " !" + q["e"] + " {" + nl
        for c, resp, bs in q["a"]:
            s += ind + "(" + (c + " > " if c else "") + resp + ")"
            if bs:
                s += "".join((" " if i == 0 else nl + ind * 3) + br(b) for i, b in enumerate(bs))
            else:
                s += ";"
            s += nl
        parts.append(s + "}" + nl)
    for n, bs in w["events"]:
        parts.append("@" + n + " {" + nl + "".join(ind + br(b) + nl for b in bs) + "}" + nl)
    if w["beacons"]:
        parts.append("@beacons {" + nl + "".join(ind + "> " + b + ";" + nl for b in w["beacons"]) + "}" + nl)
    parts.insert(min(w["config_at"], len(parts)), cfg)
    wf = ""
    for p in parts:
        if r.random() < .2:
            wf += "# " + r.choice(["about the next", "todo", "( > } ;", "\u00fcber das N\u00e4chste \u2014 \u6b21"]) * r.choice([1, 1, 40]) + "\n"
        wf += p
    return prot, wf


# ---- definitions that differ

def differ(prot, wf, r):
    """A valid edit of one of the texts: (prot, wf, what)."""
    k = r.randint(0, 7)
    if k == 0:
        lines = prot.split("\n")
        at = r.randint(0, len(lines) - 1)
        lines[at] += " " * r.randint(1, 3)
        return "\n".join(lines), wf, "blanks in the protocol"
    if k == 1:
        at = [i for i, c in enumerate(wf) if c == "\n"]
        i = r.choice(at)
        return prot, wf[:i] + "\n" + wf[i:], "an empty line in the workflow"
    if k == 2:
        at = [i for i, c in enumerate(wf) if c == "?"]
        if at:
            i = r.choice(at)
            return prot, wf[:i] + wf[i + 1:], "an optional broadcast made mandatory"
    if k == 3:
        for a, b in (("u32 ", "i32 "), ("u8 ", "i8 "), ("f32 ", "f64 "), ("str ", "u64 "), ("bool ", "u8 ")):
            if a in prot:
                i = r.choice([j for j in range(len(prot)) if prot.startswith(a, j) and not prot[j - 1].isalnum()] or [-1])
                if i >= 0:
                    return prot[:i] + b + prot[i + len(a):], wf, "another type of a field"
    if k == 4:
        at = [i for i, c in enumerate(prot) if c == "?"]
        if at:
            i = r.choice(at)
            return prot[:i] + prot[i + 1:], wf, "an optional field made mandatory"
    if k == 5:
        return prot + "\nstruct Extra%d { u8 a; }\n" % r.randint(0, 99), wf, "one more struct at the end"
    if k == 6:
        for f in FIELDS:
            a = " " + f + ";"
            if a in prot:
                i = r.choice([j for j in range(len(prot)) if prot.startswith(a, j)])
                return prot[:i] + " " + f + "_x;" + prot[i + len(a):], wf, "a field renamed"
    return prot, wf + "# %d\n" % r.randint(0, 1 << 30), "a comment at the end of the workflow"


# ---- definitions that mean nothing

def depths(s, comments):
    """Positions inside of at least one brace."""
    out, d, c = [], 0, False
    for i, ch in enumerate(s):
        if comments and ch == "#":
            c = True
        if c:
            if ch == "\n":
                c = False
            continue
        if ch == "{":
            d += 1
        elif ch == "}":
            d -= 1
        if d > 0:
            out.append(i + 1)
    return out


def invalid(d, prot, wf, r):
    """(prot, wf, what): texts no generation may accept. None for a text: the file is missing."""
    ops = []

    def cut(s, com):
        at = depths(s, com)
        return s[:r.choice(at)] if at else None
    x = cut(prot, False)
    if x is not None:
        ops.append((x, wf, "a protocol that ends within a definition"))
    x = cut(wf, True)
    if x is not None:
        ops.append((prot, x, "a workflow that ends within a definition"))
    ops.append((prot + "\nstruct Last { Unknown%d a; }\n" % r.randint(0, 99), wf, "a field of an unknown type"))
    ops.append((prot + "\nstruct Last { u8 a }\n", wf, "a field without a semicolon"))
    ops.append((prot + "\nstruct Last { u8 1a; }\n", wf, "a name that starts with a digit"))
    ops.append((prot + "\n}\n", wf, "a closing brace too much in the protocol"))
    ops.append((prot + "\nstruct L\u00e9 { u8 a; }\n", wf, "a name of other than ascii characters"))
    ops.append((prot, wf + "\n}\n", "a closing brace too much in the workflow"))
    ops.append((prot, wf + "\n@beacons {\n > Unknown1;\n}\n", "a beacon of an unknown struct"))
    ops.append((prot, wf + "\n@Unknown2 {\n > %s;\n}\n" % d["structs"][0], "an event of an unknown struct"))
    ops.append((prot, wf + "\n@connected {\n > Unknown3;\n}\n" if "@connected" not in wf else wf.replace("@connected {", "@connected {\n > Unknown3;"), "a broadcast of an unknown struct"))
    ops.append((prot, wf + "\nUnknown4 !%s {\n (%s);\n}\n" % (d["structs"][0], d["structs"][0]), "a request of an unknown struct"))
    fresh = [s for s in d["structs"] if s not in wf]
    if fresh and "." not in fresh[0]:
        ops.append((prot, wf + "\n%s !Unknown5 {\n (%s);\n}\n" % (fresh[0], d["structs"][0]), "an error of an unknown struct"))
        ops.append((prot, wf + "\n%s !%s {\n (Unknown6);\n}\n" % (fresh[0], d["structs"][0]), "an answer of an unknown struct"))
        ops.append((prot, wf + "\n%s !%s {\n (A > %s);\n (%s);\n}\n" % (fresh[0], d["structs"][0], d["structs"][0], d["structs"][1]), "several answers, one without a name"))
    if d["wf"]["requests"]:
        q = d["wf"]["requests"][0]
        ops.append((prot, wf + "\n%s !%s {\n (%s);\n}\n" % (q["q"], q["e"], q["e"]), "a request defined twice"))
        ops.append((prot, wf + "\n@beacons {\n > %s;\n}\n" % q["q"], "a beacon that is a request too"))
    for e in d["wf"]["events"][:1]:
        ops.append((prot, wf + "\n@%s {\n > %s;\n}\n" % (e[0], d["structs"][0]), "an event defined twice"))
    i = wf.index("&config {")
    ops.append((prot, wf + "\n" + wf[i:wf.index("}", i) + 1] + "\n", "a second configuration"))
    ops.append((prot, wf[:i] + wf[wf.index("}", i) + 1:], "no configuration"))
    ops.append((prot, wf.replace("Producer: ", "Producer: cobol ", 1), "an unknown target"))
    ops.append((prot, wf.replace("SelfKey: ", "SelfKey: Unknown7.", 1) if "SelfKey: " in wf else wf.replace("&config {", "&config {\n SelfKey: Unknown7;", 1), "an unknown key"))
    ops.append((prot, wf + "\nbogus", "a word after the last definition"))
    ops.append((None, wf, "no protocol file"))
    ops.append((prot, None, "no workflow file"))
    return r.choice(ops)
