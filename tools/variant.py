"""Definitions the simulated peers are generated from, in variants, and the user's files that go with them.

A flow says what the workflow declares: requests with their conclusions and broadcasts, events, beacons. From one flow
come the workflow file, the handlers of the application in Rust and TypeScript (which only record, and act by the plan),
and what the harness has to know of it. Messages and their fields are those of sim/defs; a variant shuffles their order.
"""
import json, os, random, re

ERR = {"Errors.Fail": ("fail", "K::Fail"), "Deep.Refuse": ("refuse", "K::Refuse")}
CAST = {"Note": "note", "NoteB": "note_b", "NoteC": "note_c", "Deep.News": "news", "Deep.Inner.News": "inner_news"}
KIND = {"Echo": "Echo", "Multi": "Multi", "Same": "Same", "Quick": "Quick", "Deep.Ask": "Ask", "Reply": "Reply", "RespA": "RespA", "RespB": "RespB", "RespC": "RespC",
        "Deep.Answer": "Answer", "Deep.Inner.Answer": "InnerAnswer", "Note": "Note", "NoteB": "NoteB", "NoteC": "NoteC", "Deep.News": "News", "Deep.Inner.News": "InnerNews",
        "Tick": "Tick", "Deep.Pulse": "Pulse", "Ping": "Ping", "Deep.Mark": "Mark"}
ANSWER = {"Reply": ("ct::reply(op, p.big)", "ct::reply_ok(&m, big)"), "RespA": ("ct::resp_a(op)", "ct::resp_a_ok(&m)"), "RespB": ("ct::resp_b(op)", "ct::resp_b_ok(&m)"),
          "RespC": ("ct::resp_c(op)", "true"), "Same": ("ct::same(op, true)", "ct::same_ok(&m, true)"), "Deep.Answer": ("ct::answer(op)", "ct::answer_ok(&m)"),
          "Deep.Inner.Answer": ("ct::inner_answer(op)", "ct::inner_answer_ok(&m)")}
REQUEST = {"Echo": ("echo(op, big)", "ct::echo_ok(request, simworld::plan(op).big)"), "Multi": ("multi(op)", "ct::multi_ok(request)"), "Same": ("same(op, false)", "ct::same_ok(request, false)"),
           "Quick": ("quick(op)", "true"), "Deep.Ask": ("ask(op)", "ct::ask_ok(request)")}


def c(r, *b, n=None):
    """Conclusion: response, broadcasts (with a mark: optional), name."""
    return {"n": n, "r": r, "b": [[x.rstrip("?"), x.endswith("?")] for x in b]}


def b(*x):
    return [[y.rstrip("?"), y.endswith("?")] for y in x]


def base(rust=False):
    return {
        "requests": [
            {"n": "Echo", "e": "Errors.Fail", "c": [c("Reply")]},
            {"n": "Multi", "e": "Errors.Fail", "c": [c("RespA", "Note", n="CaseA"), c("RespB", "Note", "NoteB?", n="CaseB"), c("RespC", n="CaseC")]},
            {"n": "Same", "e": "Errors.Fail", "c": [c("Same", "Note", "NoteC?", n="Got")]},
            {"n": "Quick", "e": "Deep.Refuse", "c": [c("RespC", "NoteC?", n="Fine"), c("RespC" if rust else "RespA", n="Slow")]},
            {"n": "Deep.Ask", "e": "Deep.Refuse", "c": [c("Deep.Answer", "Deep.News?", n="One"), c("Deep.Inner.Answer", "Deep.News", "Note?", "Deep.Inner.News", n="Two")]},
        ],
        "events": [["connected", b("Note?", "Deep.News?")], ["disconnected", b("Note", "NoteB?")], ["Tick", b("Note?")], ["Deep.Pulse", b("Deep.News?", "NoteC", "NoteB?")]],
        "beacons": ["Ping", "Deep.Mark"], "order": 0, "shuffle": None,
    }


def draw(seed, rust=False):
    r = random.Random(seed * 7919 + 13)
    f = {"requests": [], "events": [], "beacons": r.sample(["Ping", "Deep.Mark"], 2), "order": r.randint(1, 1 << 20), "shuffle": r.randint(1, 1 << 20)}

    def casts(lo, hi):
        return [[x, r.random() < .5] for x in r.sample(list(CAST), r.randint(lo, hi))]
    # two requests with a single conclusion that broadcasts, the others with one to three
    names = r.sample(list(REQUEST), 5)
    for i, n in enumerate(names):
        k = 1 if i < 2 else r.choice([1, 2, 2, 3])
        named = i < 2 or k > 1 or r.random() < .3
        rs = r.sample([x for x in ANSWER], k)
        if rust and k > 1 and r.random() < .2:
            # (TypeScript callers cannot tell such conclusions apart)
            rs[1] = rs[0]
        cs = []
        for j, x in enumerate(rs):
            cs.append({"n": "%s%d" % (r.choice(["Yes", "Or", "Case", "X"]), j) if named else None, "r": x, "b": casts(1 if i < 2 else 0, 3) if named else []})
        f["requests"].append({"n": n, "e": r.choice(list(ERR)), "c": cs})
    for n in r.sample(["connected", "disconnected", "Tick", "Deep.Pulse"], 4):
        if rust and n in ("connected", "disconnected") and r.random() < .25:
            continue
        f["events"].append([n, casts(1, 3)])
    return f


# ------------------------------------------------------------------ definitions

def workflow(f, prod, cons):
    parts = []
    cfg = "&config {\n    SelfKey: Keys.Own;\n    AssignedKey: Keys.Assigned;\n    Producer: %s;\n    Consumer: %s;\n}\n" % (prod, cons)

    def casts(bs):
        return "".join((" " if i == 0 else "\n" + " " * 12) + "> %s%s;" % (x, "?" if o else "") for i, (x, o) in enumerate(bs))
    for q in f["requests"]:
        s = "%s !%s {\n" % (q["n"], q["e"])
        for x in q["c"]:
            s += "    (%s%s)%s\n" % (x["n"] + " > " if x["n"] else "", x["r"], casts(x["b"]) or ";")
        parts.append(s + "}\n")
    for n, bs in f["events"]:
        parts.append("@%s {\n   %s\n}\n" % (n, casts(bs)))
    if f["beacons"]:
        parts.append("@beacons {\n%s}\n" % "".join("    > %s;\n" % x for x in f["beacons"]))
    if f["order"]:
        random.Random(f["order"]).shuffle(parts)
    return "".join([cfg] + parts)


def protocol(text, f):
    """The same messages in another order of structs and of the fields behind the first one."""
    if not f["shuffle"]:
        return text
    r = random.Random(f["shuffle"])

    def fields(m):
        fs = [x.strip() for x in m.group(2).split(";") if x.strip()]
        head = 1 if fs and fs[0] in ("u64 op", "u64 bid") else 0
        if fs[1:2] == ["u64 op"]:
            head = 2
        rest = fs[head:]
        r.shuffle(rest)
        return "%s{ %s }" % (m.group(1), " ".join(x + ";" for x in fs[:head] + rest))
    text = re.sub(r"((?:struct|enum)\s+\w+\s*)\{([^{}]*)\}", fields, text)
    # top level definitions; what others refer to stays in front
    parts, depth, at = [], 0, 0
    for i, ch in enumerate(text):
        depth += (ch == "{") - (ch == "}")
        if ch == "}" and depth == 0:
            parts.append(text[at:i + 1].strip())
            at = i + 1
    first = [p for p in parts if re.match(r"(group Vals|enum \w+|struct (Leaf|Blob|Padding))\b", p)]
    rest = [p for p in parts if p not in first]
    r.shuffle(rest)
    return "\n".join(first + rest) + "\n"


# ------------------------------------------------------------------ the application in Rust

def snake(n):
    return n.lower().replace(".", "_")


def path(n):
    return "protocol::" + n.replace(".", "::")


USE = "use super::{identification, producer::Control, protocol, Context, scope::%s};\nuse crate::{app, content as ct};\nuse clibri::server;\nuse simworld::wire::K;\nuse uuid::Uuid;\n\n"


def rtype(bs):
    return [("Option<(Vec<Uuid>, %s)>" if o else "(Vec<Uuid>, %s)") % path(n) for n, o in bs]


def give(bs, own, pad):
    """Statements that make the broadcasts b0, b1, ..."""
    s = ""
    for i, (n, o) in enumerate(bs):
        one = "let (v, bid) = app::bc(scope.filter, %s, K::%s, op, %d, &p.bc[%d]);" % (own, KIND[n], i, i)
        if o:
            s += "%slet b%d = if p.bc[%d].present { %s Some((v, ct::%s(bid, op))) } else { None };\n" % (pad, i, i, one, CAST[n])
        else:
            s += "%slet b%d = { %s (v, ct::%s(bid, op)) };\n" % (pad, i, one, CAST[n])
    return s


def rust_request(q):
    single = len(q["c"]) == 1 and not q["c"][0]["b"]
    s = USE % "Scope"
    if not single:
        s += "pub enum Response {\n"
        for x in q["c"]:
            s += "    %s(%s),\n" % (x["n"], "(%s)" % ", ".join([path(x["r"])] + rtype(x["b"])) if x["b"] else path(x["r"]))
        s += "}\n\n"
    s += "pub async fn response<E: server::Error, C: server::Control<E>>(\n    request: &%s,\n    scope: &mut Scope<'_, E, C>,\n) -> Result<%s, %s> {\n" % (
        path(q["n"]), path(q["c"][0]["r"]) if single else "Response", path(q["e"]))
    s += "    let op = request.op;\n    let p = app::enter(scope, K::%s, op, %s).await;\n    let own = Some(scope.identification.uuid());\n" % (KIND[q["n"]], REQUEST[q["n"]][1])
    s += "    let res = match p.outcome {\n        255 => Err(ct::%s(op)),\n" % ERR[q["e"]][0]
    for i, x in enumerate(q["c"]):
        s += "        %s => {\n%s" % (i if i < len(q["c"]) - 1 else "_", give(x["b"], "own", " " * 12))
        v = ANSWER[x["r"]][0]
        if x["b"]:
            v = "(%s)" % ", ".join([v] + ["b%d" % k for k in range(len(x["b"]))])
        s += "            Ok(%s)\n        }\n" % (v if single else "Response::%s(%s)" % (x["n"], v))
    return s + "    };\n    app::end(K::%s, op, None);\n    res\n}\n" % KIND[q["n"]]


def rust_event(n, bs):
    conn = n in ("connected", "disconnected")
    t = rtype(bs)
    res = "()" if not t else t[0] if len(t) == 1 else "(%s)" % ", ".join(t)
    s = USE % ("Scope" if conn else "AnonymousScope")
    s += "pub async fn emit<E: server::Error, C: server::Control<E>>(\n%s    scope: &mut %s<'_, E, C>,\n) -> Result<%s, String> {\n" % (
        "" if conn else "    event: %s,\n" % path(n), "Scope" if conn else "AnonymousScope", res)
    if conn:
        s += "    let (p, op) = app::enter_conn(scope, %s).await;\n    let own = Some(scope.identification.uuid());\n" % ("false" if n == "connected" else "true")
        own, k = "own", "K::Other"
    else:
        s += "    let op = event.op;\n    let p = app::enter_event(scope, K::%s, op, ct::%s_ok(&event)).await;\n" % (KIND[n], {"Tick": "tick", "Deep.Pulse": "pulse"}[n])
        own, k = "None", "K::" + KIND[n]
    s += "    if p.fail {\n        app::end(%s, op, None);\n        return Err(String::from(\"%s handler failed\"));\n    }\n" % (k, {"Tick": "tick", "Deep.Pulse": "pulse"}.get(n, n))
    s += give(bs, own, "    ") + "    app::end(%s, op, None);\n" % k
    v = ["b%d" % i for i in range(len(bs))]
    return s + "    Ok(%s)\n}\n" % ("()" if not v else v[0] if len(v) == 1 else "(%s)" % ", ".join(v))


def rust_prod(f):
    out = {"responses/%s.rs" % snake(q["n"]): rust_request(q) for q in f["requests"]}
    ev = dict(f["events"])
    for n in ("connected", "disconnected"):
        ev.setdefault(n, [])
    out.update({"events/%s.rs" % snake(n): rust_event(n, bs) for n, bs in ev.items()})
    return out


def used(f):
    return set(n for q in f["requests"] for x in q["c"] for n, _ in x["b"]) | set(n for _, bs in f["events"] for n, _ in bs)


def rust_calls(f):
    """calls.rs: the calls of the consumer's application."""
    s = """//! Generated by tools/variant.py
use crate::app::conv;
use crate::content as ct;
use crate::gen::implementation::consumer::controller::*;
use crate::gen::Consumer;
use clibri::client;
use simworld::hist::*;
use simworld::wire::K;

pub async fn ask<E: client::Error>(kind: K, mut consumer: Consumer<E>, op: u64, big: u64) -> CallRes {
    match kind {
"""
    for q in f["requests"]:
        t = "".join(w[0].upper() + w[1:] for w in re.split(r"\.", q["n"])) + "Response"
        s += "    K::%s => match consumer.%s(ct::%s).await {\n" % (KIND[q["n"]], snake(q["n"]), REQUEST[q["n"]][0])
        for x in q["c"]:
            s += "        Ok(%s::%s(m)) => CallRes::Answer(K::%s, m.op, %s),\n" % (t, x["n"] or "Response", KIND[x["r"]], ANSWER[x["r"]][1])
        s += "        Ok(%s::Err(m)) => CallRes::Declared(%s, m.op, ct::%s_ok(&m)),\n        Err(e) => conv(e),\n    },\n" % (t, ERR[q["e"]][1], ERR[q["e"]][0])
    return s + """    K::Ping => match consumer.beacon_ping(ct::ping(op)).await { Ok(()) => CallRes::Confirmed, Err(e) => conv(e) },
    _ => match consumer.beacon_deep_mark(ct::mark(op)).await { Ok(()) => CallRes::Confirmed, Err(e) => conv(e) },
    }
}
"""


def rust_flow(f, v=0):
    """flow.rs: what the harness has to know."""
    s = "//! Generated by tools/variant.py\nuse simworld::wire::K;\npub const VARIANT: u64 = %d;\npub fn conclusions(k: K) -> u8 {\n    match k {\n" % v
    for q in f["requests"]:
        s += "        K::%s => %d,\n" % (KIND[q["n"]], len(q["c"]))
    s += "        _ => 1,\n    }\n}\npub fn answer(k: K, outcome: u8) -> K {\n    match (k, outcome) {\n"
    for q in f["requests"]:
        s += "        (K::%s, 255) => %s,\n" % (KIND[q["n"]], ERR[q["e"]][1])
        for i, x in enumerate(q["c"]):
            s += "        (K::%s, %s) => K::%s,\n" % (KIND[q["n"]], i if i < len(q["c"]) - 1 else "_", KIND[x["r"]])
    old, new = blob(defs("sim.prot")), blob(protocol(defs("sim.prot"), f))
    return s + "        _ => K::Other,\n    }\n}\n/// Where the fields of a Blob of sim/defs are in these definitions.\npub const BLOB: [usize; %d] = %s;\n" % (len(old), [new.index(x) for x in old])


def blob(text):
    return [x.strip() for x in re.search(r"struct Blob\s*\{([^}]*)\}", text).group(1).split(";") if x.strip()]


# ------------------------------------------------------------------ the application in TypeScript

def ts_prod(f):
    out = {}
    g = "(globalThis as any).SIM"
    for q in f["requests"]:
        out["responses/%s.ts" % q["n"].lower()] = """import { Response } from "../implementation/responses/%s";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";

export function response(request: Protocol.%s, scope: Scope): Promise<Response> {
    return %s.request("%s", request, scope, Response, Protocol);
}
""" % (q["n"].lower(), q["n"], g, q["n"])
    for n, bs in f["events"]:
        if n in ("connected", "disconnected"):
            out["events/%s.ts" % n] = """import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/%s";

export function emit(consumer: Identification, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    return %s.session("%s", consumer, filter, Output, Protocol);
}
""" % (n, g, n)
        else:
            out["events/%s.ts" % n.lower()] = """import { Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/%s";

export function emit(event: Protocol.%s, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    return %s.event("%s", event, filter, Output, Protocol);
}
""" % (n.lower(), n, g, n)
    return out


def ts_flow(f):
    flow = {}
    for q in f["requests"]:
        one = len(q["c"]) == 1
        flow[q["n"]] = {"err": q["e"], "cases": [["SameAnswer" if x["r"] == "Same" else x["r"], "response" if one else x["n"].lower(), [n + ("?" if o else "") for n, o in x["b"]]] for x in q["c"]]}
    own = re.search(r"struct Own\s*\{([^}]*)\}", protocol(defs("ts.prot"), f)).group(1)
    return {"own": [x.split()[1].rstrip("?") for x in own.split(";") if x.strip()], "flow": flow, "events": {n: [x + ("?" if o else "") for x, o in bs] for n, bs in f["events"]}}


def put(root, files):
    for n, t in files.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as x:
            x.write(t)


def defs(where):
    return open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "defs", where)).read()
