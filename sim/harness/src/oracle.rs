//! Judges a recorded history: the producer against a sequential reference model, the consumers against their session rules.
use crate::exec::Run;
use crate::plan::*;
use simrt::{Stop, MS, SEC};
use simworld::hist::*;
use simworld::wire::{Frame, K};
use simworld::OpPlan;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub at: usize,
    pub msg: String,
}
#[derive(Default)]
pub struct Verdict {
    pub viols: Vec<Viol>,
    /// how many instances of each property were decided
    pub evals: BTreeMap<&'static str, u64>,
    /// instances that exercised the property beyond the plain path
    pub hard: BTreeMap<&'static str, u64>,
}
impl Verdict {
    pub fn bad(&mut self, props: &[&'static str], at: usize, msg: String) {
        if self.viols.len() < 200 {
            self.viols.push(Viol { props: props.to_vec(), at, msg });
        }
    }
    pub fn ok(&mut self, p: &'static str) {
        *self.evals.entry(p).or_insert(0) += 1;
    }
    pub fn hard(&mut self, p: &'static str) {
        *self.hard.entry(p).or_insert(0) += 1;
    }
    pub fn first(&self, prop: &str) -> Option<&Viol> {
        self.viols.iter().find(|v| prop.is_empty() || v.props.contains(&prop))
    }
}

/// What the producer may do next on behalf of a connection.
#[derive(Clone, Debug, PartialEq)]
enum Obs {
    Disc,
    Err(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Nothing,
    /// anything the error policy may name, or nothing: bytes without framing
    Loose,
    Key,
    Hash(bool),
    Handle,
    Quiet(Vec<Obs>, &'static [&'static str]),
}
#[derive(Default)]
struct Conn {
    epoch: u32,
    up: Option<usize>,
    down: Option<usize>,
    announced: Option<usize>,
    ended: Option<usize>,
    confirmed: Option<usize>,
    hash: bool,
    refused: bool,
    expelled: Option<usize>,
    early: bool,
    early_chunks: usize,
    late_chunks: usize,
    inq: VecDeque<(Frame, usize, bool)>,
    loose_from: u64,
    got: u64,
    has_bad: bool,
    app_disc: usize,
    discs: usize,
    early_errs: usize,
    conn_errors: usize,
}
struct Bc {
    bid: u64,
    kind: K,
    to: Vec<Cx>,
    unknown: usize,
    slot: u8,
    sent: BTreeMap<Cx, usize>,
    sent_unknown: usize,
    up_at_send: bool,
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum UK {
    Req,
    Beacon,
    Event,
    Up,
    Down,
}
struct Unit {
    uk: UK,
    kind: K,
    op: u64,
    cx: Cx,
    seq: u32,
    at: usize,
    ended: bool,
    answered: Option<bool>,
    bcs: Vec<Bc>,
    def: u8,
    plan: OpPlan,
}
type Id = (Option<KeyV>, Option<AsgV>);

struct TErr {
    at: usize,
    class: &'static str,
    cx: Option<Cx>,
    epoch: u32,
    told: bool,
}
/// The number in the text of an error of a transport.
pub fn number_of(what: &str) -> Option<u64> {
    let s = &what[what.find("#e")? + 2..];
    s[..s.find('#')?].parse().ok()
}
fn merge_key(old: &mut Option<KeyV>, k: &KeyV, ow: bool) {
    match old {
        Some(o) if !ow => {
            o.name = k.name.clone();
            o.rank = k.rank;
            if k.note.is_some() {
                o.note = k.note.clone();
            }
            if k.tag.is_some() {
                o.tag = k.tag;
            }
        }
        _ => *old = Some(k.clone()),
    }
}
fn merge_asg(old: &mut Option<AsgV>, k: &AsgV, ow: bool) {
    match old {
        Some(o) if !ow => {
            o.uid = k.uid.clone();
            o.level = k.level;
            if k.admin.is_some() {
                o.admin = k.admin;
            }
        }
        _ => *old = Some(k.clone()),
    }
}
/// The kind of message an application answers with.
pub use crate::flow::answer as answer_kind;
struct M<'a> {
    scn: &'a Scn,
    run: &'a Run,
    v: Verdict,
    conns: Vec<Conn>,
    live: BTreeMap<Cx, Id>,
    unit: Option<Unit>,
    /// what still has to follow on behalf of one connection
    pending: Vec<(Cx, Obs, &'static [&'static str])>,
    handled: HashMap<u64, usize>,
    epoch: u32,
    running: bool,
    ready: bool,
    closing: Option<usize>,
    cuts: HashMap<u32, usize>,
    dropped_sets: usize,
    terrs: std::collections::BTreeMap<u64, TErr>,
    bad_input: bool,
    failures: bool,
    emit_q: BTreeMap<u32, VecDeque<u64>>,
    emitted: HashMap<u64, (usize, u32)>,
    evented: HashMap<u64, usize>,
    task_of: HashMap<u64, u32>,
    proto: String,
    work: String,
}
pub fn check(scn: &Scn, run: &Run) -> Verdict {
    let mut m = M {
        scn, run, v: Verdict::default(), conns: run.peers.iter().map(|p| Conn { epoch: p.1, loose_from: u64::MAX, ..Conn::default() }).collect(),
        live: BTreeMap::new(), unit: None, pending: vec![], handled: HashMap::new(), epoch: 0, running: false, ready: false,
        closing: run.hist.iter().position(|r| r.ev == Ev::Phase("closing")), cuts: HashMap::new(), dropped_sets: 0, terrs: Default::default(), bad_input: false, failures: false,
        emit_q: BTreeMap::new(), emitted: HashMap::new(), evented: HashMap::new(),
        task_of: scn.emits.iter().map(|e| (e.op, e.task)).collect(),
        proto: cons::gen::implementation::consumer::hash::PROTOCOL.to_string(),
        work: cons::gen::implementation::consumer::hash::WORKFLOW.to_string(),
    };
    m.producer();
    m.shutdowns();
    let mut v = m.v;
    crate::clients::check(scn, run, &mut v);
    // nothing may panic, neither side
    for (node, msg) in &run.panics {
        let at = run.hist.len();
        if *node == 1 {
            v.bad(&["R08", "R09", "R17", "R21"], at, format!("the producer panicked: {}", msg));
        } else if *node >= 10 && *node < 500 {
            v.bad(&["R23", "R13", "R21"], at, format!("consumer {} panicked: {}", node - 10, msg));
        } else if !msg.contains("harness/src") && !msg.contains("simworld/src") && !msg.contains("simrt/src") {
            // the generated reader or writer, used by a raw client
            v.bad(&["R21", "R08", "R23"], at, format!("the generated protocol panicked: {}", msg));
        } else {
            v.bad(&["HARNESS"], at, format!("the harness panicked: {}", msg));
        }
    }
    match run.stop {
        Stop::Requested => {}
        ref s => v.bad(&["R09", "R13", "R16", "R23", "R08", "R17"], run.hist.len(), format!("the simulation did not come to an end: {:?}", s)),
    }
    v
}
impl<'a> M<'a> {
    fn cut(&self, epoch: u32) -> bool {
        self.cuts.contains_key(&epoch)
    }
    fn bad(&mut self, props: &[&'static str], at: usize, msg: String) {
        self.v.bad(props, at, msg)
    }
    fn errs(&self) -> Vec<Obs> {
        let mut v = vec![];
        if self.scn.errs_disc() {
            v.push(Obs::Disc);
        }
        if self.scn.errs_emit() {
            v.push(Obs::Err("Resp"));
        }
        v
    }
    fn want(&self, cx: Cx, f: &Frame, late: bool) -> Want {
        let c = &self.conns[cx];
        if c.expelled.is_some() || c.early || late {
            return Want::Nothing;
        }
        if f.start >= c.loose_from {
            return Want::Loose;
        }
        let bad = f.kind == K::Other || self.run.bad_c2s.contains(&(cx, f.start));
        if bad {
            let e = self.errs();
            return if e.is_empty() { Want::Nothing } else { Want::Quiet(e, &["R12", "R08"]) };
        }
        if f.kind == K::Own && !c.hash {
            return Want::Key;
        }
        if f.kind == K::HashRequest {
            let same = f.text.as_deref() == Some(&self.proto) && f.text2.as_deref() == Some(&self.work);
            return Want::Hash(same);
        }
        let id = self.live.get(&cx).cloned().unwrap_or_default();
        if !c.hash || id.0.is_none() {
            let p: &'static [&'static str] = if c.refused { &["R02", "R03"] } else { &["R02"] };
            return Want::Quiet(vec![Obs::Disc, Obs::Err("NoKey")], p);
        }
        if id.1.is_none() && !self.scn.ident_tolerant() {
            let mut v = vec![];
            if self.scn.ident_disc() {
                v.push(Obs::Disc);
            }
            if self.scn.ident_emit() {
                v.push(Obs::Err("NoAssigned"));
            }
            return Want::Quiet(v, &["R12"]);
        }
        if f.kind.is_request() || f.kind.is_beacon() {
            Want::Handle
        } else {
            Want::Nothing
        }
    }
    /// Drops what needs no reaction from the front of the queue.
    fn skip(&mut self, cx: Cx, loose: bool) {
        while let Some((f, _, late)) = self.conns[cx].inq.front().cloned() {
            match self.want(cx, &f, late) {
                Want::Nothing => {
                    self.conns[cx].inq.pop_front();
                }
                Want::Loose if loose => {
                    self.conns[cx].inq.pop_front();
                }
                _ => return,
            }
        }
    }
    /// Everything that had to follow the previous step did follow.
    fn settle(&mut self, i: usize) {
        let p = std::mem::take(&mut self.pending);
        for (cx, o, props) in p {
            self.bad(props, i, format!("expected {:?} for connection {} did not happen", o, cx));
        }
    }
    fn lost_props(&self, cx: Cx, f: &Frame) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = vec![];
        if f.kind.is_beacon() {
            v.push("R14");
        } else if f.kind.is_request() {
            v.push("R01");
        } else if f.kind.is_handshake() {
            v.push("R02");
        }
        v.push("R07");
        if self.conns.iter().any(|c| c.has_bad) {
            v.push("R08");
        }
        if self.failures {
            v.push("R09");
        }
        if self.conns[cx].has_bad {
            v.push("R12");
        }
        v
    }
    fn finish_unit(&mut self, i: usize) {
        let u = match self.unit.take() {
            Some(u) => u,
            None => return,
        };
        if self.cut(self.epoch) && !u.ended {
            return;
        }
        if !u.ended {
            self.bad(&["R01", "R19", "R20"], i, format!("the next step started while the handler of {} was still running", u.op));
            return;
        }
        let failing = u.plan.fail && u.uk != UK::Req;
        match u.uk {
            UK::Req => {
                if u.answered.is_none() {
                    self.bad(&["R01"], i, format!("request {} (sequence {}) of connection {} was handled but not answered", u.op, u.seq, u.cx));
                }
                self.v.ok("R01");
            }
            UK::Beacon => {
                if u.answered.is_none() {
                    self.bad(&["R14"], i, format!("beacon {} of connection {} was handled but not confirmed", u.op, u.cx));
                }
                self.v.ok("R14");
                if u.plan.fail {
                    self.v.hard("R14");
                }
            }
            _ => {}
        }
        let mut slots = 0;
        for b in &u.bcs {
            slots += 1;
            self.v.ok("R04");
            let mut distinct: BTreeSet<Cx> = BTreeSet::new();
            for cx in &b.to {
                distinct.insert(*cx);
                let n = b.sent.get(cx).copied().unwrap_or(0);
                if n == 0 && self.conns[*cx].down.is_none() && self.conns[*cx].announced.is_some() {
                    let mut p = vec!["R04"];
                    if u.uk == UK::Event {
                        p.push("R20");
                    }
                    if self.failures {
                        p.push("R09");
                    }
                    self.bad(&p, i, format!("broadcast {} ({:?}) of {} was not sent to connection {}", b.bid, b.kind, u.op, cx));
                }
            }
            if b.to.iter().any(|cx| self.conns[*cx].down.is_some()) || b.unknown > 0 {
                self.v.hard("R04");
            }
            if b.sent_unknown > b.unknown {
                self.bad(&["R04"], i, format!("broadcast {} was sent to {} unknown clients, {} were chosen", b.bid, b.sent_unknown, b.unknown));
            }
            let _ = (b.slot, b.up_at_send);
        }
        let deferred = u.plan.deferred > 0;
        if deferred {
            self.v.ok("R19");
            if u.def != 2 && !(failing && u.def == 0) {
                self.bad(&["R19"], i, format!("the deferred work of {} ({:?}) {} before the next step", u.op, u.uk, if u.def == 0 { "was not run" } else { "was not finished" }));
            }
        }
        if slots > 1 || (slots > 0 && deferred) {
            self.v.ok("R19");
            self.v.hard("R19");
        }
        match (u.uk, u.answered) {
            (UK::Req, Some(true)) => {
                let e = self.errs();
                for o in e {
                    if o == Obs::Disc {
                        if self.conns[u.cx].expelled.is_some() {
                            continue;
                        }
                        self.conns[u.cx].expelled = Some(i);
                    }
                    self.pending.push((u.cx, o, &["R12"]));
                }
            }
            (UK::Beacon, Some(err)) => {
                if err || u.plan.fail {
                    self.pending.push((u.cx, Obs::Err("Beacon"), &["R14"]));
                }
            }
            _ => {}
        }
    }
    /// The unit's own output is complete, so what follows are its consequences.
    fn unit_done(u: &Unit) -> bool {
        let failing = u.plan.fail && u.uk != UK::Req;
        if !u.ended {
            return false;
        }
        if matches!(u.uk, UK::Req | UK::Beacon) && u.answered.is_none() {
            return false;
        }
        u.plan.deferred == 0 || u.def == 2 || failing
    }
    fn step(&mut self, i: usize) {
        self.finish_unit(i);
        self.settle(i);
    }
    fn view(&mut self, i: usize, v: &View) {
        self.v.ok("R05");
        if v.seen.len() > 2 {
            self.v.hard("R05");
        }
        let all: Vec<Cx> = self.live.keys().copied().collect();
        let mut bad: Vec<String> = vec![];
        let mut cmp = |name: &str, got: &[Cx], want: Vec<Cx>| {
            if got != want {
                bad.push(format!("{}: offered {:?}, live {:?}", name, got, want));
            }
        };
        cmp("everyone", &v.all, all.clone());
        cmp("everyone but one", &v.except.1, all.iter().copied().filter(|c| *c != v.except.0).collect());
        cmp("everyone outside a list", &v.exclude.1, all.iter().copied().filter(|c| !v.exclude.0.contains(c)).collect());
        cmp("odd rank", &v.odd, self.live.iter().filter(|(_, id)| id.0.as_ref().map(|k| k.rank % 2 == 1).unwrap_or(false)).map(|x| *x.0).collect());
        cmp("assigned", &v.assigned, self.live.iter().filter(|(_, id)| id.1.is_some()).map(|x| *x.0).collect());
        cmp("shown to the predicate", &v.seen.iter().map(|x| x.cx).collect::<Vec<_>>(), all);
        for b in bad {
            self.bad(&["R05"], i, b);
        }
        let mut wrong = vec![];
        for s in &v.seen {
            if let Some(id) = self.live.get(&s.cx) {
                if s.key != id.0 || s.asg != id.1 {
                    wrong.push(format!("predicate saw {:?}, current identity is {:?}", s, id));
                }
            }
        }
        for w in wrong {
            self.bad(&["R05", "R11"], i, w);
        }
    }
    fn ident(&mut self, i: usize, id: &IdV) {
        if let Some(m) = self.live.get(&id.cx) {
            self.v.ok("R11");
            if m.1.is_some() {
                self.v.hard("R11");
            }
            if m.0 != id.key || m.1 != id.asg {
                let msg = format!("connection {} is shown as {:?}, its identity is {:?}", id.cx, id, m);
                self.bad(&["R11"], i, msg);
            }
        }
    }
    /// A disconnection or an error caused by a message of the connection, not by a running unit.
    fn caused(&mut self, i: usize, cx: Cx, o: Obs) -> bool {
        self.skip(cx, false);
        let c = &self.conns[cx];
        if c.confirmed.is_none() && c.early_chunks > 0 && c.announced.is_some() && c.ended.is_none() {
            // data before the confirmation
            if o == Obs::Disc || o == Obs::Err("NotConfirmed") {
                self.v.ok("R02");
                self.v.hard("R02");
                let c = &mut self.conns[cx];
                let first = !c.early;
                c.early = true;
                c.inq.clear();
                if o == Obs::Disc {
                    if c.expelled.is_some() {
                        return false;
                    }
                    c.expelled = Some(i);
                    self.pending.push((cx, Obs::Err("NotConfirmed"), &["R02"]));
                } else {
                    c.early_errs += 1;
                    if c.early_errs > c.early_chunks {
                        return false;
                    }
                    if first && c.expelled.is_none() {
                        // reported first, then disconnected
                        c.expelled = Some(i);
                    }
                }
                return true;
            }
        }
        let (f, _, late) = match self.conns[cx].inq.front().cloned() {
            Some(x) => x,
            None => {
                // bytes without framing: the reader may complain about any of them
                let loose = self.conns[cx].got > self.conns[cx].loose_from && self.errs().contains(&o);
                if loose && o == Obs::Disc {
                    self.conns[cx].expelled = Some(i);
                }
                return loose;
            }
        };
        match self.want(cx, &f, late) {
            Want::Quiet(mut v, props) => match v.iter().position(|x| *x == o) {
                Some(k) => {
                    v.remove(k);
                    self.conns[cx].inq.pop_front();
                    for p in props.iter() {
                        self.v.ok(p);
                        self.v.hard(p);
                    }
                    if v.contains(&Obs::Disc) || o == Obs::Disc {
                        self.conns[cx].expelled = Some(i);
                        self.v.ok("R10");
                    }
                    for x in v {
                        self.pending.push((cx, x, props));
                    }
                    true
                }
                None => false,
            },
            Want::Loose => {
                // one of the frames without framing
                let e = self.errs();
                if !e.contains(&o) {
                    return false;
                }
                self.conns[cx].inq.pop_front();
                self.v.ok("R08");
                if e.contains(&Obs::Disc) {
                    self.conns[cx].expelled = Some(i);
                }
                for x in e {
                    if x != o {
                        self.pending.push((cx, x, &["R12", "R08"]));
                    }
                }
                true
            }
            _ => false,
        }
    }
    fn take_pending(&mut self, cx: Cx, o: &Obs) -> bool {
        match self.pending.iter().position(|p| p.0 == cx && p.1 == *o) {
            Some(k) => {
                let (_, _, props) = self.pending.remove(k);
                for p in props.iter() {
                    self.v.ok(p);
                }
                true
            }
            None => false,
        }
    }
    fn close_unit_if_done(&mut self, i: usize) {
        if self.unit.as_ref().map(|u| Self::unit_done(u)).unwrap_or(false) {
            self.finish_unit(i);
        }
    }
    fn producer(&mut self) {
        let run = self.run;
        for i in 0..run.hist.len() {
            let ev = &run.hist[i].ev;
            match ev {
                Ev::PRunStart { epoch } => {
                    self.epoch = *epoch;
                    self.running = true;
                    self.ready = false;
                    self.live.clear();
                    self.unit = None;
                    self.pending.clear();
                    self.emit_q.clear();
                    if self.scn.bind_fails {
                        self.cuts.insert(*epoch, i);
                    }
                }
                Ev::PRunEnd { epoch, ok, err } => {
                    self.running = false;
                    if !self.cut(*epoch) && self.closing.map(|c| i < c).unwrap_or(true) {
                        let mut p = vec!["R09", "R17"];
                        if self.bad_input {
                            p.push("R08");
                        }
                        if self.terrs.values().any(|e| e.epoch == *epoch) {
                            p.push("R24");
                        }
                        self.bad(&p, i, format!("the producer stopped though nobody asked it to (ok: {}, {})", ok, err));
                    }
                    if !self.cut(*epoch) {
                        self.cuts.insert(*epoch, i);
                    }
                }
                Ev::Crash { node: 1 } => {
                    self.running = false;
                    self.cuts.entry(self.epoch).or_insert(i);
                    self.unit = None;
                    self.pending.clear();
                    self.live.clear();
                    self.failures = true;
                }
                Ev::Phase("closing") => {
                    // a consumer that is refused again and again may just be trying: that much is not due yet
                    let h = &self.run.hist;
                    let now = h[i].t;
                    let open = self.unit.as_ref().map(|u| !u.ended && now - h[u.at].t < 300 * MS).unwrap_or(false);
                    let fresh = h[..i].iter().rev().take_while(|r| r.t + MS > now).any(|r| matches!(r.ev, Ev::TUp { .. } | Ev::TDown { .. } | Ev::TRecv { .. }));
                    if self.running && !self.cut(self.epoch) && !open && !fresh {
                        self.complete(i);
                    }
                }
                Ev::PShutdownCall { .. } => {
                    self.cuts.entry(self.epoch).or_insert(i);
                }
                Ev::Fault(s) => {
                    if s.starts_with("transport down") {
                        self.cuts.entry(self.epoch).or_insert(i);
                    }
                    self.failures = true;
                }
                Ev::Reset { .. } | Ev::Crash { .. } => self.failures = true,
                Ev::TUp { cx } => self.conns[*cx].up = Some(i),
                Ev::TDown { cx } => self.conns[*cx].down = Some(i),
                Ev::TConnError { cx: Some(cx) } => {
                    self.conns[*cx].conn_errors += 1;
                    self.failures = true;
                }
                Ev::Desync { cx, dir: Dir::C2S, off } => {
                    let c = &mut self.conns[*cx];
                    c.loose_from = c.loose_from.min(*off);
                    c.has_bad = true;
                    self.bad_input = true;
                }
                Ev::TRecv { cx, n } => {
                    let c = &mut self.conns[*cx];
                    c.got += *n as u64;
                    if c.confirmed.is_none() {
                        c.early_chunks += 1;
                    }
                    if c.down.is_some() {
                        c.late_chunks += 1;
                    }
                }
                Ev::TFrames { cx, frames } => {
                    for f in frames {
                        let bad = f.kind == K::Other || run.bad_c2s.contains(&(*cx, f.start));
                        let c = &mut self.conns[*cx];
                        if bad {
                            c.has_bad = true;
                            self.bad_input = true;
                        }
                        let late = c.down.is_some();
                        if !c.early {
                            c.inq.push_back((f.clone(), i, late));
                        }
                    }
                }
                Ev::PReady => {
                    self.step(i);
                    self.v.ok("R06");
                    if self.ready {
                        self.bad(&["R06"], i, String::from("ready was announced twice"));
                    }
                    self.ready = true;
                }
                Ev::PConnected { cx, id, view } => {
                    self.step(i);
                    self.need_ready(i);
                    self.v.ok("R06");
                    let c = &self.conns[*cx];
                    if c.announced.is_some() {
                        self.bad(&["R06"], i, format!("connection {} was announced twice", cx));
                    } else if c.up.is_none() {
                        self.bad(&["R06"], i, format!("connection {} was announced but never came up", cx));
                    }
                    self.conns[*cx].announced = Some(i);
                    self.view(i, view);
                    self.live.insert(*cx, (None, None));
                    self.ident(i, id);
                    self.start(UK::Up, K::Other, simworld::conn_op(*cx, false), *cx, 0, i);
                }
                Ev::PDisconnected { cx, id, view } => {
                    self.step(i);
                    self.v.ok("R06");
                    let c = &self.conns[*cx];
                    if c.announced.is_none() || c.ended.is_some() {
                        let m = format!("the end of connection {} was announced {}", cx, if c.ended.is_some() { "twice" } else { "without its beginning" });
                        self.bad(&["R06"], i, m);
                    } else if c.down.is_none() {
                        self.bad(&["R06"], i, format!("the end of connection {} was announced while it was up", cx));
                    }
                    self.drained(i, *cx);
                    self.ident(i, id);
                    self.conns[*cx].ended = Some(i);
                    self.live.remove(cx);
                    self.view(i, view);
                    self.start(UK::Down, K::Other, simworld::conn_op(*cx, true), *cx, 0, i);
                }
                Ev::PHandle { kind, op, cx, intact, id, view } => {
                    self.step(i);
                    self.handle(i, *kind, *op, *cx, *intact, id, view);
                }
                Ev::PEvent { kind, op, intact, view } => {
                    self.step(i);
                    self.need_ready(i);
                    self.v.ok("R20");
                    if !intact {
                        self.bad(&["R20"], i, format!("event {} reached its handler with another content", op));
                    }
                    if self.evented.insert(*op, i).is_some() {
                        self.bad(&["R20"], i, format!("event {} was handled twice", op));
                    }
                    let task = self.task_of.get(op).copied().unwrap_or(0);
                    match self.emitted.get(op) {
                        None => self.bad(&["R20"], i, format!("event {} was handled but never given", op)),
                        Some(_) => {
                            let q = self.emit_q.entry(task).or_default();
                            match q.iter().position(|x| x == op) {
                                Some(0) => {
                                    q.pop_front();
                                }
                                Some(k) => {
                                    let before = q[0];
                                    q.remove(k);
                                    self.bad(&["R20"], i, format!("event {} was handled before event {}, which the same task gave earlier", op, before));
                                }
                                None => {}
                            }
                        }
                    }
                    self.view(i, view);
                    self.start(UK::Event, *kind, *op, usize::MAX, 0, i);
                }
                Ev::PEmit { task, op, ok, .. } => {
                    if *ok {
                        self.emitted.insert(*op, (i, self.epoch));
                        if !self.evented.contains_key(op) {
                            self.emit_q.entry(*task).or_default().push_back(*op);
                        }
                    }
                }
                Ev::PHandlerEnd { op, .. } => {
                    if let Some(u) = self.unit.as_mut() {
                        if u.op == *op {
                            u.ended = true;
                        }
                    }
                }
                Ev::PBroadcast { kind, bid, op, to, unknown, slot } => {
                    if let Some(u) = self.unit.as_mut() {
                        if u.op == *op {
                            u.bcs.push(Bc { bid: *bid, kind: *kind, to: to.clone(), unknown: *unknown, slot: *slot, sent: BTreeMap::new(), sent_unknown: 0, up_at_send: true });
                        }
                    }
                }
                Ev::PDeferred { op, end } => self.deferred(i, *op, *end),
                Ev::PSet { cx, set, .. } => match self.live.get_mut(cx) {
                    Some(id) => match set {
                        IdSet::Key(k, ow) => merge_key(&mut id.0, k, *ow),
                        IdSet::Asg(a, ow) => merge_asg(&mut id.1, a, *ow),
                    },
                    None => self.dropped_sets += 1,
                },
                Ev::PAppDisconnect { cx } => self.conns[*cx].app_disc += 1,
                Ev::TSend { cx, frames, err, all, .. } => {
                    if *err {
                        self.failures = true;
                    }
                    if *all {
                        for f in frames {
                            if f.kind.is_broadcast() {
                                self.bad(&["R04"], i, format!("a message {:?} was sent to every client of the transport at once", f.kind));
                            }
                        }
                        continue;
                    }
                    for f in frames {
                        self.sent(i, *cx, f, *err);
                    }
                }
                Ev::TDisconnect { cx: Some(cx), err } => {
                    if *err {
                        self.failures = true;
                    }
                    let c = &mut self.conns[*cx];
                    if c.app_disc > 0 {
                        c.app_disc -= 1;
                        continue;
                    }
                    c.discs += 1;
                    let before = c.discs > 1;
                    self.close_unit_if_done(i);
                    if self.take_pending(*cx, &Obs::Disc) {
                        self.v.ok("R10");
                        continue;
                    }
                    if before {
                        self.bad(&["R10"], i, format!("the transport was asked to disconnect connection {} again", cx));
                        continue;
                    }
                    self.unit_gone(i);
                    if !self.caused(i, *cx, Obs::Disc) {
                        let (first, props) = self.blame(*cx);
                        self.bad(&props, i, format!("connection {} was disconnected without a reason (next message: {})", cx, first));
                        self.conns[*cx].expelled = Some(i);
                    }
                }
                Ev::TError { n, class, cx, epoch } => {
                    self.failures = true;
                    self.terrs.insert(*n, TErr { at: i, class, cx: *cx, epoch: *epoch, told: false });
                }
                Ev::PError { cx, class, what, id } => {
                    self.transport_error(i, *cx, class, what, id.as_ref());
                    self.error(i, *cx, class, what)
                }
                Ev::PShutdown => {
                    self.step(i);
                }
                Ev::ProbeEnd { ok, .. } => {
                    self.v.ok("R09");
                    self.v.ok("R08");
                    if self.bad_input {
                        self.v.hard("R08");
                    }
                    if self.failures {
                        self.v.hard("R09");
                    }
                    if !ok && self.running && !self.cut(self.epoch) {
                        let mut p = vec!["R09"];
                        if self.bad_input {
                            p.push("R08");
                        }
                        self.bad(&p, i, String::from("a new client was not served after the failures"));
                    }
                }
                Ev::CGot { cx, kind, id, intact, .. } => {
                    self.v.ok("R21");
                    if !intact {
                        let mut p = vec!["R21"];
                        if kind.is_broadcast() {
                            p.push("R04");
                        }
                        self.bad(&p, i, format!("{:?} {} arrived at connection {} with another content", kind, id, cx));
                    }
                }
                _ => {}
            }
        }
    }
    fn start(&mut self, uk: UK, kind: K, op: u64, cx: Cx, seq: u32, at: usize) {
        let plan = self.run.ops.get(&op).cloned().unwrap_or_default();
        self.unit = Some(Unit { uk, kind, op, cx, seq, at, ended: false, answered: None, bcs: vec![], def: 0, plan });
    }
    fn need_ready(&mut self, i: usize) {
        if !self.ready {
            self.bad(&["R06"], i, String::from("something was handled before the ready event"));
            self.ready = true;
        }
    }
    /// A unit that is not complete while something else begins.
    fn unit_gone(&mut self, i: usize) {
        if self.unit.is_some() {
            self.finish_unit(i);
        }
    }
    fn blame(&self, cx: Cx) -> (String, Vec<&'static str>) {
        let c = &self.conns[cx];
        match c.inq.front() {
            Some((f, _, late)) => {
                let w = self.want(cx, f, *late);
                let p: Vec<&'static str> = match &w {
                    Want::Handle => vec!["R12", "R11", "R02"],
                    Want::Key | Want::Hash(_) => vec!["R02", "R12"],
                    Want::Quiet(_, p) => p.to_vec(),
                    _ => vec!["R12"],
                };
                (format!("{:?} {} {:?}", f.kind, f.a, w), p)
            }
            None => (String::from("none"), vec!["R12", "R10"]),
        }
    }
    fn drained(&mut self, i: usize, cx: Cx) {
        self.skip(cx, true);
        if let Some((f, at, late)) = self.conns[cx].inq.front().cloned() {
            let w = self.want(cx, &f, late);
            let mut p = self.lost_props(cx, &f);
            if let Want::Quiet(_, q) = &w {
                p.extend(q.iter());
            }
            p.push("R06");
            self.bad(&p, i, format!("message {:?} {} (sequence {}) of connection {}, delivered at event {}, was never processed: expected {:?}", f.kind, f.a, f.seq, cx, at, w));
            self.conns[cx].inq.clear();
        }
    }
    fn handle(&mut self, i: usize, kind: K, op: u64, cx: Cx, intact: bool, id: &IdV, view: &View) {
        self.need_ready(i);
        if cx >= self.conns.len() {
            self.bad(&["R06"], i, format!("message {} was handled for an unknown client", op));
            self.start(UK::Req, kind, op, usize::MAX, 0, i);
            return;
        }
        self.v.ok("R02");
        self.v.ok("R06");
        let base = if kind.is_beacon() { "R14" } else { "R01" };
        if !intact {
            self.bad(&["R21", "R08"], i, format!("{:?} {} reached its handler with another content", kind, op));
        }
        self.v.ok("R21");
        self.v.ok("R08");
        if let Some(before) = self.handled.insert(op, i) {
            self.bad(&[base, "R06"], i, format!("{:?} {} was handled again (first at event {})", kind, op, before));
        }
        let c = &self.conns[cx];
        let mut props: Vec<&'static str> = vec![];
        let mut why = String::new();
        if c.announced.is_none() || c.ended.is_some() {
            props.push("R06");
            why = format!("connection {} is not announced or already announced as ended", cx);
        }
        if c.confirmed.is_none() {
            props.push("R02");
            why = format!("connection {} is not confirmed", cx);
        }
        if c.expelled.is_some() {
            props.push("R10");
            if c.early {
                props.push("R02");
            }
            if c.refused {
                props.push("R03");
            }
            why = format!("connection {} was expelled", cx);
        }
        if !c.hash {
            props.push("R02");
            if c.refused {
                props.push("R03");
            }
            why = format!("the hashes of connection {} were not accepted", cx);
        }
        let known = self.live.get(&cx).cloned().unwrap_or_default();
        if known.0.is_none() {
            props.push("R02");
            why = format!("connection {} has no key", cx);
        }
        if known.1.is_none() && !self.scn.ident_tolerant() {
            props.push("R12");
            props.push("R11");
            why = format!("connection {} is not assigned", cx);
        }
        let mut seq = 0;
        let pos = c.inq.iter().position(|x| x.0.kind == kind && x.0.a == op);
        if !props.is_empty() {
            self.bad(&props, i, format!("{:?} {} was handled although {}", kind, op, why));
            if let Some(p) = pos {
                seq = self.conns[cx].inq[p].0.seq;
                self.conns[cx].inq.drain(..=p);
            }
        } else {
            self.skip(cx, false);
            // messages without framing may or may not be there
            let front = self.conns[cx].inq.front().map(|x| (x.0.kind, x.0.a, x.0.seq, x.2));
            match front {
                Some((k, a, s, false)) if k == kind && a == op => {
                    seq = s;
                    self.conns[cx].inq.pop_front();
                }
                _ => match self.conns[cx].inq.iter().position(|x| x.0.kind == kind && x.0.a == op) {
                    Some(p) => {
                        let (f, at, late) = self.conns[cx].inq[0].clone();
                        if late {
                            self.bad(&["R06"], i, format!("{:?} {} arrived after the end of connection {} and was handled", kind, op, cx));
                        } else {
                            let w = self.want(cx, &f, late);
                            let mut pr = self.lost_props(cx, &f);
                            if w == Want::Handle {
                                pr.push("R21");
                            }
                            if let Want::Quiet(_, q) = &w {
                                pr.extend(q.iter());
                            }
                            // without framing anything may be skipped
                            let lf = self.conns[cx].loose_from;
                            let loose = self.conns[cx].inq.iter().take(p).all(|x| x.0.start >= lf || x.2);
                            if !loose {
                            self.bad(&pr, i, format!("message {:?} {} (sequence {}) of connection {}, delivered at event {}, was passed over: expected {:?}", f.kind, f.a, f.seq, cx, at, w));
                            }
                        }
                        seq = self.conns[cx].inq[p].0.seq;
                        self.conns[cx].inq.drain(..=p);
                    }
                    None => {
                        // behind a break of the framing the reader may find other borders than ours
                        let hidden = if self.conns[cx].loose_from == u64::MAX {
                            None
                        } else {
                            self.run.hist.iter().take(i).find_map(|r| match &r.ev {
                                Ev::CSend { cx: Some(x), frames, .. } if *x == cx => frames.iter().find(|f| f.kind == kind && f.a == op && f.start >= self.conns[cx].loose_from).map(|f| f.seq),
                                _ => None,
                            })
                        };
                        match hidden {
                            Some(s) => seq = s,
                            None => self.bad(&["R08", base, "R07"], i, format!("{:?} {} was handled on connection {}, which has not sent it", kind, op, cx)),
                        }
                    }
                },
            }
        }
        self.ident(i, id);
        self.view(i, view);
        self.start(if kind.is_beacon() { UK::Beacon } else { UK::Req }, kind, op, cx, seq, i);
    }
    fn deferred(&mut self, i: usize, op: u64, end: bool) {
        let mut msg = None;
        match self.unit.as_mut() {
            Some(u) if u.op == op => {
                if !u.ended {
                    msg = Some(format!("the deferred work of {} ran before its handler was done", op));
                } else if matches!(u.uk, UK::Req | UK::Beacon) && u.answered.is_none() {
                    msg = Some(format!("the deferred work of {} ran before the answer was sent", op));
                }
                let want = end as u8;
                if u.def != want {
                    msg = Some(format!("the deferred work of {} ran more than once", op));
                }
                u.def = want + 1;
                if !end {
                    for b in &u.bcs {
                        for cx in &b.to {
                            if !b.sent.contains_key(cx) && self.conns[*cx].down.is_none() {
                                msg = Some(format!("the deferred work of {} ran before broadcast {} was sent to connection {}", op, b.bid, cx));
                            }
                        }
                    }
                }
            }
            _ => msg = Some(format!("the deferred work of {} ran while something else was being handled", op)),
        }
        if let Some(m) = msg {
            self.bad(&["R19"], i, m);
        }
    }
    fn sent(&mut self, i: usize, cx: Option<Cx>, f: &Frame, err: bool) {
        if f.kind.is_broadcast() && f.seq == 0 {
            self.sent_broadcast(i, cx, f);
            return;
        }
        let cx = match cx {
            Some(cx) => cx,
            None => {
                self.bad(&["R04", "R01"], i, format!("{:?} was sent to an unknown client", f.kind));
                return;
            }
        };
        match f.kind {
            K::ConnectConfirmation => {
                self.step(i);
                self.v.ok("R02");
                let c = &mut self.conns[cx];
                let twice = c.confirmed.is_some();
                let strange = c.announced.is_none();
                c.confirmed = Some(i);
                if twice {
                    self.bad(&["R06"], i, format!("connection {} was confirmed twice", cx));
                } else if strange {
                    self.bad(&["R06", "R02"], i, format!("connection {} was confirmed before it was announced", cx));
                }
            }
            K::SelfKeyResponse | K::HashResponse => {
                self.step(i);
                self.skip(cx, false);
                let c = &self.conns[cx];
                if c.expelled.is_some() {
                    self.bad(&["R10"], i, format!("connection {} got {:?} after it was expelled", cx, f.kind));
                    return;
                }
                if c.confirmed.is_none() {
                    self.bad(&["R02"], i, format!("connection {} got {:?} before it was confirmed", cx, f.kind));
                    return;
                }
                let front = match c.inq.front().cloned() {
                    Some(x) => x,
                    None => {
                        self.bad(&["R02", "R07"], i, format!("connection {} got {:?} for nothing it sent", cx, f.kind));
                        return;
                    }
                };
                let w = self.want(cx, &front.0, front.2);
                if front.0.seq != f.seq {
                    let p = self.lost_props(cx, &front.0);
                    self.bad(&p, i, format!("connection {} got {:?} with sequence {}, its next message is {:?} with sequence {}", cx, f.kind, f.seq, front.0.kind, front.0.seq));
                }
                self.conns[cx].inq.pop_front();
                match (f.kind, w) {
                    (K::SelfKeyResponse, Want::Key) => {
                        self.v.ok("R02");
                        let key = match self.run.keys_sent.get(&(cx, front.0.seq)) {
                            Some(k) => Some(k.clone()),
                            None => self.scn.gens.iter().find(|g| g.c == self.run.peers[cx].0).map(|g| g.key.clone()),
                        };
                        if let Some(id) = self.live.get_mut(&cx) {
                            id.0 = key;
                        }
                        if err {
                            self.policy(i, cx);
                        }
                    }
                    (K::HashResponse, Want::Hash(same)) => {
                        let neg = f.text.is_some();
                        self.v.ok("R03");
                        if !same {
                            self.v.hard("R03");
                        }
                        if neg == same {
                            let p: &[&'static str] = if same { &["R02"] } else { &["R03"] };
                            self.bad(p, i, format!("connection {} presented {} hashes and got a {} answer", cx, if same { "the right" } else { "foreign" }, if neg { "negative" } else { "positive" }));
                        }
                        if err {
                            self.policy(i, cx);
                        }
                        if same {
                            self.conns[cx].hash = true;
                        } else {
                            self.conns[cx].refused = true;
                            if self.conns[cx].expelled.is_none() {
                                self.conns[cx].expelled = Some(i);
                                self.pending.push((cx, Obs::Disc, &["R03"]));
                            }
                            self.pending.push((cx, Obs::Err("NoKey"), &["R03"]));
                        }
                    }
                    (k, w) => {
                        let p = self.lost_props(cx, &front.0);
                        self.bad(&p, i, format!("connection {} got {:?}; its next message {:?} asked for {:?}", cx, k, front.0.kind, w));
                    }
                }
            }
            _ => self.sent_answer(i, cx, f, err),
        }
    }
    /// The policy on erroneous clients has to be applied.
    fn policy(&mut self, i: usize, cx: Cx) {
        for o in self.errs() {
            if o == Obs::Disc {
                if self.conns[cx].expelled.is_some() {
                    continue;
                }
                self.conns[cx].expelled = Some(i);
            }
            self.pending.push((cx, o, &["R12"]));
        }
    }
    fn sent_answer(&mut self, i: usize, cx: Cx, f: &Frame, err: bool) {
        let mut bad: Vec<(&[&'static str], String)> = vec![];
        let known = &self.handled;
        match self.unit.as_mut() {
            Some(u) if matches!(u.uk, UK::Req | UK::Beacon) && u.ended => {
                let (prop, what): (&[&'static str], String) = if u.uk == UK::Req {
                    (&["R01"], format!("request {}", u.op))
                } else {
                    (&["R14"], format!("beacon {}", u.op))
                };
                if u.answered.is_some() {
                    bad.push((prop, format!("{} was answered twice", what)));
                }
                if cx != u.cx || f.seq != u.seq {
                    bad.push((prop, format!("{} (connection {}, sequence {}) was answered to connection {} with sequence {}", what, u.cx, u.seq, cx, f.seq)));
                }
                if u.uk == UK::Req {
                    let want = answer_kind(u.kind, u.plan.outcome);
                    if f.kind != want || f.a != u.op {
                        bad.push((prop, format!("{} was answered with {:?} {} instead of {:?}", what, f.kind, f.a, want)));
                    }
                } else {
                    let want = if u.plan.fail { Some(simworld::beacon_text(u.op)) } else { None };
                    if f.kind != K::BeaconConfirmation || f.text != want {
                        bad.push((prop, format!("{} was confirmed with {:?} {:?} instead of {:?}", what, f.kind, f.text, want)));
                    }
                }
                if u.bcs.iter().any(|b| !b.sent.is_empty() || b.sent_unknown > 0) {
                    bad.push((&["R19"], format!("a broadcast of {} was sent before its answer", what)));
                }
                if u.def > 0 {
                    bad.push((&["R19"], format!("the deferred work of {} ran before its answer was sent", what)));
                }
                u.answered = Some(err);
            }
            _ => {
                let p: &[&'static str] = if f.kind == K::BeaconConfirmation { &["R14"] } else { &["R01", "R04"] };
                bad.push((p, format!("{:?} {} was sent to connection {} outside of the handling of its request ({})", f.kind, f.a, cx, if known.contains_key(&f.a) { "already handled" } else { "never handled" })));
            }
        }
        for (p, m) in bad {
            self.bad(p, i, m);
        }
    }
    fn sent_broadcast(&mut self, i: usize, cx: Option<Cx>, f: &Frame) {
        let mut bad: Vec<(Vec<&'static str>, String)> = vec![];
        match self.unit.as_mut() {
            Some(u) if u.ended => {
                let event = u.uk == UK::Event;
                let p4 = || if event { vec!["R04", "R20"] } else { vec!["R04"] };
                match u.bcs.iter().position(|b| b.bid == f.a && b.kind == f.kind) {
                    None => bad.push((p4(), format!("broadcast {:?} {} was sent, but the handler of {} did not give it", f.kind, f.a, u.op))),
                    Some(k) => {
                        if matches!(u.uk, UK::Req | UK::Beacon) && u.answered.is_none() {
                            bad.push((vec!["R19"], format!("broadcast {} of {} was sent before the answer", f.a, u.op)));
                        }
                        if u.def > 0 {
                            bad.push((vec!["R19"], format!("broadcast {} of {} was sent after its deferred work had begun", f.a, u.op)));
                        }
                        match cx {
                            Some(cx) => {
                                let n = u.bcs[k].to.iter().filter(|x| **x == cx).count();
                                if n == 0 {
                                    bad.push((p4(), format!("broadcast {} of {} was sent to connection {}, which was not chosen", f.a, u.op, cx)));
                                }
                                let c = u.bcs[k].sent.entry(cx).or_insert(0);
                                *c += 1;
                                if *c > n.max(1) {
                                    bad.push((p4(), format!("broadcast {} of {} was sent to connection {} {} times", f.a, u.op, cx, c)));
                                }
                                // declared order, as this recipient sees it
                                if u.bcs[k + 1..].iter().any(|b| b.sent.contains_key(&cx)) {
                                    bad.push((vec!["R19"], format!("broadcast {} of {} was sent to connection {} after one declared later", f.a, u.op, cx)));
                                }
                            }
                            None => u.bcs[k].sent_unknown += 1,
                        }
                    }
                }
                if f.b != u.op && bad.is_empty() {
                    bad.push((p4(), format!("broadcast {} carries {} instead of {}", f.a, f.b, u.op)));
                }
            }
            Some(u) => bad.push((vec!["R04", "R19"], format!("broadcast {:?} {} was sent while the handler of {} was running", f.kind, f.a, u.op))),
            None => bad.push((vec!["R04"], format!("broadcast {:?} {} was sent outside of any handling", f.kind, f.a))),
        }
        for (p, m) in bad {
            self.bad(&p, i, m);
        }
    }
    fn error(&mut self, i: usize, cx: Option<Cx>, class: &'static str, what: &str) {
        match class {
            "Server" | "Connection" => return,
            "Consumer" => return,
            _ => {}
        }
        let cx = match cx {
            Some(cx) => cx,
            None => return,
        };
        self.close_unit_if_done(i);
        if self.take_pending(cx, &Obs::Err(class)) {
            return;
        }
        if class == "NotConfirmed" && self.conns[cx].early && self.conns[cx].early_errs < self.conns[cx].early_chunks {
            self.conns[cx].early_errs += 1;
            return;
        }
        if class == "Resp" {
            let c = &self.conns[cx];
            if (c.ended.is_some() || c.announced.is_none()) && self.scn.errs_emit() {
                // data of a connection that is gone
                return;
            }
        }
        self.unit_gone(i);
        if !self.caused(i, cx, Obs::Err(class)) {
            let (next, mut props) = self.blame(cx);
            if class == "Resp" && next.ends_with(" Handle") {
                // a valid message could not be read
                props.extend(&["R21", "R08"]);
            }
            let more: &[&'static str] = match class {
                "NotConfirmed" | "NoKey" => &["R02"],
                "NoAssigned" => &["R12", "R11"],
                "Resp" => &["R12"],
                "Beacon" => &["R14"],
                _ => &["R09"],
            };
            props.extend(more);
            props.sort_unstable();
            props.dedup();
            if self.conns[cx].expelled.is_some() {
                props.push("R10");
            }
            self.bad(&props, i, format!("error for connection {} without a reason: {} (next message: {})", cx, what, next));
        }
    }
    /// What the transport reported is told once, in order, on behalf of whom it concerns.
    fn transport_error(&mut self, i: usize, cx: Option<Cx>, class: &'static str, what: &str, id: Option<&IdV>) {
        let n = match number_of(what) {
            Some(n) => n,
            None => return,
        };
        self.v.ok("R24");
        let epoch = self.epoch;
        let later = self.terrs.iter().any(|(m, e)| *m > n && e.told && e.epoch == epoch);
        let e = match self.terrs.get_mut(&n) {
            Some(e) if e.epoch == epoch => e,
            _ => {
                self.bad(&["R24"], i, format!("an error is reported that the transport has not had: {}", what));
                return;
            }
        };
        let again = std::mem::replace(&mut e.told, true);
        let (c, x) = (e.class, e.cx);
        if again {
            self.bad(&["R24"], i, format!("an error of the transport is reported again: {}", what));
        }
        if later {
            self.bad(&["R24"], i, format!("an error of the transport is reported after a later one: {}", what));
        }
        if c != class {
            self.bad(&["R24"], i, format!("an error of the transport ({}) is reported as one of another kind ({}): {}", c, class, what));
        }
        if x != cx {
            self.bad(&["R24"], i, format!("an error of connection {:?} is reported for connection {:?}: {}", x, cx, what));
            return;
        }
        let live = cx.map(|cx| self.live.contains_key(&cx)).unwrap_or(false);
        match id {
            Some(id) if live && Some(id.cx) == cx => {
                self.v.hard("R24");
                if let Some(m) = self.live.get(&id.cx) {
                    if m.0 != id.key || m.1 != id.asg {
                        let msg = format!("an error of connection {} is reported with {:?}, its identity is {:?}", id.cx, id, m);
                        self.bad(&["R24", "R11"], i, msg);
                    }
                }
            }
            None if !live => {}
            _ => self.bad(&["R24"], i, format!("an error of connection {:?} ({}) is reported with the identity {:?}: {}", cx, if live { "live" } else { "not live" }, id, what)),
        }
    }
    /// Everything that arrived has been dealt with (the run has come to rest).
    fn complete(&mut self, i: usize) {
        let lost: Vec<(u64, usize)> = self.terrs.iter().filter(|(_, e)| e.epoch == self.epoch && !e.told).map(|(n, e)| (*n, e.at)).collect();
        for (n, at) in lost {
            self.bad(&["R24", "R09"], at, format!("error {} of the transport is never reported", n));
        }
        self.step(i);
        for cx in 0..self.conns.len() {
            let c = &self.conns[cx];
            if c.epoch != self.epoch {
                continue;
            }
            if c.up.is_some() && c.announced.is_none() {
                self.bad(&["R06", "R09"], i, format!("connection {} was never announced", cx));
                continue;
            }
            if c.up.is_none() {
                continue;
            }
            self.v.ok("R06");
            if c.down.is_some() && c.ended.is_none() {
                self.bad(&["R06"], i, format!("the end of connection {} was never announced", cx));
            }
            let c = &self.conns[cx];
            if c.down.is_none() && c.confirmed.is_none() {
                self.bad(&["R02", "R06", "R09"], i, format!("connection {} was never confirmed", cx));
            }
            self.drained(i, cx);
        }
        let lost: Vec<(u64, usize)> = self.emitted.iter().filter(|(op, (_, e))| *e == self.epoch && !self.evented.contains_key(*op)).map(|(op, x)| (*op, x.0)).collect();
        for (op, at) in lost {
            let mut p = vec!["R20"];
            if self.failures {
                p.push("R09");
            }
            self.bad(&p, i, format!("event {} (given at event {}) was never handled", op, at));
        }
        if self.bad_input {
            self.v.ok("R08");
            self.v.hard("R08");
        }
    }
    /// R17
    fn shutdowns(&mut self) {
        let run = self.run;
        struct Ep {
            epoch: u32,
            start: usize,
            end: Option<usize>,
            shut: Vec<usize>,
            tshut: bool,
            crash: bool,
            cut: Option<usize>,
            failed: Option<String>,
            res: Option<(bool, String)>,
        }
        let mut eps: Vec<Ep> = vec![];
        let mut calls: Vec<(u32, bool, usize, usize)> = vec![]; // id, wait, idx, epoch index
        let mut rets: HashMap<u32, (usize, bool)> = HashMap::new();
        let mut dropped: HashSet<u32> = HashSet::new();
        let end_phase = run.hist.iter().position(|r| r.ev == Ev::Phase("end"));
        for (i, r) in run.hist.iter().enumerate() {
            match &r.ev {
                Ev::PRunStart { epoch } => eps.push(Ep { epoch: *epoch, start: i, end: None, shut: vec![], tshut: false, crash: false, cut: if self.scn.bind_fails { Some(i) } else { None }, failed: None, res: None }),
                Ev::TFail { epoch, what } => {
                    if let Some(e) = eps.iter_mut().find(|e| e.epoch == *epoch) {
                        e.failed = Some(what.clone());
                    }
                }
                Ev::PRunEnd { epoch, ok, err } => {
                    if let Some(e) = eps.iter_mut().find(|e| e.epoch == *epoch) {
                        e.res = Some((*ok, err.clone()));
                        e.end = Some(i);
                    }
                }
                Ev::Crash { node: 1 } => {
                    if let Some(e) = eps.last_mut() {
                        e.crash = e.end.is_none();
                    }
                }
                Ev::PShutdown => {
                    if let Some(e) = eps.last_mut() {
                        e.shut.push(i);
                    }
                }
                Ev::TShutdown { epoch } => {
                    if let Some(e) = eps.iter_mut().find(|e| e.epoch == *epoch) {
                        e.tshut = true;
                    }
                }
                Ev::PShutdownCall { id, wait } => {
                    if let Some(e) = eps.last_mut() {
                        if e.end.is_none() && !e.crash {
                            e.cut.get_or_insert(i);
                            let k = eps.len() - 1;
                            calls.push((*id, *wait, i, k));
                        }
                    }
                }
                Ev::PShutdownRet { id, ok } => {
                    rets.insert(*id, (i, *ok));
                }
                Ev::PShutdownDropped { id } => {
                    dropped.insert(*id);
                }
                Ev::Fault(s) if s.starts_with("transport down") => {
                    if let Some(e) = eps.last_mut() {
                        e.cut.get_or_insert(i);
                    }
                }
                Ev::PReady | Ev::PConnected { .. } | Ev::PDisconnected { .. } | Ev::PHandle { .. } | Ev::PEvent { .. } | Ev::PError { .. } | Ev::PDeferred { .. } => {
                    if let Some(e) = eps.last() {
                        if !e.shut.is_empty() && e.end.is_none() {
                            let m = format!("{:?} after the shutdown event", short(&r.ev));
                            self.bad(&["R17"], i, m);
                        }
                    }
                }
                _ => {}
            }
        }
        let total = run.time;
        for e in &eps {
            if e.crash {
                continue;
            }
            let at = e.end.unwrap_or(run.hist.len());
            if let Some(cut) = e.cut {
                self.v.ok("R17");
                if cut < self.closing.unwrap_or(usize::MAX) {
                    self.v.hard("R17");
                }
                let bound = 5 * SEC + self.scn.busy + self.scn.stall_total;
                let t0 = run.hist[cut].t;
                let t1 = e.end.map(|x| run.hist[x].t).unwrap_or(total);
                if e.end.is_none() && (end_phase.is_some() || t1 > t0 + bound) || t1 > t0 + bound {
                    self.bad(&["R17"], at, format!("the producer did not stop within {} ms after it was asked to or its transport went down", bound / MS));
                    continue;
                }
                if !e.tshut {
                    self.bad(&["R17"], at, String::from("the transport was not asked to shut down"));
                }
            }
            if let Some((ok, err)) = &e.res {
                let farewell = self.scn.shutdown_fails && err.contains("farewell failed");
                match &e.failed {
                    None if *ok && !self.scn.shutdown_fails || farewell => {}
                    Some(what) if !*ok && (farewell || err.contains(what)) => self.v.hard("R17"),
                    None if *ok => self.bad(&["R17"], at, String::from("the shutdown handler failed and the producer ended with success")),
                    None => {
                        if e.cut.is_some() {
                            self.bad(&["R17"], at, format!("the producer was stopped and ended with an error: {}", err))
                        }
                    }
                    Some(what) => self.bad(&["R17"], at, format!("the transport ended with an error ({}), the producer with {}", what, if *ok { "success" } else { err })),
                }
            }
            if e.end.is_some() && e.shut.len() != 1 {
                self.bad(&["R17"], at, format!("the shutdown event happened {} times", e.shut.len()));
            }
            let _ = e.start;
        }
        for (id, wait, i, k) in calls {
            let e = &eps[k];
            if e.crash || dropped.contains(&id) {
                continue;
            }
            let late = e.shut.first().map(|s| i > *s).unwrap_or(false);
            match rets.get(&id) {
                None if wait || e.end.is_some() => {
                    if e.end.is_some() || end_phase.is_some() {
                        self.bad(&["R17"], i, format!("shutdown request {} (wait: {}) was never answered", id, wait))
                    }
                }
                Some((at, true)) if wait => {
                    self.v.hard("R17");
                    // who waits for the end is told when it has come
                    let after = run.hist.iter().skip(*at).take(e.end.unwrap_or(run.hist.len()).saturating_sub(*at)).find(|r| {
                        matches!(r.ev, Ev::PConnected { .. } | Ev::PDisconnected { .. } | Ev::PHandle { .. } | Ev::PEvent { .. })
                    });
                    if let Some(r) = after {
                        let m = format!("shutdown request {} was answered before the producer had stopped: {} comes later", id, short(&r.ev));
                        self.bad(&["R17"], *at, m);
                    } else if !e.tshut {
                        self.bad(&["R17"], *at, format!("shutdown request {} was answered before the transport was asked to shut down", id));
                    }
                }
                Some((at, false)) if !late => self.bad(&["R17"], *at, format!("shutdown request {} (wait: {}) was answered with an error", id, wait)),
                _ => {}
            }
        }
    }
}
pub fn short(e: &Ev) -> String {
    let s = format!("{:?}", e);
    if s.len() > 160 {
        let mut k = 160;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s
    }
}
