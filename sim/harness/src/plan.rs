//! A scenario: a pure function of (seed, profile); single items of it can be masked out.
use simrt::{Policy, Rng, MS, US};
use simworld::hist::*;
use simworld::net::{self, Knobs};
use simworld::wire::K;
use simworld::{BcPlan, OpPlan, Sel};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Profile {
    Calm,
    Raw,
    Net,
    Mitm,
    Shut,
    CShut,
    Ident,
    Errs,
    Crash,
    Frag,
    Values,
    Late,
    Mix,
    /// many messages on one session
    Bulk,
    /// many connections at once
    Crowd,
}
pub const PROFILES: &[(&str, Profile)] = &[
    ("calm", Profile::Calm), ("raw", Profile::Raw), ("net", Profile::Net), ("mitm", Profile::Mitm), ("shut", Profile::Shut),
    ("cshut", Profile::CShut), ("ident", Profile::Ident), ("errs", Profile::Errs), ("crash", Profile::Crash), ("frag", Profile::Frag),
    ("values", Profile::Values), ("late", Profile::Late), ("mix", Profile::Mix), ("bulk", Profile::Bulk), ("crowd", Profile::Crowd),
];
pub fn profile_name(p: Profile) -> &'static str {
    PROFILES.iter().find(|x| x.1 == p).map(|x| x.0).unwrap()
}

#[derive(Clone, Debug)]
pub struct GenC {
    pub c: usize,
    pub start: u64,
    pub key: KeyV,
    /// ms
    pub reconnect: Option<u64>,
    pub timeout: u64,
    pub refuse_reconnect_at: u32,
    pub bc_delay: u64,
    pub ev_delay: u64,
    pub mitm: net::Mitm,
    /// when the application asks for the consumer
    pub gets: Vec<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Sleep(u64),
    WaitUp,
    WaitConfirm,
    Key { seq: u32, key: KeyV },
    /// 0 own hashes; else bits 0 and 1: foreign protocol, workflow; the rest: the way it differs
    Hash { seq: u32, variant: u8 },
    Msg { kind: K, op: u64, seq: u32 },
    /// well framed but unreadable
    Bad { variant: u8, salt: u64 },
    Garbage { n: u64, salt: u64 },
    /// messages flow in one write with the next ones
    Hold,
    Flush,
    WaitAnswers,
    Close { clean: bool },
}
#[derive(Clone, Debug)]
pub struct RawC {
    pub r: usize,
    pub start: u64,
    pub steps: Vec<(u32, Step)>,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub item: u32,
    pub c: usize,
    pub at: u64,
    pub kind: K,
    pub op: u64,
    pub drop_after: Option<u64>,
}
#[derive(Clone, Debug)]
pub struct Emit {
    pub item: u32,
    pub task: u32,
    pub at: u64,
    pub kind: K,
    pub op: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// n-th open connection (modulo)
    Reset(u64),
    /// c2s, s2c, duration
    Hold(u64, bool, bool, u64),
    SendErr(u64, u64),
    DiscErr(u64, u64),
    WriteFail(u64),
    ServerClose(u64),
    Refuse(usize, u64),
    Hang(usize, u64),
    ServerDown(u8),
    Crash(u64),
    StallProducer(u64),
    StallClient(usize, u64),
    WallJump(i64),
    KillClient(usize),
    ClientSendErr(usize, u64),
    /// the producer's transport reports an error: kind, connection
    TErr(u8, u64),
    /// the transport of a consumer does
    CErr(usize),
}
#[derive(Clone, Debug)]
pub struct FaultAt {
    pub item: u32,
    pub at: u64,
    pub f: Fault,
}
#[derive(Clone, Debug)]
pub struct PShut {
    pub item: u32,
    pub id: u32,
    pub at: u64,
    pub wait: bool,
    pub drop_after: Option<u64>,
}
#[derive(Clone, Debug)]
pub struct CShut {
    pub item: u32,
    pub id: u32,
    pub c: usize,
    pub at: u64,
    /// the request is given up after a while
    pub drop_after: Option<u64>,
    /// not before the session is announced
    pub online: bool,
}
#[derive(Clone, Debug)]
pub struct Scn {
    pub seed: u64,
    pub profile: Profile,
    pub policy: Policy,
    pub poll_cost: u64,
    pub event_first: u64,
    pub knobs: Knobs,
    pub ident: u8,
    pub errs: u8,
    pub observer_fail: u64,
    pub inner_calls: bool,
    pub bind_fails: bool,
    pub shutdown_fails: bool,
    pub gens: Vec<GenC>,
    pub raws: Vec<RawC>,
    pub calls: Vec<Call>,
    pub emits: Vec<Emit>,
    pub faults: Vec<FaultAt>,
    pub pshuts: Vec<PShut>,
    pub cshuts: Vec<CShut>,
    pub ops: HashMap<u64, OpPlan>,
    pub t_w: u64,
    pub stall_total: u64,
    /// upper bound of the time the application spends in handlers and deferred work
    pub busy: u64,
    pub producer_first: bool,
    pub items: u32,
}
pub const IDENT: [&str; 5] = ["Log", "EmitError", "Disconnect", "EmitErrorAndDisconnect", "Ignore"];
pub const ERRS: [&str; 4] = ["EmitError", "Disconnect", "EmitErrorAndDisconnect", "Log"];
impl Scn {
    pub fn ident_tolerant(&self) -> bool {
        self.ident == 0 || self.ident == 4
    }
    pub fn ident_disc(&self) -> bool {
        self.ident == 2 || self.ident == 3
    }
    pub fn ident_emit(&self) -> bool {
        self.ident == 1 || self.ident == 3
    }
    pub fn errs_disc(&self) -> bool {
        self.errs == 1 || self.errs == 2
    }
    pub fn errs_emit(&self) -> bool {
        self.errs == 0 || self.errs == 2
    }
    pub fn max_timeout(&self) -> u64 {
        self.gens.iter().map(|g| g.timeout * MS).max().unwrap_or(0)
    }
}

pub fn key_of(r: &mut Rng, tag: u64) -> KeyV {
    let mut k = KeyV {
        name: format!("k{}-{}", tag, simworld::blob::text(r, 0)),
        rank: r.below(6) as u32,
        note: if r.chance(500) { Some(format!("n{}", r.below(100))) } else { None },
        tag: if r.chance(500) { Some(r.below(1000)) } else { None },
    };
    match r.below(40) {
        // the same key as others have
        0..=3 => k = KeyV { name: String::from("twin"), rank: 1, note: None, tag: None },
        4 => k.name.clear(),
        5 => k.name = simworld::blob::text(r, 1).repeat(7),
        6 => k.note = Some(format!("{}.", simworld::blob::text(r, 1).repeat(3))),
        7 => k.rank = u32::MAX - r.below(3) as u32,
        8 => k.tag = Some(*r.pick(&[0, u64::MAX, 1 << 32, 1 << 63])),
        9 if r.chance(100) => k.name = "\u{20ac}long ".repeat(9000),
        _ => {}
    }
    k
}
pub fn asg_of(r: &mut Rng) -> AsgV {
    let mut a = AsgV { uid: format!("u{}", r.below(1000)), level: r.below(9) as u32, admin: if r.chance(500) { Some(r.chance(500)) } else { None } };
    match r.below(20) {
        0 | 1 => a = AsgV { uid: String::from("twin"), level: 1, admin: None },
        2 => a.uid.clear(),
        3 => a.uid = simworld::blob::text(r, 1).repeat(5),
        4 => a.level = u32::MAX,
        _ => {}
    }
    a
}
fn idset(r: &mut Rng) -> IdSet {
    let ow = r.chance(500);
    if r.chance(450) {
        IdSet::Key(key_of(r, 99), ow)
    } else {
        IdSet::Asg(asg_of(r), ow)
    }
}
fn sel(r: &mut Rng, n: u64) -> Sel {
    let n = n.max(8);
    match r.below(12) {
        0..=2 => Sel::All,
        3 | 4 => Sel::ExceptSelf,
        5 => Sel::Except(r.below(n)),
        6 => Sel::Exclude((0..r.below(n / 2)).map(|_| r.below(n)).collect()),
        7 => Sel::OddRank,
        8 => Sel::Assigned,
        9 => Sel::Nobody,
        _ => Sel::Explicit((0..r.range(1, n / 2)).map(|_| r.below(n)).collect(), if r.chance(400) { r.range(1, 2) as u8 } else { 0 }),
    }
}
/// What varies between profiles.
struct Dials {
    gens: (u64, u64),
    raws: (u64, u64),
    calls: (u64, u64),
    emits: (u64, u64),
    sets: u64,
    cross: u64,
    fail: u64,
    app_disc: u64,
    strict: u64,
    misbehave: u64,
    garbage: u64,
    big: u64,
    short_timeout: u64,
    drops: u64,
    faults: (u64, u64),
    slow: u64,
    no_reconnect: u64,
    refuse_reconnect: u64,
}
pub fn make(seed: u64, profile: Profile, mask: &BTreeSet<u32>, as_is: bool) -> Scn {
    let mut r = Rng::fork(seed, 1);
    let mut d = Dials {
        gens: (1, 4), raws: (0, 3), calls: (4, 26), emits: (0, 8), sets: 150, cross: 60, fail: 120, app_disc: 0, strict: 150, misbehave: 0, garbage: 0,
        big: 0, short_timeout: 0, drops: 0, faults: (0, 0), slow: 250, no_reconnect: 250, refuse_reconnect: 100,
    };
    use Profile::*;
    match profile {
        Calm => d.drops = 40,
        Raw => {
            d.gens = (0, 2);
            d.raws = (2, 6);
            d.calls = (0, 10);
            d.misbehave = 600;
            d.garbage = 300;
            d.strict = 300;
            d.app_disc = 30;
        }
        Net => {
            d.faults = (1, 6);
            d.short_timeout = 400;
            d.drops = 100;
            d.no_reconnect = 150;
        }
        Mitm => {
            d.gens = (1, 3);
            d.raws = (0, 1);
            d.short_timeout = 600;
            d.drops = 100;
            d.strict = 0;
        }
        Shut => {
            d.faults = (0, 1);
            d.slow = 400;
        }
        CShut => {
            d.gens = (1, 4);
            d.raws = (0, 1);
            d.drops = 100;
            d.faults = (0, 1);
        }
        Ident => {
            d.sets = 600;
            d.cross = 350;
            d.strict = 450;
            d.misbehave = 100;
            d.raws = (1, 4);
        }
        Errs => {
            d.gens = (0, 3);
            d.raws = (1, 5);
            d.fail = 400;
            d.misbehave = 450;
            d.garbage = 200;
            d.faults = (0, 4);
            d.strict = 400;
            d.app_disc = 60;
        }
        Crash => {
            d.faults = (1, 3);
            d.no_reconnect = 50;
            d.short_timeout = 300;
        }
        Frag => {
            d.raws = (2, 4);
            d.gens = (1, 3);
            d.misbehave = 300;
            d.garbage = 400;
            d.sets = 0;
            d.cross = 0;
            d.strict = 200;
            d.fail = 50;
            d.big = match r.below(10) {
                0 | 1 => 2,
                2 => 3,
                _ => 0,
            };
        }
        Values => {
            d.big = if r.chance(250) { 3 } else { 2 };
            d.raws = (0, 2);
            d.calls = (6, 20);
            d.emits = (2, 8);
            d.strict = 0;
        }
        Late => {
            d.short_timeout = 1000;
            d.slow = 700;
            d.drops = 250;
            d.strict = 0;
            d.calls = (8, 30);
        }
        Bulk => {
            d.gens = (1, 2);
            d.raws = (0, 1);
            d.calls = (260, 560);
            d.emits = (0, 40);
            d.sets = 20;
            d.cross = 0;
            d.slow = 60;
            d.strict = 0;
            d.drops = 20;
            d.no_reconnect = 500;
        }
        Crowd => {
            d.gens = (1, 2);
            d.raws = (10, 44);
            d.calls = (2, 10);
            d.emits = (1, 5);
            d.sets = 60;
            d.strict = 60;
        }
        Mix => {
            d.misbehave = 250;
            d.garbage = 100;
            d.app_disc = 30;
            d.drops = 80;
            d.short_timeout = 250;
            d.faults = (0, 5);
            d.big = r.below(2);
        }
    }
    let mut item = 0u32;
    let mut keep = |m: &BTreeSet<u32>| -> (u32, bool) {
        let i = item;
        item += 1;
        (i, !m.contains(&i))
    };
    let t_w = match profile {
        Bulk => r.range(100, 1200) * MS,
        _ => r.range(50, 350) * MS,
    };
    let policy = *r.pick(&[Policy::Uniform, Policy::Uniform, Policy::Fifo, Policy::Lifo, Policy::Priority]);
    let mut poll_cost = *r.pick(&[0, 200, 5 * US, 40 * US]);
    if matches!(profile, Profile::Bulk | Profile::Crowd) {
        // many tasks and a policy that starves some of them
        poll_cost = poll_cost.min(5 * US);
    }
    let event_first = *r.pick(&[0u64, 100, 500]);
    let mut knobs = Knobs::default();
    knobs.frags = match r.below(5) {
        0 => vec![net::Frag::AsIs],
        1 => vec![net::Frag::AsIs, net::Frag::Coalesce],
        2 => vec![net::Frag::Split, net::Frag::Halves, net::Frag::Bytewise],
        3 => vec![net::Frag::Mixed],
        _ => vec![net::Frag::AsIs, net::Frag::Bytewise, net::Frag::Split, net::Frag::Coalesce, net::Frag::Mixed, net::Frag::Halves],
    };
    if profile == Frag && !as_is {
        knobs.frags = vec![net::Frag::Bytewise, net::Frag::Split, net::Frag::Coalesce, net::Frag::Mixed, net::Frag::Halves];
    }
    if as_is {
        knobs.frags = vec![net::Frag::AsIs];
    }
    if profile == Values {
        // single bytes of large bodies cost time and add nothing
        knobs.frags.retain(|f| *f != net::Frag::Bytewise);
        if knobs.frags.is_empty() {
            knobs.frags = vec![net::Frag::Split];
        }
    }
    knobs.lat = *r.pick(&[(20 * US, 300 * US), (50 * US, 2 * MS), (MS, 20 * MS)]);
    knobs.jitter = *r.pick(&[0, 200 * US, 3 * MS]);
    knobs.gap = *r.pick(&[0, 20 * US, 500 * US]);
    knobs.accept = *r.pick(&[(0, 0), (0, MS), (0, 10 * MS)]);
    knobs.link = *r.pick(&[(0, 0), (0, MS), (0, 10 * MS)]);
    knobs.pause = *r.pick(&[0, 50, 400]);
    knobs.pause_max = *r.pick(&[0, 300 * US, 3 * MS]);
    knobs.strict_send = r.chance(500);
    knobs.slow_close = if matches!(profile, Shut | CShut | Mix) && r.chance(300) { *r.pick(&[20, 300]) * MS } else { 0 };
    knobs.shut_fail = if matches!(profile, Shut | CShut | Mix) && r.chance(300) { *r.pick(&[200, 1000]) } else { 0 };
    if matches!(profile, Net | Errs | Mix) {
        knobs.late_recv = *r.pick(&[0, 0, 400]);
        knobs.dup_down = *r.pick(&[0, 0, 400]);
    }
    let strict = r.chance(d.strict);
    let ident = if strict { *r.pick(&[1u8, 2, 3]) } else { *r.pick(&[0u8, 4]) };
    let errs = r.below(4) as u8;
    let observer_fail = if matches!(profile, Errs | Mix | Raw) && r.chance(500) { *r.pick(&[200u64, 1000]) } else { 0 };
    let mut ops: HashMap<u64, OpPlan> = HashMap::new();

    // ---- clients
    let n_g = r.range(d.gens.0, d.gens.1);
    let mut gens = vec![];
    let mut gen_ids = vec![];
    for c in 0..n_g as usize {
        let mut q = Rng::fork(seed, 1000 + c as u64);
        let mut m = net::Mitm::default();
        if profile == Mitm || (profile == Mix && q.chance(200)) {
            let lvl = *q.pick(&[20u64, 100, 300]);
            m.unknown = if q.chance(600) { lvl } else { 0 };
            m.unsolicited = if q.chance(600) { lvl } else { 0 };
            m.badbody = if q.chance(600) { lvl } else { 0 };
            m.foreign = if q.chance(400) { lvl } else { 0 };
            m.dup = if q.chance(500) { lvl } else { 0 };
            m.drop = if q.chance(400) { lvl / 2 } else { 0 };
            m.garbage = if q.chance(150) { 30 } else { 0 };
            if q.chance(400) {
                m.delay = lvl;
                m.delay_max = *q.pick(&[3 * MS, 40 * MS, 300 * MS]);
            }
            m.handshake = q.chance(150);
            m.again = if q.chance(300) { lvl } else { 0 };
            m.from = 0;
            m.until = u64::MAX;
        }
        if matches!(profile, Raw | Mitm | Errs | Mix | Net) && q.chance(150) {
            m.bad_hash = q.range(1, 3) as u8 | (q.below(net::HASH_WAYS) as u8) << 2;
        }
        let timeout = if q.chance(d.short_timeout) { q.range(5, 120) } else { 60_000 };
        let g = GenC {
            c, start: q.below(t_w / 4),
            key: key_of(&mut q, c as u64),
            reconnect: if q.chance(d.no_reconnect) { None } else { Some(*q.pick(&[0u64, 5, 10, 50, 50, 50, 200, 200, 1500])) },
            timeout,
            refuse_reconnect_at: if q.chance(d.refuse_reconnect) { q.range(1, 3) as u32 } else { 0 },
            bc_delay: *q.pick(&[0, 0, MS, 15 * MS]),
            ev_delay: *q.pick(&[0, 0, MS, 30 * MS]),
            mitm: m,
            gets: vec![],
        };
        let (_, k) = keep(mask);
        let mut g = g;
        if !matches!(profile, Bulk | Crowd | Values) {
            let mut q = Rng::fork(seed, 2500 + c as u64);
            for _ in 0..q.below(4) {
                let at = q.below(t_w + t_w / 4);
                if keep(mask).1 {
                    g.gets.push(at);
                }
            }
        }
        if k {
            gen_ids.push(c);
            gens.push(g);
        }
    }
    let n_r = r.range(d.raws.0, d.raws.1);
    let mut raws = vec![];
    let mut raw_ops: Vec<(u64, K)> = vec![];
    for i in 0..n_r as usize {
        let mut q = Rng::fork(seed, 2000 + i as u64);
        let start = q.below(t_w / 2);
        let (_, k) = keep(mask);
        let steps = raw_steps(&mut q, i, &d, profile, &mut raw_ops);
        let mut out = vec![];
        for s in steps {
            let (it, k) = keep(mask);
            if k {
                out.push((it, s));
            }
        }
        if k {
            raws.push(RawC { r: i, start, steps: out });
        }
    }
    // ---- calls
    let mut calls = vec![];
    if n_g > 0 {
        let n = r.range(d.calls.0, d.calls.1);
        // many calls in flight at once
        let burst = if profile == Bulk { *r.pick(&[0u64, MS, 5 * MS]) } else { 0 };
        for i in 0..n {
            let mut q = Rng::fork(seed, 3000 + i);
            let c = q.below(n_g) as usize;
            let kind = *q.pick(&[K::Echo, K::Multi, K::Multi, K::Same, K::Quick, K::Ask, K::Ask, K::Ping, K::Mark]);
            let op = 1_000_000 + i;
            let at = if burst > 0 && q.chance(900) { t_w / 3 + q.below(burst) } else { q.below(t_w) };
            let drop_after = if q.chance(d.drops) { Some(q.below(20 * MS)) } else { None };
            ops.insert(op, op_plan(seed, op, kind, &d, strict, n_g + n_r, t_w));
            let (it, k) = keep(mask);
            if k && gen_ids.contains(&c) {
                calls.push(Call { item: it, c, at, kind, op, drop_after });
            }
        }
    }
    for (op, k) in &raw_ops {
        ops.insert(*op, op_plan(seed, *op, *k, &d, strict, n_g + n_r, t_w));
    }
    // ---- application events
    let mut emits = vec![];
    let n = r.range(d.emits.0, d.emits.1);
    for i in 0..n {
        let mut q = Rng::fork(seed, 4000 + i);
        let op = 4_000_000 + i;
        let kind = *q.pick(&[K::Tick, K::Pulse]);
        ops.insert(op, op_plan(seed, op, kind, &d, strict, n_g + n_r, t_w));
        let (it, k) = keep(mask);
        let task = 1 + q.below(3) as u32;
        let at = q.below(t_w);
        if k {
            emits.push(Emit { item: it, task, at, kind, op });
        }
    }
    for i in 0..200u64 {
        let op = 9_000_000 + i;
        let mut p = op_plan(seed, op, K::Other, &d, strict, n_g + n_r, t_w);
        let mut q = Rng::fork(seed, 5000 + i);
        if strict && i % 2 == 0 && q.chance(700) {
            p.sets.insert(0, IdSet::Asg(asg_of(&mut q), q.chance(500)));
        }
        if i % 2 == 1 {
            p.sets.clear();
            p.disconnect_self = false;
        }
        let (_, k) = keep(mask);
        // masked: keep only what the admission depends on
        if !k {
            let s = p.sets.clone();
            p = OpPlan::default();
            if strict {
                p.sets = s;
            }
        }
        ops.insert(op, p);
    }
    for i in 1..=100u64 {
        let op = 3_000_000 + i;
        let mut p = op_plan(seed, op, K::Quick, &d, strict, n_g + n_r, t_w);
        p.disconnect_self = false;
        ops.insert(op, p);
    }
    // masks of single plans
    let mut ids: Vec<u64> = ops.keys().copied().filter(|o| *o < 9_000_000 && !(3_000_001..4_000_000).contains(o)).collect();
    ids.sort_unstable();
    for o in ids {
        let (_, k) = keep(mask);
        if !k {
            let old = ops[&o].clone();
            ops.insert(o, OpPlan { outcome: old.outcome, big: old.big, fail: old.fail, ..OpPlan::default() });
        }
    }
    // ---- faults
    let mut faults = vec![];
    let n = r.range(d.faults.0, d.faults.1);
    for i in 0..n {
        let mut q = Rng::fork(seed, 6000 + i);
        let at = q.below(t_w);
        let g = q.below(n_g.max(1)) as usize;
        let f = match q.below(17) {
            0 | 1 => Fault::Reset(q.below(12)),
            2 | 3 => {
                let both = q.chance(400);
                Fault::Hold(q.below(12), both || q.chance(500), both || q.chance(500), q.range(1, 80) * MS)
            }
            4 => Fault::SendErr(q.below(12), q.range(1, 50) * MS),
            5 => Fault::DiscErr(q.below(12), q.range(1, 80) * MS),
            6 => Fault::WriteFail(q.below(12)),
            7 => Fault::ServerClose(q.below(12)),
            8 | 9 => Fault::Refuse(g, q.range(1, 120) * MS),
            10 => Fault::Hang(g, q.range(1, 120) * MS),
            11 => Fault::StallProducer(q.range(1, 60) * MS),
            12 | 13 => Fault::StallClient(g, q.range(1, 60) * MS),
            14 => Fault::WallJump(*q.pick(&[-3_600_000_000_000i64, -50 * MS as i64, 3_600_000_000_000])),
            15 => Fault::KillClient(g),
            _ => Fault::ClientSendErr(g, q.range(1, 50) * MS),
        };
        let (it, k) = keep(mask);
        if k {
            faults.push(FaultAt { item: it, at, f });
        }
    }
    let n = match profile {
        Errs | Mix | Net => r.below(7),
        Ident | Crowd | Shut | CShut | Mitm | Crash | Calm => r.below(3),
        _ => 0,
    };
    let mut last: Option<u64> = None;
    for i in 0..n {
        let mut q = Rng::fork(seed, 6300 + i);
        let at = match last {
            // several at once
            Some(at) if q.chance(300) => at,
            _ => q.below(t_w),
        };
        last = Some(at);
        let f = if n_g > 0 && q.chance(300) { Fault::CErr(q.below(n_g) as usize) } else { Fault::TErr(q.below(10) as u8, q.below(24)) };
        let (it, k) = keep(mask);
        if k {
            faults.push(FaultAt { item: it, at, f });
        }
    }
    if profile == Crash || (profile == Mix && r.chance(100)) {
        for i in 0..r.range(1, 2) {
            let mut q = Rng::fork(seed, 6500 + i);
            let (it, k) = keep(mask);
            let at = q.range(t_w / 8, t_w);
            let down = q.range(0, 60) * MS;
            if k {
                faults.push(FaultAt { item: it, at, f: Fault::Crash(down) });
            }
        }
    }
    // ---- shutdown of the producer in the middle of the work
    let mut pshuts = vec![];
    let mut bind_fails = false;
    let shutdown_fails = matches!(profile, Shut | Mix | Late | Errs) && Rng::fork(seed, 7100).chance(250) && keep(mask).1;
    if profile == Shut || (profile == Mix && r.chance(80)) || (profile == Crowd && r.chance(200)) {
        let mut q = Rng::fork(seed, 7000);
        let way = q.below(12);
        if way == 0 {
            let (_, k) = keep(mask);
            bind_fails = k;
        } else {
            if way <= 3 {
                let (it, k) = keep(mask);
                let f = Fault::ServerDown(q.below(3) as u8);
                if k {
                    faults.push(FaultAt { item: it, at: q.range(t_w / 8, t_w), f });
                }
            }
            let n = if way <= 3 { q.below(2) } else { *q.pick(&[1, 1, 2, 3, 4]) };
            let base = q.range(t_w / 8, t_w);
            for id in 0..n as u32 {
                let (it, k) = keep(mask);
                let s = PShut {
                    item: it, id: id + 1,
                    at: if q.chance(600) { base + q.below(2 * MS) } else { q.range(t_w / 8, t_w) },
                    wait: q.chance(650),
                    drop_after: if q.chance(300) { Some(q.below(4 * MS)) } else { None },
                };
                if k {
                    pshuts.push(s);
                }
            }
            if n == 0 && way > 3 || q.chance(150) {
                // from inside a handler
                let (_, k) = keep(mask);
                if k {
                    if let Some(c) = calls.get(q.below(calls.len().max(1) as u64) as usize) {
                        if let Some(p) = ops.get_mut(&c.op) {
                            p.shutdown = true;
                        }
                    }
                }
            }
        }
    }
    // ---- shutdown of consumers in the middle of the work
    let mut cshuts = vec![];
    if n_g > 0 && (profile == CShut || (matches!(profile, Mix | Net | Calm) && r.chance(200))) {
        let n = if profile == CShut { r.range(1, 2 * n_g) } else { 1 };
        let mut before: Option<(usize, u64, bool)> = None;
        for id in 0..n as u32 {
            let mut q = Rng::fork(seed, 8000 + id as u64);
            let (it, k) = keep(mask);
            // several requests at about the same time
            let near = before.filter(|_| q.chance(350));
            let (c, at, online) = match near {
                Some((c, at, online)) => (c, at + q.below(400 * US), online),
                None => (q.below(n_g) as usize, q.below(t_w), q.chance(600)),
            };
            let drop_after = if near.is_some() && q.chance(450) {
                Some(q.below(300 * US))
            } else if q.chance(150) {
                Some(q.below(3 * MS))
            } else {
                None
            };
            before = Some((c, at, online));
            let s = crate::plan::CShut { item: it, id: id + 1, c, at, drop_after, online };
            if k && gen_ids.contains(&s.c) {
                cshuts.push(s);
            }
        }
    }
    let stall_total = faults.iter().map(|f| match f.f {
        Fault::StallProducer(d) | Fault::StallClient(_, d) => d,
        _ => 0,
    }).sum();
    let busy = ops.values().map(|p| p.delay + p.deferred).sum::<u64>();
    Scn {
        seed, profile, policy, poll_cost, event_first, knobs, ident, errs, observer_fail,
        inner_calls: matches!(profile, Calm | Mix | Net | Late) && r.chance(300),
        bind_fails, shutdown_fails, gens, raws, calls, emits, faults, pshuts, cshuts, ops, t_w, stall_total, busy,
        producer_first: r.chance(500), items: item,
    }
}
fn op_plan(seed: u64, op: u64, kind: K, d: &Dials, strict: bool, n: u64, _t_w: u64) -> OpPlan {
    let mut r = Rng::fork(seed, 1 << 40 | op);
    let mut p = OpPlan::default();
    p.yields = if r.chance(300) { r.below(4) as u8 } else { 0 };
    if r.chance(d.slow) {
        p.delay = if r.chance(150) { r.range(1, 25) * MS } else { r.range(1, 2500) * US };
    }
    p.outcome = match kind {
        k if k.is_request() => if r.chance(180) { 255 } else { r.below(crate::flow::conclusions(k) as u64) as u8 },
        _ => 0,
    };
    for b in 0..3 {
        p.bc[b] = BcPlan { present: r.chance(600), sel: sel(&mut r, n) };
    }
    let own = op < 4_000_000 || (op >= 9_000_000 && op % 2 == 0);
    if r.chance(250) {
        p.deferred = 1 + if r.chance(500) { r.below(4 * MS) } else { 0 };
        p.deferred_set = own && r.chance(d.sets / 2);
    }
    if own && r.chance(d.sets) {
        for _ in 0..r.range(1, 2) {
            p.sets.push(idset(&mut r));
        }
    }
    if !strict && r.chance(d.cross) {
        for _ in 0..r.range(1, 2) {
            p.cross.push((r.below(n.max(1)), idset(&mut r)));
        }
    }
    if own && op < 4_000_000 && r.chance(d.app_disc) {
        p.disconnect_self = true;
    }
    if (kind.is_beacon() || kind.is_event() || op >= 9_000_000) && r.chance(d.fail) {
        p.fail = true;
    }
    p.big = if kind == K::Echo { if d.big >= 2 { r.below(d.big + 1) } else { d.big } } else { 0 };
    p
}
fn foreign(q: &mut Rng) -> u8 {
    q.range(1, 3) as u8 | (q.below(net::HASH_WAYS) as u8) << 2
}
fn raw_steps(q: &mut Rng, i: usize, d: &Dials, profile: Profile, raw_ops: &mut Vec<(u64, K)>) -> Vec<Step> {
    let mut v = vec![];
    let bad = q.chance(d.misbehave);
    let way = if bad { q.range(1, 10) } else { 0 };
    let mut seq = 0u32;
    let mut used = BTreeSet::new();
    let mut next = |q: &mut Rng| {
        seq = match q.below(60) {
            0..=5 => seq.wrapping_add(1 + q.below(1000) as u32),
            6 => u32::MAX - q.below(2) as u32,
            7 => *q.pick(&[1u32 << 31, 65_535, 65_536, 255]),
            _ => seq.wrapping_add(1),
        };
        // each number once: keys are told apart by it
        while !used.insert(seq) {
            seq = seq.wrapping_add(1);
        }
        seq
    };
    let fixed = profile == Profile::Frag;
    let hold = q.chance(500);
    // 1: data before confirmation
    if way != 1 || q.chance(300) {
        v.push(Step::WaitConfirm);
    } else if q.chance(500) {
        v.push(Step::WaitUp);
    }
    if hold {
        v.push(Step::Hold);
    }
    // something unreadable within the handshake
    let spoilt = if way >= 7 && q.chance(250) { q.range(1, 2) } else { 0 };
    if spoilt == 1 {
        v.push(Step::Bad { variant: q.below(15) as u8, salt: q.next() });
    }
    // 2: no key  3: no hash  4: nothing  5: foreign hash  6: hash first, key later
    let key = Step::Key { seq: next(q), key: key_of(q, 100 + i as u64) };
    let hash = Step::Hash { seq: next(q), variant: if way == 5 { foreign(q) } else { 0 } };
    match way {
        2 => v.push(hash),
        3 => v.push(key),
        4 => {}
        6 => {
            v.push(hash);
            v.push(key);
        }
        _ => {
            v.push(key);
            if q.chance(200) {
                v.push(Step::Key { seq: next(q), key: key_of(q, 200 + i as u64) });
            }
            if !hold && q.chance(400) {
                v.push(Step::WaitAnswers);
            }
            if spoilt == 2 {
                v.push(Step::Bad { variant: q.below(15) as u8, salt: q.next() });
            }
            v.push(hash);
        }
    }
    if !hold && q.chance(400) {
        v.push(Step::WaitAnswers);
    }
    let n = if profile == Profile::Crowd { q.below(3) } else { q.range(1, 9) };
    let bad_at = q.below(n + 1);
    let mut last = None;
    for k in 0..=n {
        if way >= 7 && k == bad_at {
            if q.chance(d.garbage) {
                v.push(Step::Garbage { n: q.range(1, 200), salt: q.next() });
            } else {
                for _ in 0..q.range(1, 2) {
                    v.push(Step::Bad { variant: q.below(15) as u8, salt: q.next() });
                }
            }
        }
        if k == n {
            break;
        }
        if way == 8 && q.chance(150) {
            v.push(Step::Key { seq: next(q), key: key_of(q, 300 + i as u64) });
        }
        if way == 9 && q.chance(150) {
            let variant = if q.chance(333) { 0 } else { foreign(q) };
            v.push(Step::Hash { seq: next(q), variant });
        }
        let kind = *q.pick(&[K::Echo, K::Multi, K::Multi, K::Same, K::Quick, K::Ask, K::Ask, K::Ping, K::Mark]);
        // 10: messages a producer never expects from a consumer
        let kind = if way == 10 && q.chance(300) { *q.pick(&[K::Note, K::News, K::Reply, K::Tick, K::SelfKeyResponse]) } else { kind };
        let op = 2_000_000 + (i as u64) * 1000 + k;
        raw_ops.push((op, kind));
        let n = next(q);
        // numbers are the business of the one who counts them
        let n = match q.below(60) {
            0 => 0,
            1 => last.unwrap_or(n),
            _ => n,
        };
        last = Some(n);
        v.push(Step::Msg { kind, op, seq: n });
        if !hold && q.chance(300) {
            v.push(Step::Sleep(q.below(20 * MS)));
        }
        if !hold && !fixed && q.chance(200) {
            v.push(Step::WaitAnswers);
        }
    }
    if hold {
        v.push(Step::Flush);
    }
    if !fixed && q.chance(if profile == Profile::Crowd { 120 } else { 500 }) {
        if q.chance(600) {
            v.push(Step::WaitAnswers);
        }
        v.push(Step::Close { clean: q.chance(600) });
    }
    v
}
