//! The simulated world: the network, both transports, the application plan and the recorded history.
pub mod blob;
pub mod bridge;
pub mod hist;
pub mod net;
pub mod wire;

use hist::*;
use simrt::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use uuid::Uuid;
use wire::K;

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    All,
    ExceptSelf,
    Except(u64),
    Exclude(Vec<u64>),
    OddRank,
    Assigned,
    Nobody,
    /// explicit connections (by position), plus made-up identifiers, possibly including ended ones
    Explicit(Vec<u64>, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct BcPlan {
    pub present: bool,
    pub sel: Sel,
}
/// What the application does when it handles the message `op`.
#[derive(Clone, Debug)]
pub struct OpPlan {
    pub delay: u64,
    pub yields: u8,
    /// which declared answer; 255 is the declared error
    pub outcome: u8,
    pub bc: [BcPlan; 3],
    /// 0 none, otherwise the duration in ns of the deferred work + 1
    pub deferred: u64,
    pub deferred_set: bool,
    pub sets: Vec<IdSet>,
    /// identity changes of other connections (by position)
    pub cross: Vec<(u64, IdSet)>,
    pub disconnect_self: bool,
    pub emit: Vec<(K, u64)>,
    pub shutdown: bool,
    /// handler fails (beacons, events)
    pub fail: bool,
    pub big: u64,
    pub ask: bool,
}
impl Default for OpPlan {
    fn default() -> Self {
        OpPlan {
            delay: 0, yields: 0, outcome: 0,
            bc: [BcPlan { present: false, sel: Sel::Nobody }, BcPlan { present: false, sel: Sel::Nobody }, BcPlan { present: false, sel: Sel::Nobody }],
            deferred: 0, deferred_set: false, sets: vec![], cross: vec![], disconnect_self: false, emit: vec![], shutdown: false, fail: false, big: 0, ask: false,
        }
    }
}

pub struct World {
    pub hist: Vec<Rec>,
    pub conns: Vec<net::Conn>,
    pub by_uuid: HashMap<Uuid, Cx>,
    pub server: Option<net::Server>,
    pub server_epoch: u32,
    pub rng: Rng,
    pub ops: HashMap<u64, OpPlan>,
    pub knobs: net::Knobs,
    pub next_bid: u64,
    pub terrs: u64,
    pub faults: BTreeMap<String, u64>,
    /// the error observer of the producer fails for these calls (per mille)
    pub observer_fail: u64,
    pub shutdown_fails: bool,
    pub clients: HashMap<usize, net::ClientSt>,
    pub client_cfg: HashMap<usize, ClientCfg>,
    pub next_inner: u64,
    /// requests started from inside the consumer's broadcast handlers
    pub inner_calls: bool,
    pub keep_trace: bool,
    pub rendered: Vec<String>,
    /// connections on which the network or a transport failed
    pub tainted: BTreeSet<Cx>,
    /// frames (by start) that no reader may accept, per direction
    pub bad_c2s: HashSet<(Cx, u64)>,
    pub bad_s2c: HashSet<(Cx, u64)>,
    pub keys_sent: HashMap<(Cx, u32), KeyV>,
    pub online: HashMap<usize, bool>,
    /// calls of a generated client still running / raw clients still running
    pub busy: usize,
    /// known finding: present but empty optional values that were read as absent
    pub known_empty: u64,
    /// lockstep with another simulator: what it is told, and the seed of plans it doesn't know
    pub bridge: Option<Vec<String>>,
    pub drawn: Option<bridge::Draw>,
}
#[derive(Clone, Debug, Default)]
pub struct ClientCfg {
    pub refuse_reconnect_at: u32,
    pub reconnects: u32,
    pub bc_delay: u64,
    pub ev_delay: u64,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}
pub fn install(w: World) {
    W.with(|c| *c.borrow_mut() = Some(w));
}
pub fn take() -> Option<World> {
    W.with(|c| c.borrow_mut().take())
}
pub fn rec(ev: Ev) {
    let t = simrt::now();
    let s = format!("{:?}", ev);
    simrt::mix_bytes(s.as_bytes());
    simrt::mix(t);
    with(|w| {
        if w.keep_trace {
            let line = format!("{:>12.6} {}", t as f64 / 1e9, if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } else { s });
            w.rendered.push(line);
        }
        match &ev {
            Ev::CConnected { c } => {
                w.online.insert(*c, true);
            }
            Ev::CDisconnected { c } | Ev::CLinkDown { c, .. } => {
                w.online.insert(*c, false);
            }
            _ => {}
        }
        if let Some(out) = w.bridge.as_mut() {
            bridge::tell(out, &w.conns, &w.drawn, &ev);
            return;
        }
        w.hist.push(Rec { t, ev })
    });
}
pub fn fault(kind: &str) {
    with(|w| *w.faults.entry(kind.to_string()).or_insert(0) += 1);
}
pub fn fault_n(kind: &str, n: u64) {
    with(|w| *w.faults.entry(kind.to_string()).or_insert(0) += n);
}
pub fn cx_of(u: &Uuid) -> Option<Cx> {
    with(|w| w.by_uuid.get(u).copied())
}
pub fn uuid_of(cx: Cx) -> Uuid {
    with(|w| w.conns.get(cx).map(|c| c.uuid).unwrap_or(Uuid::from_u128(0xabad_0000)))
}
pub fn plan(op: u64) -> OpPlan {
    with(|w| w.ops.get(&op).cloned().unwrap_or_else(|| w.drawn.as_ref().map(|d| d.plan(op)).unwrap_or_default()))
}
/// Text of the failure of a beacon's handler. (An empty one arrives as none: known finding.)
pub fn beacon_text(op: u64) -> String {
    match op % 5 {
        0 => String::from(" "),
        1 => format!("{} failed\n", "\u{1f4a5}beacon ".repeat(1 + (op % 90) as usize)),
        _ => format!("beacon {} failed", op),
    }
}
pub fn new_bid() -> u64 {
    with(|w| {
        w.next_bid += 1;
        w.next_bid
    })
}
pub fn conn_count() -> usize {
    with(|w| w.conns.len())
}
/// The op under which the connect (or disconnect) of a connection is planned.
pub fn conn_op(cx: Cx, end: bool) -> u64 {
    9_000_000 + (cx as u64) * 2 + end as u64
}
impl World {
    /// ops of calls made from inside handlers of a consumer
    pub fn new_inner_op(&mut self) -> u64 {
        self.next_inner += 1;
        self.next_inner
    }
    pub fn new(seed: u64) -> Self {
        World {
            hist: vec![], conns: vec![], by_uuid: HashMap::new(), server: None, server_epoch: 0,
            rng: Rng::fork(seed, 11), ops: HashMap::new(), knobs: net::Knobs::default(), next_bid: 50_000_000, terrs: 0,
            faults: BTreeMap::new(), observer_fail: 0, shutdown_fails: false, clients: HashMap::new(), client_cfg: HashMap::new(),
            next_inner: 3_000_000, inner_calls: false, keep_trace: false, rendered: vec![],
            tainted: BTreeSet::new(), bad_c2s: HashSet::new(), bad_s2c: HashSet::new(), keys_sent: HashMap::new(), online: HashMap::new(), busy: 0, known_empty: 0, bridge: None, drawn: None,
        }
    }
}
