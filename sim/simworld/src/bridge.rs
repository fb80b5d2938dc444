//! Rust peers as the slave of another simulator: transports that only pass on what they are given, a plan drawn from
//! ids, and the recorded events as lines of text. The other side owns time, network and faults.
use crate::hist::*;
use crate::net::SimErr;
use crate::wire::K;
use crate::{with, BcPlan, OpPlan, Sel};
use async_trait::async_trait;
use clibri::{client, server};
use simrt::{Rng, MS};
use std::cell::RefCell;
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::Arc;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::sync::Notify;
use uuid::Uuid;

#[derive(Clone, Debug)]
pub struct Draw {
    pub seed: u64,
    pub big: u64,
    /// longest handler in ms
    pub hold: u64,
    /// per mille of connections that are assigned an identity, of beacons that fail
    pub assign: u64,
    pub fail: u64,
}
fn sel(r: &mut Rng) -> Sel {
    match r.below(8) {
        0 => Sel::ExceptSelf,
        1 => Sel::Except(r.below(8)),
        2 => Sel::Exclude((0..r.below(3)).map(|_| r.below(8)).collect()),
        3 => Sel::OddRank,
        4 => Sel::Assigned,
        5 => Sel::Nobody,
        _ => Sel::All,
    }
}
impl Draw {
    pub fn plan(&self, op: u64) -> OpPlan {
        let mut r = Rng::fork(self.seed ^ op, 0xD1A7);
        let mut bc = || BcPlan { present: r.chance(600), sel: sel(&mut r) };
        let bc = [bc(), bc(), bc()];
        let delay = if self.hold == 0 || r.chance(400) { 0 } else { r.below(self.hold + 1) * MS };
        let conn = op >= 9_000_000 && op < 10_000_000;
        let sets = if conn && op % 2 == 0 && r.chance(self.assign) {
            vec![IdSet::Asg(AsgV { uid: format!("u{}", op), level: op as u32, admin: None }, true)]
        } else {
            vec![]
        };
        OpPlan {
            delay,
            yields: r.below(3) as u8,
            outcome: if r.chance(250) { 255 } else { r.below(3) as u8 },
            bc,
            sets,
            deferred: if r.chance(200) { 1 + r.below(3) * MS } else { 0 },
            fail: !conn && r.chance(self.fail),
            big: self.big,
            ..OpPlan::default()
        }
    }
}

pub fn name(k: K) -> &'static str {
    match k {
        K::Echo => "Echo", K::Multi => "Multi", K::Same => "Same", K::Quick => "Quick", K::Ask => "Deep.Ask",
        K::Ping => "Ping", K::Mark => "Deep.Mark", K::Tick => "Tick", K::Pulse => "Deep.Pulse",
        K::Note => "Note", K::NoteB => "NoteB", K::NoteC => "NoteC", K::News => "Deep.News", K::InnerNews => "Deep.Inner.News",
        K::Reply => "Reply", K::RespA => "RespA", K::RespB => "RespB", K::RespC => "RespC", K::Answer => "Deep.Answer",
        K::InnerAnswer => "Deep.Inner.Answer", K::Fail => "Errors.Fail", K::Refuse => "Deep.Refuse",
        _ => "-",
    }
}
pub fn kind(n: &str) -> K {
    for k in [K::Echo, K::Multi, K::Same, K::Quick, K::Ask, K::Ping, K::Mark, K::Tick, K::Pulse] {
        if name(k) == n {
            return k;
        }
    }
    K::Other
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let v = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c - b'0' };
    s.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()
}
pub fn say(s: String) {
    with(|w| {
        if let Some(o) = w.bridge.as_mut() {
            o.push(s)
        }
    })
}
fn line(s: &str) -> String {
    hex(s.as_bytes())
}
/// What the other simulator gets to know of an event.
pub fn tell(out: &mut Vec<String>, conns: &[crate::net::Conn], drawn: &Option<Draw>, ev: &Ev) {
    let at = |cx: &Cx| conns.get(*cx).map(|c| c.uuid.to_string()).unwrap_or_else(|| String::from("?"));
    let yes = |b: &bool| if *b { 1 } else { 0 };
    let id = |i: &IdV| match &i.key {
        Some(k) => format!("{}|{}|{}|{}", line(&k.name), k.rank, k.note.as_deref().map(line).unwrap_or_else(|| String::from("-")), k.tag.map(|t| t.to_string()).unwrap_or_else(|| String::from("-"))),
        None => String::from("-"),
    };
    let s = match ev {
        Ev::PRunEnd { ok, err, .. } => format!("prodend {} {}", yes(ok), line(err)),
        Ev::PReady => String::from("prodready"),
        Ev::PConnected { cx, id: i, .. } => format!("connected {} {}", at(cx), id(i)),
        Ev::PDisconnected { cx, id: i, .. } => format!("disconnected {} {}", at(cx), id(i)),
        Ev::PHandle { kind, op, cx, intact, id: i, .. } => format!("handle {} {} {} {} {}", name(*kind), op, at(cx), yes(intact), id(i)),
        Ev::PEvent { kind, op, intact, .. } => format!("event {} {} {}", name(*kind), op, yes(intact)),
        Ev::PHandlerEnd { kind, op, .. } => {
            let p = drawn.as_ref().map(|d| d.plan(*op)).unwrap_or_default();
            format!("done {} {} {} {}", name(*kind), op, p.outcome, if p.fail { line(&crate::beacon_text(*op)) } else { String::from("-") })
        }
        Ev::PSet { cx, .. } => format!("assigned {}", at(cx)),
        Ev::PError { cx, class, what, .. } => format!("proderror {} {} {}", cx.as_ref().map(at).unwrap_or_else(|| String::from("-")), class, line(what)),
        Ev::PBroadcast { kind, bid, op, to, .. } => format!("cast {} {} {} {}", name(*kind), bid, op, to.iter().map(at).collect::<Vec<_>>().join(",")),
        Ev::CConnected { c } => format!("ready {}", c),
        Ev::CDisconnected { c } => format!("offline {}", c),
        Ev::CShutdown { c, err } => format!("cshutdown {} {}", c, err.as_deref().map(line).unwrap_or_else(|| String::from("-"))),
        Ev::CError { c, class, what } => format!("cerror {} {} {}", c, class, line(what)),
        Ev::CBroadcast { c, kind, bid, intact } => format!("heard {} {} {} {}", c, name(*kind), bid, yes(intact)),
        Ev::CRet { c, op, res } => match res {
            CallRes::Answer(k, o, i) => format!("ret {} {} answer {} {} {}", c, op, name(*k), o, yes(i)),
            CallRes::Declared(k, o, i) => format!("ret {} {} answer {} {} {}", c, op, name(*k), o, yes(i)),
            CallRes::Confirmed => format!("ret {} {} confirmed", c, op),
            CallRes::Timeout => format!("ret {} {} timeout", c, op),
            CallRes::BeaconErr(s) => format!("ret {} {} failed {}", c, op, line(s)),
            CallRes::Err(s) => format!("ret {} {} error {}", c, op, line(s)),
        },
        Ev::CDrop { c, op } => format!("ret {} {} dropped", c, op),
        _ => return,
    };
    out.push(s);
}

// ------------------------------------------------------------------ server
struct Srv {
    tx: UnboundedSender<server::Events<SimErr>>,
    rx: Option<UnboundedReceiver<server::Events<SimErr>>>,
    notify: Arc<Notify>,
    cancel: bool,
}
struct Cli {
    tx: UnboundedSender<client::Event<SimErr>>,
    rx: Option<UnboundedReceiver<client::Event<SimErr>>>,
    notify: Arc<Notify>,
    gen: u32,
    linked: bool,
    down: bool,
    end: bool,
    /// handed over before the connection is there
    early: Vec<Vec<u8>>,
}
thread_local! {
    static SRV: RefCell<Option<Srv>> = const { RefCell::new(None) };
    static CLI: RefCell<HashMap<usize, Cli>> = RefCell::new(HashMap::new());
}
pub struct Server;
#[derive(Clone, Debug)]
pub struct ServerControl;
pub fn server() -> Server {
    let (tx, rx) = unbounded_channel();
    SRV.with(|s| *s.borrow_mut() = Some(Srv { tx, rx: Some(rx), notify: Arc::new(Notify::new()), cancel: false }));
    Server
}
pub fn server_event(e: server::Events<SimErr>) {
    SRV.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            let _ = s.tx.send(e);
        }
    })
}
/// A connection the other simulator knows by this name.
pub fn connection(uuid: &str) -> Option<Uuid> {
    let u = Uuid::parse_str(uuid).ok()?;
    with(|w| {
        if !w.by_uuid.contains_key(&u) {
            let cx = w.conns.len();
            w.conns.push(crate::net::Conn::foreign(u));
            w.by_uuid.insert(u, cx);
        }
    });
    Some(u)
}
#[async_trait]
impl server::Impl<SimErr, ServerControl> for Server {
    async fn listen(&mut self) -> Result<(), SimErr> {
        server_event(server::Events::Ready);
        say(String::from("listening"));
        let notify = SRV.with(|s| s.borrow().as_ref().map(|s| s.notify.clone()));
        if let Some(n) = notify {
            while !SRV.with(|s| s.borrow().as_ref().map(|s| s.cancel).unwrap_or(true)) {
                n.notified().await;
            }
        }
        server_event(server::Events::Shutdown);
        Ok(())
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<SimErr>>, SimErr> {
        SRV.with(|s| s.borrow_mut().as_mut().and_then(|s| s.rx.take())).ok_or_else(|| SimErr(String::from("no observer")))
    }
    fn control(&self) -> ServerControl {
        ServerControl
    }
}
#[async_trait]
impl server::Control<SimErr> for ServerControl {
    async fn shutdown(&self) -> Result<(), SimErr> {
        SRV.with(|s| {
            if let Some(s) = s.borrow_mut().as_mut() {
                s.cancel = true;
                s.notify.notify_one();
            }
        });
        Ok(())
    }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), SimErr> {
        say(format!("ssend {} {}", client.map(|u| u.to_string()).unwrap_or_else(|| String::from("-")), hex(&buffer)));
        simrt::yield_now().await;
        Ok(())
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), SimErr> {
        say(format!("sdisc {}", client));
        simrt::yield_now().await;
        Ok(())
    }
    async fn disconnect_all(&self) -> Result<(), SimErr> {
        say(String::from("sdiscall"));
        Ok(())
    }
}

// ------------------------------------------------------------------ clients
pub struct Client {
    c: usize,
}
#[derive(Clone, Debug)]
pub struct ClientControl {
    c: usize,
    gen: u32,
}
fn fresh(gen: u32) -> Cli {
    let (tx, rx) = unbounded_channel();
    Cli { tx, rx: Some(rx), notify: Arc::new(Notify::new()), gen, linked: false, down: false, end: false, early: vec![] }
}
pub fn client(c: usize) -> Client {
    CLI.with(|m| m.borrow_mut().insert(c, fresh(0)));
    Client { c }
}
fn cli<R>(c: usize, f: impl FnOnce(&mut Cli) -> R) -> Option<R> {
    CLI.with(|m| m.borrow_mut().get_mut(&c).map(f))
}
pub fn linked(c: usize) {
    cli(c, |s| {
        s.linked = true;
        for b in s.early.drain(..) {
            say(format!("csend {} {}", c, hex(&b)));
        }
        let _ = s.tx.send(client::Event::Connected(SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 8080)));
    });
}
pub fn data(c: usize, b: Vec<u8>) {
    cli(c, |s| {
        let _ = s.tx.send(client::Event::Message(client::Message::Binary(b)));
    });
}
pub fn down(c: usize) {
    cli(c, |s| {
        s.down = true;
        s.notify.notify_one();
    });
}
fn renew(c: usize) {
    CLI.with(|m| {
        let mut m = m.borrow_mut();
        let gen = m.get(&c).map(|s| s.gen + 1).unwrap_or(0);
        m.insert(c, fresh(gen));
    });
}
/// The future of `connect` was dropped: the socket is closed.
struct Leave(usize, bool);
impl Drop for Leave {
    fn drop(&mut self) {
        if !self.1 || !simrt::active() {
            return;
        }
        if cli(self.0, |s| !s.down).unwrap_or(false) {
            say(format!("cclose {}", self.0));
        }
        renew(self.0);
    }
}
#[async_trait]
impl client::Impl<SimErr, ClientControl> for Client {
    async fn connect(&mut self) -> Result<(), SimErr> {
        let c = self.c;
        say(format!("cconnect {}", c));
        let mut leave = Leave(c, true);
        let notify = cli(c, |s| s.notify.clone()).unwrap();
        while !cli(c, |s| s.down || s.end).unwrap_or(true) {
            notify.notified().await;
        }
        if cli(c, |s| !s.down).unwrap_or(false) {
            say(format!("cclose {}", c));
        }
        cli(c, |s| {
            let _ = s.tx.send(client::Event::Disconnected);
        });
        simrt::yield_now().await;
        leave.1 = false;
        renew(c);
        Ok(())
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<SimErr>>, SimErr> {
        cli(self.c, |s| s.rx.take()).flatten().ok_or_else(|| SimErr(String::from("no observer")))
    }
    fn control(&self) -> ClientControl {
        ClientControl { c: self.c, gen: cli(self.c, |s| s.gen).unwrap_or(0) }
    }
}
#[async_trait]
impl client::Control<SimErr> for ClientControl {
    async fn shutdown(&self) -> Result<(), SimErr> {
        cli(self.c, |s| {
            s.end = true;
            s.notify.notify_one();
        });
        Ok(())
    }
    async fn send(&self, msg: client::Message) -> Result<(), SimErr> {
        let b = match msg {
            client::Message::Binary(b) => b,
            _ => vec![],
        };
        match cli(self.c, |s| (s.gen == self.gen && !s.down, s.linked)) {
            Some((true, true)) => say(format!("csend {} {}", self.c, hex(&b))),
            Some((true, false)) => {
                cli(self.c, |s| s.early.push(b));
            }
            _ => return Err(SimErr(String::from("client is gone"))),
        }
        Ok(())
    }
}
