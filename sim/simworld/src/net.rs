//! The simulated network and both transports (the published clibri transport traits over simulated pipes).
use crate::hist::*;
use crate::wire::{self, StreamParser, K};
use crate::{fault, rec, with, World};
use async_trait::async_trait;
use clibri::{client, server};
use simrt::{Rng, MS, US};
use std::collections::{HashMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::Arc;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::sync::{oneshot, Notify};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq)]
pub struct SimErr(pub String);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimErr {}
impl server::Error for SimErr {}
impl client::Error for SimErr {}

/// How a direction of a connection cuts its byte stream.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Frag {
    AsIs,
    Bytewise,
    Split,
    Coalesce,
    Mixed,
    Halves,
}
#[derive(Clone, Debug)]
pub struct Knobs {
    pub frags: Vec<Frag>,
    pub lat: (u64, u64),
    pub jitter: u64,
    pub gap: u64,
    pub window: (u64, u64),
    pub accept: (u64, u64),
    pub link: (u64, u64),
    /// per mille of transport calls of the producer that take a while, and how long at most
    pub pause: u64,
    pub pause_max: u64,
    /// per mille of chunks already under way that still surface after the end of their connection
    pub late_recv: u64,
    /// per mille of connection ends that are reported twice by the transport
    pub dup_down: u64,
    /// per mille of connection losses that come with a transport error event
    pub loss_error: u64,
    /// sending to a client that is gone is an error
    pub strict_send: bool,
    /// per mille of requests to shut a transport down that fail without effect
    pub shut_fail: u64,
    /// how long at most a transport takes to close once it was asked to
    pub slow_close: u64,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            frags: vec![Frag::AsIs], lat: (50 * US, 2 * MS), jitter: 200 * US, gap: 20 * US, window: (100 * US, 5 * MS),
            accept: (0, MS), link: (0, MS), pause: 50, pause_max: 300 * US, late_recv: 0, dup_down: 0, loss_error: 500, strict_send: false, shut_fail: 0, slow_close: 0,
        }
    }
}
/// A tampering middle box in front of one generated consumer; all rates per mille of frames.
#[derive(Clone, Debug, Default)]
pub struct Mitm {
    pub drop: u64,
    pub dup: u64,
    pub garbage: u64,
    pub unknown: u64,
    pub unsolicited: u64,
    pub badbody: u64,
    /// repetitions of messages of the handshake
    pub again: u64,
    /// messages that are no binary ones, errors the transport survives
    pub foreign: u64,
    pub delay: u64,
    pub delay_max: u64,
    /// also touch handshake frames
    pub handshake: bool,
    pub from: u64,
    pub until: u64,
    /// 1 protocol hash, 2 workflow hash, 3 both
    pub bad_hash: u8,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Peer {
    Gen(usize),
    Raw(usize),
}
impl Peer {
    pub fn id(self) -> usize {
        match self {
            Peer::Gen(c) => c,
            Peer::Raw(r) => 1000 + r,
        }
    }
}
enum Item {
    Bytes(Vec<u8>),
    Fin,
}
pub struct Pipe {
    pub frag: Frag,
    pending: Vec<u8>,
    flush: bool,
    last: u64,
    base: u64,
    closed: bool,
    dropped: bool,
    pub hold: bool,
    held: VecDeque<Item>,
    rng: Rng,
    parser: StreamParser,
    pub sent: u64,
    pub extra: u64,
}
pub struct Conn {
    pub uuid: Uuid,
    pub peer: Peer,
    pub epoch: u32,
    pub srv_up: bool,
    pub srv_down: bool,
    pub cli_up: bool,
    pub cli_down: bool,
    pub s2c: Pipe,
    pub c2s: Pipe,
    pub send_err: bool,
    pub disc_err: bool,
    /// the next write fails: the transport reports an error and drops the connection
    pub write_fail: bool,
    pub raw: Option<UnboundedSender<RawEv>>,
    foreign: u32,
    last_answer: Option<Vec<u8>>,
    last_hs: Vec<Vec<u8>>,
}
#[derive(Debug)]
pub enum RawEv {
    Up,
    Frames(Vec<wire::Frame>, Vec<u8>),
    Closed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Down {
    /// an error event, then `listen` fails
    ErrOut,
    /// a shutdown event, then `listen` succeeds
    Clean,
    /// `listen` fails without any event
    Silent,
}
pub struct Server {
    pub epoch: u32,
    tx: UnboundedSender<server::Events<SimErr>>,
    rx: Option<UnboundedReceiver<server::Events<SimErr>>>,
    pub listening: bool,
    pub gone: bool,
    cancel: bool,
    pub down: Option<Down>,
    notify: Arc<Notify>,
    pub bind_fails: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Clean,
    Reset,
}
pub struct ClientSt {
    pub gen: u32,
    tx: UnboundedSender<client::Event<SimErr>>,
    rx: Option<UnboundedReceiver<client::Event<SimErr>>>,
    notify: Arc<Notify>,
    pub cx: Option<Cx>,
    linked: bool,
    outq: Vec<Vec<u8>>,
    want_shutdown: bool,
    waiters: Vec<oneshot::Sender<bool>>,
    end: Option<End>,
    pub send_err: bool,
    pub refuse_until: u64,
    pub refuse_next: u32,
    pub hang_until: u64,
    pub mitm: Mitm,
    pub raw_wait: bool,
    /// a session is under way
    busy: bool,
}

impl Conn {
    /// A connection of another simulator: only its name is known.
    pub fn foreign(uuid: Uuid) -> Conn {
        let p = || Pipe::new(Frag::AsIs, 0, Rng::new(0));
        Conn {
            uuid, peer: Peer::Raw(0), epoch: 0, srv_up: true, srv_down: false, cli_up: false, cli_down: false,
            s2c: p(), c2s: p(), send_err: false, disc_err: false, write_fail: false, raw: None, foreign: 0, last_answer: None, last_hs: vec![],
        }
    }
}
fn ms_or(r: &mut Rng, v: (u64, u64)) -> u64 {
    r.range(v.0, v.1)
}

impl Pipe {
    fn new(frag: Frag, base: u64, rng: Rng) -> Self {
        Pipe {
            frag, pending: vec![], flush: false, last: 0, base, closed: false, dropped: false, hold: true,
            held: VecDeque::new(), rng, parser: StreamParser::default(), sent: 0, extra: 0,
        }
    }
    fn cut(&mut self, b: Vec<u8>) -> Vec<Vec<u8>> {
        let r = &mut self.rng;
        let n = b.len();
        match self.frag {
            Frag::AsIs | Frag::Coalesce => vec![b],
            Frag::Bytewise => {
                if n <= 600 {
                    b.into_iter().map(|x| vec![x]).collect()
                } else {
                    let step = n / 64 + 1;
                    b.chunks(step).map(|c| c.to_vec()).collect()
                }
            }
            Frag::Halves => {
                // inside the header, or right at its edge
                let k = r.range(1, 30).min(n as u64) as usize;
                let (x, y) = b.split_at(k);
                let mut v = vec![x.to_vec()];
                if !y.is_empty() {
                    v.push(y.to_vec());
                }
                v
            }
            Frag::Split | Frag::Mixed => {
                let mut v = vec![];
                let mut p = 0;
                let max = *r.pick(&[3u64, 20, 60, 300, 5000, 100_000]);
                let floor = (n / 200) as u64;
                while p < n {
                    let k = (floor + r.range(1, max)).min((n - p) as u64) as usize;
                    v.push(b[p..p + k].to_vec());
                    p += k;
                }
                v
            }
        }
    }
}

// ------------------------------------------------------------------ pipes
fn pipe<'a>(w: &'a mut World, cx: Cx, d: &Dir) -> &'a mut Pipe {
    match d {
        Dir::C2S => &mut w.conns[cx].c2s,
        Dir::S2C => &mut w.conns[cx].s2c,
    }
}
fn push(cx: Cx, d: Dir, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    let delay = with(|w| {
        let window = w.knobs.window;
        let p = pipe(w, cx, &d);
        if p.closed || p.dropped {
            return None;
        }
        p.sent += b.len() as u64;
        p.pending.extend_from_slice(b);
        if p.flush {
            return None;
        }
        match p.frag {
            Frag::Coalesce => {
                p.flush = true;
                Some(ms_or(&mut p.rng, window))
            }
            Frag::Mixed => {
                p.flush = true;
                Some(if p.rng.chance(500) { 0 } else { ms_or(&mut p.rng, window) })
            }
            _ => {
                p.flush = true;
                Some(0)
            }
        }
    });
    match delay {
        None => {}
        Some(0) => flush(cx, d),
        Some(t) => {
            simrt::after(t, Box::new(move || flush(cx, d)));
        }
    }
}
fn flush(cx: Cx, d: Dir) {
    let items = with(|w| {
        let (jit, gap) = (w.knobs.jitter, w.knobs.gap);
        let p = pipe(w, cx, &d);
        p.flush = false;
        let b = std::mem::take(&mut p.pending);
        if b.is_empty() || p.dropped {
            return vec![];
        }
        let mut t = simrt::now() + p.base + p.rng.range(0, jit) + std::mem::take(&mut p.extra);
        let mut v = vec![];
        for c in p.cut(b) {
            t = t.max(p.last);
            p.last = t;
            v.push((t, c));
            t += p.rng.range(0, gap);
        }
        v
    });
    for (t, c) in items {
        let d = d.clone();
        simrt::at(t, Box::new(move || deliver(cx, d, Item::Bytes(c))));
    }
}
fn fin(cx: Cx, d: Dir) {
    flush(cx, d.clone());
    let t = with(|w| {
        let p = pipe(w, cx, &d);
        if p.closed {
            return None;
        }
        p.closed = true;
        let t = (simrt::now() + p.base).max(p.last);
        p.last = t;
        Some(t)
    });
    if let Some(t) = t {
        simrt::at(t, Box::new(move || deliver(cx, d, Item::Fin)));
    }
}
fn deliver(cx: Cx, d: Dir, it: Item) {
    let it = with(|w| {
        let p = pipe(w, cx, &d);
        if p.dropped {
            return None;
        }
        if p.hold || !p.held.is_empty() {
            p.held.push_back(it);
            return None;
        }
        Some(it)
    });
    if let Some(it) = it {
        hand_over(cx, &d, it);
    }
}
fn release(cx: Cx, d: Dir) {
    with(|w| pipe(w, cx, &d).hold = false);
    loop {
        let it = with(|w| {
            let p = pipe(w, cx, &d);
            if p.dropped || p.hold {
                None
            } else {
                p.held.pop_front()
            }
        });
        match it {
            Some(it) => hand_over(cx, &d, it),
            None => return,
        }
    }
}
/// A partition (or stall) of one direction of one connection.
pub fn hold(cx: Cx, d: Dir, yes: bool) {
    if yes {
        with(|w| pipe(w, cx, &d).hold = true);
    } else {
        let ready = with(|w| match d {
            Dir::C2S => w.conns[cx].srv_up,
            Dir::S2C => w.conns[cx].cli_up,
        });
        if ready {
            release(cx, d);
        }
    }
}
fn hand_over(cx: Cx, d: &Dir, it: Item) {
    match (d, it) {
        (Dir::C2S, Item::Bytes(b)) => {
            let ok = with(|w| {
                let late = w.knobs.late_recv;
                let c = &mut w.conns[cx];
                if !c.srv_down || c.c2s.rng.chance(late) {
                    let uuid = c.uuid;
                    let epoch = c.epoch;
                    let was_down = c.srv_down;
                    let frames = c.c2s.parser.feed(&b);
                    match w.server.as_ref() {
                        Some(s) if s.epoch == epoch && !s.gone => Some((uuid, frames, was_down)),
                        _ => None,
                    }
                } else {
                    // whatever is lost breaks the stream: nothing later may surface
                    c.c2s.dropped = true;
                    None
                }
            });
            if let Some((uuid, frames, late)) = ok {
                if late {
                    fault("late data after the end of a connection");
                }
                rec(Ev::TRecv { cx, n: b.len() });
                if !frames.is_empty() {
                    rec(Ev::TFrames { cx, frames });
                }
                server_event(server::Events::Received(uuid, b));
            }
        }
        (Dir::C2S, Item::Fin) => srv_side_down(cx, None),
        (Dir::S2C, Item::Bytes(b)) => {
            let r = with(|w| {
                let c = &mut w.conns[cx];
                if c.cli_down {
                    return None;
                }
                let frames = c.s2c.parser.feed(&b);
                Some((c.peer, frames))
            });
            if let Some((peer, frames)) = r {
                rec(Ev::CRecv { c: peer.id(), cx, frames: frames.clone(), n: b.len() });
                if let Peer::Gen(c) = peer {
                    foreign(c, cx);
                }
                with(|w| match peer {
                    Peer::Gen(c) => {
                        if let Some(st) = w.clients.get(&c) {
                            let _ = st.tx.send(client::Event::Message(client::Message::Binary(b)));
                        }
                    }
                    Peer::Raw(_) => {
                        if let Some(tx) = w.conns[cx].raw.as_ref() {
                            let _ = tx.send(RawEv::Frames(frames, b));
                        }
                    }
                });
            }
        }
        (Dir::S2C, Item::Fin) => cli_side_down(cx, End::Clean),
    }
}
fn server_event(e: server::Events<SimErr>) {
    with(|w| {
        if let Some(s) = w.server.as_ref() {
            if !s.gone {
                let _ = s.tx.send(e);
            }
        }
    });
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TErr {
    /// of a connection
    Client,
    /// of a connection that does not come about
    Connection,
    /// of the transport
    Server,
}
/// An error with a text of its own, by which it is known wherever it turns up.
fn numbered(text: &str) -> (u64, SimErr) {
    let n = with(|w| {
        w.terrs += 1;
        w.terrs
    });
    (n, SimErr(format!("{} #e{}#", text, n)))
}
fn transport_error_for(kind: TErr, uuid: Option<Uuid>, text: &str) {
    let epoch = match with(|w| w.server.as_ref().filter(|s| !s.gone).map(|s| s.epoch)) {
        Some(e) => e,
        None => return,
    };
    let (n, e) = numbered(text);
    let cx = uuid.and_then(|u| with(|w| w.by_uuid.get(&u).copied()));
    let class = match kind {
        TErr::Client => "Consumer",
        TErr::Connection => "Connection",
        TErr::Server => "Server",
    };
    rec(Ev::TError { n, class, cx, epoch });
    server_event(match kind {
        TErr::Client => server::Events::Error(uuid, e.0),
        TErr::Connection => server::Events::ConnectionError(uuid, e),
        TErr::Server => server::Events::ServerError(e),
    });
}
pub fn transport_error(kind: TErr, cx: Option<Cx>, text: &str) {
    transport_error_for(kind, cx.map(|cx| with(|w| w.conns[cx].uuid)), text)
}
/// An error that names a connection nobody has heard of.
pub fn transport_error_unknown(kind: TErr, text: &str) {
    transport_error_for(kind, Some(Uuid::from_u128(0xbeef)), text)
}
fn client_error(c: usize, class: &'static str, text: &str, last: bool) -> SimErr {
    let (n, e) = numbered(text);
    rec(Ev::CTError { c, n, class, last });
    e
}
/// The transport of a consumer reports an error which it survives.
pub fn client_hiccup(c: usize) -> bool {
    let on = with(|w| w.clients.get(&c).map(|s| s.busy && s.end.is_none()).unwrap_or(false));
    if on {
        let e = client_error(c, "Client", "hiccup", false);
        st(c, |s| {
            let _ = s.tx.send(client::Event::Error(e));
        });
    }
    on
}
/// The server's transport notices the end of a connection.
fn srv_side_down(cx: Cx, err: Option<String>) {
    let r = with(|w| {
        let dup = w.knobs.dup_down;
        let again = w.rng.chance(dup);
        let c = &mut w.conns[cx];
        if !c.srv_up || c.srv_down {
            // never came up: the connection just vanishes
            c.srv_down = true;
            return None;
        }
        c.srv_down = true;
        c.s2c.closed = true;
        Some((c.uuid, c.epoch, again))
    });
    if let Some((uuid, epoch, again)) = r {
        if with(|w| w.server.as_ref().map(|s| s.epoch == epoch && !s.gone).unwrap_or(false)) {
            if let Some(e) = err {
                rec(Ev::TConnError { cx: Some(cx) });
                transport_error(TErr::Client, Some(cx), &e);
            }
            rec(Ev::TDown { cx });
            server_event(server::Events::Disconnected(uuid));
            if again {
                fault("end of a connection reported twice");
                simrt::after(US * 50, Box::new(move || server_event(server::Events::Disconnected(uuid))));
            }
        }
    }
}
fn cli_side_down(cx: Cx, how: End) {
    let r = with(|w| {
        let c = &mut w.conns[cx];
        if c.cli_down {
            return None;
        }
        c.cli_down = true;
        c.c2s.closed = true;
        Some(c.peer)
    });
    if let Some(peer) = r {
        rec(Ev::CLinkDown { c: peer.id(), cx, clean: how == End::Clean });
        match peer {
            Peer::Gen(c) => with(|w| {
                if let Some(st) = w.clients.get_mut(&c) {
                    if st.cx == Some(cx) && st.end.is_none() {
                        st.end = Some(how);
                        st.notify.notify_one();
                    }
                }
            }),
            Peer::Raw(_) => with(|w| {
                if let Some(tx) = w.conns[cx].raw.as_ref() {
                    let _ = tx.send(RawEv::Closed);
                }
            }),
        }
    }
}
/// Abrupt loss: bytes under way are gone; both sides notice on their own time.
pub fn reset(cx: Cx) {
    let (a, b, err) = with(|w| {
        let le = w.knobs.loss_error;
        let err = w.rng.chance(le);
        let c = &mut w.conns[cx];
        c.c2s.dropped = true;
        c.s2c.dropped = true;
        w.tainted.insert(cx);
        let c = &mut w.conns[cx];
        (c.c2s.rng.range(0, 3 * MS), c.s2c.rng.range(0, 3 * MS), err)
    });
    rec(Ev::Reset { cx });
    simrt::after(a, Box::new(move || srv_side_down(cx, if err { Some(String::from("connection reset")) } else { None })));
    simrt::after(b, Box::new(move || cli_side_down(cx, End::Reset)));
}
/// The server's transport closes a connection on its own (an idle timeout, say).
pub fn server_close(cx: Cx) {
    SimServerControl::end(cx);
}
/// Both sides are still open.
pub fn is_open(cx: Cx) -> bool {
    with(|w| {
        let c = &w.conns[cx];
        c.srv_up && !c.srv_down && c.cli_up && !c.cli_down
    })
}
fn open(peer: Peer) -> Option<Cx> {
    let r = with(|w| {
        let epoch = match w.server.as_ref() {
            Some(s) if s.listening && !s.gone && !s.cancel && s.down.is_none() => s.epoch,
            _ => return None,
        };
        let cx = w.conns.len();
        let (k1, k2) = (w.rng.next(), w.rng.next());
        let uuid = Uuid::from_u128(((k1 as u128) << 64 | k2 as u128) & !(0xf000u128 << 64) | (0x4000u128 << 64));
        let (f1, f2) = (*w.rng.pick(&w.knobs.frags.clone()), *w.rng.pick(&w.knobs.frags.clone()));
        let lat = w.knobs.lat;
        let (b1, b2) = (w.rng.range(lat.0, lat.1), w.rng.range(lat.0, lat.1));
        let (r1, r2) = (Rng::new(w.rng.next()), Rng::new(w.rng.next()));
        w.conns.push(Conn {
            uuid, peer, epoch, srv_up: false, srv_down: false, cli_up: false, cli_down: false,
            s2c: Pipe::new(f1, b1, r1), c2s: Pipe::new(f2, b2, r2), send_err: false, disc_err: false, write_fail: false, raw: None, foreign: 0, last_answer: None, last_hs: vec![],
        });
        w.by_uuid.insert(uuid, cx);
        let acc = w.knobs.accept;
        let d = w.rng.range(acc.0, acc.1);
        Some((cx, uuid, d, epoch))
    });
    let (cx, uuid, d, epoch) = r?;
    simrt::after(d, Box::new(move || {
        let ok = with(|w| {
            let alive = w.server.as_ref().map(|s| s.epoch == epoch && s.listening && !s.gone && !s.cancel && s.down.is_none()).unwrap_or(false);
            let c = &mut w.conns[cx];
            if c.srv_down || !alive {
                c.srv_down = true;
                false
            } else {
                c.srv_up = true;
                true
            }
        });
        if ok {
            rec(Ev::TUp { cx });
            server_event(server::Events::Connected(uuid));
            release(cx, Dir::C2S);
        } else {
            reset(cx);
        }
    }));
    Some(cx)
}

// ------------------------------------------------------------------ raw clients
pub fn raw_connect(r: usize) -> Option<(Cx, UnboundedReceiver<RawEv>)> {
    let cx = open(Peer::Raw(r))?;
    let (tx, rx) = unbounded_channel();
    let d = with(|w| {
        w.conns[cx].raw = Some(tx);
        let l = w.knobs.link;
        w.rng.range(l.0, l.1)
    });
    simrt::after(d, Box::new(move || {
        let ok = with(|w| {
            let c = &mut w.conns[cx];
            c.cli_up = !c.cli_down;
            if c.cli_up {
                if let Some(tx) = c.raw.as_ref() {
                    let _ = tx.send(RawEv::Up);
                }
            }
            c.cli_up
        });
        if ok {
            rec(Ev::CLinkUp { c: 1000 + r, cx });
            release(cx, Dir::S2C);
        }
    }));
    Some((cx, rx))
}
/// Writes bytes as they are; `well_framed` is false for bytes after which the stream has no framing any more.
pub fn raw_send(cx: Cx, b: &[u8], well_framed: bool) {
    let r = with(|w| {
        let c = &w.conns[cx];
        if c.cli_down {
            None
        } else {
            Some((c.peer, c.c2s.sent))
        }
    });
    if let Some((peer, off)) = r {
        let mut frames = vec![];
        if well_framed {
            let mut p = StreamParser::default();
            p.off = off;
            frames = p.feed(b);
        } else {
            rec(Ev::Desync { cx, dir: Dir::C2S, off });
        }
        rec(Ev::CSend { c: peer.id(), cx: Some(cx), frames, ok: true });
        push(cx, Dir::C2S, b);
    }
}
pub fn raw_close(cx: Cx, clean: bool) {
    if clean {
        if with(|w| !w.conns[cx].cli_down) {
            fin(cx, Dir::C2S);
            cli_side_down(cx, End::Clean);
        }
    } else {
        reset(cx);
    }
}

// ------------------------------------------------------------------ server
pub struct SimServer {
    epoch: u32,
}
#[derive(Clone, Debug)]
pub struct SimServerControl {
    epoch: u32,
}
pub fn new_server(epoch: u32) -> SimServer {
    let (tx, rx) = unbounded_channel();
    with(|w| {
        w.server_epoch = epoch;
        w.server = Some(Server {
            epoch, tx, rx: Some(rx), listening: false, gone: false, cancel: false, down: None, notify: Arc::new(Notify::new()), bind_fails: false,
        })
    });
    SimServer { epoch }
}
pub fn server_down(kind: Down) {
    let ok = with(|w| match w.server.as_mut() {
        Some(s) if s.listening && s.down.is_none() => {
            s.down = Some(kind);
            s.notify.notify_one();
            true
        }
        _ => false,
    });
    if ok {
        rec(Ev::Fault(format!("transport down: {:?}", kind)));
        fault("transport of the producer goes down");
    }
}
fn epoch_conns(epoch: u32) -> Vec<Cx> {
    with(|w| (0..w.conns.len()).filter(|i| w.conns[*i].epoch == epoch && !(w.conns[*i].srv_down && w.conns[*i].cli_down)).collect())
}
/// The whole producer process is gone.
pub fn server_crash() {
    let epoch = with(|w| {
        let e = w.server.as_ref().map(|s| s.epoch);
        if let Some(s) = w.server.as_mut() {
            s.gone = true;
            s.listening = false;
        }
        e
    });
    if let Some(e) = epoch {
        for cx in epoch_conns(e) {
            with(|w| w.conns[cx].srv_down = true);
            reset(cx);
        }
    }
}
struct ListenGuard(u32);
impl Drop for ListenGuard {
    fn drop(&mut self) {
        let e = self.0;
        let alive = simrt::active() && std::panic::catch_unwind(|| with(|w| match w.server.as_mut() {
            Some(s) if s.epoch == e && !s.gone => {
                s.gone = true;
                s.listening = false;
                true
            }
            _ => false,
        })).unwrap_or(false);
        if alive {
            rec(Ev::TEnd { epoch: e });
            for cx in epoch_conns(e) {
                with(|w| w.conns[cx].srv_down = true);
                fin(cx, Dir::S2C);
            }
        }
    }
}
async fn slow_close() {
    let d = with(|w| {
        let m = w.knobs.slow_close;
        if m == 0 { 0 } else { w.rng.range(0, m) }
    });
    if d > 0 {
        fault("transport takes its time to close");
        simrt::sleep(d).await;
    }
}
fn shut_fails() -> bool {
    with(|w| {
        let f = w.knobs.shut_fail;
        f > 0 && w.rng.chance(f)
    })
}
async fn pause() {
    let d = with(|w| {
        let (p, m) = (w.knobs.pause, w.knobs.pause_max);
        if w.rng.chance(p) {
            Some(w.rng.range(0, m))
        } else {
            None
        }
    });
    match d {
        None => {}
        Some(d) if d < 1000 => simrt::yield_now().await,
        Some(d) => simrt::sleep(d).await,
    }
}
#[async_trait]
impl server::Impl<SimErr, SimServerControl> for SimServer {
    async fn listen(&mut self) -> Result<(), SimErr> {
        let epoch = self.epoch;
        rec(Ev::TListen { epoch });
        let bind_fails = with(|w| w.server.as_ref().map(|s| s.bind_fails).unwrap_or(true));
        let _guard = ListenGuard(epoch);
        if bind_fails {
            fault("address cannot be bound");
            let e = SimErr(String::from("cannot bind"));
            transport_error(TErr::Server, None, &e.0);
            rec(Ev::TFail { epoch, what: e.0.clone() });
            return Err(e);
        }
        pause().await;
        server_event(server::Events::Ready);
        let notify = with(|w| {
            let s = w.server.as_mut().unwrap();
            s.listening = true;
            s.notify.clone()
        });
        loop {
            let (cancel, down) = with(|w| {
                let s = w.server.as_ref().unwrap();
                (s.cancel, s.down)
            });
            if cancel {
                pause().await;
                server_event(server::Events::Shutdown);
                pause().await;
                return Ok(());
            }
            if let Some(d) = down {
                let e = SimErr(String::from("listener failed"));
                match d {
                    Down::ErrOut => {
                        transport_error(TErr::Server, None, &e.0);
                        pause().await;
                        rec(Ev::TFail { epoch, what: e.0.clone() });
                        return Err(e);
                    }
                    Down::Clean => {
                        server_event(server::Events::Shutdown);
                        pause().await;
                        return Ok(());
                    }
                    Down::Silent => {
                        rec(Ev::TFail { epoch, what: e.0.clone() });
                        return Err(e);
                    }
                }
            }
            notify.notified().await;
        }
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<SimErr>>, SimErr> {
        with(|w| w.server.as_mut().and_then(|s| s.rx.take())).ok_or_else(|| SimErr(String::from("observer has been taken already")))
    }
    fn control(&self) -> SimServerControl {
        SimServerControl { epoch: self.epoch }
    }
}
impl SimServerControl {
    fn alive(&self) -> bool {
        with(|w| w.server.as_ref().map(|s| s.epoch == self.epoch && !s.gone).unwrap_or(false))
    }
    /// The server ends a connection: it is reported as ended at once, the peer sees a clean close.
    fn end(cx: Cx) {
        fin(cx, Dir::S2C);
        srv_side_down(cx, None);
    }
}
fn foreign(c: usize, cx: Cx) {
    let now = simrt::now();
    let ev = with(|w| {
        let m = match w.clients.get(&c) {
            Some(st) => st.mitm.clone(),
            None => return None,
        };
        if now < m.from || now >= m.until {
            return None;
        }
        let conn = &mut w.conns[cx];
        let r = &mut conn.s2c.rng;
        // each of them keeps the application's handler of errors busy
        if m.foreign == 0 || conn.foreign >= 6 || !r.chance(m.foreign) {
            return None;
        }
        conn.foreign += 1;
        let n = r.below(30) as usize;
        Some((r.below(4), n))
    });
    if let Some((what, n)) = ev {
        let ev = match what {
            0 => client::Event::Message(client::Message::Text(client_error(c, "Unknown", &"t".repeat(n), false).0)),
            1 => client::Event::Message(client::Message::Ping(vec![7; n])),
            2 => client::Event::Message(client::Message::Pong(vec![7; n])),
            _ => client::Event::Error(client_error(c, "Client", "frame ignored", false)),
        };
        fault(match ev {
            client::Event::Error(_) => "transport of a consumer reports an error it survives",
            _ => "message that is no binary one",
        });
        rec(Ev::CForeign { c, cx });
        with(|w| {
            if let Some(st) = w.clients.get(&c) {
                let _ = st.tx.send(ev);
            }
        });
    }
}
fn tampered(w: &mut World, cx: Cx, b: &[u8]) -> (Vec<u8>, Vec<Ev>) {
    let c = match w.conns[cx].peer {
        Peer::Gen(c) => c,
        Peer::Raw(_) => return (b.to_vec(), vec![]),
    };
    let m = match w.clients.get(&c) {
        Some(st) => st.mitm.clone(),
        None => return (b.to_vec(), vec![]),
    };
    let now = simrt::now();
    if now < m.from || now >= m.until {
        return (b.to_vec(), vec![]);
    }
    let mut out = vec![];
    let mut evs = vec![];
    let mut names: Vec<&str> = vec![];
    let mut bad: Vec<u64> = vec![];
    for f in wire::split_frames(b) {
        let k = wire::parse_one(&f, 0).map(|x| x.0.kind).unwrap_or(K::Other);
        let hs = matches!(k, K::ConnectConfirmation | K::SelfKeyResponse | K::HashResponse);
        if hs && !m.handshake {
            out.extend_from_slice(&f);
            w.conns[cx].last_hs.push(f.clone());
        }
        let conn = &mut w.conns[cx];
        if m.again > 0 && conn.s2c.rng.chance(m.again) && !conn.last_hs.is_empty() {
            names.push("message of the handshake repeated");
            let n = conn.s2c.rng.below(conn.last_hs.len() as u64) as usize;
            bad.push(conn.s2c.sent + out.len() as u64);
            out.extend_from_slice(&conn.last_hs[n]);
        }
        if hs && !m.handshake {
            continue;
        }
        let conn = &mut w.conns[cx];
        if !hs && !k.is_broadcast() && k != K::Other {
            conn.last_answer = Some(f.clone());
        }
        let base = conn.s2c.sent;
        let r = &mut conn.s2c.rng;
        if m.delay > 0 && r.chance(m.delay) {
            conn.s2c.extra += r.range(0, m.delay_max);
            names.push("message delayed");
        }
        let r = &mut conn.s2c.rng;
        if r.chance(m.unknown) {
            names.push("unknown message injected");
            let n = r.below(40);
            let mut x = wire::header(0x7fff_0000 + r.below(1000) as u32, r.next() as u16, if r.chance(500) { 0 } else { r.below(50) as u32 }, n);
            for _ in 0..n {
                x.push(r.next() as u8);
            }
            bad.push(base + out.len() as u64);
            out.extend_from_slice(&x);
        }
        if r.chance(m.unsolicited) {
            if let Some(a) = conn.last_answer.clone() {
                names.push("unsolicited answer injected");
                let mut a = a;
                let s: u32 = r.range(100_000, 200_000) as u32;
                a[6..10].copy_from_slice(&s.to_le_bytes());
                bad.push(base + out.len() as u64);
                out.extend_from_slice(&a);
            }
        }
        if r.chance(m.badbody) {
            // a known message with a body that does not decode or a foreign signature
            names.push("undecodable message injected");
            let mut x = f.clone();
            if r.chance(500) && x.len() > wire::HEADER + 3 {
                x[wire::HEADER + 2] = 0x77;
            } else {
                x[4] ^= 0x5a;
            }
            let s: u32 = r.range(100_000, 200_000) as u32;
            x[6..10].copy_from_slice(&s.to_le_bytes());
            bad.push(base + out.len() as u64);
            out.extend_from_slice(&x);
        }
        if r.chance(m.drop) {
            names.push("message lost");
            continue;
        }
        out.extend_from_slice(&f);
        if r.chance(m.dup) {
            names.push("message duplicated");
            out.extend_from_slice(&f);
        }
        if r.chance(m.garbage) {
            names.push("garbage injected");
            evs.push(Ev::Desync { cx, dir: Dir::S2C, off: base + out.len() as u64 });
            let n = r.range(1, 60);
            for _ in 0..n {
                out.push(r.next() as u8);
            }
        }
    }
    for n in names {
        *w.faults.entry(n.to_string()).or_insert(0) += 1;
    }
    for b in bad {
        w.bad_s2c.insert((cx, b));
    }
    (out, evs)
}
#[async_trait]
impl server::Control<SimErr> for SimServerControl {
    async fn shutdown(&self) -> Result<(), SimErr> {
        rec(Ev::TShutdown { epoch: self.epoch });
        pause().await;
        if !self.alive() {
        }
        if shut_fails() {
            fault("transport of the producer fails to shut down");
            return Err(SimErr(String::from("cannot shut down")));
        }
        slow_close().await;
        for cx in epoch_conns(self.epoch) {
            SimServerControl::end(cx);
        }
        pause().await;
        with(|w| {
            if let Some(s) = w.server.as_mut() {
                if s.epoch == self.epoch {
                    s.cancel = true;
                    s.notify.notify_one();
                }
            }
        });
        Ok(())
    }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), SimErr> {
        let cx = client.and_then(|u| with(|w| w.by_uuid.get(&u).copied()));
        let mut p = StreamParser::default();
        let frames = p.feed(&buffer);
        let tail = p.pending();
        let err = !self.alive()
            || with(|w| match cx {
                Some(cx) => w.conns[cx].send_err || (w.knobs.strict_send && w.conns[cx].srv_down),
                None => w.knobs.strict_send && client.is_some(),
            });
        rec(Ev::TSend { cx, frames, tail, err, all: client.is_none() });
        if err {
            fault("send to a client fails");
            pause().await;
            return Err(SimErr(String::from("cannot send")));
        }
        let targets: Vec<Cx> = match (client, cx) {
            (None, _) => epoch_conns(self.epoch),
            (Some(_), Some(cx)) => vec![cx],
            _ => vec![],
        };
        for cx in targets {
            let (wf, down) = with(|w| {
                let c = &mut w.conns[cx];
                (std::mem::replace(&mut c.write_fail, false), c.srv_down)
            });
            if down {
                continue;
            }
            if wf {
                fault("write to a client fails after it was accepted");
                with(|w| {
                    let c = &mut w.conns[cx];
                    c.c2s.dropped = true;
                    c.s2c.dropped = true;
                    w.tainted.insert(cx);
                });
                rec(Ev::Reset { cx });
                simrt::after(10 * US, Box::new(move || srv_side_down(cx, Some(String::from("broken pipe")))));
                simrt::after(500 * US, Box::new(move || cli_side_down(cx, End::Reset)));
                continue;
            }
            let (out, evs) = with(|w| tampered(w, cx, &buffer));
            for e in evs {
                rec(e);
            }
            push(cx, Dir::S2C, &out);
        }
        pause().await;
        Ok(())
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), SimErr> {
        let cx = with(|w| w.by_uuid.get(&client).copied());
        let err = !self.alive() || cx.map(|cx| with(|w| w.conns[cx].disc_err)).unwrap_or(false);
        rec(Ev::TDisconnect { cx, err });
        pause().await;
        if err {
            fault("disconnecting a client fails");
            return Err(SimErr(String::from("cannot disconnect")));
        }
        match cx {
            Some(cx) if with(|w| !w.conns[cx].srv_down) => SimServerControl::end(cx),
            _ => transport_error(TErr::Server, None, &format!("no client {}", client)),
        }
        pause().await;
        Ok(())
    }
    async fn disconnect_all(&self) -> Result<(), SimErr> {
        if !self.alive() {
            return Err(SimErr(String::from("server is gone")));
        }
        for cx in epoch_conns(self.epoch) {
            SimServerControl::end(cx);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ generated clients
pub struct SimClient {
    c: usize,
}
#[derive(Clone, Debug)]
pub struct SimClientControl {
    c: usize,
    gen: u32,
}
pub fn new_client(c: usize) -> SimClient {
    let (tx, rx) = unbounded_channel();
    with(|w| {
        w.clients.insert(c, ClientSt {
            gen: 0, tx, rx: Some(rx), notify: Arc::new(Notify::new()), cx: None, linked: false, outq: vec![], want_shutdown: false,
            waiters: vec![], end: None, send_err: false, refuse_until: 0, refuse_next: 0, hang_until: 0, mitm: Mitm::default(), raw_wait: false, busy: false,
        })
    });
    SimClient { c }
}
fn st<R>(c: usize, f: impl FnOnce(&mut ClientSt) -> R) -> R {
    with(|w| f(w.clients.get_mut(&c).expect("client")))
}
fn reinit(c: usize, ok: bool) {
    let waiters = st(c, |s| {
        let (tx, rx) = unbounded_channel();
        s.gen += 1;
        s.tx = tx;
        s.rx = Some(rx);
        s.notify = Arc::new(Notify::new());
        s.cx = None;
        s.linked = false;
        s.outq.clear();
        s.want_shutdown = false;
        s.end = None;
        s.busy = false;
        std::mem::take(&mut s.waiters)
    });
    for w in waiters {
        let _ = w.send(ok);
    }
}
struct ConnectGuard {
    c: usize,
    gen: u32,
    done: bool,
}
impl Drop for ConnectGuard {
    fn drop(&mut self) {
        if self.done || !simrt::active() {
            return;
        }
        // the future of `connect` was dropped: the socket is closed
        let (c, gen) = (self.c, self.gen);
        let cx = match std::panic::catch_unwind(|| with(|w| match w.clients.get(&c) {
            Some(s) if s.gen == gen => Some(s.cx),
            _ => None,
        })) {
            Ok(Some(cx)) => cx,
            _ => return,
        };
        if let Some(cx) = cx {
            if with(|w| !w.conns[cx].cli_down) {
                fin(cx, Dir::C2S);
                with(|w| w.conns[cx].cli_down = true);
                rec(Ev::CLinkDown { c, cx, clean: true });
            }
        }
        reinit(c, false);
    }
}
#[async_trait]
impl client::Impl<SimErr, SimClientControl> for SimClient {
    async fn connect(&mut self) -> Result<(), SimErr> {
        let c = self.c;
        rec(Ev::CAttempt { c });
        let gen = st(c, |s| {
            s.busy = true;
            s.gen
        });
        let mut guard = ConnectGuard { c, gen, done: false };
        let (d, hang) = with(|w| {
            let l = w.knobs.lat;
            (w.rng.range(l.0, l.1), w.clients[&c].hang_until)
        });
        simrt::sleep(d).await;
        if hang > simrt::now() {
            fault("connection attempt hangs");
            simrt::sleep_until(hang).await;
        }
        let refused = st(c, |s| {
            if s.refuse_next > 0 {
                s.refuse_next -= 1;
                true
            } else {
                s.refuse_until > simrt::now()
            }
        });
        let cx = if refused { None } else { open(Peer::Gen(c)) };
        let cx = match cx {
            Some(cx) => cx,
            None => {
                fault("connection attempt refused");
                rec(Ev::CRefused { c });
                let e = client_error(c, "Client", "connection refused", false);
                st(c, |s| {
                    let _ = s.tx.send(client::Event::Error(e));
                });
                pause().await;
                guard.done = true;
                reinit(c, false);
                return Err(client_error(c, "Client", "connection refused", true));
            }
        };
        st(c, |s| s.cx = Some(cx));
        let d = with(|w| {
            let l = w.knobs.link;
            w.rng.range(l.0, l.1)
        });
        simrt::sleep(d).await;
        let up = with(|w| {
            let k = &mut w.conns[cx];
            k.cli_up = !k.cli_down;
            k.cli_up
        });
        if up {
            rec(Ev::CLinkUp { c, cx });
            let out = st(c, |s| {
                s.linked = true;
                let _ = s.tx.send(client::Event::Connected(SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 8080)));
                std::mem::take(&mut s.outq)
            });
            for b in out {
                client_push(c, cx, &b);
            }
            release(cx, Dir::S2C);
        }
        let notify = st(c, |s| s.notify.clone());
        let how = loop {
            let (end, want) = st(c, |s| (s.end, s.want_shutdown));
            if let Some(e) = end {
                break Some(e);
            }
            if want {
                break None;
            }
            notify.notified().await;
        };
        match how {
            Some(End::Clean) => {
                st(c, |s| {
                    let _ = s.tx.send(client::Event::Disconnected);
                });
                pause().await;
                guard.done = true;
                reinit(c, true);
                Ok(())
            }
            Some(End::Reset) => {
                let e = client_error(c, "Client", "connection lost", false);
                st(c, |s| {
                    let _ = s.tx.send(client::Event::Error(e));
                    let _ = s.tx.send(client::Event::Disconnected);
                });
                pause().await;
                guard.done = true;
                reinit(c, true);
                Err(client_error(c, "Client", "connection lost", true))
            }
            None => {
                slow_close().await;
                if with(|w| !w.conns[cx].cli_down) {
                    fin(cx, Dir::C2S);
                    with(|w| w.conns[cx].cli_down = true);
                    rec(Ev::CLinkDown { c, cx, clean: true });
                }
                st(c, |s| {
                    let _ = s.tx.send(client::Event::Disconnected);
                });
                pause().await;
                guard.done = true;
                reinit(c, true);
                Ok(())
            }
        }
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<SimErr>>, SimErr> {
        Ok(st(self.c, |s| match s.rx.take() {
            Some(rx) => rx,
            None => {
                let (tx, rx) = unbounded_channel();
                s.tx = tx;
                rx
            }
        }))
    }
    fn control(&self) -> SimClientControl {
        SimClientControl { c: self.c, gen: st(self.c, |s| s.gen) }
    }
}
fn client_push(c: usize, cx: Cx, b: &[u8]) {
    let bad = st(c, |s| s.mitm.bad_hash);
    let mut out = vec![];
    for mut f in wire::split_frames(b) {
        if bad != 0 {
            if let Some((h, _)) = wire::parse_one(&f, 0) {
                if h.kind == K::HashRequest {
                    fault("foreign hash presented");
                    corrupt_hash(&mut f, bad);
                }
            }
        }
        out.extend_from_slice(&f);
    }
    push(cx, Dir::C2S, &out);
}
/// Ways in which a foreign hash differs from the own one.
pub const HASH_WAYS: u64 = 9;
/// Spoils the hashes of a HashRequest frame: bits 0 and 1 of `which` choose them, the other bits the way.
pub fn corrupt_hash(f: &mut Vec<u8>, which: u8) {
    let way = which >> 2;
    let mut v: Vec<(u16, Vec<u8>)> = match wire::entries(&f[wire::HEADER..]) {
        Some(e) if e.len() == 2 => e.iter().map(|x| (x.0, x.1.to_vec())).collect(),
        _ => return,
    };
    if way == 8 {
        let t = v[0].1.clone();
        v[0].1 = v[1].1.clone();
        v[1].1 = t;
    }
    for (n, (_, h)) in v.iter_mut().enumerate() {
        if which & (1 << n) == 0 || h.is_empty() {
            continue;
        }
        let flip = |x: u8| if x == b'0' { b'1' } else { b'0' };
        let last = h.len() - 1;
        match way {
            0 => h[last] = flip(h[last]),
            1 => h[0] = flip(h[0]),
            2 => {
                let t = String::from_utf8_lossy(h).into_owned();
                let l = t.to_lowercase();
                *h = if l == t { t.to_uppercase().into_bytes() } else { l.into_bytes() };
                if h[..] == *t.as_bytes() {
                    h[last] = flip(h[last]);
                }
            }
            3 => h.truncate(h.len() / 2),
            4 => h.truncate(last),
            5 => h.clear(),
            6 => h.push(b' '),
            7 => h.insert(0, b' '),
            _ => {}
        }
    }
    let body: Vec<u8> = v.iter().flat_map(|x| wire::entry(x.0, &x.1)).collect();
    f.truncate(wire::HEADER);
    f[wire::HEADER - 8..].copy_from_slice(&(body.len() as u64).to_le_bytes());
    f.extend_from_slice(&body);
}
#[async_trait]
impl client::Control<SimErr> for SimClientControl {
    async fn shutdown(&self) -> Result<(), SimErr> {
        rec(Ev::CTShutdown { c: self.c });
        if shut_fails() {
            fault("transport of a consumer fails to shut down");
            pause().await;
            return Err(SimErr(String::from("cannot shut down")));
        }
        let (tx, rx) = oneshot::channel();
        let ok = st(self.c, |s| {
            if s.gen != self.gen {
                return false;
            }
            s.want_shutdown = true;
            s.waiters.push(tx);
            s.notify.notify_one();
            true
        });
        if !ok {
            return Err(SimErr(String::from("client is gone")));
        }
        match rx.await {
            Ok(true) => Ok(()),
            _ => Err(SimErr(String::from("client is gone"))),
        }
    }
    async fn send(&self, msg: client::Message) -> Result<(), SimErr> {
        let b = match msg {
            client::Message::Binary(b) => b,
            _ => vec![],
        };
        let mut p = StreamParser::default();
        let frames = p.feed(&b);
        let (ok, cx, linked) = st(self.c, |s| (s.gen == self.gen && s.end.is_none() && !s.send_err, s.cx, s.linked));
        rec(Ev::CSend { c: self.c, cx, frames, ok });
        if !ok {
            return Err(SimErr(String::from("client is gone")));
        }
        match cx {
            Some(cx) if linked => client_push(self.c, cx, &b),
            _ => st(self.c, |s| s.outq.push(b)),
        }
        Ok(())
    }
}
#[allow(dead_code)]
pub fn client_map() -> HashMap<usize, Option<Cx>> {
    with(|w| w.clients.iter().map(|(k, v)| (*k, v.cx)).collect())
}
