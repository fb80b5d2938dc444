//! A network in memory: clients of a producer driven byte by byte, servers of a consumer driven byte by byte,
//! or both generated peers linked to each other.
use crate::app;
use crate::cons::implementation::protocol as cp;
use async_trait::async_trait;
use clibri::{client, server};
use cp::{PackingStruct, StructEncode};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::sync::Notify;
use uuid::Uuid;

#[derive(Clone, Debug, thiserror::Error)]
#[error("{0}")]
pub struct NetErr(pub String);
impl server::Error for NetErr {}
impl client::Error for NetErr {}

#[derive(Clone, Debug)]
pub struct Frame {
    pub t: u64,
    pub id: u32,
    pub seq: u32,
    pub body: Vec<u8>,
    pub bytes: Vec<u8>,
}
fn frames(t: u64, mut b: &[u8]) -> Vec<Frame> {
    let mut v = vec![];
    while b.len() >= 26 {
        let n = |a: usize, z: usize| b[a..z].iter().rev().fold(0u64, |s, x| s << 8 | *x as u64);
        let (id, seq, len) = (n(0, 4) as u32, n(6, 10) as u32, n(18, 26) as usize);
        v.push(Frame { t, id, seq, body: b[26..26 + len].to_vec(), bytes: b[..26 + len].to_vec() });
        b = &b[26 + len..];
    }
    v
}
#[derive(Default)]
pub struct Conn {
    /// what the producer sent
    pub got: Vec<Frame>,
    /// what the consumer sent
    pub sent: Vec<Frame>,
    pub closed: bool,
    client: Option<(UnboundedSender<client::Event<NetErr>>, Arc<Notify>)>,
}
#[derive(Default)]
pub struct Net {
    pub server: Option<UnboundedSender<server::Events<NetErr>>>,
    pub conns: HashMap<Uuid, Conn>,
    pub order: Vec<Uuid>,
    pub fail_send: HashSet<Uuid>,
    pub fail_close: HashSet<Uuid>,
    pub refuse: usize,
    pub stopped: bool,
    pub failed: bool,
    stop: Option<Arc<Notify>>,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
pub fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    f(NET.lock().unwrap().get_or_insert_with(Net::default))
}
fn to_server(e: server::Events<NetErr>) {
    net(|n| {
        if let Some(tx) = &n.server {
            let _ = tx.send(e);
        }
    });
}
pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}

// ---- the producer's side
pub struct Server {
    stop: Arc<Notify>,
    rx: Option<UnboundedReceiver<server::Events<NetErr>>>,
}
#[derive(Clone)]
pub struct NetCtl {
    stop: Arc<Notify>,
}
impl Server {
    pub fn new() -> Self {
        let (tx, rx) = unbounded_channel();
        net(|n| n.server = Some(tx));
        let stop = Arc::new(Notify::new());
        net(|n| n.stop = Some(stop.clone()));
        Server { stop, rx: Some(rx) }
    }
}
#[async_trait]
impl server::Impl<NetErr, NetCtl> for Server {
    async fn listen(&mut self) -> Result<(), NetErr> {
        to_server(server::Events::Ready);
        self.stop.notified().await;
        net(|n| n.stopped = true);
        if net(|n| n.failed) {
            return Err(NetErr(String::from("address is gone")));
        }
        to_server(server::Events::Shutdown);
        Ok(())
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<NetErr>>, NetErr> {
        self.rx.take().ok_or_else(|| NetErr(String::from("taken")))
    }
    fn control(&self) -> NetCtl {
        NetCtl { stop: self.stop.clone() }
    }
}
#[async_trait]
impl server::Control<NetErr> for NetCtl {
    async fn shutdown(&self) -> Result<(), NetErr> {
        self.stop.notify_one();
        Ok(())
    }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), NetErr> {
        let t = app::now();
        net(|n| {
            let u = client.ok_or_else(|| NetErr(String::from("no address")))?;
            if n.fail_send.contains(&u) {
                return Err(NetErr(String::from("broken pipe")));
            }
            let c = n.conns.get_mut(&u).filter(|c| !c.closed).ok_or_else(|| NetErr(String::from("no such client")))?;
            c.got.extend(frames(t, &buffer));
            if let Some((tx, _)) = &c.client {
                let _ = tx.send(client::Event::Message(client::Message::Binary(buffer)));
            }
            Ok(())
        })
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), NetErr> {
        if net(|n| n.fail_close.contains(&client)) {
            return Err(NetErr(String::from("cannot disconnect")));
        }
        close(client);
        Ok(())
    }
    async fn disconnect_all(&self) -> Result<(), NetErr> {
        for u in net(|n| n.order.clone()) {
            close(u);
        }
        Ok(())
    }
}
/// The transport of the producer fails.
pub fn fail_transport() {
    net(|n| {
        n.failed = true;
        n.stop.as_ref().expect("server").notify_one();
    });
}
fn fresh(tag: &str, client: Option<(UnboundedSender<client::Event<NetErr>>, Arc<Notify>)>) -> Uuid {
    let u = Uuid::new_v4();
    net(|n| {
        n.conns.insert(u, Conn { client, ..Conn::default() });
        n.order.push(u);
    });
    app::app(|a| a.names.insert(u, tag.to_string()));
    to_server(server::Events::Connected(u));
    u
}
/// A client of the producer.
pub fn open(tag: &str) -> Uuid {
    fresh(tag, None)
}
pub fn bytes(u: Uuid, b: &[u8]) {
    to_server(server::Events::Received(u, b.to_vec()));
}
/// The connection ends, whoever ended it.
pub fn close(u: Uuid) {
    let c = net(|n| match n.conns.get_mut(&u) {
        Some(c) if !c.closed => {
            c.closed = true;
            Some(c.client.take())
        }
        _ => None,
    });
    if let Some(c) = c {
        to_server(server::Events::Disconnected(u));
        if let Some((_, n)) = c {
            n.notify_one();
        }
    }
}
pub fn is_closed(u: Uuid) -> bool {
    net(|n| n.conns[&u].closed)
}
pub fn got(u: Uuid) -> Vec<Frame> {
    net(|n| n.conns[&u].got.clone())
}
pub fn sent(u: Uuid) -> Vec<Frame> {
    net(|n| n.conns[&u].sent.clone())
}
pub fn own(tag: &str, rank: u32) -> cp::Keys::Own {
    cp::Keys::Own { name: tag.to_string(), rank, note: None }
}
pub fn key(tag: &str, rank: u32, seq: u32) -> Vec<u8> {
    own(tag, rank).pack(seq, None).unwrap()
}
pub fn hashes(seq: u32) -> Vec<u8> {
    use crate::cons::implementation::consumer::hash;
    hashes_of(hash::PROTOCOL, hash::WORKFLOW, seq)
}
pub fn hashes_of(p: &str, w: &str, seq: u32) -> Vec<u8> {
    cp::InternalServiceGroup::HashRequest { protocol: p.to_string(), workflow: w.to_string() }.pack(seq, None).unwrap()
}
pub fn hello(op: u64, text: &str, seq: u32) -> Vec<u8> {
    cp::Hello { op, text: text.to_string() }.pack(seq, None).unwrap()
}
pub fn ping(op: u64, seq: u32) -> Vec<u8> {
    cp::Ping { op }.pack(seq, None).unwrap()
}
/// A client with the handshake done.
pub async fn join(tag: &str, rank: u32) -> Uuid {
    let u = open(tag);
    ms(2).await;
    bytes(u, &key(tag, rank, 1));
    bytes(u, &hashes(2));
    ms(2).await;
    u
}
fn ids() -> HashMap<&'static str, u32> {
    let mut m = HashMap::new();
    m.insert("World", cp::World { op: 0, text: String::new() }.get_id());
    m.insert("Moon", cp::Moon { op: 0 }.get_id());
    m.insert("Fail", cp::Errors::Fail { op: 0, error: String::new() }.get_id());
    m.insert("Note", cp::Note { op: 0, text: String::new() }.get_id());
    m.insert("Memo", cp::Memo { op: 0 }.get_id());
    m.insert("Hello", cp::Hello { op: 0, text: String::new() }.get_id());
    m.insert("Ping", cp::Ping { op: 0 }.get_id());
    m.insert("Own", own("", 0).get_id());
    m.insert("Confirm", cp::InternalServiceGroup::ConnectConfirmationBeacon { }.get_id());
    m.insert("KeyAnswer", cp::InternalServiceGroup::SelfKeyResponse { uuid: String::new() }.get_id());
    m.insert("HashAnswer", cp::InternalServiceGroup::HashResponse { error: None }.get_id());
    m.insert("HashRequest", cp::InternalServiceGroup::HashRequest { protocol: String::new(), workflow: String::new() }.get_id());
    m.insert("Confirmation", cp::InternalServiceGroup::BeaconConfirmation { error: None }.get_id());
    m
}
/// "Name op" of a message whose first field is an op, "Name" of the others.
pub fn show(f: &Frame) -> String {
    let m = ids();
    let name = m.iter().find(|x| *x.1 == f.id).map(|x| *x.0).unwrap_or("?");
    let inner = matches!(name, "Own" | "Confirm" | "KeyAnswer" | "HashAnswer" | "HashRequest" | "Confirmation" | "?");
    if inner || f.body.len() < 12 {
        name.to_string()
    } else {
        format!("{} {}", name, f.body[4..12].iter().rev().fold(0u64, |s, x| s << 8 | *x as u64))
    }
}
/// What the producer sent to a client after the handshake.
pub fn seen(u: Uuid) -> Vec<String> {
    got(u).iter().map(show).filter(|s| !matches!(s.as_str(), "Confirm" | "KeyAnswer" | "HashAnswer")).collect()
}
pub fn wait_for_line(s: &'static str) -> impl std::future::Future<Output = ()> {
    async move {
        for _ in 0..10_000 {
            if app::count(s) > 0 {
                return;
            }
            ms(1).await;
        }
        panic!("`{}` did not happen: {:#?}", s, app::lines());
    }
}

// ---- the consumer's side
pub struct Client {
    tag: String,
    tx: Arc<Mutex<Option<UnboundedSender<client::Event<NetErr>>>>>,
    cur: Arc<Mutex<Option<Uuid>>>,
}
#[derive(Clone)]
pub struct ClientCtl {
    cur: Arc<Mutex<Option<Uuid>>>,
}
impl Client {
    pub fn new(tag: &str) -> Self {
        Client { tag: tag.to_string(), tx: Arc::new(Mutex::new(None)), cur: Arc::new(Mutex::new(None)) }
    }
}
#[async_trait]
impl client::Impl<NetErr, ClientCtl> for Client {
    async fn connect(&mut self) -> Result<(), NetErr> {
        app::log(format!("{}: connecting", self.tag));
        let refused = net(|n| {
            let r = n.refuse > 0;
            n.refuse -= r as usize;
            r
        });
        if refused {
            return Err(NetErr(String::from("refused")));
        }
        let tx = self.tx.lock().unwrap().clone().expect("observed");
        let end = Arc::new(Notify::new());
        let u = fresh(&self.tag, Some((tx.clone(), end.clone())));
        *self.cur.lock().unwrap() = Some(u);
        let _ = tx.send(client::Event::Connected("127.0.0.1:1".parse().unwrap()));
        end.notified().await;
        *self.cur.lock().unwrap() = None;
        let _ = tx.send(client::Event::Disconnected);
        Ok(())
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<NetErr>>, NetErr> {
        let (tx, rx) = unbounded_channel();
        *self.tx.lock().unwrap() = Some(tx);
        Ok(rx)
    }
    fn control(&self) -> ClientCtl {
        ClientCtl { cur: self.cur.clone() }
    }
}
#[async_trait]
impl client::Control<NetErr> for ClientCtl {
    async fn shutdown(&self) -> Result<(), NetErr> {
        let u = *self.cur.lock().unwrap();
        if let Some(u) = u {
            close(u);
        }
        Ok(())
    }
    async fn send(&self, msg: client::Message) -> Result<(), NetErr> {
        let u = (*self.cur.lock().unwrap()).ok_or_else(|| NetErr(String::from("not connected")))?;
        if let client::Message::Binary(b) = msg {
            let t = app::now();
            net(|n| n.conns.get_mut(&u).unwrap().sent.extend(frames(t, &b)));
            bytes(u, &b);
        }
        Ok(())
    }
}
/// The latest connection of a consumer.
pub fn latest(tag: &str) -> Option<Uuid> {
    net(|n| n.order.iter().rev().copied().find(|u| app::name(*u) == tag))
}
/// Bytes to a consumer from a scripted server.
pub fn push(u: Uuid, b: &[u8]) {
    net(|n| {
        if let Some((tx, _)) = &n.conns[&u].client {
            let _ = tx.send(client::Event::Message(client::Message::Binary(b.to_vec())));
        }
    });
}
pub fn push_text(u: Uuid, s: &str) {
    net(|n| {
        if let Some((tx, _)) = &n.conns[&u].client {
            let _ = tx.send(client::Event::Message(client::Message::Text(s.to_string())));
        }
    });
}
/// A scripted server: does the handshake with a consumer that has connected.
pub async fn welcome(tag: &str) -> Uuid {
    ms(2).await;
    let u = latest(tag).expect("connected");
    push(u, &cp::InternalServiceGroup::ConnectConfirmationBeacon { }.pack(0, None).unwrap());
    ms(2).await;
    let s = sent(u);
    let k = s.iter().find(|f| show(f).starts_with("Own")).expect("key").seq;
    push(u, &cp::InternalServiceGroup::SelfKeyResponse { uuid: u.to_string() }.pack(k, None).unwrap());
    ms(2).await;
    let s = sent(u);
    let k = s.iter().find(|f| show(f).starts_with("HashRequest")).expect("hashes").seq;
    push(u, &cp::InternalServiceGroup::HashResponse { error: None }.pack(k, None).unwrap());
    ms(2).await;
    u
}
/// Errors the transports report.
pub fn push_error(u: Uuid, s: &str) {
    net(|n| {
        if let Some((tx, _)) = &n.conns[&u].client {
            let _ = tx.send(client::Event::Error(NetErr(s.to_string())));
        }
    });
}
pub fn server_error(u: Option<Uuid>, s: &str) {
    to_server(server::Events::ConnectionError(u, NetErr(s.to_string())));
}
