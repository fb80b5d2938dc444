//! What the application around the generated peers does and sees.
use crate::cons::implementation as c;
use crate::net::{NetCtl, NetErr};
use crate::prod::implementation::consumer::identification::{Filter, Identification};
use crate::prod::implementation::producer::Control;
use crate::prod::implementation::protocol as pp;
use std::any::Any;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;
use std::time::Duration;
use uuid::Uuid;

pub const CONN: u64 = 1 << 40;
pub const OBSERVER: u64 = 1 << 41;
pub const RECONNECT: u64 = 1 << 42;
/// added to the op of a broadcast: pause of the consumer's handler
pub const CONS: u64 = 1 << 43;
pub type Ctl = Control<NetErr, NetCtl>;
pub type Api = c::controller::Consumer<NetErr>;

#[derive(Default)]
pub struct App {
    pub log: Vec<(u64, String)>,
    pub slow: HashMap<u64, u64>,
    pub failing: HashSet<u64>,
    pub names: HashMap<Uuid, String>,
    pub kept: Vec<Identification>,
    pub values: Vec<pp::Echo>,
    pub ctl: Option<Ctl>,
    pub look: Option<fn(&Filter<'_>)>,
    pub announce: Option<fn(&Identification, &Filter<'_>) -> Option<Vec<Uuid>>>,
    pub act: Option<fn(&Identification, u64)>,
    pub probe: Option<fn()>,
}
static APP: Mutex<Option<App>> = Mutex::new(None);
static ZERO: Mutex<Option<tokio::time::Instant>> = Mutex::new(None);
pub fn app<R>(f: impl FnOnce(&mut App) -> R) -> R {
    f(APP.lock().unwrap().get_or_insert_with(App::default))
}
/// virtual milliseconds since the start
pub fn now() -> u64 {
    let z = *ZERO.lock().unwrap().get_or_insert_with(tokio::time::Instant::now);
    (tokio::time::Instant::now() - z).as_millis() as u64
}
pub fn log(s: String) {
    let t = now();
    app(|a| a.log.push((t, s)));
}
pub fn lines() -> Vec<String> {
    app(|a| a.log.iter().map(|l| l.1.clone()).collect())
}
pub fn count(s: &str) -> usize {
    lines().iter().filter(|l| l.as_str() == s).count()
}
/// Position of a line, which has to be there.
pub fn at(s: &str) -> usize {
    lines().iter().position(|l| l == s).unwrap_or_else(|| panic!("`{}` did not happen: {:#?}", s, lines()))
}
pub fn name(u: Uuid) -> String {
    app(|a| a.names.get(&u).cloned().unwrap_or_else(|| String::from("?")))
}
pub fn who(i: &Identification) -> String {
    name(i.uuid())
}
pub fn keep(i: &Identification) {
    app(|a| a.kept.push(i.clone()));
}
pub fn look(f: &Filter<'_>) {
    if let Some(g) = app(|a| a.look) {
        g(f);
    }
}
pub fn announce(i: &Identification, f: &Filter<'_>) -> Option<Vec<Uuid>> {
    app(|a| a.announce).and_then(|g| g(i, f))
}
pub fn act(i: &Identification, op: u64) {
    if let Some(g) = app(|a| a.act) {
        g(i, op);
    }
}
/// Called by deferred work.
pub fn probe() {
    if let Some(g) = app(|a| a.probe) {
        g();
    }
}
pub fn value(e: pp::Echo) {
    app(|a| a.values.push(e));
}
pub fn fails(op: u64) -> bool {
    app(|a| a.failing.contains(&op))
}
pub async fn pause(op: u64) {
    if let Some(ms) = app(|a| a.slow.get(&op).copied()) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
}
pub fn ready(c: Box<dyn Any>) {
    log(String::from("ready"));
    let c = c.downcast::<Ctl>().expect("control");
    app(|a| a.ctl = Some(*c));
}
pub fn ctl() -> Ctl {
    app(|a| a.ctl.clone()).expect("producer is ready")
}
