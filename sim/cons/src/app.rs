use crate::gen::{Consumer, ConsumerError};
use clibri::client;
use simworld::hist::*;
use simworld::net::SimErr;
use simworld::wire::K;
use simworld::{plan, rec, with};

async fn pause(d: u64) {
    match d {
        0 => {}
        1 => simrt::yield_now().await,
        d => simrt::sleep(d).await,
    }
}
/// Delays of the application's handlers: reproducible from the client's settings and a counter.
fn delay(c: usize, broadcast: bool) -> u64 {
    with(|w| {
        let cfg = w.client_cfg.get(&c).cloned().unwrap_or_default();
        let d = if broadcast { cfg.bc_delay } else { cfg.ev_delay };
        match w.rng.below(4) {
            0 => d,
            1 => w.rng.range(0, d),
            2 => d.min(1),
            _ => 0,
        }
    })
}
pub async fn event(e: Ev, c: usize) {
    rec(e);
    let d = delay(c, false);
    pause(d).await;
}
pub async fn connected<E: client::Error>(c: usize, consumer: Consumer<E>) {
    rec(Ev::CConnected { c });
    let d = delay(c, false);
    pause(d).await;
    inner(c, consumer, 1).await;
}
/// A call made from inside a handler of the consumer.
async fn inner<E: client::Error>(c: usize, consumer: Consumer<E>, salt: u64) {
    let op = with(|w| {
        if w.inner_calls && w.rng.chance(250) {
            let n = w.new_inner_op();
            Some((n, *w.rng.pick(&[K::Quick, K::Ping, K::Multi])))
        } else {
            None
        }
    });
    if let Some((op, k)) = op {
        call(c, consumer, k, op).await;
    }
}
pub async fn broadcast<E: client::Error>(c: usize, kind: K, bid: u64, intact: bool, consumer: Consumer<E>) {
    rec(Ev::CBroadcast { c, kind, bid, intact });
    let d = delay(c, true);
    pause(d).await;
    inner(c, consumer, bid).await;
    rec(Ev::CBroadcastEnd { c, bid });
}
pub async fn reconnect(c: usize, timeout: u64) -> bool {
    let yes = with(|w| {
        let cfg = w.client_cfg.entry(c).or_default();
        cfg.reconnects += 1;
        cfg.refuse_reconnect_at == 0 || cfg.reconnects < cfg.refuse_reconnect_at
    });
    rec(Ev::CReconnect { c, timeout, yes });
    yes
}
pub struct CallGuard {
    c: usize,
    op: u64,
    done: bool,
}
impl Drop for CallGuard {
    fn drop(&mut self) {
        if !self.done && simrt::active() {
            rec(Ev::CDrop { c: self.c, op: self.op });
        }
    }
}
pub fn conv<E: client::Error>(e: ConsumerError<E>) -> CallRes {
    match e {
        ConsumerError::Timeout => CallRes::Timeout,
        ConsumerError::Broadcast(s) => CallRes::BeaconErr(s),
        e => CallRes::Err(e.to_string()),
    }
}
/// A call on a consumer whose session is over.
pub async fn stale<E: client::Error>(consumer: Consumer<E>, op: u64) -> CallRes {
    crate::calls::ask(K::Ping, consumer, op, 0).await
}
/// One call on a consumer; recorded from start to end.
pub async fn call<E: client::Error>(c: usize, consumer: Consumer<E>, kind: K, op: u64) -> CallRes {
    rec(Ev::CCall { c, kind, op });
    let mut g = CallGuard { c, op, done: false };
    let big = plan(op).big;
    let res = crate::calls::ask(kind, consumer, op, big).await;
    g.done = true;
    rec(Ev::CRet { c, op, res: res.clone() });
    res
}
