//! Executes one scenario.
use crate::plan::*;
use crate::raw;
use simrt::{Cfg, Rng, Stop, MS, SEC};
use simworld::hist::*;
use simworld::net::{self, Down, SimErr};
use simworld::wire::K;
use simworld::{rec, with, OpPlan, World};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub struct Run {
    pub hist: Vec<Rec>,
    pub tainted: BTreeSet<Cx>,
    pub bad_c2s: HashSet<(Cx, u64)>,
    pub bad_s2c: HashSet<(Cx, u64)>,
    pub keys_sent: HashMap<(Cx, u32), KeyV>,
    pub peers: Vec<(usize, u32)>,
    pub faults: BTreeMap<String, u64>,
    pub rendered: Vec<String>,
    pub stop: Stop,
    pub steps: u64,
    pub time: u64,
    pub hash: u64,
    pub inter: u64,
    pub panics: Vec<(u32, String)>,
    pub ops: HashMap<u64, OpPlan>,
    pub known_empty: u64,
    pub given_up: HashSet<u32>,
}

type Getters = Rc<RefCell<HashMap<usize, Rc<cons::gen::implementation::consumer::ConsumerGetter<SimErr>>>>>;

pub fn run(scn: Arc<Scn>, trace: bool) -> Run {
    std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || run_here(scn, trace))
        .expect("thread")
        .join()
        .expect("the simulator itself panicked")
}
fn run_here(scn: Arc<Scn>, trace: bool) -> Run {
    let cfg = Cfg { seed: scn.seed, policy: scn.policy, poll_cost: scn.poll_cost, max_steps: 3_000_000, max_time: 3600 * SEC, event_first: scn.event_first };
    simworld::blob::set_salt(scn.seed);
    let s2 = scn.clone();
    let out = simrt::run(
        cfg,
        move || setup(s2, trace),
        move |_stop| {
            prod::app::forget();
            with(|w| {
                (
                    std::mem::take(&mut w.hist), std::mem::take(&mut w.tainted), std::mem::take(&mut w.bad_c2s), std::mem::take(&mut w.bad_s2c),
                    std::mem::take(&mut w.keys_sent), w.conns.iter().map(|c| (c.peer.id(), c.epoch)).collect::<Vec<_>>(),
                    std::mem::take(&mut w.faults), std::mem::take(&mut w.rendered), std::mem::take(&mut w.ops), w.known_empty,
                )
            })
        },
    );
    let _ = simworld::take();
    let given_up = out.value.0.iter().filter_map(|r| match &r.ev {
        Ev::CShutdownDropped { id, .. } => Some(*id),
        _ => None,
    }).collect();
    let (hist, tainted, bad_c2s, bad_s2c, keys_sent, peers, faults, rendered, ops, known_empty) = out.value;
    Run {
        hist, tainted, bad_c2s, bad_s2c, keys_sent, peers, faults, rendered, stop: out.stop, steps: out.steps, time: out.time, hash: out.hash,
        inter: out.interleaving, panics: out.panics, ops, known_empty, given_up,
    }
}
fn options(scn: &Scn) -> prod::gen::Options {
    use prod::gen::implementation::producer::{ConsumerErrorHandelingStrategy as E, ProducerIdentificationStrategy as I};
    prod::gen::Options {
        producer_indentification_strategy: match scn.ident {
            0 => I::Log,
            1 => I::EmitError,
            2 => I::Disconnect,
            3 => I::EmitErrorAndDisconnect,
            _ => I::Ignore,
        },
        consumer_error_handeling_strategy: match scn.errs {
            0 => E::EmitError,
            1 => E::Disconnect,
            2 => E::EmitErrorAndDisconnect,
            _ => E::Log,
        },
    }
}
fn start_producer(scn: &Arc<Scn>, epoch: u32) {
    let server = net::new_server(epoch);
    if scn.bind_fails {
        with(|w| w.server.as_mut().unwrap().bind_fails = true);
    }
    let scn = scn.clone();
    simrt::spawn_on(1, Box::pin(async move {
        rec(Ev::PRunStart { epoch });
        let res = prod::gen::run(server, options(&scn), prod::gen::Context::new()).await;
        rec(Ev::PRunEnd { epoch, ok: res.is_ok(), err: res.err().map(|e| e.to_string()).unwrap_or_default() });
    }));
}
fn nth_open(n: u64) -> Option<Cx> {
    let v: Vec<Cx> = (0..simworld::conn_count()).filter(|cx| with(|w| w.conns[*cx].srv_up && !w.conns[*cx].srv_down)).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[(n % v.len() as u64) as usize])
    }
}
fn apply(f: &Fault, scn: &Arc<Scn>, touched: &Rc<RefCell<BTreeSet<Cx>>>) {
    let now = simrt::now();
    let note = |k: &str| {
        rec(Ev::Fault(format!("{:?}", f)));
        simworld::fault(k);
    };
    match f {
        Fault::Reset(n) => {
            if let Some(cx) = nth_open(*n) {
                note("connection reset");
                net::reset(cx);
            }
        }
        Fault::Hold(n, a, b, d) => {
            if let Some(cx) = nth_open(*n) {
                note("partition of a connection");
                for (yes, dir) in [(*a, Dir::C2S), (*b, Dir::S2C)] {
                    if yes {
                        net::hold(cx, dir.clone(), true);
                        simrt::after(*d, Box::new(move || net::hold(cx, dir, false)));
                    }
                }
            }
        }
        Fault::SendErr(n, d) => {
            if let Some(cx) = nth_open(*n) {
                note("sends to a client start to fail");
                with(|w| w.conns[cx].send_err = true);
                touched.borrow_mut().insert(cx);
                simrt::after(*d, Box::new(move || with(|w| w.conns[cx].send_err = false)));
            }
        }
        Fault::DiscErr(n, d) => {
            if let Some(cx) = nth_open(*n) {
                note("disconnecting a client starts to fail");
                with(|w| w.conns[cx].disc_err = true);
                touched.borrow_mut().insert(cx);
                simrt::after(*d, Box::new(move || with(|w| w.conns[cx].disc_err = false)));
            }
        }
        Fault::WriteFail(n) => {
            if let Some(cx) = nth_open(*n) {
                rec(Ev::Fault(format!("{:?}", f)));
                with(|w| w.conns[cx].write_fail = true);
            }
        }
        Fault::ServerClose(n) => {
            if let Some(cx) = nth_open(*n) {
                note("transport closes a connection");
                net::server_close(cx);
            }
        }
        Fault::Refuse(c, d) => {
            rec(Ev::Fault(format!("{:?}", f)));
            with(|w| {
                if let Some(s) = w.clients.get_mut(c) {
                    s.refuse_until = now + d;
                }
            });
            // without a reset nobody would try to connect
            if let Some(cx) = with(|w| w.clients.get(c).and_then(|s| s.cx)) {
                note("connection reset");
                net::reset(cx);
            }
        }
        Fault::Hang(c, d) => {
            rec(Ev::Fault(format!("{:?}", f)));
            with(|w| {
                if let Some(s) = w.clients.get_mut(c) {
                    s.hang_until = now + d;
                }
            });
            if let Some(cx) = with(|w| w.clients.get(c).and_then(|s| s.cx)) {
                note("connection reset");
                net::reset(cx);
            }
        }
        Fault::ServerDown(k) => net::server_down(match k {
            0 => Down::ErrOut,
            1 => Down::Clean,
            _ => Down::Silent,
        }),
        Fault::Crash(d) => {
            if with(|w| w.server.as_ref().map(|s| s.gone).unwrap_or(true)) {
                return;
            }
            note("producer crashed and restarted");
            rec(Ev::Crash { node: 1 });
            let epoch = with(|w| w.server_epoch);
            net::server_crash();
            prod::app::forget();
            simrt::kill_node(1);
            let scn = scn.clone();
            simrt::after(*d, Box::new(move || {
                if with(|w| w.server_epoch) == epoch {
                    start_producer(&scn, epoch + 1)
                }
            }));
        }
        Fault::StallProducer(d) => {
            note("producer stalled");
            simrt::stall_node(1, now + d);
        }
        Fault::StallClient(c, d) => {
            note("consumer stalled");
            simrt::stall_node(10 + *c as u32, now + d);
        }
        Fault::TErr(kind, n) => {
            note("transport of the producer reports an error it survives");
            let all = simworld::conn_count() as u64;
            let cx = if all > 0 { Some((*n % all) as Cx) } else { None };
            match kind {
                0 | 1 => net::transport_error(net::TErr::Client, cx, "trouble"),
                2 => net::transport_error(net::TErr::Client, nth_open(*n), "trouble"),
                3 => net::transport_error(net::TErr::Client, None, "trouble"),
                4 => net::transport_error(net::TErr::Connection, cx, "no connection"),
                5 => net::transport_error(net::TErr::Connection, None, "no connection"),
                6 => net::transport_error_unknown(net::TErr::Connection, "no connection"),
                7 => net::transport_error_unknown(net::TErr::Client, "trouble"),
                _ => net::transport_error(net::TErr::Server, None, "trouble"),
            }
        }
        Fault::CErr(c) => {
            if net::client_hiccup(*c) {
                note("transport of a consumer reports an error it survives");
            }
        }
        Fault::WallJump(d) => {
            note("wall clock jumped");
            simrt::wall_jump(*d);
        }
        Fault::KillClient(c) => {
            note("consumer crashed");
            rec(Ev::Crash { node: 10 + *c as u32 });
            let cx = with(|w| w.clients.get(c).and_then(|s| s.cx));
            simrt::kill_node(10 + *c as u32);
            if let Some(cx) = cx {
                net::reset(cx);
            }
        }
        Fault::ClientSendErr(c, d) => {
            note("sends of a consumer start to fail");
            let c = *c;
            with(|w| {
                if let Some(s) = w.clients.get_mut(&c) {
                    s.send_err = true;
                    if let Some(cx) = s.cx {
                        touched.borrow_mut().insert(cx);
                    }
                }
            });
            simrt::after(*d, Box::new(move || with(|w| {
                if let Some(s) = w.clients.get_mut(&c) {
                    s.send_err = false;
                }
            })));
        }
    }
}
fn online(c: usize) -> bool {
    with(|w| w.online.get(&c).copied().unwrap_or(false))
}
async fn wait_online(c: usize, until: u64) -> bool {
    while !online(c) {
        if simrt::now() >= until {
            return false;
        }
        simrt::sleep(MS / 2).await;
    }
    true
}
async fn get(getters: &Getters, c: usize, limit: u64) -> Option<cons::gen::Consumer<SimErr>> {
    let g = getters.borrow().get(&c).cloned()?;
    tokio::select! {
        r = g.get() => r.ok(),
        _ = simrt::sleep(limit) => None,
    }
}
/// Who asks for a consumer keeps it to the end of its session.
async fn access(getters: Getters, c: usize, id: u32, at: u64) {
    simrt::sleep_until(at).await;
    let g = getters.borrow().get(&c).cloned();
    let g = match g {
        Some(g) => g,
        None => return,
    };
    rec(Ev::CGetCall { c, id });
    let res = g.get().await;
    rec(Ev::CGetRet { c, id, ok: res.is_ok() });
    if let Ok(consumer) = res {
        consumer.get_shutdown_token().cancelled().await;
        rec(Ev::CToken { c, id });
        if id % 2 == 1 {
            simrt::sleep(2 * SEC).await;
        }
        let res = tokio::select! {
            r = cons::app::stale(consumer, 7_000_000 + id as u64) => Some(r),
            _ = simrt::sleep(100 * MS) => None,
        };
        rec(Ev::CStale { c, id, res });
    }
}
async fn consumer_shutdown(getters: &Getters, c: usize, id: u32, drop_after: Option<u64>) {
    if let Some(consumer) = get(getters, c, 100 * MS).await {
        rec(Ev::CShutdownCall { c, id });
        match drop_after {
            Some(d) => {
                tokio::select! {
                    r = consumer.shutdown() => rec(Ev::CShutdownRet { c, id, ok: r.is_ok() }),
                    _ = simrt::sleep(d) => rec(Ev::CShutdownDropped { c, id }),
                }
            }
            None => {
                let r = consumer.shutdown().await;
                rec(Ev::CShutdownRet { c, id, ok: r.is_ok() });
            }
        }
    }
}
async fn producer_shutdown(id: u32, wait: bool, drop_after: Option<u64>) {
    if let Some(ctl) = prod::app::ctl() {
        rec(Ev::PShutdownCall { id, wait });
        match drop_after {
            Some(d) => {
                tokio::select! {
                    r = ctl.shutdown(wait) => rec(Ev::PShutdownRet { id, ok: r.is_ok() }),
                    _ = simrt::sleep(d) => rec(Ev::PShutdownDropped { id }),
                }
            }
            None => {
                let r = ctl.shutdown(wait).await;
                rec(Ev::PShutdownRet { id, ok: r.is_ok() });
            }
        }
    }
}
fn setup(scn: Arc<Scn>, trace: bool) {
    let mut w = World::new(scn.seed);
    w.keep_trace = trace;
    w.knobs = scn.knobs.clone();
    w.ops = scn.ops.clone();
    w.observer_fail = scn.observer_fail;
    w.shutdown_fails = scn.shutdown_fails;
    w.inner_calls = scn.inner_calls;
    simworld::install(w);
    let (kinds, _sig) = raw::kinds();
    simworld::wire::set_kinds(&kinds);
    let getters: Getters = Rc::new(RefCell::new(HashMap::new()));
    let touched: Rc<RefCell<BTreeSet<Cx>>> = Rc::new(RefCell::new(BTreeSet::new()));
    start_producer(&scn, 1);
    for g in scn.gens.iter().cloned() {
        let getters = getters.clone();
        with(|w| {
            w.client_cfg.insert(g.c, simworld::ClientCfg { refuse_reconnect_at: g.refuse_reconnect_at, reconnects: 0, bc_delay: g.bc_delay, ev_delay: g.ev_delay });
        });
        let client = net::new_client(g.c);
        with(|w| w.clients.get_mut(&g.c).unwrap().mitm = g.mitm.clone());
        simrt::spawn_on(10 + g.c as u32, Box::pin(async move {
            simrt::sleep_until(g.start).await;
            // nobody connects before the producer is there
            while !with(|w| w.server.as_ref().map(|s| s.listening || s.gone || s.bind_fails).unwrap_or(true)) {
                simrt::sleep(MS).await;
            }
            rec(Ev::CStart { c: g.c });
            let mut o = cons::gen::Options::defualt(raw::own_key(&g.key));
            o.reconnection = match g.reconnect {
                Some(ms) => cons::gen::implementation::consumer::options::ReconnectionStrategy::Reconnect(ms),
                None => cons::gen::implementation::consumer::options::ReconnectionStrategy::DoNotReconnect,
            };
            o.request_timeout = g.timeout;
            if let Ok(x) = cons::gen::implementation::connect(client, cons::gen::context::Context { c: g.c }, o).await {
                getters.borrow_mut().insert(g.c, Rc::new(x));
            }
        }));
    }
    for g in scn.gens.iter() {
        for (id, at) in g.gets.iter().enumerate() {
            simrt::spawn_on(10 + g.c as u32, Box::pin(access(getters.clone(), g.c, id as u32, *at)));
        }
    }
    for r in scn.raws.iter().cloned() {
        with(|w| w.busy += 1);
        let t_w = scn.t_w;
        simrt::spawn_on(500 + r.r as u32, Box::pin(async move {
            simrt::sleep_until(r.start).await;
            while !with(|w| w.server.as_ref().map(|s| s.listening).unwrap_or(false)) {
                simrt::sleep(MS).await;
                if simrt::now() > 2 * t_w {
                    with(|w| w.busy -= 1);
                    return;
                }
            }
            let (cx, _) = raw::run(r, 20 * SEC, true).await;
            if cx.is_none() {
                with(|w| w.busy -= 1);
            }
        }));
    }
    for call in scn.calls.iter().cloned() {
        let getters = getters.clone();
        let t_w = scn.t_w;
        with(|w| w.busy += 1);
        struct Busy;
        impl Drop for Busy {
            fn drop(&mut self) {
                if simrt::active() {
                    let _ = std::panic::catch_unwind(|| with(|w| w.busy -= 1));
                }
            }
        }
        let busy = Busy;
        simrt::spawn_on(10 + call.c as u32, Box::pin(async move {
            let _busy = busy;
            simrt::sleep_until(call.at).await;
            if !wait_online(call.c, t_w).await {
                return;
            }
            if let Some(consumer) = get(&getters, call.c, 100 * MS).await {
                if !online(call.c) {
                    return;
                }
                match call.drop_after {
                    None => {
                        cons::app::call(call.c, consumer, call.kind, call.op).await;
                    }
                    Some(d) => {
                        tokio::select! {
                            _ = cons::app::call(call.c, consumer, call.kind, call.op) => {}
                            _ = simrt::sleep(d) => {}
                        }
                    }
                }
            }
        }));
    }
    let mut tasks: BTreeMap<u32, Vec<Emit>> = BTreeMap::new();
    for e in scn.emits.iter().cloned() {
        tasks.entry(e.task).or_default().push(e);
    }
    for (task, mut v) in tasks {
        v.sort_by_key(|e| (e.at, e.op));
        simrt::spawn_on(0, Box::pin(async move {
            for e in v {
                simrt::sleep_until(e.at).await;
                if let Some(ctl) = prod::app::ctl() {
                    let ok = match e.kind {
                        K::Tick => ctl.events.tick(prod::content::tick(e.op)).await.is_ok(),
                        _ => ctl.events.deep_pulse(prod::content::pulse(e.op)).await.is_ok(),
                    };
                    rec(Ev::PEmit { task, kind: e.kind, op: e.op, ok });
                }
            }
        }));
    }
    for s in scn.pshuts.iter().cloned() {
        simrt::spawn_on(0, Box::pin(async move {
            simrt::sleep_until(s.at).await;
            producer_shutdown(s.id, s.wait, s.drop_after).await;
        }));
    }
    for s in scn.cshuts.iter().cloned() {
        let getters = getters.clone();
        let t_w = scn.t_w;
        simrt::spawn_on(0, Box::pin(async move {
            simrt::sleep_until(s.at).await;
            if s.online && !wait_online(s.c, t_w).await {
                return;
            }
            consumer_shutdown(&getters, s.c, s.id, s.drop_after).await;
        }));
    }
    for f in scn.faults.iter().cloned() {
        let scn = scn.clone();
        let touched = touched.clone();
        simrt::at(f.at, Box::new(move || apply(&f.f, &scn, &touched)));
    }
    simrt::spawn_on(0, Box::pin(director(scn, getters, touched)));
}
fn producer_runs() -> bool {
    with(|w| {
        let mut run = false;
        for r in w.hist.iter() {
            match r.ev {
                Ev::PRunStart { .. } => run = true,
                Ev::PRunEnd { .. } | Ev::Crash { node: 1 } => run = false,
                _ => {}
            }
        }
        run
    })
}
async fn director(scn: Arc<Scn>, getters: Getters, touched: Rc<RefCell<BTreeSet<Cx>>>) {
    let mut r = Rng::fork(scn.seed, 77);
    rec(Ev::Phase("work"));
    simrt::sleep_until(scn.t_w + 90 * MS).await;
    rec(Ev::Phase("faults_end"));
    // heal
    let n = simworld::conn_count();
    for cx in 0..n {
        with(|w| {
            let c = &mut w.conns[cx];
            c.send_err = false;
            c.disc_err = false;
            c.write_fail = false;
        });
        if with(|w| w.conns[cx].s2c.hold && w.conns[cx].cli_up) {
            net::hold(cx, Dir::S2C, false);
        }
        if with(|w| w.conns[cx].c2s.hold && w.conns[cx].srv_up) {
            net::hold(cx, Dir::C2S, false);
        }
    }
    for g in scn.gens.iter() {
        let cx = with(|w| {
            let s = w.clients.get_mut(&g.c).unwrap();
            s.refuse_until = 0;
            s.refuse_next = 0;
            s.send_err = false;
            let bad = s.mitm.bad_hash;
            s.mitm = net::Mitm { bad_hash: bad, ..net::Mitm::default() };
            s.cx
        });
        let m = &g.mitm;
        if let Some(cx) = cx {
            if m.drop > 0 || m.garbage > 0 || m.handshake || touched.borrow().contains(&cx) {
                rec(Ev::Fault(String::from("heal: reset")));
                net::reset(cx);
            }
        }
    }
    let cap = simrt::now() + scn.max_timeout() + 60 * SEC;
    while with(|w| w.busy) > 0 && simrt::now() < cap {
        simrt::sleep(20 * MS).await;
    }
    simrt::sleep(scn.busy + 3 * SEC + scn.stall_total).await;
    rec(Ev::Phase("settled"));
    let runs = producer_runs();
    // the service still serves: one more client, and one more call of everybody who is connected
    if runs && !scn.bind_fails {
        let mut q = Rng::fork(scn.seed, 78);
        let cx = simworld::conn_count();
        with(|w| {
            w.ops.insert(simworld::conn_op(cx, false), OpPlan { sets: vec![IdSet::Asg(asg_of(&mut q), true)], ..OpPlan::default() });
        });
        let mut next = 10;
        let mut seq = || {
            next += 3;
            next
        };
        let mut steps = vec![(0, Step::WaitConfirm), (0, Step::Key { seq: 1, key: key_of(&mut q, 900) }), (0, Step::Hash { seq: 2, variant: 0 }), (0, Step::WaitAnswers)];
        for (i, k) in [K::Echo, K::Ping, K::Ask, K::Multi].iter().enumerate() {
            let op = 2_900_000 + i as u64;
            with(|w| w.ops.insert(op, OpPlan::default()));
            steps.push((0, Step::Msg { kind: *k, op, seq: seq() }));
            if r.chance(500) {
                steps.push((0, Step::WaitAnswers));
            }
        }
        steps.push((0, Step::WaitAnswers));
        let probe = RawC { r: 900, start: 0, steps };
        let (cx, ok) = raw::run(probe, 5 * SEC, false).await;
        rec(Ev::ProbeEnd { cx, ok });
        for g in scn.gens.iter() {
            if online(g.c) {
                if let Some(consumer) = get(&getters, g.c, 100 * MS).await {
                    let op = 1_900_000 + g.c as u64;
                    with(|w| w.ops.insert(op, OpPlan::default()));
                    let c = g.c;
                    simrt::spawn_on(10 + c as u32, Box::pin(async move {
                        cons::app::call(c, consumer, K::Quick, op).await;
                    }));
                }
            }
        }
        simrt::sleep(SEC).await;
    }
    rec(Ev::Phase("closing"));
    let first = scn.producer_first;
    if first && runs {
        stop_producer().await;
    }
    for g in scn.gens.iter() {
        let getters = getters.clone();
        let c = g.c;
        simrt::spawn_on(0, Box::pin(async move {
            consumer_shutdown(&getters, c, 1000 + c as u32, None).await;
        }));
    }
    simrt::sleep(2 * SEC).await;
    if !first && runs {
        stop_producer().await;
    }
    simrt::sleep(SEC).await;
    rec(Ev::Phase("end"));
    simrt::request_stop();
}
async fn stop_producer() {
    tokio::select! {
        _ = producer_shutdown(1000, true, None) => {}
        _ = simrt::sleep(10 * SEC) => {}
    }
    simrt::sleep(500 * MS).await;
}
