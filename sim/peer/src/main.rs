//! Rust peers in lockstep with the simulator of the TypeScript ones (sim/ts): peer SEED SALT BIG HOLD ASSIGN FAIL
//! Each exchange: lines of commands, the first one the time in ms, ended by "."; answered by lines of what happened, ended
//! by ". NEXT" with the time in ns of what is to happen next, or "-".
#[path = "../../harness/src/os.rs"]
mod os;
use simworld::bridge::{self, say};
use simworld::hist::KeyV;
use simworld::net::SimErr;
use simworld::{with, World};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::rc::Rc;

type Getter = Rc<xcons::gen::implementation::consumer::ConsumerGetter<SimErr>>;
thread_local! {
    static GETTERS: RefCell<HashMap<usize, Getter>> = RefCell::new(HashMap::new());
}
fn key(n: usize) -> KeyV {
    KeyV {
        name: format!("consumer {}", n),
        rank: n as u32,
        note: if n % 2 == 1 { Some(format!("note {}", n)) } else { None },
        tag: if n % 3 != 0 { Some(n as u64) } else { None },
    }
}
fn producer(ident: &str, errs: &str) {
    use xprod::gen::implementation::producer::{ConsumerErrorHandelingStrategy as E, ProducerIdentificationStrategy as I};
    let o = xprod::gen::Options {
        producer_indentification_strategy: if ident == "0" { I::Ignore } else { I::Log },
        consumer_error_handeling_strategy: match errs {
            "0" => E::Log,
            "1" => E::Disconnect,
            "2" => E::EmitError,
            _ => E::EmitErrorAndDisconnect,
        },
    };
    let server = bridge::server();
    simrt::spawn_on(1, Box::pin(async move {
        let res = xprod::gen::run(server, o, xprod::gen::Context::new()).await;
        simworld::rec(simworld::hist::Ev::PRunEnd { epoch: 1, ok: res.is_ok(), err: res.err().map(|e| e.to_string()).unwrap_or_default() });
    }));
}
fn consumer(c: usize, reconnect: u64) {
    let client = bridge::client(c);
    simrt::spawn_on(10 + c as u32, Box::pin(async move {
        let k = key(c);
        let mut o = xcons::gen::Options::defualt(xcons::gen::protocol::Keys::Own { name: k.name, rank: k.rank, note: k.note, tag: k.tag });
        use xcons::gen::implementation::consumer::options::ReconnectionStrategy as R;
        o.reconnection = if reconnect == 0 { R::DoNotReconnect } else { R::Reconnect(reconnect) };
        o.request_timeout = 60_000;
        if let Ok(x) = xcons::gen::implementation::connect(client, xcons::gen::context::Context { c }, o).await {
            GETTERS.with(|g| g.borrow_mut().insert(c, Rc::new(x)));
        }
    }));
}
async fn get(c: usize) -> Option<xcons::gen::Consumer<SimErr>> {
    let g = GETTERS.with(|g| g.borrow().get(&c).cloned())?;
    tokio::select! {
        r = g.get() => r.ok(),
        _ = simrt::sleep(5 * simrt::MS) => None,
    }
}
fn command(l: &str) {
    let a: Vec<&str> = l.split(' ').collect();
    let n = |i: usize| a[i].parse::<usize>().expect("number");
    let op = |i: usize| a[i].parse::<u64>().expect("op");
    use clibri::server::Events as E;
    match a[0] {
        "producer" => producer(a[1], a[2]),
        "up" => {
            let u = bridge::connection(a[1]).expect("uuid");
            bridge::server_event(E::Connected(u));
        }
        "data" => bridge::server_event(E::Received(bridge::connection(a[1]).expect("uuid"), bridge::unhex(a[2]))),
        "down" => bridge::server_event(E::Disconnected(bridge::connection(a[1]).expect("uuid"))),
        "consumer" => consumer(n(1), op(2)),
        "cup" => bridge::linked(n(1)),
        "cdata" => bridge::data(n(1), bridge::unhex(a[2])),
        "cdown" => bridge::down(n(1)),
        "call" => {
            let (c, k, op) = (n(1), bridge::kind(a[2]), op(3));
            simrt::spawn_on(10 + c as u32, Box::pin(async move {
                match get(c).await {
                    Some(x) => {
                        xcons::app::call(c, x, k, op).await;
                    }
                    None => say(format!("nocall {} {}", c, op)),
                }
            }));
        }
        "destroy" => {
            let c = n(1);
            simrt::spawn_on(10 + c as u32, Box::pin(async move {
                match get(c).await {
                    Some(x) => {
                        say(format!("destroying {}", c));
                        if x.shutdown().await.is_err() {
                            say(format!("nodestroy {}", c));
                        }
                    }
                    None => say(format!("nodestroy {}", c)),
                }
            }));
        }
        "event" => {
            let (k, op) = (bridge::kind(a[1]), op(2));
            simrt::spawn_on(1, Box::pin(async move {
                if let Some(c) = xprod::app::ctl() {
                    let ok = match k {
                        simworld::wire::K::Tick => c.events.tick(xprod::content::tick(op)).await.is_ok(),
                        _ => c.events.deep_pulse(xprod::content::pulse(op)).await.is_ok(),
                    };
                    say(format!("emitted {} {}", op, ok as u8));
                } else {
                    say(format!("emitted {} 0", op));
                }
            }));
        }
        "kick" => {
            let u = bridge::connection(a[1]).expect("uuid");
            simrt::spawn_on(1, Box::pin(async move {
                if let Some(c) = xprod::app::ctl() {
                    let _ = c.disconnect(u).await;
                }
            }));
        }
        "stop" => {
            simrt::spawn_on(1, Box::pin(async move {
                if let Some(c) = xprod::app::ctl() {
                    let _ = c.shutdown(false).await;
                }
            }));
        }
        x => panic!("command {}", x),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, salt) = (n(1), n(2));
    let draw = bridge::Draw { seed, big: n(3), hold: n(4), assign: n(5), fail: n(6) };
    let (mut input, mut output) = unsafe { (BufReader::with_capacity(1 << 20, File::from_raw_fd(0)), File::from_raw_fd(1)) };
    let policies = [simrt::Policy::Uniform, simrt::Policy::Fifo, simrt::Policy::Lifo, simrt::Policy::Priority];
    // all of it in a fresh thread: thread locals of this one already have real hash keys
    std::thread::spawn(move || {
        let out = simrt::run(
            simrt::Cfg { seed, policy: policies[(seed % 4) as usize], poll_cost: 0, max_steps: 40_000_000, max_time: u64::MAX / 2, event_first: 300 },
            || {
                let mut w = World::new(seed);
                w.next_bid = 0xB1D0_0000_0000_0000;
                w.bridge = Some(vec![]);
                w.drawn = Some(draw);
                simworld::install(w);
                simworld::blob::set_salt(salt);
                simworld::blob::one_nan();
                simrt::lockstep(Box::new(move |next| {
                    let said = with(|w| std::mem::take(w.bridge.as_mut().unwrap()));
                    let mut s = String::new();
                    for p in simrt::take_panics() {
                        s.push_str(&format!("panic {} {}\n", p.0, bridge::hex(p.1.as_bytes())));
                    }
                    for l in said {
                        s.push_str(&l);
                        s.push('\n');
                    }
                    s.push_str(&match next {
                        Some(t) => format!(". {}\n", t),
                        None => String::from(". -\n"),
                    });
                    if output.write_all(s.as_bytes()).is_err() {
                        return None;
                    }
                    let mut at = None;
                    let mut l = String::new();
                    loop {
                        l.clear();
                        match input.read_line(&mut l) {
                            Ok(k) if k > 0 => {}
                            _ => return None,
                        }
                        let l = l.trim_end();
                        if l == "." {
                            break;
                        }
                        match at {
                            None => {
                                let t: u64 = l.parse().expect("time");
                                at = Some(t * simrt::MS + simrt::MS - 1);
                                simrt::set_now(t * simrt::MS);
                            }
                            Some(_) => command(l),
                        }
                    }
                    at
                }));
            },
            |_| {},
        );
        GETTERS.with(|g| g.borrow_mut().clear());
        xprod::app::forget();
        let _ = simworld::take();
        if out.stop == simrt::Stop::StepLimit {
            eprintln!("step limit");
        }
    })
    .join()
    .ok();
    // the other side has what it needs
    std::process::exit(0);
}
