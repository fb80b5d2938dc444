//! Starting the peers.
use crate::app::Api;
use crate::cons::implementation::consumer::options::{Options as COptions, ReconnectionStrategy};
use crate::net::{self, Client, NetErr, Server};
use crate::prod::implementation::producer::{ConsumerErrorHandelingStrategy as E, Options, ProducerIdentificationStrategy as I};
use crate::prod::implementation::ProducerError;
use tokio::task::{spawn_local, JoinHandle};

pub type Run = JoinHandle<Result<(), ProducerError<NetErr>>>;
pub async fn producer(i: I, e: E) -> Run {
    let mut o = Options::new();
    o.producer_indentification_strategy(i).consumer_error_handeling_strategy(e);
    let h = spawn_local(crate::prod::run(Server::new(), o, crate::prod::Context {}));
    net::wait_for_line("ready").await;
    h
}
pub type Getter = crate::cons::implementation::consumer::ConsumerGetter<NetErr>;
pub async fn getter(tag: &str, timeout: u64, reconnect: Option<u64>) -> Getter {
    let o = COptions {
        reconnection: reconnect.map(ReconnectionStrategy::Reconnect).unwrap_or(ReconnectionStrategy::DoNotReconnect),
        request_timeout: timeout,
        key: net::own(tag, 1),
    };
    crate::cons::connect(Client::new(tag), crate::cons::Context {}, o).await.map_err(|e| e.to_string()).expect("consumer")
}
pub async fn consumer(tag: &str, timeout: u64, reconnect: Option<u64>) -> Api {
    getter(tag, timeout, reconnect).await.get().await.map_err(|e| e.to_string()).expect("consumer")
}
/// Everything on one thread, in virtual time.
pub fn play<F: std::future::Future<Output = ()>>(f: F) {
    // a scenario that hangs fails
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(60));
        eprintln!("the scenario does not come to an end");
        std::process::exit(3);
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f);
    println!("ok");
}
/// A value of every type.
pub fn value() -> crate::cons::implementation::protocol::Value {
    use crate::cons::implementation::protocol as p;
    p::Value {
        a: 1, b: 2, c: 3, d: 4, e: -1, f: -2, g: -3, h: -4, i: 1.5, j: -2.5, k: true, l: String::from("text"),
        va: vec![1, 2], vb: vec![3], vc: vec![4], vd: vec![5], ve: vec![-1], vf: vec![-2, 300], vg: vec![-3], vh: vec![-4], vi: vec![0.5], vj: vec![], vk: vec![true, false],
        vl: vec![String::from("x"), String::new()],
        part: p::Part { name: String::from("part"), v: 7 }, parts: vec![p::Part { name: String::new(), v: -7 }], shape: p::Shape::Number(9),
        oc: Some(5), ol: None, opart: None,
    }
}
