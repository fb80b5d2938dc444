//! Raw peers: they speak the wire format through the consumer's generated codec, but follow their own script.
use crate::plan::{RawC, Step};
use cons::gen::implementation::consumer::hash;
use cons::gen::protocol::{self, PackingStruct};
use cons::content as ct;
use simrt::{Rng, MS};
use simworld::hist::*;
use simworld::net::{self, RawEv};
use simworld::wire::{self, K};
use simworld::{plan, rec, with};
use tokio::sync::mpsc::UnboundedReceiver;

/// One of every message, to learn the numbers and the signature of the generated protocol.
pub fn kinds() -> (Vec<(u32, K)>, u16) {
    use protocol::*;
    let mut v = vec![];
    let mut sig = 0;
    let mut add = |b: Result<Vec<u8>, String>, k: K| {
        let b = b.expect("pack");
        v.push((wire::le(&b[0..4]) as u32, k));
        sig = wire::le(&b[4..6]) as u16;
    };
    add(Keys::Own { name: String::new(), rank: 0, note: None, tag: None }.pack(1, None), K::Own);
    add(Keys::Assigned { uid: String::new(), level: 0, admin: None }.pack(1, None), K::Assigned);
    add(InternalServiceGroup::SelfKeyResponse { uuid: String::new() }.pack(1, None), K::SelfKeyResponse);
    add(InternalServiceGroup::HashRequest { protocol: String::new(), workflow: String::new() }.pack(1, None), K::HashRequest);
    add(InternalServiceGroup::HashResponse { error: None }.pack(1, None), K::HashResponse);
    add(InternalServiceGroup::BeaconConfirmation { error: None }.pack(1, None), K::BeaconConfirmation);
    add(InternalServiceGroup::ConnectConfirmationBeacon {}.pack(1, None), K::ConnectConfirmation);
    add(ct::echo(1, 0).pack(1, None), K::Echo);
    add(ct::reply(1, 0).pack(1, None), K::Reply);
    add(ct::multi(1).pack(1, None), K::Multi);
    add(ct::resp_a(1).pack(1, None), K::RespA);
    add(ct::resp_b(1).pack(1, None), K::RespB);
    add(ct::resp_c(1).pack(1, None), K::RespC);
    add(ct::same(1, false).pack(1, None), K::Same);
    add(ct::quick(1).pack(1, None), K::Quick);
    add(ct::fail(1).pack(1, None), K::Fail);
    add(ct::refuse(1).pack(1, None), K::Refuse);
    add(ct::ask(1).pack(1, None), K::Ask);
    add(ct::answer(1).pack(1, None), K::Answer);
    add(ct::inner_answer(1).pack(1, None), K::InnerAnswer);
    add(ct::note(1, 1).pack(1, None), K::Note);
    add(ct::note_b(1, 1).pack(1, None), K::NoteB);
    add(ct::note_c(1, 1).pack(1, None), K::NoteC);
    add(ct::news(1, 1).pack(1, None), K::News);
    add(ct::inner_news(1, 1).pack(1, None), K::InnerNews);
    add(ct::tick(1).pack(1, None), K::Tick);
    add(ct::pulse(1).pack(1, None), K::Pulse);
    add(ct::ping(1).pack(1, None), K::Ping);
    add(ct::mark(1).pack(1, None), K::Mark);
    (v, sig)
}
pub fn msg(kind: K, op: u64, seq: u32) -> Vec<u8> {
    use protocol::*;
    let big = plan(op).big;
    match kind {
        K::Echo => ct::echo(op, big).pack(seq, None),
        K::Multi => ct::multi(op).pack(seq, None),
        K::Same => ct::same(op, false).pack(seq, None),
        K::Quick => ct::quick(op).pack(seq, None),
        K::Ask => ct::ask(op).pack(seq, None),
        K::Ping => ct::ping(op).pack(seq, None),
        K::Mark => ct::mark(op).pack(seq, None),
        K::Note => ct::note(op, op).pack(seq, None),
        K::News => ct::news(op, op).pack(seq, None),
        K::Reply => ct::reply(op, 0).pack(seq, None),
        K::Tick => ct::tick(op).pack(seq, None),
        K::SelfKeyResponse => InternalServiceGroup::SelfKeyResponse { uuid: String::from("x") }.pack(seq, None),
        _ => ct::quick(op).pack(seq, None),
    }
    .expect("pack")
}
pub fn own_key(k: &KeyV) -> protocol::Keys::Own {
    protocol::Keys::Own { name: k.name.clone(), rank: k.rank, note: k.note.clone(), tag: k.tag }
}
/// Well framed, but nothing a reader may accept.
fn bad(variant: u8, salt: u64) -> Vec<u8> {
    let mut r = Rng::new(salt);
    let base = msg(K::Multi, 5_000_000 + salt % 1000, 77_000 + (salt % 100) as u32);
    let (id, sig) = (wire::le(&base[0..4]) as u32, wire::le(&base[4..6]) as u16);
    let seq = 78_000 + (salt % 1000) as u32;
    let with_body = |id: u32, sig: u16, body: Vec<u8>| {
        let mut v = wire::header(id, sig, seq, body.len() as u64);
        v.extend_from_slice(&body);
        v
    };
    let entry = |id: u16, rank: u8, len: Vec<u8>, b: &[u8]| {
        let mut v = id.to_le_bytes().to_vec();
        v.push(rank);
        v.extend_from_slice(&len);
        v.extend_from_slice(b);
        v
    };
    match variant {
        0 => {
            let n = r.below(60);
            let body = (0..n).map(|_| r.next() as u8).collect();
            with_body(0x7fff_0000 + r.below(5000) as u32, sig, body)
        }
        1 => {
            let mut v = base;
            v[4] ^= 1 + (salt % 200) as u8;
            v
        }
        2 => {
            // an entry that claims more than there is
            let claim = *r.pick(&[200u64, 1 << 20, u64::MAX, u64::MAX - 5]);
            let (rank, len) = if claim < 256 { (8, vec![claim as u8]) } else { (64, claim.to_le_bytes().to_vec()) };
            with_body(id, sig, entry(1, rank, len, &[1, 2, 3]))
        }
        3 => with_body(id, sig, vec![]),
        4 => {
            let mut b = entry(1, 8, vec![5], &[1, 2, 3, 4, 5]);
            b.extend(entry(2, 8, vec![1], b"x"));
            with_body(id, sig, b)
        }
        5 => {
            // find the numbers of the fields in a real message
            let e: Vec<u16> = wire::entries(&base[wire::HEADER..]).unwrap().iter().map(|x| x.0).collect();
            let n = r.below(8) as usize;
            let mut b = entry(e[0], 8, vec![n as u8], &7u64.to_le_bytes()[..n]);
            b.extend(entry(e[1], 8, vec![3], b"xyz"));
            with_body(id, sig, b)
        }
        6 => with_body(0x7ffe_0000 + r.below(5000) as u32, sig ^ 3, vec![]),
        8 => {
            // the last entry claims a few bytes more than there are
            let body = &base[wire::HEADER..];
            let last = wire::entries(body).unwrap().last().unwrap().1.len() as u64;
            let k = if r.chance(600) { 1 } else { r.range(1, last.min(4)) };
            with_body(id, sig, body[..body.len() - k as usize].to_vec())
        }
        9 => {
            // an entry is missing
            let e: Vec<(u16, Vec<u8>)> = wire::entries(&base[wire::HEADER..]).unwrap().iter().map(|x| (x.0, x.1.to_vec())).collect();
            let n = r.below(e.len() as u64) as usize;
            with_body(id, sig, e.iter().enumerate().filter(|(i, _)| *i != n).flat_map(|(_, x)| wire::entry(x.0, &x.1)).collect())
        }
        10 => {
            // the beginning of one more entry
            let mut b = base[wire::HEADER..].to_vec();
            b.extend_from_slice(&[0x77, 0x01, 8][..r.range(1, 3) as usize]);
            with_body(id, sig, b)
        }
        11..=13 => bad_blob(&mut r, seq),
        _ => {
            let e = msg(K::Echo, 5_100_000, 1);
            let eid = wire::le(&e[0..4]) as u32;
            let n = r.range(1, 40);
            let body: Vec<u8> = (0..n).map(|_| r.below(3) as u8 * 100).collect();
            with_body(eid, sig, body)
        }
    }
}
/// A message with one unreadable value deep inside.
fn bad_blob(r: &mut Rng, seq: u32) -> Vec<u8> {
    let e = msg(K::Echo, 5_200_000 + r.below(1000), 1);
    let (id, sig) = (wire::le(&e[0..4]) as u32, wire::le(&e[4..6]) as u16);
    let outer: Vec<(u16, Vec<u8>)> = wire::entries(&e[wire::HEADER..]).unwrap().iter().map(|x| (x.0, x.1.to_vec())).collect();
    let mut inner: Vec<(u16, Vec<u8>)> = wire::entries(&outer[1].1).unwrap().iter().map(|x| (x.0, x.1.to_vec())).collect();
    // fields as sim/defs has them: numbers 0-9, bool 10, str 11, lists 12-23, leaf, leaves, flag, kind, optional ones 28-36, kinds 37, flags
    let at = |n: usize| crate::flow::BLOB[n];
    match r.below(10) {
        0 | 8 | 9 => {
            let n = r.below(11) as usize;
            let keep = if r.chance(300) { 0 } else { r.below(inner[at(n)].1.len() as u64) };
            inner[at(n)].1.truncate(keep as usize);
        }
        1 => {
            // one byte more than a number of whole elements
            let n = 12 + *r.pick(&[1usize, 2, 3, 5, 6, 7, 8, 9]);
            inner[at(n)].1.push(7);
        }
        2 => {
            let n = r.below(9);
            inner[at(23)].1.extend_from_slice(&(n as u32 + 1 + r.below(3) as u32).to_le_bytes());
            inner[at(23)].1.extend((0..n).map(|_| b'x'));
        }
        // an item that claims more than there is: of structures, of enumerations
        3 | 6 | 7 => {
            let (one, list) = *r.pick(&[(24, 25), (26, 38), (27, 37)]);
            let l = inner[at(one)].1.clone();
            let claim = match r.below(3) {
                0 => u64::MAX - r.below(30),
                1 => *r.pick(&[1 << 63, 1 << 40, (1 << 32) + l.len() as u64]),
                _ => l.len() as u64 + 1 + r.below(3),
            };
            inner[at(list)].1.extend_from_slice(&claim.to_le_bytes());
            inner[at(list)].1.extend_from_slice(&l);
        }
        4 => {
            inner[at(24)].1.pop();
        }
        _ => {
            let n = 26 + r.below(2) as usize;
            inner[at(n)].1[0] = 200;
        }
    }
    let nested: Vec<u8> = inner.iter().flat_map(|x| wire::entry(x.0, &x.1)).collect();
    let mut body = wire::entry(outer[0].0, &outer[0].1);
    body.extend(wire::entry(outer[1].0, &nested));
    let mut v = wire::header(id, sig, seq, body.len() as u64);
    v.extend_from_slice(&body);
    v
}
fn garbage(n: u64, salt: u64) -> Vec<u8> {
    let mut r = Rng::new(salt);
    match salt % 4 {
        // a header that promises more than will ever come
        0 => {
            let near = u64::MAX - r.below(30);
            wire::header(r.next() as u32, r.next() as u16, 1, *r.pick(&[u64::MAX, near, near, 1 << 40, 1 << 63]))
        }
        1 => vec![0; n as usize],
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}

struct Peer {
    r: usize,
    cx: Cx,
    rx: UnboundedReceiver<RawEv>,
    buffer: protocol::Buffer<protocol::AvailableMessages>,
    up: bool,
    confirmed: bool,
    closed: bool,
    waiting: Vec<u32>,
}
impl Peer {
    fn take(&mut self, e: RawEv) {
        match e {
            RawEv::Up => self.up = true,
            RawEv::Closed => self.closed = true,
            RawEv::Frames(frames, bytes) => {
                for f in &frames {
                    if f.kind == K::ConnectConfirmation {
                        self.confirmed = true;
                    }
                    if !f.kind.is_broadcast() {
                        self.waiting.retain(|s| *s != f.seq);
                    }
                }
                let _ = self.buffer.chunk(&bytes, None);
                while let Some(m) = self.buffer.next() {
                    let (kind, id, intact) = ct::classify(&m.msg, |op| plan(op).big);
                    if kind != K::Other {
                        rec(Ev::CGot { c: 1000 + self.r, cx: self.cx, kind, id, seq: m.header.sequence, intact });
                    }
                }
            }
        }
    }
    fn poll(&mut self) {
        while let Ok(e) = self.rx.try_recv() {
            self.take(e);
        }
    }
    async fn until(&mut self, limit: u64, cond: impl Fn(&Self) -> bool) -> bool {
        let end = simrt::now() + limit;
        loop {
            self.poll();
            if cond(self) {
                return true;
            }
            if self.closed || simrt::now() >= end {
                return false;
            }
            tokio::select! {
                e = self.rx.recv() => match e {
                    Some(e) => self.take(e),
                    None => self.closed = true,
                },
                _ = simrt::sleep_until(end) => {}
            }
        }
    }
}
/// Runs the script; returns whether everything asked for was answered.
pub async fn run(cfg: RawC, wait: u64, linger: bool) -> (Option<Cx>, bool) {
    let (cx, rx) = match net::raw_connect(cfg.r) {
        Some(x) => x,
        None => return (None, false),
    };
    let mut p = Peer { r: cfg.r, cx, rx, buffer: protocol::Buffer::new(), up: false, confirmed: false, closed: false, waiting: vec![] };
    let mut held: Option<Vec<u8>> = None;
    let mut all = true;
    let send = |held: &mut Option<Vec<u8>>, b: Vec<u8>, framed: bool| {
        match held {
            Some(h) if framed => h.extend_from_slice(&b),
            _ => {
                if let Some(h) = held.as_mut() {
                    let h = std::mem::take(h);
                    if !h.is_empty() {
                        net::raw_send(cx, &h, true);
                    }
                }
                net::raw_send(cx, &b, framed);
            }
        }
    };
    let pos = |held: &Option<Vec<u8>>| with(|w| w.conns[cx].c2s.sent) + held.as_ref().map(|h| h.len() as u64).unwrap_or(0);
    let mut framed = true;
    for (_, s) in cfg.steps.iter() {
        p.poll();
        if p.closed {
            break;
        }
        if !framed && matches!(s, Step::Key { .. } | Step::Hash { .. } | Step::Msg { .. } | Step::Bad { .. }) {
            // nobody can tell any more where a message begins
            continue;
        }
        match s {
            Step::Sleep(d) => simrt::sleep(*d).await,
            Step::WaitUp => {
                p.until(wait, |p| p.up).await;
            }
            Step::WaitConfirm => {
                if !p.until(wait, |p| p.confirmed).await {
                    break;
                }
            }
            Step::Key { seq, key } => {
                with(|w| w.keys_sent.insert((cx, *seq), key.clone()));
                p.waiting.push(*seq);
                send(&mut held, own_key(key).pack(*seq, None).expect("pack"), true)
            }
            Step::Hash { seq, variant } => {
                let mut b = protocol::InternalServiceGroup::HashRequest { protocol: hash::PROTOCOL.to_string(), workflow: hash::WORKFLOW.to_string() }
                    .pack(*seq, None)
                    .expect("pack");
                if *variant > 0 {
                    simworld::fault("foreign hash presented");
                    net::corrupt_hash(&mut b, *variant);
                }
                p.waiting.push(*seq);
                send(&mut held, b, true)
            }
            Step::Msg { kind, op, seq } => {
                if kind.is_request() || kind.is_beacon() {
                    p.waiting.push(*seq);
                }
                send(&mut held, msg(*kind, *op, *seq), true)
            }
            Step::Bad { variant, salt } => {
                simworld::fault("unreadable message sent to the producer");
                let at = pos(&held);
                with(|w| w.bad_c2s.insert((cx, at)));
                send(&mut held, bad(*variant, *salt), true)
            }
            Step::Garbage { n, salt } => {
                simworld::fault("garbage sent to the producer");
                framed = false;
                send(&mut held, garbage(*n, *salt), false)
            }
            Step::Hold => held = Some(vec![]),
            Step::Flush => {
                if let Some(h) = held.take() {
                    if !h.is_empty() {
                        net::raw_send(cx, &h, true);
                    }
                }
            }
            Step::WaitAnswers => {
                if !p.until(wait, |p| p.waiting.is_empty()).await {
                    all = false;
                    for s in std::mem::take(&mut p.waiting) {
                        rec(Ev::CMissing { c: 1000 + cfg.r, cx, seq: s });
                    }
                }
            }
            Step::Close { clean } => {
                net::raw_close(cx, *clean);
                break;
            }
        }
    }
    if let Some(h) = held.take() {
        if !h.is_empty() {
            net::raw_send(cx, &h, true);
        }
    }
    if linger {
        with(|w| w.busy -= 1);
        p.until(10_000_000 * MS, |_| false).await;
    }
    (Some(cx), all)
}
