//! Judges the sessions of the generated consumers.
use crate::exec::Run;
use crate::oracle::{answer_kind, number_of, short, Verdict};
use crate::plan::*;
use simrt::{MS, SEC};
use simworld::hist::*;
use simworld::wire::{Frame, K};
use std::collections::{BTreeMap, HashMap, HashSet};

/// One attempt of a consumer: from the connection attempt to the shutdown event.
struct Sess {
    start: usize,
    end: usize,
    cx: Option<Cx>,
    refused: Option<usize>,
    down: Option<usize>,
    /// first reason for the session to come to an end
    cause: Option<usize>,
    connected: Vec<usize>,
    disc: Vec<usize>,
    shut: Vec<usize>,
    reconnects: Vec<usize>,
    asked: Vec<usize>,
    asked_ok: Option<usize>,
    refusal: Option<usize>,
    /// from this offset on the stream has no framing
    loose_from: u64,
    send_err: bool,
}
struct Call {
    i: usize,
    kind: K,
    op: u64,
    ret: Option<(usize, CallRes)>,
    dropped: Option<usize>,
    sess: usize,
}
pub fn check(scn: &Scn, run: &Run, v: &mut Verdict) {
    for g in scn.gens.iter() {
        client(scn, run, g, v);
    }
}
fn client(scn: &Scn, run: &Run, g: &GenC, v: &mut Verdict) {
    let h = &run.hist;
    let c = g.c;
    let t = |i: usize| if i < h.len() { h[i].t } else { run.time };
    let closing = h.iter().position(|r| r.ev == Ev::Phase("closing")).unwrap_or(h.len());
    let settled = h.iter().position(|r| r.ev == Ev::Phase("settled")).unwrap_or(h.len());
    let crash = h.iter().position(|r| r.ev == Ev::Crash { node: 10 + c as u32 });
    let stall: u64 = scn.faults.iter().map(|f| match f.f {
        Fault::StallClient(x, d) if x == c => d,
        _ => 0,
    }).sum();
    let slack = 100 * MS + stall + scn.knobs.slow_close;
    // time the tasks of the client may need to get to an arrival
    let lag = 30 * MS + stall + scn.poll_cost * if matches!(scn.profile, Profile::Bulk | Profile::Crowd) { 20_000 } else { 3000 };
    // ---- sessions
    let mut ss: Vec<Sess> = vec![];
    let mut started = false;
    for (i, r) in h.iter().enumerate() {
        match &r.ev {
            Ev::CStart { c: x } if *x == c => started = true,
            Ev::CAttempt { c: x } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.end = i;
                }
                ss.push(Sess {
                    start: i, end: h.len(), cx: None, refused: None, down: None, cause: None, connected: vec![], disc: vec![], shut: vec![], reconnects: vec![],
                    asked: vec![], asked_ok: None, refusal: None, loose_from: u64::MAX, send_err: false,
                });
            }
            Ev::CRefused { c: x } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.refused = Some(i);
                    s.cause.get_or_insert(i);
                }
            }
            Ev::CLinkUp { c: x, cx } | Ev::CRecv { c: x, cx, .. } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.cx = Some(*cx);
                    if let Ev::CRecv { frames, .. } = &r.ev {
                        for f in frames {
                            if f.kind == K::HashResponse && f.text.is_some() && !run.bad_s2c.contains(&(*cx, f.start)) {
                                s.refusal.get_or_insert(i);
                                s.cause.get_or_insert(i);
                            }
                        }
                    }
                }
            }
            Ev::CLinkDown { c: x, cx, .. } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    if s.cx.is_none() {
                        s.cx = Some(*cx);
                    }
                    if s.cx == Some(*cx) {
                        s.down.get_or_insert(i);
                    }
                }
            }
            Ev::CSend { c: x, ok: false, .. } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.cause.get_or_insert(i);
                    s.send_err = true;
                }
            }
            Ev::CConnected { c: x } if *x == c => match ss.last_mut() {
                Some(s) => s.connected.push(i),
                None => v.bad(&["R15"], i, format!("consumer {} reported connected before any attempt", c)),
            },
            Ev::CDisconnected { c: x } if *x == c => match ss.last_mut() {
                Some(s) => s.disc.push(i),
                None => v.bad(&["R15"], i, format!("consumer {} reported disconnected before any attempt", c)),
            },
            Ev::CShutdown { c: x, .. } if *x == c => match ss.last_mut() {
                Some(s) => s.shut.push(i),
                None => v.bad(&["R15"], i, format!("consumer {} reported shutdown before any attempt", c)),
            },
            Ev::CReconnect { c: x, .. } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.reconnects.push(i);
                }
            }
            Ev::CShutdownCall { c: x, .. } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.asked.push(i);
                    if s.shut.is_empty() {
                        s.cause.get_or_insert(i);
                    }
                }
            }
            Ev::CShutdownRet { c: x, ok: true, .. } if *x == c => {
                if let Some(s) = ss.last_mut() {
                    s.asked_ok = Some(i);
                }
            }
            Ev::TDown { cx } | Ev::Reset { cx } | Ev::TDisconnect { cx: Some(cx), .. } => {
                let p = run.peers.get(*cx).map(|p| p.0);
                if p == Some(c) {
                    if let Some(s) = ss.last_mut() {
                        if s.cx.is_none() || s.cx == Some(*cx) {
                            s.cause.get_or_insert(i);
                        }
                    }
                }
            }
            Ev::TEnd { .. } | Ev::TShutdown { .. } | Ev::Crash { node: 1 } => {
                if let Some(s) = ss.last_mut() {
                    s.cause.get_or_insert(i);
                }
            }
            Ev::Desync { cx, dir: Dir::S2C, off } => {
                if run.peers.get(*cx).map(|p| p.0) == Some(c) {
                    if let Some(s) = ss.last_mut() {
                        s.loose_from = s.loose_from.min(*off);
                    }
                }
            }
            _ => {}
        }
    }
    if started && ss.is_empty() && crash.is_none() {
        v.bad(&["R16"], h.len(), format!("consumer {} never tried to connect", c));
    }
    let mitm_handshake = g.mitm.handshake;
    // ---- calls
    let mut calls: Vec<Call> = vec![];
    let mut by_op: HashMap<u64, usize> = HashMap::new();
    for (i, r) in h.iter().enumerate() {
        match &r.ev {
            Ev::CCall { c: x, kind, op } if *x == c => {
                let sess = ss.iter().rposition(|s| s.start < i).unwrap_or(0);
                by_op.insert(*op, calls.len());
                calls.push(Call { i, kind: *kind, op: *op, ret: None, dropped: None, sess });
            }
            Ev::CRet { c: x, op, res } if *x == c => {
                if let Some(k) = by_op.get(op) {
                    calls[*k].ret = Some((i, res.clone()));
                }
            }
            Ev::CDrop { c: x, op } if *x == c => {
                if let Some(k) = by_op.get(op) {
                    calls[*k].dropped = Some(i);
                }
            }
            _ => {}
        }
    }
    access(run, g, v, &ss, crash.is_some(), mitm_handshake, lag, &t);
    // ---- events of each session
    let n = ss.len();
    for k in 0..n {
        let s = &ss[k];
        let cut = crash.map(|x| x >= s.start && x < s.end).unwrap_or(false);
        session_events(run, g, v, s, k, cut, mitm_handshake, crash);
        broadcasts(run, g, v, s, lag, closing, cut, t(closing), &t);
        transport_errors(run, g, v, s, lag, cut, &t);
        reason(run, g, v, s, cut);
        reconnection(run, g, v, &ss, k, cut, slack, &t);
        shutdowns(run, g, v, s, n == k + 1, cut, stall, lag, &t);
        // no session ends by itself
        if let Some(d) = s.down.or_else(|| s.disc.first().copied()) {
            v.ok("R13");
            v.ok("R23");
            let d = s.disc.first().copied().unwrap_or(d).min(d);
            let caused = s.cause.map(|x| x <= d).unwrap_or(false) || mitm_handshake || s.loose_from != u64::MAX;
            if !caused && !cut {
                let mut props = vec!["R13", "R23", "R15"];
                for call in calls.iter().filter(|x| x.sess == k && x.i < d && x.ret.as_ref().map(|r| r.0 >= d).unwrap_or(x.dropped.is_none())) {
                    let p = if call.kind.is_beacon() { "R14" } else { "R01" };
                    if !props.contains(&p) {
                        props.push(p);
                    }
                }
                v.bad(&props, d, format!("the session of consumer {} ended although nothing happened to it", c));
            }
        }
    }
    // ---- a number identifies one call at a time
    let mut open: BTreeMap<(usize, u32), u64> = BTreeMap::new();
    for (i, r) in h.iter().enumerate() {
        let (sends, frames) = match &r.ev {
            Ev::CSend { c: x, frames, ok: true, .. } if *x == c => (true, frames),
            Ev::CRecv { c: x, frames, .. } if *x == c => (false, frames),
            _ => continue,
        };
        let k = match ss.iter().position(|s| s.start <= i && i < s.end) {
            Some(k) => k,
            None => continue,
        };
        for f in frames {
            if !sends {
                open.remove(&(k, f.seq));
            } else if by_op.contains_key(&f.a) && (f.kind.is_request() || f.kind.is_beacon()) {
                if let Some(other) = open.insert((k, f.seq), f.a) {
                    v.bad(&["R01", "R13", "R14"], i, format!("calls {} and {} of consumer {} were waiting under one number, {}", other, f.a, c, f.seq));
                }
            }
        }
    }
    // ---- calls
    for call in &calls {
        judge_call(scn, run, g, v, &ss, call, slack, lag, crash, &t);
    }
    // ---- once the network is healthy the consumer is there again
    if started && crash.is_none() && g.reconnect.is_some() && settled < h.len() {
        let gone = ss.iter().any(|s| s.asked.iter().any(|a| *a < settled) || s.refusal.is_some()) || mitm_handshake || g.mitm.bad_hash != 0;
        let refused = h.iter().any(|r| matches!(&r.ev, Ev::CReconnect { c: x, yes: false, .. } if *x == c));
        let runs = serves(run, settled);
        // an application that asks before it is connected is sent away by a producer, whatever the network does
        let early = ss.iter().filter(|s| s.start < settled).rev().take(2).any(|s| {
            let until = s.connected.first().copied().unwrap_or(s.end);
            h.iter().take(until).skip(s.start).any(|r| matches!(&r.ev, Ev::CSend { c: x, frames, .. } if *x == c && frames.iter().any(|f| f.kind.is_request() || f.kind.is_beacon())))
        });
        if !gone && !early && !refused && runs && !scn.bind_fails && scn.ident_tolerant() && !h.iter().any(|r| matches!(&r.ev, Ev::PAppDisconnect { .. })) {
            v.ok("R16");
            let s = ss.iter().rfind(|s| s.start < settled);
            let after = |x: Option<usize>| x.map(|x| x > settled).unwrap_or(true);
            let up = s.map(|s| !s.connected.is_empty() && s.connected[0] < settled && after(s.down) && after(s.disc.first().copied())).unwrap_or(false);
            if ss.len() > 1 {
                v.hard("R16");
            }
            if !up {
                v.bad(&["R16"], settled, format!("consumer {} is not connected although everything has been healthy for a while", c));
            }
        }
    }
}
/// A producer runs at this point and was not asked to stop.
fn serves(run: &Run, at: usize) -> bool {
    let mut on = false;
    for r in run.hist.iter().take(at) {
        match &r.ev {
            Ev::PRunStart { .. } => on = true,
            Ev::PRunEnd { .. } | Ev::Crash { node: 1 } | Ev::PShutdownCall { .. } => on = false,
            Ev::Fault(s) if s.starts_with("transport down") => on = false,
            _ => {}
        }
    }
    on
}
fn session_events(run: &Run, g: &GenC, v: &mut Verdict, s: &Sess, k: usize, cut: bool, mitm_handshake: bool, crash: Option<usize>) {
    let c = g.c;
    let h = &run.hist;
    v.ok("R15");
    if s.disc.is_empty() && s.connected.is_empty() {
        v.hard("R15");
    }
    if s.connected.len() > 1 {
        v.bad(&["R15"], s.connected[1], format!("session {} of consumer {} reported connected {} times", k, c, s.connected.len()));
    }
    if s.disc.len() > 1 {
        v.bad(&["R15"], s.disc[1], format!("session {} of consumer {} reported disconnected {} times", k, c, s.disc.len()));
    }
    if s.shut.len() > 1 {
        v.bad(&["R15"], s.shut[1], format!("session {} of consumer {} reported shutdown {} times", k, c, s.shut.len()));
    }
    if let (Some(a), Some(d)) = (s.connected.first(), s.disc.first()) {
        if a > d {
            v.bad(&["R15"], *a, format!("consumer {} reported connected after disconnected", c));
        }
    }
    if let Some(x) = s.shut.first() {
        if s.disc.is_empty() || s.disc[0] > *x {
            v.bad(&["R15"], *x, format!("session {} of consumer {} was shut down without reporting disconnected first", k, c));
        }
        for (i, r) in h.iter().enumerate().take(s.end).skip(*x + 1) {
            let what = match &r.ev {
                Ev::CConnected { c: y } | Ev::CDisconnected { c: y } if *y == c => true,
                Ev::CError { c: y, .. } | Ev::CBroadcast { c: y, .. } if *y == c => true,
                _ => false,
            };
            if what {
                v.bad(&["R15"], i, format!("consumer {} got {} after the shutdown of its session", c, short(&r.ev)));
            }
        }
    }
    // an ended session has both
    let ended = s.down.or(s.refused).map(|d| h[d].t + SEC < run.time || s.end < h.len()).unwrap_or(false);
    let over = s.end < h.len() || run.hist.last().map(|r| r.ev == Ev::Phase("end")).unwrap_or(false);
    if ended && over && !cut {
        if s.disc.is_empty() {
            v.bad(&["R15"], s.end, format!("session {} of consumer {} ended without reporting disconnected", k, c));
        } else if s.shut.is_empty() {
            v.bad(&["R15"], s.end, format!("session {} of consumer {} ended without reporting shutdown", k, c));
        }
    }
    if let Some(x) = crash {
        if s.start > x {
            v.bad(&["HARNESS"], s.start, String::from("a crashed consumer goes on"));
        }
    }
    // connected only after the whole handshake
    if let Some(a) = s.connected.first() {
        let (mut conf, mut key, mut hash) = (false, false, false);
        for r in h.iter().take(*a).skip(s.start) {
            if let Ev::CRecv { c: x, cx, frames, .. } = &r.ev {
                if *x == c {
                    for f in frames {
                        if run.bad_s2c.contains(&(*cx, f.start)) {
                            continue;
                        }
                        match f.kind {
                            K::ConnectConfirmation => conf = true,
                            K::SelfKeyResponse => key = true,
                            K::HashResponse if f.text.is_none() => hash = true,
                            _ => {}
                        }
                    }
                }
            }
        }
        v.ok("R15");
        if !(conf && key && hash) {
            v.bad(&["R15", "R03"], *a, format!("consumer {} reported connected without the complete handshake (confirmation {}, key {}, hashes {})", c, conf, key, hash));
        }
        if g.mitm.bad_hash != 0 {
            v.bad(&["R03"], *a, format!("consumer {} was built from another protocol and reported connected", c));
        }
    } else if let (Some(cx), false) = (s.cx, cut || mitm_handshake) {
        // the handshake was completed on a session that lived on
        let done = h.iter().enumerate().take(s.end).skip(s.start).find(|(_, r)| match &r.ev {
            Ev::CRecv { c: x, frames, .. } if *x == c => frames.iter().any(|f| f.kind == K::HashResponse && f.text.is_none() && !run.bad_s2c.contains(&(cx, f.start)) && f.end <= s.loose_from),
            _ => false,
        });
        if let Some((i, r)) = done {
            let until = s.cause.or(s.down).unwrap_or(h.len());
            let tu = if until < h.len() { h[until].t } else { run.time };
            if tu > r.t + 2 * SEC {
                v.bad(&["R15"], i, format!("consumer {} never reported connected although its handshake was finished", c));
            }
        }
    }
    // a refusal is reported
    if let Some(i) = s.refusal {
        v.ok("R03");
        v.hard("R03");
        if !mitm_handshake && !cut && s.loose_from == u64::MAX && !s.send_err {
            let told = h.iter().take(s.end).skip(i).any(|r| matches!(&r.ev, Ev::CError { c: x, class: "HashCheck", .. } if *x == c));
            let early = s.asked.iter().any(|a| *a < i);
            if !told && !early && over && !overtaken(h, c, s, i) {
                v.bad(&["R03"], i, format!("consumer {} was refused and did not report it", c));
            }
        }
    }
}
fn broadcasts(run: &Run, g: &GenC, v: &mut Verdict, s: &Sess, lag: u64, closing: usize, cut: bool, t_closing: u64, t: &dyn Fn(usize) -> u64) {
    let c = g.c;
    let h = &run.hist;
    let cx = match s.cx {
        Some(cx) => cx,
        None => return,
    };
    struct Arr {
        i: usize,
        kind: K,
        bid: u64,
    }
    let mut arr: Vec<Arr> = vec![];
    let mut got: Vec<(usize, K, u64, bool)> = vec![];
    let mut bad_frames = 0u64;
    let mut all_bad = 0u64;
    let mut answered: HashSet<K> = HashSet::new();
    let mut bad_first: Option<usize> = None;
    let mut seen_seq: HashSet<u32> = HashSet::new();
    let mut errors: Vec<usize> = vec![];
    let mut open: Option<u64> = None;
    // when the session was known to be over
    let dead = s.cause.or(s.down).unwrap_or(h.len()).min(s.disc.first().copied().unwrap_or(h.len())).min(s.down.unwrap_or(h.len()));
    let margin = t(dead).saturating_sub(lag);
    for (i, r) in h.iter().enumerate().take(s.end).skip(s.start) {
        match &r.ev {
            Ev::CRecv { c: x, cx: y, frames, .. } if *x == c && *y == cx => {
                for f in frames {
                    if f.end > s.loose_from {
                        continue;
                    }
                    if run.bad_s2c.contains(&(cx, f.start)) {
                        all_bad += 1;
                        if r.t < margin {
                            bad_frames += 1;
                        }
                        bad_first.get_or_insert(i);
                        continue;
                    }
                    if f.kind.is_handshake_answer() && !answered.insert(f.kind) {
                        all_bad += 1;
                    }
                    if f.kind.is_broadcast() {
                        arr.push(Arr { i, kind: f.kind, bid: f.a });
                    } else if !f.kind.is_handshake_answer() && !seen_seq.insert(f.seq) {
                        all_bad += 1;
                        if r.t < margin {
                            bad_frames += 1;
                        }
                        bad_first.get_or_insert(i);
                    }
                }
            }
            Ev::CForeign { c: x, cx: y } if *x == c && *y == cx => {
                all_bad += 1;
                if r.t < margin {
                    bad_frames += 1;
                }
                bad_first.get_or_insert(i);
            }
            Ev::CBroadcast { c: x, kind, bid, intact } if *x == c => {
                if open.is_some() {
                    v.bad(&["R22"], i, format!("consumer {} was given broadcast {} while it was still handling {}", c, bid, open.unwrap()));
                }
                open = Some(*bid);
                got.push((i, *kind, *bid, *intact));
            }
            Ev::CBroadcastEnd { c: x, bid } if *x == c => {
                if open == Some(*bid) {
                    open = None;
                }
            }
            Ev::CConnected { c: x } | Ev::CDisconnected { c: x } | Ev::CShutdown { c: x, .. } if *x == c => {
                if let Some(b) = open.take() {
                    v.bad(&["R22"], i, format!("consumer {} was given {} while it was still handling broadcast {}", c, short(&r.ev), b));
                }
            }
            Ev::CError { c: x, .. } if *x == c => errors.push(i),
            _ => {}
        }
    }
    let loose = s.loose_from != u64::MAX;
    for (k, (i, kind, bid, intact)) in got.iter().enumerate() {
        v.ok("R22");
        v.ok("R04");
        if arr.len() > 2 {
            v.hard("R22");
        }
        let mut p = vec!["R22"];
        if bad_first.is_some() {
            p.push("R23");
        }
        match arr.get(k) {
            Some(a) if a.kind == *kind && a.bid == *bid => {
                if a.i > *i {
                    v.bad(&p, *i, format!("consumer {} was given broadcast {} before it arrived", c, bid));
                    break;
                }
                if !intact {
                    v.bad(&["R22", "R21", "R04"], *i, format!("consumer {} was given broadcast {:?} {} with another content", c, kind, bid));
                }
            }
            Some(a) => {
                if !loose {
                    v.bad(&p, *i, format!("consumer {} was given broadcast {:?} {}, the next one that arrived is {:?} {} (event {})", c, kind, bid, a.kind, a.bid, a.i));
                }
                return;
            }
            None => {
                if !loose {
                    v.bad(&p, *i, format!("consumer {} was given broadcast {:?} {}, which did not arrive", c, kind, bid));
                }
                return;
            }
        }
    }
    if cut {
        return;
    }
    let ended = !s.shut.is_empty();
    let n = arr.len() as u64;
    if let Some(a) = arr.get(got.len()) {
        let ta = t(a.i);
        let must = if ended {
            ta < margin
        } else {
            dead > closing && ta + n * (47 * MS + g.bc_delay) + 200 * MS + lag < t_closing
        };
        if must {
            let mut p = vec!["R22"];
            if bad_first.map(|b| b <= a.i).unwrap_or(false) {
                p.push("R23");
            }
            p.push("R07");
            p.push("R21");
            v.bad(&p, a.i, format!("broadcast {:?} {} arrived at consumer {} and was never given to it", a.kind, a.bid, c));
        }
    }
    let odd = errors.iter().filter(|i| h[**i].t < margin && matches!(&h[**i].ev, Ev::CError { class: "Buffer" | "Unknown", .. })).count() as u64;
    if odd > all_bad && !loose {
        v.bad(&["R23"], s.end, format!("consumer {} reports {} unreadable or unknown messages, it has received {}", c, odd, all_bad));
    }
    if bad_frames > 0 {
        v.ok("R23");
        v.hard("R23");
        if ended && (errors.len() as u64) < bad_frames {
            v.bad(&["R23"], s.end, format!("consumer {} received {} unreadable, unknown or unsolicited messages and reported {} errors", c, bad_frames, errors.len()));
        }
    }
}
/// What the transport of a consumer reported, and why its session ended, is told once.
fn transport_errors(run: &Run, g: &GenC, v: &mut Verdict, s: &Sess, lag: u64, cut: bool, t: &dyn Fn(usize) -> u64) {
    let c = g.c;
    let h = &run.hist;
    let dead = s.cause.or(s.down).unwrap_or(h.len()).min(s.disc.first().copied().unwrap_or(h.len())).min(s.down.unwrap_or(h.len()));
    let margin = t(dead).saturating_sub(lag);
    // number: when, kind, as the reason of the end, how often told
    let mut e: BTreeMap<u64, (usize, &'static str, bool, u32)> = BTreeMap::new();
    for (i, r) in h.iter().enumerate().take(s.end).skip(s.start) {
        match &r.ev {
            Ev::CTError { c: x, n, class, last } if *x == c => {
                e.insert(*n, (i, class, *last, 0));
            }
            Ev::CError { c: x, class, what } if *x == c => {
                let n = match number_of(what) {
                    Some(n) => n,
                    None if *class == "Client" => {
                        v.bad(&["R24"], i, format!("consumer {} reports an error its transport has not had: {}", c, what));
                        continue;
                    }
                    None => continue,
                };
                v.ok("R24");
                match e.get_mut(&n) {
                    Some(e) => {
                        e.3 += 1;
                        if e.3 > 1 {
                            v.bad(&["R24"], i, format!("consumer {} reports an error of its transport again: {}", c, what));
                        }
                        if e.1 != *class {
                            v.bad(&["R24"], i, format!("consumer {} reports an error of its transport ({}) as one of another kind ({}): {}", c, e.1, class, what));
                        }
                    }
                    None => v.bad(&["R24"], i, format!("consumer {} reports an error its transport has not had in this session: {}", c, what)),
                }
            }
            _ => {}
        }
    }
    if cut || s.shut.is_empty() {
        return;
    }
    for (n, (i, _, last, told)) in e {
        if told == 0 && (last || h[i].t < margin) {
            v.bad(&["R24"], i, format!("consumer {} does not report error {} of its transport{}", c, n, if last { ", which ended its session" } else { "" }));
        }
    }
}
/// When a session had a reason to end.
fn over_at(h: &[Rec], s: &Sess) -> usize {
    let x = |o: Option<usize>| o.unwrap_or(h.len());
    x(s.cause).min(x(s.down)).min(x(s.refused)).min(x(s.asked.first().copied())).min(x(s.disc.first().copied())).min(x(s.shut.first().copied()))
}
/// R25
fn access(run: &Run, g: &GenC, v: &mut Verdict, ss: &[Sess], crashed: bool, mitm: bool, lag: u64, t: &dyn Fn(usize) -> u64) {
    let c = g.c;
    let h = &run.hist;
    if crashed {
        return;
    }
    for (i, r) in h.iter().enumerate() {
        let id = match r.ev {
            Ev::CGetCall { c: x, id } if x == c => id,
            _ => continue,
        };
        v.ok("R25");
        let (mut ret, mut token, mut stale) = (None, None, None);
        for (j, r) in h.iter().enumerate().skip(i) {
            match &r.ev {
                Ev::CGetRet { c: x, id: y, ok } if *x == c && *y == id => ret = Some((j, *ok)),
                Ev::CToken { c: x, id: y } if *x == c && *y == id => token = Some(j),
                Ev::CStale { c: x, id: y, res } if *x == c && *y == id => stale = Some((j, res)),
                _ => {}
            }
        }
        // in a session that goes on it is there at once
        for s in ss.iter().filter(|s| s.end > i) {
            let a = t(i).max(t(s.start));
            let b = t(over_at(h, s));
            if b > a + 2 * lag && ret.map(|(j, _)| t(j) > a + lag).unwrap_or(true) {
                v.bad(&["R25"], i, format!("consumer {} was asked for in its session and is not given within {} ms", c, lag / MS));
            }
            break;
        }
        match ret {
            Some((j, false)) => {
                v.hard("R25");
                let live = ss.iter().any(|s| s.start > j) || ss.iter().rev().find(|s| s.start <= j).map(|s| over_at(h, s) > j).unwrap_or(true);
                if live {
                    v.bad(&["R25"], j, format!("consumer {} lives and access to it is answered with an error", c));
                }
            }
            Some((j, true)) => {
                let s = match ss.iter().rev().find(|s| s.start <= j) {
                    Some(s) => s,
                    None => {
                        v.bad(&["R25"], j, format!("consumer {} was given before it had a session", c));
                        continue;
                    }
                };
                let shut = s.shut.first().copied();
                if i < s.start {
                    v.hard("R25");
                }
                if shut.map(|x| t(j) > t(x) + lag).unwrap_or(false) {
                    v.bad(&["R25"], j, format!("consumer {} was given after the end of its session", c));
                }
                match token {
                    Some(k) => {
                        // a session that has just begun may not be the one the consumer was given in
                        if over_at(h, s) > k && t(k) > t(s.start) + lag && !mitm && s.loose_from == u64::MAX {
                            v.bad(&["R25"], k, format!("consumer {}: its token is cancelled in the middle of its session", c));
                        }
                        if shut.map(|x| t(k) > t(x) + lag).unwrap_or(false) {
                            v.bad(&["R25"], k, format!("consumer {}: its token is cancelled long after its session", c));
                        }
                    }
                    None => {
                        if shut.map(|x| t(x) + lag < run.time).unwrap_or(false) {
                            v.bad(&["R25"], j, format!("consumer {}: its token is not cancelled after its session", c));
                        }
                    }
                }
                match stale {
                    Some((_, Some(CallRes::Err(_)))) | None => {}
                    Some((k, res)) => v.bad(&["R25", "R13"], k, format!("consumer {}: a call on it after the end of its session gives {:?}", c, res)),
                }
            }
            None => {
                let last = ss.last().and_then(|s| s.shut.first().map(|x| (*x, s)));
                if let Some((x, s)) = last {
                    let again = s.reconnects.iter().any(|r| matches!(h[*r].ev, Ev::CReconnect { yes: true, .. }));
                    if !again && t(x.max(i)) + lag + g.ev_delay + 500 * MS < run.time {
                        v.bad(&["R25"], i, format!("consumer {} has ended and access to it is never answered", c));
                    }
                }
            }
        }
    }
}
/// What the shutdown of a session says it ended for.
fn reason(run: &Run, g: &GenC, v: &mut Verdict, s: &Sess, cut: bool) {
    let c = g.c;
    let h = &run.hist;
    let i = match s.shut.first() {
        Some(i) if !cut => *i,
        _ => return,
    };
    let err = match &h[i].ev {
        Ev::CShutdown { err, .. } => err,
        _ => return,
    };
    let (mut last, mut refused, mut other) = (None, false, false);
    for r in &h[s.start..s.end] {
        match &r.ev {
            Ev::CTError { c: x, n, last: true, .. } if *x == c => last = Some(*n),
            Ev::CError { c: x, class, .. } if *x == c => match *class {
                "HashCheck" => refused = true,
                "Client" | "Buffer" | "Unknown" => {}
                _ => other = true,
            },
            _ => {}
        }
    }
    v.ok("R15");
    match (last, err) {
        (Some(n), Some(e)) if number_of(e) == Some(n) => v.hard("R15"),
        (Some(n), e) => v.bad(&["R15", "R24"], i, format!("consumer {}: the session ended with error {} of its transport, the reason of its shutdown is {:?}", c, n, e)),
        (None, None) if refused || s.send_err => {
            v.bad(&["R15"], i, format!("consumer {}: the session ended because {}, its shutdown has no reason", c, if refused { "it was refused" } else { "its messages could not be sent" }))
        }
        (None, Some(e)) => {
            let m = &g.mitm;
            let odd = m.drop + m.dup + m.garbage + m.unknown + m.unsolicited + m.badbody + m.again + m.foreign > 0 || m.handshake;
            if !refused && !s.send_err && !other && !odd && s.loose_from == u64::MAX {
                v.bad(&["R15"], i, format!("consumer {}: the session ended without an error, its shutdown says {}", c, e));
            }
        }
        _ => {}
    }
}
/// Broadcasts are handled one after another; one that still keeps the session busy lets the end of the connection
/// be noticed before the refusal behind it.
fn overtaken(h: &[Rec], c: usize, s: &Sess, refusal: usize) -> bool {
    let (mut came, mut done) = (0, 0);
    for (i, r) in h.iter().enumerate().take(s.end).skip(s.start) {
        match &r.ev {
            Ev::CRecv { c: x, frames, .. } if *x == c && i <= refusal => came += frames.iter().filter(|f| f.kind.is_broadcast()).count(),
            Ev::CBroadcastEnd { c: x, .. } if *x == c && i < refusal => done += 1,
            _ => {}
        }
    }
    came > done
}
fn reconnection(run: &Run, g: &GenC, v: &mut Verdict, ss: &[Sess], k: usize, cut: bool, slack: u64, t: &dyn Fn(usize) -> u64) {
    let c = g.c;
    let s = &ss[k];
    let h = &run.hist;
    let next = ss.get(k + 1);
    if cut {
        return;
    }
    let refused_hash = s.refusal.map(|i| !overtaken(h, c, s, i)).unwrap_or(false) || h.iter().take(s.end).skip(s.start).any(|r| matches!(&r.ev, Ev::CError { c: x, class: "HashCheck", .. } if *x == c));
    let asked = !s.asked.is_empty();
    let is_final = refused_hash;
    for i in &s.reconnects {
        if s.shut.is_empty() || s.shut[0] > *i {
            v.bad(&["R16", "R15"], *i, format!("consumer {} was asked about reconnecting before its session was over", c));
        }
        if let Ev::CReconnect { timeout, .. } = &h[*i].ev {
            match g.reconnect {
                None => v.bad(&["R16"], *i, format!("consumer {} has reconnecting disabled and was asked to reconnect", c)),
                Some(x) if x != *timeout => v.bad(&["R16"], *i, format!("consumer {} was told to wait {} ms instead of {}", c, timeout, x)),
                _ => {}
            }
        }
    }
    if s.reconnects.len() > 1 {
        v.bad(&["R16"], s.reconnects[1], format!("consumer {} was asked to reconnect twice", c));
    }
    let done = match s.shut.first() {
        Some(x) => *x,
        None => {
            if let Some(n) = next {
                v.bad(&["R15", "R16"], n.start, format!("consumer {} started a new attempt before the last session was over", c));
            }
            return;
        }
    };
    v.ok("R16");
    // a request that was acknowledged, or reached the transport before its caller gave up
    let passed_on = || h.iter().take(done).skip(s.start).any(|r| matches!(&r.ev, Ev::CTShutdown { c: x } if *x == c));
    if (s.asked_ok.map(|a| a < s.end || next.is_some()).unwrap_or(false) || passed_on()) && s.asked.iter().any(|a| *a < done) {
        v.hard("R18");
        if let Some(i) = s.reconnects.first() {
            v.bad(&["R16", "R18"], *i, format!("consumer {} was shut down and asked to reconnect", c));
        }
        if let Some(n) = next {
            v.bad(&["R16", "R18"], n.start, format!("consumer {} was shut down and connects again", c));
        }
        return;
    }
    let yes = s.reconnects.first().map(|i| matches!(&h[*i].ev, Ev::CReconnect { yes: true, .. }));
    match (yes, next) {
        (Some(false), Some(n)) | (None, Some(n)) => v.bad(&["R16"], n.start, format!("consumer {} connects again without the application's agreement", c)),
        (Some(true), Some(n)) => {
            let i = s.reconnects[0];
            let want = g.reconnect.unwrap_or(0) * MS;
            let d = t(n.start) - t(i);
            v.hard("R16");
            if d + MS < want {
                v.bad(&["R16"], n.start, format!("consumer {} connects again after {} us instead of {}", c, d / 1000, want / 1000));
            } else if d > want + slack {
                v.bad(&["R16"], n.start, format!("consumer {} connects again only after {} ms instead of {}", c, d / MS, want / MS));
            }
        }
        (Some(true), None) => {
            let i = s.reconnects[0];
            if t(i) + g.reconnect.unwrap_or(0) * MS + slack < run.time && !h.iter().skip(i).any(|r| r.ev == Ev::Crash { node: 10 + c as u32 }) {
                v.bad(&["R16"], i, format!("consumer {} agreed to reconnect and never did", c));
            }
        }
        (None, None) => {
            let crashed = h.iter().skip(s.start).any(|r| r.ev == Ev::Crash { node: 10 + c as u32 });
            if g.reconnect.is_some() && !is_final && !asked && !crashed && t(done) + slack < run.time {
                v.bad(&["R16"], done, format!("the session of consumer {} ended and it was not asked to reconnect", c));
            }
        }
        _ => {}
    }
    if is_final && !g.mitm.handshake {
        if let Some(n) = next {
            // the same peer would be refused again
            v.bad(&["R03", "R16"], n.start, format!("consumer {} was refused and connects again", c));
        }
    }
}
fn shutdowns(run: &Run, g: &GenC, v: &mut Verdict, s: &Sess, last: bool, cut: bool, stall: u64, lag: u64, t: &dyn Fn(usize) -> u64) {
    let c = g.c;
    let h = &run.hist;
    if cut {
        return;
    }
    let _ = last;
    for a in &s.asked {
        let id = match &h[*a].ev {
            Ev::CShutdownCall { id, .. } => *id,
            _ => continue,
        };
        let ret = h.iter().enumerate().skip(*a).find_map(|(i, r)| match &r.ev {
            Ev::CShutdownRet { c: x, id: y, ok } if *x == c && *y == id => Some((i, *ok)),
            _ => None,
        });
        v.ok("R18");
        // handlers that are still running come first
        let backlog: u64 = h.iter().take(*a).skip(s.start).filter(|r| matches!(&r.ev, Ev::CRecv { c: x, frames, .. } if *x == c && frames.iter().any(|f| f.kind.is_broadcast()))).count() as u64;
        let bound = 5 * SEC + stall + backlog * 50 * MS;
        let dropped = ret.is_none() && t(*a) + bound < run.time && id < 1000;
        match ret {
            None => {
                let given_up = plan_drop(id, run);
                if !given_up && (dropped || t(*a) + bound < run.time) {
                    v.bad(&["R18"], *a, format!("shutdown {} of consumer {} never returned", id, c));
                }
            }
            Some((i, ok)) => {
                if t(i) > t(*a) + bound {
                    v.bad(&["R18"], i, format!("shutdown {} of consumer {} took {} ms", id, c, (t(i) - t(*a)) / MS));
                }
                // the session was alive when it was asked for
                // one that came shortly before the end may have been too late to be noticed
                let other = [s.down, s.refused].iter().flatten().any(|x| *x < i && t(*x) <= t(*a) + lag) && !ok;
                let begun = h.iter().take(*a).skip(s.start).any(|r| matches!(&r.ev, Ev::CLinkUp { c: x, .. } if *x == c)) || t(*a) > t(s.start) + lag;
                let alive = begun && (s.cause == Some(*a) || s.asked.first() == s.cause.as_ref());
                if alive {
                    v.hard("R18");
                    if !ok && !other && s.refusal.is_none() && !s.send_err {
                        v.bad(&["R18"], i, format!("shutdown {} of consumer {} was answered with an error", id, c));
                    }
                    if ok {
                        let told = h.iter().take(i).skip(s.start).any(|r| matches!(&r.ev, Ev::CTShutdown { c: x } if *x == c));
                        if !told {
                            v.bad(&["R18"], i, format!("the transport of consumer {} was not asked to shut down", c));
                        }
                        if s.disc.first().map(|d| *d < i) != Some(true) || s.shut.first().map(|d| *d < i) != Some(true) {
                            v.bad(&["R18", "R15"], i, format!("shutdown {} of consumer {} returned before the final events of the session", id, c));
                        }
                    }
                }
            }
        }
    }
}
/// Requests that are given up by their caller need not return.
fn plan_drop(id: u32, run: &Run) -> bool {
    run.given_up.contains(&id)
}
fn judge_call(scn: &Scn, run: &Run, g: &GenC, v: &mut Verdict, ss: &[Sess], call: &Call, slack: u64, lag: u64, crash: Option<usize>, t: &dyn Fn(usize) -> u64) {
    let c = g.c;
    let h = &run.hist;
    let s = match ss.get(call.sess) {
        Some(s) => s,
        None => return,
    };
    let base: &'static str = if call.kind.is_beacon() { "R14" } else { "R01" };
    if crash.map(|x| x >= call.i).unwrap_or(false) && call.ret.is_none() && call.dropped.is_none() {
        return;
    }
    let t0 = t(call.i);
    let end = call.ret.as_ref().map(|x| x.0).or(call.dropped).unwrap_or(h.len());
    // first moment something happened to the session
    let cause = s.cause.unwrap_or(h.len()).min(s.down.unwrap_or(h.len())).min(s.disc.first().copied().unwrap_or(h.len()));
    let known_dead = s.down.or(s.refused).unwrap_or(h.len()).min(s.disc.first().copied().unwrap_or(h.len()));
    let loose = s.loose_from != u64::MAX;
    v.ok("R13");
    // ---- it ends in time
    let timeout = g.timeout * MS;
    let by_session = if known_dead < h.len() { t(known_dead).max(t0) } else { u64::MAX };
    let limit = (t0 + timeout).min(by_session);
    if t(end) > limit + slack {
        let why = if limit == t0 + timeout { "its timeout" } else { "the end of the session" };
        v.bad(&["R13"], end.min(h.len()), format!("call {} of consumer {} {} {} ms after {}", call.op, c, if end < h.len() { "returned" } else { "had not returned" }, (t(end) - limit) / MS, why));
    }
    if by_session != u64::MAX || g.timeout < 1000 {
        v.hard("R13");
    }
    // ---- what was sent and what came
    let mut sent: Vec<(usize, u32)> = vec![];
    let mut came: Option<(usize, Frame)> = None;
    for (i, r) in h.iter().enumerate().take(s.end).skip(call.i) {
        match &r.ev {
            Ev::CSend { c: x, frames, ok, .. } if *x == c => {
                for f in frames {
                    if f.kind == call.kind && f.a == call.op {
                        if *ok {
                            sent.push((i, f.seq));
                        }
                    }
                }
            }
            Ev::CRecv { c: x, cx, frames, .. } if *x == c && came.is_none() && !sent.is_empty() => {
                for f in frames {
                    if f.seq == sent[0].1 && !f.kind.is_broadcast() && !f.kind.is_handshake_answer() && !run.bad_s2c.contains(&(*cx, f.start)) && f.end <= s.loose_from && came.is_none() {
                        came = Some((i, f.clone()));
                    }
                }
            }
            _ => {}
        }
    }
    if sent.len() > 1 {
        v.bad(&[base], sent[1].0, format!("call {} of consumer {} was sent {} times", call.op, c, sent.len()));
    }
    let t_cause = t(cause);
    if sent.is_empty() && !s.send_err && t(end).min(t_cause) > t0 + lag + 50 * MS && !loose {
        v.bad(&[base, "R13"], call.i, format!("call {} of consumer {} was never sent", call.op, c));
    }
    let plan = run.ops.get(&call.op).cloned().unwrap_or_default();
    if let Some((i, f)) = &came {
        // the answer is there in good time on a living session
        let ti = t(*i);
        let good = ti + lag + 20 * MS < (t0 + timeout).min(t_cause) && !loose;
        if good {
            v.ok(base);
            if let Some((e, r)) = &call.ret {
                if matches!(r, CallRes::Timeout | CallRes::Err(_)) {
                    v.bad(&[base, "R13", "R21"], *e, format!("the answer ({:?} {}) to call {} of consumer {} arrived at event {}, the call ended with {:?}", f.kind, f.a, call.op, c, i, r));
                } else if t(*e) > ti + lag + 50 * MS {
                    v.bad(&[base, "R13"], *e, format!("the answer to call {} of consumer {} arrived at event {}, the call returned {} ms later", call.op, c, i, (t(*e) - ti) / MS));
                }
            }
        }
    }
    // ---- the outcome
    let e = match &call.ret {
        Some(x) => x,
        None => return,
    };
    let arrived = came.as_ref().map(|x| x.0 < e.0).unwrap_or(false);
    let mut bad = |props: &[&'static str], m: String| v.bad(props, e.0, m);
    let want = answer_kind(call.kind, plan.outcome);
    match &e.1 {
        CallRes::Answer(k, op, intact) | CallRes::Declared(k, op, intact) => {
            let declared = matches!(&e.1, CallRes::Declared(..));
            if *op != call.op {
                bad(&[base, "R13"], format!("call {} of consumer {} got the answer to {}", call.op, c, op));
            } else if *k != want || declared != (plan.outcome == 255) {
                bad(&[base], format!("call {} of consumer {} got {:?} instead of {:?}", call.op, c, k, want));
            } else if !arrived && !loose {
                bad(&[base], format!("call {} of consumer {} got an answer that never arrived", call.op, c));
            }
            if !intact {
                bad(&["R21", base], format!("the answer to call {} of consumer {} has another content", call.op, c));
            }
            v.ok("R21");
            v.ok(base);
        }
        CallRes::Confirmed => {
            if plan.fail || !call.kind.is_beacon() {
                bad(&["R14"], format!("beacon {} of consumer {} was reported as successful, its handler failed", call.op, c));
            } else if !arrived && !loose {
                bad(&["R14"], format!("beacon {} of consumer {} was reported as successful without a confirmation", call.op, c));
            }
            v.ok("R14");
        }
        CallRes::BeaconErr(m) => {
            if !plan.fail || *m != simworld::beacon_text(call.op) {
                bad(&["R14"], format!("beacon {} of consumer {} was reported as failed: {}", call.op, c, m));
            }
            v.ok("R14");
            v.hard("R14");
        }
        CallRes::Timeout => {
            v.hard("R13");
            if t(e.0) + 2 * MS < t0 + timeout {
                v.bad(&["R13"], e.0, format!("call {} of consumer {} timed out after {} ms instead of {}", call.op, c, (t(e.0) - t0) / MS, g.timeout));
            }
        }
        CallRes::Err(m) => {
            if e.0 < cause && !loose && !g.mitm.handshake {
                bad(&["R13", base], format!("call {} of consumer {} failed on a living session: {}", call.op, c, m));
            }
        }
    }
    let _ = scn;
}
