//! The same peers, once with writes delivered as they were made and once cut and glued at random: what is handled
//! and answered must not differ.
use crate::exec::Run;
use crate::oracle::Verdict;
use crate::plan::*;
use simworld::hist::*;
use std::collections::BTreeMap;

/// What happened to the messages of every raw peer, in order.
fn digest(run: &Run) -> BTreeMap<usize, Vec<String>> {
    let mut m: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for r in &run.hist {
        let peer = |cx: Cx| run.peers.get(cx).map(|p| p.0).filter(|p| *p >= 1000);
        match &r.ev {
            Ev::PHandle { kind, op, cx, intact, .. } => {
                if let Some(p) = peer(*cx) {
                    m.entry(p).or_default().push(format!("{:?} {} handled{}", kind, op, if *intact { "" } else { " (other content)" }));
                }
            }
            Ev::TSend { cx: Some(cx), frames, .. } => {
                if let Some(p) = peer(*cx) {
                    for f in frames {
                        if !f.kind.is_broadcast() {
                            m.entry(p).or_default().push(format!("{:?} {} sent (sequence {})", f.kind, f.a, f.seq));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    m
}
/// The connection of a peer, if its fate was decided by what it wrote: data that overtakes the confirmation is refused.
fn settled_by_content(run: &Run, peer: usize) -> Option<Cx> {
    let cx = run.peers.iter().position(|p| p.0 == peer)?;
    let early = run.hist.iter().any(|r| match &r.ev {
        Ev::PError { cx: Some(x), class: "NotConfirmed", .. } | Ev::PAppDisconnect { cx: x } | Ev::TConnError { cx: Some(x) } => *x == cx,
        _ => false,
    });
    if early { None } else { Some(cx) }
}
/// Everything a peer wrote, and whether all of it was delivered on one connection.
fn written(run: &Run, peer: usize) -> (Vec<(u64, u64, u32)>, u64, u64, usize) {
    let (mut v, mut sent, mut got, mut n) = (vec![], 0, 0, 0);
    for r in &run.hist {
        match &r.ev {
            Ev::CSend { c, frames, .. } if *c == peer => {
                for f in frames {
                    sent = sent.max(f.end);
                    v.push((f.start, f.body_hash, f.seq));
                }
            }
            Ev::TUp { cx } if run.peers.get(*cx).map(|p| p.0) == Some(peer) => n += 1,
            Ev::TRecv { cx, n } if run.peers.get(*cx).map(|p| p.0) == Some(peer) => got += *n as u64,
            _ => {}
        }
    }
    (v, sent, got, n)
}
pub fn compare(scn: &Scn, run: &Run, as_is: &Run, v: &mut Verdict) {
    let (a, b) = (digest(run), digest(as_is));
    for r in &scn.raws {
        // where the peer's own timing decides there is nothing to compare
        if r.steps.iter().any(|s| matches!(s.1, Step::Close { .. } | Step::Garbage { .. })) {
            continue;
        }
        let (p, q) = (written(run, 1000 + r.r), written(as_is, 1000 + r.r));
        // the plan of the handler that announces a connection belongs to its number
        let at = settled_by_content(run, 1000 + r.r);
        if at.is_none() || at != settled_by_content(as_is, 1000 + r.r) {
            continue;
        }
        if p.0 != q.0 || p.1 != p.2 || q.1 != q.2 || p.3 != 1 || q.3 != 1 {
            continue;
        }
        v.ok("R07");
        v.hard("R07");
        let none = vec![];
        let (x, y) = (a.get(&(1000 + r.r)).unwrap_or(&none), b.get(&(1000 + r.r)).unwrap_or(&none));
        if x != y {
            let k = x.iter().zip(y.iter()).take_while(|(p, q)| p == q).count();
            let none = String::from("nothing");
            v.bad(&["R07"], run.hist.len(), format!("peer {}: cut and glued the stream leads to `{}`, written as it is to `{}` (step {})", r.r, x.get(k).unwrap_or(&none), y.get(k).unwrap_or(&none), k));
        }
    }
}
