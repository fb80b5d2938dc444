use crate::content as ct;
use crate::gen::implementation::consumer::identification::{Filter, Identification};
use crate::gen::implementation::producer::Control;
use crate::gen::implementation::protocol;
use crate::gen::implementation::scope::{AnonymousScope, Scope};
use clibri::server;
use simworld::hist::*;
use simworld::wire::K;
use simworld::{cx_of, plan, rec, BcPlan, OpPlan, Sel};
use uuid::Uuid;

pub type Ctl = Control<simworld::net::SimErr, crate::Transport>;
thread_local! {
    static CTL: std::cell::RefCell<Option<Ctl>> = const { std::cell::RefCell::new(None) };
}
/// Keeps the producer's control for the rest of the simulated application.
pub fn stash<E: server::Error, C: server::Control<E>>(c: Control<E, C>) {
    let b: Box<dyn std::any::Any> = Box::new(c);
    if let Ok(c) = b.downcast::<Ctl>() {
        CTL.with(|s| *s.borrow_mut() = Some(*c));
    }
}
pub fn ctl() -> Option<Ctl> {
    CTL.with(|s| s.borrow().clone())
}
pub fn forget() {
    CTL.with(|s| s.borrow_mut().take());
}
pub fn key_v(k: &protocol::Keys::Own) -> KeyV {
    KeyV { name: k.name.clone(), rank: k.rank, note: k.note.clone(), tag: k.tag }
}
pub fn key_p(k: &KeyV) -> protocol::Keys::Own {
    protocol::Keys::Own { name: k.name.clone(), rank: k.rank, note: k.note.clone(), tag: k.tag }
}
pub fn asg_v(k: &protocol::Keys::Assigned) -> AsgV {
    AsgV { uid: k.uid.clone(), level: k.level, admin: k.admin }
}
pub fn asg_p(k: &AsgV) -> protocol::Keys::Assigned {
    protocol::Keys::Assigned { uid: k.uid.clone(), level: k.level, admin: k.admin }
}
pub fn id_v(i: &Identification) -> IdV {
    IdV { cx: cx_of(&i.uuid()).unwrap_or(usize::MAX), key: i.key.as_ref().map(key_v), asg: i.assigned.as_ref().map(asg_v) }
}
fn cxs(v: Vec<Uuid>) -> Vec<Cx> {
    let mut v: Vec<Cx> = v.iter().map(|u| cx_of(u).unwrap_or(usize::MAX)).collect();
    v.sort_unstable();
    v
}
fn view(f: &Filter<'_>, own: Option<Uuid>, salt: u64) -> View {
    let all = f.all();
    let mut r = simrt::Rng::fork(salt, 0x7137);
    let total = simworld::conn_count() as u64;
    let except = match own {
        Some(u) if r.chance(700) => u,
        _ => simworld::uuid_of(r.below(total.max(1)) as usize % (total.max(1) as usize)),
    };
    let mut excl: Vec<Uuid> = vec![];
    for _ in 0..r.below(4) {
        if total > 0 {
            excl.push(simworld::uuid_of(r.below(total) as usize));
        }
    }
    if r.chance(100) {
        excl.push(Uuid::from_u128(r.next() as u128));
    }
    let seen: std::cell::RefCell<Vec<IdV>> = std::cell::RefCell::new(vec![]);
    let odd = f.filter(|i| {
        seen.borrow_mut().push(id_v(i));
        i.key.as_ref().map(|k| k.rank % 2 == 1).unwrap_or(false)
    });
    let assigned = f.filter(|i| i.assigned.is_some());
    let mut seen = seen.into_inner();
    seen.sort_by_key(|i| i.cx);
    View {
        all: cxs(all),
        except: (cx_of(&except).unwrap_or(usize::MAX), cxs(f.except(&except))),
        exclude: (excl.iter().filter_map(|u| cx_of(u)).collect(), cxs(f.exclude(excl.clone()))),
        odd: cxs(odd),
        assigned: cxs(assigned),
        seen,
    }
}
async fn idle(p: &OpPlan) {
    for _ in 0..p.yields {
        simrt::yield_now().await;
    }
    if p.delay > 0 {
        simrt::sleep(p.delay).await;
    }
}
fn apply(i: &Identification, s: &IdSet) {
    let cx = cx_of(&i.uuid()).unwrap_or(usize::MAX);
    let ok = match s {
        IdSet::Key(k, ow) => i.set_key(key_p(k), *ow).is_ok(),
        IdSet::Asg(a, ow) => i.set_assign(asg_p(a), *ow).is_ok(),
    };
    rec(Ev::PSet { cx, set: s.clone(), ok });
}
async fn effects<E: server::Error, C: server::Control<E>>(p: &OpPlan, own: Option<&Identification>, control: &Control<E, C>, kept: &[Identification]) {
    if let Some(i) = own {
        for s in &p.sets {
            apply(i, s);
        }
    }
    for (t, s) in &p.cross {
        if !kept.is_empty() {
            apply(&kept[*t as usize % kept.len()], s);
        }
    }
    for (k, op) in &p.emit {
        let ok = match k {
            K::Tick => control.events.tick(ct::tick(*op)).await.is_ok(),
            _ => control.events.deep_pulse(ct::pulse(*op)).await.is_ok(),
        };
        rec(Ev::PEmit { task: 0, kind: *k, op: *op, ok });
    }
    if p.disconnect_self {
        if let Some(i) = own {
            rec(Ev::PAppDisconnect { cx: cx_of(&i.uuid()).unwrap_or(usize::MAX) });
            let _ = control.disconnect(i.uuid()).await;
        }
    }
    if p.shutdown {
        let id = 900_000 + simworld::new_bid() as u32 % 1000;
        rec(Ev::PShutdownCall { id, wait: false });
        let ok = control.shutdown(false).await.is_ok();
        rec(Ev::PShutdownRet { id, ok });
    }
}
/// Entry of a handler of a client's message.
pub async fn enter<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>, kind: K, op: u64, intact: bool) -> OpPlan {
    let own = scope.identification;
    let cx = cx_of(&own.uuid()).unwrap_or(usize::MAX);
    let v = view(scope.filter, Some(own.uuid()), op);
    rec(Ev::PHandle { kind, op, cx, intact, id: id_v(own), view: v });
    scoped(scope, op).await
}
pub async fn scoped<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>, op: u64) -> OpPlan {
    let p = plan(op);
    let own = scope.identification;
    let u = own.uuid();
    if !scope.context.kept.iter().any(|i| i.uuid() == u) {
        scope.context.kept.push(own.clone());
    }
    idle(&p).await;
    effects(&p, Some(own), scope.control, &scope.context.kept).await;
    if p.deferred > 0 {
        let d = p.deferred - 1;
        let ident = own.clone();
        let set = if p.deferred_set { p.sets.first().cloned() } else { None };
        scope.deferred(Box::pin(deferred(op, d, Some((ident, set)))));
    }
    p
}
async fn deferred(op: u64, d: u64, set: Option<(Identification, Option<IdSet>)>) {
    rec(Ev::PDeferred { op, end: false });
    if d > 0 {
        simrt::sleep(d).await;
    } else {
        simrt::yield_now().await;
    }
    if let Some((i, Some(s))) = set {
        apply(&i, &s);
    }
    rec(Ev::PDeferred { op, end: true });
}
/// Entry of a connect/disconnect handler.
pub async fn enter_conn<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>, end: bool) -> (OpPlan, u64) {
    let id = id_v(scope.identification);
    let cx = id.cx;
    let op = simworld::conn_op(cx, end);
    let v = view(scope.filter, Some(scope.identification.uuid()), op);
    rec(if end { Ev::PDisconnected { cx, id, view: v } } else { Ev::PConnected { cx, id, view: v } });
    (scoped(scope, op).await, op)
}
/// Entry of an application event's handler.
pub async fn enter_event<E: server::Error, C: server::Control<E>>(scope: &mut AnonymousScope<'_, E, C>, kind: K, op: u64, intact: bool) -> OpPlan {
    let v = view(scope.filter, None, op);
    rec(Ev::PEvent { kind, op, intact, view: v });
    let p = plan(op);
    idle(&p).await;
    effects(&p, None, scope.control, &scope.context.kept).await;
    if p.deferred > 0 {
        scope.deferred(Box::pin(deferred(op, p.deferred - 1, None)));
    }
    p
}
pub fn end(kind: K, op: u64, cx: Option<Cx>) {
    rec(Ev::PHandlerEnd { kind, op, cx });
}
fn resolve(f: &Filter<'_>, own: Option<Uuid>, s: &Sel) -> Vec<Uuid> {
    let total = simworld::conn_count() as u64;
    let at = |i: u64| simworld::uuid_of((i % total.max(1)) as usize);
    match s {
        Sel::All => f.all(),
        Sel::ExceptSelf => match own {
            Some(u) => f.except(&u),
            None => f.all(),
        },
        Sel::Except(i) => f.except(&at(*i)),
        Sel::Exclude(v) => f.exclude(v.iter().map(|i| at(*i)).collect()),
        Sel::OddRank => f.filter(|i| i.key.as_ref().map(|k| k.rank % 2 == 1).unwrap_or(false)),
        Sel::Assigned => f.filter(|i| i.assigned.is_some()),
        Sel::Nobody => vec![],
        Sel::Explicit(v, unknown) => {
            let mut out: Vec<Uuid> = vec![];
            for i in v {
                let u = at(*i);
                if !out.contains(&u) {
                    out.push(u);
                }
            }
            for k in 0..*unknown {
                out.insert((k as usize * 7 + 1) % (out.len() + 1), Uuid::from_u128(0xdead_0000 + k as u128));
            }
            out
        }
    }
}
/// The recipients of one broadcast, recorded.
pub fn bc(f: &Filter<'_>, own: Option<Uuid>, kind: K, op: u64, slot: u8, b: &BcPlan) -> (Vec<Uuid>, u64) {
    let bid = simworld::new_bid();
    let v = resolve(f, own, &b.sel);
    let to: Vec<Cx> = v.iter().filter_map(|u| cx_of(u)).collect();
    let unknown = v.len() - to.len();
    rec(Ev::PBroadcast { kind, bid, op, to, unknown, slot });
    (v, bid)
}
