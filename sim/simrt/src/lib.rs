//! The simulator core: a seeded single-threaded executor with discrete-event time.
//!
//! One simulation runs in one OS thread; its whole state is thread-local. Every choice (which ready
//! task runs, how long a poll takes, which `select!` branch is tried first, ...) is drawn from PRNGs
//! derived from one seed.
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;
pub const SEC: u64 = 1_000_000_000;

/// splitmix64/xorshift-star PRNG: small, seedable, stable across builds.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    /// An independent stream for `tag`.
    pub fn fork(seed: u64, tag: u64) -> Self {
        let mut r = Rng::new(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ tag.wrapping_mul(0xA24B_AED4_963E_E407));
        r.next();
        r.next();
        r
    }
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            lo
        } else {
            lo + self.below(hi - lo + 1)
        }
    }
    pub fn chance(&mut self, per_mille: u64) -> bool {
        self.below(1000) < per_mille
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    Uniform,
    Fifo,
    Lifo,
    Priority,
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    gen: u32,
    node: u32,
    prio: u64,
    queued: bool,
    alive: bool,
}

type Action = Box<dyn FnOnce()>;

#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Key(std::cmp::Reverse<(u64, u64)>);

pub struct Cfg {
    pub seed: u64,
    pub policy: Policy,
    /// upper bound of the simulated cost of one poll, in ns
    pub poll_cost: u64,
    pub max_steps: u64,
    pub max_time: u64,
    /// per mille of scheduling points at which a ready task and a due event are swapped
    pub event_first: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Quiescent,
    Requested,
    StepLimit,
    TimeLimit,
}

struct Rt {
    now: u64,
    wall_offset: i64,
    tasks: Vec<Task>,
    free: Vec<usize>,
    ready: Vec<usize>,
    heap: BinaryHeap<Key>,
    actions: BTreeMap<u64, Action>,
    seq: u64,
    sched: Rng,
    sel: Rng,
    entropy: Rng,
    cfg: Cfg,
    steps: u64,
    hash: u64,
    inter: u64,
    cur_node: u32,
    stalled: BTreeMap<u32, u64>,

    /// nothing later than this happens before the driver of a lockstep simulation says so
    limit: u64,
    stop: bool,
    panics: Vec<(u32, String)>,
    in_poll: bool,
}

thread_local! {
    static RT: RefCell<Option<Rt>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn rt<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    RT.with(|c| f(c.borrow_mut().as_mut().expect("no simulation in this thread")))
}
pub fn active() -> bool {
    RT.try_with(|c| c.try_borrow().map(|r| r.is_some()).unwrap_or(true)).unwrap_or(false)
}

/// Folds a value into the trace hash.
pub fn mix(v: u64) {
    rt(|r| r.hash = (r.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17))
}
pub fn mix_bytes(b: &[u8]) {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ (*x as u64)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h ^ b.len() as u64)
}
pub fn now() -> u64 {
    rt(|r| r.now)
}
/// Wall clock of the simulated machine in ns since the epoch (for SystemTime::now).
pub fn try_wall() -> Option<u64> {
    RT.try_with(|c| {
        c.try_borrow().ok().and_then(|r| {
            r.as_ref().map(|r| (1_600_000_000i64 * SEC as i64 + r.now as i64 + r.wall_offset) as u64)
        })
    })
    .ok()
    .flatten()
}
pub fn try_mono() -> Option<u64> {
    RT.try_with(|c| c.try_borrow().ok().and_then(|r| r.as_ref().map(|r| SEC + r.now))).ok().flatten()
}
pub fn wall_jump(delta: i64) {
    rt(|r| r.wall_offset = r.wall_offset.saturating_add(delta))
}
pub fn steps() -> u64 {
    rt(|r| r.steps)
}
pub fn trace_hash() -> u64 {
    rt(|r| r.hash)
}
/// Hash of the sequence of scheduling decisions only: the measure of distinct interleavings.
pub fn interleaving() -> u64 {
    rt(|r| r.inter)
}
/// Seeded entropy for everything that asks the operating system for random bytes.
pub fn entropy(buf: &mut [u8]) -> bool {
    RT.try_with(|c| {
        if let Ok(mut r) = c.try_borrow_mut() {
            if let Some(r) = r.as_mut() {
                for b in buf.iter_mut() {
                    *b = (r.entropy.next() >> 24) as u8;
                }
                return true;
            }
        }
        false
    })
    .unwrap_or(false)
}
/// Random number for `select!`/`join!` start positions.
pub fn sel_n(n: u32) -> u32 {
    if n < 2 {
        return 0;
    }
    rt(|r| {
        let v = r.sel.below(n as u64);
        r.inter = (r.inter ^ (v + 77)).wrapping_mul(0x0000_0100_0000_01B3);
        v as u32
    })
}
pub fn node() -> u32 {
    rt(|r| r.cur_node)
}

// ------------------------------------------------------------------ wakers
const VT: RawWakerVTable = RawWakerVTable::new(|d| RawWaker::new(d, &VT), wake_raw, wake_raw, |_| {});
fn wake_raw(d: *const ()) {
    let v = d as usize;
    let (id, gen) = (v >> 24, (v & 0xFF_FFFF) as u32);
    RT.with(|c| {
        if let Ok(mut b) = c.try_borrow_mut() {
            if let Some(r) = b.as_mut() {
                enqueue(r, id, gen);
            }
        }
    });
}
fn enqueue(r: &mut Rt, id: usize, gen: u32) {
    if let Some(t) = r.tasks.get_mut(id) {
        if t.alive && t.gen == gen && !t.queued {
            t.queued = true;
            r.ready.push(id);
        }
    }
}
fn waker_of(id: usize, gen: u32) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(((id << 24) | gen as usize) as *const (), &VT)) }
}

// ------------------------------------------------------------------ tasks
/// Spawns a task on the current node.
pub fn spawn_raw(fut: Pin<Box<dyn Future<Output = ()>>>) -> (usize, u32) {
    let node = rt(|r| r.cur_node);
    spawn_on(node, fut)
}
pub fn spawn_on(node: u32, fut: Pin<Box<dyn Future<Output = ()>>>) -> (usize, u32) {
    rt(|r| {
        let prio = r.sched.next();
        let id = match r.free.pop() {
            Some(id) => id,
            None => {
                r.tasks.push(Task { fut: None, gen: 0, node: 0, prio: 0, queued: false, alive: false });
                r.tasks.len() - 1
            }
        };
        let t = &mut r.tasks[id];
        t.gen = (t.gen + 1) & 0xFF_FFFF;
        t.fut = Some(fut);
        t.node = node;
        t.prio = prio;
        t.queued = false;
        t.alive = true;
        let gen = t.gen;
        enqueue(r, id, gen);
        (id, gen)
    })
}
pub fn abort(id: usize, gen: u32) {
    let fut = rt(|r| match r.tasks.get_mut(id) {
        Some(t) if t.alive && t.gen == gen => {
            t.alive = false;
            let f = t.fut.take();
            if f.is_some() {
                r.free.push(id);
            }
            f
        }
        _ => None,
    });
    drop(fut);
}
/// Crash of a node: all its tasks vanish at once.
pub fn kill_node(node: u32) {
    let futs: Vec<_> = rt(|r| {
        let mut v = vec![];
        for id in 0..r.tasks.len() {
            let t = &mut r.tasks[id];
            if t.alive && t.node == node {
                t.alive = false;
                if let Some(f) = t.fut.take() {
                    v.push(f);
                    r.free.push(id);
                }
            }
        }
        v
    });
    for f in futs {
        let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
    }
}
pub fn stall_node(node: u32, until: u64) {
    rt(|r| {
        r.stalled.insert(node, until);
    });
    at(until, Box::new(|| {}));
}
pub fn request_stop() {
    rt(|r| r.stop = true)
}
pub fn panics() -> Vec<(u32, String)> {
    rt(|r| r.panics.clone())
}
pub fn alive_tasks(node: u32) -> usize {
    rt(|r| r.tasks.iter().filter(|t| t.alive && t.node == node).count())
}

// ------------------------------------------------------------------ events
pub fn at(time: u64, action: Action) -> u64 {
    rt(|r| {
        r.seq += 1;
        let seq = r.seq;
        let time = time.max(r.now);
        r.heap.push(Key(std::cmp::Reverse((time, seq))));
        r.actions.insert(seq, action);
        seq
    })
}
pub fn after(delay: u64, action: Action) -> u64 {
    let t = now();
    at(t.saturating_add(delay), action)
}
pub fn cancel(seq: u64) {
    let a = RT.try_with(|c| c.try_borrow_mut().ok().and_then(|mut r| r.as_mut().and_then(|r| r.actions.remove(&seq)))).ok().flatten();
    drop(a);
}

pub struct Sleep {
    pub deadline: u64,
    reg: Option<u64>,
}
impl Sleep {
    pub fn until(deadline: u64) -> Self {
        Sleep { deadline, reg: None }
    }
    pub fn reset(&mut self, deadline: u64) {
        if let Some(s) = self.reg.take() {
            cancel(s);
        }
        self.deadline = deadline;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.deadline {
            return Poll::Ready(());
        }
        if let Some(s) = self.reg.take() {
            cancel(s);
        }
        let w = cx.waker().clone();
        let d = self.deadline;
        self.reg = Some(at(d, Box::new(move || w.wake())));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(s) = self.reg.take() {
            cancel(s);
        }
    }
}
pub fn sleep(d: u64) -> Sleep {
    Sleep::until(now().saturating_add(d))
}
pub fn sleep_until(t: u64) -> Sleep {
    Sleep::until(t)
}
/// Gives every other ready task a chance to run first.
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            } else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    Y(false).await
}

// ------------------------------------------------------------------ main loop
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let s = info.to_string();
        let inside = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(s)).is_ok() && RT.try_with(|c| c.try_borrow().map(|r| r.is_some()).unwrap_or(true)).unwrap_or(false);
        if !inside {
            prev(info);
        }
    }));
}

pub struct Outcome<T> {
    pub value: T,
    pub stop: Stop,
    pub steps: u64,
    pub time: u64,
    pub hash: u64,
    pub interleaving: u64,
    pub panics: Vec<(u32, String)>,
}

/// The time moves on (lockstep).
pub fn set_now(t: u64) {
    rt(|r| r.now = r.now.max(t));
}
pub fn take_panics() -> Vec<(u32, String)> {
    rt(|r| std::mem::take(&mut r.panics))
}
type Idle = Box<dyn FnMut(Option<u64>) -> Option<u64>>;
thread_local! {
    static IDLE: RefCell<Option<Idle>> = const { RefCell::new(None) };
}
/// Makes the simulation of this thread one in lockstep: whenever nothing is left to do up to the moment the driver
/// has allowed, it is asked (with the time of the next event) and returns the next moment, or ends the run.
pub fn lockstep(f: Idle) {
    IDLE.with(|i| *i.borrow_mut() = Some(f));
    rt(|r| r.limit = 0);
}
fn idle() -> bool {
    let f = IDLE.with(|i| i.borrow_mut().take());
    match f {
        Some(mut f) => {
            let next = rt(|r| {
                while let Some(k) = r.heap.peek() {
                    if r.actions.contains_key(&(k.0).0 .1) {
                        break;
                    }
                    r.heap.pop();
                }
                r.heap.peek().map(|k| (k.0).0 .0)
            });
            match f(next) {
                Some(t) => {
                    IDLE.with(|i| *i.borrow_mut() = Some(f));
                    rt(|r| r.limit = t);
                    true
                }
                None => false,
            }
        }
        None => false,
    }
}

/// Runs one simulation: `init` sets up tasks; `finish` extracts the result after the loop ended
/// (before the remaining tasks are dropped).
pub fn run<T>(cfg: Cfg, init: impl FnOnce(), finish: impl FnOnce(&Stop) -> T) -> Outcome<T> {
    let seed = cfg.seed;
    RT.with(|c| {
        *c.borrow_mut() = Some(Rt {
            now: 0,
            wall_offset: 0,
            tasks: vec![],
            free: vec![],
            ready: vec![],
            heap: BinaryHeap::new(),
            actions: BTreeMap::new(),
            seq: 0,
            sched: Rng::fork(seed, 1),
            sel: Rng::fork(seed, 2),
            entropy: Rng::fork(seed, 3),
            cfg,
            steps: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            inter: 0xcbf2_9ce4_8422_2325,
            cur_node: 0,
            stalled: BTreeMap::new(),

            limit: u64::MAX,
            stop: false,
            panics: vec![],
            in_poll: false,
        })
    });
    // hash maps of this thread take their keys from the seed
    let _ = std::collections::hash_map::RandomState::new();
    init();
    let stop = main_loop();
    let value = finish(&stop);
    let (steps, time, hash, inter, panics) = rt(|r| (r.steps, r.now, r.hash, r.inter, r.panics.clone()));
    // drop everything inside the simulation context
    for _ in 0..4 {
        let futs: Vec<_> = rt(|r| r.tasks.iter_mut().filter_map(|t| { t.alive = false; t.fut.take() }).collect());
        if futs.is_empty() {
            break;
        }
        for f in futs {
            let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
        }
    }
    loop {
        let acts = rt(|r| std::mem::take(&mut r.actions));
        if acts.is_empty() {
            break;
        }
        drop(acts);
    }
    let r = RT.with(|c| c.borrow_mut().take());
    drop(r);
    Outcome { value, stop, steps, time, hash, interleaving: inter, panics }
}

enum Next {
    Task(usize, u32, Pin<Box<dyn Future<Output = ()>>>),
    Act(Action),
    Skip,
    Stop(Stop),
}

fn main_loop() -> Stop {
    loop {
        let next = rt(|r| {
            if r.stop {
                return Next::Stop(Stop::Requested);
            }
            r.steps += 1;
            if r.steps > r.cfg.max_steps {
                return Next::Stop(Stop::StepLimit);
            }
            if r.now > r.cfg.max_time {
                return Next::Stop(Stop::TimeLimit);
            }
            // drop cancelled events at the top
            while let Some(k) = r.heap.peek() {
                if r.actions.contains_key(&(k.0).0 .1) {
                    break;
                }
                r.heap.pop();
            }
            let limit = r.limit;
            let top = r.heap.peek().map(|k| (k.0).0).filter(|t| t.0 <= limit);
            let due = top.map(|t| t.0 <= r.now).unwrap_or(false);
            let runnable: usize = if r.stalled.is_empty() {
                r.ready.len()
            } else {
                let now = r.now;
                r.stalled.retain(|_, u| *u > now);
                let st = &r.stalled;
                let tasks = &r.tasks;
                r.ready.iter().filter(|i| !st.contains_key(&tasks[**i].node)).count()
            };
            let take_event = if runnable == 0 {
                top.is_some()
            } else if due {
                let ef = r.cfg.event_first;
                r.sched.chance(ef)
            } else {
                false
            };
            if take_event {
                let (t, seq) = top.unwrap();
                r.heap.pop();
                if t > r.now {
                    r.now = t;
                }
                r.inter = (r.inter ^ 0xE).wrapping_mul(0x0000_0100_0000_01B3);
                return match r.actions.remove(&seq) {
                    Some(a) => Next::Act(a),
                    None => Next::Skip,
                };
            }
            if runnable == 0 {
                return Next::Stop(Stop::Quiescent);
            }
            let pos = {
                let eligible = |r: &Rt, i: usize| r.stalled.is_empty() || !r.stalled.contains_key(&r.tasks[r.ready[i]].node);
                match r.cfg.policy {
                    Policy::Uniform => {
                        let mut k = r.sched.below(runnable as u64) as usize;
                        let mut pos = 0;
                        for i in 0..r.ready.len() {
                            if eligible(r, i) {
                                if k == 0 {
                                    pos = i;
                                    break;
                                }
                                k -= 1;
                            }
                        }
                        pos
                    }
                    Policy::Fifo => (0..r.ready.len()).find(|i| eligible(r, *i)).unwrap_or(0),
                    Policy::Lifo => {
                        // mostly the youngest; sometimes the oldest so that nobody starves
                        if r.sched.chance(100) {
                            (0..r.ready.len()).find(|i| eligible(r, *i)).unwrap_or(0)
                        } else {
                            (0..r.ready.len()).rev().find(|i| eligible(r, *i)).unwrap_or(0)
                        }
                    }
                    Policy::Priority => {
                        if r.sched.chance(20) {
                            let i = r.sched.below(r.ready.len() as u64) as usize;
                            let id = r.ready[i];
                            r.tasks[id].prio = r.sched.next();
                        }
                        (0..r.ready.len())
                            .filter(|i| eligible(r, *i))
                            .max_by_key(|i| r.tasks[r.ready[*i]].prio)
                            .unwrap_or(0)
                    }
                }
            };
            let id = r.ready.remove(pos);
            let cost = r.cfg.poll_cost;
            r.now += 1 + r.sched.below(cost.max(1));
            let t = &mut r.tasks[id];
            t.queued = false;
            let node = t.node;
            let gen = t.gen;
            match t.fut.take() {
                Some(f) if t.alive => {
                    r.cur_node = node;
                    r.in_poll = true;
                    r.inter = (r.inter ^ (((id as u64) << 8) | 1)).wrapping_mul(0x0000_0100_0000_01B3);
                    Next::Task(id, gen, f)
                }
                _ => Next::Skip,
            }
        });
        match next {
            Next::Stop(Stop::Quiescent) if idle() => {}
            Next::Stop(s) => return s,
            Next::Skip => {}
            Next::Act(a) => {
                rt(|r| r.cur_node = 0);
                a()
            }
            Next::Task(id, gen, mut f) => {
                let w = waker_of(id, gen);
                let mut cx = Context::from_waker(&w);
                let res = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
                let done = match res {
                    Ok(Poll::Pending) => false,
                    Ok(Poll::Ready(())) => true,
                    Err(_) => {
                        let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                        rt(|r| {
                            let n = r.cur_node;
                            r.panics.push((n, msg))
                        });
                        true
                    }
                };
                if done {
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                    rt(|r| {
                        r.tasks[id].alive = false;
                        r.tasks[id].queued = false;
                        r.free.push(id);
                        r.ready.retain(|x| *x != id);
                        r.in_poll = false;
                    });
                } else {
                    let killed = rt(|r| {
                        r.in_poll = false;
                        let t = &mut r.tasks[id];
                        if t.alive && t.gen == gen {
                            t.fut = Some(f);
                            None
                        } else {
                            r.free.push(id);
                            Some(f)
                        }
                    });
                    drop(killed);
                }
                rt(|r| r.cur_node = 0);
            }
        }
    }
}
