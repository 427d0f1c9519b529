//! C16 (worker pool) and C18 (client's idle pool).
use crate::fw::*;
use crate::srv::{wait_until, LONG};
use crate::{ensure, hard, soft};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::thread::ThreadId;
use std::time::{Duration, Instant};
use wruster::verif_hooks as vh;

// ------------------------------------------------------------------- C16

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Kind {
    Gated,
    Quick,
    /// Takes about this many microseconds.
    Brief(u16),
}

/// What to do with an action that was handed back.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Back {
    Drop,
    CallIt,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Submit { kind: Kind, panics: bool, wait: bool, back: Back },
    Release(usize),
    ReleaseAll,
    /// Waits until all that can finish has.
    Settle,
    Idle(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    min: usize,
    max: usize,
    ops: Vec<Op>,
    /// How many of the gates are opened before the pool is dropped (the rest after).
    open_first: bool,
}

#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
}
impl Gate {
    fn wait(&self) {
        let mut o = self.open.lock().unwrap();
        while !*o {
            o = self.cv.wait(o).unwrap();
        }
    }
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

#[derive(Default)]
struct Watch {
    running: AtomicIsize,
    peak: AtomicIsize,
}

struct Act {
    gate: Option<Arc<Gate>>,
    started: Arc<AtomicUsize>,
    finished: Arc<AtomicUsize>,
    by: Arc<Mutex<Vec<ThreadId>>>,
    state: ActState,
    released: bool,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum ActState {
    Accepted,
    Refused,
    CalledHere,
}

struct Finish<'a>(&'a Watch, &'a AtomicUsize);
impl Drop for Finish<'_> {
    fn drop(&mut self) {
        self.0.running.fetch_sub(1, Ordering::SeqCst);
        self.1.fetch_add(1, Ordering::SeqCst);
    }
}

/// Opens every gate when the case is over, however it ends.
struct OpenAll<'a>(&'a Mutex<Vec<Arc<Gate>>>);
impl Drop for OpenAll<'_> {
    fn drop(&mut self) {
        for g in self.0.lock().unwrap().iter() {
            g.open();
        }
    }
}

/// Drops the pool elsewhere when a case ends early: its drop can wait or panic.
struct Held(Option<vh::Pool>);
impl Drop for Held {
    fn drop(&mut self) {
        if let Some(p) = self.0.take() {
            std::thread::spawn(move || {
                let _ = no_panic(move || drop(p));
            });
        }
    }
}

fn history(h: &History, o: &mut Obs) -> R {
    let gates = Mutex::new(Vec::new());
    let _open = OpenAll(&gates);
    let cap = h.min.max(h.max);
    let mut pool = Held(Some(vh::Pool::new(h.min, h.max)));
    let watch = Arc::new(Watch::default());
    let mut acts: Vec<Act> = Vec::new();
    let gated_running = |acts: &Vec<Act>| acts.iter().filter(|a| a.gate.is_some() && a.state == ActState::Accepted && !a.released).count();
    let (mut refused, mut panicked, mut full) = (0, 0, 0);
    let idled = h.ops.iter().any(|x| matches!(x, Op::Idle(_)));
    for (n, op) in h.ops.iter().enumerate() {
        match op {
            Op::Submit { kind, panics, wait, back } => {
                let mut a = Act {
                    gate: (*kind == Kind::Gated).then(|| Arc::new(Gate::default())),
                    started: Default::default(),
                    finished: Default::default(),
                    by: Default::default(),
                    state: ActState::Accepted,
                    released: false,
                };
                if let Some(g) = &a.gate {
                    gates.lock().unwrap().push(g.clone());
                }
                let (gate, started, finished, by, w) = (a.gate.clone(), a.started.clone(), a.finished.clone(), a.by.clone(), watch.clone());
                let (panics, brief) = (*panics, if let Kind::Brief(us) = kind { *us } else { 0 });
                let mut action: Option<Box<dyn FnOnce() + Send>> = Some(Box::new(move || {
                    by.lock().unwrap().push(std::thread::current().id());
                    let r = w.running.fetch_add(1, Ordering::SeqCst) + 1;
                    w.peak.fetch_max(r, Ordering::SeqCst);
                    started.fetch_add(1, Ordering::SeqCst);
                    let _f = Finish(&w, &finished);
                    if let Some(g) = gate {
                        g.wait();
                    }
                    if brief > 0 {
                        std::thread::sleep(Duration::from_micros(brief as u64));
                    }
                    if panics {
                        panic!("an action of the check panics");
                    }
                }));
                let busy = gated_running(&acts);
                let until = Instant::now() + Duration::from_secs(6);
                let accepted = loop {
                    let p = pool.0.as_mut().unwrap();
                    let act = action.take().unwrap();
                    let r = no_panic(move || p.run(act));
                    match r {
                        Err(m) => hard!("operation {}: submitting an action panics: {}", n, m),
                        Ok(Ok(())) => {
                            ensure!(busy < cap, "operation {}: an action is accepted while {} of {} are running", n, busy, cap);
                            break true;
                        }
                        Ok(Err(e)) => {
                            action = Some(e.action);
                            if busy >= cap {
                                break false;
                            }
                            if Instant::now() > until {
                                soft!("operation {}: an action is refused for 6 s while {} of at most {} are running", n, busy, cap);
                            }
                            std::thread::sleep(Duration::from_micros(500));
                        }
                    }
                };
                if accepted {
                    panicked += panics as usize;
                    if *wait {
                        let ok = wait_until(LONG, || a.started.load(Ordering::SeqCst) > 0);
                        if !ok {
                            soft!("operation {}: an accepted action has not started after {:?}; {} others are running", n, LONG, busy);
                        }
                    }
                    full += (busy + 1 == cap && a.gate.is_some()) as usize;
                } else {
                    refused += 1;
                    match back {
                        Back::Drop => a.state = ActState::Refused,
                        Back::CallIt => {
                            a.state = ActState::CalledHere;
                            if let Some(g) = &a.gate {
                                g.open();
                            }
                            // It does not run in the pool.
                            watch.running.fetch_sub(1, Ordering::SeqCst);
                            let act = action.take().unwrap();
                            let _ = no_panic(act);
                            watch.running.fetch_add(1, Ordering::SeqCst);
                            let by = a.by.lock().unwrap();
                            ensure!(by.len() == 1 && by[0] == std::thread::current().id(), "operation {}: what was handed back is not the refused action", n);
                        }
                    }
                }
                acts.push(a);
            }
            Op::Release(i) => {
                let open: Vec<usize> =
                    (0..acts.len()).filter(|j| acts[*j].gate.is_some() && acts[*j].state == ActState::Accepted && !acts[*j].released).collect();
                if !open.is_empty() {
                    let j = open[i % open.len()];
                    acts[j].released = true;
                    acts[j].gate.as_ref().unwrap().open();
                }
            }
            Op::ReleaseAll => {
                for a in acts.iter_mut().filter(|a| a.state == ActState::Accepted) {
                    a.released = true;
                    if let Some(g) = &a.gate {
                        g.open();
                    }
                }
            }
            Op::Settle => {
                for (j, a) in acts.iter().enumerate().filter(|(_, a)| a.state == ActState::Accepted) {
                    let must_end = a.gate.is_none() || a.released;
                    let c = if must_end { &a.finished } else { &a.started };
                    if !wait_until(LONG, || c.load(Ordering::SeqCst) > 0) {
                        soft!("operation {}: accepted action {} has not {} after {:?}", n, j, if must_end { "finished" } else { "started" }, LONG);
                    }
                }
            }
            Op::Idle(ms) => std::thread::sleep(Duration::from_millis(*ms as u64)),
        }
        let peak = watch.peak.load(Ordering::SeqCst);
        ensure!(peak <= cap as isize, "operation {}: {} actions ran at once, the maximum is {}", n, peak, cap);
    }
    // Dropping it waits for everything that was accepted.
    if h.open_first {
        for a in acts.iter_mut() {
            a.released = true;
            if let Some(g) = &a.gate {
                g.open();
            }
        }
    }
    let held = gated_running(&acts);
    let (tx, rx) = mpsc::channel();
    let p = pool.0.take().unwrap();
    std::thread::spawn(move || {
        let _ = tx.send(no_panic(move || drop(p)));
    });
    if held > 0 {
        if let Ok(r) = rx.recv_timeout(Duration::from_millis(15)) {
            hard!("dropping the pool ends ({:?}) while {} accepted actions are not finished", r, held);
        }
        for a in &acts {
            if let Some(g) = &a.gate {
                g.open();
            }
        }
    }
    match rx.recv_timeout(LONG) {
        Ok(Ok(())) => (),
        Ok(Err(m)) => hard!("dropping the pool panics: {}", m),
        Err(_) => soft!("dropping the pool does not end within {:?}, all actions can", LONG),
    }
    for (j, a) in acts.iter().enumerate() {
        let (s, f) = (a.started.load(Ordering::SeqCst), a.finished.load(Ordering::SeqCst));
        let want = (a.state != ActState::Refused) as usize;
        ensure!(s == want && f == want, "action {} ({:?}) was started {} times and finished {} times when the pool was dropped", j, a.state, s, f);
        o.sub += 1;
    }
    let peak = watch.peak.load(Ordering::SeqCst);
    ensure!(peak <= cap as isize, "{} actions ran at once, the maximum is {}", peak, cap);
    o.class_if(refused > 0, "an action was refused");
    o.class_if(panicked > 0, "an action panicked");
    o.class_if(full > 0, "filled to the maximum");
    o.class_if(held > 0, "dropped while actions run");
    o.class_if(idled, "idle for the workers' idle time");
    o.class(if h.min == 0 { "dynamic only" } else if h.min >= h.max { "static only" } else { "static and dynamic" });
    o.nontrivial((refused > 0 || panicked > 0 || full > 0) && acts.len() >= 3);
    Ok(())
}

fn shape() -> impl Strategy<Value = (usize, usize)> {
    prop_oneof![
        4 => (0usize..=3, 0usize..=4),
        3 => (0usize..=8, 0usize..=16),
        2 => (1usize..=6).prop_map(|n| (n, n)),
        1 => (4usize..=8, select(vec![32usize, 100])),
    ]
    .prop_map(|(a, b)| if a == 0 && b == 0 { (0, 1) } else { (a, b) })
}

fn submit(gated: u32) -> impl Strategy<Value = Op> {
    (
        prop_oneof![gated => Just(Kind::Gated), 2 => Just(Kind::Quick), 2 => (1u16..3000).prop_map(Kind::Brief)],
        proptest::bool::weighted(0.2),
        proptest::bool::weighted(0.6),
        select(vec![Back::Drop, Back::CallIt]),
    )
        .prop_map(|(kind, panics, wait, back)| Op::Submit { kind, panics, wait, back })
}

fn ops(max_cap: usize, idle: bool) -> impl Strategy<Value = Vec<Op>> {
    let any_op = prop_oneof![
        12 => submit(6).prop_map(|x| vec![x]),
        4 => any::<usize>().prop_map(|x| vec![Op::Release(x)]),
        1 => Just(vec![Op::ReleaseAll]),
        2 => Just(vec![Op::Settle]),
        // Fills the pool and asks for one more.
        2 => (Just(()), select(vec![Back::Drop, Back::CallIt]), any::<bool>()).prop_map(move |(_, back, panics)| {
            vec![Op::Submit { kind: Kind::Gated, panics, wait: true, back }; max_cap + 1]
        }),
        (if idle { 2 } else { 0 }) => (9900u32..10400).prop_map(|x| vec![Op::Idle(x)]),
    ];
    proptest::collection::vec(any_op, 1..if idle { 16 } else { 40 }).prop_map(move |v| {
        let mut n = 0;
        // At most two long waits in a history.
        v.into_iter()
            .flatten()
            .filter(|x| {
                n += matches!(x, Op::Idle(_)) as usize;
                !matches!(x, Op::Idle(_)) || n <= 2
            })
            .collect()
    })
}

fn a_history(idle: bool) -> impl Strategy<Value = History> {
    shape()
        .prop_flat_map(move |(min, max)| (Just(min), Just(max), ops(min.max(max).min(if idle { 20 } else { 100 }), idle), any::<bool>()))
        .prop_map(|(min, max, ops, open_first)| History { min, max, ops, open_first })
}

// Actions submitted at the very moment a worker expires.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Shots {
    min: usize,
    max: usize,
    /// The worker that is idle, the others are busy.
    idle: usize,
    /// Actions submitted one after the other.
    shots: u8,
    /// When: after the idle time and as long as this share (in 1000) of timers
    /// are late, and so many nanoseconds.
    share: u16,
    ns: i32,
}

const IDLE_TIME: Duration = Duration::from_secs(10);

fn expiring(r: &Shots, o: &mut Obs) -> R {
    let gates = Mutex::new(Vec::new());
    let _open = OpenAll(&gates);
    let mut pool = Held(Some(vh::Pool::new(r.min, r.max)));
    let ended = Arc::new(Mutex::new(None));
    let mut counts = Vec::new();
    for i in 0..r.max {
        let gate = Arc::new(Gate::default());
        gates.lock().unwrap().push(gate.clone());
        let n = Arc::new(AtomicUsize::new(0));
        counts.push((n.clone(), true));
        let ended = ended.clone();
        let act = Box::new(move || {
            n.fetch_add(1, Ordering::SeqCst);
            gate.wait();
            ended.lock().unwrap().replace(Instant::now());
        });
        ensure!(pool.0.as_mut().unwrap().run(act).is_ok(), "action {} is refused, the maximum is {}", i, r.max);
    }
    let idle = r.min + r.idle % (r.max - r.min);
    gates.lock().unwrap()[idle].open();
    if !wait_until(LONG, || ended.lock().unwrap().is_some()) {
        soft!("action {} does not end although it can", idle);
    }
    let end = ended.lock().unwrap().unwrap();
    // How late timers are here.
    std::thread::sleep(IDLE_TIME - Duration::from_millis(700));
    let (_tx, rx) = mpsc::channel::<()>();
    let mut late: Vec<Duration> = (0..50)
        .map(|_| {
            let t = Instant::now();
            let _ = rx.recv_timeout(Duration::from_millis(10));
            t.elapsed() - Duration::from_millis(10)
        })
        .collect();
    late.sort();
    let late = late[(r.share as usize * late.len() / 1000).min(late.len() - 1)];
    let at = end + IDLE_TIME + Duration::from_nanos((late.as_nanos() as i64 + r.ns as i64).max(0) as u64);
    std::thread::sleep((at - Duration::from_micros(400)).saturating_duration_since(Instant::now()));
    while Instant::now() < at {
        std::hint::spin_loop();
    }
    let (mut taken, mut back) = (0, 0);
    for _ in 0..r.shots {
        let n = Arc::new(AtomicUsize::new(0));
        let m = n.clone();
        let accepted = pool.0.as_mut().unwrap().run(Box::new(move || {
            m.fetch_add(1, Ordering::SeqCst);
        }));
        if accepted.is_ok() { taken += 1 } else { back += 1 }
        counts.push((n, accepted.is_ok()));
    }
    let all_ran = wait_until(LONG, || counts.iter().all(|(n, accepted)| !accepted || n.load(Ordering::SeqCst) > 0));
    for g in gates.lock().unwrap().iter() {
        g.open();
    }
    let (tx, rx) = mpsc::channel();
    let p = pool.0.take().unwrap();
    std::thread::spawn(move || {
        let _ = tx.send(no_panic(move || drop(p)));
    });
    match rx.recv_timeout(LONG) {
        Ok(Ok(())) => (),
        Ok(Err(m)) => hard!("dropping the pool panics: {}", m),
        Err(_) => soft!("dropping the pool does not end within {:?}, all actions can", LONG),
    }
    for (i, (n, accepted)) in counts.iter().enumerate() {
        let n = n.load(Ordering::SeqCst);
        ensure!(n == *accepted as usize, "action {} (accepted: {}) ran {} times", i, accepted, n);
        o.sub += 1;
    }
    if !all_ran {
        soft!("an action submitted as a worker expires is accepted, but does not start");
    }
    o.class_if(taken > 0, "accepted as a worker expires");
    o.class_if(back > 0, "refused as a worker expires");
    Ok(())
}

fn shots() -> impl Strategy<Value = Shots> {
    (0usize..3, prop_oneof![2 => 1usize..4, 2 => 4usize..30, 1 => 30usize..60], any::<usize>(), 1u8..4, 0u16..1000, -3000i32..6000)
        .prop_map(|(min, more, idle, shots, share, ns)| Shots { min, max: min + more, idle: idle % more, shots, share, ns })
}

/// Several pools at the same time.
fn together<T: Sync>(all: &[T], o: &mut Obs, f: impl Fn(&T, &mut Obs) -> R + Sync) -> R {
    let results: Vec<(R, Obs)> = std::thread::scope(|s| {
        let all: Vec<_> = all
            .iter()
            .map(|x| {
                s.spawn(|| {
                    let mut o = Obs::default();
                    let r = no_panic(|| f(x, &mut o)).unwrap_or_else(|m| Err(Fail::Hard(m)));
                    (r, o)
                })
            })
            .collect();
        all.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, (r, ob)) in results.into_iter().enumerate() {
        r.map_err(|f| match f {
            Fail::Hard(m) => Fail::Hard(format!("pool {}: {}", i, m)),
            Fail::Soft(m) => Fail::Soft(format!("pool {}: {}", i, m)),
            f => f,
        })?;
        o.nontrivial(ob.nontrivial);
        o.sub += ob.sub;
        for c in ob.classes {
            o.class(c);
        }
    }
    Ok(())
}

pub fn c16() -> Vec<Suite> {
    let histories = suite(
        Opts {
            name: "histories",
            rule: "at least three actions, and one was refused, panicked, or filled the pool",
            quick: 3200,
            thorough: 120_000,
            shards: 8,
            shrink: 300,
            pure: false,
        },
        |_| a_history(false).boxed(),
        |_, h: &History, o| history(h, o),
    );
    // Idle workers go away after 10 s; several pools wait for that together.
    let expiry = suite(
        Opts {
            name: "expiry",
            rule: "at least one of the pools is used after its workers' idle time",
            quick: 16,
            thorough: 400,
            shards: 8,
            shrink: 6,
            pure: false,
        },
        |_| proptest::collection::vec(a_history(true), 8..24).boxed(),
        |_, hs: &Vec<History>, o| {
            together(hs, o, |h, o| {
                history(h, o)?;
                let idle_then = h.ops.iter().position(|x| matches!(x, Op::Idle(_))).is_some_and(|p| {
                    h.ops[..p].iter().any(|x| matches!(x, Op::Submit { .. })) && h.ops[p..].iter().any(|x| matches!(x, Op::Submit { .. }))
                });
                o.nontrivial = idle_then;
                o.class_if(idle_then, "used again after the idle time");
                Ok(())
            })
        },
    );
    let expiring_now = suite(
        Opts {
            name: "expiring",
            rule: "actions submitted at the moment, to microseconds, at which a worker expires; non-trivial: in one pool at least the action is accepted, in another one refused",
            quick: 8,
            thorough: 600,
            shards: 8,
            shrink: 4,
            pure: false,
        },
        |_| proptest::collection::vec(shots(), 20..40).boxed(),
        |_, rs: &Vec<Shots>, o| {
            together(rs, o, expiring)?;
            o.nontrivial(o.classes.iter().any(|c| c.starts_with("acc")) && o.classes.iter().any(|c| c.starts_with("ref")));
            Ok(())
        },
    );
    vec![histories, expiry, expiring_now]
}

// ------------------------------------------------------------------- C18

/// A resource that can be followed.
struct Tok {
    id: usize,
    alive: Arc<Vec<AtomicBool>>,
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.alive[self.id].store(false, Ordering::SeqCst);
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum LOp {
    Put(usize),
    /// Puts keys a, a+1, … (so many).
    PutMany(usize, usize),
    Get(usize),
    /// Takes out a resource and puts it back under the same key, as the client does.
    Use(usize),
    Drain,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lru {
    keys: usize,
    idle: Option<u32>,
    ops: Vec<LOp>,
}

const MAX: usize = 100;

fn later_than(t: Instant) {
    while Instant::now() <= t {
        std::hint::spin_loop();
    }
}

fn lru(c: &Lru, o: &mut Obs) -> R {
    let pool: vh::VerifPool<Tok> = vh::VerifPool::new(c.idle.map(|s| Duration::from_secs(s as u64)));
    let began = Instant::now();
    let total: usize = c.ops.iter().map(|x| if let LOp::PutMany(_, n) = x { *n } else { 1 }).sum();
    let alive: Arc<Vec<AtomicBool>> = Arc::new((0..total).map(|_| AtomicBool::new(false)).collect());
    let key = |k: usize| format!("host-{}:{}", k % c.keys, 1000 + k % c.keys);
    // key -> (id, when)
    let mut model: HashMap<usize, (usize, usize)> = HashMap::new();
    let (mut next, mut clock) = (0, 0);
    let (mut evictions, mut full_again) = (0, 0);
    let put = |k: usize, model: &mut HashMap<usize, (usize, usize)>, next: &mut usize, clock: &mut usize, ev: &mut usize, fa: &mut usize, reuse: Option<Tok>| {
        let k = k % c.keys;
        let tok = reuse.unwrap_or_else(|| {
            let id = *next;
            *next += 1;
            alive[id].store(true, Ordering::SeqCst);
            Tok { id, alive: alive.clone() }
        });
        let id = tok.id;
        let t = Instant::now();
        later_than(t);
        let r = vh::VerifPoolResource::new(tok);
        later_than(Instant::now());
        pool.insert(&key(k), r);
        if model.len() >= MAX {
            if model.contains_key(&k) {
                *fa += 1;
            } else {
                let oldest = *model.iter().min_by_key(|(_, v)| v.1).unwrap().0;
                model.remove(&oldest);
                *ev += 1;
            }
        }
        *clock += 1;
        model.insert(k, (id, *clock));
    };
    let compare = |model: &HashMap<usize, (usize, usize)>, n: usize| -> R {
        let want: std::collections::HashSet<usize> = model.values().map(|v| v.0).collect();
        for (id, a) in alive.iter().enumerate() {
            let a = a.load(Ordering::SeqCst);
            ensure!(
                a == want.contains(&id),
                "after operation {}: resource {} is {} the pool ({} expected in it)",
                n,
                id,
                if a { "kept by" } else { "not in" },
                want.len()
            );
        }
        Ok(())
    };
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            LOp::Put(k) => put(*k, &mut model, &mut next, &mut clock, &mut evictions, &mut full_again, None),
            LOp::PutMany(k, m) => {
                for i in 0..*m {
                    put(k.wrapping_add(i), &mut model, &mut next, &mut clock, &mut evictions, &mut full_again, None);
                }
            }
            LOp::Get(k) | LOp::Use(k) => {
                let k = k % c.keys;
                let got = pool.get(&key(k)).map(|r| r.resource());
                let want = model.remove(&k).map(|v| v.0);
                ensure!(
                    got.as_ref().map(|t| t.id) == want,
                    "operation {}: key {} gives resource {:?}, {:?} was put there last",
                    n,
                    k,
                    got.as_ref().map(|t| t.id),
                    want
                );
                ensure!(pool.get(&key(k)).is_none(), "operation {}: a resource that was taken out is still in the pool", n);
                if matches!(op, LOp::Use(_)) {
                    if let Some(t) = got {
                        put(k, &mut model, &mut next, &mut clock, &mut evictions, &mut full_again, Some(t));
                    }
                }
            }
            LOp::Drain => {
                let mut got: Vec<usize> = pool.drain().into_iter().map(|r| r.resource().id).collect();
                let mut want: Vec<usize> = model.drain().map(|(_, v)| v.0).collect();
                got.sort();
                want.sort();
                ensure!(got == want, "operation {}: drain gives {:?}, {:?} were in the pool", n, got, want);
            }
        }
        if began.elapsed() > Duration::from_secs(8) {
            return Err(Fail::Skip("too slow for the idle timeouts".into()));
        }
        compare(&model, n)?;
        o.sub += 1;
    }
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(no_panic(move || drop(pool)));
    });
    match rx.recv_timeout(LONG) {
        Ok(Ok(())) => (),
        Ok(Err(m)) => hard!("dropping the pool panics: {}", m),
        Err(_) => soft!("dropping the pool does not end within {:?}", LONG),
    }
    compare(&HashMap::new(), usize::MAX)?;
    o.class_if(evictions > 0, "evictions from a full pool");
    o.class_if(full_again > 0, "put again under a key of a full pool");
    o.nontrivial(evictions > 0 || c.ops.iter().any(|x| matches!(x, LOp::Use(_) | LOp::Get(_))));
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Aging {
    /// The idle timeout, ms.
    idle: u32,
    /// When to put which key (ms), in any order.
    puts: Vec<(u32, usize)>,
    /// When to look at everything.
    look: u32,
}

fn aging(c: &Aging, o: &mut Obs) -> R {
    let pool: vh::VerifPool<usize> = vh::VerifPool::new(Some(Duration::from_millis(c.idle as u64)));
    let idle = Duration::from_millis(c.idle as u64);
    let t0 = Instant::now();
    let mut puts = c.puts.clone();
    puts.sort();
    let mut last: HashMap<usize, (usize, Instant, Instant)> = HashMap::new();
    for (i, (at, k)) in puts.iter().enumerate() {
        let at = Duration::from_millis(*at as u64);
        std::thread::sleep(at.saturating_sub(t0.elapsed()));
        let before = Instant::now();
        pool.insert(&k.to_string(), vh::VerifPoolResource::new(i));
        last.insert(*k, (i, before, Instant::now()));
    }
    std::thread::sleep(Duration::from_millis(c.look as u64).saturating_sub(t0.elapsed()));
    for (k, (i, before, after)) in last {
        let oldest_when_asked = after.elapsed();
        let got = pool.get(&k.to_string()).map(|r| r.resource());
        let youngest = before.elapsed();
        match got {
            Some(g) => {
                ensure!(g == i, "key {} gives {}, {} was put there last", k, g, i);
                // The worker looks every 15 s.
                if oldest_when_asked > idle + Duration::from_secs(15) + Duration::from_secs(6) {
                    soft!("a resource is still there after {:?}, the idle timeout is {:?}", oldest_when_asked, idle);
                }
                o.class("kept");
            }
            None => {
                ensure!(youngest >= idle, "a resource is gone {:?} after it was put, the idle timeout is {:?}", youngest, idle);
                o.class("expired");
                o.nontrivial(true);
            }
        }
        o.sub += 1;
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Race {
    threads: Vec<Vec<LOp>>,
    keys: usize,
}

pub fn c18() -> Vec<Suite> {
    let lru_suite = suite(
        Opts {
            name: "lru",
            rule: "a resource is retrieved, or evicted from the full pool",
            quick: 12_000,
            thorough: 400_000,
            shards: 8,
            shrink: 2000,
            pure: false,
        },
        |_| {
            let keys = prop_oneof![2 => 1usize..8, 3 => 99usize..130, 1 => 130usize..400];
            let op = prop_oneof![
                8 => any::<u16>().prop_map(|k| LOp::Put(k as usize)),
                4 => any::<u16>().prop_map(|k| LOp::Get(k as usize)),
                6 => any::<u16>().prop_map(|k| LOp::Use(k as usize)),
                2 => (any::<u16>(), prop_oneof![1usize..10, 90usize..140]).prop_map(|(k, n)| LOp::PutMany(k as usize, n)),
                1 => Just(LOp::Drain),
            ];
            (keys, proptest::option::of(10u32..4000), proptest::collection::vec(op, 1..40), any::<bool>())
                .prop_map(|(keys, idle, mut ops, fill)| {
                    if fill {
                        ops.insert(0, LOp::PutMany(0, keys.min(MAX)));
                    }
                    Lru { keys, idle, ops }
                })
                .boxed()
        },
        |_, c: &Lru, o| lru(c, o),
    );
    let aging_suite = suite(
        Opts {
            name: "aging",
            rule: "at least one resource expires",
            quick: 8,
            thorough: 240,
            shards: 8,
            shrink: 4,
            pure: false,
        },
        |_| {
            let one = (prop_oneof![2 => 0u32..4000, 2 => 4000u32..20_000, 1 => 30_000u32..60_000], proptest::collection::vec((prop_oneof![0u32..2000, 0u32..24_000, 13_000u32..16_000], 0usize..60), 1..40), 15_200u32..26_000)
                .prop_map(|(idle, puts, look)| {
                    // Puts after the look count for nothing.
                    let puts = puts.into_iter().map(|(a, k)| (a.min(look), k)).collect();
                    Aging { idle, puts, look }
                });
            proptest::collection::vec(one, 40..60).boxed()
        },
        |_, cs: &Vec<Aging>, o| {
            let results: Vec<(R, Obs)> = std::thread::scope(|s| {
                let hs: Vec<_> = cs
                    .iter()
                    .map(|c| {
                        s.spawn(move || {
                            let mut o = Obs::default();
                            (no_panic(|| aging(c, &mut o)).unwrap_or_else(|m| Err(Fail::Hard(m))), o)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (r, ob) in results {
                r?;
                o.sub += ob.sub;
                o.nontrivial(ob.nontrivial);
                for c in ob.classes {
                    o.class(c);
                }
            }
            Ok(())
        },
    );
    let race = suite(
        Opts {
            name: "threads",
            rule: "several threads use the pool at once",
            quick: 2000,
            thorough: 60_000,
            shards: 8,
            shrink: 50,
            pure: false,
        },
        |_| {
            let op = prop_oneof![
                8 => any::<u8>().prop_map(|k| LOp::Put(k as usize)),
                6 => any::<u8>().prop_map(|k| LOp::Get(k as usize)),
                6 => any::<u8>().prop_map(|k| LOp::Use(k as usize)),
                1 => (any::<u8>(), 50usize..120).prop_map(|(k, n)| LOp::PutMany(k as usize, n)),
                1 => Just(LOp::Drain),
            ];
            (proptest::collection::vec(proptest::collection::vec(op, 1..60), 2..6), select(vec![3usize, 100, 120, 300]))
                .prop_map(|(threads, keys)| Race { threads, keys })
                .boxed()
        },
        |_, c: &Race, o| {
            let pool: Arc<vh::VerifPool<(usize, usize, usize)>> = Arc::new(vh::VerifPool::new(Some(Duration::from_secs(600))));
            // Every resource says which thread put it under which key; (thread, number) is unique.
            let taken: Vec<Vec<(usize, usize, usize)>> = std::thread::scope(|s| {
                let hs: Vec<_> = c
                    .threads
                    .iter()
                    .enumerate()
                    .map(|(t, ops)| {
                        let pool = &pool;
                        s.spawn(move || -> Result<Vec<(usize, usize, usize)>, String> {
                            let mut n = 0;
                            let mut out = Vec::new();
                            for op in ops {
                                match op {
                                    LOp::Put(k) | LOp::PutMany(k, _) => {
                                        let m = if let LOp::PutMany(_, m) = op { *m } else { 1 };
                                        for i in 0..m {
                                            let k = (k + i) % c.keys;
                                            pool.insert(&k.to_string(), vh::VerifPoolResource::new((t, n, k)));
                                            n += 1;
                                        }
                                    }
                                    LOp::Get(k) | LOp::Use(k) => {
                                        let k = k % c.keys;
                                        if let Some(r) = pool.get(&k.to_string()) {
                                            let v = r.resource();
                                            if v.2 != k {
                                                return Err(format!("key {} gives a resource put under {}", k, v.2));
                                            }
                                            out.push(v);
                                            if matches!(op, LOp::Use(_)) {
                                                pool.insert(&k.to_string(), vh::VerifPoolResource::new((t, n, k)));
                                                n += 1;
                                            }
                                        }
                                    }
                                    LOp::Drain => {
                                        let d = pool.drain();
                                        if d.len() > MAX {
                                            return Err(format!("{} resources were in the pool", d.len()));
                                        }
                                        out.extend(d.into_iter().map(|r| r.resource()));
                                    }
                                }
                            }
                            Ok(out)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panics".into()))).collect::<Result<Vec<_>, String>>()
            })
            .map_err(Fail::Hard)?;
            let rest: Vec<_> = pool.drain().into_iter().map(|r| r.resource()).collect();
            ensure!(rest.len() <= MAX, "{} resources were in the pool", rest.len());
            let mut seen = std::collections::HashSet::new();
            for v in taken.into_iter().flatten().chain(rest) {
                ensure!(seen.insert((v.0, v.1)), "resource {:?} was given out twice", v);
                o.sub += 1;
            }
            o.nontrivial(c.threads.len() > 1 && o.sub > 0);
            Ok(())
        },
    );
    vec![lru_suite, race, aging_suite]
}
