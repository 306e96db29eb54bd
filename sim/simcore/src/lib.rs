//! The simulator: seeded task scheduler, virtual clock, timers, entropy, and
//! virtual worker threads that can be preempted at lock operations. One process
//! runs at most one simulation.
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::task::{Context, Poll, Wake, Waker};

pub mod libc_hooks;
pub mod rng;
pub use rng::Rng;

/// How tasks are scheduled. Everything is derived from `seed`.
#[derive(Clone, Debug)]
pub struct SchedConfig {
    pub seed: u64,
    /// Virtual worker threads (1: a task poll is atomic).
    pub workers: usize,
    /// Chance per million that a lock operation is a preemption point.
    pub preempt_ppm: u64,
    /// Chance per million that a preempted virtual thread does not run again for a while.
    pub long_ppm: u64,
    /// Upper bound of that while (ns).
    pub long_max: u64,
    /// Pick the oldest ready task instead of a random one.
    pub fifo: bool,
    /// Chance per million that a woken task becomes runnable only after a delay.
    pub wake_delay_ppm: u64,
    /// Upper bound of that delay (ns).
    pub wake_delay_max: u64,
    pub max_steps: u64,
    /// Virtual time limit (ns).
    pub max_time: u64,
}
impl Default for SchedConfig {
    fn default() -> Self {
        SchedConfig {
            seed: 1,
            workers: 1,
            preempt_ppm: 0,
            long_ppm: 0,
            long_max: 0,
            fifo: false,
            wake_delay_ppm: 0,
            wake_delay_max: 0,
            max_steps: 2_000_000,
            max_time: u64::MAX,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fatal {
    /// Nothing can ever run again but the root is not done.
    Idle,
    /// All running polls wait for locks held by each other.
    LockDeadlock(String),
    Steps,
    Time,
    /// A harness task panicked.
    HarnessPanic(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub polls: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub lock_blocks: u64,
    pub wake_delays: u64,
    pub timers: u64,
    pub spawned: u64,
    pub lock_ops: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Group {
    /// Broker tasks: a panic is recorded as an observation.
    System,
    /// Simulated clients, observers: a panic is an error of the harness.
    Harness,
}

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;
struct Task {
    fut: Option<BoxFut>,
    queued: bool,
    rewake: bool,
    group: Group,
    waker: Option<Waker>,
    abort: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum WState {
    Idle,
    Running,
    Parked,
    /// preempted for some time: a timer makes it Parked
    Asleep,
    Blocked(usize),
}
enum TimerKind {
    Wake(Waker),
    Ready(usize),
    Unpark(usize),
}
struct State {
    cfg: SchedConfig,
    rng: Rng,
    tasks: Vec<Task>,
    ready: Vec<usize>,
    timers: BTreeMap<(u64, u64), TimerKind>,
    seq: u64,
    steps: u64,
    wstate: Vec<WState>,
    baton: usize,
    // lock address -> workers waiting to write
    waiting_writers: HashMap<usize, Vec<usize>>,
    fail_streak: usize,
    stats: Stats,
    panics: Vec<String>,
    on_fatal: Option<Box<dyn FnOnce(Fatal) + Send>>,
    alive_system: usize,
}
pub struct Sim {
    st: Mutex<State>,
    cv: Vec<Condvar>,
}

static SIM: OnceLock<Sim> = OnceLock::new();
static ACTIVE: AtomicBool = AtomicBool::new(false);
static PREEMPT: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0);
static WALL_OFFSET: AtomicI64 = AtomicI64::new(0);
static ENTROPY: AtomicU64 = AtomicU64::new(0x5eed);
static HASH: AtomicU64 = AtomicU64::new(0xcbf2_9ce4_8422_2325);
static ROOT_DONE: AtomicBool = AtomicBool::new(false);
static LOCK_OPS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static GROUP: Cell<Group> = const { Cell::new(Group::Harness) };
    static PANIC_AT: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
/// Virtual nanoseconds since the start of the run.
pub fn now() -> u64 {
    NOW.load(Ordering::Relaxed)
}
pub fn wall_offset() -> i64 {
    WALL_OFFSET.load(Ordering::Relaxed)
}
/// Steps the system (wall) clock; the monotonic clock is unaffected.
pub fn jump_wall_clock(delta_ns: i64) {
    WALL_OFFSET.fetch_add(delta_ns, Ordering::Relaxed);
}
pub fn entropy() -> u64 {
    let mut x = ENTROPY.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
    rng::splitmix(&mut x)
}
/// Folds a decision into the fingerprint of the execution.
pub fn fold(v: u64) {
    let h = HASH.load(Ordering::Relaxed);
    HASH.store((h ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23), Ordering::Relaxed);
}
pub fn fingerprint() -> u64 {
    HASH.load(Ordering::Relaxed)
}
fn sim() -> &'static Sim {
    SIM.get().expect("no simulation")
}
fn st() -> MutexGuard<'static, State> {
    sim().st.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn stats() -> Stats {
    let mut s = st().stats.clone();
    s.lock_ops = LOCK_OPS.load(Ordering::Relaxed);
    s
}
pub fn system_panics() -> Vec<String> {
    st().panics.clone()
}
/// Number of broker tasks that have not finished.
pub fn system_tasks_alive() -> usize {
    st().alive_system
}

/// Prepares the simulation; `on_fatal` must not return.
pub fn init(cfg: SchedConfig, on_fatal: Box<dyn FnOnce(Fatal) + Send>) {
    let n = cfg.workers.max(1);
    ENTROPY.store(Rng::stream(cfg.seed, 7).next(), Ordering::SeqCst);
    PREEMPT.store(n > 1 && cfg.preempt_ppm > 0, Ordering::SeqCst);
    let rng = Rng::stream(cfg.seed, 1);
    let s = Sim {
        st: Mutex::new(State {
            cfg,
            rng,
            tasks: Vec::new(),
            ready: Vec::new(),
            timers: BTreeMap::new(),
            seq: 0,
            steps: 0,
            wstate: vec![WState::Idle; n],
            baton: 0,
            waiting_writers: HashMap::new(),
            fail_streak: 0,
            stats: Stats::default(),
            panics: Vec::new(),
            on_fatal: Some(on_fatal),
            alive_system: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    };
    if SIM.set(s).is_err() {
        panic!("one simulation per process");
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        if std::env::var_os("SIM_BACKTRACE").is_some() {
            let bt = std::backtrace::Backtrace::force_capture();
            eprintln!("panic: {msg} at {loc}\n{bt}");
        }
        PANIC_AT.with(|p| p.set(Some(format!("{msg} at {loc}"))));
    }));
    ACTIVE.store(true, Ordering::SeqCst);
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Ends the run: something goes round without ever giving way.
pub fn spinning() -> ! {
    fatal(st(), Fatal::Steps)
}
fn fatal(mut g: MutexGuard<'static, State>, f: Fatal) -> ! {
    let cb = g.on_fatal.take();
    drop(g);
    if let Some(cb) = cb {
        cb(f);
    }
    std::process::abort();
}

struct TaskWaker(usize);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        wake_task(self.0)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        wake_task(self.0)
    }
}
fn wake_task(id: usize) {
    let mut s = st();
    let s = &mut *s;
    let t = &mut s.tasks[id];
    if t.queued {
        return;
    }
    if t.fut.is_none() {
        // being polled (or finished)
        t.rewake = true;
        return;
    }
    t.queued = true;
    enqueue(s, id);
}
fn enqueue(s: &mut State, id: usize) {
    if s.cfg.wake_delay_ppm > 0 && s.rng.chance(s.cfg.wake_delay_ppm, 1_000_000) {
        let d = s.rng.range(1, s.cfg.wake_delay_max.max(1));
        s.stats.wake_delays += 1;
        s.seq += 1;
        let k = (now() + d, s.seq);
        s.timers.insert(k, TimerKind::Ready(id));
    } else {
        s.ready.push(id);
    }
}

pub fn current_group() -> Group {
    GROUP.with(|g| g.get())
}
pub fn current_task() -> usize {
    TASK.with(|t| t.get())
}

/// Spawns a task in the given group; the group of the current task if `None`.
pub fn spawn_raw(group: Option<Group>, fut: BoxFut) -> usize {
    let group = group.unwrap_or_else(current_group);
    let mut s = st();
    let id = s.tasks.len();
    s.tasks.push(Task { fut: Some(fut), queued: true, rewake: false, group, waker: None, abort: false });
    s.tasks[id].waker = Some(Waker::from(Arc::new(TaskWaker(id))));
    s.stats.spawned += 1;
    if group == Group::System {
        s.alive_system += 1;
    }
    enqueue(&mut s, id);
    id
}
pub fn abort_task(id: usize) {
    let fut = {
        let mut s = st();
        let t = &mut s.tasks[id];
        t.abort = true;
        let f = t.fut.take();
        if f.is_some() && t.group == Group::System {
            s.alive_system -= 1;
        }
        f
    };
    drop(fut);
}

// ------------------------------------------------------------------ timers

/// Registers a wake-up; returns a key for `cancel_timer`.
pub fn add_timer(at: u64, w: Waker) -> (u64, u64) {
    let mut s = st();
    s.seq += 1;
    s.stats.timers += 1;
    let k = (at, s.seq);
    s.timers.insert(k, TimerKind::Wake(w));
    k
}
pub fn cancel_timer(k: (u64, u64)) {
    let _old = st().timers.remove(&k);
}
pub fn update_timer(k: (u64, u64), w: &Waker) -> bool {
    let old = {
        let mut s = st();
        match s.timers.get_mut(&k) {
            Some(TimerKind::Wake(x)) => {
                if x.will_wake(w) {
                    return true;
                }
                std::mem::replace(x, w.clone())
            }
            _ => return false,
        }
    };
    drop(old);
    true
}

// ------------------------------------------------------------------ executor

enum Next {
    Task(usize),
    Worker(usize),
    Time,
}

impl State {
    /// What runs next. `me_idle`: the calling worker can start a task.
    fn choose(&mut self, me: usize, me_can_start: bool) -> Next {
        let n = self.wstate.len();
        let idle = me_can_start || (0..n).any(|w| w != me && self.wstate[w] == WState::Idle);
        let parked: Vec<usize> = (0..n).filter(|w| matches!(self.wstate[*w], WState::Parked)).collect();
        let blocked: Vec<usize> = (0..n).filter(|w| matches!(self.wstate[*w], WState::Blocked(_))).collect();
        let can_task = idle && !self.ready.is_empty();
        let asleep = (0..n).any(|w| self.wstate[w] == WState::Asleep);
        if asleep && parked.is_empty() && !can_task {
            // whoever is blocked may well wait for the sleeper
            return Next::Time;
        }
        let total = parked.len() + can_task as usize * 2 + (!blocked.is_empty()) as usize;
        if total == 0 {
            return Next::Time;
        }
        let mut x = self.rng.below(total as u64) as usize;
        if x < parked.len() {
            return Next::Worker(parked[x]);
        }
        x -= parked.len();
        if can_task && x < 2 {
            let i = if self.cfg.fifo { 0 } else { self.rng.below(self.ready.len() as u64) as usize };
            let id = if self.cfg.fifo { self.ready.remove(0) } else { self.ready.swap_remove(i) };
            return Next::Task(id);
        }
        let i = self.rng.below(blocked.len() as u64) as usize;
        Next::Worker(blocked[i])
    }
    /// Moves the clock to the next timer and fires everything due.
    fn advance(&mut self) -> Option<Vec<Waker>> {
        let (&(at, _), _) = self.timers.iter().next()?;
        if at > now() {
            NOW.store(at, Ordering::Relaxed);
        }
        Some(self.fire())
    }
    fn fire(&mut self) -> Vec<Waker> {
        let t = now();
        let mut v = Vec::new();
        while let Some((&k, _)) = self.timers.iter().next() {
            if k.0 > t {
                break;
            }
            match self.timers.remove(&k).unwrap() {
                TimerKind::Wake(w) => v.push(w),
                TimerKind::Ready(id) => self.ready.push(id),
                TimerKind::Unpark(w) => {
                    if self.wstate[w] == WState::Asleep {
                        self.wstate[w] = WState::Parked;
                    }
                }
            }
        }
        v
    }
}

fn wait_baton(me: usize) {
    let mut s = st();
    while s.baton != me {
        s = sim().cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
}
fn give(mut s: MutexGuard<'static, State>, to: usize) {
    s.baton = to;
    drop(s);
    sim().cv[to].notify_one();
}

/// Runs the simulation until `root` completes.
pub fn block_on<F: Future>(root: F) -> F::Output
where
    F: Send,
    F::Output: Send,
{
    static ENTERED: AtomicBool = AtomicBool::new(false);
    assert!(!ENTERED.swap(true, Ordering::SeqCst), "nested block_on in a simulation");
    let done: Arc<Mutex<Option<F::Output>>> = Arc::new(Mutex::new(None));
    let d2 = done.clone();
    let fut: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(async move {
        let r = root.await;
        *d2.lock().unwrap() = Some(r);
        ROOT_DONE.store(true, Ordering::SeqCst);
    });
    // The root outlives this call's loop: it is polled to completion or the process ends.
    let fut: BoxFut = unsafe { std::mem::transmute(fut) };
    let group = current_group();
    spawn_raw(Some(group), fut);
    let n = st().wstate.len();
    for w in 1..n {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                WORKER.with(|x| x.set(w));
                wait_baton(w);
                worker_loop(w);
            })
            .expect("worker thread");
    }
    WORKER.with(|x| x.set(0));
    st().baton = 0;
    worker_loop(0);
    ROOT_DONE.store(false, Ordering::SeqCst);
    ENTERED.store(false, Ordering::SeqCst);
    let r = done.lock().unwrap().take().unwrap();
    r
}

/// Called with the baton held and nothing running on this worker.
fn worker_loop(me: usize) {
    loop {
        let mut s = st();
        if ROOT_DONE.load(Ordering::SeqCst) {
            if me == 0 {
                return;
            }
            s.wstate[me] = WState::Idle;
            give(s, 0);
            wait_baton(me);
            continue;
        }
        s.wstate[me] = WState::Idle;
        s.steps += 1;
        if s.steps > s.cfg.max_steps {
            fatal(s, Fatal::Steps);
        }
        let due = s.fire();
        if !due.is_empty() {
            drop(s);
            for w in due {
                w.wake();
            }
            continue;
        }
        match s.choose(me, true) {
            Next::Task(id) => {
                s.fail_streak = 0;
                s.wstate[me] = WState::Running;
                run_task(s, id);
            }
            Next::Worker(w) => {
                give(s, w);
                wait_baton(me);
            }
            Next::Time => {
                let t = now();
                if t > s.cfg.max_time {
                    fatal(s, Fatal::Time);
                }
                match s.advance() {
                    Some(ws) => {
                        drop(s);
                        for w in ws {
                            w.wake();
                        }
                    }
                    None => fatal(s, Fatal::Idle),
                }
            }
        }
    }
}

fn run_task(mut s: MutexGuard<'static, State>, id: usize) {
    let t = &mut s.tasks[id];
    t.queued = false;
    t.rewake = false;
    let Some(mut fut) = t.fut.take() else { return };
    let group = t.group;
    let waker = t.waker.clone().unwrap();
    s.stats.polls += 1;
    // every poll costs between 1 and 20 microseconds of virtual time
    let cost = s.rng.range(1_000, 20_000);
    drop(s);
    NOW.fetch_add(cost, Ordering::Relaxed);
    fold(id as u64 ^ (now() << 20));
    TASK.with(|x| x.set(id));
    GROUP.with(|x| x.set(group));
    let mut cx = Context::from_waker(&waker);
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    match res {
        Ok(Poll::Pending) => {
            let mut s = st();
            if s.tasks[id].abort {
                if group == Group::System {
                    s.alive_system -= 1;
                }
                drop(s);
                drop(fut);
            } else {
                let t = &mut s.tasks[id];
                t.fut = Some(fut);
                if t.rewake {
                    t.rewake = false;
                    t.queued = true;
                    enqueue(&mut s, id);
                }
            }
        }
        Ok(Poll::Ready(())) => {
            drop(fut);
            if group == Group::System {
                st().alive_system -= 1;
            }
        }
        Err(p) => {
            let at = PANIC_AT.with(|p| p.take()).unwrap_or_else(|| payload_str(&*p));
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(fut)));
            let mut s = st();
            if group == Group::System {
                s.alive_system -= 1;
                s.panics.push(at);
            } else {
                fatal(s, Fatal::HarnessPanic(at));
            }
        }
    }
    TASK.with(|x| x.set(usize::MAX));
    GROUP.with(|x| x.set(Group::Harness));
}

// ------------------------------------------------------------------ preemption at locks

/// Hands the baton to someone else, in the middle of a poll.
fn switch(mut s: MutexGuard<'static, State>, me: usize, state: WState) {
    s.wstate[me] = state;
    let (id, group) = (TASK.with(|t| t.get()), GROUP.with(|g| g.get()));
    loop {
        match s.choose(me, false) {
            Next::Worker(w) if w == me => {}
            Next::Worker(w) => {
                s.stats.preemptions += 1;
                give(s, w);
                wait_baton(me);
                s = st();
            }
            Next::Task(t) => {
                // an idle worker starts it
                s.stats.preemptions += 1;
                s.fail_streak = 0;
                let n = s.wstate.len();
                let w = (0..n).find(|w| *w != me && s.wstate[*w] == WState::Idle).unwrap();
                // put it first in line for that worker
                s.ready.push(t);
                give(s, w);
                wait_baton(me);
                s = st();
            }
            Next::Time => {
                let someone = s.wstate.iter().any(|w| *w == WState::Asleep);
                if someone {
                    let ws = s.advance().unwrap_or_default();
                    drop(s);
                    for w in ws {
                        w.wake();
                    }
                    s = st();
                    s.fail_streak = 0;
                    if s.wstate[me] == WState::Asleep || matches!(s.wstate[me], WState::Blocked(_)) {
                        continue;
                    }
                }
            }
        }
        break;
    }
    s.wstate[me] = WState::Running;
    drop(s);
    TASK.with(|t| t.set(id));
    GROUP.with(|g| g.set(group));
}

/// A point where another virtual thread may run.
#[inline]
pub fn yield_point() {
    if !PREEMPT.load(Ordering::Relaxed) {
        return;
    }
    yield_slow()
}
#[cold]
fn yield_slow() {
    let me = WORKER.with(|w| w.get());
    if me == usize::MAX || TASK.with(|t| t.get()) == usize::MAX || current_group() != Group::System {
        return;
    }
    let mut s = st();
    let p = s.cfg.preempt_ppm;
    if !s.rng.chance(p, 1_000_000) {
        return;
    }
    let p = s.cfg.long_ppm;
    if p > 0 && s.rng.chance(p, 1_000_000) {
        let max = s.cfg.long_max;
        let at = now() + s.rng.range(max / 50, max);
        s.stats.stalls += 1;
        s.seq += 1;
        let k = (at, s.seq);
        s.timers.insert(k, TimerKind::Unpark(me));
        return switch(s, me, WState::Asleep);
    }
    switch(s, me, WState::Parked);
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum LockMode {
    Shared,
    /// Shared, and not held back by waiting writers.
    Recursive,
    Exclusive,
}

/// Acquires a lock under the simulator. `prefer_writers`: a waiting writer keeps new readers out.
pub fn lock(addr: usize, mode: LockMode, prefer_writers: bool, name: &'static str, try_lock: &dyn Fn() -> bool) {
    LOCK_OPS.fetch_add(1, Ordering::Relaxed);
    yield_point();
    let me = WORKER.with(|w| w.get());
    if me == usize::MAX {
        // not a simulated thread (set-up code before the run)
        while !try_lock() {
            std::thread::yield_now();
        }
        return;
    }
    let mut waiting = false;
    loop {
        let held_back = prefer_writers && mode == LockMode::Shared && PREEMPT.load(Ordering::Relaxed) && {
            let s = st();
            s.waiting_writers.get(&addr).is_some_and(|v| v.iter().any(|w| *w != me))
        };
        if !held_back && try_lock() {
            if waiting {
                let mut s = st();
                s.fail_streak = 0;
                if let Some(v) = s.waiting_writers.get_mut(&addr) {
                    v.retain(|w| *w != me);
                }
            }
            return;
        }
        let mut s = st();
        s.stats.lock_blocks += 1;
        s.fail_streak += 1;
        if mode == LockMode::Exclusive && !waiting {
            s.waiting_writers.entry(addr).or_default().push(me);
        }
        waiting = true;
        let n = s.wstate.len();
        let someone = (0..n).any(|w| w != me && matches!(s.wstate[w], WState::Parked | WState::Asleep))
            || (!s.ready.is_empty() && (0..n).any(|w| w != me && s.wstate[w] == WState::Idle));
        if !someone && s.fail_streak > 64 * n {
            fatal(s, Fatal::LockDeadlock(name.to_string()));
        }
        switch(s, me, WState::Blocked(addr));
    }
}

pub static GETRANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

/// Runs `f` with the given group as the current one (for spawning before the run starts).
pub fn with_group<R>(g: Group, f: impl FnOnce() -> R) -> R {
    let old = GROUP.with(|x| x.replace(g));
    let r = f();
    GROUP.with(|x| x.set(old));
    r
}
