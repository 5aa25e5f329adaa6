use corosensei::{Coroutine, CoroutineResult, Yielder, stack::DefaultStack};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::Duration;

pub type TaskId = usize;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ChoicePoint {
    pub options: u32,
    pub chosen: u32,
    /// Does choosing a non-zero alternative here count as a deviation?
    pub costly: bool,
    pub label: &'static str,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// The main task returned.
    Done,
    /// The main task cannot run and nothing else can make it run.
    Deadlock(String),
    /// Step or time horizon exceeded.
    Hang(String),
    /// The main task panicked with this message.
    MainPanic(String),
    /// A replayed prefix did not fit the execution (harness error).
    Diverged(String),
}

#[derive(Clone, Debug)]
pub struct Config {
    /// Offer "a timer fires although tasks can still run" as a deviation.
    pub early_timers: bool,
    /// Offer context switches at scheduling points at all.
    pub preempt: bool,
    /// Count every departure from the default task order as a deviation (delay bounding),
    /// not only switches away from a task that could go on (preemption bounding).
    pub delay_bounded: bool,
    pub max_steps: u64,
    pub max_time: Duration,
    pub stack_size: usize,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            early_timers: false,
            preempt: true,
            delay_bounded: false,
            max_steps: 200_000,
            max_time: Duration::from_secs(24 * 3600),
            stack_size: 256 * 1024,
        }
    }
}

enum State {
    Ready,
    /// Waits for a condition, optionally until a deadline.
    Blocked { ready: Box<dyn FnMut() -> bool>, deadline: Option<u64>, label: &'static str },
    /// Runs only when nothing else can.
    Quiesce,
    Done,
}

type Coro = Coroutine<(), (), (), DefaultStack>;

struct Task {
    name: String,
    coro: Option<Coro>,
    state: State,
    timed_out: bool,
    yielder: *const Yielder<(), ()>,
    /// Result of the task: None while running; Err(message) if it panicked.
    panic: Option<String>,
}

pub struct World {
    cfg: Config,
    tasks: Vec<Task>,
    cur: Option<TaskId>,
    last: Option<TaskId>,
    prefix: Vec<u32>,
    pub trace: Vec<ChoicePoint>,
    now: u64,
    steps: u64,
    diverged: Option<String>,
    tearing_down: bool,
    /// Per-world storage for simulated resources.
    slots: BTreeMap<&'static str, Box<dyn Any>>,
    log: Vec<String>,
    log_on: bool,
    /// Scheduling and environment choices are not offered (defaults are taken).
    quiet: bool,
}

thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Is the caller running inside a world?
pub fn in_world() -> bool {
    WORLD.with(|w| !w.get().is_null())
}

/// Is the caller inside a world that is being torn down (or in no world at all)?
pub fn tearing_down() -> bool {
    WORLD.with(|w| {
        let p = w.get();
        p.is_null() || unsafe { (*p).tearing_down }
    })
}

#[allow(clippy::mut_from_ref)]
fn world() -> &'static mut World {
    let p = WORLD.with(|w| w.get());
    assert!(!p.is_null(), "mc primitive used outside of a world");
    unsafe { &mut *p }
}

fn panic_message(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".to_string()
    }
}

/// Installs a panic hook that keeps worlds quiet and records location and message.
pub fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let quiet = QUIET.with(|q| q.get()) || in_world();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
            if !quiet {
                old(info);
            }
        }));
    });
}

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }

/// Runs `f`, turning a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    install_panic_hook();
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| panic_message(&*e))
    })
}

impl World {
    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.tasks.iter().enumerate() {
            let st = match &t.state {
                State::Ready => "ready".to_string(),
                State::Blocked { label, deadline, .. } => format!("blocked on {label} (deadline {deadline:?})"),
                State::Quiesce => "waiting for quiescence".to_string(),
                State::Done => continue,
            };
            s.push_str(&format!("[{i} {}: {st}] ", t.name));
        }
        s
    }

    fn choice(&mut self, options: u32, costly: bool, label: &'static str) -> u32 {
        debug_assert!(options >= 1);
        if options == 1 || (self.quiet && label != "pick") {
            return 0;
        }
        let i = self.trace.len();
        let chosen = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if chosen >= options {
            self.diverged = Some(format!("choice {i} ({label}): {chosen} of {options}"));
            self.trace.push(ChoicePoint { options, chosen: 0, costly, label });
            return 0;
        }
        self.trace.push(ChoicePoint { options, chosen, costly, label });
        chosen
    }

    /// Runs until the main task is done or nothing can run.
    fn run() -> Outcome {
        loop {
            if let Some(d) = world().diverged.take() {
                return Outcome::Diverged(d);
            }
            if matches!(world().tasks[0].state, State::Done) {
                return match world().tasks[0].panic.clone() {
                    Some(m) => Outcome::MainPanic(m),
                    None => Outcome::Done,
                };
            }
            world().steps += 1;
            if world().steps > world().cfg.max_steps {
                return Outcome::Hang(format!("step horizon: {}", world().describe()));
            }
            // Which tasks can run?
            let mut enabled: Vec<TaskId> = Vec::new();
            let n = world().tasks.len();
            for i in 0..n {
                let ok = match &mut world().tasks[i].state {
                    State::Ready => true,
                    State::Blocked { ready, .. } => ready(),
                    _ => false,
                };
                if ok {
                    enabled.push(i);
                }
            }
            let mut timers: Vec<(u64, TaskId)> = Vec::new();
            for i in 0..n {
                if let State::Blocked { deadline: Some(d), .. } = &world().tasks[i].state {
                    if !enabled.contains(&i) {
                        timers.push((*d, i));
                    }
                }
            }
            timers.sort();
            let next;
            if enabled.is_empty() {
                // Quiescence waiters first, then time moves on.
                if let Some(q) = (0..n).find(|&i| matches!(world().tasks[i].state, State::Quiesce)) {
                    next = q;
                } else if let Some(&(d, t)) = timers.first() {
                    if d > world().cfg.max_time.as_nanos() as u64 {
                        return Outcome::Hang(format!("time horizon: {}", world().describe()));
                    }
                    world().now = world().now.max(d);
                    // Which of several timers due at the same instant is served first is a choice.
                    let same = timers.iter().take_while(|(x, _)| *x == d).count() as u32;
                    let k = if same > 1 { world().choice(same, true, "timer-order") } else { 0 };
                    let t = if k == 0 { t } else { timers[k as usize].1 };
                    world().tasks[t].timed_out = true;
                    next = t;
                } else {
                    return Outcome::Deadlock(world().describe());
                }
            } else {
                // Canonical order: the task that ran last first, then ascending ids.
                let mut costly = false;
                if let Some(l) = world().last {
                    if let Some(p) = enabled.iter().position(|&x| x == l) {
                        enabled.remove(p);
                        enabled.insert(0, l);
                        costly = true;
                    }
                }
                if world().cfg.delay_bounded {
                    if !costly {
                        // Round robin: the next task after the one that ran last.
                        let l = world().last.unwrap_or(0);
                        let k = enabled.iter().position(|&x| x > l).unwrap_or(0);
                        enabled.rotate_left(k);
                    }
                    costly = true;
                }
                let early = if world().cfg.early_timers && !timers.is_empty() { 1 } else { 0 };
                let opts = if world().cfg.preempt || !costly { enabled.len() as u32 } else { 1 };
                // A switch away from a task that cannot run is free; an early timer never is.
                let pick = if costly || early == 0 {
                    world().choice(opts + early, costly, "sched")
                } else {
                    let e = world().choice(1 + early, true, "early-timer");
                    if e > 0 { opts } else { world().choice(opts, false, "sched") }
                };
                if pick >= opts {
                    let (d, t) = timers[0];
                    world().now = world().now.max(d);
                    world().tasks[t].timed_out = true;
                    next = t;
                } else {
                    next = enabled[pick as usize];
                }
            }
            world().tasks[next].state = State::Ready;
            world().last = Some(next);
            world().cur = Some(next);
            let mut coro = world().tasks[next].coro.take().expect("coroutine");
            let r = coro.resume(());
            world().cur = None;
            match r {
                CoroutineResult::Yield(()) => world().tasks[next].coro = Some(coro),
                CoroutineResult::Return(()) => {
                    world().tasks[next].state = State::Done;
                    recycle(coro);
                }
            }
        }
    }

    fn teardown() {
        world().tearing_down = true;
        for i in (0..world().tasks.len()).rev() {
            if let Some(mut c) = world().tasks[i].coro.take() {
                world().cur = Some(i);
                if c.started() {
                    c.force_unwind();
                    recycle(c);
                } else {
                    drop(c);
                }
            }
            world().cur = None;
            world().tasks[i].state = State::Done;
        }
        let slots = std::mem::take(&mut world().slots);
        drop(slots);
    }
}

fn recycle(c: Coro) {
    if c.done() {
        let s = c.into_stack();
        STACKS.with(|v| {
            let mut v = v.borrow_mut();
            if v.len() < 64 {
                v.push(s);
            }
        });
    }
}

/// The result of one execution.
pub struct Execution {
    pub outcome: Outcome,
    pub trace: Vec<ChoicePoint>,
    pub panics: Vec<(String, String)>,
    pub now: Duration,
    pub steps: u64,
    pub log: Vec<String>,
    pub pending: Vec<String>,
}

/// Runs `main` as task 0 of a fresh world, following `prefix`, then defaults.
pub fn run_world(cfg: &Config, prefix: &[u32], log_on: bool, main: impl FnOnce() + 'static) -> Execution {
    install_panic_hook();
    assert!(!in_world(), "worlds do not nest");
    let w = Box::into_raw(Box::new(World {
        cfg: cfg.clone(),
        tasks: Vec::new(),
        cur: None,
        last: None,
        prefix: prefix.to_vec(),
        trace: Vec::new(),
        now: 0,
        steps: 0,
        diverged: None,
        tearing_down: false,
        slots: BTreeMap::new(),
        log: Vec::new(),
        log_on,
        quiet: false,
    }));
    // Tasks re-enter the world through this pointer; no reference is held across a resume.
    WORLD.with(|p| p.set(w));
    spawn_named("main".into(), main);
    let outcome = World::run();
    let w = world();
    let outcome = if w.trace.len() < w.prefix.len() && !matches!(outcome, Outcome::Diverged(_)) {
        Outcome::Diverged(format!("prefix of {} choices, execution made {}", w.prefix.len(), w.trace.len()))
    } else {
        outcome
    };
    let pending = w
        .tasks
        .iter()
        .filter(|t| !matches!(t.state, State::Done))
        .map(|t| t.name.clone())
        .collect();
    let panics = w.tasks.iter().filter_map(|t| t.panic.clone().map(|m| (t.name.clone(), m))).collect();
    World::teardown();
    let w = WORLD.with(|p| p.replace(std::ptr::null_mut()));
    let mut w = unsafe { Box::from_raw(w) };
    Execution {
        outcome,
        trace: std::mem::take(&mut w.trace),
        panics,
        now: Duration::from_nanos(w.now),
        steps: w.steps,
        log: std::mem::take(&mut w.log),
        pending,
    }
}

/// Starts a task; it becomes runnable at once (spawning is not itself a switch).
pub fn spawn_named(name: String, f: impl FnOnce() + 'static) -> TaskId {
    let w = world();
    let id = w.tasks.len();
    let size = w.cfg.stack_size;
    let stack = STACKS
        .with(|v| v.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(size).expect("stack"));
    let coro: Coro = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        world().tasks[id].yielder = y as *const _;
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Err(e) = r {
            if world().tearing_down {
                // A forced unwind must go on (or a panic during teardown: ignore it).
                std::panic::resume_unwind(e);
            }
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| panic_message(&*e));
            world().tasks[id].panic = Some(m);
        }
    });
    w.tasks.push(Task {
        name,
        coro: Some(coro),
        state: State::Ready,
        timed_out: false,
        yielder: std::ptr::null(),
        panic: None,
    });
    id
}

pub fn spawn(f: impl FnOnce() + 'static) -> TaskId {
    let n = world().tasks.len();
    spawn_named(format!("task{n}"), f)
}

pub fn current() -> TaskId {
    world().cur.expect("inside a task")
}

pub fn is_done(t: TaskId) -> bool {
    matches!(world().tasks[t].state, State::Done)
}

pub fn panic_of(t: TaskId) -> Option<String> {
    world().tasks[t].panic.clone()
}

fn switch() {
    let y = {
        let w = world();
        w.tasks[w.cur.expect("inside a task")].yielder
    };
    unsafe { (*y).suspend(()) };
}

/// A scheduling point: any other runnable task may be run here.
pub fn point() {
    if tearing_down() {
        return;
    }
    let w = world();
    if w.cur.is_none() {
        return;
    }
    switch();
}

/// Blocks the current task until `ready` holds (true) or the time-out passes (false).
/// The caller must re-check its condition afterwards only if other tasks may falsify it
/// between the check and the task's turn; the world re-evaluates it at the moment it
/// schedules the task, so on return true the condition holds.
pub fn block(label: &'static str, timeout: Option<Duration>, ready: impl FnMut() -> bool + 'static) -> bool {
    if tearing_down() {
        return false;
    }
    let w = world();
    let me = w.cur.expect("inside a task");
    let deadline = timeout.map(|d| w.now.saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64));
    w.tasks[me].timed_out = false;
    w.tasks[me].state = State::Blocked { ready: Box::new(ready), deadline, label };
    switch();
    let w = world();
    !std::mem::replace(&mut w.tasks[me].timed_out, false)
}

/// Blocks until no other task can run without time passing.
pub fn quiesce() {
    if tearing_down() {
        return;
    }
    let w = world();
    let me = w.cur.expect("inside a task");
    w.tasks[me].state = State::Quiesce;
    switch();
}

pub fn sleep(d: Duration) {
    block("sleep", Some(d), || false);
}

pub fn now() -> Duration {
    Duration::from_nanos(world().now)
}

/// An environment choice among `n` answers; answer 0 is the default, others are deviations.
pub fn choose(n: u32, label: &'static str) -> u32 {
    if tearing_down() {
        return 0;
    }
    world().choice(n, true, label)
}

/// A free enumeration: every alternative is explored and none costs a deviation.
pub fn pick(n: u32, _label: &'static str) -> u32 {
    if tearing_down() {
        return 0;
    }
    world().choice(n, false, "pick")
}

/// Switches the enumeration of schedules and environment answers off (defaults are taken,
/// only `pick`s are enumerated) or on again; used to keep phases that are not under study
/// out of the space.
pub fn set_quiet(on: bool) {
    world().quiet = on;
}

/// Per-world storage, created on first use.
pub fn slot<T: Any + Default>(key: &'static str) -> &'static mut T {
    let w = world();
    w.slots
        .entry(key)
        .or_insert_with(|| Box::new(T::default()))
        .downcast_mut::<T>()
        .expect("slot type")
}

pub fn log(f: impl FnOnce() -> String) {
    if in_world() {
        let w = world();
        if w.log_on {
            let t = w.cur.unwrap_or(usize::MAX);
            let s = format!("t={} task{}: {}", w.now, t as isize, f());
            w.log.push(s);
        }
    }
}

/// Joins a task (blocking).
pub fn join(t: TaskId) -> bool {
    block("join", None, move || is_done(t))
}
