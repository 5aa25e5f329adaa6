use crate::world::{Config, Execution, Outcome, run_world};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Bounds {
    /// Largest number of deviations (preemptions and non-default environment answers).
    pub deviations: u32,
    /// Wall-clock cap; hitting it is reported (never called exhaustive).
    pub wall: Duration,
    pub max_executions: u64,
    pub threads: usize,
}

impl Default for Bounds {
    fn default() -> Self {
        Bounds { deviations: 1, wall: Duration::from_secs(60), max_executions: u64::MAX, threads: 8 }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub schedule: Vec<u32>,
    pub log: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub max_choices: usize,
    pub capped: bool,
    pub outcomes: BTreeMap<String, u64>,
    pub wall: f64,
    /// Highest number of deviations that was completed.
    pub completed: Option<u32>,
    pub violation: Option<Violation>,
}

impl Stats {
    pub fn absorb(&mut self, o: Stats) {
        self.executions += o.executions;
        self.transitions += o.transitions;
        self.choice_points += o.choice_points;
        self.max_choices = self.max_choices.max(o.max_choices);
        self.capped |= o.capped;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        if self.violation.is_none() {
            self.violation = o.violation;
        }
    }
}

/// What a scenario's main task reports: an observation (a label counted in the outcome
/// table), or a violation.
pub type Verdict = Result<String, String>;

/// Handle through which the main task of a world passes its verdict out.
#[derive(Clone, Default)]
pub struct Out(Rc<RefCell<Option<Verdict>>>);
impl Out {
    pub fn set(&self, v: Verdict) {
        let mut b = self.0.borrow_mut();
        // The first failure wins.
        if !matches!(&*b, Some(Err(_))) {
            *b = Some(v);
        }
    }
}

pub struct Explorer {
    pub cfg: Config,
    pub bounds: Bounds,
    /// Panics in tasks other than main are violations unless they contain one of these.
    pub allow_panics: bool,
    /// Deadlock/hang of main is a violation (true) or just an outcome.
    pub must_finish: bool,
}

impl Default for Explorer {
    fn default() -> Self {
        Explorer { cfg: Config::default(), bounds: Bounds::default(), allow_panics: false, must_finish: true }
    }
}

impl Explorer {
    /// One execution following `prefix`; returns its trace and verdict.
    pub fn one<S>(&self, scenario: &S, prefix: &[u32], log: bool) -> (Execution, Verdict)
    where
        S: Fn(Out) + Clone + 'static,
    {
        let out = Out::default();
        let o2 = out.clone();
        let s = scenario.clone();
        let ex = run_world(&self.cfg, prefix, log, move || s(o2));
        let mut v = match &ex.outcome {
            Outcome::Done => out.0.borrow_mut().take().unwrap_or_else(|| Err("no verdict".into())),
            Outcome::Deadlock(d) if self.must_finish => Err(format!("deadlock: {d}")),
            Outcome::Hang(d) if self.must_finish => Err(format!("hang: {d}")),
            Outcome::Deadlock(_) => Ok("deadlock".into()),
            Outcome::Hang(_) => Ok("hang".into()),
            Outcome::MainPanic(m) => Err(format!("panic: {m}")),
            Outcome::Diverged(d) => Err(format!("HARNESS-DIVERGED {d}")),
        };
        if v.is_ok() && !self.allow_panics {
            if let Some((t, m)) = ex.panics.first() {
                v = Err(format!("panic in {t}: {m}"));
            }
        }
        (ex, v)
    }

    /// Explores all executions of `scenario` within the bounds.
    pub fn explore<S>(&self, scenario: S) -> Stats
    where
        S: Fn(Out) + Clone + Send + Sync + 'static,
    {
        let start = Instant::now();
        let mut total = Stats::default();
        // Iterative deepening over the deviation bound gives the simplest failure first, but
        // re-runs everything; instead work is ordered by deviation count: level k holds the
        // prefixes with exactly k deviations.
        let mut level: Vec<(Vec<u32>, u32)> = vec![(Vec::new(), 0)];
        for dev in 0..=self.bounds.deviations {
            let queue = Mutex::new((std::mem::take(&mut level), 0usize));
            let cv = Condvar::new();
            let next: Mutex<Vec<(Vec<u32>, u32)>> = Mutex::new(Vec::new());
            let stats = Mutex::new(Stats::default());
            let stop = AtomicBool::new(false);
            let execs = AtomicUsize::new(total.executions as usize);
            std::thread::scope(|sc| {
                for _ in 0..self.bounds.threads.max(1) {
                    sc.spawn(|| {
                        let mut local = Stats::default();
                        loop {
                            let item = {
                                let mut q = queue.lock().unwrap();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        break None;
                                    }
                                    if let Some(x) = q.0.pop() {
                                        q.1 += 1;
                                        break Some(x);
                                    }
                                    if q.1 == 0 {
                                        break None;
                                    }
                                    q = cv.wait(q).unwrap();
                                }
                            };
                            let Some((prefix, cost)) = item else { break };
                            let (ex, v) = self.one(&scenario, &prefix, false);
                            local.executions += 1;
                            local.transitions += ex.steps;
                            local.choice_points += ex.trace.len() as u64;
                            local.max_choices = local.max_choices.max(ex.trace.len());
                            match v {
                                Ok(o) => *local.outcomes.entry(o).or_default() += 1,
                                Err(what) => {
                                    let sched: Vec<u32> = ex.trace.iter().map(|c| c.chosen).collect();
                                    // Same schedule, same observation: replay before trusting it.
                                    let (ex2, v2) = self.one(&scenario, &sched, true);
                                    let what2 = match v2 {
                                        Err(e) => e,
                                        Ok(o) => format!("HARNESS-DIVERGED second run of the schedule gave {o}"),
                                    };
                                    let what = if what2 == what { what } else { format!("{what} (replay: {what2})") };
                                    local.violation = Some(Violation { what, schedule: sched, log: ex2.log });
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            let mut same = Vec::new();
                            let mut more = Vec::new();
                            for i in prefix.len()..ex.trace.len() {
                                let c = &ex.trace[i];
                                for alt in 1..c.options {
                                    let mut p: Vec<u32> = ex.trace[..i].iter().map(|c| c.chosen).collect();
                                    p.push(alt);
                                    if c.costly {
                                        if cost + 1 <= self.bounds.deviations {
                                            more.push((p, cost + 1));
                                        }
                                    } else {
                                        same.push((p, cost));
                                    }
                                }
                            }
                            if !more.is_empty() {
                                next.lock().unwrap().append(&mut more);
                            }
                            let n = execs.fetch_add(1, Ordering::Relaxed) as u64;
                            if n + 1 >= self.bounds.max_executions || start.elapsed() > self.bounds.wall {
                                local.capped = true;
                                stop.store(true, Ordering::Relaxed);
                            }
                            let mut q = queue.lock().unwrap();
                            q.0.append(&mut same);
                            q.1 -= 1;
                            drop(q);
                            cv.notify_all();
                        }
                        cv.notify_all();
                        stats.lock().unwrap().absorb(local);
                    });
                }
            });
            let s = stats.into_inner().unwrap();
            total.absorb(s);
            level = next.into_inner().unwrap();
            total.wall = start.elapsed().as_secs_f64();
            if !total.capped {
                total.completed = Some(dev);
            }
            if total.violation.is_some() || total.capped {
                break;
            }
            if level.is_empty() {
                break;
            }
        }
        total
    }
}

/// Convenience: distinct outcome labels.
pub fn outcome_set(s: &Stats) -> BTreeSet<String> {
    s.outcomes.keys().cloned().collect()
}
