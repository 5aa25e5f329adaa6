//! Common reporting of all checks: evidence file, VIOLATION and KNOWN-FINDING lines.
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

struct Inner {
    violations: Vec<(String, String, Value)>,
    suppressed: u64,
    known_hit: BTreeMap<String, String>,
    samples: Vec<Value>,
    notes: Map<String, Value>,
    where_now: String,
}

/// One running check.
#[derive(Clone)]
pub struct Check {
    pub property: &'static str,
    start: Instant,
    inner: Arc<Mutex<Inner>>,
    states: Arc<AtomicU64>,
    transitions: Arc<AtomicU64>,
    traces: Arc<AtomicU64>,
    beat: Arc<AtomicU64>,
    known: Arc<BTreeMap<String, String>>,
    assumptions: Arc<Mutex<Vec<String>>>,
    incomplete: Arc<Mutex<Vec<String>>>,
}

impl Check {
    pub fn new(property: &'static str) -> Self {
        crate::world::install_panic_hook();
        let known = std::fs::read_to_string(verif_root().join("known-findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .map(|v| {
                v["known"]
                    .as_array()
                    .cloned()
                    .unwrap_or_default()
                    .into_iter()
                    .filter(|e| e["property"] == property)
                    .map(|e| (e["key"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
                    .collect::<BTreeMap<_, _>>()
            })
            .unwrap_or_default();
        let c = Check {
            property,
            start: Instant::now(),
            inner: Arc::new(Mutex::new(Inner {
                violations: vec![],
                suppressed: 0,
                known_hit: BTreeMap::new(),
                samples: vec![],
                notes: Map::new(),
                where_now: "start".into(),
            })),
            states: Arc::default(),
            transitions: Arc::default(),
            traces: Arc::default(),
            beat: Arc::default(),
            known: Arc::new(known),
            assumptions: Arc::default(),
            incomplete: Arc::default(),
        };
        c.watchdog();
        c
    }

    /// A run of the code under test that makes no progress for this long is reported.
    fn watchdog(&self) {
        let c = self.clone();
        let limit = Duration::from_secs(if thorough() { 1800 } else { 240 });
        std::thread::spawn(move || {
            let mut last = (c.beat.load(Ordering::Relaxed), Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let b = c.beat.load(Ordering::Relaxed);
                if b != last.0 {
                    last = (b, Instant::now());
                } else if last.1.elapsed() > limit {
                    let w = c.inner.lock().unwrap().where_now.clone();
                    c.violation("no-progress", &format!("no progress for {limit:?} in: {w}"), json!({"where": w}));
                    c.finish();
                }
            }
        });
    }

    /// Names what is being explored now (also the watchdog's heartbeat).
    pub fn at(&self, w: impl Into<String>) {
        self.beat.fetch_add(1, Ordering::Relaxed);
        self.inner.lock().unwrap().where_now = w.into();
    }

    /// Development aid: VERIF_ONLY restricts a run to the scenarios whose name contains it.
    pub fn selected(&self, name: &str) -> bool {
        std::env::var("VERIF_ONLY").map(|o| name.contains(&o)).unwrap_or(true)
    }

    pub fn tick(&self) {
        self.beat.fetch_add(1, Ordering::Relaxed);
    }

    /// Executions / cases / states explored, with the transitions taken in them, all of
    /// them on the real implementation (so each is also a validated trace).
    pub fn count(&self, states: u64, transitions: u64) {
        self.states.fetch_add(states, Ordering::Relaxed);
        self.transitions.fetch_add(transitions, Ordering::Relaxed);
        self.traces.fetch_add(states, Ordering::Relaxed);
        self.beat.fetch_add(1, Ordering::Relaxed);
    }

    pub fn states(&self) -> u64 {
        self.states.load(Ordering::Relaxed)
    }

    pub fn note(&self, key: &str, v: impl Into<Value>) {
        self.inner.lock().unwrap().notes.insert(key.into(), v.into());
    }

    pub fn sample(&self, v: impl Into<Value>) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(v.into());
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// A bound that was not completed (wall-clock cap).
    pub fn incomplete(&self, s: impl Into<String>) {
        self.incomplete.lock().unwrap().push(s.into());
    }

    /// Reports a violation. `key` identifies the failing input/site/history for the
    /// known-findings file.
    pub fn violation(&self, key: &str, what: &str, replay: Value) {
        let mut i = self.inner.lock().unwrap();
        if let Some(w) = self.known.get(key) {
            i.known_hit.insert(key.to_string(), w.clone());
            return;
        }
        if i.violations.len() < 20 {
            i.violations.push((key.to_string(), what.to_string(), replay));
        } else {
            i.suppressed += 1;
        }
    }

    pub fn failed(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }

    /// Condition that must hold.
    pub fn expect(&self, ok: bool, key: &str, what: impl FnOnce() -> String) -> bool {
        if !ok {
            let w = what();
            self.violation(key, &w, json!({"key": key, "what": w}));
        }
        ok
    }

    /// Runs a piece of the real code that must not panic.
    pub fn no_panic<R>(&self, key: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match crate::world::catch(f) {
            Ok(r) => Some(r),
            Err(m) => {
                let w = format!("panic in {}: {m}", ctx());
                self.violation(key, &w, json!({"key": key, "what": w}));
                None
            }
        }
    }

    /// Takes over the result of a schedule exploration.
    pub fn explored(&self, scenario: &str, s: &crate::Stats) {
        self.count(s.executions, s.transitions);
        if s.capped {
            self.incomplete(format!("{scenario}: wall or execution cap after {} executions", s.executions));
        }
        if let Some(v) = &s.violation {
            if v.what.contains("HARNESS-DIVERGED") {
                eprintln!("engine error in {scenario}: {}", v.what);
                std::process::exit(3);
            }
            self.violation(
                scenario,
                &format!("{scenario}: {}", v.what),
                json!({"scenario": scenario, "what": v.what, "schedule": v.schedule, "log": v.log}),
            );
        }
        let mut i = self.inner.lock().unwrap();
        let e = i.notes.entry("scenarios").or_insert_with(|| json!({}));
        e[scenario] = json!({"executions": s.executions, "transitions": s.transitions,
            "choice_points_max": s.max_choices, "outcomes": s.outcomes, "capped": s.capped,
            "wall_s": (s.wall * 100.0).round() / 100.0, "deviations_completed": s.completed});
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!("{scenario}: {} executions, {:.2} s, {:?}{}", s.executions, s.wall, s.completed, if s.capped { " CAPPED" } else { "" });
        }
    }

    pub fn finish(&self) -> ! {
        let i = self.inner.lock().unwrap();
        let root = verif_root();
        let _ = std::fs::create_dir_all(root.join("evidence"));
        let mut cov = i.notes.clone();
        let inc = self.incomplete.lock().unwrap().clone();
        cov.insert("states".into(), self.states.load(Ordering::Relaxed).into());
        cov.insert("transitions".into(), self.transitions.load(Ordering::Relaxed).into());
        cov.insert("traces_validated_against_impl".into(), self.traces.load(Ordering::Relaxed).into());
        cov.insert("samples".into(), Value::Array(i.samples.clone()));
        cov.insert("exhaustive".into(), inc.is_empty().into());
        if !inc.is_empty() {
            cov.insert("not_completed".into(), json!(inc));
        }
        if !i.known_hit.is_empty() {
            cov.insert("known_findings_seen".into(), json!(i.known_hit));
        }
        let ev = json!({
            "property": self.property,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "level": "model_checking",
            "coverage": cov,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": i.violations.len() as u64 + i.suppressed,
            "assumptions": self.assumptions.lock().unwrap().clone(),
        });
        let path = root.join("evidence").join(format!("{}.json", self.property));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {e}", path.display());
            std::process::exit(4);
        }
        for (k, w) in &i.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.property, w, k);
        }
        println!(
            "property={} states={} transitions={} wall={:.1}s",
            self.property,
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        if i.violations.is_empty() {
            std::process::exit(0);
        }
        let dir = root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for (n, (k, w, r)) in i.violations.iter().enumerate() {
            let f = dir.join(format!("{}-{n}.json", self.property));
            let _ = std::fs::write(
                &f,
                serde_json::to_string_pretty(&json!({"property": self.property, "key": k, "what": w, "replay": r})).unwrap(),
            );
            println!("  {k}: {w}");
            println!("VIOLATION property={} replay={}", self.property, f.display());
        }
        std::process::exit(1);
    }
}
