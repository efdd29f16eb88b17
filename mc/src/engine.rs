//! The exploration engine: work distribution, bookkeeping of what was covered, panic capture,
//! watchdog, violations and evidence.
//!
//! Vocabulary used in the evidence files:
//! * a *state* is one configuration that was visited (a structure together with the operands, or a
//!   representative of a point reached by operations, or a history prefix);
//! * a *transition* is one call into the code under test made from a state;
//! * a *validated* transition is one whose outcome was compared with the reference model.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<String>,
    pub verif: String,
    states: AtomicU64,
    transitions: AtomicU64,
    validated: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    spaces: Mutex<Vec<(String, u64, u64)>>,
    bounds: Mutex<Vec<String>>,
    viol: Mutex<Vec<Violation>>,
    known_hit: Mutex<HashSet<String>>,
    known: Vec<String>,
    stop: AtomicBool,
    start: Instant,
    beats: Vec<AtomicU64>,
    labels: Vec<Mutex<String>>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static EXPECTING: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !EXPECTING.with(|e| e.get()) {
            def(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code under test; `Err` carries the message of a panic raised outside the harness. A panic raised by the
/// harness itself is an error of the check and is propagated.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = EXPECTING.with(|e| e.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECTING.with(|e| e.set(old));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                EXPECTING.with(|e| e.set(old));
                eprintln!("harness panic at {loc}: {msg}");
                std::panic::resume_unwind(p);
            }
            Err(format!("{msg} (at {loc})"))
        }
    }
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Per-worker view of the exploration.
pub struct L<'a> {
    pub ctx: &'a Ctx,
    pub label: String,
    st: u64,
    tr: u64,
    va: u64,
    out: HashSet<u64>,
    slot: usize,
    oks: u64,
}

impl L<'_> {
    #[inline]
    pub fn state(&mut self) {
        self.st += 1;
        if self.st & 0xff == 0 {
            self.beat();
        }
    }
    #[inline]
    fn beat(&self) {
        self.ctx.beats[self.slot].store(self.ctx.start.elapsed().as_millis() as u64 + 1, SeqCst);
    }
    #[inline]
    pub fn stopped(&self) -> bool {
        self.ctx.stop.load(SeqCst)
    }
    /// Records the hash of an observed outcome (bounded), to show that the exploration is not vacuous.
    #[inline]
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.out.len() < 20_000 {
            self.out.insert(hash(t));
        }
    }
    /// A call into the code under test that must return.
    #[inline]
    pub fn run<T>(&mut self, key: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        self.tr += 1;
        if self.tr & 0x3f == 0 {
            self.beat();
        }
        match guarded(f) {
            Ok(v) => Some(v),
            Err(m) => {
                let k = key();
                self.ctx.violation(format!("{}/{}", self.label, k), format!("unexpected panic: {m}"));
                None
            }
        }
    }
    /// A call into the code under test that must be refused with a panic.
    pub fn refused<T>(&mut self, key: impl FnOnce() -> String, f: impl FnOnce() -> T) {
        self.tr += 1;
        self.va += 1;
        self.beat();
        if guarded(f).is_ok() {
            let k = key();
            self.ctx.violation(format!("{}/{}", self.label, k), "a value was returned where the operation must be refused".into());
        }
    }
    /// Counts extra calls made inside one `run` closure.
    #[inline]
    pub fn calls(&mut self, n: u64) {
        self.tr += n;
    }
    /// One comparison with the reference model.
    #[inline]
    pub fn ok(&mut self, cond: bool, key: impl FnOnce() -> String, msg: impl FnOnce() -> String) -> bool {
        self.va += 1;
        self.oks += 1;
        if !cond {
            let k = format!("{}/{}", self.label, key());
            self.ctx.violation(k, msg());
        } else if self.oks == 37 && self.slot % 3 == 0 {
            // an actual case of this run, written out
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 400 {
                let v = format!("{}/{} agreed with the reference", self.label, key());
                s.push(v);
            }
        }
        cond
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let mut s = self.ctx.samples.lock().unwrap();
        if s.len() < 400 {
            let v = format!("{}: {}", self.label, f());
            s.push(v);
        }
    }
    /// The job waits for something that is watched elsewhere.
    pub fn alive(&self) {
        self.beat();
    }
    /// Adds what was explored by a process of this job.
    pub fn count(&mut self, states: u64, transitions: u64, validated: u64) {
        self.st += states;
        self.tr += transitions;
        self.va += validated;
    }
    fn flush(&mut self) {
        self.ctx.states.fetch_add(self.st, SeqCst);
        self.ctx.transitions.fetch_add(self.tr, SeqCst);
        self.ctx.validated.fetch_add(self.va, SeqCst);
        let mut o = self.ctx.outcomes.lock().unwrap();
        if o.len() < 2_000_000 {
            o.extend(self.out.drain());
        }
        self.out.clear();
        self.st = 0;
        self.tr = 0;
        self.va = 0;
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<String>, verif: &str) -> Ctx {
        let known = std::fs::read_to_string(format!("{verif}/known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix(&format!("finding: property={prop} case=")).map(|s| s.trim().to_string()))
            .collect();
        Ctx {
            prop: prop.into(),
            tier,
            only,
            verif: verif.into(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            spaces: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            viol: Mutex::new(vec![]),
            known_hit: Mutex::new(HashSet::new()),
            known,
            stop: AtomicBool::new(false),
            start: Instant::now(),
            beats: (0..64).map(|_| AtomicU64::new(0)).collect(),
            labels: (0..64).map(|_| Mutex::new(String::new())).collect(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Chooses a bound by tier.
    pub fn by<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn violation(&self, key: String, msg: String) {
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        if self.known.contains(&key) {
            self.known_hit.lock().unwrap().insert(key);
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() < 50 && !v.iter().any(|x| x.key == key) {
            v.push(Violation { key, msg });
        }
        if v.len() >= 12 {
            self.stop.store(true, SeqCst);
        }
    }
    /// States in prose what was enumerated completely.
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    /// Explores every job of a space, in parallel. Jobs are independent; each one creates its own structures.
    pub fn par<J: Sync>(&self, space: &str, jobs: Vec<(String, J)>, f: impl Fn(&mut L, &J) + Sync) {
        let jobs: Vec<_> = jobs
            .into_iter()
            .map(|(l, j)| (if l.is_empty() { space.to_string() } else { format!("{space}/{l}") }, j))
            .filter(|(l, _)| match &self.only {
                Some(o) => o.starts_with(l.as_str()),
                None => true,
            })
            .collect();
        let next = AtomicUsize::new(0);
        let s0 = self.states.load(SeqCst);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let failed = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for slot in 0..workers {
                let (next, jobs, f, failed) = (&next, &jobs, &f, &failed);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= jobs.len() || self.stop.load(SeqCst) || failed.load(SeqCst) {
                            self.beats[slot].store(0, SeqCst);
                            return;
                        }
                        let (label, j) = &jobs[i];
                        *self.labels[slot].lock().unwrap() = label.clone();
                        let mut l = L { ctx: self, label: label.clone(), st: 0, tr: 0, va: 0, out: HashSet::new(), slot, oks: 0 };
                        l.beat();
                        // A panic that escapes a job outside `run` comes from the code under test when it was not
                        // raised in the harness: the job itself could not be carried out.
                        match catch_unwind(AssertUnwindSafe(|| guarded(|| f(&mut l, j)))) {
                            Ok(Ok(())) => {}
                            Ok(Err(m)) => self.violation(format!("{label}/job"), format!("unexpected panic: {m}")),
                            Err(_) => {
                                eprintln!("harness failure in job {label}");
                                failed.store(true, SeqCst);
                            }
                        }
                        l.flush();
                    })
                    .unwrap();
            }
        });
        if failed.load(SeqCst) {
            std::process::exit(2);
        }
        self.spaces.lock().unwrap().push((space.to_string(), jobs.len() as u64, self.states.load(SeqCst) - s0));
        if std::env::var_os("MC_TIMING").is_some() {
            eprintln!("[{:.1}s] {space}: jobs={} states={}", self.start.elapsed().as_secs_f64(), jobs.len(), self.states.load(SeqCst) - s0);
        }
    }

    /// Detects calls that do not return.
    pub fn watchdog(&'static self) {
        let limit_ms: u64 = 150_000;
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let now = self.start.elapsed().as_millis() as u64;
            for (i, b) in self.beats.iter().enumerate() {
                let t = b.load(SeqCst);
                if t != 0 && now > t + limit_ms {
                    let label = self.labels[i].lock().unwrap().clone();
                    self.violation(format!("{label}/hang"), format!("no call returned for {} s", limit_ms / 1000));
                    std::process::exit(self.finish());
                }
            }
        });
    }

    pub fn finish(&self) -> i32 {
        let viol = self.viol.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let samples = self.samples.lock().unwrap();
        // spread the samples over the spaces
        let mut chosen: Vec<&String> = vec![];
        let step = (samples.len() / 12).max(1);
        for (i, s) in samples.iter().enumerate() {
            if i % step == 0 && chosen.len() < 12 {
                chosen.push(s);
            }
        }
        // what the explorer of schedules has covered (C27)
        let part = std::env::var("MC_PART").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        let mut part = part.splitn(3, '\n');
        let (numbers, bound, rows) = (part.next().unwrap_or(""), part.next().unwrap_or(""), part.next().unwrap_or(""));
        let mut spaces: Vec<String> = self
            .spaces
            .lock()
            .unwrap()
            .iter()
            .map(|(n, j, s)| format!("{{\"space\":\"{}\",\"jobs\":{j},\"states\":{s}}}", esc(n)))
            .collect();
        if !rows.is_empty() {
            spaces.push(rows.to_string());
        }
        let mut bounds: Vec<String> = self.bounds.lock().unwrap().iter().map(|b| format!("\"{}\"", esc(b))).collect();
        if !bound.is_empty() {
            bounds.push(format!("\"{}\"", esc(bound)));
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let complete = self.only.is_none() && !self.stop.load(SeqCst);
        let (s, t, v) = (self.states.load(SeqCst), self.transitions.load(SeqCst), self.validated.load(SeqCst));
        let json = format!(
            "{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{seed},\n \"level\":\"model_checking\",\n \"coverage\":{{\n  {numbers}\"states\":{s},\n  \"transitions\":{t},\n  \"traces_validated_against_impl\":{v},\n  \"distinct_outcomes\":{},\n  \"exhaustive\":{complete},\n  \"bounds\":[{}],\n  \"spaces\":[{}],\n  \"samples\":[{}]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{wall:.2},\n \"violations\":{}\n}}\n",
            self.prop,
            if self.quick() { "quick" } else { "thorough" },
            self.outcomes.lock().unwrap().len(),
            bounds.join(","),
            spaces.join(","),
            chosen.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
            ["the reference model (mc/src/nt.rs, refcurve.rs) and num-bigint's integer arithmetic are right",
             "rustc and the standard library are right"].iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","),
            viol.len()
        );
        if self.only.is_none() {
            let dir = format!("{}/evidence", self.verif);
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.prop), json) {
                eprintln!("cannot write evidence: {e}");
                return 2;
            }
        }
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {k}", self.prop);
        }
        println!(
            "{}: states={s} transitions={t} validated={v} distinct_outcomes={} violations={} wall={wall:.1}s",
            self.prop,
            self.outcomes.lock().unwrap().len(),
            viol.len()
        );
        if viol.is_empty() {
            if v == 0 && self.only.is_none() {
                eprintln!("nothing was compared with the reference model");
                return 2;
            }
            return 0;
        }
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        for (i, x) in viol.iter().enumerate().take(5) {
            let path = format!("{dir}/{}-{i}.json", self.prop);
            let _ = std::fs::write(
                &path,
                format!(
                    "{{\n \"property\":\"{}\",\n \"case\":\"{}\",\n \"what\":\"{}\",\n \"replay\":\"bash run.sh {} {} --only '{}'\"\n}}\n",
                    self.prop,
                    esc(&x.key),
                    esc(&x.msg),
                    self.prop,
                    if self.quick() { "quick" } else { "thorough" },
                    esc(&x.key)
                ),
            );
            println!("VIOLATION property={} replay={path}", self.prop);
            println!("  case: {}", x.key);
            println!("  what: {}", x.msg);
        }
        1
    }
}
