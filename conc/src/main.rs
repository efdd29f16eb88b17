//! C25: every schedule of small multi-threaded scenarios, up to a number of preemptions, on the real code.
//!
//! The explorer keeps a stack of schedules. Each one is executed in a process of its own, under the runtime in
//! rt.c: one thread runs at a time, every atomic operation, futex call, yield, start and end of a thread is a step,
//! and the schedule says at which steps another thread takes over. From the trace of an execution the explorer
//! derives the schedules that differ from it after its last prescribed switch.
#![allow(dead_code)]

#[macro_use]
#[path = "../../mc/src/api.rs"]
mod api;
#[path = "../../mc/src/curves.rs"]
mod curves;
#[path = "../../mc/src/data.rs"]
mod data;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/hist.rs"]
mod hist;
#[path = "../../mc/src/isodata.rs"]
mod isodata;
#[path = "../../mc/src/nt.rs"]
mod nt;
#[path = "../../mc/src/p_field.rs"]
mod p_field;
#[path = "../../mc/src/p_iso.rs"]
mod p_iso;
#[path = "../../mc/src/p_maps.rs"]
mod p_maps;
#[path = "../../mc/src/refcurve.rs"]
mod refcurve;
mod scen;

use scen::Scen;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

const MAXT: usize = 4;
const MAXSTEP: usize = 1 << 18;
const MAXPRE: usize = 16;
const OUT: usize = 8192;
const LOAD: u8 = 0;
const ADD: u8 = 3;
const WAIT: u8 = 6;
const YIELD: u8 = 8;
const KINDS: [&str; 11] = ["load", "store", "rmw", "add", "cas", "fence", "wait", "wake", "yield", "start", "end"];

#[repr(C)]
#[derive(Clone, Copy)]
struct Step {
    loc: u64,
    tid: u8,
    kind: u8,
    mo: u8,
    enabled: u8,
    free: u8,
    last: u8,
    same: u8,
    chosen: u8,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Pre {
    step: u32,
    tid: u32,
    hash: u64,
}
#[repr(C)]
struct Exec {
    npre: u32,
    nsteps: u32,
    finished: u32,
    deadlock: u32,
    livelock: u32,
    diverged: u32,
    nraces: u32,
    truncated: u32,
    pre: [Pre; MAXPRE],
    race_addr: [u64; 8],
    race_pc: [[u64; 2]; 8],
    race_tid: [[u8; 2]; 8],
    race_w: [[u8; 2]; 8],
    accesses: u64,
    out: [[u8; OUT]; MAXT],
    steps: [Step; MAXSTEP],
    // not known to the runtime: what is computed after the threads have ended
    after: [[u8; OUT]; MAXT],
    // whether lost memory is looked for; blocks and bytes that are lost, blocks that are in use
    look: u32,
    lost: u64,
    lost_bytes: u64,
    live: u64,
}

extern "C" {
    fn rt_execute(x: *mut Exec, n: i32, body: extern "C" fn(i32));
    fn rt_on() -> i32;
    fn rt_reserve();
    fn rt_begin();
    fn rt_alloc(n: usize) -> *mut u8;
    fn rt_lost(bytes: *mut u64, live: *mut u64) -> u64;
    fn rt_free(p: *mut u8, n: usize);
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt_on() != 0 {
            rt_alloc(l.size().max(l.align()))
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_on() != 0 {
            rt_free(p, l.size().max(l.align()))
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Alloc = Alloc;

static mut BODIES: Vec<Option<scen::Body>> = vec![];
static mut EXEC: *mut Exec = std::ptr::null_mut();

extern "C" fn run_body(t: i32) {
    #[allow(static_mut_refs)]
    let f = unsafe { BODIES[t as usize].take().unwrap() };
    let mut o = String::new();
    if catch_unwind(AssertUnwindSafe(|| f(&mut o))).is_err() {
        o.push_str("THREAD PANICKED");
    }
    put(unsafe { &mut (*EXEC).out[t as usize] }, &o);
}
fn put(dst: &mut [u8; OUT], o: &str) {
    let b = o.as_bytes();
    let n = b.len().min(OUT - 8);
    dst[..8].copy_from_slice(&(n as u64 + 1).to_le_bytes());
    dst[8..8 + n].copy_from_slice(&b[..n]);
}
fn get(o: &[u8; OUT]) -> Option<String> {
    let n = u64::from_le_bytes(o[..8].try_into().unwrap()) as usize;
    (n > 0).then(|| String::from_utf8_lossy(&o[8..8 + n - 1]).into_owned())
}

/// The switches of a schedule: at which step which thread goes on, and the hash of the steps before.
#[derive(Clone, Default)]
struct Sched {
    pre: Vec<(u32, u32, u64)>,
    cost: u32,
}
fn show(s: &Sched) -> String {
    s.pre.iter().map(|p| format!("{}:{}", p.0, p.1)).collect::<Vec<_>>().join(",")
}

fn new_slot() -> *mut Exec {
    let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Exec>(), 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    p as *mut Exec
}

/// Starts one execution; `solo`: the only thread that runs.
fn start(x: *mut Exec, sc: &Scen, s: &Sched, solo: Option<usize>) -> i32 {
    unsafe {
        let e = &mut *x;
        e.npre = s.pre.len() as u32;
        for (i, p) in s.pre.iter().enumerate() {
            e.pre[i] = Pre { step: p.0, tid: p.1, hash: p.2 };
        }
        e.nsteps = 0;
        e.finished = 0;
        e.deadlock = 0;
        e.livelock = 0;
        e.diverged = 0;
        e.nraces = 0;
        e.truncated = 0;
        e.accesses = 0;
        e.lost = 0;
        for o in e.out.iter_mut().chain(e.after.iter_mut()) {
            o[..8].fill(0);
        }
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid != 0 {
            return pid;
        }
        alarm(30);
        rt_begin();
        let mut b = (sc.make)();
        let after = scen::take_after();
        if let Some(i) = solo {
            let one = b.swap_remove(i);
            b = vec![one];
        }
        let n = b.len();
        BODIES = b.into_iter().map(Some).collect();
        EXEC = x;
        rt_execute(x, n as i32, run_body);
        if solo.is_none() && (*x).finished != 0 {
            for (k, (want, f)) in after.into_iter().enumerate() {
                let mut o = String::new();
                if catch_unwind(AssertUnwindSafe(|| f(&mut o))).is_err() {
                    o.push_str("PANICKED");
                }
                let txt = match want {
                    scen::Want::Alone(i) => format!("A{i}{o}"),
                    scen::Want::Text(w) if w == o => "T".into(),
                    scen::Want::Text(w) => format!("T{o:.300}, expected {w:.300}"),
                };
                put(&mut (*x).after[k], &txt);
            }
            if (*x).look != 0 {
                if catch_unwind(scen::drop_shared).is_err() {
                    _exit(3);
                }
                let (b, l) = (&raw mut (*x).lost_bytes, &raw mut (*x).live);
                (*x).lost = rt_lost(b, l);
            }
        }
        _exit(0);
    }
}

/// What an execution did, besides its trace.
struct Seen {
    status: i32,
    out: Vec<Option<String>>,
}
fn seen(x: *mut Exec, status: i32) -> Seen {
    let e = unsafe { &*x };
    let out = e.out.iter().map(get).collect();
    Seen { status, out }
}

/// What is wrong with an execution.
fn wrong(x: *mut Exec, s: &Seen, expected: &[String]) -> Option<(&'static str, String)> {
    let e = unsafe { &*x };
    if e.deadlock != 0 {
        return Some(("deadlock", "the threads wait for each other for ever".into()));
    }
    if e.livelock != 0 {
        return Some(("livelock", format!("no end after {MAXSTEP} steps")));
    }
    if s.status != 0 {
        let sig = s.status & 0x7f;
        if sig == 14 {
            return Some(("hang", "the threads do not come to an end within 30 s".into()));
        }
        return Some(("crash", format!("the process died (signal {sig}, exit {})", s.status >> 8)));
    }
    for (i, w) in expected.iter().enumerate() {
        match &s.out[i] {
            Some(g) if g == w => {}
            Some(g) => return Some(("result", format!("thread {i} computes {g:.300} and, when it runs alone, {w:.300}"))),
            None => return Some(("result", format!("thread {i} has no result"))),
        }
    }
    for (k, o) in e.after.iter().enumerate() {
        let Some(o) = get(o) else { continue };
        if let Some(r) = o.strip_prefix('A') {
            let (i, r) = r.split_at(1);
            let w = &expected[i.parse::<usize>().unwrap()];
            if r != w {
                return Some(("afterwards", format!("after the threads have ended the call of thread {i} gives {r:.300} and, when nothing ran before, {w:.300}")));
            }
        } else if o != "T" {
            return Some(("afterwards", format!("after the threads have ended, question {k} about what they built is answered {}", &o[1..])));
        }
    }
    if e.nraces > 0 {
        let n = (e.nraces as usize).min(8);
        let txt: Vec<String> = (0..n)
            .map(|i| {
                let w = |k: usize| if e.race_w[i][k] != 0 { "writes" } else { "reads" };
                format!("thread {} {} (code at +{:#x}) and thread {} {} (code at +{:#x}) the same memory without synchronization", e.race_tid[i][1], w(1), e.race_pc[i][1], e.race_tid[i][0], w(0), e.race_pc[i][0])
            })
            .take(2)
            .collect();
        return Some(("race", txt.join("; ")));
    }
    None
}

/// Memory that was given up by an execution that came to its end.
fn lost(x: *mut Exec, s: &Seen) -> Option<(&'static str, String)> {
    let e = unsafe { &*x };
    if e.finished == 0 || s.status != 0 || e.lost == 0 {
        return None;
    }
    Some(("lost", format!("after everything was dropped, {} blocks of memory ({} bytes) are neither freed nor referred to by anything, {} blocks are in use", e.lost, e.lost_bytes, e.live - e.lost)))
}

/// The schedules that differ from the executed one after its last prescribed switch.
fn successors(x: *mut Exec, s: &Sched, bound: u32) -> (Vec<Sched>, u64) {
    let e = unsafe { &*x };
    let steps = &e.steps[..e.nsteps as usize];
    // Locations that several threads use, other than by reading. On a reference counter (increments, decrements, and
    // the loads of the same thread right after a decrement to zero) only the order of the last decrements of the threads is visible.
    #[derive(Default)]
    struct Use {
        tids: u8,
        writes: bool,
        other: bool,
        zero: Option<u8>,
        // the latest decrement of each thread
        dec: [Option<usize>; MAXT],
    }
    let mut m: HashMap<u64, Use> = HashMap::new();
    let mut ends: HashSet<usize> = HashSet::new();
    for (i, st) in steps.iter().enumerate() {
        if st.kind == YIELD || st.kind >= 9 || st.loc == 0 {
            continue;
        }
        let u = m.entry(st.loc).or_default();
        u.tids |= 1 << st.tid;
        u.writes |= st.kind != LOAD;
        let after_zero = u.zero.take() == Some(st.tid) && st.kind == LOAD;
        if st.kind == ADD && (st.mo == 0 || st.mo == 3) {
            if st.last != 0 {
                u.dec[st.tid as usize] = Some(i);
            }
            if st.last == 1 {
                u.zero = Some(st.tid);
                ends.extend(u.dec.iter().flatten());
                u.dec = [None; MAXT];
            }
        } else if !after_zero {
            u.other = true;
        }
    }
    for u in m.values() {
        ends.extend(u.dec.iter().flatten());
    }
    let contended: HashSet<u64> = m.iter().filter(|(_, u)| u.tids.count_ones() > 1 && u.writes).map(|x| *x.0).collect();
    let depends = |i: usize| {
        let st = &steps[i];
        contended.contains(&st.loc) && (m[&st.loc].other || ends.contains(&i))
    };
    let from = s.pre.last().map(|p| p.0 + 1).unwrap_or(0);
    let mut h = 0u64;
    let mut v = vec![];
    let mut nodes = 0;
    for (i, st) in steps.iter().enumerate() {
        if i as u32 >= from {
            nodes += 1;
            let c = (st.free == 0) as u32;
            let branch = st.free != 0 || (st.same == 0 && (st.kind == WAIT || st.kind == 7 || depends(i)));
            if branch && s.cost + c <= bound && s.pre.len() < MAXPRE {
                for t in 0..MAXT as u32 {
                    if st.enabled >> t & 1 == 1 && t != st.chosen as u32 {
                        let mut n = s.clone();
                        n.pre.push((i as u32, t, h));
                        n.cost += c;
                        v.push(n);
                    }
                }
            }
        }
        let k = st.loc.wrapping_add(st.kind as u64 * 977).wrapping_add(st.tid as u64 * 131071).wrapping_add(st.mo as u64);
        h = (h ^ k).wrapping_mul(0x100000001b3);
    }
    (v, nodes)
}

fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".into(),
            '\\' => "\\\\".into(),
            '\n' => "\\n".into(),
            c if (c as u32) < 32 => " ".into(),
            c => c.to_string(),
        })
        .collect()
}

struct Viol {
    key: String,
    sched: String,
    msg: String,
}

fn solo(sc: &Scen, x: *mut Exec, n: usize) -> Result<Vec<String>, (usize, String)> {
    let mut v = vec![];
    for i in 0..n {
        let pid = start(x, sc, &Sched::default(), Some(i));
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        let s = seen(x, st);
        match (&s.out[0], unsafe { (*x).finished }, st) {
            (Some(o), 1, 0) => v.push(o.clone()),
            _ => return Err((i, format!("status {st}, deadlock {}, livelock {}", unsafe { (*x).deadlock }, unsafe { (*x).livelock }))),
        }
    }
    Ok(v)
}

fn main() {
    unsafe { rt_reserve() };
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: conc C25|C27 quick|thorough [--only SCENARIO[@SCHEDULE]]");
        std::process::exit(2);
    }
    let quick = args[2] == "quick";
    // C27: only memory that is lost in some schedule counts; everything else belongs to C25
    let prop: &'static str = if args[1] == "C27" { "C27" } else { "C25" };
    let memory = prop == "C27";
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let t0 = Instant::now();
    let (maxb, cap, budget) = match (memory, quick) {
        (false, true) => (2u32, 4000u64, 300.0),
        (false, false) => (4, 60_000, 600.0),
        (true, true) => (1, 4000, 120.0),
        (true, false) => (2, 4000, 300.0),
    };
    let cap = std::env::var("CONC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    std::panic::set_hook(Box::new(|_| {}));
    // the toy curves are chosen once, before anything is forked
    hist::toys_once();
    hist::QUIET.with(|q| q.set(true));
    let known: Vec<String> = std::fs::read_to_string(format!("{verif}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={prop} case=")).map(|s| s.trim().to_string()))
        .collect();
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut viol: Vec<Viol> = vec![];
    let slots: Vec<*mut Exec> = (0..8).map(|_| new_slot()).collect();
    for s in &slots {
        unsafe { (**s).look = memory as u32 }
    }
    let (mut states, mut transitions, mut execs, mut accesses) = (0u64, 0u64, 0u64, 0u64);
    let mut diverged = 0u64;
    let mut rows: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut outcomes: HashSet<String> = HashSet::new();
    let mut exhaustive = true;
    let all = scen::all();
    let (want, fixed) = match &only {
        None => (None, None),
        Some(o) => match o.split_once('@') {
            Some((a, b)) => (Some(a.to_string()), Some(b.to_string())),
            None => (Some(o.clone()), None),
        },
    };
    let chosen: Vec<&Scen> = all.iter().filter(|s| want.as_ref().is_none_or(|w| *w == s.name || w.starts_with(&format!("{}:", s.name)))).collect();
    // how many threads each has, and what each thread computes alone
    let mut expected: Vec<Vec<String>> = vec![];
    let mut report = |viol: &mut Vec<Viol>, sc: &Scen, kind: &str, sched: String, msg: String| {
        let key = format!("{}:{kind}", sc.name);
        if known.contains(&key) {
            known_hit.insert(key);
        } else if !viol.iter().any(|v| v.key == key) {
            viol.push(Viol { key, sched, msg });
        }
    };
    for sc in &chosen {
        // the number of threads is found in a process of its own: nothing of the code under test runs here
        let mut n = 0;
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                alarm(60);
                let k = catch_unwind(AssertUnwindSafe(|| (sc.make)().len())).unwrap_or(0);
                _exit(k as i32)
            }
        }
        unsafe { waitpid(pid, &mut n, 0) };
        let n = (n >> 8) as usize;
        match if (1..=MAXT).contains(&n) { solo(sc, slots[0], n) } else { Err((0, "the scenario cannot be set up".into())) } {
            Ok(v) => {
                for o in &v {
                    outcomes.insert(o.clone());
                }
                expected.push(v)
            }
            Err(_) if memory => expected.push(vec![]),
            Err((i, m)) => {
                expected.push(vec![]);
                report(&mut viol, sc, "alone", String::new(), format!("thread {i} does not come to an end when it runs alone: {m}"));
            }
        }
    }
    // One bound after the other in each scenario, and always the scenario with the least work waiting (schedules times
    // steps of its last schedule), so that a budget cuts the deepest bounds of the largest scenarios.
    let mut next: Vec<Vec<Sched>> = chosen.iter().map(|_| vec![Sched::default()]).collect();
    let mut count: Vec<u64> = vec![0; chosen.len()];
    let mut upto: Vec<i32> = vec![-1; chosen.len()];
    let mut steps: Vec<u64> = vec![1; chosen.len()];
    let mut told = 0;
    loop {
        let open = |k: &usize| !expected[*k].is_empty() && upto[*k] < maxb as i32 && !next[*k].is_empty();
        let Some(k) = (0..chosen.len()).filter(open).min_by_key(|k| next[*k].len() as u64 * steps[*k]) else { break };
        let sc = chosen[k];
        let bound = (upto[k] + 1) as u32;
        {
            // schedules with exactly this number of preemptions, deeper ones are kept for the next round
            let mut stack = std::mem::take(&mut next[k]);
            if let Some(f) = &fixed {
                stack = vec![Sched { pre: f.split(',').filter(|x| !x.is_empty()).map(|x| x.split_once(':').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap(), u64::MAX)).collect(), cost: 0 }];
            }
            let mut later = vec![];
            let mut running: HashMap<i32, (usize, Sched)> = HashMap::new();
            let mut idle: Vec<usize> = (0..slots.len()).collect();
            let mut bad = false;
            let mut cut = false;
            loop {
                while let (Some(&s), false, false) = (idle.last(), bad, cut) {
                    if count[k] >= cap || t0.elapsed().as_secs_f64() > budget {
                        cut = !stack.is_empty();
                        break;
                    }
                    let Some(sch) = stack.pop() else { break };
                    idle.pop();
                    count[k] += 1;
                    let pid = start(slots[s], sc, &sch, None);
                    running.insert(pid, (s, sch));
                }
                if running.is_empty() {
                    break;
                }
                let mut st = 0;
                let pid = unsafe { waitpid(-1, &mut st, 0) };
                let Some((s, sch)) = running.remove(&pid) else { continue };
                let x = slots[s];
                idle.push(s);
                let e = unsafe { &*x };
                execs += 1;
                transitions += e.nsteps as u64;
                steps[k] = e.nsteps as u64;
                accesses += e.accesses;
                if e.diverged != 0 && fixed.is_none() {
                    diverged += 1;
                    if std::env::var_os("MC_TIMING").is_some() && diverged < 40 {
                        eprintln!("diverged: {} [{}] at {} of {}", sc.name, show(&sch), e.diverged - 1, e.nsteps);
                    }
                }
                let sn = seen(x, st);
                for o in sn.out.iter().flatten() {
                    if !outcomes.contains(o) {
                        outcomes.insert(o.clone());
                    }
                }
                let found = if memory { lost(x, &sn) } else { wrong(x, &sn, &expected[k]) };
                if let Some((kind, msg)) = found {
                    bad = true;
                    report(&mut viol, sc, kind, show(&sch), msg);
                    continue;
                }
                if e.truncated != 0 {
                    exhaustive = false;
                }
                if fixed.is_some() {
                    continue;
                }
                let (succ, nodes) = successors(x, &sch, maxb);
                states += nodes;
                if samples.len() < 400 && count[k] % 7 == 1 {
                    samples.push(format!("{} schedule [{}]: {} steps, {} plain accesses, no race, results as alone", sc.name, show(&sch), e.nsteps, e.accesses));
                }
                for n in succ {
                    if n.cost <= bound {
                        stack.push(n)
                    } else {
                        later.push(n)
                    }
                }
            }
            if !cut && !bad {
                // nothing left to do at deeper bounds either
                upto[k] = if later.is_empty() { maxb as i32 } else { bound as i32 };
                next[k] = later;
            }
            if fixed.is_some() || viol.len() >= 5 || !viol.is_empty() && t0.elapsed().as_secs() > 100 {
                break;
            }
        }
        if std::env::var_os("MC_TIMING").is_some() && t0.elapsed().as_secs() != told {
            told = t0.elapsed().as_secs();
            eprintln!("[{told}s] {} up to {} preemptions: executions={execs} diverged={diverged}", sc.name, upto[k]);
        }
    }
    let mut minb = maxb as i32;
    for (k, sc) in chosen.iter().enumerate() {
        minb = minb.min(upto[k]);
        exhaustive &= upto[k] == maxb as i32;
        rows.push(format!("{{\"space\":\"{}\",\"what\":\"{}\",\"threads\":{},\"schedules\":{},\"preemptions_completed\":{}}}", esc(&sc.name), esc(sc.what), expected[k].len(), count[k], upto[k]));
    }
    let wall = t0.elapsed().as_secs_f64();
    if memory {
        if let Some(f) = std::env::var_os("MC_PART") {
            let n: usize = expected.iter().filter(|e| !e.is_empty()).count();
            let txt = format!(
                "\"schedules\":{execs},\"schedule_states\":{states},\"schedule_transitions\":{transitions},\"schedules_complete\":{exhaustive},\n{n} scenarios of 2-3 threads (those of C25): in every schedule with at most {} preemptions, no memory is unreachable and not freed after everything was dropped\n{}",
                minb.max(0),
                rows.join(",")
            );
            if let Err(e) = std::fs::write(f, txt) {
                eprintln!("cannot write evidence: {e}");
                std::process::exit(2);
            }
        }
    } else if only.is_none() {
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let step = (samples.len() / 12).max(1);
        let smp: Vec<String> = samples.iter().step_by(step).take(12).map(|s| format!("\"{}\"", esc(s))).collect();
        let json = format!(
            "{{\n \"property\":\"C25\",\n \"tier\":\"{}\",\n \"seed\":{seed},\n \"level\":\"model_checking\",\n \"coverage\":{{\n  \"states\":{states},\n  \"transitions\":{transitions},\n  \"schedules\":{execs},\n  \"traces_validated_against_impl\":{execs},\n  \"plain_accesses_checked\":{accesses},\n  \"distinct_outcomes\":{},\n  \"executions_that_did_not_follow_their_prefix\":{diverged},\n  \"exhaustive\":{exhaustive},\n  \"bounds\":[\"every schedule with at most {minb} preemptions at operations on contended synchronization locations was executed, in every scenario; up to {maxb} where the row says so\"],\n  \"spaces\":[{}],\n  \"samples\":[{}]\n }},\n \"assumptions\":[\"executions are sequentially consistent interleavings; weaker behaviour of atomics is covered only by the check for unsynchronized accesses\",\"rustc's ThreadSanitizer instrumentation reports every access and atomic operation of the code and of the standard library\",\"what a thread computes when it runs alone is right (checked by the other properties)\"],\n \"wall_s\":{wall:.2},\n \"violations\":{}\n}}\n",
            if quick { "quick" } else { "thorough" },
            outcomes.len(),
            rows.join(",\n   "),
            smp.join(","),
            viol.len()
        );
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        if let Err(e) = std::fs::write(format!("{verif}/evidence/C25.json"), json) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    println!("{prop}: scenarios={} schedules={execs} states={states} transitions={transitions} preemptions>={minb} diverged={diverged} violations={} wall={wall:.1}s", chosen.len(), viol.len());
    if viol.is_empty() {
        if execs == 0 || (only.is_none() && minb < 0 && !memory) {
            eprintln!("check error: a scenario was not explored at all");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
    let _ = std::fs::create_dir_all(format!("{verif}/replays"));
    for (i, v) in viol.iter().enumerate().take(5) {
        let path = format!("{verif}/replays/{prop}-{i}.json");
        let _ = std::fs::write(
            &path,
            format!(
                "{{\n \"property\":\"{prop}\",\n \"case\":\"{}\",\n \"schedule\":\"{}\",\n \"what\":\"{}\",\n \"replay\":\"bash run.sh {prop} {} --only '{}@{}'\"\n}}\n",
                esc(&v.key),
                v.sched,
                esc(&v.msg),
                args[2],
                esc(v.key.rsplit_once(':').unwrap().0),
                v.sched
            ),
        );
        println!("VIOLATION property={prop} replay={path}");
        println!("  case: {} schedule [{}]", v.key, v.sched);
        println!("  what: {}", v.msg);
    }
    std::process::exit(1);
}
