//! C26: results do not depend on the history. C27: repeated histories do not grow the memory.

use crate::engine::{Ctx, L};
use crate::p_crowd;
use crate::hist::{self, op as op_of, Pool, MICRO, NAMED, OPS};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

// ------------------------------------------------------------------------------------- forked snapshots

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const SLOT: usize = 1024;
const SLOTS: usize = 64;
/// Counters and findings shared by all forked processes of a worker.
#[repr(C)]
struct Shared {
    states: AtomicU64,
    checked: AtomicU64,
    found: AtomicUsize,
    hashes: AtomicU64,
    text: [[u8; SLOT]; SLOTS],
}

struct Explorer<'a> {
    alphabet: Vec<usize>,
    base: &'a [String],
    sh: &'a Shared,
}

impl Explorer<'_> {
    fn report(&self, key: &str, msg: &str) {
        let i = self.sh.found.fetch_add(1, SeqCst);
        if i < SLOTS {
            let mut s = format!("{key}\t{}", msg.replace(['\n', '\t'], " "));
            s.truncate(s.floor_char_boundary(SLOT - 1));
            let dst = self.sh.text[i].as_ptr() as *mut u8;
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), dst, s.len()) };
        }
    }
    fn path(&self, h: &[usize]) -> String {
        h.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("-")
    }
    /// In a child process that is a snapshot of this one: does one more operation, compares, and goes deeper.
    fn child(&self, pool: &mut Pool, hist: &mut Vec<usize>, op: usize, depth: usize) {
        if self.sh.found.load(SeqCst) >= 12 {
            return;
        }
        hist.push(op);
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { alarm(100) };
            let got = hist::step(pool, op);
            unsafe { alarm(0) };
            self.sh.states.fetch_add(1, SeqCst);
            self.sh.checked.fetch_add(1, SeqCst);
            if got != self.base[op] {
                let k = got.bytes().zip(self.base[op].bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.chars().skip(k.saturating_sub(20)).take(120).collect::<String>();
                self.report(
                    &self.path(hist),
                    &format!("{}: after this history the result is ...{}..., in a fresh process ...{}...", op_of(op).0, cut(&got), cut(&self.base[op])),
                );
            } else if depth > 1 {
                for &next in &self.alphabet {
                    self.child(pool, hist, next, depth - 1);
                }
            }
            unsafe { _exit(0) };
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            self.report(&self.path(hist), &format!("{}: the process ended with status {st} (14: no return within 100 s)", op_of(op).0));
        }
        hist.pop();
    }
}

/// The digest of one operation in a process that does nothing else.
pub fn base_process(i: usize) {
    hist::install_quiet_hook();
    let mut p = Pool::default();
    print!("{}", hist::step(&mut p, i));
}

fn baselines() -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    (0..hist::ops())
        .map(|i| {
            let o = Command::new(&exe).args(["C26-base", &i.to_string()]).output().map_err(|e| e.to_string())?;
            if !o.status.success() {
                return Err(format!("operation {} ends a fresh process: {:?}", op_of(i).0, o.status));
            }
            String::from_utf8(o.stdout).map_err(|e| e.to_string())
        })
        .collect()
}

/// The operations of an alphabet: the tables, the single calls, the named instances, or all.
fn alphabet(which: usize) -> Vec<usize> {
    let n = OPS.len();
    match which {
        0 => (0..n).collect(),
        1 => (n..n + MICRO.len()).collect(),
        4 => (n + MICRO.len()..n + MICRO.len() + NAMED.len()).collect(),
        _ => (0..hist::ops()).collect(),
    }
}

/// A worker: explores all histories that start with `first` (or with many repetitions of it).
pub fn worker(first: usize, which: usize, depth: usize, reps: usize) {
    hist::install_quiet_hook();
    hist::toys_once();
    let base = baselines().unwrap_or_else(|e| {
        println!("V\t{first}/base\t{e}");
        std::process::exit(0)
    });
    let mem = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) };
    assert!(mem as isize != -1, "mmap");
    let sh = unsafe { &*(mem as *const Shared) };
    let ex = Explorer { alphabet: alphabet(which), base: &base, sh };
    ex.child(&mut Pool::default(), &mut vec![], first, depth);
    // a long history: the same operation many times, then every operation
    let mut pool = Pool::default();
    let mut hist: Vec<usize> = vec![];
    for _ in 0..reps {
        hist.push(first);
        sh.states.fetch_add(1, SeqCst);
        let got = hist::step(&mut pool, first);
        sh.checked.fetch_add(1, SeqCst);
        if got != base[first] {
            ex.report(&format!("{first}x{}", hist.len()), &format!("{}: repeating the operation changes its result", op_of(first).0));
            break;
        }
    }
    if reps > 0 {
        for next in 0..hist::ops() {
            ex.child(&mut pool, &mut hist, next, 1);
        }
    }
    println!("S\t{}\t{}", sh.states.load(SeqCst), sh.checked.load(SeqCst));
    for i in 0..sh.found.load(SeqCst).min(SLOTS) {
        let t = &sh.text[i];
        let n = t.iter().position(|b| *b == 0).unwrap_or(SLOT);
        let s = String::from_utf8_lossy(&t[..n]);
        let (k, m) = s.split_once('\t').unwrap_or((&s, ""));
        let k = if k.len() > 80 { format!("{}x{reps}-{}", first, k.rsplit('-').next().unwrap_or("")) } else { k.to_string() };
        println!("V\t{k}\t{m}");
    }
}

pub fn c26(ctx: &Ctx) {
    let reps = ctx.by(50, 400);
    // (alphabet, depth, repetitions)
    let spaces: Vec<(&str, usize, usize, usize)> =
        ctx.by(vec![("tables", 0, 3, 0), ("calls", 1, 4, 0), ("named", 4, 3, 0), ("both", 2, 2, reps)], vec![("tables", 0, 3, 0), ("calls", 1, 4, 0), ("named", 4, 3, 0), ("both", 2, 3, reps)]);
    for (name, which, depth, _) in &spaces {
        ctx.bound(format!("every sequence of {depth} operations out of {} ({name}), over shared structures", alphabet(*which).len()));
    }
    ctx.bound(format!("every operation repeated {reps} times, followed by every operation"));
    ctx.bound("the operations: arithmetic, roots, groups, scalars, codecs, maps, refused operations, in-place changes of copies, dropping everything");
    ctx.bound("each prefix is a forked snapshot of a process with exactly that history; the oracle is the same operation in a fresh process");
    let mut jobs = vec![];
    for (name, which, depth, reps) in spaces {
        for i in alphabet(which) {
            let a = ["C26-worker".to_string(), i.to_string(), which.to_string(), depth.to_string(), reps.to_string()];
            jobs.push((format!("{name}/first={i}"), a.to_vec()));
        }
    }
    ctx.par("histories", jobs, |l, args| drive(l, args));
    ctx.bound("every single step inside every operation done three times, one time right after the other, in a fresh process");
    let jobs = (0..hist::ops()).map(|i| (format!("op={i}"), vec!["C26-twice".to_string(), i.to_string()])).collect();
    ctx.par("repeated steps", jobs, |l, args| drive(l, args));
    ctx.bound(format!("{} kinds of things with one question each (fields, elements, strings, points, scalars, curves, maps, instances)", p_crowd::kinds().len()));
    let (n, all) = ctx.by((300, 70), (2200, 300));
    ctx.bound(format!("of every kind {n} things, kept alive or dropped: after each of the first {all} every earlier one is asked again, after the others those at distances 2^k-1, 2^k, 2^k+1"));
    ctx.bound(ctx.by("every sequence of 3 questions about 24 things of one kind, of 2 about 3 things of every kind", "every sequence of 3 questions about 50 things of one kind, of 4 about 20, of 3 about 3 things of every kind"));
    ctx.par("long histories", p_crowd::jobs(ctx.quick()), |l, args| drive(l, args));
}

/// Runs a process of this program, and takes over what it counted and found.
fn drive(l: &mut L, args: &[String]) {
    let exe = std::env::current_exe().unwrap();
    let child = Command::new(exe).args(args).stdout(std::process::Stdio::piped()).spawn();
    let mut child = child.expect("spawn");
    let mut out = child.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        std::io::Read::read_to_string(&mut out, &mut s).ok();
        s
    });
    let status = loop {
        l.alive();
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    let text = rd.join().unwrap();
    let mut done = false;
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "S" => {
                done = true;
                l.count(f[1].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap());
            }
            "V" => {
                done = true;
                l.ok(false, || f[1].to_string(), || f[2..].join(" "));
            }
            _ => {}
        }
    }
    l.ok(done && status.success(), || "worker".into(), || format!("the process that explores ended with {status}: {text}"));
    l.sample(|| format!("{}: {text}", args.join(" ")));
    l.outcome(&args);
}

/// One operation in a fresh process, in which each of its steps is done three times in a row.
pub fn repeated(i: usize) {
    hist::install_quiet_hook();
    hist::TIMES.with(|n| n.set(3));
    let got = hist::step(&mut Pool::default(), i);
    println!("S\t{}\t{}", got.matches(';').count(), got.matches(';').count());
    if let Some(k) = got.find("REPETITION") {
        println!("V\t{i}\t{}: ...{}...", op_of(i).0, got[k..].chars().take(300).collect::<String>().replace(['\n', '\t'], " "));
    }
}

// ------------------------------------------------------------------------------------- memory

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
/// In the processes that measure all threads together.
static EVERYWHERE: AtomicBool = AtomicBool::new(false);
static ALL: [AtomicI64; 2] = [const { AtomicI64::new(0) }; 2];
fn note(bytes: i64, blocks: i64) {
    if EVERYWHERE.load(Relaxed) {
        ALL[0].fetch_add(bytes, Relaxed);
        ALL[1].fetch_add(blocks, Relaxed);
    }
}
/// Counts, per thread, the bytes and blocks that are allocated and not freed.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
fn live() -> (i64, i64) {
    if EVERYWHERE.load(Relaxed) {
        return (ALL[0].load(Relaxed), ALL[1].load(Relaxed));
    }
    (LIVE.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}

/// Live bytes and blocks after each of `n` repetitions.
fn measure(n: usize, mut f: impl FnMut()) -> Vec<(i64, i64)> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        f();
        v.push(live());
    }
    v
}
/// A cache of bounded size may fill up during the first repetitions; growth that goes on is a leak.
fn grows(v: &[(i64, i64)]) -> bool {
    let (a, b) = (v[v.len() * 2 / 3], v[v.len() - 1]);
    b.0 > a.0 || b.1 > a.1
}

/// A process in which one operation or one kind of things is used in threads that are started and joined again and
/// again; all allocations of the process count.
pub fn threads(args: &[String]) {
    hist::install_quiet_hook();
    hist::toys_once();
    p_crowd::ready();
    let (i, reps) = (args[1].parse::<usize>().unwrap(), args[2].parse::<usize>().unwrap());
    EVERYWHERE.store(true, Relaxed);
    let bad = |what: &str, v: &[(i64, i64)]| {
        if grows(v) {
            println!("V\t{}-{i}\t{what}: live (bytes, blocks) after two thirds of the repetitions {:?}, and after the last one {:?}", args[0], v[v.len() * 2 / 3], v[v.len() - 1]);
        }
    };
    if args[0] == "op" {
        bad(
            &format!("{} in a thread of its own", op_of(i).0),
            &measure(reps, || {
                p_crowd::in_new_thread(move || drop(std::hint::black_box(hist::step(&mut Pool::default(), i))));
            }),
        );
        println!("S\t{reps}\t1");
    } else {
        let make = (p_crowd::KINDS[i].1)();
        let name = p_crowd::KINDS[i].0;
        let many = 12;
        // built here, used in one thread, dropped in another one
        let v = measure(reps, || {
            for n in 0..many {
                let a = make(n);
                let a = p_crowd::in_new_thread(move || {
                    std::hint::black_box(a());
                    a
                });
                p_crowd::in_new_thread(move || drop(a));
            }
        });
        bad(&format!("{name}, used and dropped in threads of their own"), &v);
        println!("S\t{}\t1", reps * many);
    }
}

/// Repeats something, with the bytes and blocks of memory that are live measured: what is wrong, and how many calls.
fn memory(kind: &str, a: &[usize]) -> (Option<String>, u64) {
    let told = |v: &[(i64, i64)]| format!("live (bytes, blocks) after two thirds of the repetitions {:?}, and after the last one {:?}", v[v.len() * 2 / 3], v[v.len() - 1]);
    // allocations made once per process are allowed: more repetitions when something changed
    let twice = |n: usize, more: usize, once: &mut dyn FnMut()| {
        let v = measure(n, &mut *once);
        if v[n - 1] == v[n - 2] {
            return (None, n as u64);
        }
        if !EVERYWHERE.load(Relaxed) {
            return (Some(told(&v)), n as u64); // to be looked at in a process of its own
        }
        // lists grow at powers of two
        let v = measure(32, &mut *once);
        if v[15] == v[31] {
            return (None, 32);
        }
        let v = measure(more, once);
        (grows(&v).then(|| told(&v)), more as u64)
    };
    match kind {
        "dropped" => {
            let (m, k) = twice(2, 300, &mut || {
                let mut p = Pool::default();
                for &i in a {
                    std::hint::black_box(hist::step(&mut p, i));
                }
            });
            (m, k * a.len() as u64)
        }
        "kept" => {
            let mut p = Pool::default();
            let v = measure(a[0], || {
                std::hint::black_box(hist::step(&mut p, a[1]));
            });
            (grows(&v).then(|| told(&v)), a[0] as u64)
        }
        "all" => {
            let n = hist::ops();
            let (m, k) = twice(2, 60, &mut || {
                let mut p = Pool::default();
                for k in 0..n {
                    std::hint::black_box(hist::step(&mut p, (a[0] + k) % n));
                }
            });
            (m, k * n as u64)
        }
        "repeated" => {
            let (m, k) = twice(3, 40, &mut || {
                let make = (p_crowd::kinds()[a[1]].1)();
                let v: Vec<_> = (0..a[0]).map(&make).collect();
                for x in v.iter().chain(v.iter().rev()) {
                    std::hint::black_box(x());
                }
            });
            (m, k * 2 * a[0] as u64)
        }
        _ => {
            let distinct = a[0];
            let make = (p_crowd::kinds()[a[1]].1)();
            let mut n = 0;
            let v = measure(distinct, || {
                std::hint::black_box(make(n)());
                n += 1;
            });
            // a bounded cache of values of different sizes may still change a little when it is full
            let (x, y) = (v[distinct * 2 / 3], v[distinct - 1]);
            let few = (distinct / 3) as i64;
            let ok = y.0 - x.0 < few * 8 || y.1 - x.1 < few / 4;
            ((!ok).then(|| format!("live (bytes, blocks) after {} different ones, each dropped after its use: {x:?}, after {distinct}: {y:?}", distinct * 2 / 3)), distinct as u64)
        }
    }
}
/// The threads of the explorer count apart from each other, and what one of them allocated another one may free (when
/// the code keeps a table of its own, say): growth is looked at again in a process of its own.
fn growth(l: &mut L, kind: &str, a: &[usize], key: impl Fn() -> String) {
    l.state();
    let (m, calls) = memory(kind, a);
    l.calls(calls);
    let m = m.and_then(|_| {
        let mut args = vec!["C27-one".to_string(), kind.to_string()];
        args.extend(a.iter().map(|x| x.to_string()));
        let o = Command::new(std::env::current_exe().unwrap()).args(&args).output().expect("spawn");
        let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
        if !o.status.success() {
            return Some(format!("the process ends with {}", o.status));
        }
        text.strip_prefix("V\t").map(|t| t.to_string())
    });
    l.ok(m.is_none(), key, || m.clone().unwrap_or_default());
}
pub fn one(args: &[String]) {
    hist::install_quiet_hook();
    hist::QUIET.with(|q| q.set(true));
    hist::toys_once();
    if args[0] == "repeated" || args[0] == "different" {
        p_crowd::ready();
    }
    EVERYWHERE.store(true, Relaxed);
    let a: Vec<usize> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
    match memory(&args[0], &a).0 {
        Some(m) => println!("V\t{m}"),
        None => println!("S"),
    }
}

pub fn c27(ctx: &Ctx) {
    let n = hist::ops();
    let depth: u32 = ctx.by(2, 3);
    ctx.bound(format!("every sequence of {depth} operations out of {n}, over structures created for it and dropped after it"));
    ctx.bound("every operation repeated over structures that stay alive");
    ctx.bound("each history is repeated, and repeated more often when the memory grew; the counting allocator sees every allocation of the Rust code");
    hist::toys_once();
    ctx.bound("growth that is seen in a thread of the explorer counts when it is also seen in a process that runs nothing else");
    let jobs: Vec<(String, usize)> = (0..n).map(|i| (format!("first={i}"), i)).collect();
    ctx.par("dropped", jobs.clone(), |l, &first| {
        for code in 0..n.pow(depth - 1) {
            if l.stopped() {
                return;
            }
            let mut seq = vec![first];
            let mut c = code;
            for _ in 1..depth {
                seq.push(c % n);
                c /= n;
            }
            growth(l, "dropped", &seq, || format!("{seq:?}"));
            l.outcome(&seq);
        }
    });
    let reps = ctx.by(30, 200);
    ctx.par("kept", jobs, |l, &first| growth(l, "kept", &[reps, first], || op_of(first).0.to_string()));
    // whole pools: all operations over the same structures, structure by structure lifetimes included
    ctx.par("all", (0..n).map(|i| (format!("rotation={i}"), i)).collect(), |l, &i| growth(l, "all", &[i], || "all".into()));
    // long lists of alike things
    p_crowd::ready();
    let kinds: Vec<(String, usize)> = (0..p_crowd::kinds().len()).map(|k| (p_crowd::kinds()[k].0.to_string(), k)).collect();
    let many = ctx.by(60, 400);
    let distinct = ctx.by(600, 3000);
    ctx.bound(format!("{} kinds of structures and values: {many} different ones of a kind built, kept, used and dropped, and the whole repeated; {distinct} different ones built, used and dropped one after the other", kinds.len()));
    ctx.par("crowds", kinds, |l, &k| {
        growth(l, "repeated", &[many, k], || "repeated".into());
        growth(l, "different", &[distinct, k], || "different".into());
    });
    let reps = ctx.by(30, 300);
    ctx.bound(format!("every operation {reps} times in threads that are started and joined, every kind of things built in one thread, used in a second and dropped in a third one, {reps} times 12 of them"));
    let job = |what: &str, i: usize| (format!("{what}/{i}"), vec!["C27-threads".to_string(), what.to_string(), i.to_string(), reps.to_string()]);
    let jobs = (0..n).map(|i| job("op", i)).chain((0..p_crowd::KINDS.len()).map(|k| job("kind", k))).collect();
    ctx.par("threads", jobs, |l, args: &Vec<String>| drive(l, args));
}
