//! The explorer: a supervisor and worker processes that share a table of explored states.
//!
//! A *state* is a case: a source text, or an encoded history of operations. Generators
//! enumerate finite sets of cases completely; each is checked once, whichever generator
//! and worker reach it first. A case that crashes or hangs its worker is recovered from
//! shared memory, confirmed alone in a fresh process, and reported.
use crate::model::{self, Outcome, Parsed, Stop};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

/// What checking a case did.
pub enum Done {
    /// Compared with the model's verdict
    Compared,
    /// The model leaves the case open, or the property says nothing about it
    Skipped,
}

pub type Check = Result<Done, String>;

pub trait Property: Sync {
    fn id(&self) -> &'static str;
    /// Shards of the exploration, each run by one worker.
    fn tasks(&self, tier: Tier) -> Vec<Task>;
    /// Checks a source text.
    fn text(&self, text: &str, model: &Parsed) -> Check { let _ = (text, model); Ok(Done::Skipped) }
    /// Checks any other kind of case.
    fn case(&self, kind: &str, data: &str) -> Check { let _ = (kind, data); Ok(Done::Skipped) }
    /// Bounds, in words, for the evidence.
    fn scope(&self, tier: Tier) -> String;
    /// What the verdict rests on besides the exploration, for the evidence.
    fn assumptions(&self) -> Vec<String> {
        vec!["texts on which the model takes no position (see DESIGN.md) are only checked for what does not need it".into(),
            "states are identified by a 64-bit hash: two different cases with the same hash would count as one".into(),
            "the code under test is built without optimisation, which its own unsafe code needs".into()]
    }
}

pub struct Task {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx)>,
}

const SLOTS: usize = 16;
const CASE_MAX: usize = 4 << 20;

#[repr(C)]
struct Slot {
    seq: AtomicU64,
    busy: AtomicU64,
    len: AtomicU64,
    task: AtomicU64,
    bytes: [u8; CASE_MAX],
}

#[repr(C)]
pub struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    pub states: AtomicU64,
    pub duplicates: AtomicU64,
    pub transitions: AtomicU64,
    pub compared: AtomicU64,
    pub skipped: AtomicU64,
    pub accepted: AtomicU64,
    pub rejected: AtomicU64,
    pub open: AtomicU64,
    pub tasks_done: AtomicU64,
    table_full: AtomicU64,
    slots: [Slot; SLOTS],
}

fn map(size: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}

pub struct Ctx {
    prop: &'static dyn Property,
    shared: &'static Shared,
    table: &'static [AtomicU64],
    me: usize,
    keep_going: bool,
    bad: u64,
    since_flush: u64,
    local: [u64; 8],
    dir: String,
}

fn hash(kind: &str, s: &str) -> u64 {
    // two rounds of multiply-xorshift over 8-byte words
    let mut h: u64 = 0x9E37_79B9_7F4A_7C15 ^ (s.len() as u64).wrapping_mul(0xff51afd7ed558ccd);
    for part in [kind.as_bytes(), s.as_bytes()] {
        for w in part.chunks(8) {
            let mut b = [0u8; 8];
            b[..w.len()].copy_from_slice(w);
            h ^= u64::from_le_bytes(b);
            h = h.wrapping_mul(0xbf58476d1ce4e5b9);
            h ^= h >> 29;
            h = h.wrapping_mul(0x94d049bb133111eb);
            h ^= h >> 32;
        }
        h = h.wrapping_add(0x1234567);
    }
    if h == 0 { 1 } else { h }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

/// Runs a check; a panic of the code under test is a violation.
pub fn guarded<F: FnOnce() -> Check>(f: F) -> Check {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn check_case(prop: &dyn Property, kind: &str, data: &str) -> Check {
    guarded(|| if kind == "text" {
        let m = model::parse(data);
        prop.text(data, &m)
    } else {
        prop.case(kind, data)
    })
}

impl Ctx {
    fn announce(&mut self, kind: &str, data: &str) {
        let slot = &self.shared.slots[self.me];
        let n = kind.len() + 1 + data.len();
        let base = slot.bytes.as_ptr() as *mut u8;
        unsafe {
            if n <= CASE_MAX {
                std::ptr::copy_nonoverlapping(kind.as_ptr(), base, kind.len());
                *base.add(kind.len()) = b'\n';
                std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(kind.len() + 1), data.len());
            }
        }
        slot.len.store(n as u64, Relaxed);
        slot.busy.store(1, Relaxed);
        slot.seq.fetch_add(1, Release);
    }

    /// Enters a case in the table; false when it was there.
    fn fresh(&mut self, kind: &str, data: &str) -> bool {
        let h = hash(kind, data);
        let mask = self.table.len() - 1;
        let mut i = h as usize & mask;
        let mut probes = 0;
        loop {
            match self.table[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => return true,
                Err(x) if x == h => return false,
                Err(_) => {}
            }
            i = (i + 1) & mask;
            probes += 1;
            if probes > 4096 { self.shared.table_full.store(1, Relaxed); return true; }
        }
    }

    pub fn stopped(&self) -> bool { self.shared.stop.load(Relaxed) != 0 }

    fn flush(&mut self) {
        let s = self.shared;
        let l = std::mem::take(&mut self.local);
        for (a, n) in [&s.states, &s.duplicates, &s.transitions, &s.compared, &s.skipped, &s.accepted, &s.rejected, &s.open].iter().zip(l.iter()) {
            a.fetch_add(*n, Relaxed);
        }
        self.since_flush = 0;
    }

    fn record(&mut self, kind: &str, data: &str, r: Check) {
        match r {
            Ok(Done::Compared) => self.local[3] += 1,
            Ok(Done::Skipped) => self.local[4] += 1,
            Err(m) => {
                let known = KNOWN.get().map_or(false, |k| k.iter().any(|x| x.matches(self.prop.id(), kind, data)));
                if known {
                    self.local[3] += 1;
                    note(&self.dir, "known", kind, data, &m);
                } else {
                    self.bad += 1;
                    note(&self.dir, "found", kind, data, &m);
                    if !self.keep_going || self.bad > 400 { self.shared.stop.store(1, Relaxed); }
                }
            }
        }
        self.shared.slots[self.me].busy.store(0, Relaxed);
        self.since_flush += 1;
        if self.since_flush > 256 { self.flush(); }
    }

    /// Checks a source text, unless it was explored before. Returns whether the model
    /// considers it a prefix of programs, that is, worth extending.
    pub fn text(&mut self, text: &str) -> bool {
        if self.stopped() { return false; }
        if !self.fresh("text", text) { self.local[1] += 1; return model::parse(text).viable; }
        self.announce("text", text);
        let prop = self.prop;
        let mut viable = false;
        let mut steps = 0;
        let mut class = 7;
        let r = guarded(|| {
            let m = model::parse(text);
            viable = m.viable;
            steps = m.toks.len() as u64 + 1;
            class = match m.out { Outcome::Ok(_) => 5, Outcome::Stop(Stop::Reject { .. }) => 6, _ => 7 };
            prop.text(text, &m)
        });
        self.local[0] += 1;
        self.local[2] += steps;
        self.local[class] += 1;
        self.record("text", text, r);
        viable
    }

    /// Checks a case of another kind; `steps` is the number of operations it performs.
    pub fn case(&mut self, kind: &str, data: &str, steps: u64) {
        if self.stopped() { return; }
        if !self.fresh(kind, data) { self.local[1] += 1; return; }
        self.announce(kind, data);
        let prop = self.prop;
        let r = guarded(|| prop.case(kind, data));
        self.local[0] += 1;
        self.local[2] += steps;
        self.record(kind, data, r);
    }
}

fn note(dir: &str, what: &str, kind: &str, data: &str, msg: &str) {
    use std::io::Write;
    let h = hash(kind, data);
    let path = format!("{}/{}-{:016x}", dir, what, h);
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = f.write_all(format!("{}\n{}\n", kind, msg.replace('\n', "\\n")).as_bytes());
        let _ = f.write_all(data.as_bytes());
    }
}

/// A committed finding: the property and the exact case that fails.
pub struct Known { pub prop: String, pub kind: String, pub data: String, pub what: String }

impl Known {
    fn matches(&self, prop: &str, kind: &str, data: &str) -> bool { self.prop == prop && self.kind == kind && self.data == data }
}

pub static KNOWN: OnceLock<Vec<Known>> = OnceLock::new();

/// The findings of the committed file, which the program never writes:
/// `finding: property=<id> kind=<kind> data=<JSON string> what=<description>`
pub fn read_known(path: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(l) = l.strip_prefix("finding: property=") else { continue };
        let Some((prop, l)) = l.split_once(" kind=") else { continue };
        let Some((kind, l)) = l.split_once(" data=") else { continue };
        let mut d = serde_json::Deserializer::from_str(l).into_iter::<String>();
        let Some(Ok(data)) = d.next() else { continue };
        let what = l[d.byte_offset()..].trim().trim_start_matches("what=").to_string();
        v.push(Known { prop: prop.into(), kind: kind.into(), data, what });
    }
    v
}

pub struct Config {
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
    pub keep_going: bool,
    pub only: Option<String>,
}

const STACK: usize = 1 << 30;
const HANG: Duration = Duration::from_secs(20);

fn worker(prop: &'static dyn Property, shared: &'static Shared, table: &'static [AtomicU64], me: usize, cfg: &Config, dir: &str, tasks: Vec<Task>, first: Option<usize>) {
    limit(table.len() * 8);
    quiet_panics();
    let mut cx = Ctx { prop, shared, table, me, keep_going: cfg.keep_going, bad: 0, since_flush: 0, local: [0; 8], dir: dir.to_string() };
    let mut first = first;
    loop {
        let t = match first.take() { Some(t) => t, None => shared.next.fetch_add(1, Relaxed) as usize };
        if t >= tasks.len() || cx.stopped() { break; }
        shared.slots[me].task.store(t as u64, SeqCst);
        (tasks[t].run)(&mut cx);
        cx.flush();
        shared.tasks_done.fetch_add(1, Relaxed);
    }
    cx.flush();
}

/// Bounds the address space, so that unbounded allocation ends in an abort.
fn limit(table: usize) {
    let max = (table + STACK + (2usize << 30) + std::mem::size_of::<Shared>()) as u64;
    let l = libc::rlimit { rlim_cur: max, rlim_max: max };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn big_stack<F: FnOnce() + Send>(f: F) {
    std::thread::scope(|s| { std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().ok(); });
}

struct Cell<X>(X);
unsafe impl<X> Send for Cell<X> {}

/// Forks a process that runs `f` on a large stack.
fn fork<F: FnOnce()>(f: F) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let f = Cell(f);
            big_stack(move || { let f = f; (f.0)() });
            libc::_exit(0);
        }
        assert!(pid > 0, "fork failed");
        pid
    }
}

/// Runs one case alone. None: the property holds; otherwise what went wrong.
pub fn alone(prop: &'static dyn Property, kind: &str, data: &str) -> Option<String> {
    let out = map(1 << 16);
    let pid = fork(|| {
        limit(0);
        quiet_panics();
        if let Err(m) = check_case(prop, kind, data) {
            let b = m.as_bytes();
            let n = b.len().min((1 << 16) - 16);
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), out.add(8), n);
                *(out as *mut u64) = n as u64 + 1;
            }
        }
    });
    let start = Instant::now();
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid { break; }
        if start.elapsed() > HANG {
            unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut status, 0); }
            return Some("does not terminate within 20 s".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let n = unsafe { *(out as *const u64) };
    let msg = if n > 0 {
        Some(String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(out.add(8), n as usize - 1) }).into_owned())
    } else if libc::WIFSIGNALED(status) {
        Some(format!("process died of signal {}", libc::WTERMSIG(status)))
    } else if libc::WEXITSTATUS(status) != 0 {
        Some(format!("process exited with status {}", libc::WEXITSTATUS(status)))
    } else { None };
    unsafe { libc::munmap(out as *mut _, 1 << 16); }
    msg
}

pub struct Summary {
    pub violations: Vec<(String, String, String)>,
    pub known: Vec<(String, String, String)>,
    pub shared: &'static Shared,
    pub tasks: usize,
    pub complete: bool,
    pub samples: Vec<String>,
}

pub fn explore(prop: &'static dyn Property, cfg: &Config) -> Summary {
    let shared: &'static Shared = unsafe { &*(map(std::mem::size_of::<Shared>()) as *const Shared) };
    let bits = match cfg.tier { Tier::Quick => 26, Tier::Thorough => 29 };
    let table: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(map(8usize << bits) as *const AtomicU64, 1 << bits) };
    let dir = format!("{}/replays/{}", cfg.verif, prop.id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("replay directory");
    let make = || -> Vec<Task> {
        let mut t = prop.tasks(cfg.tier);
        if let Some(ref o) = cfg.only { t.retain(|t| t.name.contains(o.as_str())); }
        t
    };
    let ntasks = make().len();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, SLOTS);
    let mut pids: Vec<Option<i32>> = Vec::new();
    // a worker that takes the place of a lost one repeats its shard: what the other explored is in the table
    let start = |me: usize, first: Option<usize>| fork(|| worker(prop, shared, table, me, cfg, &dir, make(), first));
    for s in shared.slots.iter() { s.task.store(u64::MAX, Relaxed); }
    for me in 0..n { pids.push(Some(start(me, None))); }
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let mut samples: Vec<String> = Vec::new();
    let mut lost = 0;
    let mut polls = 0u64;
    loop {
        let mut alive = 0;
        for me in 0..n {
            let pid = match pids[me] { Some(p) => p, None => continue };
            let slot = &shared.slots[me];
            let grab = || -> Option<(String, String)> {
                let len = slot.len.load(Relaxed) as usize;
                if len > CASE_MAX { return None; }
                let b = unsafe { std::slice::from_raw_parts(slot.bytes.as_ptr(), len) };
                let s = String::from_utf8_lossy(b).into_owned();
                let i = s.find('\n')?;
                Some((s[..i].to_string(), s[i + 1..].to_string()))
            };
            let mut status = 0;
            let mut gone = false;
            let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
            if r == pid {
                if libc::WIFSIGNALED(status) || libc::WEXITSTATUS(status) != 0 {
                    // the case that was running is the suspect
                    gone = true;
                } else { pids[me] = None; continue; }
            }
            let seq = slot.seq.load(Acquire);
            if !gone && (seq != seen[me].0 || slot.busy.load(Relaxed) == 0) { seen[me] = (seq, Instant::now()); }
            else if !gone && seen[me].1.elapsed() > HANG {
                unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut status, 0); }
                gone = true;
            }
            if gone {
                lost += 1;
                pids[me] = None;
                let mut bad = true;
                if let Some((k, d)) = grab() {
                    match alone(prop, &k, &d) {
                        Some(m) => note(&dir, "found", &k, &d, &m),
                        None => { bad = false; eprintln!("note: a worker was lost at a case that passes alone ({} bytes)", d.len()); }
                    }
                }
                if bad && !cfg.keep_going { shared.stop.store(1, Relaxed); }
                else if lost < 200 {
                    let t = slot.task.load(SeqCst);
                    pids[me] = Some(start(me, if t == u64::MAX { None } else { Some(t as usize) }));
                    seen[me] = (slot.seq.load(Acquire), Instant::now());
                    alive += 1;
                }
                continue;
            }
            alive += 1;
            if polls % 40 == 7 && samples.len() < 24 {
                // tasks are explored in order, so these are spread over the exploration
                if let Some((k, d)) = grab() { if d.len() < 200 && slot.seq.load(Acquire) == seq && !samples.contains(&d) { samples.push(if k == "text" { d } else { format!("{}: {}", k, d) }); } }
            }
        }
        if alive == 0 { break; }
        if shared.stop.load(Relaxed) != 0 && !cfg.keep_going {
            // give the others a moment to finish their case
            std::thread::sleep(Duration::from_millis(200));
            for p in pids.iter_mut() {
                if let Some(pid) = p.take() { let mut st = 0; unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); } }
            }
            break;
        }
        polls += 1;
        std::thread::sleep(Duration::from_millis(if polls < 50 { 4 } else { 50 }));
    }
    let mut violations = Vec::new();
    let mut known = Vec::new();
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().into_owned();
        if let Some((k, m, _)) = read_replay(&f.to_string_lossy()) {
            let e = (f.to_string_lossy().into_owned(), k, m);
            if name.starts_with("known") { known.push(e) } else { violations.push(e) }
        }
    }
    let complete = violations.is_empty() && shared.tasks_done.load(Relaxed) as usize == ntasks && shared.table_full.load(Relaxed) == 0;
    Summary { violations, known, shared, tasks: ntasks, complete, samples }
}

/// Kind, message and data of a replay file.
pub fn read_replay(path: &str) -> Option<(String, String, String)> {
    let b = std::fs::read(path).ok()?;
    let s = String::from_utf8(b).ok()?;
    let mut it = s.splitn(3, '\n');
    Some((it.next()?.to_string(), it.next()?.to_string(), it.next()?.to_string()))
}
