//! Explorer: exhaustive depth-first enumeration of the choice sequences of a scenario that drives
//! the real code.  A scenario is a closure; every call of `choose(n)` in it (or in an environment
//! object it hands to the code under test) is a branching point, and the scenario is executed once
//! for every sequence of answers.
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub mod alloc {
    use jemallocator as j;
    use std::sync::atomic::Ordering::Relaxed;
    /// Blocks (count, bytes) allocated inside `sut` that are still alive.
    pub fn live() -> (usize, usize) { (j::LIVE.load(Relaxed), j::LIVE_BYTES.load(Relaxed)) }
    /// Blocks allocated so far.
    pub fn count() -> usize { j::ALLOCS.load(Relaxed) }
    /// Lets blocks add up to that many bytes, 3 GiB otherwise.
    pub fn cap(n: usize) { j::CAP.store(n, Relaxed) }
    /// Requests of more than `n` bytes are refused.
    pub fn refuse(n: usize) { j::REFUSE.store(n, Relaxed) }
    pub struct Tag(usize);
    impl Tag {
        pub fn on() -> Tag { Tag(j::TAG.swap(1, Relaxed)) }
        pub fn off() -> Tag { Tag(j::TAG.swap(0, Relaxed)) }
    }
    impl Drop for Tag { fn drop(&mut self) { j::TAG.store(self.0, Relaxed) } }
}

// ---------------------------------------------------------------------------------------------
// hashing

#[derive(Clone)]
pub struct Fx(u64);
impl Default for Fx { fn default() -> Self { Fx(0xcbf2_9ce4_8422_2325) } }
impl Hasher for Fx {
    fn finish(&self) -> u64 { let x = self.0; (x ^ (x >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (x >> 32) }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64) } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
}
#[derive(Default, Clone)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fx::default(); t.hash(&mut h); h.finish() }

// ---------------------------------------------------------------------------------------------
// verdict payloads

pub struct Violation(pub String);
struct Skip;

pub fn fail(msg: String) -> ! { std::panic::panic_any(Violation(msg)) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { $crate::fail(format!($($a)*)) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { $crate::fail(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b)) }
    }};
}
#[macro_export]
macro_rules! note { ($($a:tt)*) => { if $crate::noting() { $crate::add_note(format!($($a)*)) } }; }

// ---------------------------------------------------------------------------------------------
// per-process exploration state (one controlled thread runs at a time)

const MAXC: usize = 16384;

#[repr(C)]
struct Slot { beat: AtomicU64, scenario: AtomicU32, n: AtomicU32, c: [AtomicU32; MAXC] }
const CLAIMS: usize = 1 << 18;
#[repr(C)]
struct Shared { stop: AtomicU32, claims: [AtomicU64; CLAIMS], slots: [Slot; 16] }

struct Run {
    path: Vec<(u32, u32)>, // (answer, number of answers)
    idx: usize,
    budget: u32,
    split: usize,
    claimed: bool,
    worker: bool,
    scen_hash: u64,
    noting: bool,
    notes: Vec<String>,
    steps: u64,
    case_states: Vec<u64>,
    digest: u64,
    draws: u32,
    known_hits: Vec<(String, String)>,
    outcomes: Vec<String>,
    slot: *const Slot,
    shared: *const Shared,
    dups: u64,
}
static mut RUN: *mut Run = std::ptr::null_mut();
static mut THOROUGH: bool = false;
static mut KNOWN: Vec<String> = Vec::new();
static mut DEADLINE: Option<Instant> = None;
/// Called whenever `choose` wants to branch while something else must decide (unused by default).
fn run() -> &'static mut Run { unsafe { &mut *RUN } }

pub fn thorough() -> bool { unsafe { THOROUGH } }
pub fn by_tier<T>(q: T, t: T) -> T { if thorough() { t } else { q } }
pub fn noting() -> bool { unsafe { !RUN.is_null() && (*RUN).noting } }
pub fn add_note(s: String) { let _t = alloc::Tag::off(); run().notes.push(s) }

/// Returns one of 0..n; every value is explored.
pub fn choose(n: usize) -> usize {
    let _t = alloc::Tag::off();
    let r = run();
    assert!(n >= 1, "choose(0)");
    if n == 1 { return 0 }
    let slot = unsafe { &*r.slot };
    slot.beat.fetch_add(1, Relaxed);
    let v = if r.idx < r.path.len() {
        let (v, m) = r.path[r.idx];
        if m != n as u32 {
            if r.worker || m != 0 { std::panic::panic_any(Diverged(format!("choice {} had {} answers, now {}", r.idx, m, n))) }
            r.path[r.idx].1 = n as u32;
        }
        if v >= n as u32 { std::panic::panic_any(Diverged(format!("choice {}: answer {} of {}", r.idx, v, n))) }
        v
    } else {
        if r.idx >= MAXC { panic!("engine: more than {} choices in one case", MAXC) }
        r.path.push((0, n as u32));
        0
    };
    slot.c[r.idx].store(v, Relaxed);
    r.idx += 1;
    slot.n.store(r.idx as u32, Relaxed);
    r.digest = r.digest.rotate_left(7).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((v as u64) << 32 | n as u64);
    if r.worker && r.idx == r.split && !r.claimed {
        if claim(r) { r.claimed = true } else { std::panic::panic_any(Skip) }
    }
    v as usize
}
struct Diverged(String);

fn claim(r: &Run) -> bool {
    let mut h = Fx::default();
    r.scen_hash.hash(&mut h);
    for (v, _) in &r.path[..r.idx.min(r.split)] { v.hash(&mut h) }
    r.idx.min(r.split).hash(&mut h);
    let key = h.finish() | 1;
    let sh = unsafe { &*r.shared };
    let mut i = key as usize % CLAIMS;
    for _ in 0..CLAIMS {
        match sh.claims[i].compare_exchange(0, key, SeqCst, SeqCst) {
            Ok(_) => return true,
            Err(k) if k == key => return false,
            Err(_) => i = (i + 1) % CLAIMS,
        }
    }
    panic!("engine: claim table full");
}

/// Like `choose`, but every answer other than 0 uses up one unit of the scenario's deviation bound.
pub fn choose_dev(n: usize) -> usize {
    if run().budget == 0 { return 0 }
    let v = choose(n);
    if v != 0 { run().budget -= 1 }
    v
}
/// Remaining deviations.
pub fn budget() -> u32 { run().budget }
pub fn flag() -> bool { choose(2) == 1 }
pub fn pick<T>(v: &[T]) -> &T { &v[choose(v.len())] }
/// Abandons the case (not counted).
pub fn assume(c: bool) { if !c { std::panic::panic_any(Skip) } }
/// One operation on the code under test was performed and its result judged.
pub fn step() { let r = run(); r.steps += 1; unsafe { (*r.slot).beat.fetch_add(1, Relaxed); } }
pub fn steps(n: u64) { run().steps += n; beat() }
pub fn beat() { unsafe { (*run().slot).beat.fetch_add(1, Relaxed); } }
/// Records a canonical (address-free) state that was reached and judged.
pub fn state<T: Hash + ?Sized>(t: &T) {
    let _t = alloc::Tag::off();
    let h = hash_of(t);
    let r = run();
    r.case_states.push(h);
    r.digest = r.digest.rotate_left(9) ^ h;
}
/// Names the observed outcome of the case, to show that executions differ.
pub fn outcome(s: impl Into<String>) { let _t = alloc::Tag::off(); run().outcomes.push(s.into()) }
/// A violation that the committed known-findings file may list under `key`.
pub fn known(key: &str, msg: String) {
    let _t = alloc::Tag::off();
    #[allow(static_mut_refs)]
    if unsafe { KNOWN.iter().any(|k| k == key) } { run().known_hits.push((key.to_string(), msg)) }
    else { fail(format!("[{key}] {msg}")) }
}
/// Random draws of the code under test: explored for the first `max_draws` draws of a case.
pub fn draws_left(max: u32) -> bool { let r = run(); r.draws += 1; r.draws <= max }

// ---------------------------------------------------------------------------------------------
// calling the code under test

thread_local! { static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) }; }

/// Payloads of the explorer itself, which must pass through.
pub fn is_ours(e: &(dyn Any + Send)) -> bool { e.is::<Violation>() || e.is::<Skip>() || e.is::<Diverged>() }
pub fn panic_text(e: &(dyn Any + Send)) -> String {
    let loc = LAST_PANIC.with(|p| p.take());
    if let Some(l) = loc { return l }
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}
/// Runs code under test; its allocations count for the leak oracle and a panic is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match sut_try(f) { Ok(v) => v, Err(m) => fail(format!("{what} panicked: {m}")) }
}
/// As `sut`, but a panic is an answer.
pub fn sut_try<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let t = alloc::Tag::on();
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(t);
    match r {
        Ok(v) => Ok(v),
        Err(e) if is_ours(&*e) => resume_unwind(e),
        Err(e) => { let m = panic_text(&*e); { let _g = alloc::Tag::on(); drop(e); } Err(m) }
    }
}

/// Runs `f` in a process of its own: its answer, or none when it ends the process.
pub fn apart(f: impl FnOnce() -> u8) -> Option<u8> {
    unsafe {
        let pid = libc::fork();
        if pid < 0 { panic!("fork") }
        if pid == 0 {
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 2);
            libc::signal(libc::SIGABRT, libc::SIG_DFL);
            let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or(250);
            libc::_exit(r as i32);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 66 { Some(libc::WEXITSTATUS(st) as u8) } else { None }
    }
}

// ---------------------------------------------------------------------------------------------
// scenarios and checks

pub struct Scenario {
    pub name: String,
    pub bound: String,
    pub dev: u32,
    pub split: usize,
    pub f: Box<dyn Fn()>,
}
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub scenarios: Vec<Scenario>,
    pub cap_s: (u64, u64),
    /// seconds without progress after which a case is taken to hang
    pub stall_s: u64,
}
impl Check {
    pub fn new(id: &'static str, level: &'static str, rule: &'static str) -> Check {
        unsafe { THOROUGH = std::env::args().nth(1).as_deref() == Some("thorough") || std::env::var("MC_REPLAY_TIER").as_deref() == Ok("thorough"); }
        if let Some(p) = std::env::args().nth(2) {
            if std::env::args().nth(1).as_deref() == Some("--replay") {
                let t = std::fs::read_to_string(p).unwrap_or_default();
                unsafe { THOROUGH = t.lines().any(|l| l == "tier=thorough"); }
            }
        }
        Check { id, level, rule, assumptions: vec![], scenarios: vec![], cap_s: (240, 3000), stall_s: 20 }
    }
    pub fn assume(mut self, s: &str) -> Self { self.assumptions.push(s.into()); self }
    pub fn scenario(self, name: &str, bound: impl Into<String>, f: impl Fn() + 'static) -> Self { self.scenario_dev(name, bound, 0, f) }
    pub fn scenario_dev(mut self, name: &str, bound: impl Into<String>, dev: u32, f: impl Fn() + 'static) -> Self {
        self.scenarios.push(Scenario { name: name.into(), bound: bound.into(), dev, split: 3, f: Box::new(f) });
        self
    }
    /// Number of leading choices by which the last scenario is divided among the workers; 0: one worker
    /// does all of it. (A case with fewer choices is run by every worker, and counted once.)
    pub fn split(mut self, n: usize) -> Self { self.scenarios.last_mut().unwrap().split = n; self }
    pub fn stall(mut self, s: u64) -> Self { self.stall_s = s; self }
    pub fn run(self) -> ! { main_loop(self) }
}

enum End { Ok, Skip, Bad(String), Diverged(String) }

fn one_case(s: &Scenario) -> End {
    LAST_PANIC.with(|p| p.set(None));
    let r = run();
    r.idx = 0; r.budget = s.dev; r.steps = 0; r.case_states.clear(); r.digest = 7; r.draws = 0;
    r.known_hits.clear(); r.outcomes.clear(); r.notes.clear();
    jemallocator::TAG.store(0, Relaxed);
    beat();
    match catch_unwind(AssertUnwindSafe(|| (s.f)())) {
        Ok(()) => End::Ok,
        Err(e) => {
            jemallocator::TAG.store(0, Relaxed);
            if e.is::<Skip>() { End::Skip }
            else if let Some(v) = e.downcast_ref::<Violation>() { End::Bad(v.0.clone()) }
            else if let Some(v) = e.downcast_ref::<Diverged>() { End::Diverged(v.0.clone()) }
            else { End::Bad(format!("panicked: {}", panic_text(&*e))) }
        }
    }
}

#[derive(Default, Clone)]
struct Tally { cases: u64, steps: u64, max_choices: u64, complete: bool }

fn temp(dir: &str, name: &str) -> String { format!("{dir}/{name}") }

fn set_beat_scen(i: usize) { unsafe { (*run().slot).scenario.store(i as u32, Relaxed); } }

/// Explores all scenarios (or only `only`), returns via files in `dir`.
fn worker(c: &Check, dir: &str, w: usize, only: Option<usize>, solo: bool) -> i32 {
    let mut states: HashSet<u64, BuildHasherDefault<Id>> = HashSet::default();
    let mut tallies = vec![Tally::default(); c.scenarios.len()];
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut outcomes: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); c.scenarios.len()];
    let mut replays: Vec<(usize, Vec<(u32, u32)>, u64)> = vec![];
    let mut out = String::new();
    for (si, s) in c.scenarios.iter().enumerate() {
        if only.map_or(false, |o| o != si) { continue }
        set_beat_scen(si);
        let r = run();
        r.scen_hash = hash_of(&s.name);
        r.path.clear();
        r.split = if solo { 0 } else { s.split };
        if !solo && s.split == 0 {
            r.idx = 0;
            let got = claim(r);
            CLAIM_HELD.with(|h| h.set(got));
            if !got { tallies[si].complete = true; continue }
        }
        r.worker = true;
        let mut done = false;
        let mut kept = 0u64;
        // length of the prefix for which this worker holds a claim
        loop {
            let r = run();
            r.claimed = solo || (r.path.len() >= r.split && CLAIM_HELD.with(|h| h.get()));
            let end = one_case(s);
            let r = run();
            r.path.truncate(r.idx);
            let (mine, n) = match end {
                End::Diverged(m) => { eprintln!("engine: divergence: {m}"); std::fs::write(temp(dir, &format!("div{w}")), m).ok(); return 4 }
                End::Skip => (false, r.idx),
                End::Bad(m) => {
                    // shallow cases are run by every worker; one report is enough
                    let mut t = format!("{si}\n");
                    for (v, _) in &r.path { let _ = write!(t, "{v},"); }
                    let _ = write!(t, "\n{m}");
                    std::fs::write(temp(dir, &format!("bad{w}")), t).ok();
                    unsafe { (*r.shared).stop.store(1, SeqCst) };
                    return 3;
                }
                End::Ok => {
                    let mine = r.claimed || solo || (r.idx < r.split && claim(r));
                    (mine, r.idx)
                }
            };
            if mine {
                let t = &mut tallies[si];
                t.cases += 1; t.steps += r.steps; t.max_choices = t.max_choices.max(n as u64);
                let sh = r.scen_hash;
                for h in &r.case_states { states.insert(h ^ sh); }
                for (k, m) in r.known_hits.drain(..) { let e = known.entry(k).or_insert((0, m)); e.0 += 1; }
                for o in r.outcomes.drain(..) {
                    let m = &mut outcomes[si];
                    if m.len() < 64 || m.contains_key(&o) { *m.entry(o).or_insert(0) += 1 }
                }
                if kept < 3 || t.cases.is_power_of_two() { kept += 1; replays.push((si, r.path.clone(), r.digest)); }
            }
            CLAIM_HELD.with(|h| h.set(r.claimed));
            // next sequence
            let old = r.path.len();
            let mut changed = None;
            while let Some((v, n)) = r.path.pop() {
                if v + 1 < n { changed = Some(r.path.len()); r.path.push((v + 1, n)); break }
            }
            let _ = old;
            match changed { None => { done = true; break } Some(i) => if i < r.split { CLAIM_HELD.with(|h| h.set(false)) } }
            if unsafe { (*r.shared).stop.load(Relaxed) } != 0 { break }
            #[allow(static_mut_refs)]
            if let Some(d) = unsafe { DEADLINE } { if Instant::now() > d { break } }
        }
        tallies[si].complete = done;
        if !done { break }
    }
    // determinism: a few cases again, and write samples
    if unsafe { (*run().shared).stop.load(Relaxed) } == 0 {
        let mut per: BTreeMap<usize, usize> = BTreeMap::new();
        for (si, path, dg) in replays {
            let k = per.entry(si).or_insert(0); *k += 1;
            if *k > 12 { continue }
            let r = run();
            r.worker = false; r.claimed = true; r.split = 0; r.scen_hash = hash_of(&c.scenarios[si].name);
            r.path = path.clone(); r.noting = *k == 3;
            set_beat_scen(si);
            let e = one_case(&c.scenarios[si]);
            let r = run();
            r.noting = false;
            if !matches!(e, End::Ok) || r.digest != dg {
                std::fs::write(temp(dir, &format!("div{w}")), format!("case of '{}' did not replay identically", c.scenarios[si].name)).ok();
                return 4;
            }
            if *k == 3 {
                let ch: Vec<String> = path.iter().map(|x| x.0.to_string()).collect();
                let mut n = r.notes.join("; "); 
                if n.len() > 600 { let mut e = 600; while !n.is_char_boundary(e) { e -= 1 } n.truncate(e); n.push_str(" ..."); }
                samples.push(format!("{} choices=[{}] {}", c.scenarios[si].name, short(&ch.join(",")), n));
            }
        }
    }
    for (i, t) in tallies.iter().enumerate() { let _ = writeln!(out, "T\t{i}\t{}\t{}\t{}\t{}", t.cases, t.steps, t.max_choices, t.complete as u8); }
    for s in samples.iter().take(8) { let _ = writeln!(out, "S\t{}", clean(s)); }
    for (k, (n, m)) in &known { let _ = writeln!(out, "K\t{k}\t{n}\t{}", clean(m)); }
    for (i, m) in outcomes.iter().enumerate() { for (k, n) in m { let _ = writeln!(out, "O\t{i}\t{n}\t{}", clean(k)); } }
    std::fs::write(temp(dir, &format!("out{w}")), out).unwrap();
    let mut b = Vec::with_capacity(states.len() * 8);
    for s in &states { b.extend_from_slice(&s.to_le_bytes()); }
    std::fs::write(temp(dir, &format!("st{w}")), b).unwrap();
    0
}
thread_local! { static CLAIM_HELD: Cell<bool> = const { Cell::new(false) }; }
fn short(s: &str) -> String { if s.len() > 200 { format!("{}..", &s[..200]) } else { s.into() } }
fn clean(s: &str) -> String { s.replace(['\n', '\t', '\r'], " ") }

fn mmap_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

fn redirect(path: &str) {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(p.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_APPEND, 0o600);
        libc::dup2(fd, 2);
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(n, 1);
        libc::dup2(n, 0);
    }
}

fn spawn(f: impl FnOnce() -> i32, err: &str) -> i32 {
    use std::io::Write;
    std::io::stdout().flush().ok();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            redirect(err);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            let rc = f();
            libc::_exit(rc);
        }
        pid
    }
}

struct Bad { scen: usize, choices: Vec<u32>, msg: String }

fn fresh_run(sh: *mut Shared, w: usize) {
    unsafe {
        let slot = &(*sh).slots[w] as *const Slot;
        RUN = Box::leak(Box::new(Run {
            path: vec![], idx: 0, budget: 0, split: 0, claimed: false, worker: false, scen_hash: 0, noting: false,
            notes: vec![], steps: 0, case_states: vec![], digest: 0, draws: 0, known_hits: vec![], outcomes: vec![],
            slot, shared: sh, dups: 0,
        }));
        let _ = (*RUN).dups;
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _t = alloc::Tag::off();
        let p = i.payload();
        if is_ours(p) { return }
        let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("panic: {m}{l}");
        LAST_PANIC.with(|p| p.set(Some(format!("{m}{l}"))));
    }));
}

/// Runs one case in a fresh child. Returns Some(message) when it is bad.
fn confirm(c: &Check, sh: *mut Shared, dir: &str, scen: usize, choices: &[u32], limit: Duration) -> (Option<String>, String) {
    let err = temp(dir, "confirm.err");
    let res = temp(dir, "confirm.res");
    std::fs::remove_file(&res).ok();
    let res2 = res.clone();
    let pid = spawn(|| {
        fresh_run(sh, 15);
        let r = run();
        r.path = choices.iter().map(|v| (*v, 0)).collect();
        r.noting = true; r.claimed = true;
        set_beat_scen(scen);
        let e = one_case(&c.scenarios[scen]);
        let (code, m) = match e { End::Ok => (0, String::new()), End::Skip => (0, String::new()), End::Bad(m) => (3, m), End::Diverged(m) => (4, m) };
        let notes = run().notes.join("\n");
        std::fs::write(&res2, format!("{m}\n----\n{notes}\n")).ok();
        code
    }, &err);
    let t0 = Instant::now();
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid { break }
        if t0.elapsed() > limit {
            unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); }
            return (Some(format!("does not terminate (no result within {} s)", limit.as_secs())), String::new());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let text = std::fs::read_to_string(&res).unwrap_or_default();
    let (m, notes) = text.split_once("\n----\n").unwrap_or((&text, ""));
    let exited = libc::WIFEXITED(st);
    let code = libc::WEXITSTATUS(st);
    if exited && code == 0 { return (None, notes.into()) }
    if exited && code == 3 { return (Some(m.to_string()), notes.into()) }
    if exited && code == 4 { return (None, notes.into()) }
    let e = std::fs::read(&err).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    (Some(crash_text(st, &e)), format!("{notes}\n{}", tail(&e, 6000)))
}
fn tail(s: &str, n: usize) -> String { let mut i = s.len().saturating_sub(n); while !s.is_char_boundary(i) { i += 1 } s[i..].to_string() }
fn crash_text(st: i32, e: &str) -> String {
    let what = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit {}", libc::WEXITSTATUS(st)) };
    let line = e.lines().find(|l| l.contains("ERROR: AddressSanitizer") || l.starts_with("ALLOC:") || l.contains("overflowed its stack") || l.contains("panic in a function that cannot unwind"))
        .or_else(|| e.lines().rev().find(|l| l.starts_with("panic: "))).unwrap_or("");
    format!("process crashed ({what}) {}", line.trim())
}

fn main_loop(c: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if thorough() { "thorough" } else { "quick" };
    // A build without overflow checks and debug assertions, which check.sh runs before the ordinary one.
    let plain = std::env::var("MC_MODE").as_deref() == Ok("plain");
    let stall_s = if std::env::var("MC_AGAIN").is_ok() { c.stall_s * 4 } else { c.stall_s };
    install_hook();
    let dir = format!("{root}/run/{}.{}", c.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let kf = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut listed: BTreeMap<String, String> = BTreeMap::new();
    for l in kf.lines() {
        let l = l.trim();
        if let Some(rest) = l.strip_prefix(&format!("known: property={} key=", c.id)) {
            let (k, d) = rest.split_once(' ').unwrap_or((rest, ""));
            listed.insert(k.to_string(), d.to_string());
        }
    }
    unsafe { KNOWN = listed.keys().cloned().collect(); }
    let sh = mmap_shared();
    let mut code = 2;
    if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        let name = get("scenario=");
        let scen = c.scenarios.iter().position(|s| s.name == name).expect("unknown scenario");
        let ch: Vec<u32> = get("choices=").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let (m, notes) = confirm(&c, sh, &dir, scen, &ch, Duration::from_secs(60));
        println!("{notes}");
        match m { Some(m) => { println!("REPRODUCED: {m}"); code = 1 } None => { println!("the case passes"); code = 0 } }
        std::fs::remove_dir_all(&dir).ok();
        std::process::exit(code);
    }
    let cap = Duration::from_secs(std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { c.cap_s.1 } else { c.cap_s.0 }));
    unsafe { DEADLINE = Some(t0 + cap); }
    let w: usize = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, 14);
    let mut pids: Vec<(i32, bool)> = vec![];
    for i in 0..w {
        let d = dir.clone();
        let cc = &c;
        pids.push((spawn(|| { fresh_run(sh, i); worker(cc, &d, i, None, false) }, &temp(&dir, &format!("err{i}"))), false));
    }
    let mut beats = vec![(0u64, Instant::now()); w];
    let mut cands: Vec<Bad> = vec![];
    let mut problems: Vec<String> = vec![];
    while pids.iter().any(|p| !p.1) {
        std::thread::sleep(Duration::from_millis(3));
        for i in 0..w {
            if pids[i].1 { continue }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[i].0, &mut st, libc::WNOHANG) };
            let slot = unsafe { &(*sh).slots[i] };
            let cur = || -> (usize, Vec<u32>) {
                let n = slot.n.load(Relaxed) as usize;
                (slot.scenario.load(Relaxed) as usize, (0..n).map(|k| slot.c[k].load(Relaxed)).collect())
            };
            if r == pids[i].0 {
                pids[i].1 = true;
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { continue }
                unsafe { (*sh).stop.store(1, SeqCst) };
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 {
                    let t = std::fs::read_to_string(temp(&dir, &format!("bad{i}"))).unwrap_or_default();
                    let mut l = t.splitn(3, '\n');
                    let scen = l.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                    let ch = l.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                    cands.push(Bad { scen, choices: ch, msg: l.next().unwrap_or("").into() });
                } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 4 {
                    problems.push(format!("nondeterminism: {}", std::fs::read_to_string(temp(&dir, &format!("div{i}"))).unwrap_or_default()));
                } else {
                    let e = std::fs::read(temp(&dir, &format!("err{i}"))).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
                    let (scen, ch) = cur();
                    cands.push(Bad { scen, choices: ch, msg: crash_text(st, &e) });
                }
            } else {
                let b = slot.beat.load(Relaxed);
                if b != beats[i].0 { beats[i] = (b, Instant::now()) }
                else if beats[i].1.elapsed().as_secs() >= stall_s {
                    let (scen, ch) = cur();
                    unsafe { libc::kill(pids[i].0, libc::SIGKILL); libc::waitpid(pids[i].0, &mut st, 0); (*sh).stop.store(1, SeqCst); }
                    pids[i].1 = true;
                    cands.push(Bad { scen, choices: ch, msg: format!("no progress for {stall_s} s") });
                }
            }
        }
    }
    cands.sort_by(|a, b| (a.scen, a.choices.len(), &a.choices).cmp(&(b.scen, b.choices.len(), &b.choices)));
    let mut found: Option<(Bad, String)> = None;
    for b in cands {
        let (m, notes) = confirm(&c, sh, &dir, b.scen, &b.choices, Duration::from_secs(c.stall_s + 10));
        if let Some(m) = m { found = Some((Bad { msg: m, ..b }, notes)); break }
        // Not bad on its own: run the whole scenario again from the start in one fresh process.
        let scen = b.scen;
        unsafe { (*sh).stop.store(0, SeqCst); }
        let d = dir.clone();
        let cc = &c;
        let pid = spawn(|| { fresh_run(sh, 14); worker(cc, &d, 14, Some(scen), true) }, &temp(&dir, "err14"));
        let mut st = 0;
        let t1 = Instant::now();
        let mut killed = false;
        loop {
            if unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) } == pid { break }
            if t1.elapsed().as_secs() > 200 { killed = true; unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); } break }
            std::thread::sleep(Duration::from_millis(5));
        }
        if !killed && !(libc::WIFEXITED(st) && matches!(libc::WEXITSTATUS(st), 0 | 4)) {
            let slot = unsafe { &(*sh).slots[14] };
            let n = slot.n.load(Relaxed) as usize;
            let ch: Vec<u32> = (0..n).map(|k| slot.c[k].load(Relaxed)).collect();
            let e = std::fs::read(temp(&dir, "err14")).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
            let m = if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 { std::fs::read_to_string(temp(&dir, "bad14")).unwrap_or_default().splitn(3, '\n').nth(2).unwrap_or("").to_string() } else { crash_text(st, &e) };
            found = Some((Bad { scen, choices: ch, msg: format!("{m} (after the earlier cases of the scenario in the same process; first seen as: {})", b.msg) }, String::new()));
            break;
        }
        // A process that stood still on a busy machine, perhaps: everything once more, with more patience.
        if b.msg.starts_with("no progress") && std::env::var("MC_AGAIN").is_err() {
            use std::os::unix::process::CommandExt;
            println!("{}: {} in '{}', not confirmed; starting again", c.id, b.msg, c.scenarios[b.scen].name);
            std::fs::remove_dir_all(&dir).ok();
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&args[1..]).env("MC_AGAIN", "1").exec();
            problems.push(format!("starting again: {e}"));
        }
        problems.push(format!("unconfirmed: {} in '{}' choices {:?}", b.msg, c.scenarios[b.scen].name, b.choices));
    }
    // merge
    let mut states: HashSet<u64, BuildHasherDefault<Id>> = HashSet::default();
    let mut tl = vec![Tally { complete: true, ..Default::default() }; c.scenarios.len()];
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut outs: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); c.scenarios.len()];
    for i in 0..w {
        if let Ok(b) = std::fs::read(temp(&dir, &format!("st{i}"))) {
            for ch in b.chunks_exact(8) { states.insert(u64::from_le_bytes(ch.try_into().unwrap())); }
        }
        match std::fs::read_to_string(temp(&dir, &format!("out{i}"))) {
            Err(_) => for t in tl.iter_mut() { t.complete = false },
            Ok(t) => for l in t.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "T" => {
                        let k: usize = p[1].parse().unwrap();
                        tl[k].cases += p[2].parse::<u64>().unwrap(); tl[k].steps += p[3].parse::<u64>().unwrap();
                        tl[k].max_choices = tl[k].max_choices.max(p[4].parse().unwrap()); tl[k].complete &= p[5] == "1";
                    }
                    "S" => if samples.len() < 16 && !samples.iter().any(|s| s.split(' ').next() == p[1].split(' ').next()) { samples.push(p[1].into()) },
                    "K" => { let e = known.entry(p[1].into()).or_insert((0, p[3].into())); e.0 += p[2].parse::<u64>().unwrap(); }
                    "O" => *outs[p[1].parse::<usize>().unwrap()].entry(p[3].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                    _ => {}
                }
            },
        }
    }
    let exhaustive = found.is_none() && problems.is_empty() && tl.iter().all(|t| t.complete);
    let cases: u64 = tl.iter().map(|t| t.cases).sum();
    let steps: u64 = tl.iter().map(|t| t.steps).sum();
    let mut sc = String::new();
    for (i, s) in c.scenarios.iter().enumerate() {
        let o: Vec<String> = outs[i].iter().take(24).map(|(k, n)| format!("{}: {}", js(k), n)).collect();
        let _ = write!(sc, "{}{{\"name\": {}, \"bound\": {}, \"deviation_bound\": {}, \"executions\": {}, \"transitions\": {}, \"max_choices\": {}, \"complete\": {}, \"outcomes\": {{{}}}}}",
            if i > 0 { ", " } else { "" }, js(&s.name), js(&s.bound), s.dev, tl[i].cases, tl[i].steps, tl[i].max_choices, tl[i].complete, o.join(", "));
    }
    let sj: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let aj: Vec<String> = c.assumptions.iter().map(|s| js(s)).collect();
    let cov = if c.level == "model_checking" {
        format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ", states.len(), steps, cases)
    } else {
        format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"transitions\": {}, ", cases, states.len(), steps)
    };
    let ev = format!("{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{{cov}\"rule\": {}, \"exhaustive\": {}, \"scenarios\": [{}], \"samples\": [{}]{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(c.id), js(c.level), js(c.rule), exhaustive, sc, sj.join(", "), std::fs::read_to_string(format!("{root}/run/{}.plain.json", c.id)).ok().filter(|_| !plain).map(|t| format!(", \"without_overflow_checks_and_debug_assertions\": {t}")).unwrap_or_default(), aj.join(", "), t0.elapsed().as_secs_f64(), found.is_some() as u8);
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    std::fs::write(format!("{root}/evidence/{}.json", c.id), ev).unwrap();
    if plain {
        std::fs::write(format!("{root}/run/{}.plain.json", c.id), format!("{{\"states\": {}, \"transitions\": {steps}, \"executions\": {cases}, \"exhaustive\": {exhaustive}, \"wall_s\": {:.2}}}", states.len(), t0.elapsed().as_secs_f64())).ok();
    }
    for (i, s) in c.scenarios.iter().enumerate() {
        println!("{} {}: {} executions, {} transitions{}", c.id, s.name, tl[i].cases, tl[i].steps, if tl[i].complete { "" } else { " (not completed)" });
        if std::env::var("MC_VERBOSE").is_ok() { for (k, n) in &outs[i] { println!("    {n:>10} {k}"); } }
    }
    for (k, (n, m)) in &known { println!("KNOWN-FINDING: property={} {} ({} executions; {})", c.id, listed.get(k).map(|s| s.as_str()).unwrap_or(k), n, m); }
    println!("{}: {} distinct states, {} transitions, {} executions, {:.1} s{}", c.id, states.len(), steps, cases, t0.elapsed().as_secs_f64(), if exhaustive { ", exhaustive within the stated bounds" } else { "" });
    if let Some((b, notes)) = found {
        std::fs::create_dir_all(format!("{root}/replay")).ok();
        let ch: Vec<String> = b.choices.iter().map(|c| c.to_string()).collect();
        let h = hash_of(&(b.scen, &b.choices));
        let p = format!("{root}/replay/{}-{}{:08x}.txt", c.id, if plain { "plain-" } else { "" }, h as u32);
        std::fs::write(&p, format!("property={}\ntier={tier}\nscenario={}\nchoices={}\nmessage={}\n\n{}\n", c.id, c.scenarios[b.scen].name, ch.join(","), clean(&b.msg), notes)).ok();
        println!("scenario: {}\nwhat: {}", c.scenarios[b.scen].name, b.msg);
        println!("VIOLATION property={} replay={}", c.id, p);
        code = 1;
    } else if !problems.is_empty() {
        for p in &problems { println!("ERROR: {p}"); }
        code = 2;
    } else {
        code = 0;
    }
    let _ = code;
    std::fs::remove_dir_all(&dir).ok();
    std::process::exit(code)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
