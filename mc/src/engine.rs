use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// Deterministic 64-bit hash (SipHash with fixed keys) of a state key.
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub suite: String,
    pub part: usize,
    pub idx: u64,
    pub desc: String,
    pub msg: String,
}

#[derive(Clone, Debug)]
struct Replay {
    suite: String,
    part: usize,
    idx: u64,
}

/// Crash journal, shared with the parent process through a memory mapped file: one slot per worker thread.
struct Journal {
    base: *mut AtomicU64,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
const SLOTS: usize = 64;
impl Journal {
    fn open() -> Journal {
        let path = std::env::var("MC_JOURNAL").ok();
        let len = SLOTS * 4 * 8;
        unsafe {
            let base = match path {
                Some(p) => {
                    let c = std::ffi::CString::new(p).unwrap();
                    let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
                    assert!(fd >= 0);
                    assert!(libc::ftruncate(fd, len as i64) == 0);
                    libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0)
                }
                None => libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0),
            };
            assert!(base != libc::MAP_FAILED);
            Journal { base: base as *mut AtomicU64 }
        }
    }
    fn slot(&self, s: usize, f: usize) -> &AtomicU64 {
        assert!(s < SLOTS && f < 4);
        unsafe { &*self.base.add(s * 4 + f) }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Location and message of the last panic caught on this thread.
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default()
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !QUIET.with(|q| *q.borrow()) {
            default(info)
        }
    }));
}

/// Runs `f`, turning a panic into Err(message with location).
/// A panic raised by harness code itself (a bug in the harness) is passed on, except when its message
/// starts with "element:" (an element operation of the harness that the library had no right to call).
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    match r {
        Ok(x) => Ok(x),
        Err(e) => {
            let (loc, msg) = last_panic();
            if loc.starts_with("src/") && !loc.starts_with("src/probe.rs") && !msg.starts_with("element:") {
                eprintln!("harness panic at {loc}: {msg}");
                std::panic::resume_unwind(e)
            }
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

/// Runs `f` like `lib` in a thread with the stack that threads usually have (2 MB): recursion must not go as deep as
/// the operands are long. An overflow ends the process, which the runner reports.
pub fn small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || lib(f)).expect("a thread");
        match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

#[derive(Default)]
struct SuiteStats {
    name: String,
    bound: String,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: u64,
    cuts: u64,
    extra: Vec<(String, f64)>,
    samples: Vec<String>,
    wall: f64,
}

pub struct Check {
    pub prop: String,
    pub tier: Tier,
    replay: Option<Replay>,
    suite_no: u64,
    suites: Vec<SuiteStats>,
    pub violations: Vec<Violation>,
    assumptions: Vec<String>,
    start: Instant,
    journal: Journal,
    threads: usize,
}

pub struct Worker<'a> {
    part: usize,
    idx: u64,
    journal: &'a Journal,
    slot: usize,
    replay: &'a Option<Replay>,
    suite: &'a str,
    pub tier: Tier,
    states: IdSet,
    plain_states: u64,
    transitions: u64,
    traces: u64,
    outcomes: IdSet,
    cuts: u64,
    extra: Vec<(String, f64)>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    stop: &'a AtomicBool,
}

pub const MAX_VIOL: usize = 3;

impl Worker<'_> {
    /// Counts `n` executed-and-compared library operations.
    pub fn ops(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Counts `n` states which are distinct by construction of the enumeration.
    pub fn distinct(&mut self, n: u64) {
        self.plain_states += n;
    }
    pub fn traces(&mut self, n: u64) {
        self.traces += n;
    }
    /// Registers a state by its canonical key, returns whether it is new for this worker.
    pub fn state<K: Hash + ?Sized>(&mut self, k: &K) -> bool {
        self.states.insert(h64(k))
    }
    /// Registers an observed outcome (to detect vacuous exploration).
    pub fn outcome<K: Hash + ?Sized>(&mut self, k: &K) {
        if self.outcomes.len() < 1 << 20 {
            self.outcomes.insert(h64(k));
        }
    }
    pub fn cut(&mut self) {
        self.cuts += 1;
    }
    /// Records a maximum of a measured quantity (e.g. an error in units of epsilon).
    pub fn max(&mut self, name: &str, v: f64) {
        for e in self.extra.iter_mut() {
            if e.0 == name {
                if v > e.1 {
                    e.1 = v
                }
                return;
            }
        }
        self.extra.push((name.to_string(), v));
    }
    /// Whether this is the additional run with overflow checks and debug assertions on.
    pub fn second_run(&self) -> bool {
        second_run()
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn violation(&mut self, mut desc: String, mut msg: String) {
        for s in [&mut desc, &mut msg] {
            if s.chars().count() > 1500 {
                *s = s.chars().take(1500).collect::<String>() + "...";
            }
        }
        if let Some(r) = self.replay {
            if r.idx != self.idx {
                return;
            }
        }
        if self.violations.len() < 200 {
            self.violations.push(Violation { suite: self.suite.to_string(), part: self.part, idx: self.idx, desc, msg });
        }
    }
    fn mark(&mut self) -> bool {
        self.idx += 1;
        self.journal.slot(self.slot, 2).store(self.idx, Relaxed);
        match self.replay {
            Some(r) => r.idx == self.idx,
            None => true,
        }
    }
    /// One case = one execution of the real code for one point of the enumerated space.
    /// `f` returns Err(message) if the property is violated; a panic of the library inside is one too.
    pub fn case<R>(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Self) -> Result<R, String>) -> Option<R> {
        if self.stopped() || !self.mark() {
            return None;
        }
        self.run_case(desc, f)
    }
    /// Like `case`, but also executed while replaying another case (for history exploration).
    pub fn step<R>(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Self) -> Result<R, String>) -> Option<R> {
        if self.stopped() {
            return None;
        }
        self.mark();
        if self.replay.as_ref().is_some_and(|r| r.idx < self.idx) {
            self.stop.store(true, Relaxed);
            return None;
        }
        self.run_case(desc, f)
    }
    fn run_case<R>(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Self) -> Result<R, String>) -> Option<R> {
        self.traces += 1;
        let res = lib(|| f(self));
        let sample = self.samples.len() < 2 || (self.samples.len() < 5 && self.traces.is_power_of_two() && self.traces > 64);
        match res {
            Ok(Ok(r)) => {
                if sample {
                    let d = desc();
                    self.samples.push(d);
                }
                if self.replay.as_ref().is_some_and(|r| r.idx == self.idx) {
                    println!("replay: case {}/{} of suite {}: property held", self.part, self.idx, self.suite);
                }
                Some(r)
            }
            Ok(Err(m)) | Err(m) => {
                let d = desc();
                self.violation(d, m);
                if self.violations.len() >= 200 {
                    self.stop.store(true, Relaxed);
                }
                None
            }
        }
    }
}

fn second_run() -> bool {
    matches!(std::env::var("MC_MODE").as_deref(), Ok("checked" | "lightchecked"))
}

/// Resident memory in bytes.
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) * 4096
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

fn field(line: &str, name: &str) -> Option<String> {
    let k = format!("\"{name}\"");
    let i = line.find(&k)? + k.len();
    let rest = line[i..].trim_start().strip_prefix(':')?.trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        let mut out = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(out),
                '\\' => match it.next()? {
                    'n' => out.push('\n'),
                    't' => out.push('\t'),
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                    }
                    c => out.push(c),
                },
                c => out.push(c),
            }
        }
        None
    } else {
        Some(rest.split([',', '}']).next()?.trim().to_string())
    }
}

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

impl Check {
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// Whether this is the additional run with overflow checks and debug assertions on.
    pub fn second_run(&self) -> bool {
        second_run()
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    /// `s` in the second run of the quick tier, `q` in its main run and in the second run of the thorough tier,
    /// `t` in the main run of the thorough tier.
    pub fn by<T>(&self, s: T, q: T, t: T) -> T {
        match (self.second_run(), self.quick()) {
            (true, true) => s,
            (false, false) => t,
            _ => q,
        }
    }
    /// Runs `parts` independent slices of an enumeration, in parallel.
    pub fn suite(&mut self, name: &str, bound: &str, parts: usize, f: impl Fn(&mut Worker, usize) + Sync) {
        self.suite_no += 1;
        let suite_no = self.suite_no;
        if let Some(r) = &mut self.replay {
            // suites may be given by number (from the journal of a crashed run)
            if r.suite != name && r.suite != format!("#{suite_no}") {
                return;
            }
            r.suite = name.to_string();
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let merged = Mutex::new((SuiteStats { name: name.into(), bound: bound.into(), ..Default::default() }, IdSet::default(), IdSet::default(), Vec::new()));
        let harness_panic = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let out_of_budget = AtomicBool::new(false);
        // limits that no run on a library of the expected cost comes near
        let (max_suite, max_run, max_mem) = if self.tier == Tier::Quick { (150, 330, 5u64 << 30) } else { (1500, 3000, 14u64 << 30) };
        let run_start = self.start;
        let nthreads = self.threads.min(parts).max(1);
        let limit = Duration::from_secs(std::env::var("MC_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(150));
        let (journal, replay, tier) = (&self.journal, &self.replay, self.tier);
        std::thread::scope(|sc| {
            let (next, stop, merged, f, harness_panic, done, out_of_budget) = (&next, &stop, &merged, &f, &harness_panic, &done, &out_of_budget);
            let mut hs = Vec::new();
            for slot in 0..nthreads {
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || loop {
                    let part = next.fetch_add(1, SeqCst);
                    if part >= parts || stop.load(Relaxed) {
                        journal.slot(slot, 0).store(0, Relaxed);
                        return;
                    }
                    if let Some(r) = replay {
                        if r.part != part {
                            continue;
                        }
                    }
                    journal.slot(slot, 1).store(part as u64, Relaxed);
                    journal.slot(slot, 2).store(0, Relaxed);
                    journal.slot(slot, 0).store(suite_no, Relaxed);
                    let mut w = Worker {
                        part,
                        idx: 0,
                        journal,
                        slot,
                        replay,
                        suite: name,
                        tier,
                        states: IdSet::default(),
                        plain_states: 0,
                        transitions: 0,
                        traces: 0,
                        outcomes: IdSet::default(),
                        cuts: 0,
                        extra: vec![],
                        samples: vec![],
                        violations: vec![],
                        stop,
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut w, part)));
                    if r.is_err() {
                        harness_panic.store(true, SeqCst);
                        stop.store(true, SeqCst);
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.transitions += w.transitions;
                    m.0.traces += w.traces;
                    m.0.cuts += w.cuts;
                    m.0.states += w.plain_states;
                    m.1.extend(w.states);
                    m.2.extend(w.outcomes);
                    for (k, v) in w.extra {
                        match m.0.extra.iter_mut().find(|e| e.0 == k) {
                            Some(e) => e.1 = e.1.max(v),
                            None => m.0.extra.push((k, v)),
                        }
                    }
                    for s in w.samples {
                        if m.0.samples.len() < 4 {
                            m.0.samples.push(s);
                        }
                    }
                    m.3.extend(w.violations);
                    if m.3.len() >= 200 {
                        stop.store(true, Relaxed);
                    }
                }).unwrap());
            }
            // watchdog: a case that does not come to an end is a violation (non-termination)
            let prop = self.prop.clone();
            let _wd = sc.spawn(move || {
                let mut seen = vec![(0u64, 0u64, 0u64, Instant::now()); nthreads];
                let mut tick = 0u32;
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    tick += 1;
                    if replay.is_none() && tick % 10 == 0 && (t0.elapsed().as_secs() > max_suite || run_start.elapsed().as_secs() > max_run || resident() > max_mem) {
                        out_of_budget.store(true, Relaxed);
                        stop.store(true, Relaxed);
                    }
                    for (s, e) in seen.iter_mut().enumerate() {
                        let now = (journal.slot(s, 0).load(Relaxed), journal.slot(s, 1).load(Relaxed), journal.slot(s, 2).load(Relaxed));
                        if now != (e.0, e.1, e.2) || now.0 == 0 || now.2 == 0 {
                            *e = (now.0, now.1, now.2, Instant::now());
                        } else if e.3.elapsed() > limit {
                            let v = Violation { suite: name.into(), part: e.1 as usize, idx: e.2, desc: format!("case {}/{} of suite {}", e.1, e.2, name), msg: format!("library call did not terminate within {limit:?}") };
                            let p = write_replay(&prop, tier, &v);
                            println!("VIOLATION property={prop} replay={p}");
                            println!("  {}: {}", v.desc, v.msg);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Relaxed);
        });
        if harness_panic.load(SeqCst) {
            eprintln!("engine error: harness panic in suite {name}");
            std::process::exit(3);
        }
        if out_of_budget.load(Relaxed) {
            println!("{} suite {name}: time or memory budget used up; the rest of this suite is left out", self.prop);
            merged.lock().unwrap().0.cuts += 1;
        }
        let (mut st, states, outcomes, mut viol) = merged.into_inner().unwrap();
        st.states += states.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.wall = t0.elapsed().as_secs_f64();
        viol.sort_by_key(|v: &Violation| (v.part, v.idx));
        println!(
            "{} {:<34} states={:<11} transitions={:<12} executions={:<11} outcomes={:<8}{} {:.2}s{}",
            self.prop, st.name, st.states, st.transitions, st.traces, st.outcomes,
            if st.cuts > 0 { format!(" cuts={}", st.cuts) } else { String::new() },
            st.wall,
            st.extra.iter().map(|(k, v)| format!(" {k}={v:.4}")).collect::<String>(),
        );
        self.violations.extend(viol);
        self.suites.push(st);
    }

    fn finish(self) -> ! {
        let known = std::fs::read_to_string(format!("{}/known_findings.jsonl", root())).unwrap_or_default();
        let mut fresh: Vec<&Violation> = vec![];
        let mut known_hit: Vec<String> = vec![];
        for v in &self.violations {
            let k = known.lines().find(|l| {
                field(l, "status").as_deref() == Some("known")
                    && field(l, "property").as_deref() == Some(&self.prop)
                    && field(l, "suite").as_deref() == Some(&v.suite)
                    && field(l, "case").as_deref() == Some(&v.desc)
                    && field(l, "message_prefix").is_some_and(|p| v.msg.starts_with(&p))
            });
            match k {
                Some(l) => known_hit.push(format!("{} [{}: {}]", field(l, "what").unwrap_or_default(), v.suite, v.desc)),
                None => fresh.push(v),
            }
        }
        for k in &known_hit {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        let mut shown = std::collections::HashMap::new();
        for v in &fresh {
            let n = shown.entry(v.suite.clone()).or_insert(0usize);
            *n += 1;
            if *n > MAX_VIOL {
                continue;
            }
            let p = write_replay(&self.prop, self.tier, v);
            println!("VIOLATION property={} replay={}", self.prop, p);
            println!("  suite {}, case {}/{}: {}\n  {}", v.suite, v.part, v.idx, v.desc, v.msg);
        }
        if self.replay.is_none() {
            if let Ok(p) = std::env::var("MC_SUMMARY") {
                // an additional run in another build mode: counts only, picked up by the main run
                let (s, t, e) = self.totals();
                let j = format!("{{\"mode\":\"{}\",\"tier\":\"{}\",\"states\":{s},\"transitions\":{t},\"executions\":{e},\"suites\":{},\"violations\":{},\"known_findings_hit\":{},\"wall_s\":{:.3}}}", mode(), if self.quick() { "quick" } else { "thorough" }, self.suites.len(), fresh.len(), known_hit.len(), self.start.elapsed().as_secs_f64());
                std::fs::write(p, j).expect("writing summary");
            } else {
                self.write_evidence(fresh.len(), known_hit.len());
            }
        } else if fresh.is_empty() {
            println!("replayed: no violation");
        }
        let (s, t, e) = self.totals();
        println!("{} {}: states={s} transitions={t} executions={e} violations={} known={} wall={:.1}s", self.prop, if self.quick() { "quick" } else { "thorough" }, fresh.len(), known_hit.len(), self.start.elapsed().as_secs_f64());
        std::process::exit(if fresh.is_empty() { 0 } else { 1 })
    }
    fn totals(&self) -> (u64, u64, u64) {
        self.suites.iter().fold((0, 0, 0), |a, s| (a.0 + s.states, a.1 + s.transitions, a.2 + s.traces))
    }
    fn write_evidence(&self, viol: usize, known: usize) {
        let (s, t, e) = self.totals();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut j = String::new();
        let tier = if self.quick() { "quick" } else { "thorough" };
        write!(j, "{{\"property\":\"{}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{", self.prop).unwrap();
        let cuts: u64 = self.suites.iter().map(|s| s.cuts).sum();
        write!(j, "\"states\":{s},\"transitions\":{t},\"traces_validated_against_impl\":{e},\"exhaustive\":{},", cuts == 0 && viol == 0).unwrap();
        write!(j, "\"explanation\":\"Every execution runs the real library code in lock-step with a reference model. states: distinct points of the enumerated space (or canonical states of the history search); transitions: library operations executed and compared; traces_validated_against_impl: complete executions. cut executions: {cuts}.\",").unwrap();
        let other = std::env::var("MC_PRIOR").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        write!(j, "\"known_findings_hit\":{known},\"build_mode\":\"{}\",\"runs_in_other_build_modes\":[{other}],\"suites\":[", mode()).unwrap();
        for (i, s) in self.suites.iter().enumerate() {
            if i > 0 {
                j.push(',')
            }
            write!(j, "{{\"suite\":\"{}\",\"bound\":\"{}\",\"states\":{},\"transitions\":{},\"executions\":{},\"distinct_outcomes\":{},\"cut\":{},\"wall_s\":{:.3}", esc(&s.name), esc(&s.bound), s.states, s.transitions, s.traces, s.outcomes, s.cuts, s.wall).unwrap();
            for (k, v) in &s.extra {
                write!(j, ",\"max_{}\":{}", esc(k), if v.is_finite() { format!("{v}") } else { format!("\"{v}\"") }).unwrap();
            }
            j.push('}');
        }
        j.push_str("],\"samples\":[");
        let mut first = true;
        for s in &self.suites {
            for x in s.samples.iter().take(2) {
                if !first {
                    j.push(',')
                }
                first = false;
                let mut x = x.clone();
                if x.len() > 400 {
                    x = x.chars().take(400).collect::<String>() + "...";
                }
                write!(j, "\"{}: {}\"", esc(&s.name), esc(&x)).unwrap();
            }
        }
        j.push_str("]},\"assumptions\":[");
        for (i, a) in self.assumptions.iter().enumerate() {
            write!(j, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(a)).unwrap();
        }
        write!(j, "],\"wall_s\":{:.3},\"violations\":{viol}}}\n", self.start.elapsed().as_secs_f64()).unwrap();
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.prop), j).expect("writing evidence");
    }
}

/// The build profile this run is made with (set by run.py).
fn mode() -> String {
    std::env::var("MC_MODE").unwrap_or_else(|_| if cfg!(debug_assertions) { "checked".into() } else { "release".into() })
}
fn write_replay(prop: &str, tier: Tier, v: &Violation) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{prop}-{}-{}-{}-{}.json", mode(), v.suite.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), v.part, v.idx);
    let j = format!(
        "{{\"property\":\"{prop}\",\"mode\":\"{}\",\"tier\":\"{}\",\"suite\":\"{}\",\"part\":{},\"idx\":{},\"case\":\"{}\",\"message\":\"{}\"}}\n",
        mode(), if tier == Tier::Quick { "quick" } else { "thorough" }, esc(&v.suite), v.part, v.idx, esc(&v.desc), esc(&v.msg)
    );
    let _ = std::fs::write(&p, j);
    p
}

/// Entry point of a check binary: `<bin> PROPERTY [--replay FILE]`, tier from VERIF_TIER.
pub fn main_for(checks: &[(&str, fn(&mut Check))]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let s = std::fs::read_to_string(&args[3]).expect("replay file");
        if field(&s, "tier").as_deref() == Some("thorough") {
            tier = Tier::Thorough
        } else {
            tier = Tier::Quick
        }
        replay = Some(Replay { suite: field(&s, "suite").expect("suite"), part: field(&s, "part").unwrap().parse().unwrap(), idx: field(&s, "idx").unwrap().parse().unwrap() });
    }
    // The library must not be able to take the machine down: bounded address space, allocation failure aborts.
    unsafe {
        let gb = if tier == Tier::Quick { 8 } else { 20 };
        let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let mut c = Check {
        prop,
        tier,
        replay,
        suite_no: 0,
        suites: vec![],
        violations: vec![],
        assumptions: vec![],
        start: Instant::now(),
        journal: Journal::open(),
        threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get())).min(SLOTS),
    };
    f(&mut c);
    c.finish()
}

/// All words of length `len` over 0..base, decoded from an index.
pub fn digits(mut i: usize, base: usize, len: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(i % base);
        i /= base;
    }
    v
}
/// Number of words of length <= max over `base` letters.
pub fn words_upto(base: usize, max: usize) -> usize {
    (0..=max).map(|l| base.pow(l as u32)).sum()
}
/// The i-th word of length <= max (shorter words first).
pub fn word(mut i: usize, base: usize) -> Vec<usize> {
    let mut l = 0;
    loop {
        let n = base.pow(l as u32);
        if i < n {
            return digits(i, base, l);
        }
        i -= n;
        l += 1;
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}
